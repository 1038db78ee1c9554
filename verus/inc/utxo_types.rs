// identifiers: texts told apart by derived equality
//@rules idents
//@end
#[verifier::external_body] #[derive(Debug)] pub struct TokenId { s: u8 }
#[verifier::external_body] pub struct UtxoPointer { s: u8 }
#[verifier::external_body] pub struct Address { s: u8 }
#[verifier::external_body] pub struct PolicyId { s: u8 }
#[verifier::external_body] pub struct AssetName { s: u8 }
pub mod serde_json { #[verifier::external_body] pub struct Value { s: u8 } }
pub uninterp spec fn main_token() -> TokenId;
impl TokenId {
    #[verifier::external_body] pub exec const MAIN: TokenId ensures TokenId::MAIN == main_token() { TokenId { s: 0 } }
    //@fn core/src/token_id.rs | impl Default for TokenId | default
    //@spec
        ensures r == main_token()
    //@end
}
impl Clone for TokenId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for UtxoPointer { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PolicyId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for AssetName { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for TokenId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for TokenId { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
pub struct Regulated;
//@item core/src/tx/transaction_asset.rs | struct | TransactionAsset
//@end
//@item core/src/tx/utxo.rs | struct | UTxODetails
//@end

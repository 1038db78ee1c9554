// assumed contracts of cardano-multiplatform-lib: hashes and names are byte strings, a multi-asset is a map, inputs and outputs are records
#[verifier::external_body] #[derive(Debug)] pub struct JsError { e: u8 }
#[derive(Clone, Copy)] pub struct BigNum(pub u64);
pub type Coin = BigNum;
impl BigNum {
    pub open spec fn int(&self) -> int { self.0 as int }
    pub fn from_u64(n: u64) -> (r: BigNum) ensures r.int() == n { BigNum(n) }
    pub fn to_u64(self) -> (r: u64) ensures r == self.int() { self.0 }
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<BigNum, JsError>)
        ensures
            digits(s@) ==> (r is Ok <==> number(s@) <= u64::MAX),
            digits(s@) ==> (r matches Ok(n) ==> n.int() == number(s@)),
            s@.len() > 0 && s@[0] == '-' ==> r is Err,
    { unimplemented!() }
}
/// the number a text of decimal digits stands for
pub open spec fn number(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { 10 * number(s.drop_last()) + (s.last() as int - '0' as int) } }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
/// an asset's bytes: policy id and name
pub type Id = (Seq<u8>, Seq<u8>);
#[verifier::external_body] pub struct PolicyID { b: u8 }
impl View for PolicyID { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl PolicyID {
    #[verifier::external_body] pub fn from_bytes(b: Vec<u8>) -> (r: Result<PolicyID, JsError>) ensures r is Ok <==> b@.len() == 28, r matches Ok(p) ==> p@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@, r@.len() == 28 { unimplemented!() }
}
/// how a name is written where it is part of a transaction: a head that gives its length, then its bytes
pub uninterp spec fn encoded(name: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub struct CmlAssetName { b: u8 }
impl View for CmlAssetName { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl CmlAssetName {
    #[verifier::external_body] pub fn new(b: Vec<u8>) -> (r: Result<CmlAssetName, JsError>) ensures r is Ok <==> b@.len() <= 32, r matches Ok(p) ==> p@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == encoded(self@) { unimplemented!() }
}
/// keys of a map, listed once each
pub open spec fn lists(keys: Seq<Seq<u8>>, dom: spec_fn(Seq<u8>) -> bool) -> bool {
    keys.no_duplicates() && forall|k: Seq<u8>| #![trigger dom(k)] #![trigger keys.contains(k)] keys.contains(k) <==> dom(k)
}
#[verifier::external_body] pub struct PolicyIDs { s: u8 }
impl View for PolicyIDs { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl PolicyIDs {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: PolicyID) requires i < self@.len() ensures r@ == self@[i as int] { unimplemented!() }
}
#[verifier::external_body] pub struct AssetNames { s: u8 }
impl View for AssetNames { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl AssetNames {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: CmlAssetName) requires i < self@.len() ensures r@ == self@[i as int] { unimplemented!() }
}
#[verifier::external_body] pub struct Assets { s: u8 }
impl View for Assets { type V = Map<Seq<u8>, int>; uninterp spec fn view(&self) -> Map<Seq<u8>, int>; }
impl Assets {
    #[verifier::external_body] pub fn keys(&self) -> (r: AssetNames) ensures lists(r@, |k: Seq<u8>| self@.contains_key(k)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, n: &CmlAssetName) -> (r: Option<BigNum>)
        ensures match r { Some(q) => self@.contains_key(n@) && q.int() == self@[n@], None => !self@.contains_key(n@) } { unimplemented!() }
}
#[verifier::external_body] pub struct MultiAsset { s: u8 }
/// what is held of each asset; a policy may be listed with no asset
impl View for MultiAsset { type V = Map<Id, int>; uninterp spec fn view(&self) -> Map<Id, int>; }
impl MultiAsset {
    pub uninterp spec fn policies(&self) -> Set<Seq<u8>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Id, int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: PolicyIDs)
        ensures lists(r@, |k: Seq<u8>| self.policies().contains(k)), forall|k: Id| #[trigger] self@.contains_key(k) ==> self.policies().contains(k.0) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &PolicyID) -> (r: Option<Assets>)
        ensures
            r is Some <==> self.policies().contains(p@),
            r matches Some(a) ==> forall|n: Seq<u8>| (#[trigger] a@.contains_key(n) <==> self@.contains_key((p@, n))) && (a@.contains_key(n) ==> a@[n] == self@[(p@, n)]),
    { unimplemented!() }
    #[verifier::external_body] pub fn set_asset(&mut self, p: &PolicyID, n: &CmlAssetName, v: &BigNum) -> (r: Option<BigNum>)
        ensures final(self)@ == old(self)@.insert((p@, n@), v.int()) { unimplemented!() }
}
#[verifier::external_body] pub struct CmlValue { s: u8 }
impl CmlValue {
    pub uninterp spec fn coins(&self) -> int;
    pub uninterp spec fn held(&self) -> Map<Id, int>;
    #[verifier::external_body] pub fn new(c: &Coin) -> (r: Self) ensures r.coins() == c.int(), r.held() == Map::<Id, int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn coin(&self) -> (r: Coin) ensures r.int() == self.coins() { unimplemented!() }
    #[verifier::external_body] pub fn multiasset(&self) -> (r: Option<MultiAsset>) ensures r matches Some(m) ==> m@ == self.held(), r is None ==> self.held() == Map::<Id, int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn set_multiasset(&mut self, m: &MultiAsset) ensures final(self).held() == m@, final(self).coins() == old(self).coins() { unimplemented!() }
}
#[verifier::external_body] pub struct CmlAddress { s: u8 }
/// the address a bech32 text stands for; the text of an address under its network's prefix
pub uninterp spec fn address_of(s: Seq<char>) -> Option<CmlAddress>;
pub uninterp spec fn address_text(a: CmlAddress) -> Option<Seq<char>>;
impl CmlAddress {
    #[verifier::external_body] pub fn from_bech32(s: &str) -> (r: Result<CmlAddress, JsError>) ensures r is Ok <==> address_of(s@) is Some, r matches Ok(a) ==> address_of(s@) == Some(a) { unimplemented!() }
    #[verifier::external_body] pub fn to_bech32(&self, prefix: Option<String>) -> (r: Result<String, JsError>)
        ensures prefix is None ==> (r is Ok <==> address_text(*self) is Some) && (r matches Ok(s) ==> address_text(*self) == Some(s@)) { unimplemented!() }
}
#[verifier::external_body] pub struct ScriptRef { s: u8 }
#[verifier::external_body] pub struct Datum { s: u8 }
#[verifier::external_body] pub struct TransactionHash { s: u8 }
impl View for TransactionHash { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl TransactionHash {
    #[verifier::external_body] pub fn from_hex(s: &str) -> (r: Result<TransactionHash, JsError>)
        ensures r is Ok <==> is_hex(s@) && s@.len() == 64, r matches Ok(h) ==> h@ == unhex(s@) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == hexof(self@) { unimplemented!() }
}
pub struct TransactionInput { pub hash: TransactionHash, pub at: BigNum }
impl TransactionInput {
    #[verifier::external_body] pub fn new(h: &TransactionHash, i: &BigNum) -> (r: Self) ensures r.hash == *h, r.at == *i { unimplemented!() }
    #[verifier::external_body] pub fn transaction_id(&self) -> (r: TransactionHash) ensures r == self.hash { unimplemented!() }
    #[verifier::external_body] pub fn index(&self) -> (r: BigNum) ensures r == self.at { unimplemented!() }
}
pub struct TransactionOutput { pub to: CmlAddress, pub holds: CmlValue, pub script: Option<ScriptRef>, pub data: Option<Datum> }
impl TransactionOutput {
    #[verifier::external_body] pub fn new(a: &CmlAddress, v: &CmlValue) -> (r: Self) ensures r.to == *a, r.holds == *v, r.script is None, r.data is None { unimplemented!() }
    #[verifier::external_body] pub fn address(&self) -> (r: CmlAddress) ensures r == self.to { unimplemented!() }
    #[verifier::external_body] pub fn amount(&self) -> (r: CmlValue) ensures r == self.holds { unimplemented!() }
    #[verifier::external_body] pub fn script_ref(&self) -> (r: Option<ScriptRef>) ensures r == self.script { unimplemented!() }
    #[verifier::external_body] pub fn datum(&self) -> (r: Option<Datum>) ensures r == self.data { unimplemented!() }
    #[verifier::external_body] pub fn set_script_ref(&mut self, s: &ScriptRef) ensures *final(self) == (TransactionOutput { script: Some(*s), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body] pub fn set_datum(&mut self, d: &Datum) ensures *final(self) == (TransactionOutput { data: Some(*d), ..*old(self) }) { unimplemented!() }
}
#[verifier::external_body] pub struct PartialPlutusWitness { s: u8 }
#[verifier::external_body] pub struct RequiredSigners { s: u8 }
#[verifier::external_body] pub struct PlutusData { s: u8 }
#[verifier::external_body] pub struct NativeScript { s: u8 }
#[verifier::external_body] pub struct NativeScriptWitnessInfo { s: u8 }
//@item cardano-utils/src/payment_credentials.rs | enum | CardanoPaymentCredentials
//@end
/// an input, what it spends, and by what right
#[verifier::external_body] pub struct InputBuilderResult { s: u8 }
impl InputBuilderResult {
    pub uninterp spec fn input(&self) -> TransactionInput;
    pub uninterp spec fn utxo(&self) -> TransactionOutput;
    pub uninterp spec fn right(&self) -> CardanoPaymentCredentials;
}
pub struct SingleInputBuilder { pub i: TransactionInput, pub o: TransactionOutput }
/// whether the library accepts the input (it may refuse a key at a script's address, say)
pub uninterp spec fn grants(b: SingleInputBuilder, by: CardanoPaymentCredentials) -> bool;
pub open spec fn made(b: SingleInputBuilder, r: InputBuilderResult, by: CardanoPaymentCredentials) -> bool { r.input() == b.i && r.utxo() == b.o && r.right() == by }
impl SingleInputBuilder {
    #[verifier::external_body] pub fn new(i: &TransactionInput, o: &TransactionOutput) -> (r: Self) ensures r.i == *i, r.o == *o { unimplemented!() }
    #[verifier::external_body] pub fn payment_key(self) -> (r: Result<InputBuilderResult, JsError>)
        ensures r is Ok <==> grants(self, CardanoPaymentCredentials::PaymentKey), r matches Ok(x) ==> made(self, x, CardanoPaymentCredentials::PaymentKey) { unimplemented!() }
    #[verifier::external_body] pub fn plutus_script(self, w: &PartialPlutusWitness, s: &RequiredSigners, d: &PlutusData) -> (r: Result<InputBuilderResult, JsError>)
        ensures r is Ok <==> grants(self, CardanoPaymentCredentials::PlutusScript { partial_witness: *w, required_signers: *s, datum: *d }), r matches Ok(x) ==> made(self, x, CardanoPaymentCredentials::PlutusScript { partial_witness: *w, required_signers: *s, datum: *d }) { unimplemented!() }
    #[verifier::external_body] pub fn native_script(self, s: &NativeScript, w: &NativeScriptWitnessInfo) -> (r: Result<InputBuilderResult, JsError>)
        ensures r is Ok <==> grants(self, CardanoPaymentCredentials::NativeScript { native_script: *s, witness_info: *w }), r matches Ok(x) ==> made(self, x, CardanoPaymentCredentials::NativeScript { native_script: *s, witness_info: *w }) { unimplemented!() }
}

// assumed contracts of cardano-multiplatform-lib: scripts are what they are made of, a script's hash is a function of the script
#[verifier::external_body] #[derive(Debug)] pub struct JsError { e: u8 }
#[verifier::external_body] pub struct Ed25519KeyHash { b: u8 }
#[verifier::external_body] pub struct NativeScript { s: u8 }
#[verifier::external_body] pub struct NativeScripts { s: u8 }
#[verifier::external_body] pub struct ScriptPubkey { s: u8 }
#[verifier::external_body] pub struct ScriptNOfK { s: u8 }
#[verifier::external_body] pub struct ScriptHash { b: u8 }
#[verifier::external_body] pub struct StakeCredential { s: u8 }
#[verifier::external_body] pub struct EnterpriseAddress { s: u8 }
#[verifier::external_body] pub struct Address { s: u8 }
/// a script that a key must sign; one that n of the scripts must be met for
pub uninterp spec fn signed_by(k: Ed25519KeyHash) -> NativeScript;
pub uninterp spec fn n_of(n: int, of: Seq<NativeScript>) -> NativeScript;
/// the hash of a script: 28 bytes
pub uninterp spec fn hash_of(s: NativeScript) -> Seq<u8>;
/// the address of a script's hash on a network, without a stake part
pub uninterp spec fn enterprise(network: u8, hash: Seq<u8>) -> Address;
impl View for NativeScripts { type V = Seq<NativeScript>; uninterp spec fn view(&self) -> Seq<NativeScript>; }
impl NativeScripts {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<NativeScript>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, s: &NativeScript) ensures final(self)@ == old(self)@.push(*s) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: NativeScript) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl View for ScriptPubkey { type V = Ed25519KeyHash; uninterp spec fn view(&self) -> Ed25519KeyHash; }
impl ScriptPubkey { #[verifier::external_body] pub fn new(k: &Ed25519KeyHash) -> (r: Self) ensures r@ == *k { unimplemented!() } }
impl View for ScriptNOfK { type V = (int, Seq<NativeScript>); uninterp spec fn view(&self) -> (int, Seq<NativeScript>); }
impl ScriptNOfK { #[verifier::external_body] pub fn new(n: u32, s: &NativeScripts) -> (r: Self) ensures r@ == (n as int, s@) { unimplemented!() } }
impl NativeScript {
    #[verifier::external_body] pub fn new_script_pubkey(s: &ScriptPubkey) -> (r: Self) ensures r == signed_by(s@) { unimplemented!() }
    #[verifier::external_body] pub fn new_script_n_of_k(s: &ScriptNOfK) -> (r: Self) ensures r == n_of(s@.0, s@.1) { unimplemented!() }
    #[verifier::external_body] pub fn hash(&self) -> (r: ScriptHash) ensures r@ == hash_of(*self) { unimplemented!() }
}
impl View for ScriptHash { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl ScriptHash {
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@, r@.len() == 28 { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes(b: Vec<u8>) -> (r: Result<Self, JsError>) ensures r is Ok <==> b@.len() == 28, r matches Ok(h) ==> h@ == b@ { unimplemented!() }
}
impl View for StakeCredential { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl StakeCredential { #[verifier::external_body] pub fn from_scripthash(h: &ScriptHash) -> (r: Self) ensures r@ == h@ { unimplemented!() } }
impl View for EnterpriseAddress { type V = (u8, Seq<u8>); uninterp spec fn view(&self) -> (u8, Seq<u8>); }
impl EnterpriseAddress {
    #[verifier::external_body] pub fn new(network: u8, c: &StakeCredential) -> (r: Self) ensures r@ == (network, c@) { unimplemented!() }
    #[verifier::external_body] pub fn to_address(&self) -> (r: Address) ensures r == enterprise(self@.0, self@.1) { unimplemented!() }
}
impl View for Ed25519KeyHash { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Ed25519KeyHash {
    #[verifier::external_body] pub fn from_bytes(b: Vec<u8>) -> (r: Result<Self, JsError>) ensures r is Ok <==> b@.len() == 28, r matches Ok(k) ==> k@ == b@ { unimplemented!() }
}
// assumed: hex, and serde's reading of a text
pub uninterp spec fn unhex(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn is_hex(s: Seq<char>) -> bool;
pub mod hex {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct FromHexError { e: u8 }
    #[verifier::external_body] pub fn decode(s: String) -> (r: Result<Vec<u8>, FromHexError>) ensures r is Ok <==> is_hex(s@), r matches Ok(b) ==> b@ == unhex(s@) { unimplemented!() }
}
#[verifier::external_body] pub struct DeError { e: u8 }
#[verifier::external_body] pub fn custom<T>(e: T) -> DeError { unimplemented!() }
/// what stands where a key is read: a text, or something else
pub enum Deserializer { Text(String), Other }
pub open spec fn text_in(d: Deserializer) -> Option<Seq<char>> { match d { Deserializer::Text(s) => Some(s@), Deserializer::Other => None } }
#[verifier::external_body] pub fn text_of(d: Deserializer) -> (r: Result<String, DeError>)
    ensures r is Ok <==> text_in(d) is Some, r matches Ok(s) ==> text_in(d) == Some(s@) { unimplemented!() }
//@fn cardano-utils/src/multisig_plan.rs | | deserialize_key_hash
//@sig < 'de , D > =>
//@sig deserializer : D => deserializer: Deserializer
//@sig where D : Deserializer < 'de > , D :: Error : serde :: de :: Error , =>
//@sig D :: Error => DeError
//@rewrite use serde :: de :: Error as _ ; =>
//@rewrite String :: deserialize ( deserializer ) => text_of(deserializer)
//@rewrite . map_err ( D :: Error :: custom ) => .map_err(|__e| -> (x: DeError) { custom(__e) })
//@spec
    ensures
        r is Ok <==> (text_in(deserializer) matches Some(t) && is_hex(t) && unhex(t).len() == 28),
        r matches Ok(k) ==> (text_in(deserializer) matches Some(t) && k@ == unhex(t)),
//@end
//@item cardano-utils/src/multisig_plan.rs | struct | MultisigPlan
//@end
//@item cardano-utils/src/multisig_plan.rs | struct | Hash
//@end
/// a script for each key, in their order
pub open spec fn signatures(keys: Seq<Hash>) -> Seq<NativeScript> { Seq::new(keys.len(), |i: int| signed_by(keys[i].0)) }
/// the plan's script: its quorum of its keys
pub open spec fn script_of(p: MultisigPlan) -> NativeScript { n_of(p.quorum as int, signatures(p.keys@)) }
impl MultisigPlan {
    //@fn cardano-utils/src/multisig_plan.rs | impl MultisigPlan | to_script
    //@rewrite . map ( | $k! | & $j . 0 ) => .map(|$k: &Hash| -> (h: &Ed25519KeyHash) ensures *h == $k.0 { &$j.0 })
    //@desugar for.it
    //@spec
        ensures r@ == seq![script_of(*self)]
    //@hint start
        let ghost all = signatures(self.keys@);
    //@hint before-loop 0
        let ghost s0 = __it0@;
    //@loop 0
        invariant
            all == signatures(self.keys@), s0.len() == all.len(), __it0@.len() <= s0.len(), __it0@ =~= s0.skip(s0.len() - __it0@.len()),
            forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] s0[i]) == self.keys@[i].0,
            scripts@ =~= all.take(s0.len() - __it0@.len()),
        ensures __it0@.len() == 0
        decreases __it0@.len()
    //@hint loop-start 0
        let ghost n = s0.len() - __it0@.len();
        proof { if n < s0.len() { assert(__it0@[0] == s0[n]); } }
    //@hint loop-end 0
        proof { assert(__it0@ =~= s0.skip(n + 1)); }
    //@hint after-loop 0
        proof { assert(all.take(all.len() as int) =~= all); }
    //@end
    //@fn cardano-utils/src/multisig_plan.rs | impl MultisigPlan | hash
    //@use anyhow
    //@desugar res.map_err
    //@spec
        ensures r@ == hash_of(script_of(*self))
    //@end
    //@fn cardano-utils/src/multisig_plan.rs | impl MultisigPlan | address
    //@spec
        ensures r == enterprise(network_id, hash_of(script_of(*self)))
    //@end
}

// assumed contracts of cardano-multiplatform-lib: numbers of 64 bits written in decimal, a linear fee, the length of a script
/// the number a text of decimal digits stands for
pub open spec fn number(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { 10 * number(s.drop_last()) + (s.last() as int - '0' as int) } }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
/// a text that names a 64-bit number
pub open spec fn numeral(s: Seq<char>) -> bool { digits(s) && number(s) <= u64::MAX }
/// the text of a machine integer
#[verifier::external_body] pub fn text_of(n: usize) -> (r: String) ensures numeral(r@), number(r@) == n { unimplemented!() }
#[verifier::external_body] #[derive(Debug)] pub struct JsError { e: u8 }
#[derive(Clone, Copy)] pub struct BigNum(pub u64);
pub type Coin = BigNum;
impl BigNum {
    pub open spec fn int(&self) -> int { self.0 as int }
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<BigNum, JsError>) ensures numeral(s@) ==> (r matches Ok(n) && n.int() == number(s@)) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: String) ensures numeral(r@), number(r@) == self.int() { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(&self, o: &BigNum) -> (r: Result<BigNum, JsError>)
        ensures r is Ok <==> self.int() * o.int() <= u64::MAX, r matches Ok(n) ==> n.int() == self.int() * o.int() { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(&self, o: &BigNum) -> (r: Result<BigNum, JsError>)
        ensures r is Ok <==> self.int() + o.int() <= u64::MAX, r matches Ok(n) ==> n.int() == self.int() + o.int() { unimplemented!() }
}
pub struct LinearFee { pub coefficient: BigNum, pub constant: BigNum }
impl LinearFee {
    #[verifier::external_body] pub fn new(coefficient: &BigNum, constant: &BigNum) -> (r: LinearFee) ensures r.coefficient == *coefficient, r.constant == *constant { unimplemented!() }
    #[verifier::external_body] pub fn coefficient(&self) -> (r: BigNum) ensures r == self.coefficient { unimplemented!() }
    #[verifier::external_body] pub fn constant(&self) -> (r: BigNum) ensures r == self.constant { unimplemented!() }
}
#[verifier::external_body] pub struct NativeScripts { s: u8 }
#[verifier::external_body] pub struct Hash { s: u8 }
//@item cardano-utils/src/multisig_plan.rs | struct | MultisigPlan
//@end
/// the script of a plan: n of its keys must sign
pub uninterp spec fn script_of(plan: MultisigPlan) -> NativeScripts;
/// the encoding of a witness set that holds these scripts and nothing else
pub uninterp spec fn script_bytes(s: NativeScripts) -> Seq<u8>;
pub open spec fn script_len(s: NativeScripts) -> int { script_bytes(s).len() as int }
impl MultisigPlan {
    #[verifier::external_body] pub fn to_script(&self) -> (r: NativeScripts) ensures r == script_of(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct TransactionWitnessSet { s: u8 }
impl TransactionWitnessSet {
    pub uninterp spec fn scripts(&self) -> Option<NativeScripts>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.scripts() is None { unimplemented!() }
    #[verifier::external_body] pub fn set_native_scripts(&mut self, s: &NativeScripts) ensures final(self).scripts() == Some(*s) { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@.len() <= isize::MAX, self.scripts() matches Some(s) ==> r@ == script_bytes(s) { unimplemented!() }
}

// ---- assumed: hex, Blake2b, the text inside the identifiers, padding of a formatted string -----
/// the bytes a hexadecimal text stands for
pub uninterp spec fn unhex(s: Seq<char>) -> Seq<u8>;
/// the lower-case hexadecimal text of bytes
pub uninterp spec fn hexof(b: Seq<u8>) -> Seq<char>;
/// Blake2b with the given digest size in bits
pub uninterp spec fn blake2b(bits: int, data: Seq<u8>) -> Seq<u8>;

#[derive(Debug)]
pub struct FromHexError { e: u8 }
impl core::convert::From<FromHexError> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: FromHexError) -> anyhow::Error { unimplemented!() }
}
pub mod hex {
    use super::*;
    /// refuses text that is not hexadecimal or whose length is not twice that of the output
    #[verifier::external_body]
    pub fn decode_to_slice(data: &str, out: &mut [u8]) -> (r: Result<(), FromHexError>)
        ensures
            final(out)@.len() == old(out)@.len(),
            r.is_ok() <==> is_hex(data@) && data@.len() == 2 * old(out)@.len(),
            r.is_ok() ==> final(out)@ == unhex(data@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encode(b: [u8; 20]) -> (r: String) ensures r@ == hexof(b@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Blake2b<const BITS: usize> { s: u8 }
pub uninterp spec fn absorbed<const BITS: usize>(c: Blake2b<BITS>) -> Seq<u8>;
impl<const BITS: usize> Blake2b<BITS> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures absorbed(r) == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(self, d: &Vec<u8>) -> (r: Self) ensures absorbed(r) == absorbed(self) + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize_at(self, out: &mut [u8; 20])
        requires BITS == 160
        ensures final(out)@ == blake2b(BITS as int, absorbed(self))
    { unimplemented!() }
}
/// length in bytes of a string (UTF-8): hexadecimal digits are one byte each, so it is the number of characters for hex text
pub mod text {
    use vstd::prelude::*;
    pub open spec fn hexdigit(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
    pub open spec fn is_hex(s: Seq<char>) -> bool { s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> hexdigit(#[trigger] s[i]) }
    pub uninterp spec fn bytelen(s: Seq<char>) -> nat;
    pub broadcast axiom fn ax_bytelen(s: Seq<char>)
        ensures s.len() <= #[trigger] bytelen(s), is_hex(s) ==> bytelen(s) == s.len();
}
use text::is_hex;
broadcast use text::ax_bytelen;
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == text::bytelen(s@), r <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn pad_right_zeros_to_64(s: String) -> (r: String)
    ensures r@ == s@ + Seq::new(if s@.len() < 64 { (64 - s@.len()) as nat } else { 0 }, |i: int| '0')
{ unimplemented!() }

#[verifier::external_body] pub struct PolicyId { s: String }
#[verifier::external_body] pub struct AssetName { s: String }
#[verifier::external_body] pub struct TokenId { s: String }
impl View for PolicyId { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for AssetName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for TokenId { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PolicyId { #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl AssetName { #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl TokenId { #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() } }

/// the CIP-14 hash
pub open spec fn cip14(policy: Seq<char>, name: Seq<char>) -> Seq<u8> { blake2b(160, unhex(policy) + unhex(name)) }
pub open spec fn well_formed(policy: Seq<char>, name: Seq<char>) -> bool { policy.len() == 56 && is_hex(policy) && is_hex(name) }

// ---- the real code ----------------------------------------------------------------------------
//@fn cardano-utils/src/cip14.rs | | fingerprint_hash
//@use anyhow
//@use ranges
//@rewrite name . as_ref ( ) . len ( ) => str_len(name.as_ref())
//@rewrite policy . as_ref ( ) . len ( ) => str_len(policy.as_ref())
//@spec
    ensures
        r.is_ok() <==> well_formed(policy@, name@),
        r matches Ok(h) ==> h@ == cip14(policy@, name@),
//@hint before let b2b
    proof { assert(buf@ =~= unhex(policy@) + unhex(name@)); assert(Seq::<u8>::empty() + buf@ =~= buf@); }
//@end

//@fn cardano-utils/src/cip14.rs | | fingerprint
//@sig Result < TokenId > => anyhow::Result<TokenId>
//@desugar res.map
//@rewrite format ! ( "{:0<64}" , $x ) => pad_right_zeros_to_64($x)
//@spec
    ensures
        r.is_ok() <==> well_formed(policy@, name@),
        r matches Ok(t) ==> t@ == hexof(cip14(policy@, name@))
            + Seq::new(if hexof(cip14(policy@, name@)).len() < 64 { (64 - hexof(cip14(policy@, name@)).len()) as nat } else { 0 }, |i: int| '0'),
//@end

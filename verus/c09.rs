// C09: identifiers hold exactly the text they were made from
use vstd::prelude::*;
verus! {

// ---- assumed: std's Cow<'static, str> as the text it holds -------------------------------------
#[verifier::external_body] pub struct Text { s: std::borrow::Cow<'static, str> }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub mod enc {
    use vstd::prelude::*;
    /// the UTF-8 encoding of a text; one encoding per text, and no two texts share one
    pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
    pub uninterp spec fn un_utf8(b: Seq<u8>) -> Seq<char>;
    pub broadcast axiom fn ax_utf8(s: Seq<char>) ensures un_utf8(#[trigger] utf8(s)) == s;
}
pub use enc::*;
broadcast use ax_utf8;
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
impl Text {
    /// Cow::Borrowed
    #[verifier::external_body] pub const fn borrowed(s: &'static str) -> (r: Self) ensures r@ == s@ { Text { s: std::borrow::Cow::Borrowed(s) } }
    /// Cow's AsRef<str> and Deref
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    /// str::as_bytes and str::starts_with through Deref
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, p: &str) -> (r: bool) ensures r == begins(self@, p@) { unimplemented!() }
}
#[verifier::external_body] pub fn str_bytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body] pub fn str_owned(s: &str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
/// Into<Cow<'static, str>>: the text the argument holds
pub trait IntoText: Sized { spec fn held(self) -> Seq<char>; fn into(self) -> (r: Text) ensures r@ == self.held(); }
impl IntoText for Text { open spec fn held(self) -> Seq<char> { self@ } fn into(self) -> Text { self } }
/// AsRef<str> of an argument
pub trait AsText { spec fn seen(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.seen(); }
#[derive(Debug)] pub struct Infallible { n: u8 }
pub mod fmt {
    use vstd::prelude::*;
    #[derive(Debug)] pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    #[verifier::external_body] pub struct Formatter<'a> { s: &'a u8 }
    impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    /// Display for Cow<str> (without width or precision)
    #[verifier::external_body] pub fn fmt_text(t: &super::Text, f: &mut Formatter<'_>) -> (r: Result)
        ensures r is Ok, final(f)@ == old(f)@ + t@
    { unimplemented!() }
    #[verifier::external_body] pub fn fmt_u64(n: &u64, f: &mut Formatter<'_>) -> (r: Result)
        ensures r is Ok, final(f)@ == old(f)@ + super::dec(*n)
    { unimplemented!() }
    #[verifier::external_body] pub fn fmt_char(c: char, f: &mut Formatter<'_>) -> (r: Result)
        ensures r is Ok, final(f)@ == old(f)@.push(c)
    { unimplemented!() }
    /// what `write!` with the format "{hash}@{index}" stands for
    pub fn write_pointer(f: &mut Formatter<'_>, hash: &super::TransactionId, index: &super::OutputIndex) -> (r: Result)
        ensures r is Ok, final(f)@ == (old(f)@ + hash.text()).push('@') + super::dec(index.0)
    { hash.fmt(f)?; fmt_char('@', f)?; index.fmt(f) }
}
/// the decimal text of a number (Display for u64)
pub uninterp spec fn dec(n: u64) -> Seq<char>;
pub uninterp spec fn num_of(s: Seq<char>) -> Option<u64>;
pub broadcast axiom fn ax_dec(n: u64) ensures num_of(#[trigger] dec(n)) == Some(n);
pub axiom fn ax_dec_digits(n: u64) ensures forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9';
//@rules ids
Cow < 'static , str > => Text
Cow :: Borrowed ( $y ) => Text::borrowed($y)
self . 0 . fmt ( $f ) => fmt::fmt_text(&self.0, $f)
self . 0 . as_ref ( ) . as_bytes ( ) => str_bytes(self.0.as_ref())
s . to_owned ( ) => str_owned(s)
//@end

//@item core/src/block_id.rs | struct | BlockId
//@rewrite Cow < 'static , str > => Text
//@end
impl BlockId {
    pub closed spec fn text(&self) -> Seq<char> { self.0@ }
    //@fn core/src/block_id.rs | impl BlockId | new
    //@use ids
    //@sig B : Into < Cow < 'static , str > > , => B: IntoText,
    //@spec
        ensures r.text() == block_id.held()
    //@end
    //@fn core/src/block_id.rs | impl BlockId | starts_with
    //@use ids
    //@sig P : AsRef < str > , => P: AsText,
    //@spec
        ensures r == begins(self.text(), prefix.seen())
    //@end
    //@fn core/src/block_id.rs | impl BlockId | new_static
    //@use ids
    //@spec
        ensures r.text() == block_id@
    //@end
    //@fn core/src/block_id.rs | impl AsRef<str> for BlockId | as_ref
    //@use ids
    //@spec
        ensures r@ == self.text()
    //@end
    //@fn core/src/block_id.rs | impl fmt::Display for BlockId | fmt
    //@use ids
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + self.text()
    //@end
}
impl BlockId {
    //@fn core/src/block_id.rs | impl AsRef<[u8]> for BlockId | as_ref
    //@use ids
    //@sig fn as_ref => fn as_ref_bytes
    //@spec
        ensures r@ == utf8(self.text())
    //@end
}

//@item core/src/address.rs | struct | Address
//@rewrite Cow < 'static , str > => Text
//@end
impl Address {
    pub closed spec fn text(&self) -> Seq<char> { self.0@ }
    //@fn core/src/address.rs | impl Address | new
    //@use ids
    //@sig B : Into < Cow < 'static , str > > , => B: IntoText,
    //@spec
        ensures r.text() == block_id.held()
    //@end
    //@fn core/src/address.rs | impl Address | starts_with
    //@use ids
    //@sig P : AsRef < str > , => P: AsText,
    //@spec
        ensures r == begins(self.text(), prefix.seen())
    //@end
    //@fn core/src/address.rs | impl Address | new_static
    //@use ids
    //@spec
        ensures r.text() == block_id@
    //@end
    //@fn core/src/address.rs | impl AsRef<str> for Address | as_ref
    //@use ids
    //@spec
        ensures r@ == self.text()
    //@end
    //@fn core/src/address.rs | impl fmt::Display for Address | fmt
    //@use ids
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + self.text()
    //@end
    //@fn core/src/address.rs | impl Deref for Address | deref
    //@use ids
    //@sig Self :: Target => str
    //@spec
        ensures r@ == self.text()
    //@end
    //@fn core/src/address.rs | impl str::FromStr for Address | from_str
    //@use ids
    //@sig Self :: Err => Infallible
    //@spec
        ensures r matches Ok(x) && x.text() == s@
    //@end
}

//@item core/src/tx/transaction_id.rs | struct | TransactionId
//@rewrite Cow < 'static , str > => Text
//@end
impl TransactionId {
    pub closed spec fn text(&self) -> Seq<char> { self.0@ }
    //@item core/src/tx/transaction_id.rs | const | impl TransactionId ::> ZERO
    //@rewrite Cow :: Borrowed ( $y ) => Text::borrowed($y)
    //@rewrite pub const ZERO : Self = $x ; => pub exec const ZERO: Self ensures Self::ZERO.text() == "N/A"@ { $x }
    //@end
    //@fn core/src/tx/transaction_id.rs | impl TransactionId | new
    //@use ids
    //@sig B : Into < Cow < 'static , str > > , => B: IntoText,
    //@spec
        ensures r.text() == block_id.held()
    //@end
    //@fn core/src/tx/transaction_id.rs | impl TransactionId | starts_with
    //@use ids
    //@sig P : AsRef < str > , => P: AsText,
    //@spec
        ensures r == begins(self.text(), prefix.seen())
    //@end
    //@fn core/src/tx/transaction_id.rs | impl TransactionId | new_static
    //@use ids
    //@spec
        ensures r.text() == block_id@
    //@end
    //@fn core/src/tx/transaction_id.rs | impl AsRef<str> for TransactionId | as_ref
    //@use ids
    //@spec
        ensures r@ == self.text()
    //@end
    //@fn core/src/tx/transaction_id.rs | impl fmt::Display for TransactionId | fmt
    //@use ids
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + self.text()
    //@end
}
impl TransactionId {
    //@fn core/src/tx/transaction_id.rs | impl AsRef<[u8]> for TransactionId | as_ref
    //@use ids
    //@sig fn as_ref => fn as_ref_bytes
    //@spec
        ensures r@ == utf8(self.text())
    //@end
}

//@item core/src/token_id.rs | struct | TokenId
//@rewrite Cow < 'static , str > => Text
//@end
impl TokenId {
    pub closed spec fn text(&self) -> Seq<char> { self.0@ }
    //@item core/src/token_id.rs | const | impl TokenId ::> MAIN
    //@rewrite Cow :: Borrowed ( $y ) => Text::borrowed($y)
    //@rewrite pub const MAIN : Self = $x ; => pub exec const MAIN: Self ensures Self::MAIN.text() == "0000000000000000000000000000000000000000000000000000000000000000"@ { $x }
    //@end
    //@fn core/src/token_id.rs | impl TokenId | new
    //@use ids
    //@sig impl Into < Cow < 'static , str > > => impl IntoText
    //@spec
        ensures r.text() == token_id.held()
    //@end
    //@fn core/src/token_id.rs | impl TokenId | new_static
    //@use ids
    //@spec
        ensures r.text() == token_id@
    //@end
    //@fn core/src/token_id.rs | impl AsRef<str> for TokenId | as_ref
    //@use ids
    //@spec
        ensures r@ == self.text()
    //@end
    //@fn core/src/token_id.rs | impl fmt::Display for TokenId | fmt
    //@use ids
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + self.text()
    //@end
    //@fn core/src/token_id.rs | impl str::FromStr for TokenId | from_str
    //@use ids
    //@sig Self :: Err => Infallible
    //@spec
        ensures r matches Ok(x) && x.text() == s@
    //@end
    //@fn core/src/token_id.rs | impl Default for TokenId | default
    //@use ids
    //@spec
        ensures r.text() == "0000000000000000000000000000000000000000000000000000000000000000"@
    //@end
}

//@item core/src/policy_id.rs | struct | PolicyId
//@rewrite Cow < 'static , str > => Text
//@end
impl PolicyId {
    pub closed spec fn text(&self) -> Seq<char> { self.0@ }
    //@fn core/src/policy_id.rs | impl PolicyId | new
    //@use ids
    //@sig impl Into < Cow < 'static , str > > => impl IntoText
    //@spec
        ensures r.text() == policy_id.held()
    //@end
    //@fn core/src/policy_id.rs | impl PolicyId | new_static
    //@use ids
    //@spec
        ensures r.text() == token_id@
    //@end
    //@fn core/src/policy_id.rs | impl AsRef<str> for PolicyId | as_ref
    //@use ids
    //@spec
        ensures r@ == self.text()
    //@end
    //@fn core/src/policy_id.rs | impl fmt::Display for PolicyId | fmt
    //@use ids
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + self.text()
    //@end
}

//@item core/src/asset_name.rs | struct | AssetName
//@rewrite Cow < 'static , str > => Text
//@end
impl AssetName {
    pub closed spec fn text(&self) -> Seq<char> { self.0@ }
    //@item core/src/asset_name.rs | const | impl AssetName ::> MAIN
    //@rewrite Cow :: Borrowed ( $y ) => Text::borrowed($y)
    //@rewrite pub const MAIN : Self = $x ; => pub exec const MAIN: Self ensures Self::MAIN.text() == "414441"@ { $x }
    //@end
    //@fn core/src/asset_name.rs | impl AssetName | new
    //@use ids
    //@sig impl Into < Cow < 'static , str > > => impl IntoText
    //@spec
        ensures r.text() == asset_name.held()
    //@end
    //@fn core/src/asset_name.rs | impl AssetName | new_static
    //@use ids
    //@spec
        ensures r.text() == asset_name@
    //@end
    //@fn core/src/asset_name.rs | impl AsRef<str> for AssetName | as_ref
    //@use ids
    //@spec
        ensures r@ == self.text()
    //@end
    //@fn core/src/asset_name.rs | impl fmt::Display for AssetName | fmt
    //@use ids
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + self.text()
    //@end
}

//@item core/src/output_index.rs | struct | OutputIndex
//@rewrite ( u64 ) => (pub u64)
//@end
impl OutputIndex {
    //@fn core/src/output_index.rs | impl fmt::Display for OutputIndex | fmt
    //@rewrite self . 0 . fmt ( $f ) => fmt::fmt_u64(&self.0, $f)
    //@spec
        ensures r is Ok, final(f)@ == old(f)@ + dec(self.0)
    //@end
}
//@item core/src/tx/utxo.rs | struct | UtxoPointer
//@end
impl UtxoPointer {
    pub open spec fn shown(&self) -> Seq<char> { self.transaction_id.text().push('@') + dec(self.output_index.0) }
    //@fn core/src/tx/utxo.rs | impl fmt::Display for UtxoPointer | fmt
    //@rewrite write ! ( f , "{hash}@{index}" , hash = $a , index = $b , ) => fmt::write_pointer(f, &$a, &$b)
    //@spec
        ensures r is Ok, final(f)@ =~= old(f)@ + self.shown()
    //@end
}

// ---- records made of identifiers ----
#[verifier::external_body] pub struct Regulated { u: u8 }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Value<T> { p: std::marker::PhantomData<T> }
impl<T> Value<T> { pub uninterp spec fn is_zero(&self) -> bool; }
/// Value's Default (under contract in verus/inc/value.rs)
#[verifier::external_body] pub fn zero_value<T>() -> (r: Value<T>) ensures r.is_zero() { unimplemented!() }
//@item core/src/tx/transaction_asset.rs | struct | TransactionAsset
//@end
impl TransactionAsset {
    //@fn core/src/tx/transaction_asset.rs | impl TransactionAsset | new
    //@rewrite quantity : Default :: default ( ) => quantity: zero_value()
    //@spec
        ensures r.policy_id == policy_id, r.asset_name == asset_name, r.fingerprint == fingerprint, r.quantity.is_zero()
    //@end
}
//@item core/src/tx/utxo.rs | struct | UTxOBuilder
//@end
impl UTxOBuilder {
    //@fn core/src/tx/utxo.rs | impl UTxOBuilder | new
    //@spec
        ensures r.address == address, r.value == value, r.assets == assets, r.extra is None
    //@end
}

/// two pointers that are shown alike are the same transaction and index: nothing after the last '@' is one
pub proof fn shown_apart(a: UtxoPointer, b: UtxoPointer)
    requires a.shown() == b.shown()
    ensures a.transaction_id.text() == b.transaction_id.text(), a.output_index.0 == b.output_index.0
{
    ax_dec_digits(a.output_index.0); ax_dec_digits(b.output_index.0);
    let (s, x, y) = (a.shown(), a.transaction_id.text().len() as int, b.transaction_id.text().len() as int);
    let (da, db) = (dec(a.output_index.0), dec(b.output_index.0));
    assert(s.len() == x + 1 + da.len() && s.len() == b.shown().len() && b.shown().len() == y + 1 + db.len());
    assert(s[x] == '@' && b.shown()[y] == '@');
    if x < y { assert(s[y] == da[y - x - 1]); }
    if y < x { assert(s[x] == db[x - y - 1]); }
    assert(x == y);
    assert(a.transaction_id.text() =~= s.subrange(0, x) && b.transaction_id.text() =~= s.subrange(0, x));
    assert(da =~= s.subrange(x + 1, s.len() as int) && db =~= s.subrange(x + 1, s.len() as int));
    ax_dec(a.output_index.0); ax_dec(b.output_index.0);
}
/// what was put in comes out, and different texts make identifiers that differ in every form
pub proof fn bytes_apart(a: BlockId, b: BlockId) requires utf8(a.text()) == utf8(b.text()) ensures a.text() == b.text()
{ ax_utf8(a.text()); ax_utf8(b.text()); }
fn main() {}
}

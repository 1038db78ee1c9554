// conversions of UTxOs (cardano-utils/src/utxo.rs)
pub struct Regulated;
pub mod serde_json { #[verifier::external_body] pub struct Value { s: u8 } }
#[verifier::external_body] pub struct Address { s: u8 }
#[verifier::external_body] pub struct TransactionId { s: u8 }
impl View for Address { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for TransactionId { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Address {
    #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl TransactionId {
    #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl PolicyId {
    #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl AssetName {
    #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl Clone for TokenId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// a token id is its text
pub axiom fn ax_token(a: TokenId, b: TokenId) ensures a@ == b@ ==> a == b;
//@item core/src/output_index.rs | struct | OutputIndex
//@rewrite ( u64 ) => (pub u64)
//@attr #[derive(Clone, Copy)]
//@end
impl OutputIndex {
    //@fn core/src/output_index.rs | impl OutputIndex | new
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/output_index.rs | impl From<OutputIndex> for u64 | from
    //@as u64_from
    //@sig -> Self => -> u64
    //@spec
        ensures r == __p0.0
    //@end
    pub fn to_u64(self) -> (r: u64) ensures r == self.0 { OutputIndex::u64_from(self) }
}
//@item core/src/tx/transaction_asset.rs | struct | TransactionAsset
//@end
impl Clone for TransactionAsset { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item core/src/tx/utxo.rs | struct | UtxoPointer
//@end
//@item core/src/tx/utxo.rs | struct | UTxODetails
//@end
//@item core/src/tx/utxo.rs | struct | UTxOBuilder
//@end
//@item cardano-utils/src/utxo.rs | struct | CardanoUTxOExtra
//@rewrite script_ref : => pub script_ref:
//@rewrite datum : => pub datum:
//@end
/// what a JSON text of extras stands for
pub uninterp spec fn extra_of(s: Seq<char>) -> Option<CardanoUTxOExtra>;
#[verifier::external_body] pub fn extra_from(s: &String) -> (r: Result<CardanoUTxOExtra, JsError>) ensures r is Ok <==> extra_of(s@) is Some, r matches Ok(x) ==> extra_of(s@) == Some(x) { unimplemented!() }
#[verifier::external_body] pub fn extra_text(x: &CardanoUTxOExtra) -> (r: Result<String, JsError>) ensures r matches Ok(s) && extra_of(s@) == Some(*x) { unimplemented!() }
#[verifier::external_body] pub fn no_metadata() -> (r: Arc<serde_json::Value>) { unimplemented!() }
pub trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> Text for &'a str { open spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn decode_text<T: Text>(t: T) -> (r: Result<Vec<u8>, FromHexError>) ensures r is Ok <==> is_hex(t.text()), r matches Ok(b) ==> b@ == unhex(t.text()) && 2 * b@.len() == t.text().len() { unimplemented!() }
#[verifier::external_body] pub fn encode_bytes(b: Vec<u8>) -> (r: String) ensures r@ == hexof(b@) { unimplemented!() }
/// hexadecimal text of bytes reads back as the bytes
pub broadcast axiom fn ax_hex(b: Seq<u8>) ensures (#[trigger] hexof(b)).len() == 2 * b.len(), is_hex(hexof(b)), unhex(hexof(b)) == b;
/// the integer n is x without its fractional part
pub open spec fn cut(n: int, x: real) -> bool { is_trunc(n as real, x) }
impl BigDecimal {
    #[verifier::external_body] pub fn to_u64(&self) -> (r: Option<u64>)
        ensures match r { Some(n) => self.val() >= 0real && cut(n as int, self.val()), None => self.val() < 0real || forall|n: u64| !cut(n as int, self.val()) }
    { unimplemented!() }
}
impl<Rep> Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> ToPrimitive for Value<Rep> | to_u64
    //@spec
        ensures match r { Some(n) => self.val() >= 0real && cut(n as int, self.val()), None => self.val() < 0real || forall|n: u64| !cut(n as int, self.val()) }
    //@end
    //@fn core/src/value.rs | impl<Rep> Value<Rep> | truncate
    //@spec
        ensures is_trunc(r.val(), self.val()), r.value.scale() <= 0
    //@hint start
        proof { assert(is_int(0real, 0)); }
    //@end
    /// the text of an amount (C05): of one without a fraction, its digits
    #[verifier::external_body] pub fn to_string(&self) -> (r: String)
        ensures self.value.scale() <= 0 && self.val() >= 0real ==> digits(r@) && is_int(self.val(), number(r@)), self.val() < 0real ==> r@.len() > 0 && r@[0] == '-'
    { unimplemented!() }
}
//@rules conv
Coin :: from ( => BigNum::from_u64(
BigNum :: from ( => BigNum::from_u64(
u64 :: from ( $e ) => ($e).to_u64()
hex :: decode ( => decode_text(
hex :: encode ( => encode_bytes(
cardano_multiplatform_lib :: ledger :: common :: value :: Value => CmlValue
cardano_multiplatform_lib :: AssetName => CmlAssetName
cardano_multiplatform_lib :: address :: Address => CmlAddress
deps :: bigdecimal :: BigDecimal => BigDecimal
serde_json :: from_str ( => extra_from(
serde_json :: to_string ( => extra_text(
Arc :: new ( Default :: default ( ) ) => no_metadata()
. values ( ) . cloned ( ) . collect :: < Vec < _ > > ( ) => .cloned_values()
BigNum :: from_str ( & $e ) => BigNum::from_str($e.as_str())
//@end
/// the bytes that tell an asset apart
pub open spec fn id(a: TransactionAsset) -> Id { (unhex(a.policy_id@), unhex(a.asset_name@)) }
pub open spec fn fits(x: real) -> bool { exists|n: u64| #[trigger] cut(n as int, x) }
/// an asset the library can name, of an amount it can hold
pub open spec fn convertible(a: TransactionAsset) -> bool {
    is_hex(a.policy_id@) && a.policy_id@.len() == 56 && is_hex(a.asset_name@) && a.asset_name@.len() <= 64 && fits(a.quantity.val())
}
pub open spec fn all_convertible(m: Map<TokenId, TransactionAsset>) -> bool { forall|t: TokenId| #[trigger] m.contains_key(t) ==> convertible(m[t]) }
/// no two of the assets are the same one
pub open spec fn apart(m: Map<TokenId, TransactionAsset>) -> bool {
    forall|t: TokenId, u: TokenId| #![trigger m[t], m[u]] m.contains_key(t) && m.contains_key(u) && id(m[t]) == id(m[u]) ==> t == u
}
pub open spec fn is_of(k: Id, t: TokenId, m: Map<TokenId, TransactionAsset>) -> bool { m.contains_key(t) && id(m[t]) == k }
/// held: what the assets of m (those of which `seen`) amount to
pub open spec fn amounts(held: Map<Id, int>, m: Map<TokenId, TransactionAsset>, seen: spec_fn(TokenId) -> bool) -> bool {
    (forall|t: TokenId| #[trigger] m.contains_key(t) && seen(t) ==> held.contains_key(id(m[t])) && cut(held[id(m[t])], m[t].quantity.val()))
    && (forall|k: Id| #[trigger] held.contains_key(k) ==> exists|t: TokenId| seen(t) && #[trigger] is_of(k, t, m))
}
pub open spec fn any() -> spec_fn(TokenId) -> bool { |t: TokenId| true }
pub open spec fn value_ok(r: anyhow::Result<CmlValue>, coin: Value<Regulated>, m: Map<TokenId, TransactionAsset>) -> bool {
    (r is Ok <==> coin.val() >= 0real && fits(coin.val()) && all_convertible(m))
    && (r matches Ok(v) ==> cut(v.coins(), coin.val()) && (apart(m) ==> amounts(v.held(), m, any())))
}
//@fn cardano-utils/src/utxo.rs | | value_to_csl_coin
//@use anyhow
//@use conv
//@desugar opt.ok_or_else
//@spec
    ensures r is Ok <==> value.val() >= 0real && fits(value.val()), r matches Ok(c) ==> cut(c.int(), value.val())
//@end
/// an amount has one integer part
pub proof fn lemma_cut(n: int, m: int, x: real)
    requires cut(n, x), cut(m, x)
    ensures n == m
{
    let (a, b) = (n as real, m as real);
    assert(a - b < 1real && b - a < 1real);
}
pub proof fn lemma_no_cut(t: real, x: real)
    requires is_trunc(t, x), t < 0real
    ensures !fits(x)
{
    let k = choose|k: int| #[trigger] is_int(t, k);
    assert(k <= -1);
    if fits(x) {
        let n = choose|n: u64| #[trigger] cut(n as int, x);
        assert(is_int(n as int as real, n as int));
        let a = n as int as real;
        assert(x <= t && t <= -1real);
        assert(a <= 0real && a - x < 1real);
        assert(a >= 0real);
    }
}
pub proof fn lemma_cuts(x: real)
    ensures forall|n: int, m: int| #[trigger] cut(n, x) && #[trigger] cut(m, x) ==> n == m, forall|t: real| #[trigger] is_trunc(t, x) && t < 0real ==> !fits(x)
{
    assert forall|n: int, m: int| #[trigger] cut(n, x) && #[trigger] cut(m, x) implies n == m by { lemma_cut(n, m, x); }
    assert forall|t: real| #[trigger] is_trunc(t, x) && t < 0real implies !fits(x) by { lemma_no_cut(t, x); }
}
pub proof fn lemma_one_more(h0: Map<Id, int>, h: Map<Id, int>, m: Map<TokenId, TransactionAsset>, s: Seq<(&TokenId, &TransactionAsset)>, n: int)
    requires
        lists_entries(m, s), 0 <= n < s.len(), apart(m), amounts(h0, m, among(s, n)),
        h.contains_key(id(*s[n].1)), h == h0.insert(id(*s[n].1), h[id(*s[n].1)]), cut(h[id(*s[n].1)], s[n].1.quantity.val()),
    ensures amounts(h, m, among(s, n + 1))
{
    let t0 = *s[n].0;
    assert(m.contains_key(t0) && m[t0] == *s[n].1);
    assert forall|t: TokenId| #[trigger] m.contains_key(t) && among(s, n + 1)(t) implies h.contains_key(id(m[t])) && cut(h[id(m[t])], m[t].quantity.val()) by {
        if t != t0 {
            let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] s[i]).0 == t;
            assert(among(s, n)(t));
            assert(id(m[t]) != id(m[t0]));
        }
    }
    assert forall|k: Id| #[trigger] h.contains_key(k) implies exists|t: TokenId| among(s, n + 1)(t) && #[trigger] is_of(k, t, m) by {
        if k == id(*s[n].1) { assert(is_of(k, t0, m)); assert(*s[n].0 == t0); assert(among(s, n + 1)(t0)); }
        else {
            assert(h0.contains_key(k));
            let t = choose|t: TokenId| among(s, n)(t) && #[trigger] is_of(k, t, m);
            let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == t;
            assert(among(s, n + 1)(t));
        }
    }
}
/// listed among the first n
pub open spec fn among(s: Seq<(&TokenId, &TransactionAsset)>, n: int) -> spec_fn(TokenId) -> bool { |t: TokenId| exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == t }
//@fn cardano-utils/src/utxo.rs | | tokens_to_csl_value
//@sig cardano_multiplatform_lib :: ledger :: common :: value :: Value => CmlValue
//@use anyhow
//@use conv
//@desugar res.map_err for.it
//@spec
    ensures value_ok(r, *coin, assets@)
//@hint start
    let ghost c0 = coin.val();
//@hint before-loop 0
    let ghost s0 = __it0@;
    proof { assert(__it0@ =~= s0.skip(0)); assert(multi_assets@ =~= Map::<Id, int>::empty()); }
//@loop 0
    invariant
        lists_entries(assets@, s0), __it0@.len() <= s0.len(), __it0@ =~= s0.skip(s0.len() - __it0@.len()),
        cut(value.coins(), c0),
        forall|i: int| 0 <= i < s0.len() - __it0@.len() ==> convertible(*(#[trigger] s0[i]).1),
        apart(assets@) ==> amounts(multi_assets@, assets@, among(s0, s0.len() - __it0@.len())),
    ensures __it0@.len() == 0
    decreases __it0@.len()
//@hint loop-start 0
    let ghost n = s0.len() - __it0@.len();
    let ghost held0 = multi_assets@;
    proof {
        if n < s0.len() {
            lemma_cuts(s0[n].1.quantity.val());
            assert(*__it0@[0].1 == *s0[n].1 && assets@.contains_key(*s0[n].0) && assets@[*s0[n].0] == *s0[n].1);
        }
    }
//@hint loop-end 0
    proof {
        assert(__it0@ =~= s0.skip(n + 1));
        assert(cut(multi_assets@[id(*s0[n].1)] as u64 as int, s0[n].1.quantity.val()));
        if apart(assets@) { lemma_one_more(held0, multi_assets@, assets@, s0, n); }
    }
//@end
/// each asset is listed once
pub open spec fn once(a: Seq<TransactionAsset>) -> bool {
    forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).fingerprint != (#[trigger] a[j]).fingerprint && id(a[i]) != id(a[j])
}
pub open spec fn is_at(k: Id, i: int, a: Seq<TransactionAsset>) -> bool { 0 <= i < a.len() && id(a[i]) == k }
/// held: what the assets listed amount to
pub open spec fn amounts_of(held: Map<Id, int>, a: Seq<TransactionAsset>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> held.contains_key(id(#[trigger] a[i])) && cut(held[id(a[i])], a[i].quantity.val()))
    && (forall|k: Id| #[trigger] held.contains_key(k) ==> exists|i: int| #[trigger] is_at(k, i, a))
}
pub open spec fn all_of(a: Seq<TransactionAsset>) -> bool { forall|i: int| 0 <= i < a.len() ==> convertible(#[trigger] a[i]) }
/// m: the first n assets by fingerprint
pub open spec fn keyed(m: Map<TokenId, TransactionAsset>, a: Seq<TransactionAsset>, n: int) -> bool {
    (forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] a[i]).fingerprint))
    && (forall|t: TokenId| #[trigger] m.contains_key(t) ==> exists|i: int| 0 <= i < n && m[t] == #[trigger] a[i] && a[i].fingerprint == t)
}
pub proof fn lemma_keyed(m: Map<TokenId, TransactionAsset>, a: Seq<TransactionAsset>)
    requires keyed(m, a, a.len() as int), once(a)
    ensures
        apart(m), all_convertible(m) <==> all_of(a),
        forall|h: Map<Id, int>| #[trigger] amounts(h, m, any()) ==> amounts_of(h, a),
{
    assert forall|i: int| 0 <= i < a.len() implies m.contains_key((#[trigger] a[i]).fingerprint) && m[a[i].fingerprint] == a[i] by {
        let j = choose|j: int| 0 <= j < a.len() && m[a[i].fingerprint] == #[trigger] a[j] && a[j].fingerprint == a[i].fingerprint;
        assert(i == j);
    }
    assert forall|h: Map<Id, int>| #[trigger] amounts(h, m, any()) implies amounts_of(h, a) by {
        assert forall|k: Id| #[trigger] h.contains_key(k) implies exists|i: int| #[trigger] is_at(k, i, a) by {
            let t = choose|t: TokenId| any()(t) && #[trigger] is_of(k, t, m);
            let i = choose|i: int| 0 <= i < a.len() && m[t] == #[trigger] a[i] && a[i].fingerprint == t;
            assert(is_at(k, i, a));
        }
        assert forall|i: int| 0 <= i < a.len() implies h.contains_key(id(#[trigger] a[i])) && cut(h[id(a[i])], a[i].quantity.val()) by {
            assert(m.contains_key(a[i].fingerprint) && any()(a[i].fingerprint));
        }
    }
    if all_convertible(m) {
        assert forall|i: int| 0 <= i < a.len() implies convertible(#[trigger] a[i]) by { assert(m.contains_key(a[i].fingerprint)); }
    }
    assert forall|t: TokenId, u: TokenId| #![trigger m[t], m[u]] m.contains_key(t) && m.contains_key(u) && id(m[t]) == id(m[u]) implies t == u by {
        let i = choose|i: int| 0 <= i < a.len() && m[t] == #[trigger] a[i] && a[i].fingerprint == t;
        let j = choose|j: int| 0 <= j < a.len() && m[u] == #[trigger] a[j] && a[j].fingerprint == u;
        assert(i == j);
    }
}
/// a script reference and a datum as the extra tells them
pub open spec fn extra_in(extra: Option<String>) -> Option<(Option<ScriptRef>, Option<Datum>)> {
    match extra { None => Some((None, None)), Some(s) => match extra_of(s@) { Some(e) => Some((e.script_ref, e.datum)), None => None } }
}
/// the output holds the same as the parts of a UTxO
pub open spec fn carries(o: TransactionOutput, address: Address, v: Value<Regulated>, a: Seq<TransactionAsset>, extra: Option<String>) -> bool {
    address_of(address@) == Some(o.to) && cut(o.holds.coins(), v.val()) && (once(a) ==> amounts_of(o.holds.held(), a)) && extra_in(extra) == Some((o.script, o.data))
}
/// the parts can be told in the library's terms
pub open spec fn tellable(address: Address, v: Value<Regulated>, a: Seq<TransactionAsset>, extra: Option<String>) -> bool {
    address_of(address@) is Some && v.val() >= 0real && fits(v.val()) && all_of(a) && extra_in(extra) is Some
}
//@fn cardano-utils/src/utxo.rs | | utxo_builder_to_cml_output
//@use anyhow
//@use conv
//@desugar it.for_each res.map_err for.it
//@spec
    ensures
        once(builder.assets@) ==> (r is Ok <==> tellable(builder.address, builder.value, builder.assets@, builder.extra)),
        r matches Ok(o) ==> carries(o, builder.address, builder.value, builder.assets@, builder.extra),
//@hint start
    let ghost a = builder.assets@;
//@loop 0
    invariant
        a == builder.assets@, __it0@.len() <= a.len(), __it0@ =~= refs(a).skip(a.len() - __it0@.len()), keyed(assets_map@, a, a.len() - __it0@.len())
    ensures __it0@.len() == 0
    decreases __it0@.len()
//@hint loop-start 0
    let ghost n = a.len() - __it0@.len();
    let ghost m0 = assets_map@;
    proof { if n < a.len() { assert(*__it0@[0] == a[n]); } }
//@hint loop-end 0
    proof { assert(__it0@ =~= refs(a).skip(n + 1)); lemma_keyed_one(m0, a, n); }
//@hint after-loop 0
    proof { if once(a) { lemma_keyed(assets_map@, a); } }
//@end
//@fn cardano-utils/src/utxo.rs | | utxo_details_to_cml_input
//@use anyhow
//@use conv
//@desugar it.for_each res.map_err for.it
//@spec
    ensures
        r matches Ok(x) ==> carries(x.utxo(), details.address, details.value, details.assets@, details.extra) && pointed(x.input(), details.pointer) && x.right() == *creds_kind,
        r is Err && once(details.assets@) && tellable(details.address, details.value, details.assets@, details.extra) && is_hex(details.pointer.transaction_id@) && details.pointer.transaction_id@.len() == 64
            ==> exists|b: SingleInputBuilder| #[trigger] refused(b, *creds_kind) && pointed(b.i, details.pointer) && carries(b.o, details.address, details.value, details.assets@, details.extra),
//@hint start
    let ghost a = details.assets@;
//@loop 0
    invariant
        a == details.assets@, __it0@.len() <= a.len(), __it0@ =~= refs(a).skip(a.len() - __it0@.len()), keyed(assets_map@, a, a.len() - __it0@.len())
    ensures __it0@.len() == 0
    decreases __it0@.len()
//@hint loop-start 0
    let ghost n = a.len() - __it0@.len();
    let ghost m0 = assets_map@;
    proof { if n < a.len() { assert(*__it0@[0] == a[n]); } }
//@hint loop-end 0
    proof { assert(__it0@ =~= refs(a).skip(n + 1)); lemma_keyed_one(m0, a, n); }
//@hint after-loop 0
    proof { if once(a) { lemma_keyed(assets_map@, a); } }
//@hint before match creds_kind
    proof { assert(refused(builder, *creds_kind) == !grants(builder, *creds_kind)); }
//@end
/// the input names the pointer
pub open spec fn pointed(i: TransactionInput, p: UtxoPointer) -> bool { i.hash@ == unhex(p.transaction_id@) && i.at.int() == p.output_index.0 }
pub open spec fn refused(b: SingleInputBuilder, by: CardanoPaymentCredentials) -> bool { !grants(b, by) }
pub proof fn lemma_keyed_one(m: Map<TokenId, TransactionAsset>, a: Seq<TransactionAsset>, n: int)
    requires keyed(m, a, n), 0 <= n < a.len()
    ensures keyed(m.insert(a[n].fingerprint, a[n]), a, n + 1)
{
    let m1 = m.insert(a[n].fingerprint, a[n]);
    assert forall|t: TokenId| #[trigger] m1.contains_key(t) implies exists|i: int| 0 <= i < n + 1 && m1[t] == #[trigger] a[i] && a[i].fingerprint == t by {
        if t == a[n].fingerprint { assert(m1[t] == a[n]); }
        else {
            assert(m.contains_key(t));
            let i = choose|i: int| 0 <= i < n && m[t] == #[trigger] a[i] && a[i].fingerprint == t;
            assert(m1[t] == a[i]);
        }
    }
}
/// the fingerprint of an asset
pub open spec fn print(k: Id) -> Seq<char> {
    let h = hexof(cip14(hexof(k.0), hexof(k.1)));
    h + Seq::new(if h.len() < 64 { (64 - h.len()) as nat } else { 0 }, |i: int| '0')
}
/// fingerprints tell the assets held apart
pub open spec fn told_apart(held: Map<Id, int>) -> bool { forall|j: Id, k: Id| #[trigger] held.contains_key(j) && #[trigger] held.contains_key(k) && print(j) == print(k) ==> j == k }
/// a is k's holding
pub open spec fn tells(a: TransactionAsset, k: Id, held: Map<Id, int>) -> bool {
    held.contains_key(k) && a.policy_id@ == hexof(k.0) && a.asset_name@ == hexof(k.1) && a.fingerprint@ == print(k) && a.quantity.val() == (held[k] as real)
}
/// a lists what is held, each asset once
pub open spec fn listing(a: Seq<TransactionAsset>, held: Map<Id, int>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> tells(#[trigger] a[i], id(a[i]), held))
    && (forall|k: Id| #[trigger] held.contains_key(k) ==> exists|i: int| #[trigger] is_at(k, i, a)) && once(a)
}
pub open spec fn by_print(m: Map<TokenId, TransactionAsset>, held: Map<Id, int>) -> bool {
    forall|t: TokenId| #[trigger] m.contains_key(t) ==> m[t].fingerprint == t && exists|k: Id| #[trigger] tells(m[t], k, held)
}
pub open spec fn has(m: Map<TokenId, TransactionAsset>, k: Id) -> bool { exists|t: TokenId| #[trigger] m.contains_key(t) && t@ == print(k) }
pub open spec fn has_all(m: Map<TokenId, TransactionAsset>, held: Map<Id, int>) -> bool { forall|k: Id| #[trigger] held.contains_key(k) ==> has(m, k) }
pub proof fn lemma_token_in(m: Map<TokenId, TransactionAsset>, k: Id, held: Map<Id, int>)
    requires by_print(m, held)
    ensures
        forall|t: TokenId, a: TransactionAsset| tells(a, k, held) && a.fingerprint == t ==>
            by_print(#[trigger] m.insert(t, a), held) && has(m.insert(t, a), k) && forall|j: Id| has(m, j) ==> #[trigger] has(m.insert(t, a), j),
{
    assert forall|t: TokenId, a: TransactionAsset| tells(a, k, held) && a.fingerprint == t implies
        by_print(#[trigger] m.insert(t, a), held) && has(m.insert(t, a), k) && forall|j: Id| has(m, j) ==> #[trigger] has(m.insert(t, a), j) by {
        let m1 = m.insert(t, a);
        assert(m1.contains_key(t) && t@ == print(k));
        assert forall|j: Id| has(m, j) implies #[trigger] has(m1, j) by { let u = choose|u: TokenId| #[trigger] m.contains_key(u) && u@ == print(j); assert(m1.contains_key(u)); }
        assert forall|u: TokenId| #[trigger] m1.contains_key(u) implies m1[u].fingerprint == u && exists|k: Id| #[trigger] tells(m1[u], k, held) by {
            if u == t { assert(tells(m1[u], k, held)); } else { assert(m.contains_key(u)); let x = choose|x: Id| #[trigger] tells(m[u], x, held); assert(tells(m1[u], x, held)); }
        }
    }
}
//@fn cardano-utils/src/utxo.rs | | csl_coin_to_value
//@use anyhow
//@use conv
//@spec
    ensures r matches Ok(v) && v.val() == (value.int() as real)
//@end
//@fn cardano-utils/src/utxo.rs | | csl_value_to_tokens
//@sig cardano_multiplatform_lib :: ledger :: common :: value :: Value => CmlValue
//@inline cardano-utils/src/utxo.rs | | multiasset_iter
//@use anyhow
//@use conv
//@rewrite quantity . ok_or_else ( => (*quantity).ok_or_else(
//@desugar opt.ok_or_else res.map_err for.range
//@spec
    ensures r matches Ok((c, m)) && c.val() == (value.coins() as real) && by_print(m@, value.held()) && has_all(m@, value.held())
//@hint start
    broadcast use ax_hex;
    let ghost held = value.held();
//@loop 0
    invariant
        __s0 == policy_ids@.len(), __r0 <= __s0, lists(policy_ids@, |k: Seq<u8>| ma.policies().contains(k)), ma@ == held,
        by_print(tokens@, held),
        forall|i: int, n: Seq<u8>| 0 <= i < __r0 && #[trigger] held.contains_key((policy_ids@[i], n)) ==> has(tokens@, (policy_ids@[i], n)),
    ensures __r0 >= __s0
    decreases __s0 - __r0
//@hint loop-start 0
    broadcast use ax_hex;
    proof { if __r0 < __s0 { assert(policy_ids@.contains(policy_ids@[__r0 as int])); } }
//@loop 1
    invariant
        0 < __r0 <= __s0, __s0 == policy_ids@.len(), __s1 == asset_names@.len(), __r1 <= __s1, lists(asset_names@, |k: Seq<u8>| assets@.contains_key(k)),
        policy_id@ == policy_ids@[__r0 - 1], ma@ == held,
        forall|n: Seq<u8>| (#[trigger] assets@.contains_key(n) <==> held.contains_key((policy_id@, n))) && (assets@.contains_key(n) ==> assets@[n] == held[(policy_id@, n)]),
        by_print(tokens@, held),
        forall|i: int, n: Seq<u8>| 0 <= i < __r0 - 1 && #[trigger] held.contains_key((policy_ids@[i], n)) ==> has(tokens@, (policy_ids@[i], n)),
        forall|j: int| 0 <= j < __r1 ==> has(tokens@, (policy_id@, #[trigger] asset_names@[j])),
    ensures __r1 >= __s1
    decreases __s1 - __r1
//@hint loop-start 1
    broadcast use ax_hex;
    proof {
        if __r1 < __s1 {
            let k = (policy_id@, asset_names@[__r1 as int]);
            assert(asset_names@.contains(asset_names@[__r1 as int]));
            assert(held.contains_key(k));
            lemma_token_in(tokens@, k, held);
        }
    }
//@hint after-loop 1
    proof {
        assert forall|n: Seq<u8>| #[trigger] held.contains_key((policy_ids@[__r0 - 1], n)) implies has(tokens@, (policy_ids@[__r0 - 1], n)) by {
            assert(assets@.contains_key(n));
            assert(asset_names@.contains(n));
        }
    }
//@hint after-loop 0
    proof {
        assert forall|k: Id| #[trigger] held.contains_key(k) implies has(tokens@, k) by {
            assert(policy_ids@.contains(k.0));
            let i = choose|i: int| 0 <= i < policy_ids@.len() && policy_ids@[i] == k.0;
            assert(held.contains_key((policy_ids@[i], k.1)));
        }
    }
//@end
impl HashMap<TokenId, TransactionAsset> {
    /// `.values().cloned().collect()`
    #[verifier::external_body] pub fn cloned_values(&self) -> (r: Vec<TransactionAsset>) ensures values_of(r@, self@) { unimplemented!() }
}
/// the parts of a UTxO tell what the output holds
pub open spec fn told(address: Address, v: Value<Regulated>, a: Seq<TransactionAsset>, extra: Option<String>, o: TransactionOutput) -> bool {
    address_text(o.to) == Some(address@) && v.val() == (o.holds.coins() as real) && (told_apart(o.holds.held()) ==> listing(a, o.holds.held()))
    && extra is Some && extra_in(extra) == Some((o.script, o.data))
}
pub open spec fn points(p: UtxoPointer, i: TransactionInput) -> bool { p.transaction_id@ == hexof(i.hash@) && p.output_index.0 == i.at.int() }
pub open spec fn values_of(a: Seq<TransactionAsset>, m: Map<TokenId, TransactionAsset>) -> bool { exists|ks: Seq<TokenId>| #[trigger] in_order(a, ks, m) }
pub open spec fn in_order(a: Seq<TransactionAsset>, ks: Seq<TokenId>, m: Map<TokenId, TransactionAsset>) -> bool {
    ks.len() == a.len() && ks.no_duplicates() && (forall|k: TokenId| ks.contains(k) <==> #[trigger] m.contains_key(k)) && forall|i: int| 0 <= i < ks.len() ==> m.contains_key(ks[i]) && #[trigger] a[i] == m[ks[i]]
}
pub proof fn lemma_listing(a: Seq<TransactionAsset>, m: Map<TokenId, TransactionAsset>, held: Map<Id, int>)
    requires values_of(a, m), by_print(m, held), has_all(m, held), told_apart(held)
    ensures listing(a, held)
{
    broadcast use ax_hex;
    let ks = choose|ks: Seq<TokenId>| #[trigger] in_order(a, ks, m);
    assert forall|i: int| 0 <= i < a.len() implies tells(#[trigger] a[i], id(a[i]), held) by {
        assert(m.contains_key(ks[i]));
        let k = choose|k: Id| #[trigger] tells(m[ks[i]], k, held);
        assert(id(a[i]) == k);
    }
    assert forall|k: Id| #[trigger] held.contains_key(k) implies exists|i: int| #[trigger] is_at(k, i, a) by {
        assert(has(m, k));
        let t = choose|t: TokenId| #[trigger] m.contains_key(t) && t@ == print(k);
        assert(ks.contains(t));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == t;
        assert(tells(a[i], id(a[i]), held));
        assert(held.contains_key(id(a[i])) && print(id(a[i])) == print(k));
        assert(is_at(k, i, a));
    }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).fingerprint != (#[trigger] a[j]).fingerprint && id(a[i]) != id(a[j]) by {
        assert(m.contains_key(ks[i]) && m.contains_key(ks[j]));
        assert(a[i].fingerprint == ks[i] && a[j].fingerprint == ks[j]);
        assert(tells(a[i], id(a[i]), held) && tells(a[j], id(a[j]), held));
        if id(a[i]) == id(a[j]) { ax_token(a[i].fingerprint, a[j].fingerprint); }
    }
}
pub proof fn lemma_listings(held: Map<Id, int>)
    ensures forall|a: Seq<TransactionAsset>, m: Map<TokenId, TransactionAsset>| #[trigger] values_of(a, m) && by_print(m, held) && has_all(m, held) && told_apart(held) ==> listing(a, held)
{
    assert forall|a: Seq<TransactionAsset>, m: Map<TokenId, TransactionAsset>| #[trigger] values_of(a, m) && by_print(m, held) && has_all(m, held) && told_apart(held) implies listing(a, held) by { lemma_listing(a, m, held); }
}
//@fn cardano-utils/src/utxo.rs | | utxo_details_from_io
//@use anyhow
//@use conv
//@desugar res.map_err
//@hint start
    proof { lemma_listings(value.1.holds.held()); }
//@spec
    ensures
        r is Ok <==> address_text(value.1.to) is Some,
        r matches Ok(d) ==> points(d.pointer, value.0) && told(d.address, d.value, d.assets@, d.extra, value.1),
//@end
//@fn cardano-utils/src/utxo.rs | | utxo_builder_from_output
//@use anyhow
//@use conv
//@desugar res.map_err
//@hint start
    proof { lemma_listings(value.holds.held()); }
//@spec
    ensures
        r is Ok <==> address_text(value.to) is Some,
        r matches Ok(d) ==> told(d.address, d.value, d.assets@, d.extra, value),
//@end
/// an asset as the library's types tell it: lower-case texts, a whole amount, its own fingerprint
pub open spec fn plain_asset(a: TransactionAsset) -> bool {
    hexof(unhex(a.policy_id@)) == a.policy_id@ && hexof(unhex(a.asset_name@)) == a.asset_name@ && whole(a.quantity.val()) && a.fingerprint@ == print(id(a))
}
pub open spec fn plain(address: Address, v: Value<Regulated>, a: Seq<TransactionAsset>) -> bool {
    (address_of(address@) matches Some(x) && address_text(x) == Some(address@)) && whole(v.val()) && once(a) && forall|i: int| 0 <= i < a.len() ==> plain_asset(#[trigger] a[i])
}
pub open spec fn same_asset(a: TransactionAsset, b: TransactionAsset) -> bool {
    a.policy_id@ == b.policy_id@ && a.asset_name@ == b.asset_name@ && a.fingerprint == b.fingerprint && a.quantity.val() == b.quantity.val()
}
pub open spec fn same_at(x: TransactionAsset, b: Seq<TransactionAsset>, j: int) -> bool { 0 <= j < b.len() && same_asset(x, b[j]) }
pub open spec fn listed_in(x: TransactionAsset, b: Seq<TransactionAsset>) -> bool { exists|j: int| #[trigger] same_at(x, b, j) }
/// the same assets, each listed once by both
pub open spec fn same_assets(a: Seq<TransactionAsset>, b: Seq<TransactionAsset>) -> bool {
    once(a) && once(b) && (forall|i: int| 0 <= i < a.len() ==> listed_in(#[trigger] a[i], b)) && (forall|j: int| 0 <= j < b.len() ==> listed_in(#[trigger] b[j], a))
}
pub proof fn lemma_whole_cut(n: int, x: real)
    requires cut(n, x), whole(x)
    ensures n as real == x
{
    let k = choose|k: int| #[trigger] is_int(x, k);
    assert(is_int(k as real, k));
    lemma_cut(n, k, x);
}
/// what goes into an output comes out of it
proof fn out_and_back(o: TransactionOutput, address: Address, v: Value<Regulated>, a: Seq<TransactionAsset>, extra: Option<String>, address2: Address, v2: Value<Regulated>, a2: Seq<TransactionAsset>, extra2: Option<String>)
    requires plain(address, v, a), carries(o, address, v, a, extra), told(address2, v2, a2, extra2, o)
    ensures address2@ == address@, v2.val() == v.val(), same_assets(a, a2), extra_in(extra2) == extra_in(extra)
{
    let held = o.holds.held();
    lemma_whole_cut(o.holds.coins(), v.val());
    assert forall|j: Id, k: Id| #[trigger] held.contains_key(j) && #[trigger] held.contains_key(k) && print(j) == print(k) implies j == k by {
        let x = choose|x: int| #[trigger] is_at(j, x, a);
        let y = choose|y: int| #[trigger] is_at(k, y, a);
        assert(plain_asset(a[x]) && plain_asset(a[y]));
        ax_token(a[x].fingerprint, a[y].fingerprint);
        if x < y { assert(a[x].fingerprint != a[y].fingerprint); } else if y < x { assert(a[y].fingerprint != a[x].fingerprint); }
    }
    assert(listing(a2, held));
    assert forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < a2.len() && id(a[x]) == id(a2[y]) implies same_asset(#[trigger] a[x], #[trigger] a2[y]) by {
        assert(plain_asset(a[x]) && tells(a2[y], id(a2[y]), held));
        ax_token(a[x].fingerprint, a2[y].fingerprint);
        assert(cut(held[id(a[x])], a[x].quantity.val()));
        lemma_whole_cut(held[id(a[x])], a[x].quantity.val());
    }
    assert forall|x: int| 0 <= x < a.len() implies listed_in(#[trigger] a[x], a2) by {
        assert(held.contains_key(id(a[x])));
        let y = choose|y: int| #[trigger] is_at(id(a[x]), y, a2);
        assert(same_asset(a[x], a2[y]));
        assert(same_at(a[x], a2, y));
    }
    assert forall|y: int| 0 <= y < a2.len() implies listed_in(#[trigger] a2[y], a) by {
        assert(tells(a2[y], id(a2[y]), held));
        let x = choose|x: int| #[trigger] is_at(id(a2[y]), x, a);
        assert(same_asset(a[x], a2[y]));
        assert(same_at(a2[y], a, x));
    }
}
/// the pointer too
proof fn pointer_and_back(i: TransactionInput, p: UtxoPointer, p2: UtxoPointer)
    requires pointed(i, p), points(p2, i), hexof(unhex(p.transaction_id@)) == p.transaction_id@
    ensures p2.transaction_id@ == p.transaction_id@, p2.output_index == p.output_index
{ }

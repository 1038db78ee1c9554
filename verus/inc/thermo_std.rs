// assumed contracts of std and bigdecimal used by the thermostat
use core::ops::Div;
impl BigDecimal {
    #[verifier::external_body] pub fn from_usize(n: usize) -> (r: Option<BigDecimal>) ensures r matches Some(d) && d.val() == (n as int as real) { unimplemented!() }
}
/// division is used for thresholds, of which nothing is assumed, and for halving, which is exact (amounts of less than a hundred digits)
impl<'a> DivSpecImpl<BigDecimal> for &'a BigDecimal {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn div_spec(self, rhs: BigDecimal) -> BigDecimal;
}
impl<'a> Div<BigDecimal> for &'a BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn div(self, rhs: BigDecimal) -> (r: BigDecimal) ensures rhs.val() == 2real ==> r.val() + r.val() == self.val() { unimplemented!() }
}
impl<'a, Rep> DivSpecImpl<usize> for &'a Value<Rep> {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: usize) -> bool { true }
    uninterp spec fn div_spec(self, rhs: usize) -> Value<Rep>;
}
impl<'a, Rep> Div<usize> for &'a Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Div<usize> for &'a Value<Rep> | div
    //@sig Self :: Output => Value<Rep>
    //@rewrite & self . value / $x ; => (&self.value).div($x);
    //@spec
        ensures rhs == 2 ==> r.val() + r.val() == self.val()
    //@end
}
impl<Rep> DivSpecImpl<usize> for Value<Rep> {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: usize) -> bool { true }
    uninterp spec fn div_spec(self, rhs: usize) -> Value<Rep>;
}
impl<Rep> Div<usize> for Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<Rep> Div<usize> for Value<Rep> | div
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures rhs == 2 ==> r.val() + r.val() == self.val()
    //@end
}
impl<Rep> Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> Value<Rep> | truncate
    //@spec
        ensures is_trunc(r.val(), self.val())
    //@hint start
        proof { assert(is_int(0real, 0)); }
    //@end
}
impl<T> It<T> {
    #[verifier::external_body] pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],))
        ensures r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), true)
    { unimplemented!() }
}
pub trait ItCloned<T> { fn collect_cloned(self) -> Vec<T>; }
impl<'a> ItCloned<UTxOBuilder> for It<&'a UTxOBuilder> {
    /// `.cloned().collect()`
    #[verifier::external_body] fn collect_cloned(self) -> (r: Vec<UTxOBuilder>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
impl<'a> OptCloned<Balance<Regulated>> for Option<&'a Balance<Regulated>> {
    fn cloned(self) -> (r: Option<Balance<Regulated>>)
        ensures r is Some == self is Some, self matches Some(b) ==> (r->0).val() == b.val() && (r->0).wf() == b.wf()
    { match self { Some(b) => Some(b.clone()), None => None } }
}
impl<'a> OptCloned<TokenId> for Option<&'a TokenId> {
    fn cloned(self) -> (r: Option<TokenId>) ensures r == match self { Some(u) => Some(*u), None => None } { match self { Some(u) => Some(u.clone()), None => None } }
}
impl<'a> OptCloned<(PolicyId, AssetName)> for Option<&'a (PolicyId, AssetName)> {
    #[verifier::external_body] fn cloned(self) -> (r: Option<(PolicyId, AssetName)>) ensures r == match self { Some(u) => Some(*u), None => None } { unimplemented!() }
}
/// a panic where there is nothing: no answer is given then
pub trait OrPanic<T> { fn or_panic(self) -> T; }
impl<T> OrPanic<T> for Option<T> {
    #[verifier::external_body] fn or_panic(self) -> (r: T) ensures self == Some(r) { unimplemented!() }
}
pub trait MapMore<K, V> { 
    fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>);
    /// the keys, each once
    fn key_list(&self) -> (r: Vec<K>);
}
impl<V> MapMore<TokenId, V> for HashMap<TokenId, V> {
    #[verifier::external_body] fn get_mut(&mut self, k: &TokenId) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body] fn key_list(&self) -> (r: Vec<TokenId>)
        ensures r@.no_duplicates(), forall|k: TokenId| r@.contains(k) <==> #[trigger] self@.contains_key(k)
    { unimplemented!() }
}
pub trait VecMore<T> {
    fn get_mut(&mut self, k: usize) -> (r: Option<&mut T>);
    fn get(&self, k: usize) -> (r: Option<&T>);
    fn first(&self) -> (r: Option<&T>);
}
impl<T> VecMore<T> for Vec<T> {
    #[verifier::external_body] fn get_mut(&mut self, k: usize) -> (r: Option<&mut T>)
        ensures
            r matches Some(x) ==> k < old(self)@.len() && *x == old(self)@[k as int] && final(self)@ == old(self)@.update(k as int, *final(x)),
            r is None ==> k >= old(self)@.len() && final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: usize) -> (r: Option<&T>) ensures match r { Some(x) => k < self@.len() && *x == self@[k as int], None => k >= self@.len() } { unimplemented!() }
    #[verifier::external_body] fn first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
}
/// `vec![false; n]`
#[verifier::external_body] pub fn all_false(n: usize) -> (r: Vec<bool>) ensures r@.len() == n { unimplemented!() }
/// `v.iter().copied().all(|b| b)`
#[verifier::external_body] pub fn all_true(v: &Vec<bool>) -> (r: bool) { unimplemented!() }
impl<Rep> Value<Rep> { #[verifier::external_body] pub fn to_usize(&self) -> (r: Option<usize>) { unimplemented!() } }

// ---- assumed: sets of indices, the remaining iterator adapters, the random source ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { p: PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { p: PhantomData<T> }
/// s lists the members of m once each
pub open spec fn lists_refs<T>(m: Set<T>, s: Seq<&T>) -> bool {
    s.len() == m.len() && (forall|i: int| 0 <= i < s.len() ==> m.contains(*#[trigger] s[i])) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j]))
}
pub open spec fn lists_set<T>(m: Set<T>, s: Seq<T>) -> bool { s.no_duplicates() && (forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])) && forall|x: T| #[trigger] m.contains(x) <==> s.contains(x) }
impl BTreeSet<usize> {
    pub uninterp spec fn view(&self) -> Set<usize>;
    /// the numbers below n
    #[verifier::external_body] pub fn upto(n: usize) -> (r: Self) ensures forall|i: usize| #[trigger] r@.contains(i) <==> i < n { unimplemented!() }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: It<&'a usize>) ensures lists_refs(self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &usize) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
}
impl HashSet<usize> {
    pub uninterp spec fn view(&self) -> Set<usize>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: HashSet<usize>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: It<usize>) ensures lists_set(self@, r@) { unimplemented!() }
}
/// the elements the predicate holds of, in order
pub open spec fn keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if p(s.last()) { keep(s.drop_last(), p).push(s.last()) } else { keep(s.drop_last(), p) } }
/// the values among the options
pub open spec fn somes<T, U>(s: Seq<T>, q: spec_fn(T) -> Option<U>) -> Seq<U>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match q(s.last()) { Some(x) => somes(s.drop_last(), q).push(x), None => somes(s.drop_last(), q) } } }
pub open spec fn amounts(s: Seq<Value<Regulated>>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].val()) }
pub open spec fn is_amount(r: Option<Value<Regulated>>, o: Option<real>) -> bool { (r is Some <==> o is Some) && (r is Some ==> r->0.val() == o->0) }
impl<T> It<T> {
    /// Iterator::filter, by a closure that decides p
    #[verifier::external_body] pub fn filter_by<F: Fn(&T) -> bool>(self, Ghost(p): Ghost<spec_fn(T) -> bool>, f: F) -> (r: It<T>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), b) ==> b == p(self@[i]),
        ensures r@ == keep(self@, p)
    { unimplemented!() }
    /// Iterator::filter_map, by a closure that answers q's amount
    #[verifier::external_body] pub fn filter_map_by<F: Fn(T) -> Option<Value<Regulated>>>(self, Ghost(q): Ghost<spec_fn(T) -> Option<real>>, f: F) -> (r: It<Value<Regulated>>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, o: Option<Value<Regulated>>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), o) ==> is_amount(o, q(self@[i])),
        ensures amounts(r@) == somes(self@, q)
    { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: It<(usize, T)>)
        requires self@.len() <= usize::MAX
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i]
    { unimplemented!() }
    #[verifier::external_body] pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n < old(self)@.len() ==> r == Some(old(self)@[n as int]), n >= old(self)@.len() ==> r is None
    { unimplemented!() }
    #[verifier::external_body] pub fn collect_list(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn same_elements<T>(r: Seq<T>, s: Seq<&T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == *s[i] }
impl<'a, T> It<&'a T> {
    /// (derive(Clone): equal)
    #[verifier::external_body] pub fn cloned(self) -> (r: It<T>) ensures same_elements(r@, self@) { unimplemented!() }
}
impl It<Value<Regulated>> {
    /// core's impl Sum for Value folds with +
    #[verifier::external_body] pub fn sum(self) -> (r: Value<Regulated>) ensures r.val() == sum_over(amounts(self@), |x: real| x) { unimplemented!() }
}
/// b is a rearrangement of a
pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>, perm: Seq<int>) -> bool {
    &&& perm.len() == a.len() && b.len() == a.len() && perm.no_duplicates() && (forall|i: int| 0 <= i < a.len() ==> perm.contains(i))
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] perm[i] < a.len() && b[i] == a[perm[i]]
}
pub trait VecMore<T>: Sized + View<V = Seq<T>> {
    /// (nothing depends on the order)
    fn sort(&mut self) ensures exists|perm: Seq<int>| #[trigger] rearranged(old(self)@, final(self)@, perm);
    fn sort_by_key<K, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((&#[trigger] old(self)@[i],))
        ensures exists|perm: Seq<int>| #[trigger] rearranged(old(self)@, final(self)@, perm);
    /// the element is moved out, and (put_at) in again: what a mutable iterator over the vector lends
    fn take_at(&mut self, k: usize) -> (r: T)
        requires k < old(self)@.len()
        ensures r == old(self)@[k as int], final(self)@.len() == old(self)@.len(), forall|j: int| 0 <= j < old(self)@.len() && j != k ==> #[trigger] final(self)@[j] == old(self)@[j];
    fn put_at(&mut self, k: usize, x: T)
        requires k < old(self)@.len()
        ensures final(self)@ == old(self)@.update(k as int, x);
    /// Vec::get_mut
    fn slot<'a>(&'a mut self, k: usize) -> (r: Option<&'a mut T>)
        ensures
            r matches Some(x) ==> k < old(self)@.len() && *x == old(self)@[k as int] && final(self)@ == old(self)@.update(k as int, *final(x)),
            r is None ==> k >= old(self)@.len() && final(self)@ == old(self)@;
}
impl<T> VecMore<T> for Vec<T> {
    #[verifier::external_body] fn sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn sort_by_key<K, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn take_at(&mut self, k: usize) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn put_at(&mut self, k: usize, x: T) { unimplemented!() }
    #[verifier::external_body] fn slot<'a>(&'a mut self, k: usize) -> (r: Option<&'a mut T>) { unimplemented!() }
}
/// std: mem::swap
#[verifier::external_body] pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
/// `vec![vec![]; n]`
#[verifier::external_body] pub fn empties(n: usize) -> (r: Vec<Vec<usize>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 { unimplemented!() }
/// Option::unwrap_or_default
pub trait OrZero { fn or_zero(self) -> Value<Regulated>; }
impl OrZero for Option<Value<Regulated>> {
    fn or_zero(self) -> (r: Value<Regulated>) ensures r.val() == match self { Some(v) => v.val(), None => 0real } { match self { Some(v) => v, None => Value::zero() } }
}
/// any number below the bound
pub struct Rng { pub p: u8 }
impl Rng {
    pub fn new() -> Rng { Rng { p: 0 } }
    #[verifier::external_body] pub fn below(&mut self, n: usize) -> (r: usize) requires n > 0 ensures r < n { unimplemented!() }
}

// ---- assumed: what a source is made of ----
// anyhow: errors carry no content here, but where they come from: from the multiverse's storage, or not
pub mod anyhow {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Error { e: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    pub uninterp spec fn of_storage(e: Error) -> bool;
    #[verifier::external_body]
    pub fn error() -> (e: Error) ensures !of_storage(e) { unimplemented!() }
}
pub use anyhow::of_storage;
impl From<MultiverseError> for anyhow::Error { #[verifier::external_body] fn from(e: MultiverseError) -> (r: Self) ensures of_storage(r) { unimplemented!() } }
/// `?` converts with it
pub broadcast axiom fn from_multiverse(e: MultiverseError, m: anyhow::Error) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<anyhow::Error, MultiverseError>(e, m) ==> of_storage(m);
//@rules src
anyhow :: ensure ! ( $a == $b , $m , ) => if !same($a, $b) { return Err(anyhow::error()); }
anyhow :: ensure ! ( $a == $b , $m ) => if !same($a, $b) { return Err(anyhow::error()); }
anyhow ! { $x* } => anyhow::error()
anyhow ! ( $x* ) => anyhow::error()
tracing :: debug ! ( $x* ) ; =>
let _span = $x ; =>
. await =>
.get ( k ) => .get(k.as_ref())
. and_then ( V :: next_from ) => .and_then(|__b| __b.next_from())
. replace ( $x ) => .replace_with($x)
//@end
/// places on the chain: their own equality and hash are those of their value
pub trait PullFrom: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
#[verifier::external_body] pub fn same<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub trait Replace<T> { spec fn old(self) -> Option<T>; fn replace_with(&mut self, v: T) -> Option<T>; }
impl<T> Replace<T> for Option<T> {
    open spec fn old(self) -> Option<T> { self }
    #[verifier::external_body] fn replace_with(&mut self, v: T) -> (r: Option<T>) ensures r == *old(self), *final(self) == Some(v) { unimplemented!() }
}
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
/// blocks and the peer's other messages (blockchain-source/src/{lib,source}.rs), whose answers are their own
pub trait Block: Variant {
    type From: PullFrom;
    spec fn is_tip(&self) -> bool;
    spec fn place_of(&self) -> Option<Self::From>;
    fn is_blockchain_tip(&self) -> (r: bool) ensures r == self.is_tip();
    fn next_from(&self) -> (r: Option<Self::From>) ensures r == self.place_of();
    fn clone(&self) -> (r: Self) ensures r == *self;
}
/// the block of that name, and how far it is from the chain's beginning
pub uninterp spec fn block_named<V: Block>(k: V::Key) -> V;
pub uninterp spec fn height<V: Block>(k: V::Key) -> nat;
/// a block of the chain: its name names it, it has a place, and it is further from the beginning than its parent
pub open spec fn genuine<V: Block>(v: V) -> bool {
    &&& !v.is_tip() && v == block_named::<V>(v.id_of()) && v.place_of() is Some
    &&& height::<V>(v.parent_of()) < height::<V>(v.id_of())
}
/// the peer: it answers with blocks of the chain, its tip, nothing or an error
pub trait Source<V: Block>: Sized {
    /// from where it was asked, at each time
    spec fn asked(&self) -> Seq<Set<V::From>>;
    fn pull(&mut self, from: &Vec<V::From>) -> (r: anyhow::Result<Option<V>>)
        ensures final(self).asked() == old(self).asked().push(from@.to_set()), r matches Ok(Some(v)) ==> v.is_tip() || genuine(v);
}
// std's hash set of places, or of references to identifiers
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct SetOf<T> { p: PhantomData<T> }
impl<T> SetOf<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: It<T>) ensures r@.to_set() == self@ { unimplemented!() }
}
impl<'a, K> SetOf<&'a K> {
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k) { unimplemented!() }
}
#[verifier::external_body] pub fn collect<T>(it: It<T>) -> (r: Vec<T>) ensures r@ == it@ { unimplemented!() }
impl<K> HashSet<Arc<K>> {
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: It<&'a Arc<K>>)
        ensures (forall|i: int| 0 <= i < r@.len() ==> self.ids().contains((#[trigger] r@[i])@)), forall|k: K| #[trigger] self.ids().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k
    { unimplemented!() }
}
/// Iterator::last, as std provides it
impl<'a, K: Ident, V: Variant<Key = K>> DepthOrderedIterator<'a, K, V> {
    pub fn last(self) -> (r: Option<&'a V>)
        requires self.wf()
        ensures
            r is None ==> forall|k: K| !#[trigger] self.pending(k),
            r matches Some(v) ==> exists|k: K| #[trigger] self.pending(k) && last_one(self, k) && *v == self.inner.state()[k].value,
    {
        let ghost i = self;
        let mut it = self;
        let mut r: Option<&'a V> = None;
        let ghost mut at: Option<K> = None;
        let ghost s = i.inner.state();
        proof { assert(s.dom() =~= i.inner.all@.dom()); }
        let ghost mut left: Set<K> = s.dom().filter(|k: K| i.pending(k));
        loop
            invariant
                it.wf(), it.inner == i.inner, i.wf(), i == self, s == i.inner.state(), forall|k: K| left.contains(k) <==> #[trigger] it.pending(k),
                forall|k: K| #[trigger] it.pending(k) ==> i.pending(k),
                match at { None => r is None && (forall|k: K| #[trigger] i.pending(k) ==> it.pending(k)),
                    Some(k) => r is Some && *r->0 == s[k].value && i.pending(k) && (forall|j: K| #[trigger] i.pending(j) ==> it.pending(j) || number(s, j) <= number(s, k)) && (forall|j: K| #[trigger] it.pending(j) ==> number(s, k) <= number(s, j)) },
            decreases left.len()
        {
            let ghost it0 = it;
            match it.next() {
                None => {
                    proof { if at is Some { let k = at->0; assert forall|j: K| #[trigger] i.inner.state().contains_key(j) && i.pending(j) implies number(s, j) <= number(s, k) by { assert(!it0.pending(j)); } assert(last_one(i, k)); } else { assert forall|j: K| !#[trigger] i.pending(j) by { assert(!it0.pending(j)); } } }
                    return r;
                }
                Some(v) => {
                    proof {
                        let k = choose|k: K| #[trigger] visited(it0, it, k, *v);
                        assert(it0.pending(k));
                        assert forall|j: K| #[trigger] i.pending(j) implies it.pending(j) || number(s, j) <= number(s, k) by { if it0.pending(j) { assert(j == k || it.pending(j)); } else if at is Some { assert(number(s, j) <= number(s, at->0)); } }
                        assert forall|j: K| #[trigger] it.pending(j) implies number(s, k) <= number(s, j) by { assert(it0.pending(j)); }
                        assert(left.contains(k));
                        left = left.remove(k);
                        at = Some(k);
                    }
                    r = Some(v);
                }
            }
        }
    }
}
/// none to be visited is higher
pub open spec fn last_one<'a, K: Ident, V: Variant<Key = K>>(i: DepthOrderedIterator<'a, K, V>, k: K) -> bool { forall|j: K| #[trigger] i.inner.state().contains_key(j) && i.pending(j) ==> number(i.inner.state(), j) <= number(i.inner.state(), k) }

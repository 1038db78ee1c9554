// assumed contracts of std's iterators and their adapters: an iterator is the sequence it has yet to yield
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct It<T> { p: PhantomData<T> }
pub open spec fn concat<T>(parts: Seq<Seq<T>>) -> Seq<T>
    decreases parts.len()
{ if parts.len() == 0 { Seq::empty() } else { concat(parts.drop_last()) + parts.last() } }
impl<T> It<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    { unimplemented!() }
    #[verifier::external_body] pub fn flat_map<U, F: Fn(T) -> It<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures exists|parts: Seq<It<U>>| #![auto] flat(self@, f, parts, r@)
    { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, o: It<T>) -> (r: It<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],))
        ensures
            r matches Some(x) ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x && f.ensures((&x,), true),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
    { unimplemented!() }
}
pub open spec fn views<U>(parts: Seq<It<U>>) -> Seq<Seq<U>> { Seq::new(parts.len(), |i: int| parts[i]@) }
pub open spec fn flat<T, U, F: Fn(T) -> It<U>>(s: Seq<T>, f: F, parts: Seq<It<U>>, r: Seq<U>) -> bool {
    parts.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] parts[i])) && r == concat(views(parts))
}
#[verifier::external_body] pub fn iter<'a, T>(v: &'a Vec<T>) -> (r: It<&'a T>)
    ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *r@[i] == v@[i]
{ unimplemented!() }
#[verifier::external_body] pub fn iter_array<'a, T, const N: usize>(v: &'a [T; N]) -> (r: It<&'a T>)
    ensures r@.len() == N, forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *r@[i] == v@[i]
{ unimplemented!() }
// Option::into_iter
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct OptIt<T> { p: PhantomData<T> }
impl<T> OptIt<T> {
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body] pub fn flat_map<U, F: Fn(T) -> It<U>>(self, f: F) -> (r: It<U>)
        requires self@ matches Some(x) ==> f.requires((x,))
        ensures match self@ { None => r@.len() == 0, Some(x) => f.ensures((x,), r) }
    { unimplemented!() }
}
#[verifier::external_body] pub fn opt_iter<T>(o: Option<T>) -> (r: OptIt<T>) ensures r@ == o { unimplemented!() }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
/// `v.iter()` (found before the slice's method)
pub trait VecIter<T> { fn iter<'a>(&'a self) -> (r: It<&'a T>); }
impl<T> VecIter<T> for Vec<T> {
    #[verifier::external_body] fn iter<'a>(&'a self) -> (r: It<&'a T>)
        ensures r@ == refs(self@)
    { unimplemented!() }
}

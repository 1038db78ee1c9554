// assumed contracts of imbl::HashMap and its entry API: a persistent map is a mathematical map
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            r == if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn values<'a>(&'a self) -> (r: It<&'a V>) ensures exists|ks: Seq<K>| #[trigger] lists_values(self@, ks, r@) { unimplemented!() }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: It<(&'a K, &'a V)>) ensures lists_entries(self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: It<(K, V)>) ensures lists_pairs(self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures r.key() == k, r.map()@ == old(self)@, r.after()@ == final(self)@, r is Occupied <==> old(self)@.contains_key(k)
    { unimplemented!() }
}
/// ks enumerates the keys of m once each, and s the values in that order
pub open spec fn lists_values<K, V>(m: Map<K, V>, ks: Seq<K>, s: Seq<&V>) -> bool {
    ks.len() == s.len() && ks.no_duplicates() && (forall|k: K| ks.contains(k) <==> #[trigger] m.contains_key(k))
    && forall|i: int| 0 <= i < ks.len() ==> m.contains_key(ks[i]) && *(#[trigger] s[i]) == m[ks[i]]
}
/// s lists the entries of m once each
pub open spec fn lists_pairs<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && s[i].1 == m[s[i].0])
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k)
}
/// s lists the entries of m once each
pub open spec fn lists_entries<K, V>(m: Map<K, V>, s: Seq<(&K, &V)>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && *s[i].1 == m[*s[i].0])
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k)
}
#[verifier::reject_recursive_types(K)] pub struct Vacant<'a, K, V> { pub key: K, pub m: &'a mut HashMap<K, V> }
#[verifier::reject_recursive_types(K)] pub struct Occupied<'a, K, V> { pub key: K, pub m: &'a mut HashMap<K, V> }
#[verifier::reject_recursive_types(K)] pub enum Entry<'a, K, V> { Vacant(Vacant<'a, K, V>), Occupied(Occupied<'a, K, V>) }
impl<'a, K, V> Entry<'a, K, V> {
    pub open spec fn key(self) -> K { match self { Entry::Vacant(v) => v.key, Entry::Occupied(v) => v.key } }
    pub open spec fn map(self) -> HashMap<K, V> { match self { Entry::Vacant(v) => *v.m, Entry::Occupied(v) => *v.m } }
    #[verifier::prophetic] pub open spec fn after(self) -> HashMap<K, V> { match self { Entry::Vacant(v) => *final(v.m), Entry::Occupied(v) => *final(v.m) } }
}
impl<'a, K, V> Occupied<'a, K, V> {
    #[verifier::external_body] pub fn get(&self) -> (r: &V)
        requires self.m@.contains_key(self.key)
        ensures *r == old(self.m)@[self.key]
    { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).m@.contains_key(old(self).key)
        ensures
            *r == old(self).m@[old(self).key], final(self).m@ == old(self).m@.insert(old(self).key, *final(r)),
            final(self).key == old(self).key, *final(old(self).m) == *final(final(self).m),
    { unimplemented!() }
    #[verifier::external_body] pub fn into_mut(self) -> (r: &'a mut V)
        requires self.m@.contains_key(self.key)
        ensures *r == old(self.m)@[self.key], final(self.m)@ == old(self.m)@.insert(self.key, *final(r))
    { unimplemented!() }
    #[verifier::external_body] pub fn remove(self) -> (r: V)
        requires self.m@.contains_key(self.key)
        ensures r == old(self.m)@[self.key], final(self.m)@ == old(self.m)@.remove(self.key)
    { unimplemented!() }
}
impl<'a, K, V> Vacant<'a, K, V> {
    #[verifier::external_body] pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.m)@ == old(self.m)@.insert(self.key, *final(r))
    { unimplemented!() }
}

// assumed contracts of std's BTreeMap keyed by amounts: keys are told apart and ordered as numbers
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { p: PhantomData<(K, V)> }
impl<Rep, V> BTreeMap<Value<Rep>, V> {
    pub uninterp spec fn view(&self) -> Map<real, V>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<real, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn entry(&mut self, k: Value<Rep>) -> (r: BEntry<'_, Rep, V>)
        ensures r.key() == k.val(), r.map()@ == old(self)@, r.after()@ == final(self)@, r is Occupied <==> old(self)@.contains_key(k.val())
    { unimplemented!() }
    #[verifier::external_body] pub fn values<'a>(&'a self) -> (r: It<&'a V>)
        ensures exists|ks: Seq<real>| #[trigger] lists_values(self@, ks, r@) && increasing(ks)
    { unimplemented!() }
}
pub open spec fn increasing(ks: Seq<real>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> ks[i] < ks[j] }
#[verifier::reject_recursive_types(Rep)] pub struct BVacant<'a, Rep, V> { pub key: Value<Rep>, pub m: &'a mut BTreeMap<Value<Rep>, V> }
#[verifier::reject_recursive_types(Rep)] pub struct BOccupied<'a, Rep, V> { pub key: Value<Rep>, pub m: &'a mut BTreeMap<Value<Rep>, V> }
#[verifier::reject_recursive_types(Rep)] pub enum BEntry<'a, Rep, V> { Vacant(BVacant<'a, Rep, V>), Occupied(BOccupied<'a, Rep, V>) }
impl<'a, Rep, V> BEntry<'a, Rep, V> {
    pub open spec fn key(self) -> real { match self { BEntry::Vacant(v) => v.key.val(), BEntry::Occupied(v) => v.key.val() } }
    pub open spec fn map(self) -> BTreeMap<Value<Rep>, V> { match self { BEntry::Vacant(v) => *v.m, BEntry::Occupied(v) => *v.m } }
    #[verifier::prophetic] pub open spec fn after(self) -> BTreeMap<Value<Rep>, V> { match self { BEntry::Vacant(v) => *final(v.m), BEntry::Occupied(v) => *final(v.m) } }
}
impl<'a, Rep, V> BOccupied<'a, Rep, V> {
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).m@.contains_key(old(self).key.val())
        ensures
            *r == old(self).m@[old(self).key.val()], final(self).m@ == old(self).m@.insert(old(self).key.val(), *final(r)),
            final(self).key == old(self).key, *final(old(self).m) == *final(final(self).m),
    { unimplemented!() }
    #[verifier::external_body] pub fn remove(self) -> (r: V)
        requires self.m@.contains_key(self.key.val())
        ensures r == old(self.m)@[self.key.val()], final(self.m)@ == old(self.m)@.remove(self.key.val())
    { unimplemented!() }
}
impl<'a, Rep, V> BVacant<'a, Rep, V> {
    #[verifier::external_body] pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.m)@ == old(self.m)@.insert(self.key.val(), *final(r))
    { unimplemented!() }
}

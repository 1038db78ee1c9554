// ---- assumed contracts of std: reference counts, hash sets and maps keyed by entries, the ordered index ----
/// a reference count: the value it keeps alive, and which allocation it is
#[verifier::external_body] #[verifier::accept_recursive_types(K)] pub struct Arc<K> { p: PhantomData<K> }
impl<K> Arc<K> {
    pub uninterp spec fn view(&self) -> K;
    pub uninterp spec fn cell(&self) -> int;
    #[verifier::external_body] pub fn new(k: K) -> (r: Self) ensures r@ == k { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &K) ensures *r == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn downgrade(this: &Self) -> (r: Weak<K>) ensures r.target() == Some((this@, this.cell())) { unimplemented!() }
}
impl<K> Arc<K> {
    /// (assumed: the identifiers' own equality tells them apart, and their hash depends on nothing else)
    #[verifier::external_body] pub fn eq(&self, o: &Arc<K>) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body] pub fn hash(&self, state: &mut Hasher) ensures final(state)@ == hashed(old(state)@, self@) { unimplemented!() }
}
#[verifier::external_body] pub struct Hasher { p: u8 }
impl View for Hasher { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn hashed<K>(h: int, k: K) -> int;
/// a weak reference: the allocation it was made from, if any
#[verifier::external_body] #[verifier::accept_recursive_types(K)] pub struct Weak<K> { p: PhantomData<K> }
impl<K> Weak<K> {
    pub uninterp spec fn target(&self) -> Option<(K, int)>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.target() is None { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    /// upgrading gives the value back, and does so as long as the allocation is alive, which it is
    /// while it is a key of a map one holds a reference to
    #[verifier::external_body] pub fn upgrade<V>(&self, alive: &HashMap<EntryRef<K>, V>) -> (r: Option<Arc<K>>)
        ensures
            r matches Some(a) ==> self.target() == Some((a@, a.cell())),
            self.target() matches Some(t) ==> (alive@.contains_key(t.0) && alive.cell(t.0) == t.1 ==> r is Some),
    { unimplemented!() }
}
/// what a key given to a map stands for (std's Borrow): itself, or the key an entry holds
pub trait Names<K> { spec fn names(&self) -> K; }
impl<K> Names<K> for EntryRef<K> { open spec fn names(&self) -> K { self@ } }
impl<K> Names<K> for K { open spec fn names(&self) -> K { *self } }

#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { p: PhantomData<T> }
/// s lists the members of m once each
pub open spec fn lists<K>(m: Set<K>, s: Seq<&EntryRef<K>>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains((#[trigger] s[i])@))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@)
    && (forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k)
}
pub open spec fn lists_own<K>(m: Set<K>, s: Seq<EntryRef<K>>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains((#[trigger] s[i])@))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ != (#[trigger] s[j])@)
    && (forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k)
}
impl<K> HashSet<EntryRef<K>> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: EntryRef<K>) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: Names<K>>(&mut self, k: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(k.names()), r == old(self)@.contains(k.names()) { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q: Names<K>>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.names()) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: It<&'a EntryRef<K>>) ensures lists(self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: It<EntryRef<K>>) ensures lists_own(self@, r@) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, it: It<EntryRef<K>>)
        ensures forall|k: K| #[trigger] final(self)@.contains(k) <==> old(self)@.contains(k) || exists|i: int| 0 <= i < it@.len() && (#[trigger] it@[i])@ == k
    { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
}
impl<K> HashSet<Arc<K>> {
    pub uninterp spec fn ids(&self) -> Set<K>;
}
impl<K> It<Arc<K>> {
    #[verifier::external_body] pub fn collect(self) -> (r: HashSet<Arc<K>>)
        ensures forall|k: K| #[trigger] r.ids().contains(k) <==> exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == k
    { unimplemented!() }
}
impl<'a, K> It<&'a EntryRef<K>> {
    /// Iterator::cloned
    #[verifier::external_body] pub fn cloned(self) -> (r: It<EntryRef<K>>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
/// Option::cloned
pub trait OptCloned<T> { fn cloned(self) -> Option<T>; }
impl<'a, K> OptCloned<EntryRef<K>> for Option<&'a EntryRef<K>> {
    fn cloned(self) -> (r: Option<EntryRef<K>>) ensures r == match self { Some(u) => Some(*u), None => None } { match self { Some(u) => Some(u.clone()), None => None } }
}

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: PhantomData<(K, V)> }
impl<K, V> HashMap<EntryRef<K>, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    /// the allocation of the key held
    pub uninterp spec fn cell(&self, k: K) -> int;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: EntryRef<K>, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k@, v),
            !old(self)@.contains_key(k@) ==> final(self).cell(k@) == k.cell(),
            forall|j: K| #![trigger final(self).cell(j)] old(self)@.contains_key(j) ==> final(self).cell(j) == old(self).cell(j),
    { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: Names<K>>(&mut self, k: &Q) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(k.names()),
            r == if old(self)@.contains_key(k.names()) { Some(old(self)@[k.names()]) } else { None },
            forall|j: K| #![trigger final(self).cell(j)] final(self)@.contains_key(j) ==> final(self).cell(j) == old(self).cell(j),
    { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: Names<K>>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.names()) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: Names<K>>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.names()) && *v == self@[k.names()], None => !self@.contains_key(k.names()) } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<Q: Names<K>>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures
            match r { Some(v) => old(self)@.contains_key(k.names()) && *v == old(self)@[k.names()] && final(self)@ == old(self)@.insert(k.names(), *final(v)), None => !old(self)@.contains_key(k.names()) && final(self)@ == old(self)@ },
            forall|j: K| #![trigger final(self).cell(j)] final(self)@.contains_key(j) ==> final(self).cell(j) == old(self).cell(j),
    { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn entry(&mut self, k: EntryRef<K>) -> (r: HashMapEntry<'_, K, V>)
        ensures
            r.asked() == k@, r.map() == *old(self), r.after() == *final(self), r is Occupied <==> old(self)@.contains_key(k@),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] pub struct HVacant<'a, K, V> { pub key: EntryRef<K>, pub m: &'a mut HashMap<EntryRef<K>, V> }
#[verifier::reject_recursive_types(K)] pub struct HOccupied<'a, K, V> { pub key: EntryRef<K>, pub m: &'a mut HashMap<EntryRef<K>, V> }
#[verifier::reject_recursive_types(K)] pub enum HashMapEntry<'a, K, V> { Vacant(HVacant<'a, K, V>), Occupied(HOccupied<'a, K, V>) }
impl<'a, K, V> HashMapEntry<'a, K, V> {
    pub open spec fn asked(self) -> K { match self { HashMapEntry::Vacant(v) => v.key@, HashMapEntry::Occupied(v) => v.key@ } }
    pub open spec fn map(self) -> HashMap<EntryRef<K>, V> { match self { HashMapEntry::Vacant(v) => *v.m, HashMapEntry::Occupied(v) => *v.m } }
    #[verifier::prophetic] pub open spec fn after(self) -> HashMap<EntryRef<K>, V> { match self { HashMapEntry::Vacant(v) => *final(v.m), HashMapEntry::Occupied(v) => *final(v.m) } }
}
impl<'a, K, V> HOccupied<'a, K, V> {
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).m@.contains_key(old(self).key@)
        ensures
            *r == old(self).m@[old(self).key@], final(self).m@ == old(self).m@.insert(old(self).key@, *final(r)),
            forall|j: K| #![trigger final(self).m.cell(j)] final(self).m@.contains_key(j) ==> final(self).m.cell(j) == old(self).m.cell(j),
            final(self).key == old(self).key, *final(old(self).m) == *final(final(self).m),
    { unimplemented!() }
    /// the key the map holds
    #[verifier::external_body] pub fn key(&self) -> (r: &EntryRef<K>)
        ensures r@ == self.key@, r.cell() == old(self.m).cell(self.key@)
    { unimplemented!() }
}

/// keys with a number to be ordered by
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { p: PhantomData<(K, V)> }
pub mod btree_map { pub use super::BTreeEntry as Entry; }
/// s lists the entries of m in the order of their numbers, those at least lo and below hi
pub open spec fn lists_by_number<V>(m: Map<u64, V>, lo: int, hi: int, s: Seq<(&BlockNumber, &V)>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.0) && *s[i].1 == m[s[i].0.0] && lo <= s[i].0.0 < hi)
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.0 < (#[trigger] s[j]).0.0)
    && (forall|n: u64| #[trigger] m.contains_key(n) && lo <= n < hi ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.0 == n)
}
impl<V> BTreeMap<BlockNumber, V> {
    pub uninterp spec fn view(&self) -> Map<u64, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<u64, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<u64, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<u64, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: It<(&'a BlockNumber, &'a V)>) ensures lists_by_number(self@, 0, 0x1_0000_0000_0000_0000, r@) { unimplemented!() }
    #[verifier::external_body] pub fn range<'a>(&'a self, r: core::ops::Range<BlockNumber>) -> (x: It<(&'a BlockNumber, &'a V)>)
        requires r.start.0 <= r.end.0
        ensures lists_by_number(self@, r.start.0 as int, r.end.0 as int, x@)
    { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &BlockNumber) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.0)
    { unimplemented!() }
    #[verifier::external_body] pub fn iter_mut(&mut self) -> (r: BIterMut<'_, V>) ensures r.m@ == old(self)@, *final(r.m) == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn entry(&mut self, k: BlockNumber) -> (r: BTreeEntry<'_, V>)
        ensures r.key() == k.0, r.map()@ == old(self)@, r.after()@ == final(self)@, r is Occupied <==> old(self)@.contains_key(k.0)
    { unimplemented!() }
}
impl<'a, V> It<(&'a BlockNumber, &'a V)> {
    #[verifier::external_body] pub fn last(self) -> (r: Option<(&'a BlockNumber, &'a V)>)
        ensures r == if self@.len() == 0 { None } else { Some(self@.last()) }
    { unimplemented!() }
}
/// the iterator over entries to change; only its first item is taken
pub struct BIterMut<'a, V> { pub m: &'a mut BTreeMap<BlockNumber, V> }
pub open spec fn least<V>(m: Map<u64, V>, n: u64) -> bool { m.contains_key(n) && forall|j: u64| #[trigger] m.contains_key(j) ==> n <= j }
impl<'a, V> BIterMut<'a, V> {
    #[verifier::external_body] pub fn next(self) -> (r: Option<(&'a BlockNumber, &'a mut V)>)
        ensures
            match r {
                Some((n, v)) => least(old(self.m)@, n.0) && *v == old(self.m)@[n.0] && final(self.m)@ == old(self.m)@.insert(n.0, *final(v)),
                None => old(self.m)@ =~= Map::<u64, V>::empty() && final(self.m)@ == old(self.m)@,
            },
    { unimplemented!() }
}
pub struct BVacant<'a, V> { pub key: BlockNumber, pub m: &'a mut BTreeMap<BlockNumber, V> }
pub struct BOccupied<'a, V> { pub key: BlockNumber, pub m: &'a mut BTreeMap<BlockNumber, V> }
pub enum BTreeEntry<'a, V> { Vacant(BVacant<'a, V>), Occupied(BOccupied<'a, V>) }
impl<'a, V> BTreeEntry<'a, V> {
    pub open spec fn key(self) -> u64 { match self { BTreeEntry::Vacant(v) => v.key.0, BTreeEntry::Occupied(v) => v.key.0 } }
    pub open spec fn map(self) -> BTreeMap<BlockNumber, V> { match self { BTreeEntry::Vacant(v) => *v.m, BTreeEntry::Occupied(v) => *v.m } }
    #[verifier::prophetic] pub open spec fn after(self) -> BTreeMap<BlockNumber, V> { match self { BTreeEntry::Vacant(v) => *final(v.m), BTreeEntry::Occupied(v) => *final(v.m) } }
}
impl<'a, K> BTreeEntry<'a, HashSet<EntryRef<K>>> {
    #[verifier::external_body] pub fn or_default(self) -> (r: &'a mut HashSet<EntryRef<K>>)
        requires self is Occupied <==> self.map()@.contains_key(self.key())
        ensures
            r@ == if self.map()@.contains_key(self.key()) { self.map()@[self.key()]@ } else { Set::<K>::empty() },
            self.after()@ == self.map()@.insert(self.key(), *final(r)),
    { unimplemented!() }
}
impl<'a, V> BOccupied<'a, V> {
    #[verifier::external_body] pub fn get(&self) -> (r: &V)
        requires self.m@.contains_key(self.key.0)
        ensures *r == old(self.m)@[self.key.0]
    { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).m@.contains_key(old(self).key.0)
        ensures
            *r == old(self).m@[old(self).key.0], final(self).m@ == old(self).m@.insert(old(self).key.0, *final(r)),
            final(self).key == old(self).key, *final(old(self).m) == *final(final(self).m),
    { unimplemented!() }
    #[verifier::external_body] pub fn remove(self) -> (r: V)
        requires self.m@.contains_key(self.key.0)
        ensures r == old(self.m)@[self.key.0], final(self.m)@ == old(self.m)@.remove(self.key.0)
    { unimplemented!() }
}
/// a condition the code asserts: it has to hold
pub fn must_hold(b: bool) requires b {}

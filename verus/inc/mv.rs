// ---- block numbers (C01's contracts) ----
//@item core/src/block_number.rs | struct | BlockNumber
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl BlockNumber {
    //@item core/src/block_number.rs | const | impl BlockNumber ::> MIN
    //@rewrite pub const MIN : Self = $x ; => pub exec const MIN: Self ensures Self::MIN.0 == 0 { $x }
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | new
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | into_inner
    //@spec
        ensures r == self.0
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | saturating_sub
    //@spec
        ensures r.0 == if self.0 >= rhs { self.0 - rhs } else { 0 }
    //@end
    // the expansion of derive(PartialOrd)
    pub fn le(&self, o: &BlockNumber) -> (r: bool) ensures r == (self.0 <= o.0) { self.0 <= o.0 }
    pub fn gt(&self, o: &BlockNumber) -> (r: bool) ensures r == (self.0 > o.0) { self.0 > o.0 }
}
// ---- entries ----
//@item multiverse/src/entry.rs | struct | Entry
//@attr #[verifier::reject_recursive_types(K)]
//@rewrite pub ( super ) => pub
//@end
//@item multiverse/src/entry.rs | struct | EntryWeakRef
//@rewrite key : => pub key:
//@end
//@item multiverse/src/entry.rs | struct | EntryRef
//@rewrite pub ( super ) => pub
//@end
impl<K> EntryRef<K> {
    pub open spec fn view(&self) -> K { self.key@ }
    pub open spec fn cell(&self) -> int { self.key.cell() }
    //@fn multiverse/src/entry.rs | impl<K> EntryRef<K> | new
    //@spec
        ensures r@ == key
    //@end
    //@fn multiverse/src/entry.rs | impl<K> EntryRef<K> | weak
    //@spec
        ensures r.target() == Some((self@, self.cell()))
    //@end
    //@fn multiverse/src/entry.rs | impl<K> EntryRef<K> | inner
    //@spec
        ensures *r == self@
    //@end
    // a map's keys are found again by the key they hold: equality and hash are the key's
    //@fn multiverse/src/entry.rs | impl<K: PartialEq> PartialEq for EntryRef<K> | eq
    //@spec
        ensures r == (self@ == other@)
    //@end
    //@fn multiverse/src/entry.rs | impl<K: Hash> Hash for EntryRef<K> | hash
    //@sig hash < H : Hasher > => hash
    //@sig state : &mut H => state: &mut Hasher
    //@spec
        ensures final(state)@ == hashed(old(state)@, self@)
    //@end
    //@fn multiverse/src/entry.rs | impl<K> From<K> for EntryRef<K> | from
    //@spec
        ensures r@ == key
    //@end
    //@fn multiverse/src/entry.rs | impl<K> Borrow<K> for EntryRef<K> | borrow
    //@spec
        ensures *r == self@
    //@end
}
impl<K> Clone for EntryRef<K> {
    //@fn multiverse/src/entry.rs | impl<K> Clone for EntryRef<K> | clone
    //@spec
        ensures r == *self
    //@end
}
impl<K> EntryWeakRef<K> {
    pub open spec fn target(&self) -> Option<(K, int)> { self.key.target() }
    /// the key it refers to
    pub open spec fn link(&self) -> Option<K> { match self.target() { Some(t) => Some(t.0), None => None } }
    //@fn multiverse/src/entry.rs | impl<K> Default for EntryWeakRef<K> | default
    //@spec
        ensures r.target() is None
    //@end
    //@fn multiverse/src/entry.rs | impl<K> Clone for EntryWeakRef<K> | clone
    //@spec
        ensures r == *self
    //@end
    //@fn multiverse/src/entry.rs | impl<K> EntryWeakRef<K> | new
    //@spec
        ensures r.target() is None
    //@end
    //@fn multiverse/src/entry.rs | impl<K> EntryWeakRef<K> | upgrade
    //@sig upgrade ( & self ) => upgrade<V>(&self, alive: &HashMap<EntryRef<K>, V>)
    //@rewrite . upgrade ( ) => .upgrade(alive)
    //@spec
        ensures
            r matches Some(a) ==> self.target() == Some((a@, a.cell())),
            self.target() matches Some(t) ==> (alive@.contains_key(t.0) && alive.cell(t.0) == t.1 ==> r is Some),
    //@end
}
impl<K, V> Entry<K, V> {
    //@fn multiverse/src/entry.rs | impl<K, V> Entry<K, V> | new
    //@sig pub ( super ) => pub
    //@spec
        ensures r.parent == parent, r.children@ == Set::<K>::empty(), r.value == value
    //@end
    //@fn multiverse/src/entry.rs | impl<K, V> Entry<K, V> where K: Eq + Hash, | add_child
    //@sig pub ( super ) => pub
    //@spec
        ensures final(self).parent == old(self).parent, final(self).value == old(self).value, final(self).children@ == old(self).children@.insert(child@)
    //@end
}
// ---- the multiverse ----
//@item multiverse/src/lib.rs | struct | Multiverse
//@attr #[verifier::reject_recursive_types(K)]
//@rewrite _db : => pub _db:
//@rewrite , tree : => , pub tree:
//@rewrite , all : => , pub all:
//@rewrite , ordered : => , pub ordered:
//@rewrite , tips : => , pub tips:
//@rewrite , roots : => , pub roots:
//@rewrite , store_from : => , pub store_from:
//@end
//@item multiverse/src/lib.rs | struct | BestBlock
//@attr #[verifier::reject_recursive_types(K)]
//@end
//@item multiverse/src/lib.rs | enum | BestBlockSelectionRule
//@end
/// what a multiverse holds: blocks by identifier, each linked to its parent or not
pub struct Node<K, V> { pub value: V, pub link: Option<K> }
pub type State<K, V> = Map<K, Node<K, V>>;
/// a block is inserted: linked to its parent if that is a member
pub open spec fn inserted<K: Ident, V: Variant<Key = K>>(s: State<K, V>, v: V) -> State<K, V> {
    if s.contains_key(v.id_of()) { s }
    else { s.insert(v.id_of(), Node { value: v, link: if s.contains_key(v.parent_of()) { Some(v.parent_of()) } else { None } }) }
}
/// a block is removed: the links to it are cut
pub open spec fn cut<K, V>(n: Node<K, V>, k: K) -> Node<K, V> { if n.link == Some(k) { Node { value: n.value, link: None } } else { n } }
pub open spec fn is_removed<K, V>(s: State<K, V>, k: K, t: State<K, V>) -> bool {
    forall|j: K| (#[trigger] t.contains_key(j) <==> s.contains_key(j) && j != k) && (t.contains_key(j) ==> t[j] == cut(s[j], k))
}
pub open spec fn is_parent<K, V>(s: State<K, V>, p: K, c: K) -> bool { s.contains_key(c) && s[c].link == Some(p) }
/// member blocks that are no member's parent
pub open spec fn is_tip<K, V>(s: State<K, V>, k: K) -> bool { s.contains_key(k) && forall|c: K| !#[trigger] is_parent(s, k, c) }
/// member blocks whose parent is not a member
pub open spec fn is_root<K, V>(s: State<K, V>, k: K) -> bool { s.contains_key(k) && s[k].link is None }
pub open spec fn number<K: Ident, V: Variant<Key = K>>(s: State<K, V>, k: K) -> u64 { s[k].value.number_of() }
/// an identifier names one block
pub open spec fn known<K: Ident, V: Variant<Key = K>>(s: State<K, V>, v: V) -> bool { s.contains_key(v.id_of()) ==> s[v.id_of()].value == v }
/// a number in eight bytes, the most significant first
pub open spec fn be(n: u64) -> Seq<u8> { seq![(n >> 56) as u8, (n >> 48) as u8, (n >> 40) as u8, (n >> 32) as u8, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8] }
pub open spec fn dash() -> Seq<u8> { seq![45u8] }
/// the key a block is stored under
pub open spec fn key_of<K: Ident>(n: u64, k: K) -> Seq<u8> { be(n) + dash() + k.bytes() }
pub open spec fn block_key<K: Ident, V: Variant<Key = K>>(v: V) -> Seq<u8> { key_of(v.number_of(), v.id_of()) }

pub open spec fn to_store<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64, k: K) -> bool { s.contains_key(k) && from <= s[k].value.number_of() }
pub open spec fn stored_in<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64, t: Map<Seq<u8>, Seq<u8>>) -> bool {
    forall|k: K| #[trigger] to_store(s, from, k) ==> t.contains_key(block_key(s[k].value)) && t[block_key(s[k].value)] == json(s[k].value)
}
pub open spec fn exact_in<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64, t: Map<Seq<u8>, Seq<u8>>) -> bool {
    forall|b: Seq<u8>| #[trigger] t.contains_key(b) ==> exists|k: K| #[trigger] to_store(s, from, k) && b == block_key(s[k].value)
}
pub open spec fn own_ids<K: Ident, V: Variant<Key = K>>(s: State<K, V>) -> bool { forall|k: K| #[trigger] s.contains_key(k) ==> s[k].value.id_of() == k }
pub proof fn lemma_be(n: u64, m: u64) requires be(n) =~= be(m) ensures n == m {
    assert(be(n)[0] == be(m)[0] && be(n)[1] == be(m)[1] && be(n)[2] == be(m)[2] && be(n)[3] == be(m)[3] && be(n)[4] == be(m)[4] && be(n)[5] == be(m)[5] && be(n)[6] == be(m)[6] && be(n)[7] == be(m)[7]);
    assert(n == m) by (bit_vector)
        requires (n >> 56) as u8 == (m >> 56) as u8, (n >> 48) as u8 == (m >> 48) as u8, (n >> 40) as u8 == (m >> 40) as u8, (n >> 32) as u8 == (m >> 32) as u8,
            (n >> 24) as u8 == (m >> 24) as u8, (n >> 16) as u8 == (m >> 16) as u8, (n >> 8) as u8 == (m >> 8) as u8, n as u8 == m as u8;
}
/// different blocks are stored under different keys
pub proof fn lemma_keys<K: Ident>(n: u64, k: K, m: u64, j: K) requires key_of(n, k) == key_of(m, j) ensures n == m, k == j {
    let (a, b) = (key_of(n, k), key_of(m, j));
    assert(a.take(8) =~= be(n) && b.take(8) =~= be(m));
    assert(a.skip(9) =~= k.bytes() && b.skip(9) =~= j.bytes());
    lemma_be(n, m);
    K::told_apart(k, j);
}
/// writing a known block again
pub proof fn lemma_put<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64, t: Map<Seq<u8>, Seq<u8>>, v: V)
    requires stored_in(s, from, t), own_ids(s), known(s, v)
    ensures
        stored_in(s, from, t.insert(block_key(v), json(v))),
        to_store(s, from, v.id_of()) ==> t.contains_key(block_key(v)) && t.insert(block_key(v), json(v)) =~= t,
{
    let t2 = t.insert(block_key(v), json(v));
    assert forall|k: K| #[trigger] to_store(s, from, k) implies t2.contains_key(block_key(s[k].value)) && t2[block_key(s[k].value)] == json(s[k].value) by {
        if block_key(s[k].value) == block_key(v) { lemma_keys(s[k].value.number_of(), k, v.number_of(), v.id_of()); }
    }
}
/// a block comes in
pub proof fn lemma_added<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64, t: Map<Seq<u8>, Seq<u8>>, v: V)
    requires stored_in(s, from, t), own_ids(s), !s.contains_key(v.id_of())
    ensures ({
        let t2 = if from <= v.number_of() { t.insert(block_key(v), json(v)) } else { t };
        stored_in(inserted(s, v), from, t2) && (exact_in(s, from, t) ==> exact_in(inserted(s, v), from, t2))
    })
{
    let t2 = if from <= v.number_of() { t.insert(block_key(v), json(v)) } else { t };
    let s2 = inserted(s, v);
    assert forall|k: K| #[trigger] to_store(s2, from, k) implies t2.contains_key(block_key(s2[k].value)) && t2[block_key(s2[k].value)] == json(s2[k].value) by {
        if k != v.id_of() {
            assert(to_store(s, from, k));
            if block_key(s[k].value) == block_key(v) { lemma_keys(s[k].value.number_of(), k, v.number_of(), v.id_of()); }
        }
    }
    if exact_in(s, from, t) {
        assert forall|b: Seq<u8>| #[trigger] t2.contains_key(b) implies exists|k: K| #[trigger] to_store(s2, from, k) && b == block_key(s2[k].value) by {
            if t.contains_key(b) {
                let k = choose|k: K| #[trigger] to_store(s, from, k) && b == block_key(s[k].value);
                assert(to_store(s2, from, k));
            } else { assert(to_store(s2, from, v.id_of())); }
        }
    }
}
/// a block goes out
pub proof fn lemma_dropped<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64, t: Map<Seq<u8>, Seq<u8>>, k: K, s2: State<K, V>)
    requires stored_in(s, from, t), own_ids(s), s.contains_key(k), is_removed(s, k, s2)
    ensures ({
        let t2 = t.remove(block_key(s[k].value));
        stored_in(s2, from, t) && stored_in(s2, from, t2) && (exact_in(s, from, t) ==> exact_in(s2, from, t2))
    })
{
    let t2 = t.remove(block_key(s[k].value));
    assert forall|j: K| #[trigger] to_store(s2, from, j) implies t2.contains_key(block_key(s2[j].value)) && t2[block_key(s2[j].value)] == json(s2[j].value)
        && t.contains_key(block_key(s2[j].value)) && t[block_key(s2[j].value)] == json(s2[j].value) by
    {
        assert(to_store(s, from, j));
        if block_key(s[j].value) == block_key(s[k].value) { lemma_keys(s[j].value.number_of(), j, s[k].value.number_of(), k); }
    }
    if exact_in(s, from, t) {
        assert forall|b: Seq<u8>| #[trigger] t2.contains_key(b) implies exists|j: K| #[trigger] to_store(s2, from, j) && b == block_key(s2[j].value) by {
            let j = choose|j: K| #[trigger] to_store(s, from, j) && b == block_key(s[j].value);
            assert(j != k);
            assert(s2.contains_key(j));
            assert(to_store(s2, from, j));
        }
    }
}
impl<K: Ident, V: Variant<Key = K>> Multiverse<K, V> {
    pub open spec fn state(&self) -> State<K, V> { self.all@.map_values(|e: Entry<K, V>| Node { value: e.value, link: e.parent.link() }) }
    pub open spec fn links_ok(&self) -> bool {
        &&& forall|k: K| #[trigger] self.all@.contains_key(k) ==> self.all@[k].value.id_of() == k
        &&& forall|k: K| #[trigger] self.all@.contains_key(k) ==> (self.all@[k].parent.target() matches Some(t) ==> t.0 != k && self.all@.contains_key(t.0) && self.all.cell(t.0) == t.1 && self.all@[t.0].children@.contains(k))
        &&& forall|p: K, c: K| #[trigger] self.all@.contains_key(p) && #[trigger] self.all@[p].children@.contains(c) ==> self.all@.contains_key(c) && self.all@[c].parent.link() == Some(p)
    }
    pub open spec fn ends_ok(&self) -> bool {
        &&& forall|k: K| #[trigger] self.tips@.contains(k) <==> self.all@.contains_key(k) && self.all@[k].children@ =~= Set::<K>::empty()
        &&& forall|k: K| #[trigger] self.roots@.contains(k) <==> self.all@.contains_key(k) && self.all@[k].parent.target() is None
    }
    pub open spec fn order_ok(&self) -> bool {
        &&& forall|n: u64| #[trigger] self.ordered@.contains_key(n) ==> exists|k: K| self.ordered@[n]@.contains(k)
        &&& forall|n: u64, k: K| #[trigger] self.ordered@.contains_key(n) && #[trigger] self.ordered@[n]@.contains(k) ==> self.all@.contains_key(k) && self.all@[k].value.number_of() == n
        &&& forall|k: K| #[trigger] self.all@.contains_key(k) ==> self.ordered@.contains_key(self.all@[k].value.number_of()) && self.ordered@[self.all@[k].value.number_of()]@.contains(k)
    }
    /// in memory
    pub open spec fn mem(&self) -> bool { self.links_ok() && self.ends_ok() && self.order_ok() }
    /// the members to be stored are in the database, and nothing else
    pub open spec fn stored(&self) -> bool { stored_in(self.state(), self.store_from.0, self.tree@) }
    pub open spec fn exact(&self) -> bool { exact_in(self.state(), self.store_from.0, self.tree@) }
    pub open spec fn wf(&self) -> bool { self.mem() && self.stored() }
    /// M01: the tips and roots are those of the blocks held
    pub proof fn lemma_ends(&self)
        requires self.mem()
        ensures forall|k: K| #[trigger] self.tips@.contains(k) <==> is_tip(self.state(), k), forall|k: K| #[trigger] self.roots@.contains(k) <==> is_root(self.state(), k)
    {
        let s = self.state();
        assert forall|k: K| #[trigger] self.tips@.contains(k) <==> is_tip(s, k) by {
            if self.tips@.contains(k) {
                assert forall|c: K| !#[trigger] is_parent(s, k, c) by { if is_parent(s, k, c) { assert(self.all@.contains_key(c)); assert(self.all@[k].children@.contains(c)); } }
            }
            if is_tip(s, k) {
                assert(self.all@.contains_key(k));
                assert forall|c: K| !self.all@[k].children@.contains(c) by { if self.all@[k].children@.contains(c) { assert(is_parent(s, k, c)); } }
                assert(self.all@[k].children@ =~= Set::<K>::empty());
            }
        }
    }
}
//@rules mv
assert ! ( $x , $m , ) => must_hold($x)
assert ! ( $x , $m ) => must_hold($x)
tracing :: debug ! ( $x* ) ; =>
tracing :: warn ! ( $x* ) ; =>
tracing :: warn ! ( $x* ) =>
tracing :: info ! ( $x* ) ; =>
deps :: serde_json => serde_json
. parent . upgrade ( ) => .parent.upgrade(&self.all)
//@end
//@fn multiverse/src/lib.rs |  | mk_sled_key
//@sig key : impl AsRef < [ u8 ] > => key: &K
//@sig mk_sled_key ( => mk_sled_key<K: Ident>(
//@rewrite bytes . extend ( counter . into_inner ( ) . to_be_bytes ( ) ) => extend(&mut bytes, &to_be_bytes(counter.into_inner()))
//@rewrite bytes . extend ( b"-" ) => extend(&mut bytes, &[0x2du8])
//@rewrite bytes . extend ( key . as_ref ( ) ) => extend(&mut bytes, key.as_ref())
//@spec
    ensures r@ == key_of(counter.0, *key)
//@hint before extend ( &mut bytes , &to_be_bytes
    proof { assert(seq![0x2du8] =~= dash()); }
//@end
/// std: u64::to_be_bytes and Vec::extend
#[verifier::external_body] pub fn to_be_bytes(n: u64) -> (r: [u8; 8]) ensures r@ == be(n) { unimplemented!() }
#[verifier::external_body] pub fn extend(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ { unimplemented!() }

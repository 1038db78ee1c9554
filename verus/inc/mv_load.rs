// ---- reopening ----
/// the database holds the blocks of b, under their own keys, and nothing else
pub open spec fn image<K: Ident, V: Variant<Key = K>>(t: Map<Seq<u8>, Seq<u8>>, b: Map<K, V>) -> bool {
    &&& forall|k: K| #[trigger] b.contains_key(k) ==> b[k].id_of() == k && t.contains_key(block_key(b[k])) && t[block_key(b[k])] == json(b[k])
    &&& forall|x: Seq<u8>| #[trigger] t.contains_key(x) ==> exists|k: K| #[trigger] b.contains_key(k) && x == block_key(b[k])
}
/// it is what a multiverse wrote
pub open spec fn readable<K: Ident, V: Variant<Key = K>>(t: Map<Seq<u8>, Seq<u8>>) -> bool { exists|b: Map<K, V>| #[trigger] image(t, b) }
/// the blocks of b, each linked to its parent if that was read before it
pub open spec fn read_back<K: Ident, V: Variant<Key = K>>(b: Map<K, V>, s: State<K, V>) -> bool {
    forall|k: K| (#[trigger] s.contains_key(k) <==> b.contains_key(k)) && (b.contains_key(k) ==> s[k].value == b[k]
        && s[k].link == if b.contains_key(b[k].parent_of()) && less(block_key(b[b[k].parent_of()]), block_key(b[k])) { Some(b[k].parent_of()) } else { None })
}
pub open spec fn is_block<K: Ident, V: Variant<Key = K>>(b: Map<K, V>, x: Seq<u8>, k: K) -> bool { b.contains_key(k) && x == block_key(b[k]) }
pub open spec fn block_at<K: Ident, V: Variant<Key = K>>(b: Map<K, V>, x: Seq<u8>) -> K { choose|k: K| is_block(b, x, k) }
/// the first n keys' blocks are in
pub open spec fn read_some<K: Ident, V: Variant<Key = K>>(b: Map<K, V>, ks: Seq<Seq<u8>>, n: int, s: State<K, V>) -> bool {
    forall|k: K| (#[trigger] s.contains_key(k) <==> b.contains_key(k) && among(ks, n, block_key(b[k]))) && (s.contains_key(k) ==> s[k].value == b[k]
        && s[k].link == if b.contains_key(b[k].parent_of()) && less(block_key(b[b[k].parent_of()]), block_key(b[k])) { Some(b[k].parent_of()) } else { None })
}
pub open spec fn among(ks: Seq<Seq<u8>>, n: int, x: Seq<u8>) -> bool { exists|i: int| 0 <= i < n && #[trigger] ks[i] == x }
pub proof fn lemma_less_irreflexive(a: Seq<u8>) ensures !less(a, a) decreases a.len() { if a.len() > 0 { lemma_less_irreflexive(a.drop_first()); } }
pub proof fn lemma_less_antisymmetric(a: Seq<u8>, b: Seq<u8>) requires less(a, b) ensures !less(b, a) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lemma_less_antisymmetric(a.drop_first(), b.drop_first()); } }
pub proof fn lemma_less_at(a: Seq<u8>, b: Seq<u8>, i: nat)
    requires i < a.len(), i < b.len(), a[i as int] < b[i as int], forall|j: int| 0 <= j < i ==> a[j] == b[j]
    ensures less(a, b)
    decreases i
{
    if i > 0 {
        let (c, d) = (a.drop_first(), b.drop_first());
        assert forall|j: int| 0 <= j < i - 1 implies c[j] == d[j] by { assert(a[j + 1] == b[j + 1]); }
        lemma_less_at(c, d, (i - 1) as nat);
    }
}
/// lower numbers come first
pub proof fn lemma_order<K: Ident>(n: u64, k: K, m: u64, j: K)
    requires n < m
    ensures less(key_of(n, k), key_of(m, j))
{
    let (a, b) = (key_of(n, k), key_of(m, j));
    assert forall|i: int| 0 <= i < 8 implies a[i] == be(n)[i] && b[i] == be(m)[i] by {}
    let (n0, n1, n2, n3, n4, n5, n6, n7) = ((n >> 56) as u8, (n >> 48) as u8, (n >> 40) as u8, (n >> 32) as u8, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8);
    let (m0, m1, m2, m3, m4, m5, m6, m7) = ((m >> 56) as u8, (m >> 48) as u8, (m >> 40) as u8, (m >> 32) as u8, (m >> 24) as u8, (m >> 16) as u8, (m >> 8) as u8, m as u8);
    assert(n0 < m0 || (n0 == m0 && (n1 < m1 || (n1 == m1 && (n2 < m2 || (n2 == m2 && (n3 < m3 || (n3 == m3 && (n4 < m4 || (n4 == m4 && (n5 < m5 || (n5 == m5 && (n6 < m6 || (n6 == m6 && n7 < m7)))))))))))))) by (bit_vector)
        requires n < m,
            n0 == (n >> 56) as u8, n1 == (n >> 48) as u8, n2 == (n >> 40) as u8, n3 == (n >> 32) as u8, n4 == (n >> 24) as u8, n5 == (n >> 16) as u8, n6 == (n >> 8) as u8, n7 == n as u8,
            m0 == (m >> 56) as u8, m1 == (m >> 48) as u8, m2 == (m >> 40) as u8, m3 == (m >> 32) as u8, m4 == (m >> 24) as u8, m5 == (m >> 16) as u8, m6 == (m >> 8) as u8, m7 == m as u8;
    let i: nat = if n0 < m0 { 0 } else if n1 < m1 { 1 } else if n2 < m2 { 2 } else if n3 < m3 { 3 } else if n4 < m4 { 4 } else if n5 < m5 { 5 } else if n6 < m6 { 6 } else { 7 };
    lemma_less_at(a, b, i);
}
/// a parent that is a member is linked
pub open spec fn linked<K: Ident, V: Variant<Key = K>>(s: State<K, V>) -> bool {
    forall|k: K| #[trigger] s.contains_key(k) ==> s[k].link == if s.contains_key(s[k].value.parent_of()) { Some(s[k].value.parent_of()) } else { None }
}
/// parents before children, then removals: every such history keeps the members linked
pub proof fn lemma_history<K: Ident, V: Variant<Key = K>>(s: State<K, V>, v: V, k: K, t: State<K, V>)
    requires linked(s), own_ids(s)
    ensures
        !s.contains_key(v.id_of()) && v.parent_of() != v.id_of() && (forall|j: K| #[trigger] s.contains_key(j) ==> s[j].value.parent_of() != v.id_of()) ==> linked(inserted(s, v)),
        is_removed(s, k, t) ==> linked(t) && own_ids(t),
        own_ids(inserted(s, v)),
{
    if !s.contains_key(v.id_of()) && v.parent_of() != v.id_of() && (forall|j: K| #[trigger] s.contains_key(j) ==> s[j].value.parent_of() != v.id_of()) {
        let u = inserted(s, v);
        assert forall|j: K| #[trigger] u.contains_key(j) implies u[j].link == if u.contains_key(u[j].value.parent_of()) { Some(u[j].value.parent_of()) } else { None } by {
            if j != v.id_of() { assert(s.contains_key(j)); }
        }
    }
    if is_removed(s, k, t) {
        assert forall|j: K| #[trigger] t.contains_key(j) implies t[j].link == if t.contains_key(t[j].value.parent_of()) { Some(t[j].value.parent_of()) } else { None } by {
            assert(s.contains_key(j));
        }
    }
}
/// the blocks numbered from there on, linked among themselves
pub open spec fn kept_from<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64, t: State<K, V>) -> bool {
    forall|k: K| (#[trigger] t.contains_key(k) <==> to_store(s, from, k)) && (t.contains_key(k) ==> t[k].value == s[k].value
        && t[k].link == if s[k].link is Some && to_store(s, from, s[k].link->0) { s[k].link } else { None })
}
pub open spec fn blocks<K: Ident, V: Variant<Key = K>>(s: State<K, V>, from: u64) -> Map<K, V> { Map::new(s.dom().filter(|k: K| to_store(s, from, k)), |k: K| s[k].value) }
/// M04: what was held is what is read back, when parents came before children and numbers grow along the links
pub proof fn lemma_reopened<K: Ident, V: Variant<Key = K>>(m: Multiverse<K, V>, t: State<K, V>)
    requires m.wf(), m.exact(), linked(m.state()), grows(m.state()),
    ensures image(m.tree@, blocks(m.state(), m.store_from.0)), read_back(blocks(m.state(), m.store_from.0), t) ==> kept_from(m.state(), m.store_from.0, t) && (m.store_from.0 == 0 ==> t =~= m.state())
{
    let s = m.state();
    let from = m.store_from.0;
    let b = blocks(s, from);
    assert forall|k: K| #[trigger] b.contains_key(k) <==> to_store(s, from, k) by {}
    assert forall|x: Seq<u8>| #[trigger] m.tree@.contains_key(x) implies exists|k: K| #[trigger] b.contains_key(k) && x == block_key(b[k]) by {
        let k = choose|k: K| #[trigger] to_store(s, from, k) && x == block_key(s[k].value);
        assert(b.contains_key(k));
    }
    if read_back(b, t) {
        assert forall|k: K| (#[trigger] t.contains_key(k) <==> to_store(s, from, k)) && (t.contains_key(k) ==> t[k].value == s[k].value
            && t[k].link == if s[k].link is Some && to_store(s, from, s[k].link->0) { s[k].link } else { None }) by
        {
            assert(b.contains_key(k) <==> to_store(s, from, k));
            if b.contains_key(k) {
                let p = s[k].value.parent_of();
                assert(b.contains_key(p) <==> to_store(s, from, p));
                if s.contains_key(p) { lemma_order(number(s, p), p, number(s, k), k); }
            }
        }
        if from == 0 {
            assert forall|k: K| #[trigger] s.contains_key(k) implies t.contains_key(k) && t[k] == s[k] by {
                assert(to_store(s, from, k)); assert(t.contains_key(k));
                if s[k].link is Some { assert(to_store(s, from, s[k].link->0)); }
            }
            assert forall|k: K| t.contains_key(k) implies #[trigger] s.contains_key(k) by { assert(to_store(s, from, k)); }
            assert(t =~= s);
        }
    }
}
/// one more is read
pub proof fn lemma_read<K: Ident, V: Variant<Key = K>>(t: Map<Seq<u8>, Seq<u8>>, b: Map<K, V>, ks: Seq<Seq<u8>>, items: Seq<Result<sled::IVec, sled::Error>>, n: int, s: State<K, V>)
    requires image(t, b), sled::in_key_order(t, ks, items), 0 <= n < ks.len(), read_some(b, ks, n, s),
    ensures ({
        let k = block_at(b, ks[n]);
        b.contains_key(k) && b[k].id_of() == k && t[ks[n]] == json(b[k]) && !s.contains_key(k) && read_some(b, ks, n + 1, inserted(s, b[k]))
    })
{
    let k = block_at(b, ks[n]);
    assert(t.contains_key(ks[n]));
    let w = choose|w: K| #[trigger] b.contains_key(w) && ks[n] == block_key(b[w]);
    assert(is_block(b, ks[n], w));
    assert(is_block(b, ks[n], k));
    lemma_less_irreflexive(ks[n]);
    assert(!among(ks, n, ks[n])) by {
        if among(ks, n, ks[n]) { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == ks[n]; assert(less(ks[i], ks[n])); }
    }
    let p = b[k].parent_of();
    assert(s.contains_key(p) <==> b.contains_key(p) && less(block_key(b[p]), ks[n])) by {
        if b.contains_key(p) {
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == block_key(b[p]);
            assert(t.contains_key(block_key(b[p])));
            if i < n { assert(less(ks[i], ks[n])); }
            else {
                if i > n { assert(less(ks[n], ks[i])); lemma_less_antisymmetric(ks[n], ks[i]); }
                if among(ks, n, ks[i]) { let j = choose|j: int| 0 <= j < n && #[trigger] ks[j] == ks[i]; assert(less(ks[j], ks[i])); lemma_less_irreflexive(ks[i]); }
            }
        }
    }
    let u = inserted(s, b[k]);
    assert forall|j: K| (#[trigger] u.contains_key(j) <==> b.contains_key(j) && among(ks, n + 1, block_key(b[j]))) && (u.contains_key(j) ==> u[j].value == b[j]
        && u[j].link == if b.contains_key(b[j].parent_of()) && less(block_key(b[b[j].parent_of()]), block_key(b[j])) { Some(b[j].parent_of()) } else { None }) by
    {
        assert(u.contains_key(j) <==> s.contains_key(j) || j == k);
        if j == k { assert(ks[n] == block_key(b[j])); assert(among(ks, n + 1, block_key(b[j]))); }
        else if b.contains_key(j) {
            if among(ks, n, block_key(b[j])) { let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == block_key(b[j]); assert(0 <= i < n + 1); }
            if among(ks, n + 1, block_key(b[j])) {
                let i = choose|i: int| 0 <= i < n + 1 && #[trigger] ks[i] == block_key(b[j]);
                if i == n { lemma_keys(b[j].number_of(), j, b[k].number_of(), k); }
            }
        }
    }
}
pub proof fn lemma_all_read<K: Ident, V: Variant<Key = K>>(t: Map<Seq<u8>, Seq<u8>>, b: Map<K, V>, ks: Seq<Seq<u8>>, items: Seq<Result<sled::IVec, sled::Error>>, from: u64, s: State<K, V>)
    requires image(t, b), sled::in_key_order(t, ks, items), read_some(b, ks, ks.len() as int, s),
    ensures read_back(b, s), stored_in(s, from, t), (forall|k: K| #[trigger] b.contains_key(k) ==> from <= b[k].number_of()) ==> exact_in(s, from, t),
{
    assert forall|k: K| #[trigger] b.contains_key(k) implies among(ks, ks.len() as int, block_key(b[k])) by {
        assert(t.contains_key(block_key(b[k])));
        let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == block_key(b[k]);
        assert(among(ks, ks.len() as int, block_key(b[k])));
    }
    assert forall|k: K| #[trigger] to_store(s, from, k) implies t.contains_key(block_key(s[k].value)) && t[block_key(s[k].value)] == json(s[k].value) by {
        assert(s.contains_key(k)); assert(b.contains_key(k));
    }
    if forall|k: K| #[trigger] b.contains_key(k) ==> from <= b[k].number_of() {
        assert forall|x: Seq<u8>| #[trigger] t.contains_key(x) implies exists|k: K| #[trigger] to_store(s, from, k) && x == block_key(s[k].value) by {
            let k = choose|k: K| #[trigger] b.contains_key(k) && x == block_key(b[k]);
            assert(among(ks, ks.len() as int, block_key(b[k])));
            assert(s.contains_key(k));
            assert(to_store(s, from, k));
        }
    }
}
impl<K: Ident, V: Variant<Key = K>> Multiverse<K, V> {
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | load_from
    //@use mv
    //@desugar for.it
    //@spec
        requires readable::<K, V>(db.tree(domain@))
        ensures
            r matches Ok(m) ==> m.wf() && m.store_from == store_from && m.tree@ == db.tree(domain@)
                && forall|b: Map<K, V>| #[trigger] image(db.tree(domain@), b) ==> read_back(b, m.state()) && ((forall|k: K| #[trigger] b.contains_key(k) ==> store_from.0 <= b[k].number_of()) ==> m.exact()),
            r matches Err(e) ==> !(e is NotFound),
    //@hint start
        broadcast use {from_storage, from_encoding};
        let ghost t = db.tree(domain@);
    //@hint before-loop 0
        let ghost items = __it0@;
        let ghost ks = choose|ks: Seq<Seq<u8>>| #[trigger] sled::in_key_order(t, ks, items);
        let ghost mut n: int = 0;
        let ghost b0 = choose|b: Map<K, V>| #[trigger] image(t, b);
        let ghost mut s0 = multiverse.state();
    //@loop 0
        invariant_except_break
            sled::in_key_order(t, ks, items), multiverse.mem(), multiverse.tree@ == t, multiverse.store_from == store_from,
            image(t, b0), 0 <= n <= items.len(), __it0@ =~= items.skip(n),
            forall|b: Map<K, V>| #[trigger] image(t, b) ==> read_some(b, ks, n, multiverse.state()),
        ensures multiverse.mem(), multiverse.tree@ == t, multiverse.store_from == store_from, sled::in_key_order(t, ks, items), forall|b: Map<K, V>| #[trigger] image(t, b) ==> read_some(b, ks, ks.len() as int, multiverse.state())
        decreases __it0@.len()
    //@hint loop-start 0
        broadcast use {from_storage, from_encoding};
        proof {
            s0 = multiverse.state();
            if n < items.len() { lemma_read(t, b0, ks, items, n, s0); }
        }
    //@hint loop-end 0
        proof {
            assert forall|b: Map<K, V>| #[trigger] image(t, b) implies read_some(b, ks, n + 1, multiverse.state()) by {
                lemma_read(t, b, ks, items, n, s0);
                assert(json(b[block_at(b, ks[n])]) == json(b0[block_at(b0, ks[n])]));
                assert(multiverse.state() =~= inserted(s0, b[block_at(b, ks[n])]));
            }
            n = n + 1;
        }
    //@hint after-loop 0
        proof {
            assert forall|b: Map<K, V>| #[trigger] image(t, b) implies read_back(b, multiverse.state()) && multiverse.stored() && ((forall|k: K| #[trigger] b.contains_key(k) ==> store_from.0 <= b[k].number_of()) ==> multiverse.exact()) by {
                lemma_all_read(t, b, ks, items, store_from.0, multiverse.state());
            }
        }
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | open
    //@sig open < P > ( path : P => open(path: PathBuf
    //@sig where P : AsRef < Path > , =>
    //@spec
        requires readable::<K, V>(sled::kept_at(path, domain@))
        ensures
            r matches Ok(m) ==> m.wf() && m.store_from == store_from && m.tree@ == sled::kept_at(path, domain@)
                && forall|b: Map<K, V>| #[trigger] image(sled::kept_at(path, domain@), b) ==> read_back(b, m.state()) && ((forall|k: K| #[trigger] b.contains_key(k) ==> store_from.0 <= b[k].number_of()) ==> m.exact()),
            r matches Err(e) ==> !(e is NotFound),
    //@hint start
        broadcast use {from_storage, from_encoding};
    //@end
}

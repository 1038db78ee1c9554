// ---- best block and preferred fork ----
/// the n-th block up the links
pub open spec fn walk<K, V>(s: State<K, V>, k: K, n: nat) -> Option<K>
    decreases n
{ if n == 0 { Some(k) } else { match s[k].link { None => None, Some(p) => walk(s, p, (n - 1) as nat) } } }
/// no member has a higher number
pub open spec fn highest<K: Ident, V: Variant<Key = K>>(s: State<K, V>, k: K) -> bool { s.contains_key(k) && forall|j: K| #[trigger] s.contains_key(j) ==> number(s, j) <= number(s, k) }
/// the block reached from a highest one
pub open spec fn reached<K: Ident, V: Variant<Key = K>>(s: State<K, V>, n: nat, from: K, b: Option<EntryRef<K>>) -> bool {
    highest(s, from) && match walk(s, from, n) { Some(k) => b is Some && b->0@ == k, None => b is None }
}
pub open spec fn is_best<K: Ident, V: Variant<Key = K>>(s: State<K, V>, depth: nat, b: Option<EntryRef<K>>) -> bool {
    if s =~= Map::<K, Node<K, V>>::empty() { b is None } else { exists|h: K| #[trigger] reached(s, depth, h, b) }
}
/// its number is below the chosen block's less the gap
pub open spec fn is_stale<K: Ident, V: Variant<Key = K>>(s: State<K, V>, b: Option<EntryRef<K>>, gap: int, k: K) -> bool {
    b matches Some(b) && s.contains_key(k) && number(s, k) < number(s, b@) - gap
}
/// links lead to members
pub open spec fn closed<K, V>(s: State<K, V>) -> bool { forall|k: K| #[trigger] s.contains_key(k) ==> (s[k].link matches Some(p) ==> s.contains_key(p)) }
pub proof fn lemma_walk<K, V>(s: State<K, V>, k: K, n: nat)
    requires closed(s), s.contains_key(k)
    ensures walk(s, k, n) matches Some(b) ==> s.contains_key(b)
    decreases n
{ if n > 0 { if s[k].link is Some { lemma_walk(s, s[k].link->0, (n - 1) as nat); } } }
/// M02: the chosen block is not among the stale ones
pub proof fn lemma_best_kept<K: Ident, V: Variant<Key = K>>(s: State<K, V>, b: Option<EntryRef<K>>, gap: int)
    requires gap >= 0, b is Some
    ensures !is_stale(s, b, gap, b->0@)
{}
pub open spec fn above<K: Ident, V: Variant<Key = K>>(s: State<K, V>, k: K, t: K) -> bool { is_tip(s, t) && number(s, t) >= number(s, k) }
/// M03: where numbers grow along the links, some tip is at least as high as any block
pub proof fn lemma_tip_above<K: Ident, V: Variant<Key = K>>(s: State<K, V>, k: K)
    requires grows(s), s.contains_key(k)
    ensures exists|t: K| above(s, k, t)
    decreases u64::MAX - number(s, k)
{
    if !is_tip(s, k) {
        let c = choose|c: K| #[trigger] is_parent(s, k, c);
        lemma_tip_above(s, c);
        let t = choose|t: K| above(s, c, t);
        assert(above(s, k, t));
    } else { assert(above(s, k, k)); }
}
pub open spec fn grows<K: Ident, V: Variant<Key = K>>(s: State<K, V>) -> bool { forall|k: K| #[trigger] s.contains_key(k) ==> (s[k].link matches Some(p) ==> number(s, p) < number(s, k)) }
pub open spec fn best_tip<K: Ident, V: Variant<Key = K>>(s: State<K, V>, t: K) -> bool { is_tip(s, t) && forall|j: K| #[trigger] is_tip(s, j) ==> number(s, j) <= number(s, t) }
pub proof fn lemma_best_tip<K: Ident, V: Variant<Key = K>>(s: State<K, V>, t: K)
    requires grows(s), best_tip(s, t)
    ensures highest(s, t)
{
    assert forall|j: K| #[trigger] s.contains_key(j) implies number(s, j) <= number(s, t) by {
        lemma_tip_above(s, j);
        let u = choose|u: K| above(s, j, u);
        assert(is_tip(s, u));
    }
}
impl<K: Ident, V: Variant<Key = K>> Multiverse<K, V> {
    pub proof fn lemma_closed(&self) requires self.mem() ensures closed(self.state()) {}
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | ancestor
    //@use mv
    //@spec
        requires self.mem(), self.state().contains_key(tip@)
        ensures match walk(self.state(), tip@, min_depth as nat) { Some(k) => r is Some && r->0@ == k, None => r is None }
    //@loop 0 iter it
        invariant
            self.mem(), self.state().contains_key(ancestor@), 
            walk(self.state(), ancestor@, (min_depth - it.index@) as nat) == walk(self.state(), tip@, min_depth as nat),
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | select_best_block
    //@spec
        requires self.mem()
        ensures
            is_best(self.state(), rule->depth as nat, r.selected),
            forall|k: K| #[trigger] r.discarded@.contains(k) <==> is_stale(self.state(), r.selected, rule->age_gap as int, k),
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | select_best_block_longest_chain
    //@use mv
    //@rewrite let _span = $x ; =>
    //@rewrite debug_assert ! ( $a <= $b ) => must_hold($a.le($b))
    //@rewrite self . ordered . iter ( ) . last ( ) => { let __o = self.ordered.iter(); proof { self.lemma_last(__o@); } __o.last() }
    //@rewrite tips . iter ( ) . next ( ) => { let mut __t = tips.iter(); proof { self.lemma_some(tips@, __t@); } __t.next() }
    //@rewrite self . ancestor ( tip , depth ) => { let __a = self.ancestor(tip, depth); proof { assert(reached(self.state(), depth as nat, tip@, __a)); } __a }
    //@rewrite set . iter ( ) . cloned ( ) => { let __s = set.iter(); let ghost __u = __s@; let __c = __s.cloned(); proof { lemma_cloned(set@, __u, __c@); } __c }
    //@desugar for.it
    //@spec
        requires self.mem()
        ensures
            is_best(self.state(), depth as nat, r.selected),
            forall|k: K| #[trigger] r.discarded@.contains(k) <==> is_stale(self.state(), r.selected, age_gap as int, k),
    //@hint before let mut discarded
        proof {
            self.lemma_closed();
            assert forall|h: K| #[trigger] highest(self.state(), h) implies (walk(self.state(), h, depth as nat) matches Some(b) ==> self.state().contains_key(b)) by { lemma_walk(self.state(), h, depth as nat); }
            assert(is_best(self.state(), depth as nat, selected));
            assert(self.state().dom() =~= self.all@.dom());
        }
    //@loop 0
        invariant_except_break
            self.mem(), lists_by_number(self.ordered@, 0, max.0 as int, all), 0 <= all.len() - __it0@.len(), __it0@ =~= all.skip(all.len() - __it0@.len()),
            forall|k: K| #[trigger] discarded@.contains(k) <==> exists|i: int| 0 <= i < all.len() - __it0@.len() && #[trigger] (all[i].1)@.contains(k),
        ensures forall|k: K| #[trigger] discarded@.contains(k) <==> self.state().contains_key(k) && number(self.state(), k) < max.0
        decreases __it0@.len()
    //@hint before-loop 0
        let ghost all = __it0@;
        proof { assert(all.skip(0) =~= all); }
    //@hint loop-start 0
        let ghost n = all.len() - __it0@.len();
        proof {
            if n < all.len() { assert(__it0@[0] == all[n]); assert(__it0@.drop_first() =~= all.skip(n + 1)); }
            else { self.lemma_below(all, max.0, discarded@); }
        }
    //@end
    pub proof fn lemma_last(&self, s: Seq<(&BlockNumber, &HashSet<EntryRef<K>>)>)
        requires self.mem(), lists_by_number(self.ordered@, 0, 0x1_0000_0000_0000_0000, s)
        ensures
            s.len() == 0 ==> self.state() =~= Map::<K, Node<K, V>>::empty(),
            s.len() > 0 ==> (forall|k: K| #[trigger] s.last().1@.contains(k) ==> highest(self.state(), k)) && (exists|k: K| s.last().1@.contains(k)),
    {
        let st = self.state();
        if s.len() == 0 {
            assert forall|k: K| !st.contains_key(k) by { if st.contains_key(k) { assert(self.all@.contains_key(k)); assert(self.ordered@.contains_key(self.all@[k].value.number_of())); } }
        } else {
            let n = s.last().0.0;
            assert(self.ordered@.contains_key(n));
            assert forall|k: K| #[trigger] s.last().1@.contains(k) implies highest(st, k) by {
                assert(self.all@.contains_key(k));
                assert forall|j: K| #[trigger] st.contains_key(j) implies number(st, j) <= number(st, k) by {
                    assert(self.all@.contains_key(j));
                    let m = self.all@[j].value.number_of();
                    assert(self.ordered@.contains_key(m));
                    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.0 == m;
                    if i < s.len() - 1 { assert(s[i].0.0 < s[s.len() - 1].0.0); }
                }
            }
        }
    }
    pub proof fn lemma_some(&self, m: Set<K>, s: Seq<&EntryRef<K>>)
        requires lists(m, s)
        ensures s.len() == 0 ==> forall|k: K| !m.contains(k)
    {}
    pub proof fn lemma_below(&self, all: Seq<(&BlockNumber, &HashSet<EntryRef<K>>)>, max: u64, d: Set<K>)
        requires self.mem(), lists_by_number(self.ordered@, 0, max as int, all), forall|k: K| #[trigger] d.contains(k) <==> exists|i: int| 0 <= i < all.len() && #[trigger] (all[i].1)@.contains(k)
        ensures forall|k: K| #[trigger] d.contains(k) <==> self.state().contains_key(k) && number(self.state(), k) < max
    {
        assert forall|k: K| #[trigger] d.contains(k) <==> self.state().contains_key(k) && number(self.state(), k) < max by {
            if d.contains(k) { let i = choose|i: int| 0 <= i < all.len() && #[trigger] (all[i].1)@.contains(k); assert(self.ordered@.contains_key(all[i].0.0)); assert(self.all@.contains_key(k)); }
            if self.state().contains_key(k) && number(self.state(), k) < max {
                assert(self.all@.contains_key(k));
                let m = self.all@[k].value.number_of();
                assert(self.ordered@.contains_key(m));
                let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0.0 == m;
                assert((all[i].1)@.contains(k));
            }
        }
    }
}
pub proof fn lemma_cloned<K>(m: Set<K>, s: Seq<&EntryRef<K>>, t: Seq<EntryRef<K>>)
    requires lists(m, s), s.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == *s[i]
    ensures forall|k: K| #[trigger] m.contains(k) <==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == k
{
    assert forall|k: K| #[trigger] m.contains(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i])@ == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k;
        assert(t[i]@ == k);
    }
}

// ---- preferred fork, traversal ----
impl<K: Ident, V: Variant<Key = K>> Multiverse<K, V> {
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | preferred_fork_tip
    //@spec
        requires self.mem()
        ensures
            r is None ==> forall|k: K| !is_tip(self.state(), k),
            r matches Some(t) ==> best_tip(self.state(), t@),
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | prefer_longest_chain_fork_tip
    //@use mv
    //@rewrite tip . value . block_number ( ) > longest => tip.value.block_number().gt(&longest)
    //@desugar for.it
    //@spec
        requires self.mem()
        ensures
            r is None ==> forall|k: K| !is_tip(self.state(), k),
            r matches Some(t) ==> best_tip(self.state(), t@),
    //@hint before let mut result
        let ghost all = tips@;
        proof {
            self.lemma_ends(); assert(all.skip(0) =~= all); assert(all.drop_first() =~= all.skip(1));
            if all.len() == 0 { assert forall|k: K| !is_tip(self.state(), k) by { if is_tip(self.state(), k) { assert(self.tips@.contains(k)); } } }
            else { assert(self.tips@.contains(all[0]@)); }
        }
    //@loop 0
        invariant_except_break
            self.mem(), lists(self.tips@, all), 0 <= all.len() - __it0@.len(), __it0@ =~= all.skip(all.len() - __it0@.len()),
            self.tips@.contains(result@), longest.0 == number(self.state(), result@),
            forall|i: int| 0 <= i < all.len() - __it0@.len() ==> number(self.state(), (#[trigger] all[i])@) <= longest.0,
        ensures best_tip(self.state(), result@)
        decreases __it0@.len()
    //@hint loop-start 0
        proof {
            let n = all.len() - __it0@.len();
            if n < all.len() { assert(__it0@[0] == all[n]); assert(__it0@.drop_first() =~= all.skip(n + 1)); assert(self.tips@.contains(all[n]@)); }
            else {
                self.lemma_ends();
                assert forall|j: K| #[trigger] is_tip(self.state(), j) implies number(self.state(), j) <= number(self.state(), result@) by {
                    assert(self.tips@.contains(j));
                    let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i])@ == j;
                    assert(number(self.state(), all[i]@) <= longest.0);
                }
                assert(is_tip(self.state(), result@));
            }
        }
    //@end
    //@fn multiverse/src/lib.rs | impl<K, V> Multiverse<K, V> where K: AsRef<[u8]> + Eq + Hash + fmt::Debug + Clone, V: Variant<Key = K>, | iter
    //@spec
        requires self.mem()
        ensures r.inner == self, r.wf(), forall|k: K| #[trigger] r.pending(k) <==> self.state().contains_key(k)
    //@end
}
//@item multiverse/src/visitor/depth_ordered.rs | struct | DepthOrderedIterator
//@attr #[verifier::reject_recursive_types(K)]
//@rewrite inner : => pub inner:
//@rewrite tree : => pub tree:
//@end
impl<'a, K: Ident, V: Variant<Key = K>> DepthOrderedIterator<'a, K, V> {
    /// still to be visited
    pub open spec fn pending(&self, k: K) -> bool { self.inner.all@.contains_key(k) && self.tree@.contains_key(self.inner.all@[k].value.number_of()) && self.tree@[self.inner.all@[k].value.number_of()]@.contains(k) }
    pub open spec fn wf(&self) -> bool {
        self.inner.mem() && forall|n: u64, k: K| #[trigger] self.tree@.contains_key(n) && #[trigger] self.tree@[n]@.contains(k) ==> self.inner.all@.contains_key(k) && self.inner.all@[k].value.number_of() == n
    }
    //@fn multiverse/src/visitor/depth_ordered.rs | impl<'a, K, V> DepthOrderedIterator<'a, K, V> | new
    //@sig pub ( crate ) => pub
    //@spec
        requires inner.mem()
        ensures r.inner == inner, r.wf(), forall|k: K| #[trigger] r.pending(k) <==> inner.state().contains_key(k)
    //@end
    //@fn multiverse/src/visitor/depth_ordered.rs | impl<'a, K, V> Iterator for DepthOrderedIterator<'a, K, V> where K: Eq + Hash, | next
    //@sig Self :: Item => &'a V
    //@rewrite return Some ( & entry . value ) => let __v = &entry.value; return Some(__v)
    //@rewrite set . iter ( ) . next ( ) => { let mut __t = set.iter(); __t.next() }
    //@spec
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).inner == old(self).inner,
            r is None ==> forall|k: K| !old(self).pending(k),
            r matches Some(v) ==> stepped(*old(self), *final(self), *v),
    //@hint start
        let ghost o = *self;
    //@loop 0
        invariant o == *old(self), self.wf(), self.inner == o.inner, forall|k: K| #[trigger] self.pending(k) <==> o.pending(k)
        decreases self.tree@.dom().len()
    //@hint loop-start 0
        let ghost b = *self;
    //@hint before return Some ( __v )
        proof {
            let k = entry_ref@;
            let n = self.inner.all@[k].value.number_of();
            assert(b.tree@.contains_key(bn.0) && b.tree@[bn.0]@.contains(k));
            assert(n == bn.0);
            assert(b.pending(k));
            assert forall|l: K| #[trigger] self.pending(l) <==> o.pending(l) && l != k by { assert(b.pending(l) <==> o.pending(l)); }
            assert forall|l: K| #[trigger] o.pending(l) implies number(self.inner.state(), k) <= number(self.inner.state(), l) by { assert(b.pending(l)); assert(least(b.tree@, bn.0)); }
            assert(visited(o, *self, k, *__v)); assert(stepped(*old(self), *self, *__v));
        }
    //@hint before self . tree . remove ( & bn )
        proof { assert(b.tree@.dom().contains(bn.0)); assert(self.tree@.dom() =~= b.tree@.dom()); }
    //@hint after-loop 0
        proof { assert forall|k: K| !o.pending(k) by { assert(!self.pending(k)); } }
    //@hint loop-end 0
        proof {
            assert(self.tree@.dom() =~= b.tree@.dom().remove(bn.0));
            assert forall|l: K| #[trigger] self.pending(l) <==> o.pending(l) by { assert(b.pending(l) <==> o.pending(l)); if b.pending(l) && self.inner.all@[l].value.number_of() == bn.0 { assert(b.tree@[bn.0]@.contains(l)); } }
        }
    //@end
}
/// k is visited: it was to be, it no longer is, and none still to be visited comes before it
pub open spec fn visited<'a, K: Ident, V: Variant<Key = K>>(i: DepthOrderedIterator<'a, K, V>, j: DepthOrderedIterator<'a, K, V>, k: K, v: V) -> bool {
    &&& i.pending(k) && v == i.inner.state()[k].value
    &&& forall|l: K| #[trigger] j.pending(l) <==> i.pending(l) && l != k
    &&& forall|l: K| #[trigger] i.pending(l) ==> number(i.inner.state(), k) <= number(i.inner.state(), l)
}
pub open spec fn stepped<'a, K: Ident, V: Variant<Key = K>>(i: DepthOrderedIterator<'a, K, V>, j: DepthOrderedIterator<'a, K, V>, v: V) -> bool { exists|k: K| #[trigger] visited(i, j, k, v) }
/// M03: the whole traversal, as any loop over it makes it: every member once, in the order of their numbers
pub fn traverse<'a, K: Ident, V: Variant<Key = K>>(m: &'a Multiverse<K, V>) -> (r: (Vec<&'a V>, Ghost<Seq<K>>))
    requires m.mem()
    ensures
        r.0@.len() == r.1@.len(), r.1@.no_duplicates(), forall|k: K| #[trigger] r.1@.contains(k) <==> m.state().contains_key(k),
        forall|i: int| 0 <= i < r.1@.len() ==> *(#[trigger] r.0@[i]) == m.state()[r.1@[i]].value,
        forall|i: int, j: int| 0 <= i < j < r.1@.len() ==> number(m.state(), #[trigger] r.1@[i]) <= number(m.state(), #[trigger] r.1@[j]),
{
    let mut it = m.iter();
    let mut out: Vec<&'a V> = Vec::new();
    let ghost mut ks: Seq<K> = Seq::empty();
    let ghost s = m.state();
    proof { assert(m.state().dom() =~= m.all@.dom()); }
    loop
        invariant
            it.wf(), it.inner == m, s == m.state(), out@.len() == ks.len(), ks.no_duplicates(),
            forall|k: K| #[trigger] s.contains_key(k) <==> ks.contains(k) || it.pending(k),
            forall|k: K| ks.contains(k) ==> !#[trigger] it.pending(k),
            forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] out@[i]) == s[ks[i]].value,
            forall|i: int, j: int| 0 <= i < j < ks.len() ==> number(s, #[trigger] ks[i]) <= number(s, #[trigger] ks[j]),
            forall|i: int, k: K| 0 <= i < ks.len() && #[trigger] it.pending(k) ==> number(s, #[trigger] ks[i]) <= number(s, k),
        decreases s.dom().len() - ks.len()
    {
        let ghost it0 = it;
        match it.next() {
            None => { return (out, Ghost(ks)); }
            Some(v) => {
                proof {
                    let k = choose|k: K| #[trigger] visited(it0, it, k, *v);
                    let ks2 = ks.push(k);
                    assert(it0.pending(k));
                    assert forall|j: K| #[trigger] s.contains_key(j) <==> ks2.contains(j) || it.pending(j) by {
                        assert(it.pending(j) <==> it0.pending(j) && j != k);
                        if ks2.contains(j) { let i = choose|i: int| 0 <= i < ks2.len() && ks2[i] == j; if i < ks.len() { assert(ks[i] == j); assert(ks.contains(j)); } else { assert(j == k); assert(s.contains_key(k)); } }
                        if ks.contains(j) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == j; assert(ks2[i] == j); }
                        if j == k { assert(ks2[ks.len() as int] == k); }
                    }
                    assert forall|j: K| ks2.contains(j) implies !#[trigger] it.pending(j) by {
                        let i = choose|i: int| 0 <= i < ks2.len() && ks2[i] == j;
                        if i < ks.len() { assert(ks.contains(j)); assert(!it0.pending(j)); }
                    }
                    assert(ks2.no_duplicates());
                    assert forall|i: int, j: K| 0 <= i < ks2.len() && #[trigger] it.pending(j) implies number(s, #[trigger] ks2[i]) <= number(s, j) by { assert(it0.pending(j)); if i < ks.len() { assert(ks2[i] == ks[i]); } }
                    assert(ks2.to_set().subset_of(s.dom())) by { assert forall|j: K| ks2.to_set().contains(j) implies s.dom().contains(j) by { assert(ks2.contains(j)); assert(s.contains_key(j)); } }
                    ks2.unique_seq_to_set();
                    vstd::set_lib::lemma_len_subset(ks2.to_set(), s.dom());
                    ks = ks2;
                }
                out.push(v);
            }
        }
    }
}

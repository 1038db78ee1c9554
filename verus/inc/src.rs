// ---- inserting a block and pruning: what both sources do ----
pub open spec fn best_key<K: Ident, V: Variant<Key = K>>(s: State<K, V>, depth: nat, k: Option<K>) -> bool {
    if s =~= Map::<K, Node<K, V>>::empty() { k is None } else { exists|h: K| #[trigger] highest(s, h) && walk(s, h, depth) == k }
}
/// more than one below the chosen block
pub open spec fn old_news<K: Ident, V: Variant<Key = K>>(s: State<K, V>, b: Option<K>, k: K) -> bool { b matches Some(b) && s.contains_key(k) && number(s, k) < number(s, b) - 1 }
/// t is what is left of s without the blocks gone: links to those are cut
pub open spec fn left<K, V>(s: State<K, V>, gone: spec_fn(K) -> bool, t: State<K, V>) -> bool {
    forall|k: K| (#[trigger] t.contains_key(k) <==> s.contains_key(k) && !gone(k))
        && (t.contains_key(k) ==> t[k].value == s[k].value && t[k].link == match s[k].link { Some(p) => if gone(p) { None } else { Some(p) }, None => None })
}
pub open spec fn pruned<K: Ident, V: Variant<Key = K>>(s: State<K, V>, b: Option<K>, t: State<K, V>) -> bool { left(s, |k: K| old_news(s, b, k), t) }
//@fn blockchain-source/src/multiverse/mod.rs |  | multiverse_insert_and_gc
//@sig multiverse_insert_and_gc < K , V > => multiverse_insert_and_gc<K: Ident, V: Variant<Key = K>>
//@sig multiverse :: Multiverse => Multiverse
//@sig -> Result < => -> anyhow::Result<
//@sig where K : $a , V : $b , => 
//@use src
//@rewrite in discarded { => in discarded.into_iter() {
//@desugar for.it opt.map
//@spec
    requires old(multiverse).wf(), known(old(multiverse).state(), event)
    ensures
        final(multiverse).wf(),
        r matches Ok(b) ==> best_key(inserted(old(multiverse).state(), event), confirmation_depth as nat, b) && pruned(inserted(old(multiverse).state(), event), b, final(multiverse).state()),
        r matches Err(e) ==> of_storage(e),
//@hint start
    broadcast use from_multiverse;
    let ghost mid = inserted(old(multiverse).state(), event);
//@hint after } ;
    let ghost best = selected;
    let ghost all = discarded@;
    proof {
        assert(multiverse.state() =~= mid);
        multiverse.lemma_closed();
    }
//@loop 0
    invariant_except_break
        multiverse.wf(), closed(mid), distinct(__it0@), forall|j: K| #[trigger] pending(__it0@, j) ==> is_stale(mid, best, 1, j),
        left(mid, stale_but(mid, best, __it0@), multiverse.state()),
    ensures multiverse.wf(), left(mid, stale_but(mid, best, Seq::empty()), multiverse.state()),
    decreases __it0@.len()
//@hint before-loop 0
    proof {
        assert forall|j: K| is_stale(mid, best, 1, j) <==> pending(__it0@, j) by { assert(all.contains(j) <==> pending(__it0@, j)); }
    }
//@hint loop-start 0
    broadcast use from_multiverse;
    let ghost todo = __it0@;
    let ghost was = multiverse.state();
    proof { if todo.len() > 0 { lemma_pending(todo); assert(pending(todo, todo[0]@)); } else { assert(todo =~= Seq::empty()); } }
//@hint loop-end 0
    proof {
        assert forall|j: K| #[trigger] pending(__it0@, j) implies is_stale(mid, best, 1, j) by { assert(pending(todo, j)); }
        lemma_left(mid, stale_but(mid, best, todo), was, todo[0]@, multiverse.state(), stale_but(mid, best, __it0@));
    }
//@hint before Ok ( ( match
    proof {
        if !(mid =~= Map::<K, Node<K, V>>::empty()) {
            let h = choose|h: K| #[trigger] reached(mid, confirmation_depth as nat, h, best);
            assert(highest(mid, h));
        }
        let b = match best { Some(b) => Some(b@), None => None };
        assert forall|k: K| stale_but(mid, best, Seq::empty())(k) == old_news(mid, b, k) by { assert(!pending(Seq::<EntryRef<K>>::empty(), k)); }
        assert(pruned(mid, b, multiverse.state()));
    }
//@end
pub open spec fn stale_but<K: Ident, V: Variant<Key = K>>(s: State<K, V>, b: Option<EntryRef<K>>, todo: Seq<EntryRef<K>>) -> spec_fn(K) -> bool { |k: K| is_stale(s, b, 1, k) && !pending(todo, k) }
pub proof fn lemma_left<K, V>(s: State<K, V>, gone: spec_fn(K) -> bool, t: State<K, V>, k: K, t2: State<K, V>, gone2: spec_fn(K) -> bool)
    requires left(s, gone, t), is_removed(t, k, t2), closed(s), s.contains_key(k), forall|j: K| #[trigger] s.contains_key(j) ==> gone2(j) == (gone(j) || j == k)
    ensures left(s, gone2, t2)
{
    assert forall|j: K| (#[trigger] t2.contains_key(j) <==> s.contains_key(j) && !gone2(j))
        && (t2.contains_key(j) ==> t2[j].value == s[j].value && t2[j].link == match s[j].link { Some(p) => if gone2(p) { None } else { Some(p) }, None => None }) by
    {
        assert(t.contains_key(j) <==> s.contains_key(j) && !gone(j));
        if s.contains_key(j) && s[j].link is Some { assert(s.contains_key(s[j].link->0)); }
    }
}

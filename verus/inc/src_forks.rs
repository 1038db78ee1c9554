// ---- B01: the source that follows forks ----
//@item blockchain-source/src/multiverse/rollback.rs | enum | Event
//@end
//@item blockchain-source/src/multiverse/rollback.rs | struct | ForkHandlingSource
//@attr #[verifier::reject_recursive_types(K)]
//@rewrite multiverse : multiverse :: => pub multiverse:
//@rewrite , source : => , pub source:
//@rewrite , confirmation_depth : => , pub confirmation_depth:
//@rewrite , confirmed : => , pub confirmed:
//@rewrite , last : => , pub last:
//@rewrite , events : => , pub events:
//@end
/// c is k or an ancestor of it
pub open spec fn below<K: Ident, V: Block<Key = K>>(k: K, c: K, n: nat) -> bool
    decreases n
{ k == c || (n > 0 && below::<K, V>(block_named::<V>(k).parent_of(), c, (n - 1) as nat)) }
pub open spec fn ancestor<K: Ident, V: Block<Key = K>>(k: K, c: K) -> bool { exists|n: nat| below::<K, V>(k, c, n) }
/// an event takes the one that stands at that block to the next
pub open spec fn moves<K: Ident, V: Block<Key = K>>(at: K, e: Event<V, V::From>, to: K) -> bool {
    match e {
        Event::InnerEvent(v) => if v.is_tip() { to == at } else { genuine(v) && v.parent_of() == at && to == v.id_of() },
        Event::Rollback(p) => ancestor::<K, V>(at, to) && block_named::<V>(to).place_of() == Some(p),
    }
}
/// the events on the stack lead from that block to the other
pub open spec fn lead<K: Ident, V: Block<Key = K>>(at: K, st: Seq<Event<V, V::From>>, to: K) -> bool
    decreases st.len()
{ if st.len() == 0 { at == to } else { exists|m: K| #[trigger] moves::<K, V>(at, st.last(), m) && lead::<K, V>(m, st.drop_last(), to) } }
/// c is reached from k by way of blocks held
pub open spec fn up_in<K: Ident, V: Block<Key = K>>(s: State<K, V>, k: K, c: K, n: nat) -> bool
    decreases n
{ s.contains_key(k) && (k == c || (n > 0 && up_in(s, s[k].value.parent_of(), c, (n - 1) as nat))) }
pub open spec fn up<K: Ident, V: Block<Key = K>>(s: State<K, V>, k: K, c: K) -> bool { exists|n: nat| up_in(s, k, c, n) }
pub proof fn lemma_up<K: Ident, V: Block<Key = K>>(s: State<K, V>, k: K)
    ensures forall|c: K| #[trigger] up(s, k, c) <==> s.contains_key(k) && (k == c || up(s, s[k].value.parent_of(), c))
{
    assert forall|c: K| #[trigger] up(s, k, c) <==> s.contains_key(k) && (k == c || up(s, s[k].value.parent_of(), c)) by {
        if up(s, k, c) { let n = choose|n: nat| up_in(s, k, c, n); if k != c { assert(up_in(s, s[k].value.parent_of(), c, (n - 1) as nat)); } }
        if s.contains_key(k) {
            if k == c { assert(up_in(s, k, c, 0)); }
            else if up(s, s[k].value.parent_of(), c) { let n = choose|n: nat| up_in(s, s[k].value.parent_of(), c, n); assert(up_in(s, k, c, n + 1)); }
        }
    }
}
pub proof fn lemma_up_below<K: Ident, V: Block<Key = K>>(s: State<K, V>, k: K, c: K, n: nat)
    requires all_genuine(s), up_in(s, k, c, n)
    ensures below::<K, V>(k, c, n), s.contains_key(c)
    decreases n
{ if k != c { lemma_up_below(s, s[k].value.parent_of(), c, (n - 1) as nat); assert(block_named::<V>(k) == s[k].value); } }
pub proof fn lemma_up_ancestor<K: Ident, V: Block<Key = K>>(s: State<K, V>, k: K, c: K)
    requires all_genuine(s), up(s, k, c)
    ensures ancestor::<K, V>(k, c), s.contains_key(c), s[c].value == block_named::<V>(c)
{ let n = choose|n: nat| up_in(s, k, c, n); lemma_up_below(s, k, c, n); }
pub proof fn lemma_lead<K: Ident, V: Block<Key = K>>(at: K, st: Seq<Event<V, V::From>>, to: K, e: Event<V, V::From>, before: K)
    requires lead::<K, V>(at, st, to), moves::<K, V>(before, e, at)
    ensures lead::<K, V>(before, st.push(e), to)
{ assert(st.push(e).drop_last() =~= st); assert(st.push(e).last() == e); }
/// the events still to be delivered are blocks on the way to the block, none of them at or below the former one
pub open spec fn fresh<K: Ident, V: Block<Key = K>>(s: State<K, V>, st: Seq<Event<V, V::From>>, at: K) -> bool {
    forall|i: int| 0 <= i < st.len() ==> ((#[trigger] st[i]) matches Event::InnerEvent(v) && !v.is_tip() && !up(s, at, v.id_of()))
}
/// no block held is at or below both
pub open spec fn apart<K: Ident, V: Block<Key = K>>(s: State<K, V>, a: K, b: K) -> bool { forall|c: K| #[trigger] up(s, a, c) ==> !up(s, b, c) }
pub open spec fn placed<K: Ident, V: Block<Key = K>>(s: State<K, V>, ks: Seq<&Arc<K>>, x: V::From) -> bool { exists|i: int| 0 <= i < ks.len() && s[(#[trigger] ks[i])@].value.place_of() == Some(x) }
pub proof fn lemma_placed<K: Ident, V: Block<Key = K>>(s: State<K, V>, ks: Seq<&Arc<K>>, n: int)
    requires 0 <= n < ks.len()
    ensures forall|x: V::From| #[trigger] placed(s, ks.take(n + 1), x) <==> placed(s, ks.take(n), x) || s[ks[n]@].value.place_of() == Some(x)
{
    let (a, b) = (ks.take(n), ks.take(n + 1));
    assert forall|x: V::From| #[trigger] placed(s, b, x) <==> placed(s, a, x) || s[ks[n]@].value.place_of() == Some(x) by {
        if placed(s, a, x) { let i = choose|i: int| 0 <= i < a.len() && s[(#[trigger] a[i])@].value.place_of() == Some(x); assert(b[i] == a[i]); }
        if placed(s, b, x) { let i = choose|i: int| 0 <= i < b.len() && s[(#[trigger] b[i])@].value.place_of() == Some(x); if i < n { assert(a[i] == b[i]); } }
        assert(b[n] == ks[n]);
    }
}
impl<K: Ident, V: Block<Key = K>, S: Source<V>> ForkHandlingSource<K, V, S, Event<V, V::From>> {
    pub open spec fn state(&self) -> State<K, V> { self.multiverse.state() }
    pub open spec fn wf(&self) -> bool {
        &&& self.multiverse.wf() && sound(self.multiverse.state())
        &&& self.confirmed matches Some(c) ==> self.multiverse.state().contains_key(c)
    }
    /// where the consumer stands: nowhere yet, or at a block from which the events to come lead to the last one
    pub open spec fn stands(&self, head: Option<K>) -> bool {
        match head {
            None => if self.last is None { self.events@.len() == 0 } else { self.events@.len() == 1 && (self.events@[0] matches Event::InnerEvent(b) && genuine(b) && self.last == Some(b.id_of())) },
            Some(h) => self.last is Some && lead::<K, V>(h, self.events@, self.last->0),
        }
    }
    /// the event moves the consumer on; before its first block it is sent back to the place given
    pub open spec fn moved(self, head: Option<K>, e: Event<V, V::From>, from: Option<V::From>) -> bool {
        match head {
            Some(h) => exists|t: K| #[trigger] moves::<K, V>(h, e, t) && self.stands(Some(t)),
            None => match e {
                Event::Rollback(p) => from == Some(p) && self.stands(None),
                Event::InnerEvent(v) => if v.is_tip() { self.stands(None) } else { genuine(v) && self.stands(Some(v.id_of())) },
            },
        }
    }
    pub open spec fn rests(self, o: Self) -> bool { self.multiverse == o.multiverse && self.confirmed == o.confirmed && self.confirmation_depth == o.confirmation_depth && self.last == o.last }
    /// a block comes in, and is where the events lead to
    pub open spec fn takes(self, o: Self, b: V) -> bool {
        &&& o.events@.len() == 0 && genuine(b) && !o.state().contains_key(b.id_of()) && self.last == Some(b.id_of()) && self.confirmation_depth == o.confirmation_depth
        &&& exists|best: Option<K>| #[trigger] best_key(inserted(o.state(), b), o.confirmation_depth as nat, best) && pruned(inserted(o.state(), b), best, self.state()) && self.confirmed == (if best is Some { best } else { o.confirmed })
    }
    pub open spec fn refuses(self, o: Self, b: V) -> bool { genuine(b) && !o.state().contains_key(b.id_of()) && self.last == o.last && o.last is Some && o.last != Some(b.parent_of()) && apart(self.state(), b.id_of(), o.last->0) }
    pub open spec fn answers(self, o: Self, head: Option<K>, from: Option<V::From>, r: anyhow::Result<Option<Event<V, V::From>>>) -> bool {
        match r {
            Ok(Some(e)) => {
                &&& self.moved(head, e, from)
                &&& if o.events@.len() > 0 { self.rests(o) && self.source == o.source }
                    else if e matches Event::InnerEvent(v) && v.is_tip() { self.rests(o) && self.events@.len() == 0 }
                    else { exists|b: V| #[trigger] self.takes(o, b) && (head matches Some(h) ==> fresh(self.state(), self.events@, h)) }
            },
            Ok(None) => self.rests(o) && self.events@ == o.events@ && o.events@.len() == 0 && self.stands(head),
            // the peer failed, or its block meets no block held at or below the last one
            Err(e) => of_storage(e) || (self.wf() && self.stands(head) && self.events@.len() == 0 && (self.rests(o) || exists|b: V| #[trigger] self.refuses(o, b))),
        }
    }
    /// from where the peer is asked: the tips, the confirmed block and the place given
    pub open spec fn asks(self, o: Self, from: Option<V::From>) -> bool {
        self.source.asked() == o.source.asked() || exists|p: Set<V::From>| self.source.asked() == o.source.asked().push(p) && #[trigger] tips_confirmed_and(o.state(), o.confirmed, from, p)
    }
    //@fn blockchain-source/src/multiverse/rollback.rs | impl<K, V, InnerSource, E> ForkHandlingSource<K, V, InnerSource, E> | new
    //@sig multiverse :: Multiverse => Multiverse
    //@sig InnerSource => S
    //@sig where K : $a , V : $b , =>
    //@use src
    //@desugar opt.map
    //@spec
        requires multiverse.wf(), sound(multiverse.state())
        ensures
            r.wf(), r.multiverse == multiverse, r.source == inner_source, r.confirmation_depth == confirmation_depth, best_key(multiverse.state(), confirmation_depth as nat, r.confirmed),
            r.stands(r.last), multiverse.state() =~= Map::<K, Node<K, V>>::empty() ==> r.last is None, r.last matches Some(l) ==> highest(multiverse.state(), l),
    //@hint after } ;
        proof {
            let s = multiverse.state();
            multiverse.lemma_closed();
            assert forall|h: K| #[trigger] highest(s, h) implies (walk(s, h, confirmation_depth as nat) matches Some(b) ==> s.contains_key(b)) by { lemma_walk(s, h, confirmation_depth as nat); }
            if !(s =~= Map::<K, Node<K, V>>::empty()) { let h = choose|h: K| #[trigger] reached(s, confirmation_depth as nat, h, selected); assert(highest(s, h)); }
        }
    //@end
    //@fn blockchain-source/src/multiverse/rollback.rs | impl<K, V, InnerSource, E> ForkHandlingSource<K, V, InnerSource, E> | into_inner
    //@sig InnerSource => S
    //@spec
        ensures r == self.source
    //@end
    //@fn blockchain-source/src/multiverse/rollback.rs | impl<K, V, InnerSource, ScalarInnerFrom> Source for ForkHandlingSource<K, V, InnerSource, Event<InnerSource::Event, ScalarInnerFrom>> where InnerSource: Source<Event = V, From = Vec<ScalarInnerFrom>> + Send, ScalarInnerFrom: PullFrom + PartialEq + Clone + Sync + std::fmt::Debug + Eq + Hash, K: AsRef<[u8]> + Eq + Hash + Debug + Clone + Display + PullFrom + Sync + Serialize + DeserializeOwned, InnerSource::Event: GetNextFrom<From = ScalarInnerFrom>, InnerSource::Event: Variant<Key = K> + Clone + EventObject, V: Variant<Key = K> + Clone + EventObject + Debug, V: GetNextFrom<From = ScalarInnerFrom>, | pull
    //@sig async fn => fn
    //@sig & Self :: From => &Option<V::From>, Ghost(head): Ghost<Option<K>>
    //@sig Result < Option < Self :: Event > > => anyhow::Result<Option<Event<V, V::From>>>
    //@use src
    //@rewrite for $k! in self . multiverse . tips ( ) . iter ( ) { => let __tips = self.multiverse.tips(); for $k in __tips.iter() {
    //@rewrite stable != confirmed => !same(stable, confirmed)
    //@rewrite last == & parent_id => same(last, &parent_id)
    //@rewrite HashSet :: new ( ) => SetOf::new()
    //@rewrite checkpoints . into_iter ( ) . collect ( ) => collect(checkpoints.into_iter())
    //@desugar for.it while.let opt.map opt.and_then opt.ok_or_else opt.filter
    //@spec
        requires old(self).wf(), old(self).stands(head)
        ensures
            final(self).answers(*old(self), head, *from, r),
            r is Ok ==> final(self).wf(),
            final(self).asks(*old(self), *from),
    //@hint start
        broadcast use from_multiverse;
        let ghost o = *self;
        let ghost mut all: Seq<&Arc<K>> = Seq::empty();
        let ghost mut st: Seq<Event<V, V::From>> = Seq::empty();
    //@hint before let inner_from
        proof { assert(self.events@ =~= o.events@); assert(o.events@.len() == 0); assert(head == o.last); }
    //@hint before-loop 0
        proof {
            all = __it0@;
            self.multiverse.lemma_ends();
            assert forall|i: int| 0 <= i < all.len() implies is_tip(o.state(), (#[trigger] all[i])@) by { assert(__tips.ids().contains(all[i]@)); }
            assert forall|k: K| #[trigger] is_tip(o.state(), k) implies exists|i: int| 0 <= i < all.len() && (#[trigger] all[i])@ == k by { assert(self.multiverse.tips@.contains(k)); assert(__tips.ids().contains(k)); }
            assert(all.skip(0) =~= all);
        }
    //@loop 0
        invariant_except_break
            self.rests(o), self.source == o.source, self.events == o.events || self.events@ =~= o.events@, o.wf(), 0 <= all.len() - __it0@.len(), __it0@ =~= all.skip(all.len() - __it0@.len()), forall|i: int| 0 <= i < all.len() ==> is_tip(o.state(), (#[trigger] all[i])@),
            forall|x: V::From| #[trigger] checkpoints@.contains(x) <==> placed(o.state(), all.take(all.len() - __it0@.len()), x),
        ensures self.rests(o), self.source == o.source, self.events@ =~= o.events@, forall|x: V::From| #[trigger] checkpoints@.contains(x) <==> placed(o.state(), all, x),
        decreases __it0@.len()
    //@hint loop-start 0
        let ghost n = all.len() - __it0@.len();
        let ghost c0 = checkpoints@;
        proof {
            if n < all.len() { assert(__it0@[0] == all[n]); assert(__it0@.drop_first() =~= all.skip(n + 1)); assert(is_tip(o.state(), all[n]@)); }
            else { assert(all.take(n) =~= all); }
        }
    //@hint loop-end 0
        proof { lemma_placed(o.state(), all, n); assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
    //@hint before let block = match
        proof {
            let s = o.state();
            assert forall|x: V::From| #[trigger] inner_from@.to_set().contains(x) <==> *from == Some(x) || at_tip(s, x) || (o.confirmed is Some && s[o.confirmed->0].value.place_of() == Some(x)) by {
                if placed(s, all, x) { let i = choose|i: int| 0 <= i < all.len() && s[(#[trigger] all[i])@].value.place_of() == Some(x); assert(is_tip(s, all[i]@)); }
                if at_tip(s, x) { let k = choose|k: K| #[trigger] is_tip(s, k) && s[k].value.place_of() == Some(x); let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i])@ == k; assert(placed(s, all, x)); }
            }
            assert(tips_confirmed_and(s, o.confirmed, *from, inner_from@.to_set()));
        }
    //@hint before return Ok ( Some ( Event :: InnerEvent
        proof { if head is Some { assert(moves::<K, V>(head->0, Event::InnerEvent(block), head->0)); } }
    //@hint before return Err
        proof {
            assert(self.events@ =~= Seq::empty());
            assert(self.stands(head));
            assert(apart(self.state(), id, prev));
            assert(self.refuses(o, b));
        }
    //@hint before let parent_id
        let ghost b = block;
    //@hint before if let Some ( stable )
        proof { o.multiverse.lemma_closed(); lemma_taken(o.state(), b, o.confirmation_depth as nat, new_stable_position, self.state()); }
        let ghost best = new_stable_position;
    //@hint before let previous_tip =
        proof {
            assert(self.confirmed == (if best is Some { best } else { o.confirmed }));
            assert(self.wf());
        }
    //@hint before let mut blocks_in_previous_branch
        let ghost s = self.state();
        let ghost prev = previous_tip;
        let ghost id = b.id_of();
        let ghost w = *self;
        proof { assert(all_genuine(s)); }
    //@loop 1
        invariant_except_break
            *self == w, s == w.state(), all_genuine(s),
            forall|c: K| #[trigger] up(s, prev, c) <==> blocks_in_previous_branch@.contains(&c) || up(s, previous_branch_cursor, c),
        ensures *self == w, forall|c: K| #[trigger] up(s, prev, c) <==> blocks_in_previous_branch@.contains(&c),
        decreases height::<V>(previous_branch_cursor)
    //@hint loop-start 1
        proof { lemma_up(s, previous_branch_cursor); }
    //@hint before let mut current_branch_cursor
        proof { assert(w.events@.len() == 0); }
    //@loop 2
        invariant_except_break
            self.rests(w), self.source == w.source, s == w.state(), all_genuine(s),
            forall|c: K| #[trigger] up(s, prev, c) <==> blocks_in_previous_branch@.contains(&c),
            lead::<K, V>(current_branch_cursor, self.events@, id), fresh(s, self.events@, prev),
            forall|c: K| #[trigger] up(s, id, c) && up(s, prev, c) ==> up(s, current_branch_cursor, c),
        ensures
            self.rests(w), self.source == w.source,
            self.events@.len() > 0 && self.events@.last() is Rollback ==> lead::<K, V>(prev, self.events@, id) && fresh(s, self.events@.drop_last(), prev),
            !(self.events@.len() > 0 && self.events@.last() is Rollback) ==> apart(s, id, prev),
        decreases height::<V>(current_branch_cursor)
    //@hint loop-start 2
        let ghost cur = current_branch_cursor;
        let ghost ev = self.events@;
        proof { lemma_up(s, cur); if up(s, prev, cur) { lemma_up_ancestor(s, prev, cur); } if s.contains_key(cur) { assert(block_named::<V>(cur) == s[cur].value); } }
    //@hint after Event :: Rollback ( $x ) ) ;
        proof { lemma_lead(cur, ev, id, self.events@.last(), prev); assert(self.events@.drop_last() =~= ev); }
    //@hint loop-end 2
        proof { lemma_lead(cur, ev, id, self.events@.last(), current_branch_cursor); }
    //@hint before match self . events . pop
        proof { st = self.events@; }
    //@hint before Ok ( Some ( new_event ) )
        proof {
            assert(self.takes(o, b));
            if head is Some && head->0 != b.parent_of() {
                let t = choose|m: K| #[trigger] moves::<K, V>(head->0, st.last(), m) && lead::<K, V>(m, st.drop_last(), b.id_of());
                assert(self.stands(Some(t)));
            }
            if head is Some && head->0 == b.parent_of() { assert(moves::<K, V>(head->0, new_event, b.id_of())); assert(self.stands(Some(b.id_of()))); }
        }
    //@end
}
pub open spec fn tips_confirmed_and<K: Ident, V: Block<Key = K>>(s: State<K, V>, c: Option<K>, from: Option<V::From>, p: Set<V::From>) -> bool {
    forall|x: V::From| #[trigger] p.contains(x) <==> from == Some(x) || at_tip(s, x) || (c is Some && s[c->0].value.place_of() == Some(x))
}

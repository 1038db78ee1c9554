// ---- B02: the source of confirmed blocks ----
//@item blockchain-source/src/multiverse/mod.rs | struct | MultiverseSource
//@attr #[verifier::reject_recursive_types(K)]
//@rewrite multiverse : multiverse :: => pub multiverse:
//@rewrite , source : => , pub source:
//@rewrite , confirmation_depth : => , pub confirmation_depth:
//@rewrite , confirmed : => , pub confirmed:
//@end
pub open spec fn all_genuine<K: Ident, V: Block<Key = K>>(s: State<K, V>) -> bool { forall|k: K| #[trigger] s.contains_key(k) ==> genuine(s[k].value) && s[k].value.id_of() == k }
/// a link leads to the block's parent
pub open spec fn linked<K: Ident, V: Block<Key = K>>(s: State<K, V>) -> bool { forall|k: K| #[trigger] s.contains_key(k) ==> (s[k].link matches Some(p) ==> p == s[k].value.parent_of()) }
pub open spec fn sound<K: Ident, V: Block<Key = K>>(s: State<K, V>) -> bool { all_genuine(s) && linked(s) }
/// where the peer is asked from: the tips, and the place given
pub open spec fn tips_and<K: Ident, V: Block<Key = K>>(s: State<K, V>, from: Option<V::From>, p: Set<V::From>) -> bool {
    forall|x: V::From| #[trigger] p.contains(x) <==> from == Some(x) || at_tip(s, x)
}
pub open spec fn at_tip<K: Ident, V: Block<Key = K>>(s: State<K, V>, x: V::From) -> bool { exists|k: K| #[trigger] is_tip(s, k) && s[k].value.place_of() == Some(x) }
/// the places of those blocks, one after the other
pub open spec fn places_of<K: Ident, V: Block<Key = K>>(s: State<K, V>, ks: Seq<&Arc<K>>, ps: Seq<V::From>) -> bool {
    ps.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> s[(#[trigger] ks[i])@].value.place_of() == Some(ps[i])
}
pub proof fn lemma_places<K: Ident, V: Block<Key = K>>(s: State<K, V>, ks: Seq<&Arc<K>>, ps: Seq<V::From>, from: Option<V::From>, l: Seq<V::From>)
    requires
        places_of(s, ks, ps), l == (if from is Some { ps.push(from->0) } else { ps }), forall|i: int| 0 <= i < ks.len() ==> is_tip(s, (#[trigger] ks[i])@),
        forall|k: K| #[trigger] is_tip(s, k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == k,
    ensures tips_and(s, from, l.to_set())
{
    assert forall|x: V::From| #[trigger] l.to_set().contains(x) <==> from == Some(x) || at_tip(s, x) by {
        if l.contains(x) {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
            if i < ps.len() { assert(s[ks[i]@].value.place_of() == Some(ps[i])); assert(is_tip(s, ks[i]@)); }
        }
        if at_tip(s, x) {
            let k = choose|k: K| #[trigger] is_tip(s, k) && s[k].value.place_of() == Some(x);
            let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == k;
            assert(l[i] == x);
        }
        if from == Some(x) { assert(l[ps.len() as int] == x); }
    }
}
pub proof fn lemma_taken<K: Ident, V: Block<Key = K>>(s: State<K, V>, b: V, depth: nat, best: Option<K>, t: State<K, V>)
    requires sound(s), closed(s), genuine(b), !s.contains_key(b.id_of()), best_key(inserted(s, b), depth, best), pruned(inserted(s, b), best, t)
    ensures
        sound(t), best matches Some(k) ==> t.contains_key(k), best is None ==> forall|k: K| #[trigger] s.contains_key(k) ==> t.contains_key(k),
        sound(inserted(s, b)), closed(inserted(s, b)),
{
    let m = inserted(s, b);
    assert(sound(m) && closed(m));
    assert(m.contains_key(b.id_of()));
    let h = choose|h: K| #[trigger] highest(m, h) && walk(m, h, depth) == best;
    lemma_walk(m, h, depth);
    assert forall|k: K| #[trigger] t.contains_key(k) implies genuine(t[k].value) && t[k].value.id_of() == k && (t[k].link matches Some(p) ==> p == t[k].value.parent_of()) by { assert(m.contains_key(k)); }
    if best is None { assert forall|k: K| #[trigger] s.contains_key(k) implies t.contains_key(k) by { assert(m.contains_key(k)); } }
}
impl<K: Ident, V: Block<Key = K>, S: Source<V>> MultiverseSource<K, V, S> {
    pub open spec fn wf(&self) -> bool {
        &&& self.multiverse.wf() && sound(self.multiverse.state())
        &&& self.confirmed matches Some(c) ==> self.multiverse.state().contains_key(c)
    }
    pub open spec fn state(&self) -> State<K, V> { self.multiverse.state() }
    /// nothing but the peer has been touched
    pub open spec fn rests(self, o: Self) -> bool { self.multiverse == o.multiverse && self.confirmed == o.confirmed && self.confirmation_depth == o.confirmation_depth }
    /// the confirmed block is its parent's successor
    pub open spec fn follows(self, from: Option<V::From>, v: V) -> bool {
        &&& self.confirmed == Some(v.id_of()) && v == self.state()[v.id_of()].value
        &&& from == if self.state().contains_key(v.parent_of()) { self.state()[v.parent_of()].value.place_of() } else { None }
    }
    /// a block comes in, and the block that deep under a highest one is the confirmed one, if there is one
    pub open spec fn takes(self, o: Self, b: V, best: Option<K>) -> bool {
        &&& genuine(b) && !o.state().contains_key(b.id_of())
        &&& best_key(inserted(o.state(), b), o.confirmation_depth as nat, best) && pruned(inserted(o.state(), b), best, self.state())
        &&& self.confirmed == (if best is Some { best } else { o.confirmed }) && self.confirmation_depth == o.confirmation_depth
    }
    pub open spec fn answers(self, o: Self, from: Option<V::From>, r: anyhow::Result<Option<V>>) -> bool {
        match r {
            Ok(Some(v)) => (self.rests(o) && (v.is_tip() || o.follows(from, v))) || exists|b: V| #[trigger] self.takes(o, b, Some(v.id_of())) && o.confirmed != Some(v.id_of()) && v == self.state()[v.id_of()].value,
            Ok(None) => self.rests(o) || exists|b: V, best: Option<K>| #[trigger] self.takes(o, b, best) && (best is None || best == o.confirmed),
            Err(e) => of_storage(e) || self.rests(o),
        }
    }
    pub open spec fn asks(self, o: Self, from: Option<V::From>) -> bool {
        self.source.asked() == o.source.asked() || exists|p: Set<V::From>| self.source.asked() == o.source.asked().push(p) && #[trigger] tips_and(o.state(), from, p)
    }
    //@fn blockchain-source/src/multiverse/mod.rs | impl<K, V, InnerSource> MultiverseSource<K, V, InnerSource> | new
    //@sig multiverse :: Multiverse => Multiverse
    //@sig InnerSource => S
    //@sig where K : $a , V : $b , =>
    //@use src
    //@desugar opt.map
    //@spec
        requires multiverse.wf(), sound(multiverse.state())
        ensures r.wf(), r.multiverse == multiverse, r.source == inner_source, r.confirmation_depth == confirmation_depth, best_key(multiverse.state(), confirmation_depth as nat, r.confirmed)
    //@hint after } ;
        proof {
            let s = multiverse.state();
            multiverse.lemma_closed();
            assert forall|h: K| #[trigger] highest(s, h) implies (walk(s, h, confirmation_depth as nat) matches Some(b) ==> s.contains_key(b)) by { lemma_walk(s, h, confirmation_depth as nat); }
            if !(s =~= Map::<K, Node<K, V>>::empty()) { let h = choose|h: K| #[trigger] reached(s, confirmation_depth as nat, h, selected); assert(highest(s, h)); }
        }
    //@end
    //@fn blockchain-source/src/multiverse/mod.rs | impl<K, V, InnerSource> MultiverseSource<K, V, InnerSource> | into_inner
    //@sig InnerSource => S
    //@spec
        ensures r == self.source
    //@end
    //@fn blockchain-source/src/multiverse/mod.rs | impl<K, V, InnerSource, ScalarInnerFrom> Source for MultiverseSource<K, V, InnerSource> where InnerSource: Source<Event = V, From = Vec<ScalarInnerFrom>> + Send, ScalarInnerFrom: PullFrom + PartialEq + Clone + Sync + std::fmt::Debug, V: GetNextFrom<From = ScalarInnerFrom>, K: AsRef<[u8]> + Eq + Hash + Debug + Clone + Display + PullFrom + Sync, V: Variant<Key = K> + Clone + EventObject, | pull
    //@sig async fn => fn
    //@sig & Self :: From => &Option<V::From>
    //@sig Result < Option < Self :: Event > > => anyhow::Result<Option<V>>
    //@use src
    //@rewrite for $k! in self . multiverse . tips ( ) . iter ( ) { => let __tips = self.multiverse.tips(); for $k in __tips.iter() {
    //@rewrite from . as_ref ( ) == parent . as_ref ( ) => same(from, &parent)
    //@rewrite stable != confirmed => !same(stable, confirmed)
    //@desugar for.it opt.map opt.and_then opt.ok_or_else opt.filter
    //@spec
        requires old(self).wf()
        ensures
            final(self).answers(*old(self), *from, r),
            r is Ok ==> final(self).wf(),
            final(self).asks(*old(self), *from),
    //@hint start
        broadcast use from_multiverse;
        let ghost o = *self;
        let ghost mut all: Seq<&Arc<K>> = Seq::empty();
        let ghost mut places: Seq<V::From> = Seq::empty();
    //@hint before-loop 0
        proof {
            all = __it0@;
            self.multiverse.lemma_ends();
            assert forall|i: int| 0 <= i < all.len() implies is_tip(o.state(), (#[trigger] all[i])@) by { assert(__tips.ids().contains(all[i]@)); }
            assert forall|k: K| #[trigger] is_tip(o.state(), k) implies exists|i: int| 0 <= i < all.len() && (#[trigger] all[i])@ == k by { assert(self.multiverse.tips@.contains(k)); assert(__tips.ids().contains(k)); }
            assert(all.skip(0) =~= all);
        }
    //@loop 0
        invariant_except_break
            *self == o, o.wf(), 0 <= all.len() - __it0@.len(), __it0@ =~= all.skip(all.len() - __it0@.len()), forall|i: int| 0 <= i < all.len() ==> is_tip(o.state(), (#[trigger] all[i])@),
            places_of(o.state(), all.take(all.len() - __it0@.len()), checkpoints@),
        ensures *self == o, places_of(o.state(), all, checkpoints@),
        decreases __it0@.len()
    //@hint loop-start 0
        let ghost n = all.len() - __it0@.len();
        let ghost c0 = checkpoints@;
        proof {
            if n < all.len() { assert(__it0@[0] == all[n]); assert(__it0@.drop_first() =~= all.skip(n + 1)); assert(is_tip(o.state(), all[n]@)); }
            else { assert(all.take(n) =~= all); }
        }
    //@hint loop-end 0
        proof {
            assert(all.take(n + 1) =~= all.take(n).push(all[n]));
            assert(checkpoints@ =~= c0.push(checkpoints@.last()));
        }
    //@hint after-loop 0
        proof { places = checkpoints@; }
    //@hint before let block = match
        proof {
            let list = if *from is Some { places.push(from->0) } else { places };
            assert(inner_from@ =~= list);
            lemma_places(o.state(), all, places, *from, inner_from@);
        }
    //@hint before let new_stable_position
        let ghost b = block;
    //@hint before if let Some ( stable )
        proof { lemma_taken(o.state(), b, o.confirmation_depth as nat, new_stable_position, self.state()); }
        let ghost best = new_stable_position;
        proof { if best is None || best == o.confirmed { assert(self.takes(o, b, best)); } }
    //@hint before self . confirmed . replace_with
        let ghost fin = MultiverseSource { confirmed: Some(stable), ..*self };
        proof { assert(fin.takes(o, b, best)); }
    //@end
}
// ---- B02: where forks stay shallower than the depth, confirmed blocks come in the order of the chain ----
/// all highest blocks have the same block that deep below them
pub open spec fn agreed<K: Ident, V: Block<Key = K>>(s: State<K, V>, depth: nat, c: Option<K>) -> bool {
    if s =~= Map::<K, Node<K, V>>::empty() { c is None } else { forall|h: K| #[trigger] highest(s, h) ==> walk(s, h, depth) == c }
}
/// numbers count the blocks of a chain
pub open spec fn counted<K: Ident, V: Block<Key = K>>(s: State<K, V>) -> bool { forall|k: K| #[trigger] s.contains_key(k) ==> (s[k].link matches Some(p) ==> number(s, k) == number(s, p) + 1) }
pub open spec fn connected<K: Ident, V: Block<Key = K>>(s: State<K, V>, b: V) -> bool { s.contains_key(b.parent_of()) || s =~= Map::<K, Node<K, V>>::empty() }
pub proof fn lemma_step_up<K, V>(s: State<K, V>, k: K, n: nat)
    ensures walk(s, k, n + 1) == match walk(s, k, n) { Some(j) => s[j].link, None => None }
    decreases n
{
    if n == 0 { if s[k].link is Some { assert(walk(s, s[k].link->0, 0) == Some(s[k].link->0)); } assert(walk(s, k, 1) == s[k].link) by { reveal_with_fuel(walk, 3); } }
    else if s[k].link is Some { lemma_step_up(s, s[k].link->0, (n - 1) as nat); }
}
/// what is walked before does not depend on a block that nothing links to
pub proof fn lemma_walk_before<K: Ident, V: Block<Key = K>>(s: State<K, V>, b: V, k: K, n: nat)
    requires closed(s), s.contains_key(k), !s.contains_key(b.id_of())
    ensures walk(inserted(s, b), k, n) == walk(s, k, n)
    decreases n
{ if n > 0 { if s[k].link is Some { lemma_walk_before(s, b, s[k].link->0, (n - 1) as nat); } } }
/// nor on what lies below
pub proof fn lemma_walk_left<K: Ident, V: Block<Key = K>>(s: State<K, V>, best: Option<K>, t: State<K, V>, k: K, n: nat)
    requires closed(s), counted(s), pruned(s, best, t), s.contains_key(k), best matches Some(b) ==> s.contains_key(b) && number(s, k) >= number(s, b) + n
    ensures t.contains_key(k), walk(t, k, n) == walk(s, k, n)
    decreases n
{
    assert(!old_news(s, best, k));
    if n > 0 { if s[k].link is Some { lemma_walk_left(s, best, t, s[k].link->0, (n - 1) as nat); assert(!old_news(s, best, s[k].link->0)); }
        assert(t.contains_key(k)); assert(t[k].link == s[k].link);
    }
}
pub proof fn lemma_walk_number<K: Ident, V: Block<Key = K>>(s: State<K, V>, k: K, n: nat)
    requires closed(s), counted(s), s.contains_key(k)
    ensures walk(s, k, n) matches Some(b) ==> s.contains_key(b) && number(s, k) == number(s, b) + n
    decreases n
{ if n > 0 { if s[k].link is Some { lemma_walk_number(s, s[k].link->0, (n - 1) as nat); } } }
/// the next confirmed block is the child of the former, the first one has no parent here, and none is taken back
pub proof fn in_order<K: Ident, V: Block<Key = K>, S: Source<V>>(o: MultiverseSource<K, V, S>, m: MultiverseSource<K, V, S>, b: V, best: Option<K>)
    requires
        o.wf(), m.takes(o, b, best), agreed(o.state(), o.confirmation_depth as nat, o.confirmed),
        connected(o.state(), b), counted(inserted(o.state(), b)), agreed(inserted(o.state(), b), o.confirmation_depth as nat, best),
    ensures
        agreed(m.state(), m.confirmation_depth as nat, m.confirmed),
        o.confirmed is Some ==> best is Some,
        best is Some && best != o.confirmed ==> match o.confirmed {
            Some(c) => m.state()[best->0].value.parent_of() == c,
            None => inserted(o.state(), b)[best->0].link is None,
        },
        // a higher block always moves it
        o.confirmed is Some && (forall|k: K| #[trigger] o.state().contains_key(k) ==> number(o.state(), k) < b.number_of()) ==> best != o.confirmed,
{
    let (s, t, d) = (o.state(), m.state(), o.confirmation_depth as nat);
    let mid = inserted(s, b);
    let id = b.id_of();
    o.multiverse.lemma_closed();
    lemma_taken(s, b, d, best, t);
    assert(mid.contains_key(id));
    let h0 = choose|h: K| #[trigger] highest(mid, h) && walk(mid, h, d) == best;
    lemma_walk_number(mid, h0, d);
    // the order
    if s =~= Map::<K, Node<K, V>>::empty() {
        assert(h0 == id);
        assert(mid[id].link is None);
        if d > 0 { assert(walk(mid, id, d) is None); }
    } else if exists|h: K| s.contains_key(h) && #[trigger] highest(mid, h) {
        let h = choose|h: K| s.contains_key(h) && #[trigger] highest(mid, h);
        assert forall|j: K| #[trigger] s.contains_key(j) implies number(s, j) <= number(s, h) by { assert(mid.contains_key(j)); }
        assert(highest(s, h));
        lemma_walk_before(s, b, h, d);
        assert(best == o.confirmed);
        assert(mid.contains_key(h) && number(mid, h) == number(s, h));
        if forall|k: K| #[trigger] s.contains_key(k) ==> number(s, k) < b.number_of() { assert(number(mid, id) == b.number_of()); assert(false); }
    } else {
        assert(h0 == id);
        let p = b.parent_of();
        assert(s.contains_key(p) && mid[id].link == Some(p));
        assert(number(mid, id) == number(mid, p) + 1);
        assert forall|j: K| #[trigger] s.contains_key(j) implies number(s, j) <= number(s, p) by {
            assert(mid.contains_key(j) && number(mid, j) <= number(mid, id));
            if number(s, j) > number(s, p) {
                assert forall|i: K| #[trigger] mid.contains_key(i) implies number(mid, i) <= number(mid, j) by { assert(number(mid, i) <= number(mid, id)); }
                assert(highest(mid, j));
            }
        }
        assert(highest(s, p));
        if d == 0 { assert(walk(s, p, 0) == Some(p)); assert(walk(mid, id, 0) == Some(id)); }
        else {
            let j = walk(s, p, (d - 1) as nat);
            lemma_walk_before(s, b, p, (d - 1) as nat);
            assert(walk(mid, id, d) == j);
            lemma_step_up(s, p, (d - 1) as nat);
            if j is Some { lemma_walk(s, p, (d - 1) as nat); assert(s.contains_key(j->0) && mid.contains_key(j->0)); assert(t[j->0].value == mid[j->0].value); assert(mid[j->0] == s[j->0]); }
        }
        if best is Some { assert(t.contains_key(best->0)); assert(t[best->0].value == mid[best->0].value); }
        if o.confirmed is Some && best == o.confirmed { lemma_walk_number(mid, id, d); lemma_walk_before(s, b, p, d); lemma_walk_number(mid, p, d); }
    }
    // and the highest blocks still agree
    lemma_walk_left(mid, best, t, h0, d);
    assert forall|h: K| #[trigger] highest(t, h) implies walk(t, h, d) == best by {
        assert(mid.contains_key(h));
        assert(t.contains_key(h0));
        assert forall|j: K| #[trigger] mid.contains_key(j) implies number(mid, j) <= number(mid, h) by { assert(number(mid, j) <= number(mid, h0)); assert(number(t, h0) <= number(t, h)); }
        assert(highest(mid, h));
        lemma_walk_number(mid, h, d);
        lemma_walk_left(mid, best, t, h, d);
    }
}

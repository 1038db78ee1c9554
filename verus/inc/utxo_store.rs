//@item core/src/utxo_store.rs | struct | UTxOSet
//@rewrite struct UTxOSet => pub struct UTxOSet
//@rewrite token_id : => pub token_id:
//@rewrite balance : => pub balance:
//@rewrite , set : => , pub set:
//@rewrite ordered_by_value : => pub ordered_by_value:
//@end
//@item core/src/utxo_store.rs | struct | UTxOStore
//@rewrite { utxos : => { pub utxos:
//@rewrite by_policy_id : => pub by_policy_id:
//@rewrite dictionary : => pub dictionary:
//@end
//@item core/src/utxo_store.rs | struct | UTxOStoreMut
//@rewrite { utxos : => { pub utxos:
//@rewrite by_policy_id : => pub by_policy_id:
//@rewrite dictionary : => pub dictionary:
//@end
// the expansions of derive(Default) and derive(Clone)
impl UTxOSet {
    pub fn default() -> (r: Self)
        ensures r.token_id == main_token(), r.balance.val() == 0real, r.set@ == Map::<UtxoPointer, Arc<UTxODetails>>::empty(), r.ordered_by_value@ == Map::<real, HashMap<UtxoPointer, Arc<UTxODetails>>>::empty()
    { UTxOSet { token_id: TokenId::default(), balance: Value::default(), set: HashMap::default(), ordered_by_value: BTreeMap::default() } }
}
impl Clone for UTxOSet {
    fn clone(&self) -> (r: Self)
        ensures r.token_id == self.token_id, r.balance.val() == self.balance.val(), r.set@ == self.set@, r.ordered_by_value@ == self.ordered_by_value@
    { UTxOSet { token_id: self.token_id.clone(), balance: self.balance.clone(), set: self.set.clone(), ordered_by_value: self.ordered_by_value.clone() } }
}
impl UTxOStore {
    pub fn default() -> (r: Self)
        ensures r.wf(), r.held() == Map::<UtxoPointer, Arc<UTxODetails>>::empty()
    {
        let r = UTxOStore { utxos: UTxOSet::default(), by_policy_id: HashMap::default(), dictionary: HashMap::default() };
        proof { lemma_total_empty(main_token()); }
        r
    }
}
impl Clone for UTxOStore {
    fn clone(&self) -> (r: Self)
        ensures r.utxos.same(self.utxos), r.by_policy_id@ == self.by_policy_id@, r.dictionary@ == self.dictionary@
    { UTxOStore { utxos: self.utxos.clone(), by_policy_id: self.by_policy_id.clone(), dictionary: self.dictionary.clone() } }
}

// ---- what a store holds ---------------------------------------------------------------------------
pub type Held = Map<UtxoPointer, Arc<UTxODetails>>;
pub open spec fn lists_asset(u: UTxODetails, t: TokenId, i: int) -> bool { 0 <= i < u.assets@.len() && u.assets@[i].fingerprint == t }
pub open spec fn has(u: UTxODetails, t: TokenId) -> bool { t == main_token() || exists|i: int| lists_asset(u, t, i) }
/// the amount of a token in a UTxO
pub open spec fn qty(u: UTxODetails, t: TokenId) -> real {
    if t == main_token() { u.value.val() } else { let i = choose|i: int| lists_asset(u, t, i); u.assets@[i].quantity.val() }
}
/// assets are listed once each and are not the main token
pub open spec fn plain(u: UTxODetails) -> bool {
    (forall|i: int, j: int| 0 <= i < j < u.assets@.len() ==> (#[trigger] u.assets@[i]).fingerprint != (#[trigger] u.assets@[j]).fingerprint)
    && forall|i: int| 0 <= i < u.assets@.len() ==> (#[trigger] u.assets@[i]).fingerprint != main_token()
}
/// the exact sum of a token over a set of UTxOs
pub open spec fn total(m: Held, t: TokenId) -> real
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0real }
    else { let p = m.dom().choose(); qty(*m[p], t) + total(m.remove(p), t) }
}
pub proof fn lemma_total_empty(t: TokenId) ensures total(Map::<UtxoPointer, Arc<UTxODetails>>::empty(), t) == 0real {
    let m: Held = Map::empty();
    assert(m.dom() =~= Set::empty());
}
pub proof fn lemma_total_remove(m: Held, t: TokenId, p: UtxoPointer)
    requires m.contains_key(p)
    ensures total(m, t) == qty(*m[p], t) + total(m.remove(p), t)
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(p));
    if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); }
    assert(m.dom().contains(c));
    assert(m.remove(p).dom() =~= m.dom().remove(p));
    assert(m.remove(c).dom() =~= m.dom().remove(c));
    if c != p {
        lemma_total_remove(m.remove(c), t, p);
        lemma_total_remove(m.remove(p), t, c);
        assert(m.remove(c).remove(p) =~= m.remove(p).remove(c));
    }
}
pub proof fn lemma_total_insert(m: Held, t: TokenId, p: UtxoPointer, u: Arc<UTxODetails>)
    requires !m.contains_key(p)
    ensures total(m.insert(p, u), t) == qty(*u, t) + total(m, t)
{
    let n = m.insert(p, u);
    lemma_total_remove(n, t, p);
    assert(n.remove(p) =~= m);
}
pub open spec fn pointer_of(u: Arc<UTxODetails>) -> UtxoPointer { u.pointer }
pub proof fn lemma_total_insert_own(m: Held, t: TokenId, u: Arc<UTxODetails>)
    requires !m.contains_key(u.pointer)
    ensures total(m.insert(u.pointer, u), t) == qty(*u, t) + total(m, t)
{ lemma_total_insert(m, t, pointer_of(u), u); }
/// m is the part of `all` that holds token t
pub open spec fn part(m: Held, all: Held, t: TokenId) -> bool {
    forall|p: UtxoPointer| (#[trigger] m.contains_key(p) <==> all.contains_key(p) && has(*all[p], t)) && (m.contains_key(p) ==> m[p] == all[p])
}
pub open spec fn some_holder(all: Held, t: TokenId) -> bool { exists|p: UtxoPointer| #[trigger] all.contains_key(p) && has(*all[p], t) }
pub open spec fn plain_held(m: Held) -> bool { forall|p: UtxoPointer| #[trigger] m.contains_key(p) ==> m[p].pointer == p && plain(*m[p]) }

pub type Index = Map<real, HashMap<UtxoPointer, Arc<UTxODetails>>>;
pub open spec fn indexed(o: Index, v: real, p: UtxoPointer) -> bool { o.contains_key(v) && o[v]@.contains_key(p) }
/// the index lists exactly the UTxOs of m under their amounts
pub open spec fn index_ok(o: Index, m: Held, t: TokenId) -> bool {
    (forall|p: UtxoPointer| #[trigger] m.contains_key(p) ==> indexed(o, qty(*m[p], t), p))
    && (forall|v: real, p: UtxoPointer| o.contains_key(v) && #[trigger] o[v]@.contains_key(p) ==> m.contains_key(p) && qty(*m[p], t) == v && o[v]@[p] == m[p])
}
impl UTxOSet {
    pub open spec fn wf(self, t: TokenId) -> bool {
        plain_held(self.set@) && (forall|p: UtxoPointer| #[trigger] self.set@.contains_key(p) ==> has(*self.set@[p], t))
        && index_ok(self.ordered_by_value@, self.set@, t) && self.balance.val() == total(self.set@, t)
        && (self.token_id == t || self.set@.dom().len() == 0)
    }
    pub open spec fn same(self, o: UTxOSet) -> bool {
        self.token_id == o.token_id && self.balance.val() == o.balance.val() && self.set@ == o.set@ && self.ordered_by_value@ == o.ordered_by_value@
    }
}
pub open spec fn wf_parts(utxos: UTxOSet, by: Map<TokenId, UTxOSet>) -> bool {
    utxos.wf(main_token()) && utxos.token_id == main_token()
    && forall|t: TokenId| (#[trigger] by.contains_key(t) <==> some_holder(utxos.set@, t)) && (by.contains_key(t) ==> by[t].wf(t) && by[t].token_id == t && part(by[t].set@, utxos.set@, t))
}
pub proof fn lemma_qty(u: UTxODetails, t: TokenId, i: int)
    requires plain(u), lists_asset(u, t, i)
    ensures qty(u, t) == u.assets@[i].quantity.val(), has(u, t), t != main_token()
{
    let j = choose|j: int| lists_asset(u, t, j);
    assert(lists_asset(u, t, j));
    if i < j { assert(u.assets@[i].fingerprint != u.assets@[j].fingerprint); }
    if j < i { assert(u.assets@[j].fingerprint != u.assets@[i].fingerprint); }
}
pub proof fn lemma_qtys(u: UTxODetails)
    requires plain(u)
    ensures forall|i: int| 0 <= i < u.assets@.len() ==> qty(u, (#[trigger] u.assets@[i]).fingerprint) == u.assets@[i].quantity.val() && has(u, u.assets@[i].fingerprint) && u.assets@[i].fingerprint != main_token()
{
    assert forall|i: int| 0 <= i < u.assets@.len() implies qty(u, (#[trigger] u.assets@[i]).fingerprint) == u.assets@[i].quantity.val() && has(u, u.assets@[i].fingerprint) && u.assets@[i].fingerprint != main_token() by {
        lemma_qty(u, u.assets@[i].fingerprint, i);
    }
}
pub open spec fn utxo_at(m: Held, p: UtxoPointer) -> UTxODetails { *m[p] }
pub proof fn lemma_set_remove(s: UTxOSet, t: TokenId, p: UtxoPointer)
    requires s.wf(t)
    ensures
        s.set@.contains_key(p) ==> index_ok_but(s.ordered_by_value@, s.set@.remove(p), t, p, qty(*s.set@[p], t)) && total(s.set@, t) == qty(*s.set@[p], t) + total(s.set@.remove(p), t)
            && (forall|i: int| 0 <= i < (*s.set@[p]).assets@.len() ==> qty(*s.set@[p], (#[trigger] (*s.set@[p]).assets@[i]).fingerprint) == (*s.set@[p]).assets@[i].quantity.val()),
        !s.set@.contains_key(p) ==> s.set@.remove(p) == s.set@,
{
    if s.set@.contains_key(p) { lemma_total_remove(s.set@, t, p); lemma_qtys(utxo_at(s.set@, p)); } else { assert(s.set@.remove(p) =~= s.set@); }
}
impl UTxOStore {
    pub open spec fn wf(self) -> bool { wf_parts(self.utxos, self.by_policy_id@) }
    pub open spec fn held(self) -> Held { self.utxos.set@ }
}
impl UTxOStoreMut {
    pub open spec fn wf(self) -> bool { wf_parts(self.utxos, self.by_policy_id@) }
    pub open spec fn held(self) -> Held { self.utxos.set@ }
}


// ---- enumerations ------------------------------------------------------------------------------------
/// some order of the keys of m gives the UTxOs in s
pub open spec fn lists_utxos(m: Held, s: Seq<&UTxODetails>) -> bool {
    exists|ks: Seq<UtxoPointer>| #[trigger] keyed(m, ks, s)
}
pub open spec fn keyed(m: Held, ks: Seq<UtxoPointer>, s: Seq<&UTxODetails>) -> bool {
    ks.len() == s.len() && ks.no_duplicates() && (forall|k: UtxoPointer| ks.contains(k) <==> #[trigger] m.contains_key(k))
    && forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]) && *s[i] == *m[ks[i]]
}
/// s lists the UTxOs of m once each, in the order of their amounts of t
pub open spec fn lists_by_amount(m: Held, t: TokenId, s: Seq<&UTxODetails>, up: bool) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).pointer) && *s[i] == *m[s[i].pointer])
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).pointer != (#[trigger] s[j]).pointer)
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> if up { qty(*#[trigger] s[i], t) <= qty(*#[trigger] s[j], t) } else { qty(*s[i], t) >= qty(*s[j], t) })
    && (forall|p: UtxoPointer| #[trigger] m.contains_key(p) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pointer == p)
}

pub proof fn lemma_list(m: Held, vs: Seq<&Arc<UTxODetails>>, s: Seq<&UTxODetails>)
    requires (exists|ks: Seq<UtxoPointer>| #[trigger] lists_values(m, ks, vs)), s.len() == vs.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == **vs[i]
    ensures lists_utxos(m, s)
{
    let ks = choose|ks: Seq<UtxoPointer>| #[trigger] lists_values(m, ks, vs);
    assert forall|i: int| 0 <= i < ks.len() implies m.contains_key(#[trigger] ks[i]) && *s[i] == *m[ks[i]] by { assert(*vs[i] == m[ks[i]]); }
    assert(keyed(m, ks, s));
}
pub open spec fn monotone(ks: Seq<real>, up: bool) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> if up { #[trigger] ks[i] < #[trigger] ks[j] } else { ks[i] > ks[j] } }
pub open spec fn lists_upto(m: Held, t: TokenId, ks: Seq<real>, s: Seq<&UTxODetails>, up: bool) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).pointer) && *s[i] == *m[s[i].pointer] && ks.contains(qty(*s[i], t)))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).pointer != (#[trigger] s[j]).pointer)
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> if up { qty(*#[trigger] s[i], t) <= qty(*#[trigger] s[j], t) } else { qty(*s[i], t) >= qty(*s[j], t) })
    && (forall|p: UtxoPointer| #[trigger] m.contains_key(p) && ks.contains(qty(*m[p], t)) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pointer == p)
}
pub proof fn lemma_group(o: Index, m: Held, t: TokenId, k: real, s: Seq<&UTxODetails>)
    requires index_ok(o, m, t), plain_held(m), o.contains_key(k), lists_utxos(o[k]@, s)
    ensures
        (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).pointer) && *s[i] == *m[s[i].pointer] && qty(*s[i], t) == k),
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).pointer != (#[trigger] s[j]).pointer),
        (forall|p: UtxoPointer| #[trigger] m.contains_key(p) && qty(*m[p], t) == k ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pointer == p),
{
    let ps = choose|ps: Seq<UtxoPointer>| #[trigger] keyed(o[k]@, ps, s);
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).pointer) && *s[i] == *m[s[i].pointer] && qty(*s[i], t) == k && s[i].pointer == ps[i] by {
        assert(o[k]@.contains_key(ps[i]));
    }
    assert forall|p: UtxoPointer| #[trigger] m.contains_key(p) && qty(*m[p], t) == k implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pointer == p by {
        assert(o[k]@.contains_key(p));
        assert(ps.contains(p));
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == p;
        assert(s[i].pointer == p);
    }
}
pub open spec fn group_of(o: Index, k: real, part: Seq<&UTxODetails>) -> bool { o.contains_key(k) && lists_utxos(o[k]@, part) }
pub open spec fn groups_of(o: Index, ks: Seq<real>, parts: Seq<Seq<&UTxODetails>>) -> bool {
    forall|i: int| 0 <= i < ks.len() ==> group_of(o, ks[i], #[trigger] parts[i])
}
pub proof fn lemma_cat(o: Index, m: Held, t: TokenId, ks: Seq<real>, parts: Seq<Seq<&UTxODetails>>, up: bool)
    requires
        index_ok(o, m, t), plain_held(m), ks.len() == parts.len(), monotone(ks, up),
        groups_of(o, ks, parts),
    ensures lists_upto(m, t, ks, concat(parts), up)
    decreases parts.len()
{
    if parts.len() > 0 {
        let n = parts.len() - 1;
        let k0 = ks.drop_last();
        let p0 = parts.drop_last();
        assert forall|i: int| 0 <= i < k0.len() implies group_of(o, k0[i], #[trigger] p0[i]) by { assert(p0[i] == parts[i]); assert(k0[i] == ks[i]); }
        assert(groups_of(o, k0, p0));
        assert(monotone(k0, up));
        lemma_cat(o, m, t, k0, p0, up);
        let a = concat(p0);
        let b = parts[n];
        let k = ks[n];
        let c = concat(parts);
        assert(c == a + b);
        lemma_group(o, m, t, k, b);
        assert forall|x: real| ks.contains(x) <==> k0.contains(x) || x == k by {
            if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; if i < n { assert(k0[i] == x); } }
            if k0.contains(x) { let i = choose|i: int| 0 <= i < k0.len() && k0[i] == x; assert(ks[i] == x); }
        }
        assert forall|x: real| k0.contains(x) implies if up { x < k } else { x > k } by {
            let i = choose|i: int| 0 <= i < k0.len() && k0[i] == x;
            assert(ks[i] == x);
        }
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == if i < a.len() { a[i] } else { b[i - a.len()] } by {}
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).pointer != (#[trigger] c[j]).pointer by {}
        assert forall|p: UtxoPointer| #[trigger] m.contains_key(p) && ks.contains(qty(*m[p], t)) implies exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).pointer == p by {
            if k0.contains(qty(*m[p], t)) {
                let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).pointer == p;
                assert(c[i].pointer == p);
            } else {
                let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).pointer == p;
                assert(c[a.len() + i].pointer == p);
            }
        }
    }
}
pub open spec fn groups(vs: Seq<&HashMap<UtxoPointer, Arc<UTxODetails>>>, parts: Seq<It<&UTxODetails>>) -> bool {
    vs.len() == parts.len() && forall|i: int| 0 <= i < parts.len() ==> lists_utxos(vs[i]@, (#[trigger] parts[i])@)
}
pub proof fn lemma_ordered(s: UTxOSet)
    requires s.wf(s.token_id)
    ensures
        forall|ks: Seq<real>, vs: Seq<&HashMap<UtxoPointer, Arc<UTxODetails>>>, parts: Seq<It<&UTxODetails>>|
            #[trigger] lists_values(s.ordered_by_value@, ks, vs) && increasing(ks) && groups(vs, parts) ==> lists_by_amount(s.set@, s.token_id, #[trigger] concat(views(parts)), true),
        forall|ks: Seq<real>, vs: Seq<&HashMap<UtxoPointer, Arc<UTxODetails>>>, parts: Seq<It<&UTxODetails>>|
            #[trigger] lists_values(s.ordered_by_value@, ks, vs) && increasing(ks) && groups(vs.reverse(), parts) ==> lists_by_amount(s.set@, s.token_id, #[trigger] concat(views(parts)), false),
{
    let o = s.ordered_by_value@;
    assert forall|ks: Seq<real>, vs: Seq<&HashMap<UtxoPointer, Arc<UTxODetails>>>, parts: Seq<It<&UTxODetails>>|
            #[trigger] lists_values(o, ks, vs) && increasing(ks) && groups(vs, parts) implies lists_by_amount(s.set@, s.token_id, #[trigger] concat(views(parts)), true) by {
        let ps = views(parts);
        assert forall|i: int| 0 <= i < ks.len() implies o.contains_key(ks[i]) && lists_utxos(o[ks[i]]@, #[trigger] ps[i]) by { assert(ps[i] == parts[i]@); assert(*vs[i] == o[ks[i]]); }
        lemma_cat(o, s.set@, s.token_id, ks, ps, true);
        assert forall|p: UtxoPointer| #[trigger] s.set@.contains_key(p) implies ks.contains(qty(*s.set@[p], s.token_id)) by { }
    }
    assert forall|ks: Seq<real>, vs: Seq<&HashMap<UtxoPointer, Arc<UTxODetails>>>, parts: Seq<It<&UTxODetails>>|
            #[trigger] lists_values(o, ks, vs) && increasing(ks) && groups(vs.reverse(), parts) implies lists_by_amount(s.set@, s.token_id, #[trigger] concat(views(parts)), false) by {
        let ps = views(parts);
        let kr = ks.reverse();
        assert forall|i: int| 0 <= i < kr.len() implies o.contains_key(kr[i]) && lists_utxos(o[kr[i]]@, #[trigger] ps[i]) by { assert(ps[i] == parts[i]@); assert(*vs[vs.len() - 1 - i] == o[kr[i]]); assert(vs.reverse()[i] == vs[vs.len() - 1 - i]); }
        lemma_cat(o, s.set@, s.token_id, kr, ps, false);
        assert forall|p: UtxoPointer| #[trigger] s.set@.contains_key(p) implies kr.contains(qty(*s.set@[p], s.token_id)) by {
            let q = qty(*s.set@[p], s.token_id);
            assert(ks.contains(q));
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == q;
            assert(kr[ks.len() - 1 - i] == q);
        }
    }
}

//@rules set
std :: collections :: btree_map :: Entry => BEntry
utxo . assets . iter ( ) => iter(&utxo.assets)
value . assets . iter ( ) => iter(&value.assets)
| ta | ta . fingerprint == self . token_id => |ta: &&TransactionAsset| -> (r: bool) ensures r == (ta.fingerprint == self.token_id) { ta.fingerprint == self.token_id }
| a | & a . fingerprint => |a: &TransactionAsset| -> (r: &TokenId) ensures *r == a.fingerprint { &a.fingerprint }
& [ TokenId :: MAIN ] => main_token_array()
| i | i . values ( ) . map ( | v | v . as_ref ( ) ) => |i: &HashMap<UtxoPointer, Arc<UTxODetails>>| -> (r: It<&UTxODetails>) ensures lists_utxos(i@, r@) { let vs = i.values(); let r = vs.map(|v: &Arc<UTxODetails>| -> (r: &UTxODetails) ensures *r == **v { &**v }); proof { lemma_list(i@, vs@, r@); } r }
. map ( | v | v . as_ref ( ) ) => .map(|v| &**v)
//@end
#[verifier::external_body] pub fn main_token_array() -> (r: It<&'static TokenId>) ensures r@.len() == 1, *r@[0] == main_token() { unimplemented!() }

impl UTxOSet {
    //@fn core/src/utxo_store.rs | impl UTxOSet | finish_remove
    //@use set
    //@spec
        requires index_ok_but(old(self).ordered_by_value@, old(self).set@, old(self).token_id, *pointer, value.val())
        ensures
            final(self).token_id == old(self).token_id, final(self).set@ == old(self).set@,
            final(self).balance.val() == old(self).balance.val() - value.val(),
            index_ok(final(self).ordered_by_value@, final(self).set@, final(self).token_id),
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | remove_from_asset
    //@use set
    //@desugar opt.map
    //@spec
        requires old(self).wf(old(self).token_id)
        ensures
            final(self).wf(old(self).token_id), final(self).token_id == old(self).token_id,
            final(self).set@ == old(self).set@.remove(*pointer),
            r == if old(self).set@.contains_key(*pointer) { Some(old(self).set@[*pointer]) } else { None },
            !old(self).set@.contains_key(*pointer) ==> final(self).same(*old(self)),
    //@hint start
        proof { lemma_set_remove(*self, self.token_id, *pointer); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | remove_from_main
    //@use set
    //@spec
        requires old(self).wf(main_token()), old(self).token_id == main_token()
        ensures
            final(self).wf(main_token()), final(self).token_id == main_token(),
            final(self).set@ == old(self).set@.remove(*pointer),
            r == if old(self).set@.contains_key(*pointer) { Some(old(self).set@[*pointer]) } else { None },
            !old(self).set@.contains_key(*pointer) ==> final(self).same(*old(self)),
    //@hint start
        proof { lemma_set_remove(*self, self.token_id, *pointer); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | add_value
    //@use set
    //@spec
        requires
            old(self).wf(*token), !old(self).set@.contains_key(utxo.pointer), plain(*utxo), has(*utxo, *token), qty(*utxo, *token) == value.val(),
        ensures
            final(self).wf(*token), final(self).token_id == *token, final(self).set@ == old(self).set@.insert(utxo.pointer, utxo),
    //@hint start
        proof { lemma_total_insert_own(self.set@, *token, utxo); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | get
    //@desugar opt.map
    //@use set
    //@spec
        ensures match r { Some(u) => self.set@.contains_key(*utxo) && *u == *self.set@[*utxo], None => !self.set@.contains_key(*utxo) }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | iter
    //@sig imbl :: hashmap :: Iter < '_ , UtxoPointer , Arc < UTxODetails > > => It<(&UtxoPointer, &Arc<UTxODetails>)>
    //@spec
        ensures lists_entries(self.set@, r@)
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | ordered_utxo_iterator
    //@sig impl Iterator < Item = & UTxODetails > => It<&UTxODetails>
    //@use set
    //@spec
        requires self.wf(self.token_id)
        ensures lists_by_amount(self.set@, self.token_id, r@, true)
    //@hint start
        proof { lemma_ordered(*self); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | ordered_utxo_iterator_rev
    //@sig impl Iterator < Item = & UTxODetails > => It<&UTxODetails>
    //@use set
    //@spec
        requires self.wf(self.token_id)
        ensures lists_by_amount(self.set@, self.token_id, r@, false)
    //@hint start
        proof { lemma_ordered(*self); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | is_empty
    //@spec
        ensures r == (self.set@ =~= Map::<UtxoPointer, Arc<UTxODetails>>::empty())
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | len
    //@spec
        ensures r == self.set@.dom().len()
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOSet | contains_key
    //@spec
        ensures r == self.set@.contains_key(*utxo)
    //@end
}
/// the index is exact but for `p`, which is listed under `v` only and no longer in m
pub open spec fn index_ok_but(o: Index, m: Held, t: TokenId, p: UtxoPointer, v: real) -> bool {
    !m.contains_key(p) && indexed(o, v, p)
    && (forall|x: UtxoPointer| #[trigger] m.contains_key(x) ==> indexed(o, qty(*m[x], t), x))
    && (forall|w: real, x: UtxoPointer| o.contains_key(w) && #[trigger] o[w]@.contains_key(x) ==> (x == p && w == v) || (m.contains_key(x) && qty(*m[x], t) == w && o[w]@[x] == m[x]))
}

//@rules store
. chain ( & [ TokenId :: MAIN ] ) => .chain(main_token_array())
Entry :: Occupied => Entry::Occupied
utxo_details . assets . iter ( ) => iter(&utxo_details.assets)
value . assets . iter ( ) => iter(&value.assets)
| a | & a . fingerprint => |a: &TransactionAsset| -> (r: &TokenId) ensures *r == a.fingerprint { &a.fingerprint }
self . by_token_id ( token_id ) . into_iter ( ) => opt_iter(self.by_token_id(token_id))
| c | c . iter ( ) => |c: &UTxOSet| -> (r: It<(&UtxoPointer, &Arc<UTxODetails>)>) ensures lists_entries(c.set@, r@) { c.iter() }
| set | set . ordered_utxo_iterator ( ) => |set: &UTxOSet| -> (r: It<&UTxODetails>) requires set.wf(set.token_id) ensures lists_by_amount(set.set@, set.token_id, r@, true) { set.ordered_utxo_iterator() }
| set | set . ordered_utxo_iterator_rev ( ) => |set: &UTxOSet| -> (r: It<&UTxODetails>) requires set.wf(set.token_id) ensures lists_by_amount(set.set@, set.token_id, r@, false) { set.ordered_utxo_iterator_rev() }
. unwrap_or_default ( ) => .unwrap_or(0)
token_id == & self . utxos . token_id => *token_id == self.utxos.token_id
anyhow ! ( $x* ) => anyhow::error()
//@end
impl<'a> Entry<'a, TokenId, UTxOSet> {
    // std: Entry::or_default
    pub fn or_default(self) -> (r: &'a mut UTxOSet)
        requires (self matches Entry::Occupied(o) ==> o.m@.contains_key(o.key))
        ensures
            self.after()@ == self.map()@.insert(self.key(), *final(r)),
            self is Occupied ==> *r == self.map()@[self.key()],
            self is Vacant ==> r.wf(self.key()) && r.set@ == Map::<UtxoPointer, Arc<UTxODetails>>::empty(),
    {
        match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => { proof { lemma_total_empty(v.key); } v.insert(UTxOSet::default()) } }
    }
}
// ---- the tokens of a UTxO, in the order insert and remove go through them ------------------------------
pub open spec fn done_in(u: UTxODetails, t: TokenId, n: int) -> bool { t == main_token() || exists|i: int| i < n && lists_asset(u, t, i) }
/// the indexes while a UTxO is being inserted: tokens gone through hold `new`, the others `old`
pub open spec fn inserting(by: Map<TokenId, UTxOSet>, all: Held, u: Arc<UTxODetails>, n: int) -> bool {
    forall|t: TokenId| (#[trigger] by.contains_key(t) <==> some_holder(all, t) || done_in(*u, t, n))
        && (by.contains_key(t) ==> by[t].wf(t) && by[t].token_id == t && part(by[t].set@, if done_in(*u, t, n) { all.insert(u.pointer, u) } else { all }, t))
}
pub open spec fn base(by: Map<TokenId, UTxOSet>, t: TokenId) -> Held { if by.contains_key(t) { by[t].set@ } else { Map::empty() } }
pub open spec fn put_in(by: Map<TokenId, UTxOSet>, by2: Map<TokenId, UTxOSet>, u: Arc<UTxODetails>, t: TokenId) -> bool {
    by2 == by.insert(t, by2[t]) && by2[t].wf(t) && by2[t].token_id == t && by2[t].set@ == base(by, t).insert(u.pointer, u)
}
pub proof fn lemma_insert_main(utxos: UTxOSet, by: Map<TokenId, UTxOSet>, by2: Map<TokenId, UTxOSet>, u: Arc<UTxODetails>)
    requires wf_parts(utxos, by), !utxos.set@.contains_key(u.pointer), plain(*u), put_in(by, by2, u, main_token())
    ensures inserting(by2, utxos.set@, u, 0)
{
    let all = utxos.set@;
    assert(forall|t: TokenId| by.contains_key(t) <==> some_holder(all, t));
    assert forall|t: TokenId| (#[trigger] by2.contains_key(t) <==> some_holder(all, t) || done_in(*u, t, 0))
        && (by2.contains_key(t) ==> by2[t].wf(t) && by2[t].token_id == t && part(by2[t].set@, if done_in(*u, t, 0) { all.insert(u.pointer, u) } else { all }, t)) by {
        assert(by.contains_key(t) <==> some_holder(all, t));
        assert(!done_in(*u, t, 0) || t == main_token());
        if t == main_token() {
            assert forall|p: UtxoPointer| all.contains_key(p) implies #[trigger] base(by, t).contains_key(p) && base(by, t)[p] == all[p] by {
                assert(has(*all[p], t));
                assert(some_holder(all, t));
                assert(by[t].set@.contains_key(p));
            }
            assert(part(by2[t].set@, all.insert(u.pointer, u), t));
        }
    }
}
pub proof fn lemma_insert_step(by: Map<TokenId, UTxOSet>, by2: Map<TokenId, UTxOSet>, all: Held, u: Arc<UTxODetails>, n: int)
    requires inserting(by, all, u, n), !all.contains_key(u.pointer), plain(*u), 0 <= n < u.assets@.len(), put_in(by, by2, u, u.assets@[n].fingerprint)
    ensures inserting(by2, all, u, n + 1)
{
    let f = u.assets@[n].fingerprint;
    assert(lists_asset(*u, f, n));
    lemma_not_done(u, n);
    assert forall|t: TokenId| (#[trigger] by2.contains_key(t) <==> some_holder(all, t) || done_in(*u, t, n + 1))
        && (by2.contains_key(t) ==> by2[t].wf(t) && by2[t].token_id == t && part(by2[t].set@, if done_in(*u, t, n + 1) { all.insert(u.pointer, u) } else { all }, t)) by {
        assert(by.contains_key(t) <==> some_holder(all, t) || done_in(*u, t, n));
        assert(done_in(*u, t, n + 1) <==> done_in(*u, t, n) || t == f);
        if t == f {
            assert(part(base(by, f), all, f));
            assert(has(*u, f));
            assert(part(by2[t].set@, all.insert(u.pointer, u), t));
        }
    }
}
pub open spec fn utxo_of(u: Arc<UTxODetails>) -> UTxODetails { *u }
pub proof fn lemma_qtys_of(u: Arc<UTxODetails>)
    requires plain(*u)
    ensures
        forall|i: int| 0 <= i < u.assets@.len() ==> qty(*u, (#[trigger] u.assets@[i]).fingerprint) == u.assets@[i].quantity.val() && has(*u, u.assets@[i].fingerprint) && u.assets@[i].fingerprint != main_token(),
        forall|n: int| 0 <= n < u.assets@.len() ==> !done_in(*u, (#[trigger] u.assets@[n]).fingerprint, n),
{
    lemma_qtys(utxo_of(u));
    assert forall|n: int| 0 <= n < u.assets@.len() implies !done_in(*u, (#[trigger] u.assets@[n]).fingerprint, n) by { lemma_not_done(u, n); }
}
pub proof fn lemma_not_done(u: Arc<UTxODetails>, n: int)
    requires plain(*u), 0 <= n < u.assets@.len()
    ensures !done_in(*u, u.assets@[n].fingerprint, n)
{
    let f = u.assets@[n].fingerprint;
    assert(f != main_token());
    assert(forall|i: int| i < n && lists_asset(*u, f, i) ==> (#[trigger] u.assets@[i]).fingerprint != u.assets@[n].fingerprint);
}
pub proof fn lemma_insert_end(utxos: UTxOSet, by: Map<TokenId, UTxOSet>, all: Held, u: Arc<UTxODetails>)
    requires
        inserting(by, all, u, u.assets@.len() as int), plain(*u), !all.contains_key(u.pointer),
        utxos.wf(main_token()), utxos.token_id == main_token(), utxos.set@ == all.insert(u.pointer, u),
    ensures wf_parts(utxos, by)
{
    let new = utxos.set@;
    let n = u.assets@.len() as int;
    assert forall|t: TokenId| (#[trigger] by.contains_key(t) <==> some_holder(new, t)) && (by.contains_key(t) ==> by[t].wf(t) && by[t].token_id == t && part(by[t].set@, new, t)) by {
        assert(done_in(*u, t, n) <==> has(*u, t));
        if some_holder(all, t) {
            let p = choose|p: UtxoPointer| #[trigger] all.contains_key(p) && has(*all[p], t);
            assert(new.contains_key(p) && new[p] == all[p]);
        }
        assert(new.contains_key(pointer_of(u)));
        if some_holder(new, t) {
            let p = choose|p: UtxoPointer| #[trigger] new.contains_key(p) && has(*new[p], t);
            if p != pointer_of(u) { assert(all.contains_key(p)); }
        }
    }
}
impl UTxOStoreMut {
    //@fn core/src/utxo_store.rs | impl UTxOStoreMut | insert
    //@use store
    //@desugar for.it entry.or_insert_with
    //@spec
        requires old(self).wf(), plain(utxo)
        ensures
            r is Err <==> old(self).held().contains_key(utxo.pointer),
            final(self).wf(),
            r is Err ==> final(self).held() == old(self).held() && final(self).utxos == old(self).utxos && final(self).by_policy_id == old(self).by_policy_id && final(self).dictionary == old(self).dictionary,
            r is Ok ==> final(self).held() == old(self).held().insert(utxo.pointer, Arc::new(utxo)),
    //@hint start
        let ghost s0 = *self;
    //@hint before let mut __it0
        proof { lemma_insert_main(s0.utxos, s0.by_policy_id@, self.by_policy_id@, utxo_details); }
    //@loop 0
        invariant
            s0.wf(), plain(*utxo_details), !s0.held().contains_key(utxo_details.pointer),
            self.utxos.wf(main_token()), self.utxos.token_id == main_token(), self.held() == s0.held().insert(utxo_details.pointer, utxo_details),
            __it0@.len() <= utxo_details.assets@.len(),
            forall|k: int| 0 <= k < __it0@.len() ==> *(#[trigger] __it0@[k]) == utxo_details.assets@[utxo_details.assets@.len() - __it0@.len() + k],
            inserting(self.by_policy_id@, s0.held(), utxo_details, utxo_details.assets@.len() - __it0@.len()),
        ensures __it0@.len() == 0,
        decreases __it0@.len(),
    //@hint loop-start 0
        let ghost by = self.by_policy_id@;
        let ghost n = utxo_details.assets@.len() - __it0@.len();
        proof { lemma_qtys_of(utxo_details); }
    //@hint loop-end 0
        proof { lemma_insert_step(by, self.by_policy_id@, s0.held(), utxo_details, n); }
    //@hint after-loop 0
        proof { lemma_insert_end(self.utxos, self.by_policy_id@, s0.held(), utxo_details); }
    //@end
}
/// the n-th token remove goes through: the assets in order, then the main token
pub open spec fn token_at(u: UTxODetails, n: int) -> TokenId { if 0 <= n < u.assets@.len() { u.assets@[n].fingerprint } else { main_token() } }
pub open spec fn gone_through(u: UTxODetails, t: TokenId, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] token_at(u, i) == t }
pub open spec fn removing(by: Map<TokenId, UTxOSet>, all: Held, p: UtxoPointer, n: int) -> bool {
    forall|t: TokenId| (#[trigger] by.contains_key(t) <==> some_holder(if gone_through(*all[p], t, n) { all.remove(p) } else { all }, t))
        && (by.contains_key(t) ==> by[t].wf(t) && by[t].token_id == t && part(by[t].set@, if gone_through(*all[p], t, n) { all.remove(p) } else { all }, t))
}
pub open spec fn taken_out(by: Map<TokenId, UTxOSet>, by2: Map<TokenId, UTxOSet>, p: UtxoPointer, t: TokenId) -> bool {
    if !by.contains_key(t) { by2 == by }
    else {
        (by[t].set@.remove(p) =~= Map::<UtxoPointer, Arc<UTxODetails>>::empty() ==> by2 =~= by.remove(t))
        && (!(by[t].set@.remove(p) =~= Map::<UtxoPointer, Arc<UTxODetails>>::empty()) ==> by2 == by.insert(t, by2[t]) && by2[t].wf(t) && by2[t].token_id == t && by2[t].set@ == by[t].set@.remove(p))
    }
}
pub proof fn lemma_remove_start(utxos: UTxOSet, by: Map<TokenId, UTxOSet>, p: UtxoPointer)
    requires wf_parts(utxos, by), utxos.set@.contains_key(p)
    ensures removing(by, utxos.set@, p, 0)
{
    assert forall|t: TokenId| (#[trigger] by.contains_key(t) <==> some_holder(utxos.set@, t)) && !gone_through(*utxos.set@[p], t, 0) by {}
}
pub proof fn lemma_remove_step(by: Map<TokenId, UTxOSet>, by2: Map<TokenId, UTxOSet>, all: Held, p: UtxoPointer, n: int)
    requires removing(by, all, p, n), all.contains_key(p), n >= 0, taken_out(by, by2, p, token_at(*all[p], n))
    ensures removing(by2, all, p, n + 1)
{
    let f = token_at(utxo_at(all, p), n);
    let new = all.remove(p);
    assert forall|t: TokenId| (#[trigger] by2.contains_key(t) <==> some_holder(if gone_through(*all[p], t, n + 1) { new } else { all }, t))
        && (by2.contains_key(t) ==> by2[t].wf(t) && by2[t].token_id == t && part(by2[t].set@, if gone_through(*all[p], t, n + 1) { new } else { all }, t)) by {
        assert(by.contains_key(t) <==> some_holder(if gone_through(*all[p], t, n) { new } else { all }, t));
        assert(gone_through(*all[p], t, n + 1) <==> gone_through(*all[p], t, n) || t == f);
        if t == f {
            if some_holder(new, t) {
                let x = choose|x: UtxoPointer| #[trigger] new.contains_key(x) && has(*new[x], t);
                assert(all.contains_key(x));
                assert(by.contains_key(t));
                assert(by[t].set@.contains_key(x));
                assert(by[t].set@.remove(p).contains_key(x));
            }
            if by.contains_key(t) {
                let m = by[t].set@.remove(p);
                assert(part(m, new, t));
                if !(m =~= Map::<UtxoPointer, Arc<UTxODetails>>::empty()) {
                    let x = choose|x: UtxoPointer| m.contains_key(x);
                    assert(m.contains_key(x));
                    assert(new.contains_key(x) && has(*new[x], t));
                }
            }
        }
    }
}
pub proof fn lemma_remove_end(utxos: UTxOSet, by: Map<TokenId, UTxOSet>, all: Held, p: UtxoPointer)
    requires
        removing(by, all, p, all[p].assets@.len() as int + 1), all.contains_key(p),
        utxos.wf(main_token()), utxos.token_id == main_token(), utxos.set@ == all.remove(p),
    ensures wf_parts(utxos, by)
{
    let n = all[p].assets@.len() as int + 1;
    let new = utxos.set@;
    assert forall|t: TokenId| (#[trigger] by.contains_key(t) <==> some_holder(new, t)) && (by.contains_key(t) ==> by[t].wf(t) && by[t].token_id == t && part(by[t].set@, new, t)) by {
        assert(token_at(*all[p], n - 1) == main_token());
        if has(utxo_at(all, p), t) && t != main_token() {
            let i = choose|i: int| lists_asset(utxo_at(all, p), t, i);
            assert(token_at(*all[p], i) == t);
        }
        assert(has(*all[p], t) ==> gone_through(*all[p], t, n));
        if some_holder(all, t) && (has(utxo_at(all, p), t) == false) {
            let x = choose|x: UtxoPointer| #[trigger] all.contains_key(x) && has(*all[x], t);
            assert(new.contains_key(x));
        }
        if some_holder(new, t) {
            let x = choose|x: UtxoPointer| #[trigger] new.contains_key(x) && has(*new[x], t);
            assert(all.contains_key(x));
        }
    }
}
impl UTxOStoreMut {
    //@fn core/src/utxo_store.rs | impl UTxOStoreMut | remove
    //@use store
    //@desugar for.it entry.and_modify
    //@spec
        requires old(self).wf()
        ensures
            r is Ok <==> old(self).held().contains_key(*utxo),
            final(self).wf(),
            r is Ok ==> final(self).held() == old(self).held().remove(*utxo),
            r is Err ==> final(self).held() == old(self).held() && final(self).utxos.same(old(self).utxos) && final(self).by_policy_id == old(self).by_policy_id && final(self).dictionary == old(self).dictionary,
    //@hint start
        let ghost s0 = *self;
    //@hint before let mut __it0
        proof { lemma_remove_start(s0.utxos, s0.by_policy_id@, *utxo); }
    //@loop 0
        invariant
            s0.wf(), s0.held().contains_key(*utxo), value == s0.held()[*utxo],
            self.utxos.wf(main_token()), self.utxos.token_id == main_token(), self.held() == s0.held().remove(*utxo),
            __it0@.len() <= value.assets@.len() + 1,
            forall|k: int| 0 <= k < __it0@.len() ==> *(#[trigger] __it0@[k]) == token_at(*value, value.assets@.len() + 1 - __it0@.len() + k),
            removing(self.by_policy_id@, s0.held(), *utxo, value.assets@.len() + 1 - __it0@.len()),
        ensures __it0@.len() == 0,
        decreases __it0@.len(),
    //@hint loop-start 0
        let ghost by = self.by_policy_id@;
        let ghost n = value.assets@.len() + 1 - __it0@.len();
    //@hint loop-end 0
        proof { lemma_remove_step(by, self.by_policy_id@, s0.held(), *utxo, n); }
    //@hint after-loop 0
        proof { lemma_remove_end(self.utxos, self.by_policy_id@, s0.held(), *utxo); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStoreMut | insert_compat
    //@spec
        requires old(self).wf(), plain(utxo)
        ensures
            r is Err <==> old(self).held().contains_key(utxo.pointer),
            final(self).wf(),
            r is Err ==> final(self).held() == old(self).held() && final(self).utxos == old(self).utxos && final(self).by_policy_id == old(self).by_policy_id && final(self).dictionary == old(self).dictionary,
            r is Ok ==> final(self).held() == old(self).held().insert(utxo.pointer, Arc::new(utxo)),
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStoreMut | token_balance
    //@desugar opt.map
    //@spec
        requires self.wf()
        ensures token_total(r, self.held(), *token_id)
    //@hint start
        proof { lemma_parts(self.utxos, self.by_policy_id@); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStoreMut | balance
    //@spec
        requires self.wf()
        ensures r.val() == total(self.held(), main_token())
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStoreMut | freeze
    //@spec
        requires self.wf()
        ensures r.wf(), r.held() == self.held(), r.utxos.same(self.utxos), r.by_policy_id@ == self.by_policy_id@, r.dictionary@ == self.dictionary@
    //@end
}
/// the amount reported for a token: the exact sum while some UTxO holds it, none otherwise
pub open spec fn token_total(r: Option<Value<Regulated>>, m: Held, t: TokenId) -> bool {
    (r is Some <==> some_holder(m, t)) && (r matches Some(v) ==> v.val() == total_of(m, t))
}
/// the part of m that holds t
pub open spec fn holding(m: Held, t: TokenId) -> Held { m.restrict(m.dom().filter(|p: UtxoPointer| has(*m[p], t))) }
pub open spec fn total_of(m: Held, t: TokenId) -> real { total(holding(m, t), t) }
pub proof fn lemma_part(m: Held, all: Held, t: TokenId)
    requires part(m, all, t)
    ensures m == holding(all, t)
{ assert(m =~= holding(all, t)); }
pub proof fn lemma_parts(utxos: UTxOSet, by: Map<TokenId, UTxOSet>)
    requires wf_parts(utxos, by)
    ensures
        forall|t: TokenId| #[trigger] by.contains_key(t) ==> by[t].set@ == holding(utxos.set@, t) && by[t].wf(t) && by[t].token_id == t,
        forall|t: TokenId| #[trigger] by.contains_key(t) <==> some_holder(utxos.set@, t),
        forall|t: TokenId| !some_holder(utxos.set@, t) ==> #[trigger] holding(utxos.set@, t) == Map::<UtxoPointer, Arc<UTxODetails>>::empty(),
{
    assert forall|t: TokenId| #[trigger] by.contains_key(t) implies by[t].set@ == holding(utxos.set@, t) by { lemma_part(by[t].set@, utxos.set@, t); }
    assert forall|t: TokenId| !some_holder(utxos.set@, t) implies #[trigger] holding(utxos.set@, t) == Map::<UtxoPointer, Arc<UTxODetails>>::empty() by {
        assert(holding(utxos.set@, t) =~= Map::<UtxoPointer, Arc<UTxODetails>>::empty());
    }
}
impl UTxOStore {
    //@fn core/src/utxo_store.rs | impl UTxOStore | new
    //@spec
        ensures r.wf(), r.held() == Map::<UtxoPointer, Arc<UTxODetails>>::empty()
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | is_empty
    //@spec
        ensures r == (self.held() =~= Map::<UtxoPointer, Arc<UTxODetails>>::empty())
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | len
    //@spec
        ensures r == self.held().dom().len()
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | number_utxos_for_token
    //@use store
    //@desugar opt.map
    //@spec
        requires self.wf()
        ensures r == holding(self.held(), *token).dom().len()
    //@hint start
        proof { lemma_parts(self.utxos, self.by_policy_id@); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | contains
    //@spec
        ensures r == self.held().contains_key(*utxo)
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | contains_token
    //@use store
    //@spec
        requires self.wf()
        ensures r == (*token_id == main_token() || some_holder(self.held(), *token_id))
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | thaw
    //@spec
        requires self.wf()
        ensures r.wf(), r.held() == self.held(), r.utxos.same(self.utxos), r.by_policy_id@ == self.by_policy_id@, r.dictionary@ == self.dictionary@
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | get
    //@spec
        ensures match r { Some(u) => self.held().contains_key(*utxo) && *u == *self.held()[*utxo], None => !self.held().contains_key(*utxo) }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | iter
    //@sig imbl :: hashmap :: Iter < '_ , UtxoPointer , Arc < UTxODetails > > => It<(&UtxoPointer, &Arc<UTxODetails>)>
    //@spec
        ensures lists_entries(self.held(), r@)
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | iter_ordered_by_wmain
    //@sig impl Iterator < Item = & UTxODetails > => It<&UTxODetails>
    //@spec
        requires self.wf()
        ensures lists_by_amount(self.held(), main_token(), r@, true)
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | iter_token
    //@sig impl Iterator < Item = ( & UtxoPointer , & Arc < UTxODetails > ) > => It<(&UtxoPointer, &Arc<UTxODetails>)>
    //@use store
    //@spec
        requires self.wf()
        ensures lists_entries(holding(self.held(), *token_id), r@)
    //@hint start
        proof { lemma_parts(self.utxos, self.by_policy_id@); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | iter_token_ordered_by_value
    //@sig impl Iterator < Item = & UTxODetails > => It<&UTxODetails>
    //@use store
    //@spec
        requires self.wf()
        ensures lists_by_amount(holding(self.held(), *token_id), *token_id, r@, true)
    //@hint start
        proof { lemma_parts(self.utxos, self.by_policy_id@); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | iter_token_ordered_by_value_rev
    //@sig impl Iterator < Item = & UTxODetails > => It<&UTxODetails>
    //@use store
    //@spec
        requires self.wf()
        ensures lists_by_amount(holding(self.held(), *token_id), *token_id, r@, false)
    //@hint start
        proof { lemma_parts(self.utxos, self.by_policy_id@); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | get_balance_of
    //@desugar opt.map
    //@spec
        requires self.wf()
        ensures token_total(r, self.held(), *token)
    //@hint start
        proof { lemma_parts(self.utxos, self.by_policy_id@); }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | get_asset_ids
    //@spec
        ensures match r { Some(x) => self.dictionary@.contains_key(*token_id) && *x == self.dictionary@[*token_id], None => !self.dictionary@.contains_key(*token_id) }
    //@end
    //@fn core/src/utxo_store.rs | impl UTxOStore | by_token_id
    //@spec
        ensures match r { Some(s) => self.by_policy_id@.contains_key(*token) && *s == self.by_policy_id@[*token], None => !self.by_policy_id@.contains_key(*token) }
    //@end
}

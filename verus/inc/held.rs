// what is held, what of it is chosen, and what is left
/// nothing negative in a store, and it lists a UTxO's assets once each
pub open spec fn held_ok(m: Held) -> bool { forall|p: UtxoPointer| #[trigger] m.contains_key(p) ==> utxo_ok(*m[p]) }
pub open spec fn ptr(u: UTxODetails) -> UtxoPointer { u.pointer }
/// the chosen inputs are held, and each is chosen once
pub open spec fn picked(m: Held, c: Seq<UTxODetails>) -> bool {
    (forall|i: int| 0 <= i < c.len() ==> m.contains_key(ptr(#[trigger] c[i])) && *m[ptr(c[i])] == c[i])
    && forall|i: int, j: int| 0 <= i < j < c.len() ==> ptr(#[trigger] c[i]) != ptr(#[trigger] c[j])
}
/// rest is what is left of m once c is taken
pub open spec fn left(rest: Held, m: Held, c: Seq<UTxODetails>) -> bool {
    forall|p: UtxoPointer| (#[trigger] rest.contains_key(p) <==> m.contains_key(p) && !(exists|i: int| 0 <= i < c.len() && ptr(#[trigger] c[i]) == p)) && (rest.contains_key(p) ==> rest[p] == m[p])
}
pub proof fn lemma_pick(m: Held, rest: Held, c: Seq<UTxODetails>, u: UTxODetails)
    requires picked(m, c), left(rest, m, c), rest.contains_key(ptr(u)), *rest[ptr(u)] == u
    ensures picked(m, c.push(u)), left(rest.remove(ptr(u)), m, c.push(u))
{
    let d = c.push(u);
    assert forall|i: int| 0 <= i < d.len() implies m.contains_key(ptr(#[trigger] d[i])) && *m[ptr(d[i])] == d[i] by { if i < c.len() { assert(d[i] == c[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies ptr(#[trigger] d[i]) != ptr(#[trigger] d[j]) by {
        assert(d[i] == c[i]);
        if j < c.len() { assert(d[j] == c[j]); }
    }
    let n = rest.remove(ptr(u));
    assert forall|p: UtxoPointer| (#[trigger] n.contains_key(p) <==> m.contains_key(p) && !(exists|i: int| 0 <= i < d.len() && ptr(#[trigger] d[i]) == p)) && (n.contains_key(p) ==> n[p] == m[p]) by {
        assert(rest.contains_key(p) <==> m.contains_key(p) && !(exists|i: int| 0 <= i < c.len() && ptr(#[trigger] c[i]) == p));
        if exists|i: int| 0 <= i < c.len() && ptr(#[trigger] c[i]) == p {
            let i = choose|i: int| 0 <= i < c.len() && ptr(#[trigger] c[i]) == p;
            assert(d[i] == c[i]);
        }
        if exists|i: int| 0 <= i < d.len() && ptr(#[trigger] d[i]) == p {
            let i = choose|i: int| 0 <= i < d.len() && ptr(#[trigger] d[i]) == p;
            if i < c.len() { assert(d[i] == c[i]); } else { assert(p == ptr(u)); }
        }
        assert(ptr(d[c.len() as int]) == ptr(u));
    }
}
/// std: Vec::extend with the elements of another
pub trait VecExtend<T> { fn extend_by(&mut self, o: Vec<T>); }
impl<T> VecExtend<T> for Vec<T> {
    #[verifier::external_body] fn extend_by(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
/// std: Vec::into_iter, Iterator::collect
#[verifier::external_body] pub fn into_it<T>(v: Vec<T>) -> (r: It<T>) ensures r@ == v@ { unimplemented!() }
pub trait ItCollect<T> { fn collect_vec(self) -> Vec<T>; }
impl<T> ItCollect<T> for It<T> {
    #[verifier::external_body] fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
/// std: Option::cloned
pub trait OptCloned<T> { fn cloned(self) -> Option<T>; }
impl<'a> OptCloned<UTxODetails> for Option<&'a UTxODetails> {
    fn cloned(self) -> (r: Option<UTxODetails>) ensures r == match self { Some(u) => Some(*u), None => None } { match self { Some(u) => Some(u.clone()), None => None } }
}
pub proof fn lemma_no_main(u: UTxODetails)
    requires plain(u)
    ensures listed(refs(u.assets@), main_token()) == 0real
{ lemma_absent(refs(u.assets@), main_token()); }
pub proof fn lemma_absent(s: Seq<&TransactionAsset>, t: TokenId)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fingerprint != t
    ensures listed(s, t) == 0real
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]).fingerprint != t by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_absent(s.drop_first(), t);
    }
}
pub open spec fn taken_from(s: Seq<(&UtxoPointer, &Arc<UTxODetails>)>, v: Seq<UTxODetails>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] v[i] == **s[i].1 }
pub proof fn lemma_listing(m: Held)
    requires plain_held(m)
    ensures forall|s: Seq<(&UtxoPointer, &Arc<UTxODetails>)>, v: Seq<UTxODetails>| #![trigger lists_entries(m, s), holds_list(m, v)] lists_entries(m, s) && taken_from(s, v) ==> holds_list(m, v)
{
    assert forall|s: Seq<(&UtxoPointer, &Arc<UTxODetails>)>, v: Seq<UTxODetails>| #![trigger lists_entries(m, s), holds_list(m, v)] lists_entries(m, s) && taken_from(s, v) implies holds_list(m, v) by {
        assert forall|i: int| 0 <= i < v.len() implies m.contains_key(ptr(#[trigger] v[i])) && *m[ptr(v[i])] == v[i] && ptr(v[i]) == *s[i].0 by { assert(m.contains_key(*s[i].0)); }
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies ptr(#[trigger] v[i]) != ptr(#[trigger] v[j]) by { assert(*s[i].0 != *s[j].0); }
        assert forall|p: UtxoPointer| #[trigger] m.contains_key(p) implies exists|i: int| 0 <= i < v.len() && ptr(#[trigger] v[i]) == p by {
            let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == p;
            assert(ptr(v[i]) == p);
        }
    }
}
/// m holds exactly the UTxOs listed, which have different pointers
pub open spec fn holds_list(m: Held, s: Seq<UTxODetails>) -> bool {
    &&& picked(m, s)
    &&& forall|p: UtxoPointer| #[trigger] m.contains_key(p) ==> exists|i: int| 0 <= i < s.len() && ptr(#[trigger] s[i]) == p
}
pub open spec fn made_of(ok: bool, s: Seq<UTxODetails>) -> bool {
    ok == forall|i: int, j: int| 0 <= i < j < s.len() ==> ptr(#[trigger] s[i]) != ptr(#[trigger] s[j])
}
pub proof fn lemma_step(m: Held, s: Seq<UTxODetails>, n: int)
    requires 0 <= n < s.len(), holds_list(m, s.take(n))
    ensures
        !m.contains_key(ptr(s[n])) ==> holds_list(m.insert(ptr(s[n]), Arc::new(s[n])), s.take(n + 1)),
        m.contains_key(ptr(s[n])) ==> !made_of(true, s),
        s.skip(n).len() > 0, s.skip(n)[0] == s[n], s.skip(n).drop_first() == s.skip(n + 1),
{
    assert(s.skip(n).drop_first() =~= s.skip(n + 1));
    let a = s.take(n);
    let b = s.take(n + 1);
    let k = m.insert(ptr(s[n]), Arc::new(s[n]));
    if !m.contains_key(ptr(s[n])) {
        assert forall|i: int| 0 <= i < b.len() implies k.contains_key(ptr(#[trigger] b[i])) && *k[ptr(b[i])] == b[i] by { if i < n { assert(b[i] == a[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies ptr(#[trigger] b[i]) != ptr(#[trigger] b[j]) by { assert(b[i] == a[i]); if j < n { assert(b[j] == a[j]); } }
        assert forall|p: UtxoPointer| #[trigger] k.contains_key(p) implies exists|i: int| 0 <= i < b.len() && ptr(#[trigger] b[i]) == p by {
            if p == ptr(s[n]) { assert(ptr(b[n]) == p); }
            else { let i = choose|i: int| 0 <= i < a.len() && ptr(#[trigger] a[i]) == p; assert(b[i] == a[i]); }
        }
    } else {
        let i = choose|i: int| 0 <= i < a.len() && ptr(#[trigger] a[i]) == ptr(s[n]);
        assert(ptr(s[i]) == ptr(s[n]));
    }
}

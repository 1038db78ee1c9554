//@item utxo-selection/src/algorithms/random_improve.rs | struct | RandomImprove
//@rewrite available_inputs : => pub available_inputs:
//@rewrite , available_indices : => , pub available_indices:
//@end
// ---- sums over indices ----
pub open spec fn sum_over<T>(s: Seq<T>, f: spec_fn(T) -> real) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { sum_over(s.drop_last(), f) + f(s.last()) } }
pub proof fn lemma_sum_push<T>(s: Seq<T>, x: T, f: spec_fn(T) -> real) ensures sum_over(s.push(x), f) == sum_over(s, f) + f(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_sum_at<T>(s: Seq<T>, k: int, f: spec_fn(T) -> real)
    requires 0 <= k < s.len()
    ensures sum_over(s, f) == f(s[k]) + sum_over(s.remove(k), f)
    decreases s.len()
{
    if k == s.len() - 1 { assert(s.remove(k) =~= s.drop_last()); }
    else {
        lemma_sum_at(s.drop_last(), k, f);
        assert(s.remove(k).drop_last() =~= s.drop_last().remove(k));
        assert(s.remove(k).last() == s.last());
    }
}
pub proof fn lemma_sum_update<T>(s: Seq<T>, k: int, x: T, f: spec_fn(T) -> real)
    requires 0 <= k < s.len()
    ensures sum_over(s.update(k, x), f) == sum_over(s, f) - f(s[k]) + f(x)
{
    lemma_sum_at(s, k, f);
    lemma_sum_at(s.update(k, x), k, f);
    assert(s.update(k, x).remove(k) =~= s.remove(k));
}
/// the same indices in another order
pub proof fn lemma_sum_same<T>(s: Seq<T>, t: Seq<T>, f: spec_fn(T) -> real)
    requires s.no_duplicates(), t.no_duplicates(), forall|x: T| s.contains(x) <==> t.contains(x)
    ensures sum_over(s, f) == sum_over(t, f)
    decreases s.len()
{
    if s.len() == 0 { if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); } }
    else {
        let x = s.last();
        assert(s.contains(x));
        let k = t.index_of(x);
        lemma_sum_at(t, k, f);
        let (a, b) = (s.drop_last(), t.remove(k));
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by {
            let (i2, j2) = (if i < k { i } else { i + 1 }, if j < k { j } else { j + 1 });
            assert(b[i] == t[i2] && b[j] == t[j2]);
        }
        assert forall|y: T| a.contains(y) <==> b.contains(y) by {
            if a.contains(y) {
                let i = a.index_of(y);
                assert(s[i] == y); assert(s.contains(y)); assert(t.contains(y));
                let j = t.index_of(y);
                assert(s[s.len() - 1] == x); assert(y != x);
                assert(j != k);
                assert(b[if j < k { j } else { j - 1 }] == y);
            }
            if b.contains(y) {
                let j = b.index_of(y);
                let j2 = if j < k { j } else { j + 1 };
                assert(t[j2] == y); assert(t.contains(y)); assert(s.contains(y));
                assert(j2 != k); assert(y != x);
                let i = s.index_of(y);
                assert(i != s.len() - 1);
                assert(a[i] == y);
            }
        }
        lemma_sum_same(a, b, f);
    }
}
pub open spec fn items(a: Seq<UTxODetails>, c: Seq<usize>) -> Seq<UTxODetails> { Seq::new(c.len(), |i: int| a[c[i] as int]) }
pub proof fn lemma_items_push(a: Seq<UTxODetails>, c: Seq<usize>, x: usize)
    ensures items(a, c.push(x)) == items(a, c).push(a[x as int])
{ assert(items(a, c.push(x)) =~= items(a, c).push(a[x as int])); }
pub proof fn lemma_items_values(a: Seq<UTxODetails>, c: Seq<usize>)
    ensures values_in(refs(items(a, c))) == sum_over(c, |x: usize| a[x as int].value.val())
    decreases c.len()
{
    if c.len() == 0 { assert(refs(items(a, c)) =~= Seq::<&UTxODetails>::empty()); }
    else {
        lemma_items_values(a, c.drop_last());
        assert(c.drop_last().push(c.last()) =~= c);
        lemma_items_push(a, c.drop_last(), c.last());
        lemma_values_push(items(a, c.drop_last()), a[c.last() as int]);
    }
}
pub proof fn lemma_items_assets(a: Seq<UTxODetails>, c: Seq<usize>, t: TokenId)
    ensures assets_in(refs(items(a, c)), t) == sum_over(c, |x: usize| listed(refs(a[x as int].assets@), t))
    decreases c.len()
{
    if c.len() == 0 { assert(refs(items(a, c)) =~= Seq::<&UTxODetails>::empty()); }
    else {
        lemma_items_assets(a, c.drop_last(), t);
        assert(c.drop_last().push(c.last()) =~= c);
        lemma_items_push(a, c.drop_last(), c.last());
        lemma_assets_push(items(a, c.drop_last()), a[c.last() as int], t);
    }
}
// ---- amounts an index, an output, stands for ----
pub open spec fn or0(o: Option<real>) -> real { match o { Some(x) => x, None => 0real } }
pub open spec fn worth(a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>) -> spec_fn(usize) -> real { |x: usize| or0(fi(a[x as int])) }
/// what the outputs ask for
pub open spec fn asked(fo: spec_fn(UTxOBuilder) -> Option<real>) -> spec_fn(UTxOBuilder) -> real { |o: UTxOBuilder| or0(fo(o)) }
pub open spec fn wanted(s: Seq<UTxOBuilder>, fo: spec_fn(UTxOBuilder) -> Option<real>) -> real { sum_over(s, asked(fo)) }
pub open spec fn relevant<'a>(a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>) -> spec_fn(&'a usize) -> bool { |i: &'a usize| fi(a[*i as int]) is Some }
pub open spec fn worth_of<'a>(a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>) -> spec_fn(&'a usize) -> Option<real> { |i: &'a usize| fi(a[*i as int]) }
pub open spec fn asking<'a>(fo: spec_fn(UTxOBuilder) -> Option<real>) -> spec_fn(&'a UTxOBuilder) -> bool { |o: &'a UTxOBuilder| fo(*o) is Some }
/// the indices kept are available ones, once each, that hold the token
pub open spec fn candidates(m: Set<usize>, a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>, r: Seq<usize>) -> bool {
    r.no_duplicates() && forall|i: int| 0 <= i < r.len() ==> m.contains(#[trigger] r[i]) && fi(a[r[i] as int]) is Some
}
pub proof fn lemma_keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> (idx: Seq<int>)
    ensures
        idx.len() == keep(s, p).len(),
        forall|i: int| 0 <= i < idx.len() ==> 0 <= #[trigger] idx[i] < s.len() && p(s[idx[i]]) && keep(s, p)[i] == s[idx[i]],
        forall|i: int, j: int| 0 <= i < j < idx.len() ==> #[trigger] idx[i] < #[trigger] idx[j],
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let idx = lemma_keep(s.drop_last(), p);
        if p(s.last()) { idx.push(s.len() - 1) } else { idx }
    }
}
pub proof fn lemma_candidates(m: Set<usize>, a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>)
    ensures forall|s: Seq<&usize>, r: Seq<usize>| lists_refs(m, s) && #[trigger] same_elements(r, keep(s, relevant(a, fi))) ==> candidates(m, a, fi, r)
{
    assert forall|s: Seq<&usize>, r: Seq<usize>| lists_refs(m, s) && #[trigger] same_elements(r, keep(s, relevant(a, fi))) implies candidates(m, a, fi, r) by {
        let idx = lemma_keep(s, relevant(a, fi));
        assert forall|i: int| 0 <= i < r.len() implies m.contains(#[trigger] r[i]) && fi(a[r[i] as int]) is Some by { assert(m.contains(*s[idx[i]])); }
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
            let (i2, j2) = if i < j { (i, j) } else { (j, i) };
            assert(idx[i2] < idx[j2]);
            assert(*s[idx[i2]] != *s[idx[j2]]);
        }
    }
}
pub proof fn lemma_asked(s: Seq<UTxOBuilder>, r: Seq<UTxOBuilder>, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires same_elements(r, keep(refs(s), asking(fo)))
    ensures wanted(r, fo) == wanted(s, fo), (forall|i: int| 0 <= i < r.len() ==> fo(#[trigger] r[i]) is Some), outs_once(s) ==> outs_once(r)
    decreases s.len()
{
    if s.len() > 0 {
        assert(refs(s).drop_last() =~= refs(s.drop_last()));
        if fo(s.last()) is Some {
            lemma_asked(s.drop_last(), r.drop_last(), fo);
            assert(r.last() == s.last());
            assert forall|i: int| 0 <= i < r.len() implies fo(#[trigger] r[i]) is Some && (outs_once(s) ==> once(r[i].assets@)) by { if outs_once(s) { assert forall|k: int| 0 <= k < s.drop_last().len() implies once((#[trigger] s.drop_last()[k]).assets@) by { assert(once(s[k].assets@)); } assert(once(s[s.len() - 1].assets@)); } if i < r.len() - 1 { assert(r.drop_last()[i] == r[i]); } }
        } else { lemma_asked(s.drop_last(), r, fo); if outs_once(s) { assert forall|i: int| 0 <= i < s.drop_last().len() implies once((#[trigger] s.drop_last()[i]).assets@) by { assert(once(s[i].assets@)); } } }
    }
}
/// the order of the outputs does not matter
pub proof fn lemma_rearranged(s: Seq<UTxOBuilder>, r: Seq<UTxOBuilder>, perm: Seq<int>, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires rearranged(s, r, perm)
    ensures wanted(r, fo) == wanted(s, fo), (forall|i: int| 0 <= i < s.len() ==> fo(#[trigger] s[i]) is Some) ==> (forall|i: int| 0 <= i < r.len() ==> fo(#[trigger] r[i]) is Some), outs_once(s) ==> outs_once(r)
{
    let id = Seq::new(s.len(), |i: int| i);
    let f = |i: int| or0(fo(s[i]));
    assert forall|x: int| id.contains(x) <==> perm.contains(x) by {
        if id.contains(x) { }
        if perm.contains(x) { let k = perm.index_of(x); assert(0 <= perm[k] < s.len()); assert(id[x] == x); }
    }
    lemma_sum_same(id, perm, f);
    lemma_through(s, s, id, f, fo);
    lemma_through(s, r, perm, f, fo);
    if forall|i: int| 0 <= i < s.len() ==> fo(#[trigger] s[i]) is Some {
        assert forall|i: int| 0 <= i < r.len() implies fo(#[trigger] r[i]) is Some by { assert(r[i] == s[perm[i]]); assert(fo(s[perm[i]]) is Some); }
    }
    if outs_once(s) { assert forall|i: int| 0 <= i < r.len() implies once((#[trigger] r[i]).assets@) by { assert(r[i] == s[perm[i]]); assert(once(s[perm[i]].assets@)); } }
}
pub proof fn lemma_through(s: Seq<UTxOBuilder>, r: Seq<UTxOBuilder>, perm: Seq<int>, f: spec_fn(int) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires r.len() == perm.len(), f == (|i: int| or0(fo(s[i]))), forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] perm[i] < s.len() && r[i] == s[perm[i]]
    ensures wanted(r, fo) == sum_over(perm, f)
    decreases r.len()
{
    if r.len() > 0 {
        assert forall|i: int| 0 <= i < r.drop_last().len() implies 0 <= #[trigger] perm.drop_last()[i] < s.len() && r.drop_last()[i] == s[perm.drop_last()[i]] by { assert(perm.drop_last()[i] == perm[i]); }
        lemma_through(s, r.drop_last(), perm.drop_last(), f, fo);
        assert(0 <= perm[r.len() - 1] < s.len());
    }
}
/// the amounts of the indices add up
pub proof fn lemma_somes(a: Seq<UTxODetails>, s: Seq<usize>, fi: spec_fn(UTxODetails) -> Option<real>)
    ensures sum_over(somes(refs(s), worth_of(a, fi)), |x: real| x) == sum_over(s, worth(a, fi))
    decreases s.len()
{
    if s.len() > 0 {
        assert(refs(s).drop_last() =~= refs(s.drop_last()));
        lemma_somes(a, s.drop_last(), fi);
        let t = somes(refs(s.drop_last()), worth_of(a, fi));
        match fi(a[s.last() as int]) {
            Some(x) => { lemma_sum_push(t, x, |x: real| x); }
            None => {}
        }
    }
}
// ---- what has been taken ----
/// c was taken out of the indices `from`, leaving `to`
#[verifier::opaque] pub open spec fn taken(from: Set<usize>, to: Set<usize>, c: Seq<usize>) -> bool {
    c.no_duplicates() && (forall|x: usize| c.contains(x) ==> #[trigger] from.contains(x)) && forall|x: usize| #[trigger] to.contains(x) <==> from.contains(x) && !c.contains(x)
}
/// the estimator was told of the inputs one by one, and named fees of f in all
pub open spec fn grown<E: TransactionFeeEstimator>(e0: E, e1: E, chosen: Seq<UTxODetails>, f: real) -> bool {
    f >= 0real && exists|es: Seq<E>| #![trigger told_all(es, chosen)] told_all(es, chosen) && es[0] == e0 && es.last() == e1 && f == fees(es, chosen)
}
pub proof fn lemma_grown_none<E: TransactionFeeEstimator>(e: E) ensures grown(e, e, Seq::empty(), 0real) { let es = seq![e]; assert(told_all(es, Seq::<UTxODetails>::empty())); assert(fees(es, Seq::<UTxODetails>::empty()) == 0real); }
pub proof fn lemma_grown_one<E: TransactionFeeEstimator>(e0: E, e1: E, e2: E, chosen: Seq<UTxODetails>, f: real, u: UTxODetails)
    requires grown(e0, e1, chosen, f), e1.told(u, &e2), e1.fee_of(u) >= 0real
    ensures grown(e0, e2, chosen.push(u), f + e1.fee_of(u))
{
    let es = choose|es: Seq<E>| #![trigger told_all(es, chosen)] told_all(es, chosen) && es[0] == e0 && es.last() == e1 && f == fees(es, chosen);
    let fs = es.push(e2);
    let c = chosen.push(u);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] fs[i]).told(c[i], &fs[i + 1]) by {
        if i < chosen.len() { assert(fs[i] == es[i]); assert(fs[i + 1] == es[i + 1]); assert(c[i] == chosen[i]); }
    }
    assert(told_all(fs, c));
    assert(fs.drop_last() =~= es);
    assert(c.drop_last() =~= chosen);
}
pub proof fn lemma_grown_more<E: TransactionFeeEstimator>(e0: E, e1: E, e2: E, c: Seq<UTxODetails>, d: Seq<UTxODetails>, fee: real, f: real)
    requires estimated(e0, e1, c, fee), grown(e1, e2, d, f)
    ensures estimated(e0, e2, c + d, fee + f)
    decreases d.len()
{
    let es = choose|es: Seq<E>| #![trigger told_all(es, d)] told_all(es, d) && es[0] == e1 && es.last() == e2 && f == fees(es, d);
    lemma_append(e0, e1, c, fee, es, d);
}
pub proof fn lemma_append<E: TransactionFeeEstimator>(e0: E, e1: E, c: Seq<UTxODetails>, fee: real, es: Seq<E>, d: Seq<UTxODetails>)
    requires estimated(e0, e1, c, fee), told_all(es, d), es[0] == e1
    ensures estimated(e0, es.last(), c + d, fee + fees(es, d))
    decreases d.len()
{
    hide(estimated);
    assert(es.len() == d.len() + 1);
    if d.len() == 0 { assert(c + d =~= c); assert(fees(es, d) == 0real); }
    else {
        assert(fees(es, d) == fees(es.drop_last(), d.drop_last()) + es[d.len() - 1].fee_of(d.last()));
        let (fs, g) = (es.drop_last(), d.drop_last());
        assert forall|i: int| 0 <= i < g.len() implies (#[trigger] fs[i]).told(g[i], &fs[i + 1]) by { assert(es[i].told(d[i], &es[i + 1])); }
        lemma_append(e0, e1, c, fee, fs, g);
        assert(es[d.len() - 1].told(d[d.len() - 1], &es[d.len() as int]));
        lemma_estimated_one(e0, fs.last(), es.last(), c + g, fee + fees(fs, g), d.last());
        assert((c + g).push(d.last()) =~= c + d);
    }
}
// ---- which index serves which output ----
pub open spec fn lists_of(l: Seq<Vec<usize>>) -> Seq<Seq<usize>> { Seq::new(l.len(), |p: int| l[p]@) }
pub open spec fn in_lists(l: Seq<Seq<usize>>, x: usize) -> bool { exists|p: int, i: int| 0 <= p < l.len() && 0 <= i < l[p].len() && #[trigger] l[p][i] == x }
/// the indices in the lists were taken out of `from`, leaving `to`, which holds the spare ones
#[verifier::opaque] pub open spec fn placed(from: Set<usize>, to: Set<usize>, l: Seq<Seq<usize>>, spare: Seq<usize>) -> bool {
    &&& forall|p: int, i: int| 0 <= p < l.len() && 0 <= i < l[p].len() ==> from.contains(#[trigger] l[p][i])
    &&& forall|p: int, i: int, q: int, j: int| 0 <= p < l.len() && 0 <= i < l[p].len() && 0 <= q < l.len() && 0 <= j < l[q].len() && (p != q || i != j) ==> #[trigger] l[p][i] != #[trigger] l[q][j]
    &&& forall|x: usize| #[trigger] to.contains(x) <==> from.contains(x) && !in_lists(l, x)
    &&& spare.no_duplicates() && forall|i: int| 0 <= i < spare.len() ==> to.contains(#[trigger] spare[i])
}
/// all of them hold the token
pub open spec fn holders(a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>, spare: Seq<usize>) -> bool { forall|i: int| 0 <= i < spare.len() ==> #[trigger] spare[i] < a.len() && fi(a[spare[i] as int]) is Some }
pub open spec fn swap_removed(s: Seq<usize>, k: int) -> Seq<usize> { if k == s.len() - 1 { s.drop_last() } else { s.update(k, s.last()).drop_last() } }
pub proof fn lemma_place(from: Set<usize>, to: Set<usize>, l: Seq<Seq<usize>>, spare: Seq<usize>, p: int, k: int)
    requires placed(from, to, l, spare), 0 <= p < l.len(), 0 <= k < spare.len()
    ensures placed(from, to.remove(spare[k]), l.update(p, l[p].push(spare[k])), swap_removed(spare, k)), from.contains(spare[k])
{ reveal(placed);
    let x = spare[k];
    let l2 = l.update(p, l[p].push(x));
    let n = l[p].len() as int;
    let s2 = swap_removed(spare, k);
    assert(to.contains(x));
    assert(!in_lists(l, x));
    assert forall|q: int, i: int| 0 <= q < l2.len() && 0 <= i < l2[q].len() implies from.contains(#[trigger] l2[q][i]) && (l2[q][i] == x <==> q == p && i == n) by {
        if !(q == p && i == n) { assert(l2[q][i] == l[q][i]); }
    }
    assert forall|q: int, i: int, u: int, j: int| 0 <= q < l2.len() && 0 <= i < l2[q].len() && 0 <= u < l2.len() && 0 <= j < l2[u].len() && (q != u || i != j) implies #[trigger] l2[q][i] != #[trigger] l2[u][j] by {
        if !(q == p && i == n) && !(u == p && j == n) { assert(l2[q][i] == l[q][i]); assert(l2[u][j] == l[u][j]); }
    }
    let t2 = to.remove(x);
    assert forall|y: usize| #[trigger] t2.contains(y) <==> from.contains(y) && !in_lists(l2, y) by {
        if in_lists(l, y) { let (q, i) = choose|q: int, i: int| 0 <= q < l.len() && 0 <= i < l[q].len() && #[trigger] l[q][i] == y; assert(l2[q][i] == y); }
        if in_lists(l2, y) && y != x { let (q, i) = choose|q: int, i: int| 0 <= q < l2.len() && 0 <= i < l2[q].len() && #[trigger] l2[q][i] == y; assert(l[q][i] == y); }
        assert(l2[p][n] == x);
    }
    assert forall|i: int| 0 <= i < s2.len() implies t2.contains(#[trigger] s2[i]) by { let i2 = if i == k { spare.len() - 1 } else { i }; assert(s2[i] == spare[i2]); assert(spare[i2] != spare[k]); }
    assert forall|i: int, j: int| 0 <= i < s2.len() && 0 <= j < s2.len() && i != j implies s2[i] != s2[j] by {
        let (i2, j2) = (if i == k { spare.len() - 1 } else { i }, if j == k { spare.len() - 1 } else { j });
        assert(s2[i] == spare[i2] && s2[j] == spare[j2]);
    }
}
pub proof fn lemma_exchange(from: Set<usize>, to: Set<usize>, l: Seq<Seq<usize>>, spare: Seq<usize>, p: int, i0: int, k: int)
    requires placed(from, to, l, spare), 0 <= p < l.len(), 0 <= i0 < l[p].len(), 0 <= k < spare.len()
    ensures placed(from, to.insert(l[p][i0]).remove(spare[k]), l.update(p, l[p].update(i0, spare[k])), spare.update(k, l[p][i0])), from.contains(spare[k]), l[p][i0] != spare[k]
{ reveal(placed);
    let (x, y) = (l[p][i0], spare[k]);
    let l2 = l.update(p, l[p].update(i0, y));
    let s2 = spare.update(k, x);
    let t2 = to.insert(x).remove(y);
    assert(to.contains(y)); assert(!in_lists(l, y)); assert(in_lists(l, x)); assert(x != y);
    assert forall|q: int, i: int| 0 <= q < l2.len() && 0 <= i < l2[q].len() implies from.contains(#[trigger] l2[q][i]) && (l2[q][i] == y <==> q == p && i == i0) && l2[q][i] != x by {
        if !(q == p && i == i0) { assert(l2[q][i] == l[q][i]); }
    }
    assert forall|q: int, i: int, u: int, j: int| 0 <= q < l2.len() && 0 <= i < l2[q].len() && 0 <= u < l2.len() && 0 <= j < l2[u].len() && (q != u || i != j) implies #[trigger] l2[q][i] != #[trigger] l2[u][j] by {
        if !(q == p && i == i0) && !(u == p && j == i0) { assert(l2[q][i] == l[q][i]); assert(l2[u][j] == l[u][j]); }
    }
    assert forall|z: usize| #[trigger] t2.contains(z) <==> from.contains(z) && !in_lists(l2, z) by {
        if z != x && in_lists(l, z) { let (q, i) = choose|q: int, i: int| 0 <= q < l.len() && 0 <= i < l[q].len() && #[trigger] l[q][i] == z; assert(l2[q][i] == z); }
        if in_lists(l2, z) && z != y { let (q, i) = choose|q: int, i: int| 0 <= q < l2.len() && 0 <= i < l2[q].len() && #[trigger] l2[q][i] == z; assert(l[q][i] == z); }
        assert(l2[p][i0] == y);
    }
    assert forall|i: int| 0 <= i < s2.len() implies t2.contains(#[trigger] s2[i]) by { if i != k { assert(spare[i] != spare[k]); assert(to.contains(spare[i])); } }
    assert forall|i: int, j: int| 0 <= i < s2.len() && 0 <= j < s2.len() && i != j implies s2[i] != s2[j] by { assert(to.contains(spare[i]) && to.contains(spare[j])); assert(!to.contains(x)); }
}
/// the lists one after the other
pub open spec fn flatten(l: Seq<Seq<usize>>) -> Seq<usize>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { flatten(l.drop_last()) + l.last() } }
pub proof fn lemma_flat(l: Seq<Seq<usize>>)
    requires forall|p: int, i: int, q: int, j: int| 0 <= p < l.len() && 0 <= i < l[p].len() && 0 <= q < l.len() && 0 <= j < l[q].len() && (p != q || i != j) ==> #[trigger] l[p][i] != #[trigger] l[q][j]
    ensures flatten(l).no_duplicates(), forall|x: usize| #[trigger] flatten(l).contains(x) <==> in_lists(l, x)
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        let (a, b) = (flatten(d), l.last());
        assert forall|p: int, i: int, q: int, j: int| 0 <= p < d.len() && 0 <= i < d[p].len() && 0 <= q < d.len() && 0 <= j < d[q].len() && (p != q || i != j) implies #[trigger] d[p][i] != #[trigger] d[q][j] by { assert(d[p][i] == l[p][i] && d[q][j] == l[q][j]); }
        lemma_flat(d);
        assert forall|x: usize| #[trigger] flatten(l).contains(x) <==> in_lists(l, x) by {
            if flatten(l).contains(x) {
                let k = flatten(l).index_of(x);
                if k < a.len() { assert(a[k] == x); assert(a.contains(x)); let (p, i) = choose|p: int, i: int| 0 <= p < d.len() && 0 <= i < d[p].len() && #[trigger] d[p][i] == x; assert(l[p][i] == x); }
                else { assert(b[k - a.len()] == x); assert(l[l.len() - 1][k - a.len()] == x); }
            }
            if in_lists(l, x) {
                let (p, i) = choose|p: int, i: int| 0 <= p < l.len() && 0 <= i < l[p].len() && #[trigger] l[p][i] == x;
                if p < d.len() { assert(d[p][i] == x); assert(in_lists(d, x)); assert(a.contains(x)); let k = a.index_of(x); assert(flatten(l)[k] == x); }
                else { assert(flatten(l)[a.len() + i] == x); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < flatten(l).len() && 0 <= j < flatten(l).len() && i != j implies flatten(l)[i] != flatten(l)[j] by {
            let n = a.len() as int;
            let (i2, j2) = if i < j { (i, j) } else { (j, i) };
            if j2 < n { assert(a[i2] != a[j2]); }
            else if i2 >= n { assert(l[l.len() - 1][i2 - n] != l[l.len() - 1][j2 - n]); }
            else {
                assert(a.contains(a[i2]));
                let (p, q) = choose|p: int, q: int| 0 <= p < d.len() && 0 <= q < d[p].len() && #[trigger] d[p][q] == a[i2];
                assert(l[p][q] != l[l.len() - 1][j2 - n]);
            }
        }
    }
}
pub proof fn lemma_sum_concat<T>(a: Seq<T>, b: Seq<T>, f: spec_fn(T) -> real)
    ensures sum_over(a + b, f) == sum_over(a, f) + sum_over(b, f)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_sum_concat(a, b.drop_last(), f); }
}
/// each list covers its output, but for the one at p; those before are empty
#[verifier::opaque] pub open spec fn served_but(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, p: int, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>) -> bool {
    l.len() == outs.len() && (forall|q: int| 0 <= q < p ==> (#[trigger] l[q]).len() == 0) && forall|q: int| p < q < l.len() ==> sum_over(#[trigger] l[q], w) >= or0(fo(outs[q]))
}
/// each list from here on covers its output; those before are empty
pub open spec fn served(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, from: int, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>) -> bool { served_but(l, outs, from - 1, w, fo) && (0 < from <= l.len() ==> l[from - 1].len() == 0) }
pub proof fn lemma_serve(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, p: int, x: Seq<usize>, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires served_but(l, outs, p, w, fo), 0 <= p < outs.len()
    ensures served_but(l.update(p, x), outs, p, w, fo), l.len() == outs.len()
{ reveal(served_but); }
pub proof fn lemma_serve_done(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, p: int, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires served_but(l, outs, p, w, fo), 0 <= p < outs.len(), sum_over(l[p], w) >= or0(fo(outs[p]))
    ensures served(l, outs, p, w, fo)
{ reveal(served_but); }
pub proof fn lemma_serve_start(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires l.len() == outs.len(), forall|p: int| 0 <= p < l.len() ==> (#[trigger] l[p]).len() == 0
    ensures served(l, outs, l.len() as int, w, fo)
{ reveal(served_but); }
pub proof fn lemma_serve_again(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, k: int, x: Seq<usize>, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires served(l, outs, 0, w, fo), 0 <= k < outs.len(), sum_over(x, w) >= or0(fo(outs[k]))
    ensures served(l.update(k, x), outs, 0, w, fo), l.len() == outs.len()
{ reveal(served_but); }
pub proof fn lemma_serve_len(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, k: int, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires served(l, outs, 0, w, fo)
    ensures l.len() == outs.len(), 0 <= k < outs.len() ==> sum_over(l[k], w) >= or0(fo(outs[k]))
{ reveal(served_but); }
pub proof fn lemma_placed_in(from: Set<usize>, to: Set<usize>, l: Seq<Seq<usize>>, spare: Seq<usize>, p: int, i: int)
    requires placed(from, to, l, spare)
    ensures 0 <= p < l.len() && 0 <= i < l[p].len() ==> from.contains(l[p][i]), 0 <= i < spare.len() ==> from.contains(spare[i])
{ reveal(placed); if 0 <= i < spare.len() { assert(to.contains(spare[i])); } }
pub proof fn lemma_served(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires served(l, outs, 0, w, fo)
    ensures sum_over(flatten(l), w) >= wanted(outs, fo)
    decreases l.len()
{ reveal(served_but);
    if l.len() > 0 {
        let (d, o) = (l.drop_last(), outs.drop_last());
        assert forall|p: int| 0 <= p < d.len() implies sum_over(#[trigger] d[p], w) >= or0(fo(o[p])) by { assert(d[p] == l[p]); assert(sum_over(l[p], w) >= or0(fo(outs[p]))); }
        lemma_served(d, o, w, fo);
        lemma_sum_concat(flatten(d), l.last(), w);
        assert(sum_over(l[l.len() - 1], w) >= or0(fo(outs[l.len() - 1])));
    }
}

// ---- RandomImprove ----
pub open spec fn lists_token(s: Seq<TransactionAsset>, t: TokenId, i: int) -> bool { 0 <= i < s.len() && s[i].fingerprint == t }
pub open spec fn amount_listed(s: Seq<TransactionAsset>, t: TokenId) -> Option<real> { if exists|i: int| lists_token(s, t, i) { Some(listed(refs(s), t)) } else { None } }
pub open spec fn quantity_in(t: TokenId) -> spec_fn(UTxODetails) -> Option<real> { |u: UTxODetails| amount_listed(u.assets@, t) }
pub open spec fn quantity_out(t: TokenId) -> spec_fn(UTxOBuilder) -> Option<real> { |u: UTxOBuilder| amount_listed(u.assets@, t) }
pub open spec fn value_in() -> spec_fn(UTxODetails) -> Option<real> { |u: UTxODetails| Some(u.value.val()) }
pub open spec fn value_out() -> spec_fn(UTxOBuilder) -> Option<real> { |u: UTxOBuilder| Some(u.value.val()) }
pub proof fn lemma_none_listed(s: Seq<TransactionAsset>, t: TokenId)
    requires !exists|i: int| lists_token(s, t, i)
    ensures listed(refs(s), t) == 0real
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_first();
        assert(refs(s).drop_first() =~= refs(d));
        assert(!lists_token(s, t, 0));
        assert forall|i: int| !lists_token(d, t, i) by { if lists_token(d, t, i) { assert(lists_token(s, t, i + 1)); } }
        lemma_none_listed(d, t);
    }
}
pub proof fn lemma_listed_at(s: Seq<TransactionAsset>, t: TokenId, k: int)
    requires once(s), lists_token(s, t, k)
    ensures listed(refs(s), t) == s[k].quantity.val()
    decreases s.len()
{
    let d = s.drop_first();
    assert(refs(s).drop_first() =~= refs(d));
    if k == 0 {
        assert forall|i: int| !lists_token(d, t, i) by { if lists_token(d, t, i) { assert(s[0].fingerprint != s[i + 1].fingerprint); } }
        lemma_none_listed(d, t);
    } else {
        assert(s[0].fingerprint != s[k].fingerprint);
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).fingerprint != (#[trigger] d[j]).fingerprint by { assert(s[i + 1].fingerprint != s[j + 1].fingerprint); }
        lemma_listed_at(d, t, k - 1);
    }
}
/// looking an asset up by its name
pub proof fn lemma_found(s: Seq<TransactionAsset>, t: TokenId)
    ensures
        once(s) ==> forall|i: int| 0 <= i < s.len() && (#[trigger] refs(s)[i]).fingerprint == t ==> amount_listed(s, t) == Some(refs(s)[i].quantity.val()),
        (forall|i: int| 0 <= i < s.len() ==> (#[trigger] refs(s)[i]).fingerprint != t) ==> amount_listed(s, t) is None,
{
    if once(s) {
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] refs(s)[i]).fingerprint == t implies amount_listed(s, t) == Some(refs(s)[i].quantity.val()) by { assert(lists_token(s, t, i)); lemma_listed_at(s, t, i); }
    }
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] refs(s)[i]).fingerprint != t {
        assert forall|i: int| !lists_token(s, t, i) by { if lists_token(s, t, i) { assert(refs(s)[i].fingerprint != t); } }
    }
}
pub proof fn lemma_sum_agrees<T>(c: Seq<T>, f: spec_fn(T) -> real, g: spec_fn(T) -> real)
    requires forall|i: int| 0 <= i < c.len() ==> f(#[trigger] c[i]) == g(c[i])
    ensures sum_over(c, f) == sum_over(c, g)
    decreases c.len()
{
    if c.len() > 0 {
        assert(f(c[c.len() - 1]) == g(c[c.len() - 1]));
        assert forall|i: int| 0 <= i < c.drop_last().len() implies f(#[trigger] c.drop_last()[i]) == g(c.drop_last()[i]) by { assert(f(c[i]) == g(c[i])); }
        lemma_sum_agrees(c.drop_last(), f, g);
    }
}
pub proof fn lemma_not_negative<T>(c: Seq<T>, f: spec_fn(T) -> real)
    requires forall|i: int| 0 <= i < c.len() ==> f(#[trigger] c[i]) >= 0real
    ensures sum_over(c, f) >= 0real
    decreases c.len()
{
    if c.len() > 0 {
        assert(f(c[c.len() - 1]) >= 0real);
        assert forall|i: int| 0 <= i < c.drop_last().len() implies f(#[trigger] c.drop_last()[i]) >= 0real by { assert(f(c[i]) >= 0real); }
        lemma_not_negative(c.drop_last(), f);
    }
}
/// what the chosen inputs hold of a token
pub proof fn lemma_worth(a: Seq<UTxODetails>, c: Seq<usize>, t: TokenId)
    ensures sum_over(c, worth(a, quantity_in(t))) == assets_in(refs(items(a, c)), t)
{
    let g = |x: usize| listed(refs(a[x as int].assets@), t);
    assert forall|i: int| 0 <= i < c.len() implies worth(a, quantity_in(t))(#[trigger] c[i]) == g(c[i]) by {
        let s = a[c[i] as int].assets@;
        if !exists|k: int| lists_token(s, t, k) { lemma_none_listed(s, t); }
    }
    lemma_sum_agrees(c, worth(a, quantity_in(t)), g);
    lemma_items_assets(a, c, t);
}
/// what the outputs ask for
pub proof fn lemma_wanted(o: Seq<UTxOBuilder>, t: TokenId)
    ensures wanted(o, quantity_out(t)) == assets_out(refs(o), t)
    decreases o.len()
{
    if o.len() == 0 { assert(refs(o) =~= Seq::<&UTxOBuilder>::empty()); }
    else {
        lemma_wanted(o.drop_last(), t);
        lemma_out_push(o.drop_last(), o.last(), t);
        assert(o.drop_last().push(o.last()) =~= o);
        if !exists|k: int| lists_token(o.last().assets@, t, k) { lemma_none_listed(o.last().assets@, t); }
    }
}
pub proof fn lemma_out_push(s: Seq<UTxOBuilder>, u: UTxOBuilder, t: TokenId)
    ensures assets_out(refs(s.push(u)), t) == assets_out(refs(s), t) + listed(refs(u.assets@), t)
    decreases s.len()
{
    if s.len() == 0 { assert(refs(s.push(u)).drop_first() =~= Seq::empty()); assert(assets_out(Seq::<&UTxOBuilder>::empty(), t) == 0real); }
    else {
        assert(refs(s.push(u)).drop_first() =~= refs(s.drop_first().push(u)));
        assert(refs(s).drop_first() =~= refs(s.drop_first()));
        lemma_out_push(s.drop_first(), u, t);
    }
}
pub open spec fn items_ok(a: Seq<UTxODetails>) -> bool { forall|i: int| 0 <= i < a.len() ==> utxo_ok(#[trigger] a[i]) }
/// where a selection stands: what is taken, and the sums over it
#[verifier::opaque] pub open spec fn stands<E: TransactionFeeEstimator>(s: Setup, a: Seq<UTxODetails>, c: Seq<usize>, got: Set<usize>, from: Set<usize>, to: Set<usize>, e0: E, e: E, ins: Assets, total: Value<Regulated>, fee: Value<Regulated>) -> bool {
    &&& taken(from, to, c) && same_set(got, c) && estimated(e0, e, items(a, c), fee.val()) && fee.val() >= 0real
    &&& total.val() == s.input_balance.val() + values_in(refs(items(a, c))) && total.val() >= 0real
    &&& (forall|t: TokenId| #[trigger] amount(ins, t) == amount(s.input_asset_balance@, t) + assets_in(refs(items(a, c)), t)) && under_own_name(ins)
}
pub open spec fn standing<E: TransactionFeeEstimator>(s: Setup, a: Seq<UTxODetails>, got: Set<usize>, from: Set<usize>, to: Set<usize>, e0: E, e: E, ins: Assets, total: Value<Regulated>, fee: Value<Regulated>) -> bool {
    fee.val() >= 0real && total.val() >= 0real && exists|c: Seq<usize>| #[trigger] stands(s, a, c, got, from, to, e0, e, ins, total, fee)
}
pub proof fn lemma_stands_start<E: TransactionFeeEstimator>(s: Setup, a: Seq<UTxODetails>, from: Set<usize>, e0: E)
    requires under_own_name(s.input_asset_balance@), s.input_balance.val() >= 0real
    ensures forall|fee: Value<Regulated>, got: Set<usize>| fee.val() >= 0real && fee.val() == e0.min_fee() && got.len() == 0 ==> #[trigger] standing(s, a, got, from, from, e0, e0, s.input_asset_balance@, s.input_balance, fee)
{
    reveal(stands); reveal(taken);
    let c = Seq::<usize>::empty();
    assert(items(a, c) =~= Seq::<UTxODetails>::empty());
    assert(refs(items(a, c)) =~= Seq::<&UTxODetails>::empty());
    lemma_estimated_none(e0);
    assert forall|fee: Value<Regulated>, got: Set<usize>| fee.val() >= 0real && fee.val() == e0.min_fee() && got.len() == 0 implies #[trigger] standing(s, a, got, from, from, e0, e0, s.input_asset_balance@, s.input_balance, fee) by {
        assert forall|x: usize| #[trigger] got.contains(x) <==> c.contains(x) by { if got.contains(x) { assert(got =~= Set::<usize>::empty()); } }
        assert(stands(s, a, c, got, from, from, e0, e0, s.input_asset_balance@, s.input_balance, fee));
    }
}
pub proof fn lemma_taken_more(from: Set<usize>, mid: Set<usize>, to: Set<usize>, c: Seq<usize>, d: Seq<usize>)
    requires taken(from, mid, c), taken(mid, to, d)
    ensures taken(from, to, c + d)
{
    reveal(taken);
    let e = c + d;
    assert forall|x: usize| e.contains(x) <==> c.contains(x) || d.contains(x) by {
        if c.contains(x) { assert(e[c.index_of(x)] == x); }
        if d.contains(x) { assert(e[c.len() + d.index_of(x)] == x); }
        if e.contains(x) { let k = e.index_of(x); if k < c.len() { assert(c[k] == x); } else { assert(d[k - c.len()] == x); } }
    }
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by {
        if i < c.len() && j >= c.len() { assert(c.contains(e[i])); assert(d.contains(e[j])); assert(mid.contains(e[j])); }
        if j < c.len() && i >= c.len() { assert(c.contains(e[j])); assert(d.contains(e[i])); assert(mid.contains(e[i])); }
    }
    assert forall|x: usize| e.contains(x) implies #[trigger] from.contains(x) by { if d.contains(x) { assert(mid.contains(x)); } }
    assert forall|x: usize| #[trigger] to.contains(x) <==> from.contains(x) && !e.contains(x) by { assert(mid.contains(x) <==> from.contains(x) && !c.contains(x)); }
}
pub proof fn lemma_items_concat(a: Seq<UTxODetails>, c: Seq<usize>, d: Seq<usize>)
    ensures
        items(a, c + d) == items(a, c) + items(a, d),
        values_in(refs(items(a, c + d))) == values_in(refs(items(a, c))) + values_in(refs(items(a, d))),
        forall|t: TokenId| #[trigger] assets_in(refs(items(a, c + d)), t) == assets_in(refs(items(a, c)), t) + assets_in(refs(items(a, d)), t),
{
    assert(items(a, c + d) =~= items(a, c) + items(a, d));
    lemma_items_values(a, c); lemma_items_values(a, d); lemma_items_values(a, c + d);
    lemma_sum_concat(c, d, |x: usize| a[x as int].value.val());
    assert forall|t: TokenId| #[trigger] assets_in(refs(items(a, c + d)), t) == assets_in(refs(items(a, c)), t) + assets_in(refs(items(a, d)), t) by {
        lemma_items_assets(a, c, t); lemma_items_assets(a, d, t); lemma_items_assets(a, c + d, t);
        lemma_sum_concat(c, d, |x: usize| listed(refs(a[x as int].assets@), t));
    }
}
pub proof fn lemma_items_ok(a: Seq<UTxODetails>, m: Set<usize>, c: Seq<usize>)
    requires items_ok(a), in_range(a, m), forall|x: usize| c.contains(x) ==> #[trigger] m.contains(x)
    ensures values_in(refs(items(a, c))) >= 0real, forall|t: TokenId| #[trigger] assets_in(refs(items(a, c)), t) >= 0real
{
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]) < a.len() && utxo_ok(a[c[i] as int]) by { assert(c.contains(c[i])); assert(m.contains(c[i])); }
    lemma_items_values(a, c);
    let f = |x: usize| a[x as int].value.val();
    assert forall|i: int| 0 <= i < c.len() implies f(#[trigger] c[i]) >= 0real by { assert(utxo_ok(a[c[i] as int])); }
    lemma_not_negative(c, f);
    assert forall|t: TokenId| #[trigger] assets_in(refs(items(a, c)), t) >= 0real by {
        lemma_items_assets(a, c, t);
        let g = |x: usize| listed(refs(a[x as int].assets@), t);
        assert forall|i: int| 0 <= i < c.len() implies g(#[trigger] c[i]) >= 0real by { assert(utxo_ok(a[c[i] as int])); lemma_listed_ok(refs(a[c[i] as int].assets@), t); }
        lemma_not_negative(c, g);
    }
}
/// one round more
pub proof fn lemma_stands_more<E: TransactionFeeEstimator>(s: Setup, a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>, enough: real, got: Set<usize>, more: Set<usize>, from: Set<usize>, mid: Set<usize>, to: Set<usize>, e0: E, e1: E, e2: E, in1: Assets, in2: Assets, total1: Value<Regulated>, total2: Value<Regulated>, fee1: Value<Regulated>, fee2: Value<Regulated>) -> (d: Seq<usize>)
    requires
        items_ok(a), in_range(a, from), standing(s, a, got, from, mid, e0, e1, in1, total1, fee1),
        gives(a, fi, enough, more, mid, to, e1, e2, in1, in2, total1, total2, fee1, fee2),
    ensures
        standing(s, a, got.union(more), from, to, e0, e2, in2, total2, fee2), at_least(in2, in1),
        sum_over(d, worth(a, fi)) >= enough, forall|t: TokenId| #[trigger] amount(in2, t) == amount(in1, t) + assets_in(refs(items(a, d)), t),
{
    let c = choose|c: Seq<usize>| #[trigger] stands(s, a, c, got, from, mid, e0, e1, in1, total1, fee1);
    let d = choose|d: Seq<usize>| #[trigger] round(a, d, more, mid, to, e1, e2, in1, in2, total1, total2, fee1, fee2) && sum_over(d, worth(a, fi)) >= enough;
    reveal(stands); reveal(summed);
    lemma_taken_more(from, mid, to, c, d);
    lemma_items_concat(a, c, d);
    lemma_grown_more(e0, e1, e2, items(a, c), items(a, d), fee1.val(), fee2.val() - fee1.val());
    assert forall|x: usize| d.contains(x) implies #[trigger] from.contains(x) by { reveal(taken); assert(mid.contains(x)); }
    lemma_items_ok(a, from, d);
    lemma_union(got, more, c, d);
    assert forall|t: TokenId| #[trigger] amount(in2, t) == amount(s.input_asset_balance@, t) + assets_in(refs(items(a, c + d)), t) by { assert(amount(in1, t) == amount(s.input_asset_balance@, t) + assets_in(refs(items(a, c)), t)); assert(amount(in2, t) == amount(in1, t) + assets_in(refs(items(a, d)), t)); assert(assets_in(refs(items(a, c + d)), t) == assets_in(refs(items(a, c)), t) + assets_in(refs(items(a, d)), t)); }
    assert forall|t: TokenId| #[trigger] amount(in2, t) >= amount(in1, t) by { assert(assets_in(refs(items(a, d)), t) >= 0real); }
    assert(fee2.val() >= fee1.val());
    assert(stands(s, a, c + d, got.union(more), from, to, e0, e2, in2, total2, fee2));
    d
}
pub proof fn lemma_union(m: Set<usize>, n: Set<usize>, c: Seq<usize>, d: Seq<usize>)
    requires same_set(m, c), same_set(n, d)
    ensures same_set(m.union(n), c + d)
{
    let e = c + d;
    assert forall|x: usize| #[trigger] m.union(n).contains(x) <==> e.contains(x) by {
        if c.contains(x) { assert(e[c.index_of(x)] == x); }
        if d.contains(x) { assert(e[c.len() + d.index_of(x)] == x); }
        if e.contains(x) { let k = e.index_of(x); if k < c.len() { assert(c[k] == x); } else { assert(d[k - c.len()] == x); } }
    }
}
/// one input more
pub proof fn lemma_stands_one<E: TransactionFeeEstimator>(s: Setup, a: Seq<UTxODetails>, got: Set<usize>, from: Set<usize>, to: Set<usize>, e0: E, e1: E, e2: E, in1: Assets, in2: Assets, total1: Value<Regulated>, total2: Value<Regulated>, fee1: Value<Regulated>, fee2: Value<Regulated>, x: usize)
    requires
        items_ok(a), in_range(a, from), standing(s, a, got, from, to, e0, e1, in1, total1, fee1), to.contains(x),
        e1.told(a[x as int], &e2), e1.fee_of(a[x as int]) >= 0real, fee2.val() == fee1.val() + e1.fee_of(a[x as int]),
        total2.val() == total1.val() + a[x as int].value.val(), with_assets(in2, in1, a[x as int]), under_own_name(in1) ==> under_own_name(in2),
    ensures standing(s, a, got.insert(x), from, to.remove(x), e0, e2, in2, total2, fee2), at_least(in2, in1)
{
    let d = Seq::<usize>::empty().push(x);
    lemma_summed_none(a, e1, in1, total1, fee1);
    lemma_summed_one(a, Seq::<usize>::empty(), e1, e1, e2, in1, in1, in2, total1, total1, total2, fee1, fee1, fee2, x);
    let t2 = to.remove(x);
    let m2 = Set::<usize>::empty().insert(x);
    assert(d[0] == x);
    assert(taken(to, t2, d)) by { reveal(taken); }
    assert(same_set(m2, d));
    assert(round(a, d, m2, to, t2, e1, e2, in1, in2, total1, total2, fee1, fee2));
    let w = sum_over(d, worth(a, value_in()));
    assert(gives(a, value_in(), w, m2, to, t2, e1, e2, in1, in2, total1, total2, fee1, fee2));
    lemma_stands_more(s, a, value_in(), w, got, m2, from, to, t2, e0, e1, e2, in1, in2, total1, total2, fee1, fee2);
    assert(got.union(m2) =~= got.insert(x));
}
pub open spec fn at_least(ins2: Assets, ins: Assets) -> bool { forall|t: TokenId| #[trigger] amount(ins2, t) >= amount(ins, t) }
/// no output token before the ones still to come is uncovered
pub open spec fn still(ins: Assets, outs: Assets, todo: Seq<&(PolicyId, AssetName, TokenId)>) -> bool {
    forall|t: TokenId| #[trigger] outs.contains_key(t) ==> amount(ins, t) >= amount(outs, t) || exists|i: int| 0 <= i < todo.len() && (#[trigger] todo[i]).2 == t
}
pub open spec fn names_of(outs: Assets, v: Seq<(PolicyId, AssetName, TokenId)>) -> bool {
    forall|t: TokenId| #[trigger] outs.contains_key(t) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).2 == t
}
pub open spec fn named_by(vs: Seq<&TransactionAsset>, v: Seq<(PolicyId, AssetName, TokenId)>) -> bool { v.len() == vs.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).2 == vs[i].fingerprint }
pub proof fn lemma_names(outs: Assets)
    requires under_own_name(outs)
    ensures forall|ks: Seq<TokenId>, vs: Seq<&TransactionAsset>, v: Seq<(PolicyId, AssetName, TokenId)>| #[trigger] lists_values(outs, ks, vs) && #[trigger] named_by(vs, v) ==> names_of(outs, v)
{
    assert forall|ks: Seq<TokenId>, vs: Seq<&TransactionAsset>, v: Seq<(PolicyId, AssetName, TokenId)>| #[trigger] lists_values(outs, ks, vs) && #[trigger] named_by(vs, v) implies names_of(outs, v) by {
        assert forall|t: TokenId| #[trigger] outs.contains_key(t) implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).2 == t by {
            let i = ks.index_of(t);
            assert(v[i].2 == t) by { assert(*vs[i] == outs[ks[i]]); }
        }
    }
}
pub proof fn lemma_names_sorted(outs: Assets, v: Seq<(PolicyId, AssetName, TokenId)>, u: Seq<(PolicyId, AssetName, TokenId)>, ins: Assets)
    requires names_of(outs, v), exists|perm: Seq<int>| #[trigger] rearranged(v, u, perm)
    ensures still(ins, outs, refs(u))
{
    let perm = choose|perm: Seq<int>| #[trigger] rearranged(v, u, perm);
    assert forall|t: TokenId| #[trigger] outs.contains_key(t) implies exists|i: int| 0 <= i < refs(u).len() && (#[trigger] refs(u)[i]).2 == t by {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).2 == t;
        assert(perm.contains(i));
        let k = perm.index_of(i);
        assert(refs(u)[k].2 == t) by { assert(u[k] == v[perm[k]]); }
    }
}
pub proof fn lemma_still(ins: Assets, ins2: Assets, outs: Assets, todo: Seq<&(PolicyId, AssetName, TokenId)>)
    requires todo.len() > 0, still(ins, outs, todo), at_least(ins2, ins), amount(ins2, todo[0].2) >= amount(outs, todo[0].2)
    ensures still(ins2, outs, todo.drop_first())
{
    let d = todo.drop_first();
    assert forall|t: TokenId| #[trigger] outs.contains_key(t) implies amount(ins2, t) >= amount(outs, t) || exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).2 == t by {
        assert(amount(ins2, t) >= amount(ins, t));
        if !(amount(ins, t) >= amount(outs, t)) {
            let i = choose|i: int| 0 <= i < todo.len() && (#[trigger] todo[i]).2 == t;
            if i > 0 { assert(d[i - 1] == todo[i]); }
        }
    }
}
/// amounts are not negative
pub proof fn lemma_standing_ok<E: TransactionFeeEstimator>(s: Setup, a: Seq<UTxODetails>, got: Set<usize>, from: Set<usize>, to: Set<usize>, e0: E, e: E, ins: Assets, total: Value<Regulated>, fee: Value<Regulated>)
    requires items_ok(a), in_range(a, from), no_debts(s.input_asset_balance@), standing(s, a, got, from, to, e0, e, ins, total, fee)
    ensures at_least(ins, s.input_asset_balance@), forall|t: TokenId| #[trigger] amount(ins, t) >= 0real, under_own_name(ins), forall|x: usize| #[trigger] to.contains(x) ==> from.contains(x), forall|x: usize| #[trigger] got.contains(x) ==> from.contains(x)
{
    reveal(stands); reveal(taken);
    let c = choose|c: Seq<usize>| #[trigger] stands(s, a, c, got, from, to, e0, e, ins, total, fee);
    lemma_items_ok(a, from, c);
    assert forall|t: TokenId| #[trigger] amount(ins, t) >= 0real && amount(ins, t) >= amount(s.input_asset_balance@, t) by { assert(assets_in(refs(items(a, c)), t) >= 0real); }
}
pub proof fn lemma_all_still(ins: Assets, outs: Assets, todo: Seq<&(PolicyId, AssetName, TokenId)>)
    requires todo.len() == 0, still(ins, outs, todo), forall|t: TokenId| #[trigger] amount(ins, t) >= 0real
    ensures at_least(ins, outs)
{
    assert forall|t: TokenId| #[trigger] amount(ins, t) >= amount(outs, t) by { if outs.contains_key(t) { assert(amount(ins, t) >= amount(outs, t) || exists|i: int| 0 <= i < todo.len() && (#[trigger] todo[i]).2 == t); } }
}
/// the inputs chosen: available ones, each once, whose fees were asked for one after the other
pub open spec fn chose<E: TransactionFeeEstimator>(a: Seq<UTxODetails>, c: Seq<usize>, d: Seq<usize>, from: Set<usize>, to: Set<usize>, e0: E, e1: E, chosen: Seq<UTxODetails>, fee: real) -> bool {
    &&& taken(from, to, c) && chosen == items(a, c)
    &&& d.no_duplicates() && (forall|x: usize| #[trigger] d.contains(x) <==> c.contains(x)) && estimated(e0, e1, items(a, d), fee)
}
pub proof fn lemma_chose<E: TransactionFeeEstimator>(s: Setup, a: Seq<UTxODetails>, got: Set<usize>, from: Set<usize>, to: Set<usize>, e0: E, e: E, ins: Assets, total: Value<Regulated>, fee: Value<Regulated>)
    requires standing(s, a, got, from, to, e0, e, ins, total, fee)
    ensures
        forall|c: Seq<usize>| #[trigger] lists_set(got, c) ==> {
            &&& exists|d: Seq<usize>| #[trigger] chose(a, c, d, from, to, e0, e, items(a, c), fee.val())
            &&& total.val() == s.input_balance.val() + values_in(refs(items(a, c)))
            &&& forall|t: TokenId| #[trigger] amount(ins, t) == amount(s.input_asset_balance@, t) + assets_in(refs(items(a, c)), t)
        }
{
    reveal(stands); reveal(taken);
    let d = choose|c: Seq<usize>| #[trigger] stands(s, a, c, got, from, to, e0, e, ins, total, fee);
    assert forall|c: Seq<usize>| #[trigger] lists_set(got, c) implies ({
            &&& exists|d: Seq<usize>| #[trigger] chose(a, c, d, from, to, e0, e, items(a, c), fee.val())
            &&& total.val() == s.input_balance.val() + values_in(refs(items(a, c)))
            &&& forall|t: TokenId| #[trigger] amount(ins, t) == amount(s.input_asset_balance@, t) + assets_in(refs(items(a, c)), t)
        }) by {
        assert forall|x: usize| #[trigger] d.contains(x) <==> c.contains(x) by { assert(got.contains(x) <==> c.contains(x)); assert(got.contains(x) <==> d.contains(x)); }
        assert(taken(from, to, c));
        assert(chose(a, c, d, from, to, e0, e, items(a, c), fee.val()));
        lemma_items_values(a, c); lemma_items_values(a, d);
        lemma_sum_same(c, d, |x: usize| a[x as int].value.val());
        assert forall|t: TokenId| #[trigger] amount(ins, t) == amount(s.input_asset_balance@, t) + assets_in(refs(items(a, c)), t) by {
            lemma_items_assets(a, c, t); lemma_items_assets(a, d, t);
            lemma_sum_same(c, d, |x: usize| listed(refs(a[x as int].assets@), t));
        }
    }
}
impl RandomImprove {
    //@fn utxo-selection/src/algorithms/random_improve.rs | impl InputSelectionAlgorithm for RandomImprove | select_inputs
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@attr #[verifier::rlimit(60)]
    //@sig Estimate : TransactionFeeEstimator < InputUtxo = Self :: InputUtxo , OutputUtxo = Self :: OutputUtxo > , => Estimate: TransactionFeeEstimator
    //@sig InputOutputSetup < Self :: InputUtxo , Self :: OutputUtxo > => InputOutputSetup<UTxODetails, UTxOBuilder>
    //@sig InputSelectionResult < Self :: InputUtxo , Self :: OutputUtxo > => InputSelectionResult<UTxODetails, UTxOBuilder>
    //@use random
    //@rewrite rand :: thread_rng ( ) => Rng::new()
    //@rewrite | asset : & TransactionAsset | { $x } => |asset: &TransactionAsset| -> (n: (PolicyId, AssetName, TokenId)) ensures n.2 == asset.fingerprint { $x }
    //@rewrite . collect :: < Vec < ( PolicyId , AssetName , TokenId ) > > ( ) => .collect_list()
    //@rewrite . find ( | asset | & asset . fingerprint == token ) . map ( | asset | asset . quantity . clone ( ) ) => .find(|asset: &&TransactionAsset| -> (b: bool) ensures b == (asset.fingerprint == *token) { asset.fingerprint == *token }).map(|asset: &TransactionAsset| -> (q: Value<Regulated>) ensures q.val() == asset.quantity.val() { asset.quantity.clone() })
    //@rewrite | value : & UTxODetails | { $x } => |value: &UTxODetails| -> (o: Option<Value<Regulated>>) ensures once(value.assets@) ==> is_amount(o, quantity_in(*token)(*value)) { proof { lemma_found(value.assets@, *token); } $x }, Ghost(quantity_in(*token))
    //@rewrite | value : & UTxOBuilder | { $x } => |value: &UTxOBuilder| -> (o: Option<Value<Regulated>>) ensures once(value.assets@) ==> is_amount(o, quantity_out(*token)(*value)) { proof { lemma_found(value.assets@, *token); } $x }, Ghost(quantity_out(*token))
    //@rewrite | value : & UTxODetails | Some ( value . value . clone ( ) ) => |value: &UTxODetails| -> (o: Option<Value<Regulated>>) ensures is_amount(o, value_in()(*value)) { Some(value.value.clone()) }, Ghost(value_in())
    //@rewrite | value : & UTxOBuilder | Some ( value . value . clone ( ) ) => |value: &UTxOBuilder| -> (o: Option<Value<Regulated>>) ensures is_amount(o, value_out()(*value)) { Some(value.value.clone()) }, Ghost(value_out())
    //@rewrite | i | self . available_inputs [ i ] . clone ( ) => |i: usize| -> (u: UTxODetails) requires i < self.available_inputs@.len() ensures u == self.available_inputs@[i as int] { self.available_inputs[i].clone() }
    //@rewrite Ok ( InputSelectionResult { $x } ) => let __r = InputSelectionResult { $x }; proof { let c = choose|c: Seq<usize>| #[trigger] lists_set(got, c) && __r.chosen_inputs@ =~= items(a, c); assert(lists_set(got, c) && __r.chosen_inputs@ == items(a, c)); } Ok(__r)
    //@rewrite . collect ( ) => .collect_list()
    //@rewrite vec ! [ ] => Vec::new()
    //@desugar for.it
    //@spec
        requires
            all_once(old(self).available_inputs@), items_ok(old(self).available_inputs@), in_range(old(self).available_inputs@, old(self).available_indices@),
            outs_once(input_output_setup.fixed_outputs@), input_output_setup.exact(),
            input_output_setup.input_balance.val() >= 0real, input_output_setup.output_balance.val() >= 0real, no_debts(input_output_setup.input_asset_balance@),
        ensures
            final(self).available_inputs@ == old(self).available_inputs@,
            r matches Ok(x) ==> {
                &&& adds_up(x, input_output_setup) && covers(x)
                &&& exists|c: Seq<usize>, d: Seq<usize>| #[trigger] chose(old(self).available_inputs@, c, d, old(self).available_indices@, final(self).available_indices@, *old(estimator), *final(estimator), x.chosen_inputs@, x.fee.val())
            },
    //@hint start
        let ghost s = input_output_setup;
        let ghost (a, from, e0) = (self.available_inputs@, self.available_indices@, *estimator);
        proof { lemma_stands_start(s, a, from, e0); lemma_names(s.output_asset_balance@); }
    //@hint before policy_ids_to_asset_names . sort ( )
        let ghost v0 = policy_ids_to_asset_names@;
        proof {
            let (ks, vs) = choose|ks: Seq<TokenId>, vs: Seq<&TransactionAsset>| #[trigger] lists_values(s.output_asset_balance@, ks, vs) && named_by(vs, v0);
            assert(lists_values(s.output_asset_balance@, ks, vs) && named_by(vs, v0));
            assert(names_of(s.output_asset_balance@, v0));
        }
    //@hint before-loop 0
        proof { lemma_names_sorted(s.output_asset_balance@, v0, policy_ids_to_asset_names@, asset_input_balance@); }
    //@loop 0
        invariant_except_break
            self.available_inputs@ == a,
            standing(s, a, chosen_indices@, from, self.available_indices@, e0, *estimator, asset_input_balance@, input_balance, fee),
            still(asset_input_balance@, s.output_asset_balance@, __it0@),
        ensures
            self.available_inputs@ == a,
            standing(s, a, chosen_indices@, from, self.available_indices@, e0, *estimator, asset_input_balance@, input_balance, fee),
            at_least(asset_input_balance@, s.output_asset_balance@),
        decreases __it0@.len()
    //@hint loop-start 0
        let ghost (g0, m0, e1, i0, t0, f0, todo) = (chosen_indices@, self.available_indices@, *estimator, asset_input_balance@, input_balance, fee, __it0@);
        proof {
            lemma_standing_ok(s, a, g0, from, m0, e0, e1, i0, t0, f0);
            if todo.len() == 0 { lemma_all_still(i0, s.output_asset_balance@, todo); }
        }
    //@hint after chosen_indices . extend ( asset_chosen_indices ) ;
        proof {
            let d = lemma_stands_more(s, a, quantity_in(*token), wanted(s.fixed_outputs@, quantity_out(*token)), g0, more, from, m0, self.available_indices@, e0, e1, *estimator, i0, asset_input_balance@, t0, input_balance, f0, fee);
            lemma_worth(a, d, *token);
            lemma_wanted(s.fixed_outputs@, *token);
            assert(amount(i0, *token) >= amount(s.input_asset_balance@, *token));
            assert(amount(asset_input_balance@, *token) == amount(i0, *token) + assets_in(refs(items(a, d)), *token));
            assert(amount(s.output_asset_balance@, *token) == assets_out(refs(s.fixed_outputs@), *token));
            lemma_still(i0, asset_input_balance@, s.output_asset_balance@, todo);
        }
    //@hint before chosen_indices . extend ( asset_chosen_indices ) ;
        let ghost more = asset_chosen_indices@;
    //@hint before chosen_indices . extend ( ada_chosen_indices ) ;
        let ghost (g3, more) = (chosen_indices@, ada_chosen_indices@);
    //@hint after-loop 0
        let ghost (m2, e2, i2, t2, f2) = (self.available_indices@, *estimator, asset_input_balance@, input_balance, fee);
        proof { lemma_standing_ok(s, a, chosen_indices@, from, m2, e0, e2, i2, t2, f2); }
    //@hint after chosen_indices . extend ( ada_chosen_indices ) ;
        proof {
            let d = lemma_stands_more(s, a, value_in(), wanted(s.fixed_outputs@, value_out()), g3, more, from, m2, self.available_indices@, e0, e2, *estimator, i2, asset_input_balance@, t2, input_balance, f2, fee);
            assert forall|t: TokenId| #[trigger] amount(asset_input_balance@, t) >= amount(s.output_asset_balance@, t) by { assert(amount(asset_input_balance@, t) >= amount(i2, t)); assert(amount(i2, t) >= amount(s.output_asset_balance@, t)); }
        }
    //@loop 1
        invariant
            self.available_inputs@ == a,
            standing(s, a, chosen_indices@, from, self.available_indices@, e0, *estimator, asset_input_balance@, input_balance, fee),
            at_least(asset_input_balance@, s.output_asset_balance@),
        decreases self.available_indices@.len()
    //@hint loop-start 1
        let ghost (g4, m4, e4, i4, t4, f4) = (chosen_indices@, self.available_indices@, *estimator, asset_input_balance@, input_balance, fee);
        proof { lemma_standing_ok(s, a, g4, from, m4, e0, e4, i4, t4, f4); }
    //@hint before-loop 2
        proof { lemma_steps(); }
    //@loop 2
        invariant_except_break
            under_own_name(i4) ==> under_own_name(asset_input_balance@),
            forall|t: TokenId| #![trigger amount(asset_input_balance@, t)] #![trigger listed(__it1@, t)] amount(asset_input_balance@, t) + listed(__it1@, t) == amount(i4, t) + listed(refs(input.assets@), t),
        ensures
            under_own_name(i4) ==> under_own_name(asset_input_balance@),
            forall|t: TokenId| #[trigger] amount(asset_input_balance@, t) == amount(i4, t) + listed(refs(input.assets@), t),
        decreases __it1@.len()
    //@hint loop-end 1
        proof {
            lemma_stands_one(s, a, g4, from, m4, e0, e4, *estimator, i4, asset_input_balance@, t4, input_balance, f4, fee, i);
            assert(at_least(asset_input_balance@, i4));
            assert forall|t: TokenId| #[trigger] amount(asset_input_balance@, t) >= amount(s.output_asset_balance@, t) by { assert(amount(asset_input_balance@, t) >= amount(i4, t)); assert(amount(i4, t) >= amount(s.output_asset_balance@, t)); }
        }
    //@hint after-loop 1
        let ghost got = chosen_indices@;
        proof {
            lemma_chose(s, a, chosen_indices@, from, self.available_indices@, e0, *estimator, asset_input_balance@, input_balance, fee);
            lemma_standing_ok(s, a, chosen_indices@, from, self.available_indices@, e0, *estimator, asset_input_balance@, input_balance, fee);
        }
    //@end
    //@fn utxo-selection/src/algorithms/random_improve.rs | impl TryFrom<Vec<UTxODetails>> for RandomImprove | try_from
    //@as from_list
    //@sig Result < Self , Self :: Error > => anyhow::Result<Self>
    //@rewrite BTreeSet :: from_iter ( 0 .. $x ) ; => BTreeSet::upto($x);
    //@spec
        ensures r matches Ok(x) && offers(x, value@)
    //@end
    //@fn utxo-selection/src/algorithms/random_improve.rs | impl TryFrom<UTxOStore> for RandomImprove | try_from
    //@as from_store
    //@sig Result < Self , Self :: Error > => anyhow::Result<Self>
    //@rewrite RandomImprove :: try_from => RandomImprove::from_list
    //@rewrite | ( _ , v ) | v . as_ref ( ) . clone ( ) => |e: (&UtxoPointer, &Arc<UTxODetails>)| -> (r: UTxODetails) ensures r == **e.1 { (**e.1).clone() }
    //@rewrite . collect :: < Vec < _ > > ( ) => .collect_list()
    //@spec
        requires value.wf(), plain_held(value.held())
        ensures r matches Ok(x) && offers_held(x, value.held())
    //@hint start
        proof { lemma_entries(value.held()); }
    //@end
    //@fn utxo-selection/src/algorithms/random_improve.rs | impl InputSelectionAlgorithm for RandomImprove | set_available_inputs
    //@sig Vec < Self :: InputUtxo > => Vec<UTxODetails>
    //@rewrite BTreeSet :: from_iter ( 0 .. $x ) ; => BTreeSet::upto($x);
    //@spec
        ensures r is Ok && offers(*final(self), available_inputs@)
    //@end
    //@fn utxo-selection/src/algorithms/random_improve.rs | impl InputSelectionAlgorithm for RandomImprove | available_inputs
    //@sig Vec < Self :: InputUtxo > => Vec<UTxODetails>
    //@rewrite | index | self . available_inputs [ * index ] . clone ( ) => |index: &usize| -> (u: UTxODetails) requires *index < self.available_inputs@.len() ensures u == self.available_inputs@[*index as int] { self.available_inputs[*index].clone() }
    //@rewrite . collect :: < Vec < _ > > ( ) => .collect_list()
    //@spec
        requires in_range(self.available_inputs@, self.available_indices@)
        ensures exists|s: Seq<&usize>| #[trigger] lists_refs(self.available_indices@, s) && picks(self.available_inputs@, s, r@)
    //@end
}
pub open spec fn picks(a: Seq<UTxODetails>, s: Seq<&usize>, r: Seq<UTxODetails>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == a[*s[i] as int] }
/// all of the UTxOs given are available
pub open spec fn offers(x: RandomImprove, v: Seq<UTxODetails>) -> bool { x.available_inputs@ == v && in_range(v, x.available_indices@) && forall|i: usize| i < v.len() ==> #[trigger] x.available_indices@.contains(i) }
pub open spec fn listing(m: Held, v: Seq<UTxODetails>) -> bool {
    (forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).pointer) && *m[v[i].pointer] == v[i])
    && (forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).pointer != (#[trigger] v[j]).pointer)
    && forall|p: UtxoPointer| #[trigger] m.contains_key(p) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).pointer == p
}
/// all of the store's UTxOs are available, each once
pub open spec fn offers_held(x: RandomImprove, m: Held) -> bool { offers(x, x.available_inputs@) && listing(m, x.available_inputs@) }
pub open spec fn out_of(s: Seq<(&UtxoPointer, &Arc<UTxODetails>)>, v: Seq<UTxODetails>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] v[i] == **s[i].1 }
pub proof fn lemma_entries(m: Held)
    requires plain_held(m)
    ensures forall|s: Seq<(&UtxoPointer, &Arc<UTxODetails>)>, v: Seq<UTxODetails>| #![trigger lists_entries(m, s), listing(m, v)] lists_entries(m, s) && out_of(s, v) ==> listing(m, v)
{
    assert forall|s: Seq<(&UtxoPointer, &Arc<UTxODetails>)>, v: Seq<UTxODetails>| #![trigger lists_entries(m, s), listing(m, v)] lists_entries(m, s) && out_of(s, v) implies listing(m, v) by {
        assert forall|i: int| 0 <= i < v.len() implies m.contains_key((#[trigger] v[i]).pointer) && *m[v[i].pointer] == v[i] && v[i].pointer == *s[i].0 by { assert(m.contains_key(*s[i].0)); }
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).pointer != (#[trigger] v[j]).pointer by { assert(*s[i].0 != *s[j].0); }
        assert forall|p: UtxoPointer| #[trigger] m.contains_key(p) implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).pointer == p by {
            let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == p;
            assert(v[i].pointer == p);
        }
    }
}

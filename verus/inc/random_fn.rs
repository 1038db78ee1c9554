// ---- the functions of random_improve.rs ----
//@rules random
anyhow ! ( $x* ) => anyhow::error()
dcspark_core :: Value => Value
TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
. gen_range ( 0 .. $x ) => .below($x)
std :: mem :: swap => swap
vec ! [ vec ! [ ] ; $x ] => empties($x)
. expect ( $x ) => .unwrap()
. unwrap_or_default ( ) => .or_zero()
//@end
/// a UTxO or output lists an asset once
pub open spec fn once(s: Seq<TransactionAsset>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).fingerprint != (#[trigger] s[j]).fingerprint }
/// the closure tells the amount q of a UTxO, of an output
pub open spec fn tells_in<F: Fn(&UTxODetails) -> Option<Value<Regulated>>>(f: F, q: spec_fn(UTxODetails) -> Option<real>) -> bool {
    (forall|x: UTxODetails| #[trigger] f.requires((&x,))) && forall|x: UTxODetails, o: Option<Value<Regulated>>| #[trigger] f.ensures((&x,), o) && once(x.assets@) ==> is_amount(o, q(x))
}
pub open spec fn tells_out<F: Fn(&UTxOBuilder) -> Option<Value<Regulated>>>(f: F, q: spec_fn(UTxOBuilder) -> Option<real>) -> bool {
    (forall|x: UTxOBuilder| #[trigger] f.requires((&x,))) && forall|x: UTxOBuilder, o: Option<Value<Regulated>>| #[trigger] f.ensures((&x,), o) && once(x.assets@) ==> is_amount(o, q(x))
}
pub open spec fn all_once(a: Seq<UTxODetails>) -> bool { forall|i: int| 0 <= i < a.len() ==> once((#[trigger] a[i]).assets@) }
pub open spec fn outs_once(a: Seq<UTxOBuilder>) -> bool { forall|i: int| 0 <= i < a.len() ==> once((#[trigger] a[i]).assets@) }
pub open spec fn in_range(a: Seq<UTxODetails>, m: Set<usize>) -> bool { forall|i: usize| #[trigger] m.contains(i) ==> i < a.len() }
/// the inputs c were added: their amounts and their fees, and the estimator was told
#[verifier::opaque] pub open spec fn summed<E: TransactionFeeEstimator>(a: Seq<UTxODetails>, c: Seq<usize>, e0: E, e1: E, in0: Assets, in1: Assets, total0: Value<Regulated>, total1: Value<Regulated>, fee0: Value<Regulated>, fee1: Value<Regulated>) -> bool {
    &&& grown(e0, e1, items(a, c), fee1.val() - fee0.val())
    &&& total1.val() == total0.val() + values_in(refs(items(a, c)))
    &&& (forall|t: TokenId| #[trigger] amount(in1, t) == amount(in0, t) + assets_in(refs(items(a, c)), t)) && (under_own_name(in0) ==> under_own_name(in1))
}
pub open spec fn same_set(m: Set<usize>, c: Seq<usize>) -> bool { forall|x: usize| #[trigger] m.contains(x) <==> c.contains(x) }
/// one round: the inputs c are taken and added, and hold what the outputs ask for
pub open spec fn round<E: TransactionFeeEstimator>(a: Seq<UTxODetails>, c: Seq<usize>, got: Set<usize>, from: Set<usize>, to: Set<usize>, e0: E, e1: E, in0: Assets, in1: Assets, total0: Value<Regulated>, total1: Value<Regulated>, fee0: Value<Regulated>, fee1: Value<Regulated>) -> bool {
    taken(from, to, c) && same_set(got, c) && summed(a, c, e0, e1, in0, in1, total0, total1, fee0, fee1)
}
pub open spec fn gives<E: TransactionFeeEstimator>(a: Seq<UTxODetails>, fi: spec_fn(UTxODetails) -> Option<real>, enough: real, got: Set<usize>, from: Set<usize>, to: Set<usize>, e0: E, e1: E, in0: Assets, in1: Assets, total0: Value<Regulated>, total1: Value<Regulated>, fee0: Value<Regulated>, fee1: Value<Regulated>) -> bool {
    exists|c: Seq<usize>| #[trigger] round(a, c, got, from, to, e0, e1, in0, in1, total0, total1, fee0, fee1) && sum_over(c, worth(a, fi)) >= enough
}
pub proof fn lemma_summed_one<E: TransactionFeeEstimator>(a: Seq<UTxODetails>, c: Seq<usize>, e0: E, e1: E, e2: E, in0: Assets, in1: Assets, in2: Assets, total0: Value<Regulated>, total1: Value<Regulated>, total2: Value<Regulated>, fee0: Value<Regulated>, fee1: Value<Regulated>, fee2: Value<Regulated>, x: usize)
    requires
        summed(a, c, e0, e1, in0, in1, total0, total1, fee0, fee1), e1.told(a[x as int], &e2), e1.fee_of(a[x as int]) >= 0real,
        fee2.val() == fee1.val() + e1.fee_of(a[x as int]), total2.val() == total1.val() + a[x as int].value.val(), with_assets(in2, in1, a[x as int]), under_own_name(in1) ==> under_own_name(in2),
    ensures summed(a, c.push(x), e0, e2, in0, in2, total0, total2, fee0, fee2)
{ reveal(summed);
    let u = a[x as int];
    lemma_items_push(a, c, x);
    lemma_grown_one(e0, e1, e2, items(a, c), fee1.val() - fee0.val(), u);
    lemma_values_push(items(a, c), u);
    assert forall|t: TokenId| #[trigger] amount(in2, t) == amount(in0, t) + assets_in(refs(items(a, c.push(x))), t) by { lemma_assets_push(items(a, c), u, t); assert(amount(in1, t) == amount(in0, t) + assets_in(refs(items(a, c)), t)); }
}
pub proof fn lemma_summed_none<E: TransactionFeeEstimator>(a: Seq<UTxODetails>, e: E, ins: Assets, total: Value<Regulated>, fee: Value<Regulated>)
    ensures summed(a, Seq::<usize>::empty(), e, e, ins, ins, total, total, fee, fee)
{ reveal(summed);
    assert(items(a, Seq::<usize>::empty()) =~= Seq::<UTxODetails>::empty());
    assert(refs(Seq::<UTxODetails>::empty()) =~= Seq::<&UTxODetails>::empty());
    lemma_grown_none(e);
}
pub proof fn lemma_flat_take(l: Seq<Seq<usize>>, n: int)
    requires 0 <= n < l.len()
    ensures flatten(l.take(n + 1)) == flatten(l.take(n)) + l[n]
{ assert(l.take(n + 1).drop_last() =~= l.take(n)); }
/// the outputs yet to serve, last first
pub open spec fn todo_back(s: Seq<(usize, &UTxOBuilder)>, outs: Seq<UTxOBuilder>) -> bool {
    s.len() <= outs.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == s.len() - 1 - i && *s[i].1 == outs[s.len() - 1 - i]
}
//@fn utxo-selection/src/algorithms/random_improve.rs |  | distance
//@sig dcspark_core :: Value => Value
//@sig dcspark_core :: Value => Value
//@sig dcspark_core :: Value => Value
//@rewrite left > right => *left > *right
//@rewrite left - right => left.sub(right)
//@rewrite right - left => right.sub(left)
//@spec
    ensures r.val() == if left.val() > right.val() { left.val() - right.val() } else { right.val() - left.val() }
//@end
//@fn utxo-selection/src/algorithms/random_improve.rs |  | select_input_and_update_balances
//@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
//@sig R : Rng + ? Sized , =>
//@sig rng : & mut R => rng: &mut Rng
//@sig available_inputs : & [ UTxODetails ] => available_inputs: &Vec<UTxODetails>
//@sig explicit_outputs : & [ UTxOBuilder ] => explicit_outputs: &Vec<UTxOBuilder>
//@sig by_input : ByInput => by_input: ByInput, fi: Ghost<spec_fn(UTxODetails) -> Option<real>>
//@sig by_output : ByOutput => by_output: ByOutput, fo: Ghost<spec_fn(UTxOBuilder) -> Option<real>>
//@sig dcspark_core :: Value => Value
//@sig dcspark_core :: Value => Value
//@sig dcspark_core :: Value => Value
//@sig dcspark_core :: Value => Value
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::rlimit(60)]
//@use random
//@rewrite . filter ( | i | by_input $x* . is_some ( ) ) . cloned ( ) . collect :: < Vec < usize > > ( ) => .filter_by(Ghost(relevant(available_inputs@, fi@)), |i: &&usize| -> (b: bool) requires **i < available_inputs@.len() ensures b == (fi@(available_inputs@[**i as int]) is Some) { by_input$x.is_some() }).cloned().collect_list()
//@rewrite . filter ( | output | by_output ( output ) . is_some ( ) ) . cloned ( ) . collect :: < Vec < UTxOBuilder > > ( ) => .filter_by(Ghost(asking(fo@)), |output: &&UTxOBuilder| -> (b: bool) requires once(output.assets@) ensures b == (fo@(**output) is Some) { by_output(*output).is_some() }).cloned().collect_list()
//@rewrite sort_by_key ( | output | by_output ( output ) . unwrap ( ) ) => sort_by_key(|output: &UTxOBuilder| -> (k: Value<Regulated>) requires once(output.assets@), fo@(*output) is Some { by_output(output).unwrap() })
//@rewrite . filter_map ( | i | by_input $x* ) . sum ( ) => .filter_map_by(Ghost(worth_of(available_inputs@, fi@)), |i: &usize| -> (o: Option<Value<Regulated>>) requires *i < available_inputs@.len() ensures is_amount(o, fi@(available_inputs@[*i as int])) { by_input$x }).sum()
//@rewrite . get_mut ( random_index ) => .slot(random_index)
//@rewrite & added - & cur + & new => (&added).sub(&cur).add(&new)
//@rewrite & min + & min => (&min).add(&min)
//@rewrite & ideal + & min => (&ideal).add(&min)
//@desugar opt.ok_or_else
//@desugar for.it
//@spec
    requires
        all_once(available_inputs@), outs_once(explicit_outputs@), in_range(available_inputs@, old(available_indices)@),
        tells_in(by_input, fi@), tells_out(by_output, fo@),
    ensures
        r matches Ok(x) ==> gives(available_inputs@, fi@, wanted(explicit_outputs@, fo@), x@, old(available_indices)@, final(available_indices)@, *old(estimator), *final(estimator), old(asset_input_balance)@, final(asset_input_balance)@, *old(input_total), *final(input_total), *old(fee), *final(fee)),
//@hint start
    let ghost (a, from, w) = (available_inputs@, available_indices@, worth(available_inputs@, fi@));
    proof { lemma_candidates(from, a, fi@); }
//@hint before outputs . sort_by_key
    let ghost picked_outs = outputs@;
    proof { lemma_asked(explicit_outputs@, picked_outs, fo@); }
//@hint before-loop 0
    let ghost outs = outputs@;
    proof {
        let perm = choose|perm: Seq<int>| #[trigger] rearranged(picked_outs, outs, perm);
        lemma_rearranged(picked_outs, outs, perm, fo@);
        lemma_serve_start(lists_of(associated_indices@), outs, w, fo@);
        lemma_no_lists(from, lists_of(associated_indices@), relevant_indices@);
    }
//@loop 0
    invariant_except_break
        todo_back(__it0@, outs),
        served(lists_of(associated_indices@), outs, __it0@.len() as int, w, fo@),
        placed(from, available_indices@, lists_of(associated_indices@), relevant_indices@), holders(a, fi@, relevant_indices@),
    ensures
        served(lists_of(associated_indices@), outs, 0, w, fo@),
        placed(from, available_indices@, lists_of(associated_indices@), relevant_indices@), holders(a, fi@, relevant_indices@),
    decreases __it0@.len()
//@hint before-loop 1
    proof { lemma_serve_len0(lists_of(associated_indices@), outs, position + 1, w, fo@); }
//@loop 1
    invariant
        added.val() == sum_over(lists_of(associated_indices@)[position as int], w),
        associated_indices@.len() == outs.len(), position < outs.len(),
        served_but(lists_of(associated_indices@), outs, position as int, w, fo@),
        placed(from, available_indices@, lists_of(associated_indices@), relevant_indices@), holders(a, fi@, relevant_indices@),
    decreases relevant_indices@.len()
//@hint loop-start 1
    let ghost (l1, s1, t1) = (lists_of(associated_indices@), relevant_indices@, available_indices@);
//@hint loop-end 1
    proof {
        let x = s1[random_index as int];
        lemma_place(from, t1, l1, s1, position as int, random_index as int);
        lemma_sum_push(l1[position as int], x, w);
        lemma_serve(l1, outs, position as int, l1[position as int].push(x), w, fo@);
        assert(lists_of(associated_indices@) =~= l1.update(position as int, l1[position as int].push(x)));
        assert(relevant_indices@ =~= swap_removed(s1, random_index as int));
    }
//@hint after-loop 1
    proof { lemma_serve_done(lists_of(associated_indices@), outs, position as int, w, fo@); }
//@loop 2
    invariant_except_break
        __k1 <= outs.len(), __it1@ =~= refs(outs).skip(__k1 as int), relevant_indices@.len() > 0,
        served(lists_of(associated_indices@), outs, 0, w, fo@),
        placed(from, available_indices@, lists_of(associated_indices@), relevant_indices@),
    ensures
        served(lists_of(associated_indices@), outs, 0, w, fo@),
        placed(from, available_indices@, lists_of(associated_indices@), relevant_indices@),
    decreases __it1@.len()
//@hint loop-start 2
    let ghost l2 = lists_of(associated_indices@);
    let ghost mut lw = l2;
    proof { lemma_serve_len(l2, outs, __k1 as int, w, fo@); }
//@hint before let mut added : Value < Regulated > = associated
    proof {
        assert(associated@ == l2[__k1 as int]);
        assert forall|i: int| 0 <= i < associated@.len() implies *(#[trigger] refs(associated@)[i]) < a.len() by { lemma_placed_in(from, available_indices@, l2, relevant_indices@, __k1 as int, i); }
    }
//@hint before-loop 3
    let ghost mut ridx: int = 0;
    proof {
        lemma_somes(a, associated@, fi@);
        assert(lists_of(associated_indices@).update(__k1 as int, associated@) =~= l2);
    }
//@loop 3
    invariant_except_break
        __k2 <= associated@.len(), added.val() == sum_over(associated@, w), relevant_indices@.len() > 0,
        served(lists_of(associated_indices@).update(__k1 as int, associated@), outs, 0, w, fo@),
        placed(from, available_indices@, lists_of(associated_indices@).update(__k1 as int, associated@), relevant_indices@),
    ensures
        relevant_indices@.len() > 0,
        served(lists_of(associated_indices@).update(__k1 as int, associated@), outs, 0, w, fo@),
        placed(from, available_indices@, lists_of(associated_indices@).update(__k1 as int, associated@), relevant_indices@),
    decreases associated@.len() - __k2
//@hint loop-start 3
    let ghost (l3, a3, s3, t3, k3) = (lists_of(associated_indices@).update(__k1 as int, associated@), associated@, relevant_indices@, available_indices@, __k2 as int);
//@hint before let j : & mut usize
    proof { ridx = random_index as int; lemma_placed_in(from, t3, l3, s3, __k1 as int, k3); lemma_placed_in(from, t3, l3, s3, __k1 as int, ridx); }
//@hint after let swapped = ( & added ) . sub ( & cur ) . add ( & new ) ;
    proof { assert(cur.val() == w(a3[k3])); assert(new.val() == w(s3[ridx])); }
//@hint loop-end 3
    proof {
        lemma_exchange(from, t3, l3, s3, __k1 as int, k3, ridx);
        lemma_sum_update(a3, k3, s3[ridx], w);
        lemma_serve_len(l3, outs, __k1 as int, w, fo@);
        if associated@[k3] == a3[k3] { assert(associated@ =~= a3); assert(relevant_indices@ =~= s3); }
        else {
            let b3 = a3.update(k3, s3[ridx]);
            assert(associated@ =~= b3);
            assert(relevant_indices@ =~= s3.update(ridx, a3[k3]));
            lemma_serve_again(l3, outs, __k1 as int, b3, w, fo@);
            assert(lists_of(associated_indices@).update(__k1 as int, associated@) =~= l3.update(__k1 as int, b3));
        }
    }
//@hint after-loop 3
    proof { lw = lists_of(associated_indices@).update(__k1 as int, associated@); }
//@hint loop-end 2
    proof { assert(lists_of(associated_indices@) =~= lw); }
//@hint before-loop 4
    let ghost l4 = lists_of(associated_indices@);
    proof { lemma_summed_none(a, *estimator, asset_input_balance@, *input_total, *fee); assert(flatten(l4.take(0)) =~= Seq::<usize>::empty()); lemma_served(l4, outs, w, fo@); assert(l4.take(l4.len() as int) =~= l4); }
//@hint after-loop 4
    proof {
        lemma_taken(from, available_indices@, l4, relevant_indices@);
        assert(round(a, flatten(l4), chosen_indices@, from, available_indices@, *old(estimator), *estimator, old(asset_input_balance)@, asset_input_balance@, *old(input_total), *input_total, *old(fee), *fee));
    }
//@loop 4
    invariant_except_break ({
        let n = l4.len() - __it3@.len();
        0 <= n && __it3@ =~= refs(associated_indices@).skip(n) && same_set(chosen_indices@, flatten(l4.take(n)))
        && summed(a, flatten(l4.take(n)), *old(estimator), *estimator, old(asset_input_balance)@, asset_input_balance@, *old(input_total), *input_total, *old(fee), *fee)
    })
    ensures
        same_set(chosen_indices@, flatten(l4)), summed(a, flatten(l4), *old(estimator), *estimator, old(asset_input_balance)@, asset_input_balance@, *old(input_total), *input_total, *old(fee), *fee),
    decreases __it3@.len()
//@hint loop-start 4
    let ghost n4 = l4.len() - __it3@.len();
    let ghost c4 = flatten(l4.take(n4));
    proof { if n4 < l4.len() { lemma_flat_take(l4, n4); } }
//@hint before-loop 5
    proof { assert(associated@ == l4[n4]); assert(c4 + associated@.take(0) =~= c4); }
//@loop 5
    invariant_except_break ({
        let n = associated@.len() - __it4@.len();
        0 <= n && __it4@ =~= refs(associated@).skip(n) && same_set(chosen_indices@, c4 + associated@.take(n))
        && summed(a, c4 + associated@.take(n), *old(estimator), *estimator, old(asset_input_balance)@, asset_input_balance@, *old(input_total), *input_total, *old(fee), *fee)
    })
    ensures
        same_set(chosen_indices@, c4 + associated@), summed(a, c4 + associated@, *old(estimator), *estimator, old(asset_input_balance)@, asset_input_balance@, *old(input_total), *input_total, *old(fee), *fee),
    decreases __it4@.len()
//@hint loop-start 5
    let ghost n5 = associated@.len() - __it4@.len();
    let ghost c5 = c4 + associated@.take(n5);
    let ghost (e5, i5, t5, f5, m5) = (*estimator, asset_input_balance@, *input_total, *fee, chosen_indices@);
    proof { if n5 < associated@.len() { lemma_placed_in(from, available_indices@, l4, relevant_indices@, n4, n5); } else { assert(associated@.take(n5) =~= associated@); } }
//@hint before-loop 6
    proof { lemma_steps(); }
//@loop 6
    invariant_except_break
        under_own_name(i5) ==> under_own_name(asset_input_balance@),
        forall|t: TokenId| #![trigger amount(asset_input_balance@, t)] #![trigger listed(__it5@, t)] amount(asset_input_balance@, t) + listed(__it5@, t) == amount(i5, t) + listed(refs(input.assets@), t),
    ensures
        under_own_name(i5) ==> under_own_name(asset_input_balance@),
        forall|t: TokenId| #[trigger] amount(asset_input_balance@, t) == amount(i5, t) + listed(refs(input.assets@), t),
    decreases __it5@.len()
//@hint loop-end 5
    proof {
        let x = associated@[n5];
        lemma_summed_one(a, c5, *old(estimator), e5, *estimator, old(asset_input_balance)@, i5, asset_input_balance@, *old(input_total), t5, *input_total, *old(fee), f5, *fee, x);
        assert(c4 + associated@.take(n5 + 1) =~= c5.push(x));
        lemma_push_set(m5, c5, x);
    }
//@end
pub proof fn lemma_push_set(m: Set<usize>, c: Seq<usize>, x: usize)
    requires same_set(m, c)
    ensures same_set(m.insert(x), c.push(x))
{
    assert forall|y: usize| #[trigger] m.insert(x).contains(y) <==> c.push(x).contains(y) by {
        if c.contains(y) { let k = c.index_of(y); assert(c.push(x)[k] == y); }
        if c.push(x).contains(y) && y != x { let k = c.push(x).index_of(y); assert(c[k] == y); }
        assert(c.push(x)[c.len() as int] == x);
    }
}
pub proof fn lemma_taken(from: Set<usize>, to: Set<usize>, l: Seq<Seq<usize>>, spare: Seq<usize>)
    requires placed(from, to, l, spare)
    ensures taken(from, to, flatten(l))
{ reveal(placed); reveal(taken); lemma_flat(l); }
pub proof fn lemma_serve_len0(l: Seq<Seq<usize>>, outs: Seq<UTxOBuilder>, from: int, w: spec_fn(usize) -> real, fo: spec_fn(UTxOBuilder) -> Option<real>)
    requires served(l, outs, from, w, fo)
    ensures l.len() == outs.len()
{ reveal(served_but); }
/// nothing is placed yet
pub proof fn lemma_no_lists(from: Set<usize>, l: Seq<Seq<usize>>, spare: Seq<usize>)
    requires forall|p: int| 0 <= p < l.len() ==> (#[trigger] l[p]).len() == 0, spare.no_duplicates(), forall|i: int| 0 <= i < spare.len() ==> from.contains(#[trigger] spare[i])
    ensures placed(from, from, l, spare)
{ reveal(placed);}

//@item utxo-selection/src/algorithms/largest_first.rs | struct | LargestFirst
//@rewrite available_inputs : UTxOStore => pub available_inputs: UTxOStore
//@end
/// every UTxO of m that holds the token is among the chosen
pub open spec fn all_of(m: Held, c: Seq<UTxODetails>, t: TokenId) -> bool {
    forall|p: UtxoPointer| #[trigger] m.contains_key(p) && has(*m[p], t) ==> exists|i: int| 0 <= i < c.len() && ptr(#[trigger] c[i]) == p
}
/// with everything available that holds t, an output amount of t is not covered
pub open spec fn short_of(m: Held, s: Setup, t: TokenId) -> bool {
    exists|c: Seq<UTxODetails>| #[trigger] picked(m, c) && all_of(m, c, t) && amount(s.input_asset_balance@, t) + assets_in(refs(c), t) < amount(s.output_asset_balance@, t)
}
/// with everything available, the outputs and the fees for all of it are not covered
pub open spec fn short_of_main<E: TransactionFeeEstimator>(m: Held, s: Setup, e0: E, e1: E) -> bool {
    exists|c: Seq<UTxODetails>, fee: real| #[trigger] picked(m, c) && all_of(m, c, main_token()) && #[trigger] estimated(e0, e1, c, fee) && s.input_balance.val() + values_in(refs(c)) < s.output_balance.val() + fee
}
/// nothing left that holds the token: all of it is chosen
pub proof fn lemma_all(m: Held, rest: Held, c: Seq<UTxODetails>, t: TokenId)
    requires left(rest, m, c), !some_holder(rest, t)
    ensures all_of(m, c, t)
{
    assert forall|p: UtxoPointer| #[trigger] m.contains_key(p) && has(*m[p], t) implies exists|i: int| 0 <= i < c.len() && ptr(#[trigger] c[i]) == p by {
        assert(!rest.contains_key(p));
    }
}

/// nothing left holds more of t
pub open spec fn largest(u: UTxODetails, t: TokenId, rest: Held) -> bool {
    has(u, t) && forall|p: UtxoPointer| #[trigger] rest.contains_key(p) && has(*rest[p], t) ==> qty(*rest[p], t) <= qty(u, t)
}
/// with those chosen, the outputs of t (for the main token: the outputs and the fees) are not covered
pub open spec fn lacks<E: TransactionFeeEstimator>(s: Setup, e0: E, c: Seq<UTxODetails>, t: TokenId) -> bool {
    if t == main_token() { exists|e: E, fee: real| #[trigger] estimated(e0, e, c, fee) && s.input_balance.val() + values_in(refs(c)) < s.output_balance.val() + fee }
    else { amount(s.input_asset_balance@, t) + assets_in(refs(c), t) < amount(s.output_asset_balance@, t) }
}
pub open spec fn called_for<E: TransactionFeeEstimator>(s: Setup, e0: E, c: Seq<UTxODetails>, i: int, t: TokenId, rest: Held) -> bool { lacks(s, e0, c.take(i), t) && largest(c[i], t, rest) }
pub open spec fn warranted<E: TransactionFeeEstimator>(s: Setup, e0: E, c: Seq<UTxODetails>, i: int, rest: Held) -> bool { exists|t: TokenId| #[trigger] called_for(s, e0, c, i, t, rest) }
/// each was chosen for a token that those before it did not cover, and none left holds more of that token
#[verifier::opaque]
pub open spec fn greedy<E: TransactionFeeEstimator>(s: Setup, e0: E, c: Seq<UTxODetails>, rest: Held) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] warranted(s, e0, c, i, rest) }
pub proof fn lemma_greedy_more<E: TransactionFeeEstimator>(s: Setup, e0: E, c: Seq<UTxODetails>, rest: Held, u: UTxODetails, t: TokenId, rest2: Held)
    requires greedy(s, e0, c, rest), lacks(s, e0, c, t), largest(u, t, rest), rest2 == rest.remove(ptr(u))
    ensures greedy(s, e0, c.push(u), rest2)
{
    reveal(greedy);
    let d = c.push(u);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] warranted(s, e0, d, i, rest2) by {
        if i == c.len() { assert(d.take(i) =~= c); assert(called_for(s, e0, d, i, t, rest2)); }
        else {
            assert(warranted(s, e0, c, i, rest));
            let v = choose|v: TokenId| #[trigger] called_for(s, e0, c, i, v, rest);
            assert(d.take(i) =~= c.take(i));
            assert(called_for(s, e0, d, i, v, rest2));
        }
    }
}
//@rules largest
anyhow ! ( $x* ) => anyhow::error()
dcspark_core :: Value => Value
. extend ( $x ) => .extend_by($x)
TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
//@end
pub proof fn lemma_no_holder(m: Held, t: TokenId)
    ensures
        forall|s: Seq<&UTxODetails>| #[trigger] lists_by_amount(holding(m, t), t, s, false) && s.len() == 0 ==> !some_holder(m, t),
        forall|s: Seq<&UTxODetails>| #[trigger] lists_by_amount(holding(m, t), t, s, false) && s.len() > 0 ==> largest(*s[0], t, m),
{
    assert forall|s: Seq<&UTxODetails>| #[trigger] lists_by_amount(holding(m, t), t, s, false) && s.len() > 0 implies largest(*s[0], t, m) by {
        assert forall|p: UtxoPointer| #[trigger] m.contains_key(p) && has(*m[p], t) implies qty(*m[p], t) <= qty(*s[0], t) by {
            assert(holding(m, t).contains_key(p));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pointer == p;
            assert(*s[i] == *m[p]);
        }
        assert(holding(m, t).contains_key(s[0].pointer));
    }
    assert forall|s: Seq<&UTxODetails>| #[trigger] lists_by_amount(holding(m, t), t, s, false) && s.len() == 0 implies !some_holder(m, t) by {
        if some_holder(m, t) {
            let p = choose|p: UtxoPointer| #[trigger] m.contains_key(p) && has(*m[p], t);
            assert(holding(m, t).contains_key(p));
        }
    }
}
//@fn utxo-selection/src/algorithms/largest_first.rs |  | select_largest_input_for
//@use largest
//@desugar opt.ok_or_else
//@spec
    requires utxos.wf()
    ensures
        r matches Ok(x) ==> {
            &&& utxos.held().contains_key(ptr(x.0)) && *utxos.held()[ptr(x.0)] == x.0 && largest(x.0, *asset, utxos.held())
            &&& x.1.wf() && x.1.held() == utxos.held().remove(ptr(x.0))
        },
        r matches Err(e) ==> !some_holder(utxos.held(), *asset) && !anyhow::by_estimator(e),
//@hint start
    proof { lemma_no_holder(utxos.held(), *asset); }
//@end
/// one more input: its amounts and its fee are added, and the estimator is told
pub open spec fn added<E: TransactionFeeEstimator>(u: UTxODetails, m: Held, rest: UTxOStore, e0: E, e1: E, in0: Assets, in1: Assets, total0: Value<Regulated>, total1: Value<Regulated>, fee0: Value<Regulated>, fee1: Value<Regulated>) -> bool {
    &&& m.contains_key(ptr(u)) && *m[ptr(u)] == u && rest.wf() && rest.held() == m.remove(ptr(u))
    &&& e0.told(u, &e1) && fee1.val() == fee0.val() + e0.fee_of(u) && e0.fee_of(u) >= 0real
    &&& total1.val() == total0.val() + u.value.val()
    &&& with_assets(in1, in0, u) && (under_own_name(in0) ==> under_own_name(in1))
}
//@fn utxo-selection/src/algorithms/largest_first.rs |  | select_input_and_update_balances
//@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
//@sig dcspark_core :: Value => Value
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@use largest
//@desugar for.it
//@spec
    requires utxos.wf()
    ensures
        r matches Ok(x) ==> {
            &&& x.0@.len() == 1 && largest(x.0@[0], *token, utxos.held())
            &&& added(x.0@[0], utxos.held(), x.1, *old(estimator), *final(estimator), old(asset_input_balance)@, final(asset_input_balance)@, *old(input_total), *final(input_total), *old(fee), *final(fee))
            &&& *token != main_token() ==> final(input_token_balance).val() == old(input_token_balance).val() + listed(refs(x.0@[0].assets@), *token)
        },
        r matches Err(e) ==> anyhow::by_estimator(e) || (!some_holder(utxos.held(), *token) && *final(estimator) == *old(estimator)),
//@hint start
    proof { lemma_steps(); }
//@loop 0
    invariant_except_break
        under_own_name(old(asset_input_balance)@) ==> under_own_name(asset_input_balance@),
        *token != main_token() ==> input_token_balance.val() + listed(__it0@, *token) == old(input_token_balance).val() + listed(refs(selected.assets@), *token),
        forall|t: TokenId| #![trigger amount(asset_input_balance@, t)] #![trigger listed(__it0@, t)] amount(asset_input_balance@, t) + listed(__it0@, t) == amount(old(asset_input_balance)@, t) + listed(refs(selected.assets@), t),
    ensures
        under_own_name(old(asset_input_balance)@) ==> under_own_name(asset_input_balance@),
        *token != main_token() ==> input_token_balance.val() == old(input_token_balance).val() + listed(refs(selected.assets@), *token),
        forall|t: TokenId| #[trigger] amount(asset_input_balance@, t) == amount(old(asset_input_balance)@, t) + listed(refs(selected.assets@), t),
    decreases __it0@.len()
//@end
//@fn utxo-selection/src/algorithms/largest_first.rs |  | select_input_and_update_balances_for_main
//@sig TransactionFeeEstimator < InputUtxo = UTxODetails , OutputUtxo = UTxOBuilder > => TransactionFeeEstimator
//@sig dcspark_core :: Value => Value
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@use largest
//@desugar for.it
//@spec
    requires utxos.wf()
    ensures
        r matches Ok(x) ==> {
            &&& x.0@.len() == 1 && largest(x.0@[0], main_token(), utxos.held())
            &&& added(x.0@[0], utxos.held(), x.1, *old(estimator), *final(estimator), old(asset_input_balance)@, final(asset_input_balance)@, *old(input_total), *final(input_total), *old(fee), *final(fee))
        },
        r matches Err(e) ==> anyhow::by_estimator(e) || (!some_holder(utxos.held(), main_token()) && *final(estimator) == *old(estimator)),
//@hint start
    proof { lemma_steps(); }
//@loop 0
    invariant_except_break
        under_own_name(old(asset_input_balance)@) ==> under_own_name(asset_input_balance@),
        forall|t: TokenId| #![trigger amount(asset_input_balance@, t)] #![trigger listed(__it0@, t)] amount(asset_input_balance@, t) + listed(__it0@, t) == amount(old(asset_input_balance)@, t) + listed(refs(selected.assets@), t),
    ensures
        under_own_name(old(asset_input_balance)@) ==> under_own_name(asset_input_balance@),
        forall|t: TokenId| #[trigger] amount(asset_input_balance@, t) == amount(old(asset_input_balance)@, t) + listed(refs(selected.assets@), t),
    decreases __it0@.len()
//@end
/// the state of a selection: what is chosen so far, what is left, and the sums
pub open spec fn so_far<E: TransactionFeeEstimator>(s: Setup, m: Held, c: Seq<UTxODetails>, rest: UTxOStore, e0: E, e: E, ins: Assets, total: Value<Regulated>, fee: Value<Regulated>) -> bool {
    &&& rest.wf() && picked(m, c) && left(rest.held(), m, c) && estimated(e0, e, c, fee.val()) && fee.val() >= 0real
    &&& total.val() == s.input_balance.val() + values_in(refs(c)) && total.val() >= 0real
    &&& (forall|t: TokenId| #[trigger] amount(ins, t) == amount(s.input_asset_balance@, t) + assets_in(refs(c), t)) && under_own_name(ins)
    &&& forall|t: TokenId| #[trigger] amount(ins, t) >= 0real
}
/// one more chosen
pub proof fn lemma_so_far<E: TransactionFeeEstimator>(s: Setup, m: Held, c: Seq<UTxODetails>, rest: UTxOStore, e0: E, e: E, ins: Assets, total: Value<Regulated>, fee: Value<Regulated>,
    u: UTxODetails, rest2: UTxOStore, e2: E, ins2: Assets, total2: Value<Regulated>, fee2: Value<Regulated>)
    requires held_ok(m), so_far(s, m, c, rest, e0, e, ins, total, fee), added(u, rest.held(), rest2, e, e2, ins, ins2, total, total2, fee, fee2)
    ensures so_far(s, m, c.push(u), rest2, e0, e2, ins2, total2, fee2), forall|t: TokenId| #[trigger] amount(ins2, t) >= amount(ins, t), rest2.held().dom().len() < rest.held().dom().len()
{
    lemma_pick(m, rest.held(), c, u);
    lemma_estimated_one(e0, e, e2, c, fee.val(), u);
    lemma_values_push(c, u);
    assert(utxo_ok(*m[ptr(u)]));
    assert forall|t: TokenId| #[trigger] amount(ins2, t) == amount(s.input_asset_balance@, t) + assets_in(refs(c.push(u)), t) && amount(ins2, t) >= amount(ins, t) && amount(ins2, t) >= 0real by {
        lemma_assets_push(c, u, t);
        lemma_listed_ok(refs(u.assets@), t);
        assert(amount(ins, t) == amount(s.input_asset_balance@, t) + assets_in(refs(c), t));
    }
    assert(rest2.held().dom() =~= rest.held().dom().remove(ptr(u)));
    assert(rest.held().dom().contains(ptr(u)));
}
/// no output token before the ones still to come is uncovered
pub open spec fn covered_but(ins: Assets, outs: Assets, todo: Seq<(&TokenId, &TransactionAsset)>) -> bool {
    forall|t: TokenId| #[trigger] outs.contains_key(t) ==> amount(ins, t) >= amount(outs, t) || exists|i: int| 0 <= i < todo.len() && *(#[trigger] todo[i]).0 == t
}
pub open spec fn entries_of(outs: Assets, todo: Seq<(&TokenId, &TransactionAsset)>) -> bool {
    forall|i: int| 0 <= i < todo.len() ==> outs.contains_key(*(#[trigger] todo[i]).0) && *todo[i].1 == outs[*todo[i].0]
}
pub open spec fn at_least(ins2: Assets, ins: Assets) -> bool { forall|t: TokenId| #[trigger] amount(ins2, t) >= amount(ins, t) }
pub proof fn lemma_covered(ins: Assets, ins2: Assets, outs: Assets, todo: Seq<(&TokenId, &TransactionAsset)>)
    requires todo.len() > 0, covered_but(ins, outs, todo), entries_of(outs, todo), at_least(ins2, ins), amount(ins2, *todo[0].0) >= todo[0].1.quantity.val()
    ensures covered_but(ins2, outs, todo.drop_first()), entries_of(outs, todo.drop_first())
{
    let d = todo.drop_first();
    assert forall|i: int| 0 <= i < d.len() implies outs.contains_key(*(#[trigger] d[i]).0) && *d[i].1 == outs[*d[i].0] by { assert(d[i] == todo[i + 1]); }
    assert forall|t: TokenId| #[trigger] outs.contains_key(t) implies amount(ins2, t) >= amount(outs, t) || exists|i: int| 0 <= i < d.len() && *(#[trigger] d[i]).0 == t by {
        assert(amount(ins2, t) >= amount(ins, t));
        if !(amount(ins, t) >= amount(outs, t)) {
            let i = choose|i: int| 0 <= i < todo.len() && *(#[trigger] todo[i]).0 == t;
            if i > 0 { assert(d[i - 1] == todo[i]); }
        }
    }
}
pub proof fn lemma_all_covered(ins: Assets, outs: Assets, todo: Seq<(&TokenId, &TransactionAsset)>)
    requires todo.len() == 0, covered_but(ins, outs, todo), forall|t: TokenId| #[trigger] amount(ins, t) >= 0real
    ensures at_least(ins, outs)
{
    assert forall|t: TokenId| #[trigger] amount(ins, t) >= amount(outs, t) by { if outs.contains_key(t) { assert(amount(ins, t) >= amount(outs, t) || exists|i: int| 0 <= i < todo.len() && *(#[trigger] todo[i]).0 == t); } }
}
pub proof fn lemma_start<E: TransactionFeeEstimator>(s: Setup, rest: UTxOStore, e0: E)
    requires proper(s), rest.wf()
    ensures forall|fee: Value<Regulated>| fee.val() >= 0real && fee.val() == e0.min_fee() ==> #[trigger] so_far(s, rest.held(), Seq::<UTxODetails>::empty(), rest, e0, e0, s.input_asset_balance@, s.input_balance, fee)
{
    let c = Seq::<UTxODetails>::empty();
    lemma_estimated_none(e0);
    assert(refs(c) =~= Seq::<&UTxODetails>::empty());
    assert(values_in(refs(c)) == 0real);
    assert forall|t: TokenId| #[trigger] amount(s.input_asset_balance@, t) == amount(s.input_asset_balance@, t) + assets_in(refs(c), t) && amount(s.input_asset_balance@, t) >= 0real by { assert(assets_in(refs(c), t) == 0real); }
}
impl LargestFirst {
    //@fn utxo-selection/src/algorithms/largest_first.rs | impl InputSelectionAlgorithm for LargestFirst | select_inputs
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@sig Estimate : TransactionFeeEstimator < InputUtxo = Self :: InputUtxo , OutputUtxo = Self :: OutputUtxo > , => Estimate: TransactionFeeEstimator
    //@sig InputOutputSetup < Self :: InputUtxo , Self :: OutputUtxo > => InputOutputSetup<UTxODetails, UTxOBuilder>
    //@sig InputSelectionResult < Self :: InputUtxo , Self :: OutputUtxo > => InputSelectionResult<UTxODetails, UTxOBuilder>
    //@use largest
    //@desugar for.it
    //@spec
        requires old(self).available_inputs.wf(), held_ok(old(self).available_inputs.held()), plain_held(old(self).available_inputs.held()), proper(input_output_setup)
        ensures
            r matches Ok(x) ==> {
                let m = old(self).available_inputs.held();
                &&& adds_up(x, input_output_setup) && covers(x)
                &&& picked(m, x.chosen_inputs@) && estimated(*old(estimator), *final(estimator), x.chosen_inputs@, x.fee.val())
                &&& final(self).available_inputs.wf() && left(final(self).available_inputs.held(), m, x.chosen_inputs@)
                &&& greedy(input_output_setup, *old(estimator), x.chosen_inputs@, final(self).available_inputs.held())
            },
            r matches Err(e) ==> *final(self) == *old(self),
            r matches Err(e) ==> anyhow::by_estimator(e)
                || (exists|t: TokenId| #[trigger] short_of(old(self).available_inputs.held(), input_output_setup, t))
                || short_of_main(old(self).available_inputs.held(), input_output_setup, *old(estimator), *final(estimator)),
    //@hint start
        let ghost s = input_output_setup;
        let ghost m = self.available_inputs.held();
        let ghost e0 = *estimator;
    //@hint before let mut __it0
        proof { lemma_start(s, utxos, e0); reveal(greedy); }
    //@loop 0
        invariant_except_break
            so_far(s, m, selected_inputs@, utxos, e0, *estimator, asset_input_balance@, input_balance, fee), greedy(s, e0, selected_inputs@, utxos.held()),
            covered_but(asset_input_balance@, s.output_asset_balance@, __it0@), entries_of(s.output_asset_balance@, __it0@),
        ensures
            so_far(s, m, selected_inputs@, utxos, e0, *estimator, asset_input_balance@, input_balance, fee), greedy(s, e0, selected_inputs@, utxos.held()),
            at_least(asset_input_balance@, s.output_asset_balance@),
        decreases __it0@.len()
    //@hint loop-start 0
        let ghost todo = __it0@;
        let ghost i0 = asset_input_balance@;
        proof { if todo.len() == 0 { lemma_all_covered(i0, s.output_asset_balance@, todo); } }
    //@hint before-loop 1
        proof {
            assert forall|t: TokenId| #[trigger] amount(asset_input_balance@, t) == amount(i0, t) by {}
        }
    //@loop 1
        invariant
            so_far(s, m, selected_inputs@, utxos, e0, *estimator, asset_input_balance@, input_balance, fee), greedy(s, e0, selected_inputs@, utxos.held()),
            token_input_balance.val() == amount(asset_input_balance@, *token), at_least(asset_input_balance@, i0),
        decreases utxos.held().dom().len()
    //@hint loop-start 1
        let ghost (c1, r1, e1, i1, t1, f1) = (selected_inputs@, utxos, *estimator, asset_input_balance@, input_balance, fee);
        proof {
            assert(lacks(s, e0, c1, *token));
            if !some_holder(r1.held(), *token) {
                lemma_all(m, r1.held(), c1, *token);
                assert(short_of(m, s, *token));
            }
        }
    //@hint loop-end 1
        proof {
            let u = selected_inputs@.last();
            assert(selected_inputs@ =~= c1.push(u));
            lemma_so_far(s, m, c1, r1, e0, e1, i1, t1, f1, u, utxos, *estimator, asset_input_balance@, input_balance, fee);
            lemma_greedy_more(s, e0, c1, r1.held(), u, *token, utxos.held());
        }
    //@hint after-loop 1
        proof { lemma_covered(i0, asset_input_balance@, s.output_asset_balance@, todo); assert(todo.drop_first() =~= __it0@); }
    //@loop 2
        invariant
            so_far(s, m, selected_inputs@, utxos, e0, *estimator, asset_input_balance@, input_balance, fee), greedy(s, e0, selected_inputs@, utxos.held()),
            at_least(asset_input_balance@, s.output_asset_balance@),
        decreases utxos.held().dom().len()
    //@hint loop-start 2
        let ghost (c2, r2, e2, i2, t2, f2) = (selected_inputs@, utxos, *estimator, asset_input_balance@, input_balance, fee);
        proof {
            assert(estimated(e0, e2, c2, fee.val()));
            assert(lacks(s, e0, c2, main_token()));
            if !some_holder(r2.held(), main_token()) {
                lemma_all(m, r2.held(), c2, main_token());
                assert(estimated(e0, e2, c2, fee.val()));
                assert(short_of_main(m, s, e0, e2));
            }
        }
    //@hint loop-end 2
        proof {
            let u = selected_inputs@.last();
            assert(selected_inputs@ =~= c2.push(u));
            lemma_so_far(s, m, c2, r2, e0, e2, i2, t2, f2, u, utxos, *estimator, asset_input_balance@, input_balance, fee);
            lemma_greedy_more(s, e0, c2, r2.held(), u, main_token(), utxos.held());
        }
    //@end
    //@fn utxo-selection/src/algorithms/largest_first.rs | impl TryFrom<UTxOStore> for LargestFirst | try_from
    //@as from_store
    //@sig Result < Self , Self :: Error > => anyhow::Result<Self>
    //@spec
        ensures r matches Ok(x) && x.available_inputs == value
    //@end
    //@fn utxo-selection/src/algorithms/largest_first.rs | impl TryFrom<Vec<UTxODetails>> for LargestFirst | try_from
    //@as from_list
    //@sig Result < Self , Self :: Error > => anyhow::Result<Self>
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@rewrite in value { => in into_it(value) {
    //@desugar for.it
    //@spec
        requires forall|i: int| 0 <= i < value@.len() ==> plain(#[trigger] value@[i])
        ensures made_of(r is Ok, value@), r matches Ok(x) ==> x.available_inputs.wf() && holds_list(x.available_inputs.held(), value@)
    //@loop 0
        invariant_except_break ({ let n = value@.len() - __it0@.len(); store.wf() && 0 <= n && __it0@ == value@.skip(n) && holds_list(store.held(), value@.take(n)) })
        ensures store.wf() && holds_list(store.held(), value@)
        decreases __it0@.len()
    //@hint loop-start 0
        proof {
            let n = value@.len() - __it0@.len();
            if n < value@.len() { lemma_step(store.held(), value@, n); }
            assert(value@.take(value@.len() as int) =~= value@);
        }
    //@end
    //@fn utxo-selection/src/algorithms/largest_first.rs | impl InputSelectionAlgorithm for LargestFirst | set_available_inputs
    //@sig Vec < Self :: InputUtxo > => Vec<UTxODetails>
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@rewrite available_inputs . into_iter ( ) => into_it(available_inputs)
    //@desugar for.it
    //@spec
        requires forall|i: int| 0 <= i < available_inputs@.len() ==> plain(#[trigger] available_inputs@[i])
        ensures
            made_of(r is Ok, available_inputs@),
            r is Ok ==> final(self).available_inputs.wf() && holds_list(final(self).available_inputs.held(), available_inputs@),
            r is Err ==> *final(self) == *old(self),
    //@loop 0
        invariant_except_break ({ let n = available_inputs@.len() - __it0@.len(); utxo_store.wf() && 0 <= n && __it0@ == available_inputs@.skip(n) && holds_list(utxo_store.held(), available_inputs@.take(n)) })
        ensures utxo_store.wf() && holds_list(utxo_store.held(), available_inputs@)
        decreases __it0@.len()
    //@hint loop-start 0
        proof {
            let n = available_inputs@.len() - __it0@.len();
            if n < available_inputs@.len() { lemma_step(utxo_store.held(), available_inputs@, n); }
            assert(available_inputs@.take(available_inputs@.len() as int) =~= available_inputs@);
        }
    //@end
    //@fn utxo-selection/src/algorithms/largest_first.rs | impl InputSelectionAlgorithm for LargestFirst | available_inputs
    //@sig Vec < Self :: InputUtxo > => Vec<UTxODetails>
    //@rewrite | ( _ , v ) | v . as_ref ( ) . clone ( ) => |e: (&UtxoPointer, &Arc<UTxODetails>)| -> (r: UTxODetails) ensures r == **e.1 { (**e.1).clone() }
    //@rewrite . collect :: < Vec < _ > > ( ) => .collect_vec()
    //@spec
        requires plain_held(self.available_inputs.held())
        ensures holds_list(self.available_inputs.held(), r@)
    //@hint start
        proof { lemma_listing(self.available_inputs.held()); }
    //@end
    //@fn utxo-selection/src/algorithms/largest_first.rs | impl UTxOStoreSupport for LargestFirst | set_available_utxos
    //@spec
        ensures r is Ok, final(self).available_inputs == utxos
    //@end
    //@fn utxo-selection/src/algorithms/largest_first.rs | impl UTxOStoreSupport for LargestFirst | get_available_utxos
    //@spec
        ensures *final(self) == *old(self), r matches Ok(s) && s.held() == old(self).available_inputs.held()
    //@end
}

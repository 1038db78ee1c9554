// what a selection adds up: the inputs chosen one by one, and their fees
/// the inputs chosen one by one, with the estimator's states from first to last
pub open spec fn told_all<E: TransactionFeeEstimator>(es: Seq<E>, chosen: Seq<UTxODetails>) -> bool {
    es.len() == chosen.len() + 1 && forall|i: int| 0 <= i < chosen.len() ==> (#[trigger] es[i]).told(chosen[i], &es[i + 1])
}
/// the fees the estimator named for them, one after the other
pub open spec fn fees<E: TransactionFeeEstimator>(es: Seq<E>, chosen: Seq<UTxODetails>) -> real
    decreases chosen.len()
{ if chosen.len() == 0 { 0real } else { fees(es.drop_last(), chosen.drop_last()) + es[chosen.len() - 1].fee_of(chosen.last()) } }
/// the estimator, asked for the chosen inputs, names this fee in all and ends up as e1
pub open spec fn estimated<E: TransactionFeeEstimator>(e0: E, e1: E, chosen: Seq<UTxODetails>, fee: real) -> bool {
    exists|es: Seq<E>| #![trigger told_all(es, chosen)] told_all(es, chosen) && es[0] == e0 && es.last() == e1 && fee == e0.min_fee() + fees(es, chosen)
}
pub proof fn lemma_estimated_none<E: TransactionFeeEstimator>(e: E)
    ensures estimated(e, e, Seq::empty(), e.min_fee())
{
    let es = seq![e];
    assert(told_all(es, Seq::<UTxODetails>::empty()));
    assert(fees(es, Seq::<UTxODetails>::empty()) == 0real);
}
pub proof fn lemma_estimated_one<E: TransactionFeeEstimator>(e0: E, e1: E, e2: E, chosen: Seq<UTxODetails>, fee: real, u: UTxODetails)
    requires estimated(e0, e1, chosen, fee), e1.told(u, &e2)
    ensures estimated(e0, e2, chosen.push(u), fee + e1.fee_of(u))
{
    let es = choose|es: Seq<E>| #![trigger told_all(es, chosen)] told_all(es, chosen) && es[0] == e0 && es.last() == e1 && fee == e0.min_fee() + fees(es, chosen);
    let fs = es.push(e2);
    let c = chosen.push(u);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] fs[i]).told(c[i], &fs[i + 1]) by {
        if i < chosen.len() { assert(fs[i] == es[i]); assert(fs[i + 1] == es[i + 1]); assert(c[i] == chosen[i]); }
    }
    assert(told_all(fs, c));
    assert(fs.drop_last() =~= es);
    assert(c.drop_last() =~= chosen);
}
pub proof fn lemma_values_push(s: Seq<UTxODetails>, u: UTxODetails)
    ensures values_in(refs(s.push(u))) == values_in(refs(s)) + u.value.val()
    decreases s.len()
{
    if s.len() == 0 { assert(refs(s.push(u)).drop_first() =~= Seq::empty()); assert(values_in(Seq::<&UTxODetails>::empty()) == 0real); }
    else {
        assert(refs(s.push(u)).drop_first() =~= refs(s.drop_first().push(u)));
        assert(refs(s).drop_first() =~= refs(s.drop_first()));
        lemma_values_push(s.drop_first(), u);
    }
}
pub proof fn lemma_assets_push(s: Seq<UTxODetails>, u: UTxODetails, t: TokenId)
    ensures assets_in(refs(s.push(u)), t) == assets_in(refs(s), t) + listed(refs(u.assets@), t)
    decreases s.len()
{
    if s.len() == 0 { assert(refs(s.push(u)).drop_first() =~= Seq::empty()); assert(assets_in(Seq::<&UTxODetails>::empty(), t) == 0real); }
    else {
        assert(refs(s.push(u)).drop_first() =~= refs(s.drop_first().push(u)));
        assert(refs(s).drop_first() =~= refs(s.drop_first()));
        lemma_assets_push(s.drop_first(), u, t);
    }
}
pub proof fn lemma_listed_ok(s: Seq<&TransactionAsset>, t: TokenId)
    requires assets_ok(s)
    ensures listed(s, t) >= 0real
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]).quantity.val() >= 0real by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_listed_ok(s.drop_first(), t);
    }
}
/// the amounts after adding a UTxO's assets
pub open spec fn with_assets(m2: Assets, m: Assets, u: UTxODetails) -> bool {
    forall|t: TokenId| #[trigger] amount(m2, t) == amount(m, t) + listed(refs(u.assets@), t)
}
pub type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
pub type Selected = InputSelectionResult<UTxODetails, UTxOBuilder>;
/// what a selection is given: its tables name no negative amounts, and keep the assets under their own names; the main token is not among them
pub open spec fn proper(s: Setup) -> bool {
    s.input_balance.val() >= 0real && s.output_balance.val() >= 0real && no_debts(s.input_asset_balance@) && no_debts(s.output_asset_balance@)
    && under_own_name(s.input_asset_balance@) && under_own_name(s.output_asset_balance@) && !s.output_asset_balance@.contains_key(main_token())
}
/// the reported totals are those of the setup and the chosen inputs, and the fixed inputs and outputs are the setup's
pub open spec fn adds_up(r: Selected, s: Setup) -> bool {
    &&& r.fixed_inputs == s.fixed_inputs && r.fixed_outputs == s.fixed_outputs && r.changes@.len() == 0
    &&& r.input_balance.val() == s.input_balance.val() + values_in(refs(r.chosen_inputs@))
    &&& (forall|t: TokenId| #[trigger] amount(r.input_asset_balance@, t) == amount(s.input_asset_balance@, t) + assets_in(refs(r.chosen_inputs@), t))
    &&& r.output_balance.val() == s.output_balance.val() && r.output_asset_balance@ == s.output_asset_balance@
}
/// outputs and fee are covered, token by token
pub open spec fn covers(r: Selected) -> bool {
    &&& r.input_balance.val() >= r.output_balance.val() + r.fee.val()
    &&& forall|t: TokenId| #[trigger] amount(r.input_asset_balance@, t) >= amount(r.output_asset_balance@, t)
}

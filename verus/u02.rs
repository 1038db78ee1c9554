// U02: change balancing
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/value_ops.rs
//@include inc/value_cmp.rs
use core::cmp::Ordering::{Equal, Greater, Less};
//@include inc/balance.rs
//@include inc/anyhow.rs
//@include inc/iters.rs
//@include inc/maps.rs
//@include inc/utxo_types.rs
//@include inc/selection.rs
//@include inc/estimator.rs
//@include inc/coins.rs
#[verifier::external_body] pub struct UTxOStore { s: u8 }
//@item utxo-selection/src/algorithms/balance_change_fee.rs | struct | FeeChangeBalancer
//@end
//@item utxo-selection/src/algorithms/balance_change_single_output.rs | struct | SingleOutputChangeBalancer
//@end

//@rules select
anyhow ! ( $x* ) => anyhow::error()
//@end
/// what a change balancer is given: no negative amount
pub open spec fn sound(s: InputOutputSetup<UTxODetails, UTxOBuilder>) -> bool {
    s.input_balance.val() >= 0real && s.output_balance.val() >= 0real && no_debts(s.input_asset_balance@) && no_debts(s.output_asset_balance@)
    && under_own_name(s.input_asset_balance@)
}
/// what is left of the main token with that fee, and of an asset, before any change
pub open spec fn left_main(s: InputOutputSetup<UTxODetails, UTxOBuilder>, fee: real) -> real { s.input_balance.val() - fee - s.output_balance.val() }
pub open spec fn left_of(s: InputOutputSetup<UTxODetails, UTxOBuilder>, t: TokenId) -> real { amount(s.input_asset_balance@, t) - amount(s.output_asset_balance@, t) }
/// why a balancing fails
pub open spec fn unmatched(s: InputOutputSetup<UTxODetails, UTxOBuilder>) -> bool { !same_amounts(s.input_asset_balance@, s.output_asset_balance@) }
pub open spec fn lacks(s: InputOutputSetup<UTxODetails, UTxOBuilder>, fee: real) -> bool { left_main(s, fee) < 0real || exists|t: TokenId| #[trigger] left_of(s, t) < 0real }
/// a change of all that is left, to the change address
pub open spec fn all_left(s: InputOutputSetup<UTxODetails, UTxOBuilder>, fee: real, c: UTxOBuilder) -> bool {
    &&& c.value.val() == left_main(s, fee) && s.change_address == Some(c.address)
    &&& forall|t: TokenId| #![trigger listed(refs(c.assets@), t)] #![trigger left_of(s, t)] listed(refs(c.assets@), t) == left_of(s, t)
    &&& named_as(c.assets@, s.input_asset_balance@)
}
/// assets keep the policy and the name they have in the inputs
pub open spec fn named_as(a: Seq<TransactionAsset>, m: Assets) -> bool {
    forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).fingerprint) && a[i].policy_id == m[a[i].fingerprint].policy_id && a[i].asset_name == m[a[i].fingerprint].asset_name
}
pub open spec fn same_text(a: Option<String>, b: Option<String>) -> bool { match (a, b) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
pub open spec fn paid(c: UTxOBuilder, fee: real, d: UTxOBuilder) -> bool {
    d.value.val() == c.value.val() - fee && d.address == c.address && d.assets == c.assets && d.extra == c.extra
}
pub type Res = InputSelectionResult<UTxODetails, UTxOBuilder>;
/// the result keeps the setup and its totals are those of the setup with the changes
pub open spec fn keeps(r: Res, s: InputOutputSetup<UTxODetails, UTxOBuilder>) -> bool {
    &&& r.fixed_inputs == s.fixed_inputs && r.fixed_outputs == s.fixed_outputs && r.chosen_inputs@.len() == 0
    &&& r.input_balance.val() == s.input_balance.val() && r.input_asset_balance@ == s.input_asset_balance@
    &&& r.output_balance.val() == s.output_balance.val() + values_out(refs(r.changes@))
    &&& forall|t: TokenId| #[trigger] amount(r.output_asset_balance@, t) == amount(s.output_asset_balance@, t) + assets_out(refs(r.changes@), t)
}
/// nothing is dropped or created: over the entries themselves
pub proof fn balanced_result(r: Res, s: InputOutputSetup<UTxODetails, UTxOBuilder>)
    requires keeps(r, s), r.totals_balance(), s.exact()
    ensures r.entries_balance()
{
    assert forall|t: TokenId| #[trigger] r.left_over(t) == 0real by {
        assert(r.ins() =~= refs(s.fixed_inputs@));
        lemma_coins_in(refs(s.fixed_inputs@), t);
        lemma_coins_out(refs(s.fixed_outputs@), t);
        lemma_coins_out(refs(r.changes@), t);
        lemma_out_cat(refs(r.fixed_outputs@), refs(r.changes@), t);
        assert(amount(r.input_asset_balance@, t) == amount(r.output_asset_balance@, t));
        assert(amount(s.input_asset_balance@, t) == assets_in(refs(s.fixed_inputs@), t));
        assert(amount(s.output_asset_balance@, t) == assets_out(refs(s.fixed_outputs@), t));
        assert(amount(r.output_asset_balance@, t) == amount(s.output_asset_balance@, t) + assets_out(refs(r.changes@), t));
    }
}
impl FeeChangeBalancer {
    //@fn utxo-selection/src/algorithms/balance_change_fee.rs | impl InputSelectionAlgorithm for FeeChangeBalancer | select_inputs
    //@sig Estimate : TransactionFeeEstimator < InputUtxo = Self :: InputUtxo , OutputUtxo = Self :: OutputUtxo > , => Estimate: TransactionFeeEstimator
    //@sig InputOutputSetup < Self :: InputUtxo , Self :: OutputUtxo > => InputOutputSetup<UTxODetails, UTxOBuilder>
    //@sig InputSelectionResult < Self :: InputUtxo , Self :: OutputUtxo > => InputSelectionResult<UTxODetails, UTxOBuilder>
    //@use select
    //@spec
        requires sound(input_output_setup)
        ensures
            r matches Ok(x) ==> x.no_negative_totals() && x.totals_balance() && keeps(x, input_output_setup) && x.changes@.len() == 0 && x.fee.val() >= old(estimator).min_fee(),
            r matches Err(e) ==> anyhow::by_estimator(e) || unmatched(input_output_setup) || lacks(input_output_setup, old(estimator).min_fee()),
    //@end
}
/// what the balances from here on hold of t
pub open spec fn rest(s: Seq<(TokenId, Balance<Regulated>)>, t: TokenId) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { (if s[0].0 == t { s[0].1.val() } else { 0real }) + rest(s.drop_first(), t) } }
pub proof fn lemma_rest_absent(s: Seq<(TokenId, Balance<Regulated>)>, t: TokenId)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != t
    ensures rest(s, t) == 0real
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]).0 != t by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_rest_absent(s.drop_first(), t);
    }
}
pub proof fn lemma_rest_at(s: Seq<(TokenId, Balance<Regulated>)>, t: TokenId, k: int)
    requires 0 <= k < s.len(), s[k].0 == t, forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures rest(s, t) == s[k].1.val()
    decreases s.len()
{
    let d = s.drop_first();
    if k == 0 {
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != t by { assert(d[i] == s[i + 1]); assert(s[0].0 != s[i + 1].0); }
        lemma_rest_absent(d, t);
    } else {
        assert(s[0].0 != s[k].0);
        assert(d[k - 1] == s[k]);
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(d[i] == s[i + 1]); assert(d[j] == s[j + 1]); assert(s[i + 1].0 != s[j + 1].0); }
        lemma_rest_at(d, t, k - 1);
    }
}
pub open spec fn rest_ok(s: Seq<(TokenId, Balance<Regulated>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.wf() }
pub proof fn lemma_rest()
    ensures
        forall|m: Balances, s: Seq<(TokenId, Balance<Regulated>)>, t: TokenId| lists_pairs(m, s) ==> #[trigger] rest(s, t) == #[trigger] signed(m, t),
        forall|s: Seq<(TokenId, Balance<Regulated>)>, t: TokenId| s.len() > 0 ==> rest(s, t) == (if s[0].0 == t { s[0].1.val() } else { 0real }) + #[trigger] rest(s.drop_first(), t),
{
    assert forall|m: Balances, s: Seq<(TokenId, Balance<Regulated>)>, t: TokenId| lists_pairs(m, s) implies #[trigger] rest(s, t) == #[trigger] signed(m, t) by {
        if m.contains_key(t) {
            let k = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t;
            lemma_rest_at(s, t, k);
        } else { lemma_rest_absent(s, t); }
    }
}
pub proof fn lemma_listed_push(s: Seq<TransactionAsset>, x: TransactionAsset, t: TokenId)
    ensures listed(refs(s.push(x)), t) == listed(refs(s), t) + (if x.fingerprint == t { x.quantity.val() } else { 0real })
    decreases s.len()
{
    if s.len() == 0 { assert(refs(s.push(x)).drop_first() =~= Seq::empty()); assert(listed(Seq::<&TransactionAsset>::empty(), t) == 0real); }
    else {
        assert(refs(s.push(x)).drop_first() =~= refs(s.drop_first().push(x)));
        assert(refs(s).drop_first() =~= refs(s.drop_first()));
        lemma_listed_push(s.drop_first(), x, t);
    }
}
pub proof fn lemma_pushes()
    ensures
        forall|s: Seq<TransactionAsset>, x: TransactionAsset, t: TokenId| #[trigger] listed(refs(s.push(x)), t) == listed(refs(s), t) + (if x.fingerprint == t { x.quantity.val() } else { 0real }),
        forall|s: Seq<TransactionAsset>, x: TransactionAsset| assets_ok(refs(s)) && x.quantity.val() >= 0real ==> assets_ok(#[trigger] refs(s.push(x))),
        forall|v: Seq<UTxOBuilder>| v.len() == 1 ==> #[trigger] values_out(refs(v)) == v[0].value.val(),
        forall|v: Seq<UTxOBuilder>, t: TokenId| v.len() == 1 ==> #[trigger] assets_out(refs(v), t) == listed(refs(v[0].assets@), t),
        forall|v: Seq<UTxOBuilder>, t: TokenId| v.len() == 0 ==> #[trigger] assets_out(refs(v), t) == 0real,
{
    assert forall|s: Seq<TransactionAsset>, x: TransactionAsset, t: TokenId| #[trigger] listed(refs(s.push(x)), t) == listed(refs(s), t) + (if x.fingerprint == t { x.quantity.val() } else { 0real }) by { lemma_listed_push(s, x, t); }
    assert forall|s: Seq<TransactionAsset>, x: TransactionAsset| assets_ok(refs(s)) && x.quantity.val() >= 0real implies assets_ok(#[trigger] refs(s.push(x))) by {
        assert forall|i: int| 0 <= i < refs(s.push(x)).len() implies (#[trigger] refs(s.push(x))[i]).quantity.val() >= 0real by { if i < s.len() { assert(refs(s)[i].quantity.val() >= 0real); } }
    }
    assert forall|v: Seq<UTxOBuilder>| v.len() == 1 implies #[trigger] values_out(refs(v)) == v[0].value.val() by { assert(refs(v).drop_first() =~= Seq::empty()); assert(values_out(Seq::<&UTxOBuilder>::empty()) == 0real); }
    assert forall|v: Seq<UTxOBuilder>, t: TokenId| v.len() == 1 implies #[trigger] assets_out(refs(v), t) == listed(refs(v[0].assets@), t) by { assert(refs(v).drop_first() =~= Seq::empty()); assert(assets_out(Seq::<&UTxOBuilder>::empty(), t) == 0real); }
}
impl SingleOutputChangeBalancer {
    pub closed spec fn note(self) -> Option<String> { self.extra }
    //@fn utxo-selection/src/algorithms/balance_change_single_output.rs | impl SingleOutputChangeBalancer | set_extra
    //@spec
        ensures final(self).note() == Some(extra)
    //@end
    //@fn utxo-selection/src/algorithms/balance_change_single_output.rs | impl InputSelectionAlgorithm for SingleOutputChangeBalancer | select_inputs
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@sig Estimate : TransactionFeeEstimator < InputUtxo = Self :: InputUtxo , OutputUtxo = Self :: OutputUtxo > , => Estimate: TransactionFeeEstimator
    //@sig InputOutputSetup < Self :: InputUtxo , Self :: OutputUtxo > => InputOutputSetup<UTxODetails, UTxOBuilder>
    //@sig InputSelectionResult < Self :: InputUtxo , Self :: OutputUtxo > => InputSelectionResult<UTxODetails, UTxOBuilder>
    //@use select
    //@desugar for.it opt.ok_or_else
    //@spec
        requires sound(input_output_setup)
        ensures
            r matches Ok(x) ==> x.no_negative_totals() && x.totals_balance() && keeps(x, input_output_setup) && x.changes@.len() == 1 && out_ok(x.changes@[0]),
            r matches Ok(x) ==> exists|c: UTxOBuilder| {
                &&& #[trigger] all_left(input_output_setup, old(estimator).min_fee(), c)
                &&& paid(c, old(estimator).fee_of_output(c), x.changes@[0]) && x.fee.val() == old(estimator).min_fee() + old(estimator).fee_of_output(c)
                &&& same_text(x.changes@[0].extra, old(self).note()) && old(estimator).told_of(x.changes@[0], final(estimator))
            },
            r matches Err(e) ==> anyhow::by_estimator(e) || input_output_setup.change_address is None || lacks(input_output_setup, old(estimator).min_fee())
                || exists|c: UTxOBuilder| #[trigger] all_left(input_output_setup, old(estimator).min_fee(), c) && c.value.val() < old(estimator).fee_of_output(c),
    //@hint start
        proof { lemma_rest(); lemma_pushes(); lemma_steps(); }
        let ghost s0 = input_output_setup;
        let ghost e0 = *estimator;
        let ghost mut c0 = arbitrary::<UTxOBuilder>();
    //@hint before match asset_balance
        proof { assert(left_of(s0, token) == asset_balance.val()); assert(amount(s0.output_asset_balance@, token) >= 0real); }
    //@hint before change_assets . push
        proof { assert(asset.fingerprint == token && s0.input_asset_balance@.contains_key(token)); }
    //@hint before let fee_for_change
        proof {
            assert forall|t: TokenId| #![trigger listed(refs(change.assets@), t)] #![trigger left_of(s0, t)] listed(refs(change.assets@), t) == left_of(s0, t) by { assert(signed(asset_balances@, t) == left_of(s0, t)); }
            assert(all_left(s0, e0.min_fee(), change));
            c0 = change;
        }
    //@hint before let output_balance
        proof { assert(paid(c0, e0.fee_of_output(c0), change)); }
    //@loop 0
        invariant_except_break rest_ok(__it0@), assets_ok(refs(change_assets@)), named_as(change_assets@, s0.input_asset_balance@),
            forall|i: int| 0 <= i < __it0@.len() ==> signed(asset_balances@, (#[trigger] __it0@[i]).0) == __it0@[i].1.val(),
            forall|t: TokenId| #![trigger listed(refs(change_assets@), t)] #![trigger rest(__it0@, t)] listed(refs(change_assets@), t) + rest(__it0@, t) == signed(asset_balances@, t),
        ensures assets_ok(refs(change_assets@)), named_as(change_assets@, s0.input_asset_balance@),
            forall|t: TokenId| #![trigger listed(refs(change_assets@), t)] #![trigger signed(asset_balances@, t)] listed(refs(change_assets@), t) == signed(asset_balances@, t),
        decreases __it0@.len()
    //@loop 1
        invariant_except_break assets_ok(__it1@), no_debts(output_asset_balance@),
            forall|t: TokenId| #![trigger amount(output_asset_balance@, t)] #![trigger listed(__it1@, t)] amount(output_asset_balance@, t) + listed(__it1@, t) == amount(input_output_setup.output_asset_balance@, t) + listed(refs(change.assets@), t),
        ensures no_debts(output_asset_balance@),
            forall|t: TokenId| #[trigger] amount(output_asset_balance@, t) == amount(input_output_setup.output_asset_balance@, t) + listed(refs(change.assets@), t),
        decreases __it1@.len()
    //@end
}
} // verus!

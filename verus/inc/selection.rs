// utxo-selection: the common types and the balances of common.rs, extracted
//@item core/src/tx/utxo.rs | struct | UTxOBuilder
//@end
impl Clone for Address { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// derive(Clone): equal in every amount
impl Clone for TransactionAsset { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for UTxODetails { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for UTxOBuilder { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl TransactionAsset {
    //@fn core/src/tx/transaction_asset.rs | impl TransactionAsset | new
    //@rewrite Default :: default ( ) => Value::default()
    //@spec
        ensures r.fingerprint == fingerprint, r.quantity.val() == 0real
    //@end
}
impl UTxOBuilder {
    //@fn core/src/tx/utxo.rs | impl UTxOBuilder | new
    //@spec
        ensures r.value == value, r.assets == assets
    //@end
}
// std's Entry::or_default for the value types in use
impl<'a> Entry<'a, TokenId, Balance<Regulated>> {
    #[verifier::external_body] pub fn or_default(self) -> (r: &'a mut Balance<Regulated>)
        ensures
            self.after()@ == self.map()@.insert(self.key(), *final(r)),
            self is Occupied ==> *r == self.map()@[self.key()],
            self is Vacant ==> r.wf() && r.val() == 0real,
    { unimplemented!() }
}
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::external_body] pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures
            self.after()@ == self.map()@.insert(self.key(), *final(r)),
            self is Occupied ==> *r == self.map()@[self.key()],
            self is Vacant ==> *r == v,
    { unimplemented!() }
}

// ---- what is in a list, per token ------------------------------------------------------------------
pub type Assets = Map<TokenId, TransactionAsset>;
pub type Balances = Map<TokenId, Balance<Regulated>>;
/// the amount of t a per-token table names
pub open spec fn amount(m: Assets, t: TokenId) -> real { if m.contains_key(t) { m[t].quantity.val() } else { 0real } }
pub open spec fn signed(m: Balances, t: TokenId) -> real { if m.contains_key(t) { m[t].val() } else { 0real } }
pub open spec fn no_debts(m: Assets) -> bool { forall|t: TokenId| #[trigger] m.contains_key(t) ==> m[t].quantity.val() >= 0real }
/// each asset is kept under its own name
pub open spec fn under_own_name(m: Assets) -> bool { forall|t: TokenId| #[trigger] m.contains_key(t) ==> m[t].fingerprint == t }
pub open spec fn canonical(m: Balances) -> bool { forall|t: TokenId| #[trigger] m.contains_key(t) ==> m[t].wf() }
/// what the entries from here on name of t
pub open spec fn named(s: Seq<(&TokenId, &TransactionAsset)>, t: TokenId) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { (if *s[0].0 == t { s[0].1.quantity.val() } else { 0real }) + named(s.drop_first(), t) } }
/// the sum of t over a list of assets
pub open spec fn listed(s: Seq<&TransactionAsset>, t: TokenId) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { (if s[0].fingerprint == t { s[0].quantity.val() } else { 0real }) + listed(s.drop_first(), t) } }
/// all of token t in one UTxO or output
pub open spec fn coins(value: real, assets: Seq<TransactionAsset>, t: TokenId) -> real { (if t == main_token() { value } else { 0real }) + listed(refs(assets), t) }
/// the sums over a list of UTxOs: of the main amounts, of the assets, and of both
pub open spec fn values_in(s: Seq<&UTxODetails>) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { s[0].value.val() + values_in(s.drop_first()) } }
pub open spec fn assets_in(s: Seq<&UTxODetails>, t: TokenId) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { listed(refs(s[0].assets@), t) + assets_in(s.drop_first(), t) } }
pub open spec fn coins_in(s: Seq<&UTxODetails>, t: TokenId) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { coins(s[0].value.val(), s[0].assets@, t) + coins_in(s.drop_first(), t) } }
pub open spec fn values_out(s: Seq<&UTxOBuilder>) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { s[0].value.val() + values_out(s.drop_first()) } }
pub open spec fn assets_out(s: Seq<&UTxOBuilder>, t: TokenId) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { listed(refs(s[0].assets@), t) + assets_out(s.drop_first(), t) } }
pub open spec fn coins_out(s: Seq<&UTxOBuilder>, t: TokenId) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { coins(s[0].value.val(), s[0].assets@, t) + coins_out(s.drop_first(), t) } }
/// no amount is negative
pub open spec fn assets_ok(s: Seq<&TransactionAsset>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).quantity.val() >= 0real }
pub open spec fn utxo_ok(u: UTxODetails) -> bool { u.value.val() >= 0real && assets_ok(refs(u.assets@)) }
pub open spec fn out_ok(u: UTxOBuilder) -> bool { u.value.val() >= 0real && assets_ok(refs(u.assets@)) }
pub open spec fn utxos_ok(s: Seq<&UTxODetails>) -> bool { forall|i: int| 0 <= i < s.len() ==> utxo_ok(*#[trigger] s[i]) }
pub open spec fn outs_ok(s: Seq<&UTxOBuilder>) -> bool { forall|i: int| 0 <= i < s.len() ==> out_ok(*#[trigger] s[i]) }
/// unfolding the sums by one element
pub proof fn lemma_steps()
    ensures
        forall|s: Seq<&TransactionAsset>, t: TokenId| s.len() > 0 ==> listed(s, t) == (if s[0].fingerprint == t { s[0].quantity.val() } else { 0real }) + #[trigger] listed(s.drop_first(), t),
        forall|s: Seq<&UTxODetails>, t: TokenId| s.len() > 0 ==> coins_in(s, t) == coins(s[0].value.val(), s[0].assets@, t) + #[trigger] coins_in(s.drop_first(), t),
        forall|s: Seq<&UTxOBuilder>, t: TokenId| s.len() > 0 ==> coins_out(s, t) == coins(s[0].value.val(), s[0].assets@, t) + #[trigger] coins_out(s.drop_first(), t),
        forall|s: Seq<&UTxODetails>, t: TokenId| s.len() > 0 ==> assets_in(s, t) == listed(refs(s[0].assets@), t) + #[trigger] assets_in(s.drop_first(), t),
        forall|s: Seq<&UTxOBuilder>, t: TokenId| s.len() > 0 ==> assets_out(s, t) == listed(refs(s[0].assets@), t) + #[trigger] assets_out(s.drop_first(), t),
{}

pub proof fn lemma_named_absent(s: Seq<(&TokenId, &TransactionAsset)>, t: TokenId)
    requires forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 != t
    ensures named(s, t) == 0real
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies *(#[trigger] s.drop_first()[i]).0 != t by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_named_absent(s.drop_first(), t);
    }
}
pub proof fn lemma_named_at(s: Seq<(&TokenId, &TransactionAsset)>, t: TokenId, k: int)
    requires 0 <= k < s.len(), *s[k].0 == t, forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    ensures named(s, t) == s[k].1.quantity.val()
    decreases s.len()
{
    let d = s.drop_first();
    if k == 0 {
        assert forall|i: int| 0 <= i < d.len() implies *(#[trigger] d[i]).0 != t by { assert(d[i] == s[i + 1]); assert(*s[0].0 != *s[i + 1].0); }
        lemma_named_absent(d, t);
    } else {
        assert(*s[0].0 != *s[k].0);
        assert(d[k - 1] == s[k]);
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies *(#[trigger] d[i]).0 != *(#[trigger] d[j]).0 by { assert(d[i] == s[i + 1]); assert(d[j] == s[j + 1]); assert(*s[i + 1].0 != *s[j + 1].0); }
        lemma_named_at(d, t, k - 1);
    }
}
pub proof fn lemma_named_step()
    ensures forall|s: Seq<(&TokenId, &TransactionAsset)>, t: TokenId| s.len() > 0 ==> named(s, t) == (if *s[0].0 == t { s[0].1.quantity.val() } else { 0real }) + #[trigger] named(s.drop_first(), t)
{}
/// enumerating a table names of each token what the table holds of it
pub proof fn lemma_named(m: Assets)
    ensures forall|s: Seq<(&TokenId, &TransactionAsset)>, t: TokenId| lists_entries(m, s) ==> #[trigger] named(s, t) == amount(m, t)
{
    assert forall|s: Seq<(&TokenId, &TransactionAsset)>, t: TokenId| lists_entries(m, s) implies #[trigger] named(s, t) == amount(m, t) by {
        if m.contains_key(t) {
            let k = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == t;
            lemma_named_at(s, t, k);
        } else { lemma_named_absent(s, t); }
    }
}
pub open spec fn quantities_ok(s: Seq<(&TokenId, &TransactionAsset)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.quantity.val() >= 0real }
pub open spec fn all_zero(s: Seq<&Balance<Regulated>>) -> bool
    decreases s.len()
{ s.len() == 0 || (s[0].val() == 0real && all_zero(s.drop_first())) }
pub proof fn lemma_zeros(s: Seq<&Balance<Regulated>>)
    ensures all_zero(s) == forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val() == 0real
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_first();
        lemma_zeros(d);
        if all_zero(s) {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).val() == 0real by { if i > 0 { assert(d[i - 1] == s[i]); } }
        }
        if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val() == 0real {
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).val() == 0real by { assert(d[i] == s[i + 1]); }
        }
    }
}
/// the two tables name the same amount of every token
pub open spec fn same_amounts(a: Assets, b: Assets) -> bool { forall|t: TokenId| #![trigger amount(a, t)] #![trigger amount(b, t)] amount(a, t) == amount(b, t) }
pub open spec fn difference(m: Balances, a: Assets, b: Assets) -> bool { forall|t: TokenId| #[trigger] signed(m, t) == amount(a, t) - amount(b, t) }
pub proof fn lemma_same(a: Assets, b: Assets)
    ensures forall|m: Balances| #[trigger] difference(m, a, b) ==> zero_map(m) == same_amounts(a, b)
{
    assert forall|m: Balances| #[trigger] difference(m, a, b) implies zero_map(m) == same_amounts(a, b) by {
        if zero_map(m) { assert forall|t: TokenId| #![trigger amount(a, t)] #![trigger amount(b, t)] amount(a, t) == amount(b, t) by { assert(signed(m, t) == 0real); } }
        if same_amounts(a, b) { assert forall|t: TokenId| #[trigger] signed(m, t) == 0real by { assert(amount(a, t) == amount(b, t)); } }
    }
}
pub open spec fn all_canonical(s: Seq<&Balance<Regulated>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub open spec fn zero_map(m: Balances) -> bool { forall|t: TokenId| #[trigger] signed(m, t) == 0real }
/// all balances listed are zero exactly when the table's are
pub proof fn lemma_all_zero(m: Balances)
    ensures
        forall|ks: Seq<TokenId>, s: Seq<&Balance<Regulated>>| #[trigger] lists_values(m, ks, s) ==> all_zero(s) == zero_map(m),
        forall|ks: Seq<TokenId>, s: Seq<&Balance<Regulated>>| #[trigger] lists_values(m, ks, s) && canonical(m) ==> all_canonical(s),
{
    assert forall|ks: Seq<TokenId>, s: Seq<&Balance<Regulated>>| #[trigger] lists_values(m, ks, s) implies all_zero(s) == zero_map(m) by {
        lemma_zeros(s);
        if all_zero(s) {
            assert forall|t: TokenId| #[trigger] signed(m, t) == 0real by {
                if m.contains_key(t) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == t; assert(s[i].val() == 0real); }
            }
        }
        if zero_map(m) {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).val() == 0real by { assert(signed(m, ks[i]) == 0real); }
        }
    }
    assert forall|ks: Seq<TokenId>, s: Seq<&Balance<Regulated>>| #[trigger] lists_values(m, ks, s) && canonical(m) implies all_canonical(s) by {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).wf() by { assert(m.contains_key(ks[i])); }
    }
}
//@item utxo-selection/src/common.rs | struct | InputOutputSetup
//@end
//@item utxo-selection/src/common.rs | struct | InputSelectionResult
//@end
//@rules common
Balance :: zero ( ) => Balance::<Regulated>::zero()
//@end
//@fn utxo-selection/src/common.rs |  | calculate_main_token_balance
//@use common
//@spec
    requires input_balance.val() >= 0real, output_balance.val() >= 0real, fee.val() >= 0real
    ensures r.wf(), r.val() == input_balance.val() - output_balance.val() - fee.val()
//@end
//@fn utxo-selection/src/common.rs |  | calculate_asset_balance
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@desugar for.it
//@spec
    requires no_debts(input_asset_balance@), no_debts(output_asset_balance@)
    ensures canonical(r@), difference(r@, input_asset_balance@, output_asset_balance@)
//@hint start
    proof { lemma_named_step(); lemma_named(input_asset_balance@); lemma_named(output_asset_balance@); }
//@loop 0
    invariant_except_break quantities_ok(__it0@), canonical(token_balances@),
        forall|t: TokenId| #![trigger signed(token_balances@, t)] #![trigger named(__it0@, t)] signed(token_balances@, t) + named(__it0@, t) == amount(input_asset_balance@, t),
    ensures canonical(token_balances@), forall|t: TokenId| #[trigger] signed(token_balances@, t) == amount(input_asset_balance@, t),
    decreases __it0@.len()
//@loop 1
    invariant_except_break quantities_ok(__it1@), canonical(token_balances@),
        forall|t: TokenId| #![trigger signed(token_balances@, t)] #![trigger named(__it1@, t)] signed(token_balances@, t) - named(__it1@, t) == amount(input_asset_balance@, t) - amount(output_asset_balance@, t),
    ensures canonical(token_balances@), difference(token_balances@, input_asset_balance@, output_asset_balance@),
    decreases __it1@.len()
//@end
//@fn utxo-selection/src/common.rs |  | are_assets_balanced
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@desugar for.it
//@spec
    requires no_debts(input_asset_balance@), no_debts(output_asset_balance@)
    ensures r == same_amounts(input_asset_balance@, output_asset_balance@)
//@hint start
    proof { lemma_same(input_asset_balance@, output_asset_balance@); lemma_same(output_asset_balance@, input_asset_balance@); }
//@hint before-loop 0
    proof { lemma_all_zero(token_balances@); }
//@loop 0
    invariant_except_break all_canonical(__it0@), all_zero(__it0@) == zero_map(token_balances@),
    ensures zero_map(token_balances@)
    decreases __it0@.len()
//@end

pub open spec fn grows(m: Assets, t: TokenId, so_far: real, all: real) -> bool { amount(m, t) + so_far == all }
impl InputOutputSetup<UTxODetails, UTxOBuilder> {
    /// the balances are the sums of the fixed inputs and outputs
    pub open spec fn exact(self) -> bool {
        &&& under_own_name(self.input_asset_balance@) && under_own_name(self.output_asset_balance@)
        &&& self.input_balance.val() == values_in(refs(self.fixed_inputs@))
        &&& self.output_balance.val() == values_out(refs(self.fixed_outputs@))
        &&& forall|t: TokenId| #[trigger] amount(self.input_asset_balance@, t) == assets_in(refs(self.fixed_inputs@), t)
        &&& forall|t: TokenId| #[trigger] amount(self.output_asset_balance@, t) == assets_out(refs(self.fixed_outputs@), t)
    }
    //@fn utxo-selection/src/common.rs | impl InputOutputSetup<UTxODetails, UTxOBuilder> | from_fixed_inputs_and_outputs
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@desugar for.it
    //@spec
        ensures r.exact(), r.fixed_inputs == inputs, r.fixed_outputs == outputs, r.change_address == change_address
    //@hint start
        proof { lemma_steps(); }
    //@loop 0
        invariant_except_break under_own_name(input_asset_balance@), input_balance.val() + values_in(__it0@) == values_in(refs(inputs@)),
            forall|t: TokenId| #![trigger amount(input_asset_balance@, t)] #![trigger assets_in(__it0@, t)] amount(input_asset_balance@, t) + assets_in(__it0@, t) == assets_in(refs(inputs@), t),
        ensures under_own_name(input_asset_balance@), input_balance.val() == values_in(refs(inputs@)),
            forall|t: TokenId| #[trigger] amount(input_asset_balance@, t) == assets_in(refs(inputs@), t),
        decreases __it0@.len()
    //@loop 1
        invariant_except_break under_own_name(input_asset_balance@),
            forall|t: TokenId| #![trigger amount(input_asset_balance@, t)] #![trigger listed(__it1@, t)] amount(input_asset_balance@, t) + listed(__it1@, t) + assets_in(__it0@, t) == assets_in(refs(inputs@), t),
        ensures under_own_name(input_asset_balance@),
            forall|t: TokenId| #![trigger amount(input_asset_balance@, t)] #![trigger assets_in(__it0@, t)] amount(input_asset_balance@, t) + assets_in(__it0@, t) == assets_in(refs(inputs@), t),
        decreases __it1@.len()
    //@loop 2
        invariant_except_break under_own_name(output_asset_balance@), output_balance.val() + values_out(__it2@) == values_out(refs(outputs@)),
            forall|t: TokenId| #![trigger amount(output_asset_balance@, t)] #![trigger assets_out(__it2@, t)] amount(output_asset_balance@, t) + assets_out(__it2@, t) == assets_out(refs(outputs@), t),
        ensures under_own_name(output_asset_balance@), output_balance.val() == values_out(refs(outputs@)),
            forall|t: TokenId| #[trigger] amount(output_asset_balance@, t) == assets_out(refs(outputs@), t),
        decreases __it2@.len()
    //@loop 3
        invariant_except_break under_own_name(output_asset_balance@),
            forall|t: TokenId| #![trigger amount(output_asset_balance@, t)] #![trigger listed(__it3@, t)] amount(output_asset_balance@, t) + listed(__it3@, t) + assets_out(__it2@, t) == assets_out(refs(outputs@), t),
        ensures under_own_name(output_asset_balance@),
            forall|t: TokenId| #![trigger amount(output_asset_balance@, t)] #![trigger assets_out(__it2@, t)] amount(output_asset_balance@, t) + assets_out(__it2@, t) == assets_out(refs(outputs@), t),
        decreases __it3@.len()
    //@end
}
impl<InputUtxo: Clone, OutputUtxo: Clone> InputSelectionResult<InputUtxo, OutputUtxo> {
    pub open spec fn no_negative_totals(self) -> bool {
        self.input_balance.val() >= 0real && self.output_balance.val() >= 0real && self.fee.val() >= 0real && no_debts(self.input_asset_balance@) && no_debts(self.output_asset_balance@)
    }
    /// the reported totals balance
    pub open spec fn totals_balance(self) -> bool {
        self.input_balance.val() - self.output_balance.val() - self.fee.val() == 0real && same_amounts(self.input_asset_balance@, self.output_asset_balance@)
    }
    //@fn utxo-selection/src/common.rs | impl<InputUtxo: Clone, OutputUtxo: Clone> InputSelectionResult<InputUtxo, OutputUtxo> | is_balanced
    //@spec
        requires self.no_negative_totals()
        ensures r == self.totals_balance()
    //@end
}
impl InputSelectionResult<UTxODetails, UTxOBuilder> {
    pub open spec fn ins(self) -> Seq<&'static UTxODetails> { refs(self.fixed_inputs@) + refs(self.chosen_inputs@) }
    pub open spec fn outs(self) -> Seq<&'static UTxOBuilder> { refs(self.fixed_outputs@) + refs(self.changes@) }
    /// what comes in less what goes out, of token t
    pub open spec fn left_over(self, t: TokenId) -> real { coins_in(self.ins(), t) - coins_out(self.outs(), t) - (if t == main_token() { self.fee.val() } else { 0real }) }
    pub open spec fn entries_balance(self) -> bool { forall|t: TokenId| #[trigger] self.left_over(t) == 0real }
    //@fn utxo-selection/src/common.rs | impl InputSelectionResult<UTxODetails, UTxOBuilder> | are_utxos_balanced
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@desugar for.it
    //@spec
        requires self.no_negative_totals(), utxos_ok(self.ins()), outs_ok(self.outs())
        ensures r == (self.totals_balance() && self.entries_balance())
    //@hint start
        proof { lemma_steps(); }
    //@loop 0
        invariant_except_break utxos_ok(__it0@), canonical(tokens_map@),
            forall|t: TokenId| #![trigger signed(tokens_map@, t)] #![trigger coins_in(__it0@, t)] signed(tokens_map@, t) + coins_in(__it0@, t) == coins_in(self.ins(), t),
        ensures canonical(tokens_map@),
            forall|t: TokenId| #[trigger] signed(tokens_map@, t) == coins_in(self.ins(), t),
        decreases __it0@.len()
    //@loop 1
        invariant_except_break assets_ok(__it1@), canonical(tokens_map@),
            forall|t: TokenId| #![trigger signed(tokens_map@, t)] #![trigger listed(__it1@, t)] signed(tokens_map@, t) + listed(__it1@, t) + coins_in(__it0@, t) == coins_in(self.ins(), t),
        ensures canonical(tokens_map@),
            forall|t: TokenId| #![trigger signed(tokens_map@, t)] #![trigger coins_in(__it0@, t)] signed(tokens_map@, t) + coins_in(__it0@, t) == coins_in(self.ins(), t),
        decreases __it1@.len()
    //@loop 2
        invariant_except_break outs_ok(__it2@), canonical(tokens_map@),
            forall|t: TokenId| #![trigger signed(tokens_map@, t)] #![trigger coins_out(__it2@, t)] signed(tokens_map@, t) - coins_out(__it2@, t) == coins_in(self.ins(), t) - coins_out(self.outs(), t),
        ensures canonical(tokens_map@),
            forall|t: TokenId| #![trigger signed(tokens_map@, t)] #![trigger coins_in(self.ins(), t)] signed(tokens_map@, t) == coins_in(self.ins(), t) - coins_out(self.outs(), t),
        decreases __it2@.len()
    //@loop 3
        invariant_except_break assets_ok(__it3@), canonical(tokens_map@),
            forall|t: TokenId| #![trigger signed(tokens_map@, t)] #![trigger listed(__it3@, t)] signed(tokens_map@, t) - listed(__it3@, t) - coins_out(__it2@, t) == coins_in(self.ins(), t) - coins_out(self.outs(), t),
        ensures canonical(tokens_map@),
            forall|t: TokenId| #![trigger signed(tokens_map@, t)] #![trigger coins_out(__it2@, t)] signed(tokens_map@, t) - coins_out(__it2@, t) == coins_in(self.ins(), t) - coins_out(self.outs(), t),
        decreases __it3@.len()
    //@hint before-loop 4
        proof { lemma_all_zero(tokens_map@);
            assert forall|t: TokenId| #[trigger] signed(tokens_map@, t) == self.left_over(t) by {
                assert(signed(__g, t) == coins_in(self.ins(), t) - coins_out(self.outs(), t));
                if t == main_token() { assert(signed(tokens_map@, t) == signed(__g, t) - self.fee.val()); } else { assert(signed(tokens_map@, t) == signed(__g, t)); }
            }
            lemma_zero_left(*self, tokens_map@); }
    //@hint after-loop 2
        let ghost __g = tokens_map@;
    //@loop 4
        invariant_except_break all_canonical(__it4@), all_zero(__it4@) == zero_map(tokens_map@),
        ensures zero_map(tokens_map@)
        decreases __it4@.len()
    //@end
}
pub proof fn lemma_zero_left(s: InputSelectionResult<UTxODetails, UTxOBuilder>, m: Balances)
    requires forall|t: TokenId| #[trigger] signed(m, t) == s.left_over(t)
    ensures zero_map(m) == s.entries_balance()
{
    if zero_map(m) { assert forall|t: TokenId| #[trigger] s.left_over(t) == 0real by { assert(signed(m, t) == 0real); } }
    if s.entries_balance() { assert forall|t: TokenId| #[trigger] signed(m, t) == 0real by { assert(s.left_over(t) == 0real); } }
}

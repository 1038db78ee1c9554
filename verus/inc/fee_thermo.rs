// the estimator that reckons with fixed sizes (utxo-selection/src/estimators/thermostat_estimator.rs)
#[verifier::external_body] #[derive(Debug)] pub struct ParseBigDecimalError { e: u8 }
pub mod deps { pub mod bigdecimal { pub use super::super::ParseBigDecimalError; } }
//@item core/src/value.rs | enum | ValueFromStrError
//@rewrite pub enum => #[derive(Debug)] pub enum
//@end
/// a text of digits reads as the number they stand for, with no decimals
#[verifier::external_body] pub fn parse_decimal(s: &str) -> (r: Result<BigDecimal, ParseBigDecimalError>)
    ensures digits(s@) ==> (r matches Ok(d) && d.val() == (number(s@) as real) && d.scale() == 0)
{ unimplemented!() }
/// an output as CML has it
#[verifier::external_body] pub struct TransactionOutput { o: u8 }
pub uninterp spec fn as_cml(o: UTxOBuilder) -> TransactionOutput;
/// the least amount the ledger lets an output carry, at this price per byte
pub uninterp spec fn least(per_byte: BigNum, o: TransactionOutput) -> u64;
#[verifier::external_body] pub fn utxo_builder_to_cml_output(o: &UTxOBuilder) -> (r: anyhow::Result<TransactionOutput>)
    ensures r matches Ok(t) ==> t == as_cml(*o), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
/// min_ada::min_pure_ada of its address, datum and script
#[verifier::external_body] pub fn min_pure_ada(per_byte: &BigNum, o: &TransactionOutput) -> (r: anyhow::Result<BigNum>)
    ensures r matches Ok(n) ==> n.0 == least(*per_byte, *o), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
//@rules cmlout
cardano_multiplatform_lib :: ledger :: babbage :: min_ada :: min_pure_ada ( & $b , & $o! . address ( ) , & $p! . datum ( ) , & $q! . script_ref ( ) , ) . map_err ( $x ) => min_pure_ada(&$b, &$o)
u64 :: from ( $x ) => $x.0
Value :: from ( $x ) => Value::from_u64($x)
//@end
//@rules fees
$s! . parse ( ) ? => (match parse_decimal($s) { Ok(__v) => __v, Err(__e) => return Err(ValueFromStrError::InvalidDecimal(__e)) })
$v! . to_str ( ) . parse ( ) . unwrap ( ) => Value::<Regulated>::from_str($v.to_str().as_str()).unwrap()
Self :: InputUtxo => UTxODetails
Self :: OutputUtxo => UTxOBuilder
//@end
impl Value<Regulated> {
    //@fn core/src/value.rs | impl FromStr for Value<Regulated> | from_str
    //@use fees
    //@sig Self :: Err => ValueFromStrError
    //@spec
        ensures numeral(s@) ==> (r matches Ok(v) && v.val() == (number(s@) as real))
    //@hint start
        proof { lemma_number(s@); }
    //@end
}
proof fn lemma_number(s: Seq<char>)
    ensures digits(s) ==> number(s) >= 0
    decreases s.len()
{ reveal_with_fuel(number, 2); if digits(s) { assert('0' <= s.last()); } if digits(s) && s.len() > 1 { assert forall|i: int| 0 <= i < s.drop_last().len() implies '0' <= #[trigger] s.drop_last()[i] <= '9' by { assert(s.drop_last()[i] == s[i]); } lemma_number(s.drop_last()); } else if digits(s) { assert(s.drop_last() =~= Seq::<char>::empty()); assert('0' <= s[0]); } }
//@item utxo-selection/src/estimators/thermostat_estimator.rs | struct | ThermostatFeeEstimator
//@end
proof fn lemma_price(n: NetworkInfo, bytes: int)
    requires n.usable(), bytes >= 0
    ensures n.per_byte() >= 0, n.base() >= 0, n.per_byte() * bytes >= 0
{
    if let NetworkInfo::Custom { linear_fee_coefficient, linear_fee_constant, .. } = n { lemma_number(linear_fee_coefficient@); lemma_number(linear_fee_constant@); }
    let c = n.per_byte();
    assert(c * bytes >= 0) by (nonlinear_arith) requires c >= 0, bytes >= 0;
}
proof fn lemma_prices(n: NetworkInfo, plan: MultisigPlan)
    requires n.usable(), script_len(script_of(plan)) >= 0
    ensures n.per_byte() * EMPTY + n.base() >= 0, n.per_byte() * INPUT >= 0, n.per_byte() * OUTPUT >= 0, n.per_byte() * script_len(script_of(plan)) >= 0,
        ((n.per_byte() * WITNESS) as real) * (plan.quorum as int as real) >= 0real,
{
    assert(EMPTY >= 0 && INPUT >= 0 && OUTPUT >= 0 && WITNESS >= 0);
    lemma_price(n, EMPTY); lemma_price(n, INPUT); lemma_price(n, OUTPUT); lemma_price(n, WITNESS); lemma_price(n, script_len(script_of(plan)));
    let (a, b) = ((n.per_byte() * WITNESS) as real, plan.quorum as int as real);
    assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real;
}
impl ThermostatFeeEstimator {
    /// no cost is negative
    pub closed spec fn inv(self) -> bool {
        self.cost_empty.val() >= 0real && self.cost_input.val() >= 0real && self.cost_output.val() >= 0real && self.cost_metadata.val() >= 0real
        && self.network_info.usable() && canonical(self.asset_balance@)
    }
    pub closed spec fn network(self) -> NetworkInfo { self.network_info }
    pub closed spec fn byte_price(self) -> BigNum { self.coins_per_utxo_byte }
    pub closed spec fn metadata(self) -> real { self.cost_metadata.val() }
    pub closed spec fn empty(self) -> real { self.cost_empty.val() }
    pub closed spec fn per_input(self) -> real { self.cost_input.val() }
    pub closed spec fn per_output(self) -> real { self.cost_output.val() }
    pub closed spec fn ins(self) -> Seq<UTxODetails> { self.inputs@ }
    pub closed spec fn outs(self) -> Seq<UTxOBuilder> { self.outputs@ }
    pub closed spec fn size(self) -> int { self.current_size as int }
    pub closed spec fn limit(self) -> int { self.max_size as int }
    pub closed spec fn size_in(self) -> int { self.size_of_one_input as int }
    pub closed spec fn size_out(self) -> int { self.size_of_one_output as int }
    /// the fee: so much for any transaction, for its metadata, for each output and for each input
    pub open spec fn fee(self) -> real {
        self.empty() + self.metadata() + self.per_output() * (self.outs().len() as int as real) + self.per_input() * (self.ins().len() as int as real)
    }
    /// what is fixed when an estimator is made
    pub open spec fn same_rates(self, o: Self) -> bool {
        self.network() == o.network() && self.byte_price() == o.byte_price() && self.empty() == o.empty() && self.per_input() == o.per_input() && self.per_output() == o.per_output()
        && self.limit() == o.limit() && self.size_in() == o.size_in() && self.size_out() == o.size_out()
    }
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl ThermostatFeeEstimator | new
    //@use fees
    //@spec
        requires
            network_info.affords(EMPTY), network_info.affords(INPUT), network_info.affords(OUTPUT), network_info.affords(WITNESS),
            network_info.affords(script_len(script_of(*plan))),
        ensures
            r.inv(), r.byte_price() == coins_per_utxo_byte, r.network() == network_info, r.ins().len() == 0, r.outs().len() == 0,
            r.empty() == ((network_info.per_byte() * EMPTY + network_info.base()) as real)
                + ((network_info.per_byte() * script_len(script_of(*plan))) as real) + ((network_info.per_byte() * WITNESS) as real) * (plan.quorum as int as real),
            r.per_input() == ((network_info.per_byte() * INPUT) as real), r.per_output() == ((network_info.per_byte() * OUTPUT) as real), r.metadata() == 0real,
            r.size() == EMPTY + OVERHEAD + script_len(script_of(*plan)) + plan.quorum * WITNESS,
            r.size_in() == INPUT, r.size_out() == OUTPUT,
            r.limit() == (match network_info { NetworkInfo::Custom { max_tx_size, .. } => max_tx_size as int, _ => 16384 }),
    //@hint start
        proof {
            assert(EMPTY < 1000 && INPUT >= 0 && OUTPUT >= 0 && WITNESS >= 0 && EMPTY >= 0);
            lemma_prices(network_info, *plan);
        }
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl ThermostatFeeEstimator | add_protocol_magic
    //@use fees
    //@use cml
    //@sig impl AsRef < str > => &str
    //@spec
        requires old(self).inv(), old(self).network().affords(bytes_of(protocol_magic@) + 5)
        ensures
            final(self).inv(),
            final(self).same_rates(*old(self)), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(),
            final(self).metadata() == ((old(self).network().per_byte() * (bytes_of(protocol_magic@) + 5)) as real),
            old(self).metadata() == 0real ==> final(self).size() == old(self).size() + bytes_of(protocol_magic@) + 5,
    //@hint start
        proof { lemma_price(self.network_info, bytes_of(protocol_magic@) + 5); assume(self.current_size + bytes_of(protocol_magic@) + 5 <= usize::MAX); }
    //@end
}

proof fn lemma_more(p: real, n: int)
    ensures p * ((n + 1) as real) == p * (n as real) + p
{ assert(p * ((n + 1) as real) == p * (n as real) + p) by (nonlinear_arith); }
impl TransactionFeeEstimator for ThermostatFeeEstimator {
    open spec fn sound(&self) -> bool { self.inv() }
    open spec fn min_fee(&self) -> real { self.fee() }
    open spec fn fee_of(&self, input: UTxODetails) -> real { self.per_input() }
    open spec fn told(&self, input: UTxODetails, next: &Self) -> bool {
        next.same_rates(*self) && next.metadata() == self.metadata() && next.ins() == self.ins().push(input) && next.outs() == self.outs() && next.size() == self.size() + self.size_in()
    }
    open spec fn fee_of_output(&self, output: UTxOBuilder) -> real { self.per_output() }
    open spec fn told_of(&self, output: UTxOBuilder, next: &Self) -> bool {
        next.same_rates(*self) && next.metadata() == self.metadata() && next.ins() == self.ins() && next.outs() == self.outs().push(output) && next.size() == self.size() + self.size_out()
    }
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | min_required_fee
    //@hint start
        proof {
            lemma_times(self.per_output(), self.outs().len() as int as real); lemma_times(self.per_input(), self.ins().len() as int as real);
        }
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | fee_for_input
    //@sig Self :: InputUtxo => UTxODetails
    //@hint start
        proof { }
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | add_input
    //@sig Self :: InputUtxo => UTxODetails
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@desugar for.it
    //@spec
        ensures r is Ok, final(self).fee() == old(self).fee() + old(self).per_input()
    //@hint start
        let ghost o = *self;
        proof { lemma_steps(); lemma_more(self.per_input(), self.ins().len() as int); assume(self.current_size + self.size_of_one_input <= usize::MAX); }
    //@loop 0
        invariant_except_break
            o == *old(self), *self == (ThermostatFeeEstimator { asset_balance: self.asset_balance, ..o }),
            canonical(self.asset_balance@), __it0@.len() <= input.assets@.len(), __it0@ == refs(input.assets@).skip(input.assets@.len() - __it0@.len()),
        ensures
            *self == (ThermostatFeeEstimator { asset_balance: self.asset_balance, ..o }), canonical(self.asset_balance@),
        decreases __it0@.len()
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | fee_for_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@spec
        ensures r is Ok
    //@hint start
        proof { }
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | add_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::allow_complex_invariants]
    //@desugar for.it
    //@spec
        ensures
            r is Ok, final(self).fee() == old(self).fee() + old(self).per_output(),
    //@hint start
        let ghost o = *self;
        proof { lemma_steps(); lemma_more(self.per_output(), self.outs().len() as int); assume(self.current_size + self.size_of_one_output <= usize::MAX); }
    //@loop 0
        invariant_except_break
            o == *old(self), *self == (ThermostatFeeEstimator { asset_balance: self.asset_balance, ..o }),
            canonical(self.asset_balance@), __it0@.len() <= output.assets@.len(), __it0@ == refs(output.assets@).skip(output.assets@.len() - __it0@.len()),
        ensures
            *self == (ThermostatFeeEstimator { asset_balance: self.asset_balance, ..o }), canonical(self.asset_balance@),
        decreases __it0@.len()
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | min_value_for_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@use cmlout
    //@spec
        ensures *final(self) == *old(self), r matches Ok(v) ==> v.val() == (least(old(self).byte_price(), as_cml(output)) as int as real)
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | current_size
    //@spec
        ensures r matches Ok(n) && n == self.size()
    //@end
    //@fn utxo-selection/src/estimators/thermostat_estimator.rs | impl TransactionFeeEstimator for ThermostatFeeEstimator | max_size
    //@spec
        ensures r matches Ok(n) && n == self.limit()
    //@end
}
proof fn lemma_times(a: real, b: real)
    requires a >= 0real, b >= 0real
    ensures a * b >= 0real
{ assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real; }

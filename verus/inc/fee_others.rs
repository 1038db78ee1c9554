// the estimator that asks CML's transaction builder, and the one for tests, to which nothing costs anything
#[verifier::external_body] pub struct TransactionBuilder { b: u8 }
#[verifier::external_body] pub struct CardanoPaymentCredentials { c: u8 }
#[verifier::external_body] pub struct InputBuilderResult { r: u8 }
#[verifier::external_body] pub struct SingleOutputBuilderResult { r: u8 }
pub uninterp spec fn input_as_cml(u: UTxODetails, c: CardanoPaymentCredentials) -> InputBuilderResult;
pub uninterp spec fn output_result(o: TransactionOutput) -> SingleOutputBuilderResult;
#[verifier::external_body] pub fn utxo_details_to_cml_input(u: &UTxODetails, c: &CardanoPaymentCredentials) -> (r: anyhow::Result<InputBuilderResult>)
    ensures r matches Ok(t) ==> t == input_as_cml(*u, *c), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
impl SingleOutputBuilderResult { #[verifier::external_body] pub fn new(o: &TransactionOutput) -> (r: Self) ensures r == output_result(*o) { unimplemented!() } }
/// the builder answers for what it was given, and its answers are 64-bit amounts
impl TransactionBuilder {
    pub uninterp spec fn fee(self, scripts: bool) -> u64;
    pub uninterp spec fn cost_in(self, i: InputBuilderResult) -> u64;
    pub uninterp spec fn cost_out(self, o: SingleOutputBuilderResult) -> u64;
    pub uninterp spec fn with_in(self, i: InputBuilderResult) -> TransactionBuilder;
    pub uninterp spec fn with_out(self, o: SingleOutputBuilderResult) -> TransactionBuilder;
    pub uninterp spec fn with_fee(self, f: u64) -> TransactionBuilder;
    pub uninterp spec fn length(self) -> usize;
    #[verifier::external_body] pub fn min_fee(&self, scripts: bool) -> (r: anyhow::Result<BigNum>) ensures r matches Ok(n) ==> n.0 == self.fee(scripts), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
    #[verifier::external_body] pub fn fee_for_input(&self, i: &InputBuilderResult) -> (r: anyhow::Result<BigNum>) ensures r matches Ok(n) ==> n.0 == self.cost_in(*i), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
    #[verifier::external_body] pub fn fee_for_output(&self, o: &SingleOutputBuilderResult) -> (r: anyhow::Result<BigNum>) ensures r matches Ok(n) ==> n.0 == self.cost_out(*o), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
    #[verifier::external_body] pub fn add_input(&mut self, i: &InputBuilderResult) -> (r: anyhow::Result<()>) ensures r is Ok ==> *final(self) == old(self).with_in(*i), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
    #[verifier::external_body] pub fn add_output(&mut self, o: &SingleOutputBuilderResult) -> (r: anyhow::Result<()>) ensures r is Ok ==> *final(self) == old(self).with_out(*o), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
    #[verifier::external_body] pub fn set_fee(&mut self, f: &BigNum) ensures *final(self) == old(self).with_fee(f.0) { unimplemented!() }
    #[verifier::external_body] pub fn full_size(&self) -> (r: anyhow::Result<usize>) ensures r matches Ok(n) ==> n == self.length(), r matches Err(e) ==> anyhow::by_estimator(e) { unimplemented!() }
}
//@rules builder
. map_err ( $x ) =>
u64 :: from ( $x ) => $x.0
Value :: < Regulated > :: from ( $x ) => Value::<Regulated>::from_u64($x)
//@end
//@item utxo-selection/src/estimators/cml_fee_estimator.rs | const | DEFAULT_TX_SIZE
//@rewrite const => pub const
//@end
//@item utxo-selection/src/estimators/cml_fee_estimator.rs | struct | CmlFeeEstimator
//@end
//@fn utxo-selection/src/estimators/cml_fee_estimator.rs | | output_to_builder_result
//@spec
    ensures r == output_result(*output)
//@end
impl CmlFeeEstimator {
    pub closed spec fn at(self) -> TransactionBuilder { self.builder }
    pub closed spec fn scripts(self) -> bool { self.script_calculation }
    pub closed spec fn kind(self) -> CardanoPaymentCredentials { self.creds }
    pub closed spec fn byte_price(self) -> BigNum { self.coins_per_utxo_byte }
    pub open spec fn same_terms(self, o: Self) -> bool { self.scripts() == o.scripts() && self.kind() == o.kind() && self.byte_price() == o.byte_price() }
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl CmlFeeEstimator | new
    //@use builder
    //@spec
        ensures r matches Ok(e) ==> e.at() == tx_builder.with_fee(tx_builder.fee(script_calculation)) && e.scripts() == script_calculation && e.kind() == credentials && e.byte_price() == coins_per_utxo_byte
    //@end
}
impl TransactionFeeEstimator for CmlFeeEstimator {
    open spec fn sound(&self) -> bool { true }
    open spec fn min_fee(&self) -> real { self.at().fee(self.scripts()) as int as real }
    open spec fn fee_of(&self, input: UTxODetails) -> real { self.at().cost_in(input_as_cml(input, self.kind())) as int as real }
    open spec fn told(&self, input: UTxODetails, next: &Self) -> bool { next.same_terms(*self) && next.at() == self.at().with_in(input_as_cml(input, self.kind())) }
    open spec fn fee_of_output(&self, output: UTxOBuilder) -> real { self.at().cost_out(output_result(as_cml(output))) as int as real }
    open spec fn told_of(&self, output: UTxOBuilder, next: &Self) -> bool { next.same_terms(*self) && next.at() == self.at().with_out(output_result(as_cml(output))) }
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | min_required_fee
    //@use builder
    //@end
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | fee_for_input
    //@sig Self :: InputUtxo => UTxODetails
    //@use builder
    //@end
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | add_input
    //@sig Self :: InputUtxo => UTxODetails
    //@use builder
    //@end
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | fee_for_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@use builder
    //@end
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | add_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@use builder
    //@end
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | min_value_for_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@use cmlout
    //@spec
        ensures *final(self) == *old(self), r matches Ok(v) ==> v.val() == (least(old(self).byte_price(), as_cml(output)) as int as real)
    //@end
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | current_size
    //@use builder
    //@spec
        ensures r matches Ok(n) ==> n == self.at().length()
    //@end
    //@fn utxo-selection/src/estimators/cml_fee_estimator.rs | impl TransactionFeeEstimator for CmlFeeEstimator | max_size
    //@spec
        ensures r matches Ok(n) && n == DEFAULT_TX_SIZE
    //@end
}
//@item utxo-selection/src/estimators/dummy_estimator.rs | struct | DummyFeeEstimate
//@end
// for any types of inputs and outputs; here those of the others
impl<Input, Output> DummyFeeEstimate<Input, Output> {
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input, Output> DummyFeeEstimate<Input, Output> | new
    //@rewrite Default :: default ( ) => PhantomData
    //@end
}
impl TransactionFeeEstimator for DummyFeeEstimate<UTxODetails, UTxOBuilder> {
    open spec fn sound(&self) -> bool { true }
    open spec fn min_fee(&self) -> real { 0real }
    open spec fn fee_of(&self, input: UTxODetails) -> real { 0real }
    open spec fn told(&self, input: UTxODetails, next: &Self) -> bool { *next == *self }
    open spec fn fee_of_output(&self, output: UTxOBuilder) -> real { 0real }
    open spec fn told_of(&self, output: UTxOBuilder, next: &Self) -> bool { *next == *self }
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | min_required_fee
    //@spec
        ensures r is Ok
    //@end
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | fee_for_input
    //@sig Self :: InputUtxo => UTxODetails
    //@spec
        ensures r is Ok
    //@end
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | add_input
    //@sig Self :: InputUtxo => UTxODetails
    //@spec
        ensures r is Ok
    //@end
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | fee_for_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@spec
        ensures r is Ok
    //@end
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | add_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@spec
        ensures r is Ok
    //@end
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | min_value_for_output
    //@sig Self :: OutputUtxo => UTxOBuilder
    //@spec
        ensures r matches Ok(v) && v.val() == 0real
    //@end
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | current_size
    //@spec
        ensures r matches Ok(n) && n == 0
    //@end
    //@fn utxo-selection/src/estimators/dummy_estimator.rs | impl<Input: Clone, Output: Clone> TransactionFeeEstimator for DummyFeeEstimate<Input, Output> | max_size
    //@spec
        ensures r matches Ok(n) && n == usize::MAX
    //@end
}

// a fee estimator, as far as its caller may rely on it: fees are not negative, and a fee depends on nothing
// but what the estimator was told so far
pub trait TransactionFeeEstimator: Sized {
    spec fn min_fee(&self) -> real;
    spec fn fee_of(&self, input: UTxODetails) -> real;
    /// `next` is the estimator once it was told of the input
    spec fn told(&self, input: UTxODetails, next: &Self) -> bool;
    spec fn fee_of_output(&self, output: UTxOBuilder) -> real;
    spec fn told_of(&self, output: UTxOBuilder, next: &Self) -> bool;
//@if sound
    /// what an estimator keeps of itself: it is made so, and none of its functions breaks it
    spec fn sound(&self) -> bool;
    fn min_required_fee(&self) -> (r: anyhow::Result<Value<Regulated>>) requires self.sound() ensures r matches Ok(v) ==> v.val() >= 0real && v.val() == self.min_fee(), r matches Err(e) ==> anyhow::by_estimator(e);
    fn fee_for_input(&self, input: &UTxODetails) -> (r: anyhow::Result<Value<Regulated>>) requires self.sound() ensures r matches Ok(v) ==> v.val() >= 0real && v.val() == self.fee_of(*input), r matches Err(e) ==> anyhow::by_estimator(e);
    fn add_input(&mut self, input: UTxODetails) -> (r: anyhow::Result<()>) requires old(self).sound(), assets_ok(refs(input.assets@)) ensures r is Ok ==> old(self).told(input, final(self)), r matches Err(e) ==> anyhow::by_estimator(e), final(self).sound();
    fn fee_for_output(&self, output: &UTxOBuilder) -> (r: anyhow::Result<Value<Regulated>>) requires self.sound() ensures r matches Ok(v) ==> v.val() >= 0real && v.val() == self.fee_of_output(*output), r matches Err(e) ==> anyhow::by_estimator(e);
    fn add_output(&mut self, output: UTxOBuilder) -> (r: anyhow::Result<()>) requires old(self).sound(), assets_ok(refs(output.assets@)) ensures r is Ok ==> old(self).told_of(output, final(self)), r matches Err(e) ==> anyhow::by_estimator(e), final(self).sound();
    fn min_value_for_output(&mut self, output: UTxOBuilder) -> (r: anyhow::Result<Value<Regulated>>) requires old(self).sound() ensures r matches Ok(v) ==> v.val() >= 0real, final(self).sound();
    fn current_size(&self) -> (r: anyhow::Result<usize>) requires self.sound();
    fn max_size(&self) -> (r: anyhow::Result<usize>) requires self.sound();
//@else
    fn min_required_fee(&self) -> (r: anyhow::Result<Value<Regulated>>) ensures r matches Ok(v) ==> v.val() >= 0real && v.val() == self.min_fee(), r matches Err(e) ==> anyhow::by_estimator(e);
    fn fee_for_input(&self, input: &UTxODetails) -> (r: anyhow::Result<Value<Regulated>>) ensures r matches Ok(v) ==> v.val() >= 0real && v.val() == self.fee_of(*input), r matches Err(e) ==> anyhow::by_estimator(e);
    fn add_input(&mut self, input: UTxODetails) -> (r: anyhow::Result<()>) ensures r is Ok ==> old(self).told(input, final(self)), r matches Err(e) ==> anyhow::by_estimator(e);
    fn fee_for_output(&self, output: &UTxOBuilder) -> (r: anyhow::Result<Value<Regulated>>) ensures r matches Ok(v) ==> v.val() >= 0real && v.val() == self.fee_of_output(*output), r matches Err(e) ==> anyhow::by_estimator(e);
    fn add_output(&mut self, output: UTxOBuilder) -> (r: anyhow::Result<()>) ensures r is Ok ==> old(self).told_of(output, final(self)), r matches Err(e) ==> anyhow::by_estimator(e);
    fn min_value_for_output(&mut self, output: UTxOBuilder) -> (r: anyhow::Result<Value<Regulated>>) ensures r matches Ok(v) ==> v.val() >= 0real;
    fn current_size(&self) -> (r: anyhow::Result<usize>);
    fn max_size(&self) -> (r: anyhow::Result<usize>);
//@fi
}

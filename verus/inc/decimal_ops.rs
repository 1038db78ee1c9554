// generated by tools/gen_ops.py: assumed contracts of bigdecimal's operators (exact arithmetic on the numbers)
impl AddSpecImpl<BigDecimal> for BigDecimal {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn add_spec(self, rhs: BigDecimal) -> BigDecimal;
}
impl Add<BigDecimal> for BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn add(self, rhs: BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() + rhs.val() { unimplemented!() }
}
impl<'a> AddSpecImpl<BigDecimal> for &'a BigDecimal {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn add_spec(self, rhs: BigDecimal) -> BigDecimal;
}
impl<'a> Add<BigDecimal> for &'a BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn add(self, rhs: BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() + rhs.val() { unimplemented!() }
}
impl<'a> AddSpecImpl<&'a BigDecimal> for BigDecimal {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'a BigDecimal) -> bool { true }
    uninterp spec fn add_spec(self, rhs: &'a BigDecimal) -> BigDecimal;
}
impl<'a> Add<&'a BigDecimal> for BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn add(self, rhs: &'a BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() + rhs.val() { unimplemented!() }
}
impl<'a, 'b> AddSpecImpl<&'b BigDecimal> for &'a BigDecimal {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'b BigDecimal) -> bool { true }
    uninterp spec fn add_spec(self, rhs: &'b BigDecimal) -> BigDecimal;
}
impl<'a, 'b> Add<&'b BigDecimal> for &'a BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn add(self, rhs: &'b BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() + rhs.val() { unimplemented!() }
}
impl SubSpecImpl<BigDecimal> for BigDecimal {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: BigDecimal) -> BigDecimal;
}
impl Sub<BigDecimal> for BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn sub(self, rhs: BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() - rhs.val() { unimplemented!() }
}
impl<'a> SubSpecImpl<BigDecimal> for &'a BigDecimal {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: BigDecimal) -> BigDecimal;
}
impl<'a> Sub<BigDecimal> for &'a BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn sub(self, rhs: BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() - rhs.val() { unimplemented!() }
}
impl<'a> SubSpecImpl<&'a BigDecimal> for BigDecimal {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'a BigDecimal) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: &'a BigDecimal) -> BigDecimal;
}
impl<'a> Sub<&'a BigDecimal> for BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn sub(self, rhs: &'a BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() - rhs.val() { unimplemented!() }
}
impl<'a, 'b> SubSpecImpl<&'b BigDecimal> for &'a BigDecimal {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'b BigDecimal) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: &'b BigDecimal) -> BigDecimal;
}
impl<'a, 'b> Sub<&'b BigDecimal> for &'a BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn sub(self, rhs: &'b BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() - rhs.val() { unimplemented!() }
}
impl<'a> MulSpecImpl<BigDecimal> for &'a BigDecimal {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: BigDecimal) -> BigDecimal;
}
impl<'a> Mul<BigDecimal> for &'a BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn mul(self, rhs: BigDecimal) -> (r: BigDecimal) ensures r.val() == self.val() * rhs.val() { unimplemented!() }
}
impl<'a> MulSpecImpl<BigInt> for &'a BigDecimal {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: BigInt) -> BigDecimal;
}
impl<'a> Mul<BigInt> for &'a BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn mul(self, rhs: BigInt) -> (r: BigDecimal) ensures r.val() == self.val() * (rhs.int() as real) { unimplemented!() }
}
impl MulSpecImpl<BigInt> for BigDecimal {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: BigInt) -> BigDecimal;
}
impl Mul<BigInt> for BigDecimal {
    type Output = BigDecimal;
    #[verifier::external_body]
    fn mul(self, rhs: BigInt) -> (r: BigDecimal) ensures r.val() == self.val() * (rhs.int() as real) { unimplemented!() }
}
impl AddAssignSpecImpl<BigDecimal> for BigDecimal {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn add_assign_spec(&self, rhs: BigDecimal) -> &Self;
}
impl AddAssign<BigDecimal> for BigDecimal {
    #[verifier::external_body]
    fn add_assign(&mut self, rhs: BigDecimal) ensures final(self).val() == old(self).val() + rhs.val() { unimplemented!() }
}
impl<'a> AddAssignSpecImpl<&'a BigDecimal> for BigDecimal {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: &'a BigDecimal) -> bool { true }
    uninterp spec fn add_assign_spec(&self, rhs: &'a BigDecimal) -> &Self;
}
impl<'a> AddAssign<&'a BigDecimal> for BigDecimal {
    #[verifier::external_body]
    fn add_assign(&mut self, rhs: &'a BigDecimal) ensures final(self).val() == old(self).val() + rhs.val() { unimplemented!() }
}
impl SubAssignSpecImpl<BigDecimal> for BigDecimal {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: BigDecimal) -> bool { true }
    uninterp spec fn sub_assign_spec(&self, rhs: BigDecimal) -> &Self;
}
impl SubAssign<BigDecimal> for BigDecimal {
    #[verifier::external_body]
    fn sub_assign(&mut self, rhs: BigDecimal) ensures final(self).val() == old(self).val() - rhs.val() { unimplemented!() }
}
impl<'a> SubAssignSpecImpl<&'a BigDecimal> for BigDecimal {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: &'a BigDecimal) -> bool { true }
    uninterp spec fn sub_assign_spec(&self, rhs: &'a BigDecimal) -> &Self;
}
impl<'a> SubAssign<&'a BigDecimal> for BigDecimal {
    #[verifier::external_body]
    fn sub_assign(&mut self, rhs: &'a BigDecimal) ensures final(self).val() == old(self).val() - rhs.val() { unimplemented!() }
}

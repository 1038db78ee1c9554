// assumed contracts of bigdecimal / num-bigint: a BigDecimal is digits * 10^-scale, operations are exact
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::marker::PhantomData;
use core::ops::{Add, AddAssign, Mul, Sub, SubAssign};

pub open spec fn pow10(n: int) -> real
    decreases (if n >= 0 { n } else { -n })
{ if n == 0 { 1real } else if n > 0 { 10real * pow10(n - 1) } else { 0.1real * pow10(n + 1) } }

pub proof fn pow10_inverse(n: int)
    ensures pow10(n) * pow10(-n) == 1real, pow10(n) > 0real
    decreases (if n >= 0 { n } else { -n })
{
    if n > 0 {
        pow10_inverse(n - 1);
        let (a, b) = (pow10(n - 1), pow10(-(n - 1)));
        assert(-n + 1 == -(n - 1));
        assert((10real * a) * (0.1real * b) == a * b) by (nonlinear_arith);
    } else if n < 0 {
        pow10_inverse(n + 1);
        let (a, b) = (pow10(n + 1), pow10(-(n + 1)));
        assert(-n - 1 == -(n + 1));
        assert((0.1real * a) * (10real * b) == a * b) by (nonlinear_arith);
    }
}

#[verifier::external_body] #[derive(Debug)] pub struct BigInt { b: u8 }
impl BigInt {
    pub uninterp spec fn int(&self) -> int;
    #[verifier::external_body] pub fn from_u32(n: u32) -> (r: Option<BigInt>) ensures r matches Some(b) && b.int() == n { unimplemented!() }
    #[verifier::external_body] pub fn from_usize(n: usize) -> (r: Option<BigInt>) ensures r matches Some(b) && b.int() == n { unimplemented!() }
    #[verifier::external_body] pub fn from(n: u64) -> (r: BigInt) ensures r.int() == n { unimplemented!() }
}
#[verifier::external_body] #[derive(Debug)] pub struct BigDecimal { b: u8 }
pub open spec fn is_int(x: real, n: int) -> bool { x == n as real }
/// no fractional part
pub open spec fn whole(x: real) -> bool { exists|n: int| #[trigger] is_int(x, n) }
/// `t` is `x` without its fractional part
pub open spec fn is_trunc(t: real, x: real) -> bool {
    whole(t) && (if x >= 0real { 0real <= t <= x && x - t < 1real } else { x <= t <= 0real && t - x < 1real })
}
impl BigDecimal {
    pub uninterp spec fn digits(&self) -> int;
    pub uninterp spec fn scale(&self) -> int;
    /// the number
    pub closed spec fn val(&self) -> real { (self.digits() as real) * pow10(-self.scale()) }

    #[verifier::external_body] pub fn new(digits: BigInt, scale: i64) -> (r: BigDecimal) ensures r.val() == (digits.int() as real) * pow10(-scale) { unimplemented!() }
    #[verifier::external_body] pub fn from(n: u64) -> (r: BigDecimal) ensures r.val() == (n as int as real) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: BigDecimal) ensures r.val() == 0real, r.scale() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: BigDecimal) ensures r.val() == 1real { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: BigDecimal) ensures r.val() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn abs(&self) -> (r: BigDecimal) ensures r.val() == if self.val() < 0real { -self.val() } else { self.val() } { unimplemented!() }
    #[verifier::external_body] pub fn fractional_digit_count(&self) -> (r: i64)
        ensures r == self.scale(), r <= 0 ==> whole(self.val()) { unimplemented!() }
    /// dropping digits rounds towards zero
    #[verifier::external_body] pub fn with_scale(&self, s: i64) -> (r: BigDecimal) ensures r.scale() == s, s == 0 ==> is_trunc(r.val(), self.val()) { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self.val() > 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self.val() < 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.val() == 0real) { unimplemented!() }
    #[verifier::external_body] pub fn into_bigint_and_exponent(self) -> (r: (BigInt, i64)) ensures r.0.int() == self.digits(), r.1 == self.scale() { unimplemented!() }
}
impl Clone for BigDecimal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn order(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl PartialEqSpecImpl for BigDecimal {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.val() == o.val() }
}
impl PartialEq for BigDecimal { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for BigDecimal {}
impl PartialOrdSpecImpl for BigDecimal {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(order(self.val(), o.val())) }
}
impl PartialOrd for BigDecimal { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for BigDecimal {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { order(self.val(), o.val()) }
}
impl Ord for BigDecimal { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
//@include decimal_ops.rs

// C04: amount arithmetic is exact
use vstd::prelude::*;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/value_ops.rs
//@include inc/value_cmp.rs

impl<Rep> Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> Value<Rep> | raw
    //@spec
        ensures *r == self.value
    //@end
    //@fn core/src/value.rs | impl<Rep> Value<Rep> | truncate
    //@spec
        ensures is_trunc(r.val(), self.val())
    //@hint start
        proof { assert(is_int(0real, 0)); }
    //@end
    // the iterator is a vector of the amounts, in the order it yields them; `.map(f).sum()` is the loop it stands for
    //@fn core/src/value.rs | impl<Rep> Sum for Value<Rep> | sum
    //@sig sum < I : Iterator < Item = Self > > => sum
    //@sig ( iter : I ) => (iter: Vec<Self>)
    //@rewrite iter . map ( | $v! | $e ) . sum ( ) => { let mut __sum = BigDecimal::zero(); for $v in iter { __sum = __sum + $e; } __sum }
    //@spec
        ensures r.val() == total(iter@)
    //@hint start
        let ghost all = iter@;
    //@loop 0 iter it
        invariant it.seq() == all, __sum.val() == total(all.take(it.index@))
    //@hint loop-start 0
        proof { assert(all.take(it.index@ + 1).drop_last() == all.take(it.index@)); }
    //@hint after-loop 0
        proof { assert(all.take(all.len() as int) == all); }
    //@end
    //@fn core/src/value.rs | impl<'a, Rep> Sum<&'a Value<Rep>> for Value<Rep> | sum
    //@as sum_refs
    //@sig sum < I : Iterator < Item = &'a Value < Rep > > > => sum
    //@sig ( iter : I ) => (iter: &Vec<Self>)
    //@rewrite iter . map ( | $v! | $e ) . sum ( ) => { let mut __sum = BigDecimal::zero(); for $v in iter.iter() { __sum = __sum + $e; } __sum }
    //@spec
        ensures r.val() == total(iter@)
    //@loop 0 iter it
        invariant it.seq().len() == iter@.len(), forall|k: int| 0 <= k < iter@.len() ==> *(#[trigger] it.seq()[k]) == iter@[k], __sum.val() == total(iter@.take(it.index@))
    //@hint loop-start 0
        proof { assert(iter@.take(it.index@ + 1).drop_last() == iter@.take(it.index@)); }
    //@hint after-loop 0
        proof { assert(iter@.take(iter@.len() as int) == iter@); }
    //@end
}
/// the machine integer `n` is `x` without its fractional part
pub open spec fn cut(n: int, x: real) -> bool { is_trunc(n as real, x) }
impl BigDecimal {
    #[verifier::external_body] pub fn to_i64(&self) -> (r: Option<i64>)
        ensures match r { Some(n) => cut(n as int, self.val()), None => forall|n: i64| !cut(n as int, self.val()) }
    { unimplemented!() }
    #[verifier::external_body] pub fn to_u64(&self) -> (r: Option<u64>)
        ensures match r { Some(n) => self.val() >= 0real && cut(n as int, self.val()), None => self.val() < 0real || forall|n: u64| !cut(n as int, self.val()) }
    { unimplemented!() }
}
/// what a hasher has been fed
#[verifier::external_body] pub struct HashState { state: u64 }
impl View for HashState { type V = int; uninterp spec fn view(&self) -> int; }
/// the state after a number has been fed
pub uninterp spec fn fed(state: int, x: real) -> int;
pub trait Feed {
    spec fn after(&self, state: int) -> int;
    fn hash(&self, hasher: &mut HashState) ensures final(hasher)@ == self.after(old(hasher)@);
}
impl Feed for BigDecimal {
    open spec fn after(&self, state: int) -> int { fed(state, self.val()) }
    #[verifier::external_body] fn hash(&self, hasher: &mut HashState) { unimplemented!() }
}
impl<T> Feed for PhantomData<T> {
    open spec fn after(&self, state: int) -> int { state }
    #[verifier::external_body] fn hash(&self, hasher: &mut HashState) { unimplemented!() }
}
// equal amounts hash alike: what is fed depends on the number only
impl<Rep> Feed for Value<Rep> {
    open spec fn after(&self, state: int) -> int { fed(state, self.val()) }
    //@fn core/src/value.rs | impl<Rep> Hash for Value<Rep> | hash
    //@sig hash < H : Hasher > => hash
    //@sig & mut H => &mut HashState
    //@end
}
impl<Rep> Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> ToPrimitive for Value<Rep> | to_i64
    //@spec
        ensures match r { Some(n) => cut(n as int, self.val()), None => forall|n: i64| !cut(n as int, self.val()) }
    //@end
    //@fn core/src/value.rs | impl<Rep> ToPrimitive for Value<Rep> | to_u64
    //@spec
        ensures match r { Some(n) => self.val() >= 0real && cut(n as int, self.val()), None => self.val() < 0real || forall|n: u64| !cut(n as int, self.val()) }
    //@end
}
/// the exact sum of a sequence of amounts
pub open spec fn total<Rep>(s: Seq<Value<Rep>>) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { total(s.drop_last()) + s.last().val() } }
} // verus!

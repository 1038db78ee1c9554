// C06: balances
use vstd::prelude::*;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/value_ops.rs
//@include inc/value_cmp.rs
use core::cmp::Ordering::{Equal, Greater, Less};
//@include inc/balance.rs

// ---- the property, over the contracts ------------------------------------------------------------
/// adding an amount and subtracting it again cancels
fn cancels<Rep>(b: Balance<Rep>, v: Value<Rep>) -> (r: Balance<Rep>)
    requires b.wf(), v.val() >= 0real
    ensures r.wf(), r.val() == b.val()
{
    let w = v.clone();
    let a = b.add(v);
    a.sub(w)
}
/// exactly one predicate holds
fn one_predicate<Rep>(b: Balance<Rep>)
    requires b.wf()
{
    let (d, z, e) = (b.in_debt(), b.balanced(), b.in_excess());
    assert((d && !z && !e) || (!d && z && !e) || (!d && !z && e));
    assert(d == (b.val() < 0real) && z == (b.val() == 0real) && e == (b.val() > 0real));
}
/// canonical balances are equal exactly when their signed amounts are
fn equality<Rep>(a: Balance<Rep>, b: Balance<Rep>)
    requires a.wf(), b.wf()
{
    let e = a == b;
    assert(e == (a.val() == b.val()));
}
} // verus!

//@rules balops
use std :: cmp :: Ordering :: { Equal , Greater , Less } ; =>
( lhs + rhs ) => (lhs.add(rhs))
( rhs - lhs ) => (rhs.sub(lhs))
( lhs - rhs ) => (lhs.sub(rhs))
rhs == & Value :: zero ( ) => (*rhs == Value::zero())
( & * self ) + rhs => (&*self).add(rhs)
( & * self ) - rhs => (&*self).sub(rhs)
//@end
// generated by tools/gen_ops.py: Balance and its operators, extracted
//@item core/src/balance.rs | enum | Balance
//@end
impl<Rep> Balance<Rep> {
    /// the signed amount
    pub open spec fn val(&self) -> real { match self { Balance::Debt(v) => -v.val(), Balance::Balanced => 0real, Balance::Excess(v) => v.val() } }
    /// canonical: zero is Balanced, and a magnitude is positive
    pub open spec fn wf(&self) -> bool { match self { Balance::Debt(v) => v.val() > 0real, Balance::Balanced => true, Balance::Excess(v) => v.val() > 0real } }
    //@fn core/src/balance.rs | impl<Rep> Balance<Rep> | zero
    //@spec
        ensures r.wf(), r.val() == 0real
    //@end
    //@fn core/src/balance.rs | impl<Rep> Balance<Rep> | in_debt
    //@spec
        ensures r == (self is Debt), self.wf() ==> r == (self.val() < 0real)
    //@end
    //@fn core/src/balance.rs | impl<Rep> Balance<Rep> | balanced
    //@spec
        ensures r == (self is Balanced), self.wf() ==> r == (self.val() == 0real)
    //@end
    //@fn core/src/balance.rs | impl<Rep> Balance<Rep> | in_excess
    //@spec
        ensures r == (self is Excess), self.wf() ==> r == (self.val() > 0real)
    //@end
    //@fn core/src/balance.rs | impl<Rep> Default for Balance<Rep> | default
    //@spec
        ensures r.wf(), r.val() == 0real
    //@end
}
impl<Rep> Clone for Balance<Rep> {
    //@fn core/src/balance.rs | impl<Rep> Clone for Balance<Rep> | clone
    //@spec
        ensures r.val() == self.val(), r.wf() == self.wf(), r is Debt == self is Debt, r is Balanced == self is Balanced
    //@end
}
impl<Rep> PartialEqSpecImpl for Balance<Rep> {
    open spec fn obeys_eq_spec() -> bool { true }
    /// for balances in canonical form this is equality of the signed amounts
    open spec fn eq_spec(&self, o: &Self) -> bool {
        (self is Debt <==> o is Debt) && (self is Balanced <==> o is Balanced) && self.val() == o.val()
    }
}
impl<Rep> PartialEq for Balance<Rep> {
    //@fn core/src/balance.rs | impl<Rep> PartialEq for Balance<Rep> | eq
    //@rewrite lhs . eq ( rhs ) => (*lhs == *rhs)
    //@end
}
impl<Rep> AddSpecImpl<Balance<Rep>> for Balance<Rep> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Balance<Rep>) -> bool { self.wf() && rhs.wf() }
    uninterp spec fn add_spec(self, rhs: Balance<Rep>) -> Balance<Rep>;
}
impl<Rep> Add for Balance<Rep> {
    type Output = Balance<Rep>;
    //@fn core/src/balance.rs | impl<Rep> Add for Balance<Rep> | add
    //@sig Self :: Output => Balance<Rep>
    //@use balops
    //@spec
        ensures r.wf(), r.val() == self.val() + rhs.val()
    //@end
}
impl<'a, 'b, Rep> AddSpecImpl<&'b Value<Rep>> for &'a Balance<Rep> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'b Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn add_spec(self, rhs: &'b Value<Rep>) -> Balance<Rep>;
}
impl<'a, 'b, Rep> Add<&'b Value<Rep>> for &'a Balance<Rep> {
    type Output = Balance<Rep>;
    //@fn core/src/balance.rs | impl<'a, 'b, Rep> Add<&'b Value<Rep>> for &'a Balance<Rep> | add
    //@sig Self :: Output => Balance<Rep>
    //@use balops
    //@spec
        ensures r.wf(), r.val() == self.val() + rhs.val()
    //@end
}
impl<Rep> AddSpecImpl<Value<Rep>> for Balance<Rep> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn add_spec(self, rhs: Value<Rep>) -> Balance<Rep>;
}
impl<Rep> Add<Value<Rep>> for Balance<Rep> {
    type Output = Balance<Rep>;
    //@fn core/src/balance.rs | impl<Rep> Add<Value<Rep>> for Balance<Rep> | add
    //@sig Self :: Output => Balance<Rep>
    //@use balops
    //@spec
        ensures r.wf(), r.val() == self.val() + rhs.val()
    //@end
}
impl<'a, 'b, Rep> SubSpecImpl<&'b Value<Rep>> for &'a Balance<Rep> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'b Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn sub_spec(self, rhs: &'b Value<Rep>) -> Balance<Rep>;
}
impl<'a, 'b, Rep> Sub<&'b Value<Rep>> for &'a Balance<Rep> {
    type Output = Balance<Rep>;
    //@fn core/src/balance.rs | impl<'a, 'b, Rep> Sub<&'b Value<Rep>> for &'a Balance<Rep> | sub
    //@sig Self :: Output => Balance<Rep>
    //@use balops
    //@spec
        ensures r.wf(), r.val() == self.val() - rhs.val()
    //@end
}
impl<Rep> SubSpecImpl<Value<Rep>> for Balance<Rep> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn sub_spec(self, rhs: Value<Rep>) -> Balance<Rep>;
}
impl<Rep> Sub<Value<Rep>> for Balance<Rep> {
    type Output = Balance<Rep>;
    //@fn core/src/balance.rs | impl<Rep> Sub<Value<Rep>> for Balance<Rep> | sub
    //@sig Self :: Output => Balance<Rep>
    //@use balops
    //@spec
        ensures r.wf(), r.val() == self.val() - rhs.val()
    //@end
}
impl<Rep> AddAssignSpecImpl<Value<Rep>> for Balance<Rep> {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn add_assign_spec(&self, rhs: Value<Rep>) -> &Self;
}
impl<Rep> AddAssign<Value<Rep>> for Balance<Rep> {
    //@fn core/src/balance.rs | impl<Rep> AddAssign<Value<Rep>> for Balance<Rep> | add_assign
    //@use balops
    //@spec
        ensures final(self).wf(), final(self).val() == old(self).val() + rhs.val()
    //@end
}
impl<'a, Rep> AddAssignSpecImpl<&'a Value<Rep>> for Balance<Rep> {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: &'a Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn add_assign_spec(&self, rhs: &'a Value<Rep>) -> &Self;
}
impl<'a, Rep> AddAssign<&'a Value<Rep>> for Balance<Rep> {
    //@fn core/src/balance.rs | impl<'a, Rep> AddAssign<&'a Value<Rep>> for Balance<Rep> | add_assign
    //@use balops
    //@spec
        ensures final(self).wf(), final(self).val() == old(self).val() + rhs.val()
    //@end
}
impl<Rep> SubAssignSpecImpl<Value<Rep>> for Balance<Rep> {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn sub_assign_spec(&self, rhs: Value<Rep>) -> &Self;
}
impl<Rep> SubAssign<Value<Rep>> for Balance<Rep> {
    //@fn core/src/balance.rs | impl<Rep> SubAssign<Value<Rep>> for Balance<Rep> | sub_assign
    //@use balops
    //@spec
        ensures final(self).wf(), final(self).val() == old(self).val() - rhs.val()
    //@end
}
impl<'a, Rep> SubAssignSpecImpl<&'a Value<Rep>> for Balance<Rep> {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: &'a Value<Rep>) -> bool { self.wf() && rhs.val() >= 0real }
    uninterp spec fn sub_assign_spec(&self, rhs: &'a Value<Rep>) -> &Self;
}
impl<'a, Rep> SubAssign<&'a Value<Rep>> for Balance<Rep> {
    //@fn core/src/balance.rs | impl<'a, Rep> SubAssign<&'a Value<Rep>> for Balance<Rep> | sub_assign
    //@use balops
    //@spec
        ensures final(self).wf(), final(self).val() == old(self).val() - rhs.val()
    //@end
}

// generated by tools/gen_ops.py: the operators of Value, extracted, against exact arithmetic
impl<Rep> AddSpecImpl<Value<Rep>> for Value<Rep> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Value<Rep>) -> bool { true }
    uninterp spec fn add_spec(self, rhs: Value<Rep>) -> Value<Rep>;
}
impl<Rep> Add for Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<Rep> Add for Value<Rep> | add
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() + rhs.val()
    //@end
}
impl<'a, Rep> AddSpecImpl<Value<Rep>> for &'a Value<Rep> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Value<Rep>) -> bool { true }
    uninterp spec fn add_spec(self, rhs: Value<Rep>) -> Value<Rep>;
}
impl<'a, Rep> Add<Value<Rep>> for &'a Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Add<Value<Rep>> for &'a Value<Rep> | add
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() + rhs.val()
    //@end
}
impl<'a, Rep> AddSpecImpl<&'a Value<Rep>> for &'a Value<Rep> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'a Value<Rep>) -> bool { true }
    uninterp spec fn add_spec(self, rhs: &'a Value<Rep>) -> Value<Rep>;
}
impl<'a, Rep> Add for &'a Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Add for &'a Value<Rep> | add
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() + rhs.val()
    //@end
}
impl<'a, Rep> AddSpecImpl<&'a Value<Rep>> for Value<Rep> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'a Value<Rep>) -> bool { true }
    uninterp spec fn add_spec(self, rhs: &'a Value<Rep>) -> Value<Rep>;
}
impl<'a, Rep> Add<&'a Value<Rep>> for Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Add<&'a Value<Rep>> for Value<Rep> | add
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() + rhs.val()
    //@end
}
impl<Rep> SubSpecImpl<Value<Rep>> for Value<Rep> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Value<Rep>) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: Value<Rep>) -> Value<Rep>;
}
impl<Rep> Sub for Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<Rep> Sub for Value<Rep> | sub
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() - rhs.val()
    //@end
}
impl<'a, Rep> SubSpecImpl<&'a Value<Rep>> for Value<Rep> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'a Value<Rep>) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: &'a Value<Rep>) -> Value<Rep>;
}
impl<'a, Rep> Sub<&'a Value<Rep>> for Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Sub<&'a Value<Rep>> for Value<Rep> | sub
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() - rhs.val()
    //@end
}
impl<'a, Rep> SubSpecImpl<&'a Value<Rep>> for &'a Value<Rep> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'a Value<Rep>) -> bool { true }
    uninterp spec fn sub_spec(self, rhs: &'a Value<Rep>) -> Value<Rep>;
}
impl<'a, Rep> Sub for &'a Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Sub for &'a Value<Rep> | sub
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() - rhs.val()
    //@end
}
impl<Rep> AddAssignSpecImpl<Value<Rep>> for Value<Rep> {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Value<Rep>) -> bool { true }
    uninterp spec fn add_assign_spec(&self, rhs: Value<Rep>) -> &Self;
}
impl<Rep> AddAssign for Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> AddAssign for Value<Rep> | add_assign
    //@spec
        ensures final(self).val() == old(self).val() + rhs.val()
    //@end
}
impl<'a, Rep> AddAssignSpecImpl<&'a Value<Rep>> for Value<Rep> {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: &'a Value<Rep>) -> bool { true }
    uninterp spec fn add_assign_spec(&self, rhs: &'a Value<Rep>) -> &Self;
}
impl<'a, Rep> AddAssign<&'a Value<Rep>> for Value<Rep> {
    //@fn core/src/value.rs | impl<'a, Rep> AddAssign<&'a Value<Rep>> for Value<Rep> | add_assign
    //@spec
        ensures final(self).val() == old(self).val() + rhs.val()
    //@end
}
impl<Rep> SubAssignSpecImpl<Value<Rep>> for Value<Rep> {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Value<Rep>) -> bool { true }
    uninterp spec fn sub_assign_spec(&self, rhs: Value<Rep>) -> &Self;
}
impl<Rep> SubAssign for Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> SubAssign for Value<Rep> | sub_assign
    //@spec
        ensures final(self).val() == old(self).val() - rhs.val()
    //@end
}
impl<'a, Rep> SubAssignSpecImpl<&'a Value<Rep>> for Value<Rep> {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: &'a Value<Rep>) -> bool { true }
    uninterp spec fn sub_assign_spec(&self, rhs: &'a Value<Rep>) -> &Self;
}
impl<'a, Rep> SubAssign<&'a Value<Rep>> for Value<Rep> {
    //@fn core/src/value.rs | impl<'a, Rep> SubAssign<&'a Value<Rep>> for Value<Rep> | sub_assign
    //@spec
        ensures final(self).val() == old(self).val() - rhs.val()
    //@end
}
impl<Rep> MulSpecImpl<u32> for Value<Rep> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: u32) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: u32) -> Value<Rep>;
}
impl<Rep> Mul<u32> for Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<Rep> Mul<u32> for Value<Rep> | mul
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() * (rhs as int as real)
    //@end
}
impl<'a, Rep> MulSpecImpl<u32> for &'a Value<Rep> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: u32) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: u32) -> Value<Rep>;
}
impl<'a, Rep> Mul<u32> for &'a Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Mul<u32> for &'a Value<Rep> | mul
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() * (rhs as int as real)
    //@end
}
impl<Rep> MulSpecImpl<usize> for Value<Rep> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: usize) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: usize) -> Value<Rep>;
}
impl<Rep> Mul<usize> for Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<Rep> Mul<usize> for Value<Rep> | mul
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() * (rhs as int as real)
    //@end
}
impl<'a, Rep> MulSpecImpl<usize> for &'a Value<Rep> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: usize) -> bool { true }
    uninterp spec fn mul_spec(self, rhs: usize) -> Value<Rep>;
}
impl<'a, Rep> Mul<usize> for &'a Value<Rep> {
    type Output = Value<Rep>;
    //@fn core/src/value.rs | impl<'a, Rep> Mul<usize> for &'a Value<Rep> | mul
    //@sig Self :: Output => Value<Rep>
    //@spec
        ensures r.val() == self.val() * (rhs as int as real)
    //@end
}

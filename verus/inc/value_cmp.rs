// comparison of amounts is comparison of numbers
impl<Rep> PartialEqSpecImpl for Value<Rep> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.val() == o.val() }
}
impl<Rep> PartialEq<Self> for Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> PartialEq<Self> for Value<Rep> | eq
    //@end
}
impl<Rep> Eq for Value<Rep> {}
impl<Rep> PartialOrdSpecImpl for Value<Rep> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(order(self.val(), o.val())) }
}
impl<Rep> PartialOrd<Self> for Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> PartialOrd<Self> for Value<Rep> | partial_cmp
    //@sig std :: cmp :: Ordering => Ordering
    //@end
}
impl<Rep> OrdSpecImpl for Value<Rep> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { order(self.val(), o.val()) }
}
impl<Rep> Ord for Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> Ord for Value<Rep> | cmp
    //@sig std :: cmp :: Ordering => Ordering
    //@end
}

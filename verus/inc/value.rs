// Value: the struct and its elementary functions, extracted
//@item core/src/value.rs | struct | Value
//@rewrite value : BigDecimal => pub value: BigDecimal
//@rewrite phantom_data : PhantomData < fn ( ) -> Rep > => pub phantom_data: PhantomData<Rep>
//@end
impl<Rep> Value<Rep> {
    /// the number an amount stands for
    pub open spec fn val(&self) -> real { self.value.val() }
    //@fn core/src/value.rs | impl<Rep> Value<Rep> | new
    //@spec
        ensures r.value == value
    //@end
    //@fn core/src/value.rs | impl<Rep> Value<Rep> | zero
    //@spec
        ensures r.val() == 0real
    //@end
    //@fn core/src/value.rs | impl<Rep> Value<Rep> | one
    //@spec
        ensures r.val() == 1real
    //@end
    //@fn core/src/value.rs | impl<Rep> From<BigDecimal> for Value<Rep> | from
    //@as from_decimal
    //@spec
        ensures r.value == value
    //@end
    //@fn core/src/value.rs | impl<Rep> From<u64> for Value<Rep> | from
    //@as from_u64
    //@spec
        ensures r.val() == (value as int as real)
    //@end
    //@fn core/src/value.rs | impl<Rep> Default for Value<Rep> | default
    //@spec
        ensures r.val() == 0real
    //@end
}
impl<Rep> Clone for Value<Rep> {
    //@fn core/src/value.rs | impl<Rep> Clone for Value<Rep> | clone
    //@spec
        ensures r.value == self.value
    //@end
}

// C01: chain counters never wrap
use vstd::prelude::*;
verus! {

//@rules ctor
. map ( Self ) => .map(|__x| Self(__x))
//@end

// ---------------------------------------------------------------- block number
//@item core/src/block_number.rs | struct | BlockNumber
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl BlockNumber {
    //@item core/src/block_number.rs | const | impl BlockNumber ::> MAX
    //@rewrite pub const MAX : Self = $x ; => pub exec const MAX: Self ensures Self::MAX.0 == u64::MAX { $x }
    //@end
    //@item core/src/block_number.rs | const | impl BlockNumber ::> MIN
    //@rewrite pub const MIN : Self = $x ; => pub exec const MIN: Self ensures Self::MIN.0 == 0 { $x }
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | new
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | into_inner
    //@spec
        ensures r == self.0
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | checked_next
    //@spec
        ensures self.0 + 1 <= u64::MAX ==> r == Some(BlockNumber((self.0 + 1) as u64)), self.0 + 1 > u64::MAX ==> r is None
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | saturating_next
    //@spec
        ensures r.0 == if self.0 + 1 <= u64::MAX { self.0 + 1 } else { u64::MAX as int }
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | checked_add
    //@use ctor
    //@desugar opt.map
    //@spec
        ensures self.0 + rhs <= u64::MAX ==> r == Some(BlockNumber((self.0 + rhs) as u64)), self.0 + rhs > u64::MAX ==> r is None
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | saturating_add
    //@spec
        ensures r.0 == if self.0 + rhs <= u64::MAX { self.0 + rhs } else { u64::MAX as int }
    //@end
    //@fn core/src/block_number.rs | impl BlockNumber | saturating_sub
    //@spec
        ensures r.0 == if self.0 >= rhs { self.0 - rhs } else { 0 }
    //@end
    //@fn core/src/block_number.rs | impl From<u64> for BlockNumber | from
    //@as from_u64
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/block_number.rs | impl From<BlockNumber> for u64 | from
    //@as u64_from
    //@sig -> Self => -> u64
    //@spec
        ensures r == __p0.0
    //@end
}

// ---------------------------------------------------------------- slot number
//@item core/src/slot_number.rs | struct | SlotNumber
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl SlotNumber {
    //@item core/src/slot_number.rs | const | impl SlotNumber ::> MAX
    //@rewrite pub const MAX : Self = $x ; => pub exec const MAX: Self ensures Self::MAX.0 == u64::MAX { $x }
    //@end
    //@item core/src/slot_number.rs | const | impl SlotNumber ::> MIN
    //@rewrite pub const MIN : Self = $x ; => pub exec const MIN: Self ensures Self::MIN.0 == 0 { $x }
    //@end
    //@fn core/src/slot_number.rs | impl SlotNumber | new
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/slot_number.rs | impl SlotNumber | checked_next
    //@spec
        ensures self.0 + 1 <= u64::MAX ==> r == Some(SlotNumber((self.0 + 1) as u64)), self.0 + 1 > u64::MAX ==> r is None
    //@end
    //@fn core/src/slot_number.rs | impl SlotNumber | saturating_next
    //@spec
        ensures r.0 == if self.0 + 1 <= u64::MAX { self.0 + 1 } else { u64::MAX as int }
    //@end
    //@fn core/src/slot_number.rs | impl SlotNumber | checked_add
    //@use ctor
    //@desugar opt.map
    //@spec
        ensures self.0 + rhs <= u64::MAX ==> r == Some(SlotNumber((self.0 + rhs) as u64)), self.0 + rhs > u64::MAX ==> r is None
    //@end
    //@fn core/src/slot_number.rs | impl SlotNumber | saturating_add
    //@spec
        ensures r.0 == if self.0 + rhs <= u64::MAX { self.0 + rhs } else { u64::MAX as int }
    //@end
    //@fn core/src/slot_number.rs | impl From<u64> for SlotNumber | from
    //@as from_u64
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/slot_number.rs | impl From<SlotNumber> for u64 | from
    //@as u64_from
    //@sig -> Self => -> u64
    //@spec
        ensures r == __p0.0
    //@end
}

// ---------------------------------------------------------------- output index
//@item core/src/output_index.rs | struct | OutputIndex
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl OutputIndex {
    //@item core/src/output_index.rs | const | impl OutputIndex ::> MAX
    //@rewrite pub const MAX : Self = $x ; => pub exec const MAX: Self ensures Self::MAX.0 == u64::MAX { $x }
    //@end
    //@item core/src/output_index.rs | const | impl OutputIndex ::> MIN
    //@rewrite pub const MIN : Self = $x ; => pub exec const MIN: Self ensures Self::MIN.0 == 0 { $x }
    //@end
    //@fn core/src/output_index.rs | impl OutputIndex | new
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/output_index.rs | impl OutputIndex | checked_next
    //@spec
        ensures self.0 + 1 <= u64::MAX ==> r == Some(OutputIndex((self.0 + 1) as u64)), self.0 + 1 > u64::MAX ==> r is None
    //@end
    //@fn core/src/output_index.rs | impl OutputIndex | saturating_next
    //@spec
        ensures r.0 == if self.0 + 1 <= u64::MAX { self.0 + 1 } else { u64::MAX as int }
    //@end
    //@fn core/src/output_index.rs | impl OutputIndex | checked_add
    //@use ctor
    //@desugar opt.map
    //@spec
        ensures self.0 + rhs <= u64::MAX ==> r == Some(OutputIndex((self.0 + rhs) as u64)), self.0 + rhs > u64::MAX ==> r is None
    //@end
    //@fn core/src/output_index.rs | impl OutputIndex | saturating_add
    //@spec
        ensures r.0 == if self.0 + rhs <= u64::MAX { self.0 + rhs } else { u64::MAX as int }
    //@end
    //@fn core/src/output_index.rs | impl From<u64> for OutputIndex | from
    //@as from_u64
    //@spec
        ensures r.0 == block_number
    //@end
    //@fn core/src/output_index.rs | impl From<OutputIndex> for u64 | from
    //@as u64_from
    //@sig -> Self => -> u64
    //@spec
        ensures r == __p0.0
    //@end
}

// ---------------------------------------------------------------- timestamp
//@item core/src/timestamp.rs | struct | Timestamp
//@attr #[derive(Clone, Copy)]
//@rewrite ( u64 ) => (pub u64)
//@end
impl Timestamp {
    //@item core/src/timestamp.rs | const | impl Timestamp ::> MAX
    //@rewrite pub const MAX : Self = $x ; => pub exec const MAX: Self ensures Self::MAX.0 == u64::MAX { $x }
    //@end
    //@item core/src/timestamp.rs | const | impl Timestamp ::> MIN
    //@rewrite pub const MIN : Self = $x ; => pub exec const MIN: Self ensures Self::MIN.0 == 0 { $x }
    //@end
    //@fn core/src/timestamp.rs | impl Timestamp | new
    //@spec
        ensures r.0 == timestamp
    //@end
    //@fn core/src/timestamp.rs | impl Timestamp | into_inner
    //@spec
        ensures r == self.0
    //@end
    //@fn core/src/timestamp.rs | impl From<u64> for Timestamp | from
    //@as from_u64
    //@spec
        ensures r.0 == timestamp
    //@end
    //@fn core/src/timestamp.rs | impl From<Timestamp> for u64 | from
    //@as u64_from
    //@sig -> Self => -> u64
    //@spec
        ensures r == __p0.0
    //@end
}

// ---- wrap and unwrap, over the contracts -------------------------------------------------------
fn there_and_back(n: u64) {
    let a = BlockNumber::u64_from(BlockNumber::from_u64(n)); assert(a == n);
    let a = BlockNumber::new(n).into_inner(); assert(a == n);
    let a = SlotNumber::u64_from(SlotNumber::from_u64(n)); assert(a == n);
    let a = OutputIndex::u64_from(OutputIndex::from_u64(n)); assert(a == n);
    let a = Timestamp::u64_from(Timestamp::from_u64(n)); assert(a == n);
    let a = Timestamp::new(n).into_inner(); assert(a == n);
}
} // verus!

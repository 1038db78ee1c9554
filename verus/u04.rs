// U04: transaction balance reports
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/value_ops.rs
//@include inc/value_cmp.rs
use core::cmp::Ordering::{Equal, Greater, Less};
//@include inc/balance.rs
//@include inc/iters.rs
//@include inc/maps.rs
//@include inc/utxo_types.rs
//@include inc/selection.rs
} // verus!

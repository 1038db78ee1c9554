// U05: random-improve selection
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/value_ops.rs
//@include inc/value_cmp.rs
use core::cmp::Ordering::{Equal, Greater, Less};
//@include inc/balance.rs
//@include inc/anyhow.rs
//@include inc/iters.rs
//@include inc/maps.rs
//@include inc/bmap.rs
//@include inc/utxo_types.rs
//@include inc/utxo_store.rs
//@include inc/selection.rs
//@include inc/estimator.rs
//@include inc/pick.rs
//@include inc/random_std.rs
//@include inc/random.rs
//@include inc/random_fn.rs
//@include inc/random_sel.rs
} // verus!

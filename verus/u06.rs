// U06: fee estimators
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/value_ops.rs
//@include inc/value_cmp.rs
use core::cmp::Ordering::{Equal, Greater, Less};
//@include inc/balance.rs
//@include inc/anyhow.rs
//@include inc/iters.rs
//@include inc/maps.rs
//@include inc/utxo_types.rs
//@include inc/selection.rs
//@define sound
//@include inc/estimator.rs
//@include inc/cml.rs
//@include inc/fees.rs
//@include inc/fee_thermo.rs
//@include inc/fee_others.rs
} // verus!

// C07, C08: the UTxO store
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/value_ops.rs
//@include inc/value_cmp.rs
//@include inc/anyhow.rs
//@include inc/iters.rs
//@include inc/maps.rs
//@include inc/bmap.rs
//@include inc/utxo_types.rs
//@include inc/utxo_store.rs
} // verus!

// D05: UTxOs to and from the Cardano library's types
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include inc/decimal.rs
//@include inc/value.rs
//@include inc/anyhow.rs
//@include inc/ranges.rs
//@include inc/cip14.rs
//@include inc/iters.rs
//@include inc/maps.rs
//@include inc/cml_values.rs
//@include inc/conv.rs
} // verus!

// D02: CIP-14 asset fingerprints
use vstd::prelude::*;
verus! {

//@include inc/anyhow.rs
//@include inc/ranges.rs


//@include inc/cip14.rs
} // verus!

// F04: sub-ranges of a shared memory view
use vstd::prelude::*;
verus! {

//@include inc/view.rs

} // verus!

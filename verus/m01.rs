// M01-M04: the multiverse
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub use core::marker::PhantomData;
//@include inc/iters.rs
//@include inc/mv_std.rs
//@include inc/mv_db.rs
//@include inc/mv.rs
//@include inc/mv_ops.rs
//@include inc/mv_select.rs
//@include inc/mv_visit.rs
//@include inc/mv_load.rs
} // verus!

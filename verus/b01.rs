// B01, B02: the sources that follow a chain through a multiverse
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub use core::marker::PhantomData;
//@include inc/iters.rs
//@include inc/mv_std.rs
//@include inc/mv_db.rs
//@include inc/mv.rs
//@include inc/mv_ops.rs
//@include inc/mv_select.rs
//@include inc/mv_visit.rs
//@include inc/src_std.rs
//@include inc/src.rs
//@include inc/src_confirmed.rs
//@include inc/src_forks.rs
} // verus!

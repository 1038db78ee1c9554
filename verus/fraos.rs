// F01, F02, F03: the record store
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub use core::marker::PhantomData;
//@include inc/iters.rs
//@include inc/view.rs
//@include inc/files.rs
//@include inc/chunks.rs
//@include inc/growable.rs
//@include inc/appender.rs
//@include inc/store.rs
//@include inc/store_db.rs

} // verus!

// L01: the log map, over the record store (all of fraos.rs is under contract here too)
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub use core::marker::PhantomData;
//@include inc/anyhow.rs
//@include inc/iters.rs
//@include inc/view.rs
//@include inc/files.rs
//@include inc/chunks.rs
//@include inc/growable.rs
//@include inc/appender.rs
//@include inc/store.rs
//@include inc/store_db.rs
//@include inc/logmap.rs

} // verus!

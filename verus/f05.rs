// F05: the record store, used from several threads
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub use core::marker::PhantomData;
//@define shared
//@include inc/iters.rs
//@include inc/view.rs
//@include inc/files.rs
//@include inc/chunks.rs
//@include inc/growable.rs
//@include inc/appender.rs
//@include inc/store.rs
//@include inc/shared.rs

} // verus!

// D06: multi-signature plans
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
//@include inc/anyhow.rs
//@include inc/iters.rs
//@include inc/multisig.rs
} // verus!

// B03: the source that serves a peer's blocks
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/peer.rs
//@include inc/network.rs
} // verus!

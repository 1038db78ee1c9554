// D04: events of the Cardano source and the block they carry
use vstd::prelude::*;
verus! {
//@include inc/anyhow.rs
use anyhow::Result;
//@rules anyhow2
anyhow :: Result => Result
//@end

// ---- opaque: identifiers are under contract in C09, numbers in C01 ----
#[derive(Clone, Copy, PartialEq, Eq)] pub struct BlockNumber(pub u64);
#[derive(Clone, Copy, PartialEq, Eq)] pub struct SlotNumber(pub u64);
impl BlockNumber {
    //@fn core/src/block_number.rs | impl BlockNumber | into_inner
    //@spec
        ensures r == self.0
    //@end
    //@fn core/src/block_number.rs | impl From<u64> for BlockNumber | from
    //@spec
        ensures r.0 == block_number
    //@end
}
#[verifier::external_body] pub struct BlockId { s: String }
impl BlockId { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == self { unimplemented!() } }
//@item blockchain-source/src/cardano/point.rs | enum | Point
//@end
//@item blockchain-source/src/cardano/event.rs | enum | CardanoNetworkEvent
//@end
//@item blockchain-source/src/cardano/event.rs | struct | BlockEvent
//@end

impl<Block, Tip> CardanoNetworkEvent<Block, Tip> {
    //@fn blockchain-source/src/cardano/event.rs | impl<Block: Send, Tip: Send> EventObject for CardanoNetworkEvent<Block, Tip> | is_blockchain_tip
    //@spec
        ensures r == (self is Tip)
    //@end
    //@fn blockchain-source/src/cardano/event.rs | impl<Block, Tip> CardanoNetworkEvent<Block, Tip> | map_block
    //@use anyhow2
    //@sig anyhow :: Result => Result
    //@rewrite . map ( CardanoNetworkEvent :: Block ) => .map(|__x| CardanoNetworkEvent::Block(__x))
    //@desugar res.map
    //@spec
        requires self matches CardanoNetworkEvent::Block(b) ==> f.requires((b,))
        ensures
            self matches CardanoNetworkEvent::Tip(t) ==> r == Ok::<CardanoNetworkEvent<MappedBlock, Tip>, anyhow::Error>(CardanoNetworkEvent::Tip(t)),
            self matches CardanoNetworkEvent::Block(b) ==> (r is Ok ==> r->Ok_0 is Block && f.ensures((b,), Ok(r->Ok_0->Block_0))) && (r is Err ==> f.ensures((b,), Err(r->Err_0))),
    //@end
    //@fn blockchain-source/src/cardano/event.rs | impl<Block, Tip> CardanoNetworkEvent<Block, Tip> | map_tip
    //@use anyhow2
    //@sig anyhow :: Result => Result
    //@rewrite . map ( CardanoNetworkEvent :: Tip ) => .map(|__x| CardanoNetworkEvent::Tip(__x))
    //@desugar res.map
    //@spec
        requires self matches CardanoNetworkEvent::Tip(t) ==> f.requires((t,))
        ensures
            self matches CardanoNetworkEvent::Block(b) ==> r == Ok::<CardanoNetworkEvent<Block, MappedTip>, anyhow::Error>(CardanoNetworkEvent::Block(b)),
            self matches CardanoNetworkEvent::Tip(t) ==> (r is Ok ==> r->Ok_0 is Tip && f.ensures((t,), Ok(r->Ok_0->Tip_0))) && (r is Err ==> f.ensures((t,), Err(r->Err_0))),
    //@end
}
impl<Tip> CardanoNetworkEvent<BlockEvent, Tip> {
    //@fn blockchain-source/src/cardano/event.rs | impl<Tip> multiverse::Variant for CardanoNetworkEvent<BlockEvent, Tip> | id
    //@sig Self :: Key => BlockId
    //@spec
        requires self is Block
        ensures *r == self->Block_0.id
    //@end
    //@fn blockchain-source/src/cardano/event.rs | impl<Tip> multiverse::Variant for CardanoNetworkEvent<BlockEvent, Tip> | parent_id
    //@sig Self :: Key => BlockId
    //@spec
        requires self is Block
        ensures *r == self->Block_0.parent_id
    //@end
    //@fn blockchain-source/src/cardano/event.rs | impl<Tip> multiverse::Variant for CardanoNetworkEvent<BlockEvent, Tip> | block_number
    //@sig dcspark_core :: BlockNumber => BlockNumber
    //@rewrite block . block_number . into_inner ( ) . into ( ) => BlockNumber::from(block.block_number.into_inner())
    //@spec
        requires self is Block
        ensures r == self->Block_0.block_number
    //@end
    //@fn blockchain-source/src/cardano/event.rs | impl<Tip> GetNextFrom for CardanoNetworkEvent<BlockEvent, Tip> | next_from
    //@sig Self :: From => Point
    //@rewrite super :: Point => Point
    //@spec
        ensures
            self is Tip ==> r is None,
            self matches CardanoNetworkEvent::Block(b) ==> r == Some(Point::BlockHeader { slot_nb: b.slot_number, hash: b.id }),
    //@end
}
/// a source that holds one event gives it once
//@fn blockchain-source/src/source.rs | impl<T: EventObject> Source for Option<T> | pull
//@sig async fn pull => fn pull_once<T>
//@sig & mut self => it: &mut Option<T>
//@sig Result < Option < Self :: Event > > => Result<Option<T>>
//@sig & Self :: From => &()
//@rewrite self . take ( ) => it.take()
//@spec
    ensures r == Ok::<Option<T>, anyhow::Error>(*old(it)), *final(it) is None
//@end
fn main() {}
}

//! D04: events of the Cardano source and the block they carry.
use common::*;
use dcspark_core::{BlockId, BlockNumber, SlotNumber};
use following_source::cardano::{BlockEvent, CardanoNetworkEvent, Point};
use following_source::{EventObject, GetNextFrom, Source};
use multiverse::Variant;

type Ev = CardanoNetworkEvent<BlockEvent, u64>;
fn same(a: &BlockEvent, b: &BlockEvent) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    match f.as_mut().poll(&mut std::task::Context::from_waker(w)) {
        std::task::Poll::Ready(x) => x,
        std::task::Poll::Pending => panic!("the option's pull does not finish"),
    }
}

pub fn events(c: &mut Case) -> CaseResult {
    let mut word = |c: &mut Case| -> String { let n = c.rng.usize(5); (0..n).map(|_| *c.rng.pick(&["0", "a", "F", "0x", "é"])).collect() };
    let b = BlockEvent {
        id: BlockId::new(word(c)),
        parent_id: BlockId::new(word(c)),
        block_number: BlockNumber::new(c.rng.corner()),
        raw_block: { let n = c.rng.usize(6); c.rng.bytes(n) },
        slot_number: SlotNumber::new(c.rng.corner()),
        is_boundary_block: c.rng.chance(1, 2),
        epoch: c.rng.corner(),
    };
    let (t, k, fail) = (c.rng.corner(), c.rng.corner(), c.rng.chance(1, 4));
    c.log(format!("{b:?} {t} {k} {fail}"));
    c.hit();
    let ev: Ev = CardanoNetworkEvent::Block(b.clone());
    let tip: Ev = CardanoNetworkEvent::Tip(t);
    check!(tip.is_blockchain_tip() && !ev.is_blockchain_tip(), "a tip, and only a tip, is the blockchain's tip");
    check_eq!(Variant::id(&ev), &b.id, "identifier");
    check_eq!(Variant::parent_id(&ev), &b.parent_id, "parent's identifier");
    check_eq!(Variant::block_number(&ev), b.block_number, "number");
    check!(tip.next_from().is_none(), "a tip has no place to go on from: {:?}", tip.next_from());
    let want = Point::BlockHeader { slot_nb: b.slot_number, hash: b.id.clone() };
    check_eq!(ev.next_from(), Some(want), "place to go on from");
    // mapping
    let f = |x: BlockEvent| if fail { Err(anyhow::anyhow!("no")) } else { Ok((x, k)) };
    match (ev.clone().map_block(f), fail) {
        (Err(_), true) => {}
        (Ok(CardanoNetworkEvent::Block((x, y))), false) => check!(same(&x, &b) && y == k, "mapped block: {x:?} {y}"),
        (r, _) => return Err(format!("mapping a block (failing: {fail}) gave {r:?}")),
    }
    check!(matches!(tip.clone().map_block(f), Ok(CardanoNetworkEvent::Tip(x)) if x == t), "mapping blocks changes a tip");
    let g = |x: u64| if fail { Err(anyhow::anyhow!("no")) } else { Ok((x, k)) };
    match (tip.clone().map_tip(g), fail) {
        (Err(_), true) => {}
        (Ok(CardanoNetworkEvent::Tip(x)), false) => check_eq!(x, (t, k), "mapped tip"),
        (r, _) => return Err(format!("mapping a tip (failing: {fail}) gave {r:?}")),
    }
    check!(matches!(ev.clone().map_tip(g), Ok(CardanoNetworkEvent::Block(x)) if same(&x, &b)), "mapping tips changes a block");
    // a source of one event
    let mut o = Some(ev);
    check!(matches!(now(o.pull(&())), Ok(Some(CardanoNetworkEvent::Block(x))) if same(&x, &b)), "first pull");
    check!(matches!(now(o.pull(&())), Ok(None)) && o.is_none(), "second pull");
    Ok(())
}

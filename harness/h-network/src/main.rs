//! B03: the Cardano source over a scripted peer, against what the peer has.
use cardano_sdk::protocol::Point as Place;
use common::*;
use dcspark_core::{BlockId, SlotNumber};
use full_source::cardano::{time::Era, BlockEvent, CardanoNetworkEvent, CardanoSource, NetworkConfiguration, Point, Tip};
use full_source::Source;
use peer_stub::{forget, peer, write_block, Peer};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/// one block of the peer's chain, as it was made
#[derive(Clone)]
struct Block { kind: u8, number: u64, slot: u64, epoch: u64, hash: [u8; 32], previous: Option<[u8; 32]>, raw: Vec<u8> }
fn place(b: &Block) -> Place { Place::from_raw(b.slot, &hex::encode(b.hash)).unwrap() }
fn point(b: &Block) -> Point { Point::BlockHeader { slot_nb: SlotNumber::new(b.slot), hash: BlockId::new(hex::encode(b.hash)) } }
/// what is still to come out of the channel at hand
enum Next { Tip(Tip), Block(Block), Unknown(Block) }

fn says(e: &BlockEvent, b: &Block, era: &Era) -> CaseResult {
    check!(e.raw_block == b.raw, "block {}: other bytes", b.number);
    check_eq!(e.id.as_ref() as &str, hex::encode(b.hash).as_str(), "id of block {}", b.number);
    check_eq!(e.block_number.into_inner(), b.number, "number");
    check_eq!(u64::from(e.slot_number), b.slot, "slot of block {}", b.number);
    if let Some(p) = b.previous { check_eq!(e.parent_id.as_ref() as &str, hex::encode(p).as_str(), "parent of block {}", b.number); }
    check_eq!(e.is_boundary_block, b.kind == 0, "is block {} a boundary", b.number);
    let epoch = if b.kind < 2 { b.epoch } else { era.start_epoch + (b.slot - era.first_slot) / era.epoch_length_seconds };
    check_eq!(e.epoch, epoch, "epoch of block {}", b.number);
    Ok(())
}
fn same(p: &Point, q: &Point) -> bool { p == q }

static N: AtomicU64 = AtomicU64::new(0);

fn serves(c: &mut Case) -> CaseResult {
    let name = format!("peer-{}", N.fetch_add(1, Ordering::SeqCst));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(serve(c, &name));
    forget(&name);
    drop(rt);
    r
}
async fn serve(c: &mut Case, name: &str) -> CaseResult {
    let p = peer(name);
    let mut rng = c.rng.clone();
    let r = &mut rng;
    let era = Era { first_slot: r.below(60), start_epoch: r.below(300), known_time: 0, slot_length: 1, epoch_length_seconds: 2 + r.below(40) };
    let genesis_parent = BlockId::new(hex::encode(r.bytes(32)));
    let mut chain: Vec<Block> = vec![];
    let grow = |chain: &mut Vec<Block>, n: u64, r: &mut Rng, p: &mut Peer| {
        for _ in 0..n {
            let (number, slot) = match chain.last() { Some(b) => (b.number + (r.below(5) != 0) as u64, b.slot + 1 + r.below(20)), None => (0, [0, 0, 20][r.usize(3)]) };
            let hash: [u8; 32] = r.bytes(32).try_into().unwrap();
            let previous = if chain.is_empty() && r.chance(1, 2) { None } else { Some(chain.last().map(|b| b.hash).unwrap_or(r.bytes(32).try_into().unwrap())) };
            // now and then a later block from before its era: its epoch can't be told
            let kind = if slot < era.first_slot && !r.chance(1, 12) { r.below(2) as u8 } else { 2 - r.below(30).min(2) as u8 / 2 };
            let epoch = r.below(1000);
            let padding = r.below(20) as usize;
            let raw = write_block(kind, number, slot, epoch, hash, previous, &r.bytes(padding));
            let b = Block { kind, number, slot, epoch, hash, previous, raw: raw.clone() };
            p.chain.push((place(&b), raw));
            chain.push(b);
        }
    };
    let n0 = 1 + r.below(c.size as u64);
    grow(&mut chain, n0, r, &mut p.lock().unwrap());
    let mainnet = r.chance(1, 2);
    let base = if mainnet { NetworkConfiguration::mainnet() } else { [NetworkConfiguration::testnet(), NetworkConfiguration::preprod(), NetworkConfiguration::preview(), NetworkConfiguration::sancho()][r.usize(4)].clone() };
    let mainnet = base.chain_info == peer_stub::genesis::network_info::NetworkInfo::mainnet();
    let default = point(r.pick(&chain));
    let port = r.below(65536) as u16;
    let config = NetworkConfiguration {
        relay: (name.to_string().into(), port), from: default.clone(), genesis_parent: genesis_parent.clone(), genesis: point(&chain[0]), shelley_era_config: era.clone(), ..base
    };
    let always = r.chance(1, 2);
    let pace = if always { Duration::ZERO } else { Duration::from_secs(3600) };
    let mut told = false;
    c.log(format!("a chain of {n0}, pace {pace:?}"));
    if r.chance(1, 10) {
        p.lock().unwrap().refuse = true;
        check!(CardanoSource::connect(&config, pace).await.is_err(), "connected to a peer that refused");
    }
    let mut source = CardanoSource::connect(&config, pace).await.map_err(|e| format!("no connection: {e}"))?;
    {
        let p = p.lock().unwrap();
        check_eq!(p.connected.len(), 1, "connections");
        let d = &p.connected[0];
        check_eq!(d.anchor_hosts, vec![(name.to_string(), port)], "the peer");
        check_eq!(d.chain_info.protocol_magic.0, u32::from(config.chain_info.protocol_magic()) as u64, "magic");
        check_eq!(d.chain_info.network_id, config.chain_info.network_id(), "network");
        check_eq!(d.chain_info.bech32_hrp_address, if mainnet { "addr" } else { "addr_test" }, "prefix");
    }
    let mut left: VecDeque<Next> = VecDeque::new();
    // the connection is gone, and the next request makes a new one
    let mut gone = false;
    // the channel was dropped with blocks in it: the request may still be busy with it
    let mut unclear = false;
    for step in 0..8 + 4 * c.size {
        let op = r.below(20);
        match op {
            0 => { let n = 1 + r.below(6); c.log(format!("the peer grows by {n}")); grow(&mut chain, n, r, &mut p.lock().unwrap()); }
            1 => {
                // another branch
                let keep = 1 + r.usize(chain.len());
                c.log(format!("the peer goes back to {keep}"));
                chain.truncate(keep);
                let mut q = p.lock().unwrap();
                q.chain.truncate(keep);
                let n = r.below(4);
                grow(&mut chain, n, r, &mut q);
            }
            2 => { c.log("the buffers are cleared"); source.clear_buffers(); unclear |= !left.is_empty(); left.clear(); }
            3 => { let s = r.chance(1, 2); p.lock().unwrap().slow = s; }
            _ => {
                let mut from: Vec<Point> = vec![];
                match r.below(8) {
                    0 => {}
                    1 => from.push(Point::BlockHeader { slot_nb: SlotNumber::new(0), hash: genesis_parent.clone() }),
                    2 => { from.push(Point::BlockHeader { slot_nb: SlotNumber::new(r.below(3)), hash: genesis_parent.clone() }); if r.chance(1, 2) { from.push(point(r.pick(&chain))); } }
                    _ => {
                        for _ in 0..1 + r.below(4) {
                            let b = if r.chance(2, 3) { r.pick(&chain) } else { &chain[chain.len() - 1 - r.usize(chain.len().min(3))] };
                            let q = if r.chance(1, 4) { Point::BlockHeader { slot_nb: SlotNumber::new(b.slot), hash: BlockId::new(hex::encode(r.bytes(32))) } } else { point(b) };
                            if !from.iter().any(|x| matches!((x, &q), (Point::BlockHeader { slot_nb: a, .. }, Point::BlockHeader { slot_nb: b, .. }) if a == b)) { from.push(q); }
                        }
                    }
                }
                // what goes wrong if a request is made now
                let trouble = if left.is_empty() && !unclear { r.below(16) } else { 99 };
                let (before, connections) = { let q = p.lock().unwrap(); (q.asked.len(), q.connected.len()) };
                let mut want: VecDeque<Next> = VecDeque::new();
                let mut request = None;
                let mut now_gone = false;
                let mut refused = false;
                if left.is_empty() {
                    let points = if from.is_empty() { vec![default.clone()] } else { from.clone() };
                    let start = points.len() == 1 && same(&points[0], &Point::BlockHeader { slot_nb: SlotNumber::new(0), hash: genesis_parent.clone() });
                    let points = if start { vec![config.genesis.clone()] } else { points };
                    let mut q = p.lock().unwrap();
                    if gone && trouble == 0 { q.refuse = true; refused = true; }
                    if !refused {
                        let mut sorted = points.clone();
                        sorted.sort_by_key(|x| std::cmp::Reverse(match x { Point::Origin => 0, Point::BlockHeader { slot_nb, .. } => u64::from(*slot_nb) }));
                        let met = sorted.iter().find_map(|x| chain.iter().position(|b| same(&point(b), x)));
                        let tip = q.tip();
                        request = Some((sorted, None));
                        if trouble == 1 { q.silent = true; now_gone = true; }
                        else if let Some(i) = met.filter(|i| *i + 1 < chain.len()) {
                            request.as_mut().unwrap().1 = Some((place(&chain[i]), tip.point.clone()));
                            if always || !told { want.push_back(Next::Tip(tip)); told = true; }
                            let skip = if start { 0 } else { 1 };
                            let mut n = chain.len() - i;
                            if trouble == 2 { q.no_blocks = true; n = 0; }
                            if trouble == 3 || trouble == 4 { n = r.usize(n + 1); q.cut = Some(n); now_gone = true; }
                            for b in chain[i..i + n].iter().skip(skip) {
                                want.push_back(if b.kind == 2 && b.slot < era.first_slot { Next::Unknown(b.clone()) } else { Next::Block(b.clone()) });
                            }
                        }
                    }
                } else {
                    std::mem::swap(&mut want, &mut left);
                }
                c.log(format!("pull from {}, {}trouble {trouble}", from.iter().map(|x| match x { Point::Origin => "origin".into(), Point::BlockHeader { slot_nb, hash } => format!("{}/{}", u64::from(*slot_nb), &(hash.as_ref() as &str)[..4]) }).collect::<Vec<_>>().join(" "), if request.is_some() { "a request, " } else { "" }));
                let got = tokio::time::timeout(Duration::from_secs(20), source.pull(&from)).await.map_err(|_| format!("step {step}: no answer"))?;
                match (want.pop_front(), got) {
                    (None, Ok(None)) => {}
                    (Some(Next::Tip(t)), Ok(Some(CardanoNetworkEvent::Tip(u)))) => check!(t == u, "step {step}: another tip: {u}, not {t}"),
                    (Some(Next::Block(b)), Ok(Some(CardanoNetworkEvent::Block(e)))) => { says(&e, &b, &era)?; c.hit(); }
                    (Some(Next::Unknown(_)), Err(_)) => {}
                    (w, g) => return Err(format!("step {step}: pulled {}, and expected {}", match g {
                        Ok(None) => "nothing".into(), Ok(Some(CardanoNetworkEvent::Tip(t))) => format!("tip {t}"), Ok(Some(CardanoNetworkEvent::Block(b))) => format!("block {} at {}", b.block_number.into_inner(), u64::from(b.slot_number)), Err(e) => format!("error {e}"),
                    }, match w { None => "nothing".into(), Some(Next::Tip(t)) => format!("tip {t}"), Some(Next::Block(b)) => format!("block {} at {}", b.number, b.slot), Some(Next::Unknown(b)) => format!("an error for block {}", b.number) })),
                }
                left = want;
                // what the peer saw of it (the range is asked for after the news is out)
                if request.is_some() { for _ in 0..20 { tokio::task::yield_now().await; } }
                let q = p.lock().unwrap();
                check!(!q.misused, "step {step}: a request on a connection on which another had not finished");
                match request {
                    None => check_eq!(q.asked.len(), before, "step {step}: requests"),
                    Some((sorted, range)) => {
                        check_eq!(q.asked.len(), before + 1, "step {step}: requests");
                        let asked: Vec<Point> = q.asked.last().unwrap().iter().map(|x| Point::from(x.clone())).collect();
                        check_eq!(asked, sorted, "step {step}: the places asked for");
                        if let Some((a, b)) = range { check!(q.ranges.last() == Some(&(a.clone(), b.clone())), "step {step}: the range asked for: {:?}, not {a} {b}", q.ranges.last()); }
                        if !unclear { check_eq!(q.connected.len(), connections + gone as usize, "step {step}: connections"); }
                        unclear = false;
                        gone = now_gone;
                    }
                }
                if refused { check_eq!(q.connected.len(), connections, "step {step}: connections"); }
            }
        }
    }
    tokio::time::timeout(Duration::from_secs(20), source.stop()).await.map_err(|_| "stop does not come back".to_string())?;
    check!(!p.lock().unwrap().misused, "a request on a connection on which another had not finished");
    Ok(())
}

fn main() {
    let a = args();
    match a.prop.as_str() {
        "B03" => run(&a, "a history of a peer (growing, switching, refusing, cut off) and pulls from it; non-trivial: a block was pulled", 24, serves),
        p => panic!("unknown property {p}"),
    }
}

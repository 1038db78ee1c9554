//! B01, B02: sources over a scripted peer, against the tree of blocks the peer draws from.
use common::*;
use following_source::multiverse::rollback::{Event, ForkHandlingSource};
use following_source::multiverse::MultiverseSource;
use following_source::{EventObject, GetNextFrom, PullFrom, Source};
use dcspark_core::BlockNumber;
use multiverse::{Multiverse, Variant};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize, PartialOrd, Ord)]
pub struct K(String);
impl PullFrom for K {}
impl std::fmt::Display for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl AsRef<[u8]> for K {
    fn as_ref(&self) -> &[u8] { self.0.as_ref() }
}
/// a place on the chain: not the identifier itself, so that the two cannot be mixed up
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Place(u64, String);
impl PullFrom for Place {}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct V {
    id: K,
    parent: K,
    number: u64,
    tip: bool,
    payload: u64,
}
impl V {
    fn place(&self) -> Place { Place(self.number, self.id.0.clone()) }
}
impl EventObject for V {
    fn is_blockchain_tip(&self) -> bool { self.tip }
}
impl Variant for V {
    type Key = K;
    fn id(&self) -> &K { assert!(!self.tip); &self.id }
    fn parent_id(&self) -> &K { assert!(!self.tip); &self.parent }
    fn block_number(&self) -> BlockNumber { assert!(!self.tip); BlockNumber::new(self.number) }
}
impl GetNextFrom for V {
    type From = Place;
    fn next_from(&self) -> Option<Place> { if self.tip { None } else { Some(self.place()) } }
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; }
    }
}
/// what the peer answers next, and what it was asked last
#[derive(Default)]
struct Peer {
    next: Option<Result<Option<V>, ()>>,
    asked: Option<Vec<Place>>,
}
type Shared = std::sync::Arc<std::sync::Mutex<Peer>>;
/// the same peer, for the source to own and the case to script
struct Handle(Shared);
#[async_trait::async_trait]
impl Source for Handle {
    type Event = V;
    type From = Vec<Place>;
    async fn pull(&mut self, from: &Vec<Place>) -> anyhow::Result<Option<V>> {
        let mut p = self.0.lock().unwrap();
        p.asked = Some(from.clone());
        match p.next.take().expect("asked twice") {
            Ok(x) => Ok(x),
            Err(()) => Err(anyhow::anyhow!("the peer is gone")),
        }
    }
}

/// all blocks there are, and those the peer sent
struct World {
    blocks: Vec<V>,
    by: BTreeMap<K, usize>,
    sent: BTreeSet<K>,
    genesis: K,
}
impl World {
    fn new(c: &mut Case) -> Self {
        let base = match c.rng.below(4) { 0 => c.rng.corner().min(u64::MAX / 2), _ => 0 };
        let genesis = V { id: K("g".into()), parent: K("nothing".into()), number: base, tip: false, payload: 0 };
        World { by: [(genesis.id.clone(), 0)].into(), genesis: genesis.id.clone(), blocks: vec![genesis], sent: BTreeSet::new() }
    }
    fn get(&self, k: &K) -> &V { &self.blocks[self.by[k]] }
    fn grow(&mut self, parent: &K, step: u64, payload: u64) -> V {
        let n = self.blocks.len();
        let v = V { id: K(format!("b{n}")), parent: parent.clone(), number: self.get(parent).number + step, tip: false, payload };
        self.by.insert(v.id.clone(), n);
        self.blocks.push(v.clone());
        v
    }
    fn parent(&self, k: &K) -> Option<K> { Some(self.get(k).parent.clone()).filter(|p| self.by.contains_key(p)) }
    /// with itself, up to genesis
    fn ancestors(&self, k: &K) -> Vec<K> { std::iter::successors(Some(k.clone()), |k| self.parent(k)).collect() }
    fn highest(&self) -> u64 { self.sent.iter().map(|k| self.get(k).number).max().unwrap_or(0) }
    fn tip() -> V { V { id: K("tip".into()), parent: K("tip".into()), number: 0, tip: true, payload: 0 } }
}

thread_local! { static DB: std::cell::RefCell<Option<(u64, sled::Db)>> = const { std::cell::RefCell::new(None) }; }
fn database(domain: u64) -> (sled::Db, String) {
    DB.with(|d| {
        let mut d = d.borrow_mut();
        if d.as_ref().map(|x| x.0 >= 200).unwrap_or(true) {
            *d = Some((0, sled::Config::new().temporary(true).open().unwrap()));
        }
        let x = d.as_mut().unwrap();
        x.0 += 1;
        (x.1.clone(), format!("case-{domain}"))
    })
}
fn open(c: &Case) -> Result<Multiverse<K, V>, String> {
    let (db, domain) = database(c.index);
    Multiverse::load_from(db, &domain, BlockNumber::MIN).map_err(|e| format!("{e:?}"))
}
/// A new block for the peer to send: mostly on top of its best chain, sometimes on a fork that leaves
/// at most `deep` blocks behind.
fn next_block(c: &mut Case, w: &mut World, head: &K, deep: usize, gaps: bool) -> V {
    let step = if gaps && c.rng.chance(1, 6) { 1 + c.rng.below(4) } else { 1 };
    let payload = c.rng.next();
    let parent = match c.rng.below(8) {
        0..=4 => head.clone(),
        5 => {
            // any end of a branch not too far back
            let top = w.highest();
            let ends: Vec<K> = w.sent.iter().filter(|k| w.get(k).number + deep as u64 >= top && !w.blocks.iter().any(|b| b.parent == **k)).cloned().collect();
            if ends.is_empty() { head.clone() } else { c.rng.pick(&ends).clone() }
        }
        _ => {
            let line = w.ancestors(head);
            line[c.rng.usize(line.len().min(deep + 1))].clone()
        }
    };
    w.grow(&parent, step, payload)
}

/// B01
pub fn forks(c: &mut Case) -> CaseResult {
    let mut w = World::new(c);
    let depth = c.rng.usize(6);
    let deep = if c.rng.chance(2, 3) { depth + 1 } else { depth + 4 };
    let gaps = c.rng.chance(1, 3);
    let peer: Shared = Default::default();
    let mut src: ForkHandlingSource<K, V, Handle, Event<V, Place>> = ForkHandlingSource::new(open(c)?, depth, Handle(peer.clone()));
    let from = if c.rng.chance(1, 3) { None } else { Some(w.get(&w.genesis).place()) };
    c.log(format!("depth {depth} from {from:?}"));
    // where the consumer stands (None: nowhere yet), and the block the source answered for last
    let mut at: Option<K> = None;
    let mut last: Option<K> = None;
    let mut head = w.genesis.clone();
    // what the source has still to deliver after its present answers: known only as "some"
    let mut waiting: Option<V> = None;
    for step in 0..6 + 2 * c.size {
        let script = match c.rng.below(14) {
            0 => Ok(None),
            1 => Ok(Some(World::tip())),
            2 => Err(()),
            3 if !w.sent.is_empty() => {
                // a block sent before, near the top so that it is still known
                let top = w.highest();
                let near: Vec<K> = w.sent.iter().filter(|k| w.get(k).number >= top.saturating_sub(depth as u64)).cloned().collect();
                Ok(Some(w.get(c.rng.pick(&near)).clone()))
            }
            _ if waiting.is_some() => Ok(waiting.clone()),
            _ => Ok(Some(next_block(c, &mut w, &head, deep, gaps))),
        };
        { let mut p = peer.lock().unwrap(); p.next = Some(script.clone()); p.asked = None; }
        let r = block_on(src.pull(&from));
        let (asked, unused) = { let mut p = peer.lock().unwrap(); (p.asked.take(), p.next.take().is_some()) };
        let what = format!("pull {step}");
        check!(asked.is_some() != unused, "harness");
        if unused {
            // the answer was held back for this pull: offer a new block again
            if let Ok(Some(v)) = &script { if !v.tip && !w.sent.contains(&v.id) { waiting = Some(v.clone()); } }
        } else {
            waiting = None;
            let asked: BTreeSet<Place> = asked.unwrap().into_iter().collect();
            check!(at == last, "{what}: the peer is asked while the consumer stands at {at:?} and the last block accepted is {last:?}");
            if let Some(f) = &from { check!(asked.contains(f), "{what}: not asked from the place given"); }
            if let Some(l) = &last {
                check!(w.get(l).number + depth as u64 + 1 < w.highest() || asked.contains(&w.get(l).place()) || w.blocks.iter().any(|b| w.sent.contains(&b.id) && w.ancestors(&b.id).contains(l) && asked.contains(&b.place())),
                    "{what}: not asked from a block at or above the last one");
            }
            for p in &asked { check!(Some(p) == from.as_ref() || w.blocks.iter().any(|b| w.sent.contains(&b.id) && b.place() == *p), "{what}: asked from {p:?}, which is not a block received"); }
            match &script {
                Ok(None) => { check!(matches!(r, Ok(None)), "{what}: nothing came, yet {r:?}"); continue; }
                Err(()) => { check!(r.is_err(), "{what}: the peer failed, yet {r:?}"); continue; }
                Ok(Some(v)) if v.tip => { check!(matches!(&r, Ok(Some(Event::InnerEvent(x))) if x == v), "{what}: the tip came, yet {r:?}"); continue; }
                Ok(Some(v)) if w.sent.contains(&v.id) => { check!(matches!(r, Ok(None)), "{what}: {} came again, yet {r:?}", v.id); continue; }
                Ok(Some(v)) => {
                    c.log(format!("{}<-{}#{}", v.parent, v.id, v.number));
                    w.sent.insert(v.id.clone());
                    let old = last.clone();
                    match (&r, &old) {
                        (Err(e), Some(l)) => {
                            // refused: only where the fork is deeper than the blocks kept
                            let line: BTreeSet<K> = w.ancestors(l).into_iter().collect();
                            let common = w.ancestors(&v.id).into_iter().find(|k| line.contains(k)).unwrap();
                            let low = w.get(&common).number;
                            let limit = w.highest().saturating_sub(depth as u64 + 1);
                            check!(low < limit || !w.sent.contains(&common), "{what}: fork at {common} refused although it is not deep: {e}");
                            c.log("refused");
                            head = l.clone();
                            continue;
                        }
                        (Err(e), None) => return Err(format!("{what}: the first block is refused: {e}")),
                        _ => {}
                    }
                    last = Some(v.id.clone());
                    head = v.id.clone();
                    if old.is_some() && old.as_ref() != Some(&v.parent) { c.hit(); }
                }
            }
        }
        // the event takes the consumer from where it stands to where it stands next
        let ev = match r { Ok(Some(e)) => e, x => return Err(format!("{what}: expected an event on the way from {at:?} to {last:?}, got {x:?}")) };
        match ev {
            Event::InnerEvent(v) => {
                check!(!v.tip && w.by.contains_key(&v.id) && *w.get(&v.id) == v, "{what}: the block delivered is not one sent");
                check!(w.sent.contains(&v.id), "{what}: {} was not received", v.id);
                match &at {
                    None => check!(Some(&v.id) == last.as_ref(), "{what}: first block delivered"),
                    Some(a) => check!(v.parent == *a, "{what}: delivered {} on {}, the consumer stands at {a}", v.id, v.parent),
                }
                at = Some(v.id.clone());
                c.log(format!("deliver {}", v.id));
            }
            Event::Rollback(p) => {
                match &at {
                    None => check_eq!(Some(&p), from.as_ref(), "{what}: the first rollback"),
                    Some(a) => {
                        let line = w.ancestors(a);
                        let to = line.iter().find(|k| w.get(k).place() == p).cloned();
                        let l = last.clone().unwrap();
                        let common = w.ancestors(&l).into_iter().find(|k| line.contains(k));
                        check!(to.is_some(), "{what}: rolled back to {p:?}, which is not below {a}");
                        check_eq!(to, common, "{what}: rolled back from {a} on the way to {l}");
                        at = to;
                    }
                }
                c.log(format!("rollback {p:?}"));
            }
        }
    }
    Ok(())
}

/// B02
pub fn confirmed(c: &mut Case) -> CaseResult {
    let mut w = World::new(c);
    let depth = c.rng.usize(6);
    let shallow = c.rng.chance(3, 4);
    let gaps = !shallow && c.rng.chance(1, 2);
    let peer: Shared = Default::default();
    let (db, domain) = database(c.index);
    let load = || Multiverse::load_from(db.clone(), &domain, BlockNumber::MIN).map_err(|e| format!("{e:?}"));
    let mut src: MultiverseSource<K, V, Handle> = MultiverseSource::new(load()?, depth, Handle(peer.clone()));
    let origin = if c.rng.chance(1, 2) { None } else { Some(w.get(&w.genesis).place()) };
    c.log(format!("depth {depth} from {origin:?} shallow {shallow}"));
    let mut done: Vec<K> = vec![];
    let mut head = w.genesis.clone();
    // the depth-th ancestors, among blocks received, of the highest ones
    let best = |w: &World| -> BTreeSet<Option<K>> {
        let top = w.highest();
        w.sent.iter().filter(|k| w.get(k).number == top).map(|k| w.ancestors(k).get(depth).filter(|a| w.sent.contains(*a)).cloned()).collect()
    };
    for step in 0..8 + 2 * c.size {
        let what = format!("pull {step}");
        if c.rng.chance(1, 25) {
            c.log("open again");
            drop(src);
            src = MultiverseSource::new(load()?, depth, Handle(peer.clone()));
        }
        // the place the consumer asks from: after the last block it got, or the one before (asking again)
        let again = done.len() >= 2 && c.rng.chance(1, 8);
        let wrong = !done.is_empty() && c.rng.chance(1, 20);
        let from = if wrong { Some(Place(7, "elsewhere".into())) } else if again { Some(w.get(&done[done.len() - 2]).place()) } else { done.last().map(|k| w.get(k).place()).or(origin.clone()) };
        let script = match c.rng.below(12) {
            0 => Ok(None),
            1 => Ok(Some(World::tip())),
            2 => Err(()),
            3 if !w.sent.is_empty() => {
                let top = w.highest();
                let near: Vec<K> = w.sent.iter().filter(|k| w.get(k).number >= top.saturating_sub(depth as u64)).cloned().collect();
                Ok(Some(w.get(c.rng.pick(&near)).clone()))
            }
            _ => {
                // the first block is the only one without a parent
                let mut v = if w.sent.is_empty() { let g = w.genesis.clone(); let p = c.rng.next(); w.grow(&g, 1, p) } else { next_block(c, &mut w, &head, if shallow { depth } else { depth + 3 }, gaps) };
                if shallow {
                    // forks that leave at most `depth` blocks of any highest chain: all highest blocks keep the same confirmed one
                    let mut t = BTreeSet::from([v.id.clone()]);
                    t.extend(w.sent.iter().cloned());
                    let top = t.iter().map(|k| w.get(k).number).max().unwrap();
                    let b: BTreeSet<Option<K>> = t.iter().filter(|k| w.get(k).number == top).map(|k| w.ancestors(k).get(depth).filter(|a| t.contains(*a)).cloned()).collect();
                    let lost = done.last().map(|d| !w.ancestors(&v.id).contains(d)).unwrap_or(false);
                    if b.len() > 1 || lost { w.by.remove(&v.id); w.blocks.pop(); let h = w.sent.iter().max_by_key(|k| w.get(k).number).unwrap().clone(); let p = c.rng.next(); v = w.grow(&h, 1, p); }
                }
                Ok(Some(v))
            }
        };
        { let mut p = peer.lock().unwrap(); p.next = Some(script.clone()); p.asked = None; }
        let r = block_on(src.pull(&from));
        let asked = peer.lock().unwrap().asked.take();
        peer.lock().unwrap().next = None;
        let Some(asked) = asked else {
            // a new block that was not sent does not exist
            if let Ok(Some(v)) = &script { if !v.tip && !w.sent.contains(&v.id) { w.by.remove(&v.id); w.blocks.pop(); } }
            match r {
                Ok(Some(v)) => {
                    if !shallow { check!(v == *w.get(&v.id), "{what}: the block delivered is altered"); continue; }
                    check!(again && !wrong, "{what}: {} delivered again although it was not asked for", v.id);
                    check_eq!(Some(&v.id), done.last(), "{what}: the block delivered again");
                    check!(v == *w.get(&v.id), "{what}: the block delivered again is altered");
                }
                Ok(None) => return Err(format!("{what}: nothing, without asking the peer")),
                Err(e) => check!(wrong || !shallow, "{what}: {e}"),
            }
            continue;
        };
        check!(!wrong || !shallow, "{what}: continued from a place that is neither the confirmed block nor the one before it");
        check!(!again || !shallow, "{what}: asked again for {:?}, the peer was asked", done.last());
        // every end of a branch that grew from the last confirmed block is still held
        if let Some(d) = done.last().filter(|_| shallow) {
            for k in &w.sent {
                if !w.sent.iter().any(|b| w.get(b).parent == *k) && w.ancestors(k).contains(d) { check!(asked.contains(&w.get(k).place()), "{what}: asked from {asked:?}, without the end of the branch of {k}"); }
            }
        }
        if let Some(f) = &from { check!(asked.contains(f), "{what}: not asked from the place given"); }
        for p in &asked { check!(Some(p) == from.as_ref() || w.blocks.iter().any(|b| w.sent.contains(&b.id) && b.place() == *p), "{what}: asked from {p:?}, which is not a block received"); }
        match script {
            Ok(None) => check!(matches!(r, Ok(None)), "{what}: nothing came, yet {r:?}"),
            Err(()) => check!(r.is_err(), "{what}: the peer failed, yet {r:?}"),
            Ok(Some(v)) if v.tip => check!(matches!(&r, Ok(Some(x)) if *x == v), "{what}: the tip came, yet {r:?}"),
            Ok(Some(v)) if w.sent.contains(&v.id) => check!(matches!(r, Ok(None)), "{what}: {} came again, yet {r:?}", v.id),
            Ok(Some(v)) => {
                c.log(format!("{}<-{}#{}", v.parent, v.id, v.number));
                w.sent.insert(v.id.clone());
                head = v.id.clone();
                let want = best(&w);
                let got = match r { Ok(x) => x, Err(e) => return Err(format!("{what}: {} is refused: {e}", v.id)) };
                match got {
                    None => check!(!shallow || want.contains(&None) || want.iter().any(|b| b.as_ref() == done.last()), "{what}: nothing delivered, expected one of {want:?}"),
                    Some(b) => {
                        c.hit();
                        c.log(format!("deliver {}", b.id));
                        check!(!b.tip && w.sent.contains(&b.id) && b == *w.get(&b.id), "{what}: the block delivered is not one received");
                        check!(want.contains(&Some(b.id.clone())), "{what}: {} delivered, the blocks {depth} below a highest one are {want:?}", b.id);
                        if shallow {
                            if let Some(d) = done.last() { check!(b.parent == *d, "{what}: {} delivered after {d}, its parent is {}", b.id, b.parent); }
                            check!(!done.contains(&b.id), "{what}: {} delivered before", b.id);
                        }
                        done.push(b.id);
                    }
                }
            }
        }
    }
    Ok(())
}

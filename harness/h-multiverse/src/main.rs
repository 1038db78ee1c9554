//! Multiverses against a table of blocks and links.
use common::*;
use dcspark_core::BlockNumber;
use multiverse::{BestBlock, BestBlockSelectionRule, EntryRef, Multiverse, MultiverseError, Variant};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};

type Key = Vec<u8>;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Block {
    id: Key,
    parent: Key,
    number: u64,
    payload: Option<(String, i64)>,
}
impl Variant for Block {
    type Key = Key;
    fn id(&self) -> &Key { &self.id }
    fn parent_id(&self) -> &Key { &self.parent }
    fn block_number(&self) -> BlockNumber { BlockNumber::new(self.number) }
}
type M = Multiverse<Key, Block>;

/// member -> (block, linked parent)
#[derive(Clone, Default)]
struct Model(BTreeMap<Key, (Block, Option<Key>)>);
impl Model {
    fn insert(&mut self, b: &Block) {
        if !self.0.contains_key(&b.id) {
            let link = if self.0.contains_key(&b.parent) { Some(b.parent.clone()) } else { None };
            self.0.insert(b.id.clone(), (b.clone(), link));
        }
    }
    fn remove(&mut self, k: &Key) -> Option<Block> {
        let (b, _) = self.0.remove(k)?;
        for v in self.0.values_mut() {
            if v.1.as_ref() == Some(k) { v.1 = None; }
        }
        Some(b)
    }
    fn tips(&self) -> BTreeSet<Key> {
        let parents: BTreeSet<&Key> = self.0.values().filter_map(|v| v.1.as_ref()).collect();
        self.0.keys().filter(|k| !parents.contains(k)).cloned().collect()
    }
    fn ancestor(&self, k: &Key, depth: usize) -> Option<Key> {
        let mut k = k.clone();
        for _ in 0..depth { k = self.0[&k].1.clone()?; }
        Some(k)
    }
    fn highest(&self) -> Option<u64> { self.0.values().map(|v| v.0.number).max() }
    fn depth_max(&self) -> usize { self.0.len() }
    /// the multiverse as it is when the stored blocks are inserted in order of number and identifier
    fn reloaded(&self, from: u64) -> Model {
        let mut v: Vec<&Block> = self.0.values().map(|v| &v.0).filter(|b| b.number >= from).collect();
        v.sort_by(|a, b| (a.number, &a.id).cmp(&(b.number, &b.id)));
        let mut m = Model::default();
        for b in v { m.insert(b); }
        m
    }
}

fn e<T>(r: Result<T, MultiverseError>, what: &str) -> Result<T, String> { r.map_err(|x| format!("{what}: {x:?}")) }
fn show(k: &[u8]) -> String { String::from_utf8_lossy(k).into_owned() }

fn members(m: &M, w: &Model, universe: &[Block], what: &str) -> CaseResult {
    check_eq!(m.len(), w.0.len(), "{what}: number of members");
    check_eq!(m.is_empty(), w.0.is_empty(), "{what}: is_empty");
    for b in universe {
        let want = w.0.get(&b.id).map(|v| &v.0);
        check_eq!(m.get(&b.id), want, "{what}: lookup of {}", show(&b.id));
        check_eq!(m.contains(&b.id), want.is_some(), "{what}: contains {}", show(&b.id));
    }
    let tips: BTreeSet<Key> = m.tips().iter().map(|k| k.to_vec()).collect();
    check!(tips == w.tips(), "{what}: tips are {:?}, expected {:?}", tips.iter().map(|k| show(k)).collect::<Vec<_>>(), w.tips().iter().map(|k| show(k)).collect::<Vec<_>>());
    Ok(())
}
fn best(m: &M, w: &Model, depth: usize, gap: usize, what: &str, keep: &mut Vec<EntryRef<Key>>) -> CaseResult {
    let BestBlock { selected, discarded } = m.select_best_block(BestBlockSelectionRule::LongestChain { depth, age_gap: gap });
    let got = selected.as_ref().map(|s| s.inner().clone());
    let top = w.highest();
    let wants: Vec<Option<Key>> = match top {
        None => vec![None],
        Some(h) => w.0.values().filter(|v| v.0.number == h).map(|v| w.ancestor(&v.0.id, depth)).collect(),
    };
    check!(wants.contains(&got), "{what}: selecting at depth {depth} gives {:?}, expected one of {:?}", got.as_ref().map(|k| show(k)), wants.iter().map(|k| k.as_ref().map(|k| show(k))).collect::<Vec<_>>());
    let disc: BTreeSet<Key> = discarded.iter().map(|d| d.inner().clone()).collect();
    check_eq!(disc.len(), discarded.len(), "{what}: discarded blocks");
    let want: BTreeSet<Key> = match &got {
        None => BTreeSet::new(),
        Some(s) => {
            let limit = w.0[s].0.number.saturating_sub(gap as u64);
            w.0.values().filter(|v| v.0.number < limit).map(|v| v.0.id.clone()).collect()
        }
    };
    check!(disc == want, "{what}: depth {depth} gap {gap} discards {:?}, expected {:?}", disc.iter().map(|k| show(k)).collect::<Vec<_>>(), want.iter().map(|k| show(k)).collect::<Vec<_>>());
    if let Some(g) = &got { check!(!disc.contains(g), "{what}: the selected block is discarded"); }
    keep.extend(selected);
    Ok(())
}
fn fork(m: &M, w: &Model, what: &str, keep: &mut Vec<EntryRef<Key>>) -> CaseResult {
    let t = m.preferred_fork_tip(BestBlockSelectionRule::LongestChain { depth: 3, age_gap: 1 });
    match &t {
        None => check!(w.0.is_empty(), "{what}: no preferred tip"),
        Some(t) => {
            check!(w.tips().contains(t.inner()), "{what}: the preferred tip {} is not a tip", show(t.inner()));
            let h = w.tips().iter().map(|k| w.0[k].0.number).max().unwrap();
            check_eq!(w.0[t.inner()].0.number, h, "{what}: number of the preferred tip");
        }
    }
    keep.extend(t);
    let seen: Vec<Block> = m.iter().cloned().collect();
    check!(seen.windows(2).all(|p| p[0].number <= p[1].number), "{what}: iteration is not in order of block number");
    let mut ids: Vec<Key> = seen.iter().map(|b| b.id.clone()).collect();
    ids.sort();
    check!(ids == w.0.keys().cloned().collect::<Vec<_>>(), "{what}: iteration visits {:?}, expected {:?}", ids.iter().map(|k| show(k)).collect::<Vec<_>>(), w.0.keys().map(|k| show(k)).collect::<Vec<_>>());
    for b in &seen { check!(w.0[&b.id].0 == *b, "{what}: iteration alters {}", show(&b.id)); }
    Ok(())
}

/// Blocks naming each other as parents; `up`: numbers grow from parent to child, and no block
/// precedes its parent in the list.
fn universe(c: &mut Case, up: bool) -> Vec<Block> {
    let n = 2 + c.size.min(24);
    let base = match c.rng.below(5) { 0 => c.rng.corner() / 2, 1 => 250, 2 => 65_530, 3 => (1u64 << 32) - 3, _ => 0 };
    let base = base.min(u64::MAX / 2);
    let chain = c.rng.chance(1, 3);
    let mut v: Vec<Block> = vec![];
    for i in 0..n {
        let id: Key = match c.rng.below(6) { 0 => format!("-{i}").into_bytes(), 1 => vec![0xff, i as u8], 2 => vec![0, i as u8], _ => format!("b{i}").into_bytes() };
        let (parent, number) = if i == 0 || c.rng.chance(1, 8) {
            (b"outside".to_vec(), if up { base + c.rng.below(4) } else { c.rng.below(6) })
        } else {
            let j = if chain || c.rng.chance(1, 2) { i - 1 } else { c.rng.usize(i) };
            let step = if c.rng.chance(5, 6) { 1 } else { c.rng.below(300) + 1 };
            let number = v[j].number.saturating_add(step);
            (v[j].id.clone(), if up || c.rng.chance(9, 10) { number } else { c.rng.corner() })
        };
        let payload = if c.rng.chance(1, 4) { None } else { Some((format!("é\"{}\\", c.rng.below(1000)), c.rng.next() as i64)) };
        v.push(Block { id, parent, number, payload });
    }
    if !up && c.rng.chance(1, 3) {
        // a parent with a later position, or the block itself
        let (i, j) = (c.rng.usize(n), c.rng.usize(n));
        v[i].parent = v[j].id.clone();
    }
    v
}
fn describe(v: &[Block]) -> String { v.iter().map(|b| format!("{}<-{}#{}", show(&b.parent), show(&b.id), b.number)).collect::<Vec<_>>().join(" ") }

thread_local! { static DB: std::cell::RefCell<Option<(u64, sled::Db)>> = const { std::cell::RefCell::new(None) }; }
/// A database shared by the cases of a thread, and a domain of its own for each.
fn database(domain: u64) -> (sled::Db, String) {
    DB.with(|d| {
        let mut d = d.borrow_mut();
        if d.as_ref().map(|x| x.0 >= 200).unwrap_or(true) {
            *d = Some((0, sled::Config::new().temporary(true).open().unwrap()));
        }
        let x = d.as_mut().unwrap();
        x.0 += 1;
        (x.1.clone(), format!("case-{domain}"))
    })
}

#[derive(Clone, Copy, PartialEq)]
enum Part { Members, Best, Fork }
fn history(c: &mut Case, part: Part) -> CaseResult {
    let up = part != Part::Members && c.rng.chance(2, 3);
    let v = universe(c, up);
    c.log(describe(&v));
    let (db, domain) = database(c.index);
    let mut m: M = e(M::load_from(db, &domain, BlockNumber::MIN), "open")?;
    let mut w = Model::default();
    let mut keep: Vec<EntryRef<Key>> = vec![];
    let mut arcs = vec![];
    let in_order = c.rng.chance(1, 2);
    let mut next = 0;
    for step in 0..3 + 2 * v.len() {
        let op = c.rng.below(10);
        let what;
        if op < 7 {
            let b = if in_order && next < v.len() { next += 1; v[next - 1].clone() } else { c.rng.pick(&v).clone() };
            what = format!("after inserting {}", show(&b.id));
            c.log(format!("insert {}", show(&b.id)));
            e(m.insert(b.clone()), "insert")?;
            if w.0.contains_key(&b.parent) { c.hit(); }
            w.insert(&b);
        } else {
            let k = c.rng.pick(&v).id.clone();
            what = format!("after removing {}", show(&k));
            c.log(format!("remove {}", show(&k)));
            match (m.remove(&EntryRef::new(k.clone())), w.remove(&k)) {
                (Ok(a), Some(b)) => check!(a == b, "{what}: the block returned is another"),
                (Err(MultiverseError::NotFound), None) => {}
                (a, b) => return Err(format!("{what}: got {:?}, expected {:?}", a.map(|b| show(&b.id)), b.map(|b| show(&b.id)))),
            }
        }
        if c.rng.chance(1, 5) { keep.clear(); arcs.clear(); }
        if c.rng.chance(1, 3) { arcs.extend(m.tips()); }
        match part {
            Part::Members => {
                members(&m, &w, &v, &what)?;
                // links show as the ancestors of a highest block
                let d = c.rng.usize(5);
                best(&m, &w, d, 0, &what, &mut keep)?;
            }
            Part::Best => {
                let n = w.depth_max();
                for d in [0, 1, c.rng.usize(n + 2), n] {
                    let gap = match c.rng.below(5) { 0 => 0, 1 => 1, 2 => c.rng.corner() as usize, _ => c.rng.usize(2 + n) };
                    best(&m, &w, d, gap, &what, &mut keep)?;
                }
            }
            Part::Fork => fork(&m, &w, &what, &mut keep)?,
        }
        if part == Part::Best && c.rng.chance(1, 12) {
            // what a follower does: drop the stale blocks
            let r = m.select_best_block(BestBlockSelectionRule::LongestChain { depth: c.rng.usize(4), age_gap: c.rng.usize(3) });
            let mut all: HashSet<Key> = HashSet::new();
            for d in r.discarded { all.insert(d.inner().clone()); e(m.remove(&d), "remove a discarded block")?; }
            for k in all { w.remove(&k); }
            c.log("discard stale");
        }
        if part == Part::Members && step % 40 == 39 { e(m.clear(), "clear")?; w = Model::default(); members(&m, &w, &v, "after clear")?; next = 0; c.log("clear"); }
    }
    let _ = m.destroy();
    Ok(())
}

fn open_path(p: &std::path::Path, domain: &str, from: u64) -> Result<M, String> {
    for i in 0.. {
        match M::open(p, domain, BlockNumber::new(from)) {
            Err(x) if i < 3000 && format!("{x:?}").contains("lock") => std::thread::sleep(std::time::Duration::from_millis(5)),
            r => return e(r, "open"),
        }
    }
    unreachable!()
}
fn reopen(c: &mut Case) -> CaseResult {
    let v = universe(c, true);
    c.log(describe(&v));
    // through files for some cases, through one shared database otherwise
    let scratch = if c.rng.chance(1, 12) { Some(Scratch::new("m04")) } else { None };
    let (db, domain) = database(c.index);
    let open = |from: u64| -> Result<M, String> {
        match &scratch {
            Some(s) => open_path(s.path(), "chain", from),
            None => e(M::load_from(db.clone(), &domain, BlockNumber::new(from)), "open"),
        }
    };
    let from = if c.rng.chance(1, 2) { 0 } else { let b = c.rng.pick(&v); b.number.saturating_add(c.rng.below(3)).saturating_sub(1) };
    c.log(format!("store from {from}"));
    let mut m = open(from)?;
    let mut w = Model::default();
    let mut gone: BTreeSet<Key> = BTreeSet::new();
    let mut next = 0;
    while next < v.len() {
        if c.rng.chance(1, 40) {
            c.log("clear");
            e(m.clear(), "clear")?;
            gone.extend(w.0.keys().cloned());
            w = Model::default();
            members(&m, &w, &v, "after clear")?;
        }
        match c.rng.below(12) {
            0 | 1 => {
                let k = c.rng.pick(&v).id.clone();
                c.log(format!("remove {}", show(&k)));
                let r = m.remove(&EntryRef::new(k.clone())).ok();
                let want = w.remove(&k);
                check_eq!(r, want, "removing {}", show(&k));
                if r.is_some() { gone.insert(k); }
            }
            2 => {
                c.log("close and open");
                drop(m);
                m = open(from)?;
                let want = w.reloaded(from);
                if from == 0 {
                    for (k, x) in &want.0 { check_eq!(x.1, w.0[k].1, "harness: link of {}", show(k)); }
                }
                w = want;
                let what = "after a close and open";
                members(&m, &w, &v, what)?;
                fork(&m, &w, what, &mut vec![])?;
                for d in 0..4 { best(&m, &w, d, 1, what, &mut vec![])?; }
                if w.0.len() > 1 { c.hit(); }
            }
            3 if next > 0 => {
                // a block known already
                let b = v[c.rng.usize(next)].clone();
                if w.0.contains_key(&b.id) { e(m.insert(b), "insert again")?; }
            }
            _ => {
                let b = v[next].clone();
                next += 1;
                c.log(format!("insert {}", show(&b.id)));
                e(m.insert(b.clone()), "insert")?;
                w.insert(&b);
            }
        }
    }
    drop(m);
    let m = open(from)?;
    let w = w.reloaded(from);
    members(&m, &w, &v, "after the last close and open")?;
    fork(&m, &w, "after the last close and open", &mut vec![])?;
    for d in 0..5 { best(&m, &w, d, d, "after the last close and open", &mut vec![])?; }
    for k in &gone { check!(!m.contains(k), "the removed block {} came back", show(k)); }
    let _ = m.destroy();
    Ok(())
}

fn main() {
    let a = args();
    match a.prop.as_str() {
        "M01" => run(&a, "a history in which a block was linked to its parent", 24, |c| history(c, Part::Members)),
        "M02" => run(&a, "a history in which a block was linked to its parent", 24, |c| history(c, Part::Best)),
        "M03" => run(&a, "a history in which a block was linked to its parent", 24, |c| history(c, Part::Fork)),
        "M04" => run(&a, "a history reopened with at least two blocks", 24, reopen),
        p => panic!("unknown property {p}"),
    }
}

//! Indexed log maps against a list of insertions.
use common::*;
use indexed_log_map::{config::IndexedLogMapConfig, storage::{get_next, IndexedLogMap}};

type K = (u32, String);
type V = Option<(u64, Vec<u8>)>;

fn key(c: &mut Case) -> K { let n = c.rng.below(9); (n as u32 / 3, match n % 3 { 0 => String::new(), 1 => "a".into(), _ => "a\0b".into() }) }
fn value(c: &mut Case) -> V {
    match c.rng.below(8) {
        0 => None,
        1 => Some((c.rng.corner(), vec![])),
        2 if c.rng.chance(1, 20) => { let n = 400_000 + c.rng.usize(400_000); Some((1, vec![c.rng.next() as u8; n])) }
        _ => { let n = c.rng.usize(50); Some((c.rng.corner(), c.rng.bytes(n))) }
    }
}
fn keys() -> Vec<K> { (0..9u32).map(|n| (n / 3, match n % 3 { 0 => String::new(), 1 => "a".into(), _ => "a\0b".into() })).collect() }
fn e<T>(r: anyhow::Result<T>, what: &str) -> Result<T, String> { r.map_err(|x| format!("{what}: {x:#}")) }
fn drain(it: impl Iterator<Item = anyhow::Result<V>>, what: &str) -> Result<Vec<V>, String> { it.map(|x| e(x, what)).collect() }

fn same(l: &IndexedLogMap<K, V>, h: &[(K, V)], what: &str) -> CaseResult {
    let all: Vec<V> = h.iter().map(|x| x.1.clone()).collect();
    check!(drain(l.iter().ok_or("iter gives nothing")?, what)? == all, "{what}: iteration is not the history");
    check!(e(l.last(), what)? == all.last().cloned(), "{what}: last is wrong");
    check_eq!(e(l.is_empty(), what)?, h.is_empty(), "{what}: is_empty");
    check!(e(get_next(l, &None), what)? == all.first().cloned(), "{what}: the first item is wrong");
    for k in keys() {
        let at = h.iter().rposition(|x| x.0 == k);
        check!(e(l.get(&k), what)? == at.map(|i| all[i].clone()), "{what}: value of {k:?} is {:?}", l.get(&k).ok().map(|v| format!("{v:?}").chars().take(80).collect::<String>()));
        check_eq!(e(l.contains(&k), what)?, at.is_some(), "{what}: contains {k:?}");
        match (e(l.iter_from(&k), what)?, at) {
            (None, None) => {}
            (Some(it), Some(i)) => check!(drain(it, what)? == all[i..], "{what}: iteration from {k:?} is wrong"),
            (a, b) => return Err(format!("{what}: iteration from {k:?} is there: {}, should be: {}", a.is_some(), b.is_some())),
        }
        check!(e(get_next(l, &Some(k.clone())), what)? == at.and_then(|i| all.get(i + 1).cloned()), "{what}: the item after {k:?} is wrong");
    }
    Ok(())
}
/// sled gives its file lock up in the background, some time after it is dropped
fn open(cfg: IndexedLogMapConfig, what: &str) -> Result<IndexedLogMap<K, V>, String> {
    for i in 0.. {
        match IndexedLogMap::new(cfg.clone()) {
            Err(x) if i < 3000 && format!("{x:#}").contains("acquire lock") => std::thread::sleep(std::time::Duration::from_millis(5)),
            r => return e(r, what),
        }
    }
    unreachable!()
}
pub fn history(c: &mut Case) -> CaseResult {
    let s = Scratch::new("l01");
    let file = c.rng.chance(3, 4);
    let path = s.path().join("db");
    if file && c.rng.chance(1, 2) { std::fs::create_dir_all(&path).unwrap(); }
    let cfg = |ro: bool, idx: bool| IndexedLogMapConfig { storage_path: if file { Some(path.clone()) } else { None }, use_key_indexing: idx, readonly: ro };
    let mut l: IndexedLogMap<K, V> = open(cfg(false, true), "open")?;
    let mut h: Vec<(K, V)> = vec![];
    c.log(if file { "file map" } else { "memory map" });
    for _ in 0..2 + c.size.min(24) {
        match c.rng.below(12) {
            0 | 1 if file => {
                drop(l);
                c.log("close and open");
                if c.rng.chance(1, 3) {
                    let r: IndexedLogMap<K, V> = open(cfg(true, false), "open read-only")?;
                    check!(drain(r.iter().ok_or("iter")?, "read-only")? == h.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "read-only: iteration is not the history");
                    check!(r.append((0, "x".into()), None).is_err(), "append to a read-only map is accepted");
                }
                l = open(cfg(false, true), "open again")?;
                same(&l, &h, "after a close and open")?;
            }
            2 => same(&l, &h, "in between")?,
            _ => {
                let (k, v) = (key(c), value(c));
                c.log(format!("append {k:?} {}", format!("{v:?}").chars().take(60).collect::<String>()));
                e(l.append(k.clone(), v.clone()), "append")?;
                if h.iter().any(|x| x.0 == k) { c.hit(); }
                h.push((k, v));
            }
        }
    }
    same(&l, &h, "at the end")?;
    if file { drop(l); l = open(cfg(false, true), "open again")?; same(&l, &h, "at the end, after a close and open")?; }
    Ok(())
}

//! A record store used from several threads at once.
use common::*;
use fraos::Database;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

const MIN: usize = 4096 * 128;

/// record j of append a of writer w, recognisable from its bytes alone
fn record(w: usize, a: usize, j: usize, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len.max(16)];
    let n = v.len();
    v[0..4].copy_from_slice(&(w as u32 + 1).to_le_bytes());
    v[4..8].copy_from_slice(&(a as u32).to_le_bytes());
    v[8..12].copy_from_slice(&(j as u32).to_le_bytes());
    v[12..16].copy_from_slice(&(n as u32).to_le_bytes());
    for i in 16..n { v[i] = fill(w, a, j, i); }
    v
}
fn fill(w: usize, a: usize, j: usize, i: usize) -> u8 { (w.wrapping_mul(41) ^ a.wrapping_mul(7) ^ j.wrapping_mul(13) ^ i ^ (i >> 8)) as u8 | 1 }
type Name = (usize, usize, usize);
/// which record these bytes are
fn whole(v: &[u8], at: &str) -> Result<Name, String> {
    let bad = || format!("{at}: not a record that was appended: {} bytes {:?}..", v.len(), &v[..v.len().min(20)]);
    if v.len() < 16 { return Err(bad()); }
    let f = |i: usize| u32::from_le_bytes(v[i..i + 4].try_into().unwrap()) as usize;
    let (w, a, j, n) = (f(0), f(4), f(8), f(12));
    if w == 0 || n != v.len() { return Err(bad()); }
    if let Some(i) = (16..n).find(|i| v[*i] != fill(w - 1, a, j, *i)) { return Err(format!("{at}: byte {i} of {n} of a record is {} but {} was appended", v[i], fill(w - 1, a, j, i))); }
    Ok((w - 1, a, j))
}

struct Plan { appends: Vec<Vec<usize>>, seed: u64 }

fn write(db: &Database, w: usize, p: &Plan, stop: &AtomicBool) -> Result<Vec<(usize, usize)>, String> {
    let mut r = Rng::new(p.seed);
    let mut got = vec![];
    for (a, lens) in p.appends.iter().enumerate() {
        if stop.load(SeqCst) { break; }
        let rs: Vec<Vec<u8>> = lens.iter().enumerate().map(|(j, n)| record(w, a, j, *n)).collect();
        let refs: Vec<&[u8]> = rs.iter().map(|x| x.as_slice()).collect();
        let k = if refs.len() == 1 && r.chance(1, 2) { db.put_seqno(refs[0]).map_err(|e| format!("put_seqno refused: {e}"))? }
            else { db.append_get_seqno(&refs).map_err(|e| format!("append refused: {e}"))?.ok_or("append_get_seqno gives no position")? };
        got.push((k, refs.len()));
        // what was appended is there for the one who appended it
        check!(db.len() >= k + refs.len(), "after an append at {k} of {} records the store has {}", refs.len(), db.len());
        for j in 0..refs.len() { let v = db.get_by_seqno(k + j).map_err(|e| format!("reading record {}: {e}", k + j))?; check!(v.as_deref() == Some(refs[j]), "record {} is not what was appended there", k + j); }
        if r.chance(1, 4) { std::thread::yield_now(); }
    }
    Ok(got)
}
fn read(db: &Database, seed: u64, stop: &AtomicBool, done: &AtomicUsize, writers: usize) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut seen: std::collections::HashMap<usize, Name> = Default::default();
    let mut most = 0;
    let mut it = db.iter_from_seqno(0).ok_or("no iterator")?;
    let mut at = 0;
    let mut note = |k: usize, v: &[u8], how: &str| -> CaseResult {
        let n = whole(v, &format!("{how}, record {k}"))?;
        let o = *seen.entry(k).or_insert(n);
        check!(o == n, "{how}: record {k} was {o:?} and now is {n:?}");
        Ok(())
    };
    while !stop.load(SeqCst) {
        let last_round = done.load(SeqCst) == writers;
        let n = db.len();
        check!(n >= most, "the store had {most} records and now has {n}");
        check!(n == 0 || !db.is_empty(), "a store of {n} records is empty");
        most = n;
        if n > 0 {
            match db.get_by_seqno(n - 1) { Ok(Some(v)) => note(n - 1, &v, "the last of them")?, Ok(None) => return Err(format!("of {n} records the last is absent")), Err(e) => return Err(format!("of {n} records the last cannot be read: {e}")) }
            let k = r.usize(n);
            match db.get_by_seqno(k) { Ok(Some(v)) => note(k, &v, "one of them")?, Ok(None) => return Err(format!("of {n} records {k} is absent")), Err(e) => return Err(format!("of {n} records {k} cannot be read: {e}")) }
            match db.last() { Ok(Some(v)) => { whole(&v, "last")?; } Ok(None) => return Err(format!("a store of {n} records has no last one")), Err(e) => return Err(format!("last: {e}")) }
        }
        let k = n + r.usize(3);
        match db.get_by_seqno(k) { Ok(Some(v)) => note(k, &v, "past the length")?, Ok(None) => {} Err(e) => return Err(format!("record {k} of a store of {n} or more: {e}")) }
        if r.chance(1, 8) && n > 0 { at = r.usize(n); it = db.iter_from_seqno(at).ok_or("no iterator")?; }
        for _ in 0..1 + r.usize(20) {
            match it.next() {
                Some(Ok(v)) => { note(at, &v, "iterating")?; at += 1; }
                None => { check!(at >= n, "an iterator ends at {at} of {n} records"); break; }
                Some(Err(e)) => return Err(format!("iterating, at {at}: {e}")),
            }
        }
        if last_round { break; }
    }
    Ok(())
}

pub fn threads(c: &mut Case) -> CaseResult {
    let s = Scratch::new("f05");
    let file = c.rng.chance(1, 2);
    let (nw, nr) = (1 + c.rng.usize(3), 1 + c.rng.usize(3));
    let big = c.rng.chance(1, 4);
    let batch = 1 + c.rng.usize(6);
    let per = 3 + c.rng.usize(8 * c.size);
    let mut budget = 6;
    let plans: Vec<Plan> = (0..nw).map(|_| Plan {
        seed: c.rng.next(),
        appends: (0..per).map(|_| { let n = 1 + c.rng.usize(batch); (0..n).map(|_| if big && budget > 0 && c.rng.chance(1, 12) { budget -= 1; MIN / 2 + c.rng.usize(MIN) } else if c.rng.chance(1, 10) { c.rng.usize(9000) } else { c.rng.usize(120) }).collect() }).collect(),
    }).collect();
    c.log(format!("{} store, {nw} writers of {per} appends of up to {batch} records{}, {nr} readers", if file { "file" } else { "memory" }, if big { ", some of them long" } else { "" }));
    let db = if file { Database::file(s.path().join("db")) } else { Database::memory() }.map_err(|e| format!("open: {e}"))?;
    let (stop, done) = (AtomicBool::new(false), AtomicUsize::new(0));
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let seeds: Vec<u64> = (0..nr).map(|_| c.rng.next()).collect();
    let fail = |e: String| { stop.store(true, SeqCst); let mut b = bad.lock().unwrap(); if b.is_none() { *b = Some(e); } };
    let got: Vec<Option<Vec<(usize, usize)>>> = std::thread::scope(|t| {
        let ws: Vec<_> = plans.iter().enumerate().map(|(w, p)| { let (db, stop, done, fail) = (db.clone(), &stop, &done, &fail); t.spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write(&db, w, p, stop)));
            done.fetch_add(1, SeqCst);
            match r { Ok(Ok(g)) => Some(g), Ok(Err(e)) => { fail(e); None } Err(_) => { fail("a thread that appends panicked".into()); None } }
        }) }).collect();
        let rs: Vec<_> = seeds.iter().map(|x| { let (db, stop, done, fail) = (db.clone(), &stop, &done, &fail); t.spawn(move || {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| read(&db, *x, stop, done, nw))) { Ok(Ok(())) => {} Ok(Err(e)) => fail(e), Err(_) => fail("a thread that reads panicked".into()) }
        }) }).collect();
        let g = ws.into_iter().map(|h| h.join().unwrap_or(None)).collect();
        for h in rs { let _ = h.join(); }
        g
    });
    if let Some(e) = bad.lock().unwrap().clone() { return Err(e); }
    let mut all: Vec<(usize, usize, usize, usize)> = got.into_iter().enumerate().flat_map(|(w, g)| g.unwrap_or_default().into_iter().enumerate().map(move |(a, (k, n))| (k, n, w, a))).collect();
    all.sort();
    let mut at = 0;
    for (k, n, w, a) in &all {
        check_eq!(*k, at, "where append {a} of writer {w} is");
        for j in 0..*n {
            let v = db.get_by_seqno(k + j).map_err(|e| format!("reading record {}: {e}", k + j))?.ok_or(format!("record {} is absent", k + j))?;
            check!(whole(&v, "at the end")? == (*w, *a, j) && v == record(*w, *a, j, plans[*w].appends[*a][j]), "record {} is not the one appended there", k + j);
        }
        at += n;
    }
    check_eq!(db.len(), at, "number of records");
    if nw + nr > 2 && at > 5 { c.hit(); }
    Ok(())
}

//! Record stores against a plain list of records.
use common::*;
use fraos::Database;
use std::path::Path;

const MIN: usize = 4096 * 128;

/// record i of generation g: recognisable bytes, never all zero
fn record(c: &mut Case, budget: &mut usize) -> Vec<u8> {
    let n = match c.rng.below(if *budget > 0 { 40 } else { 36 }) {
        0..=19 => 1 + c.rng.usize(24),
        20..=27 => 1 + c.rng.usize(600),
        28..=31 => 1 + c.rng.usize(6000),
        32..=35 => *c.rng.pick(&[1, 2, 7, 8, 15, 16, 17, 4095, 4096, 4097]),
        36 => { *budget -= 1; *c.rng.pick(&[MIN - 1, MIN, MIN + 1, MIN / 2, MIN / 2 + 1]) }
        37 => { *budget -= 1; MIN / 2 - 64 + c.rng.usize(128) }
        38 => { *budget -= 1; MIN * 2 + c.rng.usize(MIN) }
        _ => { *budget -= 1; 1 + c.rng.usize(2 * MIN) }
    };
    match c.rng.below(6) {
        0 => vec![0; n],
        1 => vec![255; n],
        _ => if n < 10_000 { c.rng.bytes(n) } else { let b = c.rng.bytes(257); b.iter().copied().cycle().take(n).collect() },
    }
}
fn desc(r: &[Vec<u8>]) -> String { r.iter().map(|x| x.len().to_string()).collect::<Vec<_>>().join("+") }

/// committed records, as pieces so that large stores are cheap to compare
pub fn same(db: &Database, m: &[Vec<u8>], what: &str) -> CaseResult {
    check_eq!(db.len(), m.len(), "{what}: number of records");
    check_eq!(db.is_empty(), m.is_empty(), "{what}: is_empty");
    for (i, r) in m.iter().enumerate() { one(db, i, Some(r), what)?; }
    for i in [m.len(), m.len() + 1, m.len() + 1000, MIN / 16, usize::MAX, usize::MAX / 16, usize::MAX / 16 + 1] { if i >= m.len() { one(db, i, None, what)?; } }
    let l = db.last().map_err(|e| format!("{what}: last: {e}"))?;
    check!(l.as_ref() == m.last(), "{what}: the last record is wrong");
    Ok(())
}
fn one(db: &Database, i: usize, r: Option<&Vec<u8>>, what: &str) -> CaseResult {
    match db.get_by_seqno(i) {
        Ok(g) => check!(g.as_ref() == r, "{what}: record {i} is {} but should be {}", show(g.as_ref()), show(r)),
        Err(e) => return Err(format!("{what}: reading record {i}: {e}")),
    }
    Ok(())
}
fn show(r: Option<&Vec<u8>>) -> String { match r { None => "absent".into(), Some(r) => format!("{} bytes {:?}..", r.len(), &r[..r.len().min(12)]) } }
fn iterate(db: &Database, m: &[Vec<u8>], from: usize, what: &str) -> CaseResult {
    let mut it = db.iter_from_seqno(from).ok_or(format!("{what}: no iterator"))?;
    for i in from..m.len() {
        match it.next() {
            Some(Ok(x)) => check!(x == m[i], "{what}: iterating from {from}, item {i} is {}", show(Some(&x))),
            Some(Err(e)) => return Err(format!("{what}: iterating from {from}: {e}")),
            None => return Err(format!("{what}: iterating from {from} ends before {i} of {}", m.len())),
        }
    }
    match it.next() { None => Ok(()), Some(Ok(x)) => Err(format!("{what}: iterating from {from} goes past the end: {}", show(Some(&x)))), Some(Err(e)) => Err(format!("{what}: iterating from {from}: error at the end: {e}")) }
}
fn spot(c: &mut Case, db: &Database, m: &[Vec<u8>], what: &str) -> CaseResult {
    check_eq!(db.len(), m.len(), "{what}: number of records");
    for _ in 0..3 { if !m.is_empty() { let i = c.rng.usize(m.len()); one(db, i, Some(&m[i]), what)?; } }
    if let Some(r) = m.last() { one(db, m.len() - 1, Some(r), what)?; }
    one(db, m.len(), None, what)
}
fn append(c: &mut Case, db: &Database, m: &mut Vec<Vec<u8>>, budget: &mut usize) -> CaseResult {
    let kind = c.rng.below(4);
    let n = if kind == 0 { 1 + c.rng.usize(6) } else { 1 };
    let rs: Vec<Vec<u8>> = (0..n).map(|_| record(c, budget)).collect();
    c.log(format!("append {}", desc(&rs)));
    let refs: Vec<&[u8]> = rs.iter().map(|r| r.as_slice()).collect();
    let at = match kind {
        1 => Some(db.put_seqno(refs[0]).map_err(|e| format!("put_seqno refused: {e}"))?),
        2 => { db.put(refs[0]).map_err(|e| format!("put refused: {e}"))?; None }
        0 if c.rng.chance(1, 3) => { db.append(&refs).map_err(|e| format!("append refused: {e}"))?; None }
        _ => { let s = db.append_get_seqno(&refs).map_err(|e| format!("append refused: {e}"))?; check!(s.is_some(), "append_get_seqno gives no position"); s }
    };
    if let Some(at) = at { check_eq!(at, m.len(), "position of the appended records"); }
    m.extend(rs);
    Ok(())
}
fn refuse(c: &mut Case, db: &Database, budget: &mut usize, readonly: bool) -> CaseResult {
    let n = 1 + c.rng.usize(4);
    let long = c.rng.chance(1, 6);
    let n = if long { { let m = *c.rng.pick(&[60, 300, 3000]); 5 + c.rng.usize(m) } } else { n };
    let mut rs: Vec<Vec<u8>> = (0..n).map(|i| if long { vec![i as u8; 1 + i % 9] } else { record(c, budget) }).collect();
    if !readonly && long && c.rng.chance(1, 2) { rs[n - 1] = vec![]; }
    else if !readonly || c.rng.chance(1, 4) { let i = c.rng.usize(n); rs[i] = vec![]; }
    c.log(if long { format!("refused append of {n} small records, without bytes: {:?}", (0..n).filter(|i| rs[*i].is_empty()).collect::<Vec<_>>()) } else { format!("refused append {}", desc(&rs)) });
    let refs: Vec<&[u8]> = rs.iter().map(|r| r.as_slice()).collect();
    let r = match c.rng.below(3) {
        0 if n == 1 => db.put(refs[0]).is_err(),
        1 if n == 1 => db.put_seqno(refs[0]).is_err(),
        2 => db.append(&refs).is_err(),
        _ => db.append_get_seqno(&refs).is_err(),
    };
    check!(r, "an append that cannot be performed is accepted");
    Ok(())
}

pub fn reads(c: &mut Case) -> CaseResult {
    let s = Scratch::new("f01");
    let file = c.rng.chance(2, 3);
    let mut m: Vec<Vec<u8>> = vec![];
    let path = s.path().join("db");
    let db = if file { Database::file(&path) } else { Database::memory() }.map_err(|e| format!("open: {e}"))?;
    c.log(if file { "file store" } else { "memory store" });
    if c.index == 20 || (c.index > 300 && c.index % 3000 == 0) { return many_maps(c, &db); }
    if c.index % 500 == 7 { long_index(c, &db, &mut m)?; }
    let mut budget = if c.size > 4 { 3 } else { 1 };
    let mut iters: Vec<(fraos::SeqNoIter, usize)> = vec![];
    let mut handles = vec![db.clone()];
    for _ in 0..2 + c.size {
        match c.rng.below(12) {
            0 if handles.len() < 3 => { handles.push(db.clone()); c.log("clone"); }
            1 if iters.len() < 3 => { let p = c.rng.usize(m.len() + 2); iters.push((db.iter_from_seqno(p).ok_or("no iterator")?, p)); c.log(format!("iterate from {p}")); }
            2 | 3 if !iters.is_empty() => {
                let k = c.rng.usize(iters.len());
                let (it, p) = &mut iters[k];
                match it.next() {
                    None => check!(*p >= m.len(), "an iterator at {p} ends although there are {} records", m.len()),
                    Some(Ok(x)) => { check!(m.get(*p) == Some(&x), "an iterator yields {} at {p}", show(Some(&x))); *p += 1; }
                    Some(Err(e)) => return Err(format!("an iterator at {p}: {e}")),
                }
            }
            4 => { let r = db.append_get_seqno(&[]).map_err(|e| format!("empty batch: {e}"))?; check!(r.is_none(), "an empty batch gets a position"); }
            _ => { let k = c.rng.usize(handles.len()); let h = handles[k].clone(); append(c, &h, &mut m, &mut budget)?; }
        }
        let k = c.rng.usize(handles.len());
        let h = &handles[k];
        let w = "after an operation";
        check_eq!(h.len(), m.len(), "{w}: number of records");
        if c.rng.chance(1, 4) { spot(c, &db, &m, w)?; }
    }
    same(&db, &m, "at the end")?;
    let p = c.rng.usize(m.len() + 2);
    iterate(&db, &m, 0, "at the end")?;
    iterate(&db, &m, p, "at the end")?;
    if m.len() > 3 { c.hit(); }
    Ok(())
}
/// more records than one index mapping holds, in one batch or over several
fn long_index(c: &mut Case, db: &Database, m: &mut Vec<Vec<u8>>) -> CaseResult {
    let per = MIN / 16;
    let sizes = if c.rng.chance(1, 2) { vec![per + c.rng.usize(40)] } else { vec![per - 2 + c.rng.usize(3), 1, 1, 1, c.rng.usize(50) + 1] };
    for n in sizes {
        let rs: Vec<Vec<u8>> = (0..n).map(|i| ((m.len() + i) as u32).to_le_bytes()[..1 + i % 3].to_vec()).collect();
        c.log(format!("append a batch of {n}"));
        let refs: Vec<&[u8]> = rs.iter().map(|r| r.as_slice()).collect();
        let at = db.append_get_seqno(&refs).map_err(|e| format!("append refused: {e}"))?;
        check_eq!(at, Some(m.len()), "position of the batch");
        m.extend(rs);
    }
    Ok(())
}
/// enough mappings that they are merged
fn many_maps(c: &mut Case, db: &Database) -> CaseResult {
    let n = MIN / 2;
    let total = 2060;
    let mut buf = vec![0u8; n];
    c.log(format!("append {total} records of {n}"));
    let fill = |buf: &mut [u8], i: usize| { for (k, x) in buf.iter_mut().enumerate().step_by(4099) { *x = (i * 31 + k) as u8; } buf[0] = i as u8; buf[1] = (i >> 8) as u8; let l = buf.len() - 1; buf[l] = !(i as u8); };
    for i in 0..total {
        fill(&mut buf, i);
        check_eq!(db.put_seqno(&buf).map_err(|e| format!("append {i} refused: {e}"))?, i, "position");
    }
    for i in (0..total).filter(|i| i % 61 == 0 || i + 16 > total) {
        fill(&mut buf, i);
        match db.get_by_seqno(i) { Ok(Some(g)) => check!(g == buf, "record {i} of {total} changed when the mappings were merged"), Ok(None) => return Err(format!("record {i} of {total} is gone")), Err(e) => return Err(format!("record {i} of {total}: {e}")) }
    }
    check_eq!(db.len(), total, "number of records");
    c.hit();
    Ok(())
}

fn open(p: &Path, how: &str) -> Result<Database, String> { Database::file(p).map_err(|e| format!("{how}: opening fails: {e}")) }

pub fn reopen(c: &mut Case) -> CaseResult {
    let s = Scratch::new("f02");
    let mut path = s.path().join("db0");
    let mut m: Vec<Vec<u8>> = vec![];
    let mut db = Some(open(&path, "new store")?);
    let mut budget = if c.index % 5 == 0 { 2 } else { 0 };
    let mut copies = 0;
    let mut extra: Vec<Database> = vec![];
    if c.index % 800 == 11 { long_index(c, db.as_ref().unwrap(), &mut m)?; }
    for _ in 0..2 + c.size.min(30) {
        match c.rng.below(13) {
            0 | 1 => {
                extra.clear();
                drop(db.take());
                c.log("close and open");
                if c.rng.chance(1, 3) {
                    let n = if c.rng.chance(1, 4) { c.rng.usize(3000) } else { 1 + c.rng.usize(9) };
                    c.log(format!("pad the index with {n} unused entries"));
                    let f = std::fs::OpenOptions::new().append(true).open(path.join("seqno")).unwrap();
                    let l = f.metadata().unwrap().len();
                    f.set_len(l + 16 * n as u64).unwrap();
                }
                if c.rng.chance(1, 3) {
                    let n = 1 + c.rng.usize(300);
                    c.log(format!("{n} data bytes that were never indexed"));
                    use std::io::Write;
                    let b = c.rng.bytes(n);
                    std::fs::OpenOptions::new().append(true).open(path.join("data")).unwrap().write_all(&b).unwrap();
                }
                if c.rng.chance(1, 3) {
                    let r = Database::file_readonly(&path).map_err(|e| format!("opening read-only fails: {e}"))?;
                    c.log("open read-only");
                    same(&r, &m, "opened read-only")?;
                }
                db = Some(open(&path, "after a close")?);
                same(db.as_ref().unwrap(), &m, "after a close and open")?;
                if m.len() > 1 { c.hit(); }
            }
            2 | 3 => {
                // the files as they are when the process stops between operations
                copies += 1;
                let to = s.path().join(format!("db{copies}"));
                copy_dir(&path, &to);
                c.log("stop and open");
                if c.rng.chance(1, 3) && !m.is_empty() {
                    // the data of an append was written, its index entry was not
                    use std::io::{Seek, SeekFrom, Write};
                    let end: u64 = m.iter().map(|r| r.len() as u64).sum();
                    let n = 1 + c.rng.usize(200);
                    let b = c.rng.bytes(n);
                    let mut f = std::fs::OpenOptions::new().write(true).open(to.join("data")).unwrap();
                    f.seek(SeekFrom::Start(end)).unwrap();
                    f.write_all(&b).unwrap();
                    c.log(format!("with {n} data bytes that were never indexed"));
                }
                let n = open(&to, "after a stop")?;
                same(&n, &m, "after a stop and open")?;
                if m.len() > 1 { c.hit(); }
                if c.rng.chance(1, 2) {
                    extra.clear();
                    drop(db.take());
                    db = Some(n);
                    path = to;
                } else {
                    drop(n);
                    let n = open(&to, "after a stop, a close")?;
                    same(&n, &m, "after a stop, a close and open")?;
                }
            }
            4 => { extra.push(db.as_ref().unwrap().clone()); c.log("clone"); }
            5 if !extra.is_empty() => { extra.swap_remove(0); c.log("drop a handle"); }
            6 if !extra.is_empty() => { let o = std::mem::replace(&mut db, extra.pop()); drop(o); c.log("drop the first handle"); }
            7 => { refuse(c, db.as_ref().unwrap(), &mut 0, false)?; }
            _ => {
                let h = if !extra.is_empty() && c.rng.chance(1, 2) { extra[0].clone() } else { db.as_ref().unwrap().clone() };
                append(c, &h, &mut m, &mut budget)?;
            }
        }
        spot(c, db.as_ref().unwrap(), &m, "after an operation")?;
    }
    extra.clear();
    same(db.as_ref().unwrap(), &m, "at the end")?;
    drop(db.take());
    let d = open(&path, "at the end")?;
    same(&d, &m, "at the end, after a close and open")
}

pub fn refused(c: &mut Case) -> CaseResult {
    let s = Scratch::new("f03");
    let path = s.path().join("db");
    let mut m: Vec<Vec<u8>> = vec![];
    let file = c.rng.chance(3, 4);
    let mut db = if file { open(&path, "new store")? } else { Database::memory().map_err(|e| e.to_string())? };
    let mut budget = if c.index % 5 == 0 { 2 } else { 0 };
    c.log(if file { "file store" } else { "memory store" });
    for _ in 0..2 + c.size.min(30) {
        match c.rng.below(10) {
            0..=4 => append(c, &db, &mut m, &mut budget)?,
            5..=7 => {
                refuse(c, &db, &mut budget, false)?;
                spot(c, &db, &m, "after a refused append")?;
                if !m.is_empty() { c.hit(); }
                if c.rng.chance(1, 4) { same(&db, &m, "after a refused append")?; iterate(&db, &m, 0, "after a refused append")?; }
            }
            8 if file => {
                drop(db);
                let r = Database::file_readonly(&path).map_err(|e| format!("opening read-only fails: {e}"))?;
                c.log("open read-only");
                refuse(c, &r, &mut budget, true)?;
                same(&r, &m, "read-only, after a refused append")?;
                refuse(c, &r, &mut budget, true)?;
                same(&r, &m, "read-only, after a second refused append")?;
                drop(r);
                db = open(&path, "after a read-only store")?;
                same(&db, &m, "reopened after a read-only store")?;
            }
            9 if file => { drop(db); c.log("close and open"); db = open(&path, "after a close")?; same(&db, &m, "after a close and open")?; }
            _ => {}
        }
    }
    same(&db, &m, "at the end")?;
    append(c, &db, &mut m, &mut 0)?;
    same(&db, &m, "after one more append")?;
    if file { drop(db); let d = open(&path, "at the end")?; same(&d, &m, "at the end, after a close and open")?; }
    Ok(())
}

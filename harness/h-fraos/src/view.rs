//! Sub-ranges of shared mappings against slices of a vector. The file is the crate's own, compiled here
//! because its constructor is not public.
use crate::shared_mmap::SharedMmap;
use common::*;
use std::ops::{Bound, RangeBounds};

fn place(c: &mut Case, len: usize) -> usize {
    match c.rng.below(8) {
        0 => 0,
        1 => len,
        2 => len.wrapping_sub(1),
        3 => len + 1 + c.rng.usize(5),
        4 => *c.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 63]),
        _ => c.rng.usize(len + 2),
    }
}
fn bound(c: &mut Case, len: usize) -> Bound<usize> {
    match c.rng.below(5) { 0 => Bound::Unbounded, 1 | 2 => Bound::Included(place(c, len)), _ => Bound::Excluded(place(c, len)) }
}
pub fn ranges(c: &mut Case) -> CaseResult {
    let n = match c.rng.below(4) { 0 => 1 + c.rng.usize(4), 1 => 4096, _ => 1 + c.rng.usize(9000) };
    let mut map = memmap2::MmapOptions::new().len(n).map_anon().map_err(|e| e.to_string())?;
    for (i, b) in map.iter_mut().enumerate() { *b = (i * 7 + i / 256 * 13 + 1) as u8; }
    let all: Vec<u8> = map.to_vec();
    let root = SharedMmap::new(map.make_read_only().map_err(|e| e.to_string())?);
    c.log(format!("view of {n}"));
    let base = root.as_ref().as_ptr() as usize;
    let mut views = vec![(root, 0usize, all)];
    for _ in 0..6 + c.size {
        let k = c.rng.usize(views.len());
        let (v, at, bytes) = (views[k].0.clone(), views[k].1, views[k].2.clone());
        let (a, b) = (bound(c, bytes.len()), bound(c, bytes.len()));
        let idx: Vec<usize> = (0..bytes.len()).filter(|i| (a, b).contains(i)).collect();
        let want: Vec<u8> = idx.iter().map(|i| bytes[*i]).collect();
        c.log(format!("{a:?}..{b:?} of {}", bytes.len()));
        let r = match (a, b, c.rng.below(2)) {
            (Bound::Included(x), Bound::Excluded(y), 0) => v.slice(x..y),
            (Bound::Included(x), Bound::Included(y), 0) => v.slice(x..=y),
            (Bound::Unbounded, Bound::Excluded(y), 0) => v.slice(..y),
            (Bound::Unbounded, Bound::Included(y), 0) => v.slice(..=y),
            (Bound::Included(x), Bound::Unbounded, 0) => v.slice(x..),
            (Bound::Unbounded, Bound::Unbounded, 0) => v.slice(..),
            _ => v.slice((a, b)),
        };
        check_eq!(r.len(), want.len(), "length of the sub-range {a:?}..{b:?} of a view of {}", bytes.len());
        check_eq!(r.is_empty(), want.is_empty(), "is_empty");
        if let Some(first) = idx.first() {
            let p = r.as_ref().as_ptr() as usize;
            check_eq!(p.wrapping_sub(base), at + first, "where the sub-range starts");
        }
        check!(r.as_ref() == want.as_slice(), "the bytes of {a:?}..{b:?} differ");
        if !want.is_empty() && want.len() < bytes.len() { c.hit(); }
        let start = idx.first().map(|i| at + i).unwrap_or(at);
        if views.len() > 6 { let k = c.rng.usize(views.len()); views.swap_remove(k); }
        views.push((r, start, want));
    }
    Ok(())
}

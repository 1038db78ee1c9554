//! C09: identifiers against the text they were made from.
use common::*;
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UtxoPointer};
use dcspark_core::*;
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const PARTS: &[&str] = &["", "a", "A", "b", "0", "00", "f", "F", "ff", "0x", "@", "1", " ", "\t", "\n", "é", "e\u{301}", "ß", "\u{0}", "\"", "\\", "/", "日", "🦀", "N/A", "414441", "addr1", "_", "-", "\u{feff}", "\u{200b}"];
fn txt(c: &mut Case) -> String {
    match c.rng.below(12) {
        0 => { let n = *c.rng.pick(&[28usize, 56, 63, 64, 65, 128]); (0..n).map(|_| *c.rng.pick(&['0', 'a', 'F', '9'])).collect() }
        1 => "0".repeat(c.rng.usize(70)),
        _ => { let n = c.rng.usize(c.size.min(8) + 2); (0..n).map(|_| *c.rng.pick(PARTS)).collect() }
    }
}
/// the same text, or one that is nearly the same
fn near(c: &mut Case, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    match c.rng.below(9) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        2 => s.to_lowercase(),
        3 => s.trim().to_string(),
        4 => format!("{s}{}", c.rng.pick(PARTS)),
        5 => format!("{}{s}", c.rng.pick(PARTS)),
        6 => cs.iter().take(c.rng.usize(cs.len() + 1)).collect(),
        7 => cs.iter().skip(c.rng.usize(cs.len() + 1)).collect(),
        _ => txt(c),
    }
}
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }

macro_rules! id {
    ($T:ident, $a:expr, $b:expr, $st:expr) => {{
        let (a, b): (&String, &String) = (&$a, &$b);
        let (st, how) = ($st, stringify!($T));
        for (k, x) in [(0, $T::new(a.clone())), (1, $T::new(st)), (2, $T::new_static(st)), (3, $T::new(Cow::Owned::<str>(a.clone())))] {
            check_eq!(AsRef::<str>::as_ref(&x), a.as_str(), "{how} made in way {k} as text");
            check_eq!(x.to_string(), *a, "{how} made in way {k} printed");
            let js = serde_json::to_string(&x).map_err(|e| format!("{how} {a:?} to JSON: {e}"))?;
            check_eq!(js, serde_json::to_string(a).unwrap(), "{how} {a:?} as JSON");
            let back: $T = serde_json::from_str(&js).map_err(|e| format!("{how} from JSON {js}: {e}"))?;
            check_eq!(back, x, "{how} through JSON {js}");
            check_eq!(AsRef::<str>::as_ref(&back), a.as_str(), "{how} through JSON {js} as text");
            let y = $T::new(b.clone());
            check_eq!(x == y, a == b, "{how} {a:?} equal to {b:?}");
            check_eq!(x.cmp(&y), a.cmp(b), "{how} {a:?} compared with {b:?}");
            check_eq!(hash(&x), hash(&$T::new(a.clone())), "{how} hash of {a:?} made in way {k}");
            check_eq!(x.clone(), x, "{how} copy of {a:?}");
        }
    }};
}

pub fn ids(c: &mut Case) -> CaseResult {
    let a = txt(c);
    let b = near(c, &a);
    let n = match c.rng.below(3) { 0 => c.rng.below(12), _ => c.rng.corner() };
    c.log(format!("{a:?} {b:?} {n}"));
    if !a.is_empty() { c.hit(); }
    let st = leak(&a);
    id!(BlockId, a, b, st);
    id!(Address, a, b, st);
    id!(TransactionId, a, b, st);
    id!(TokenId, a, b, st);
    id!(PolicyId, a, b, st);
    id!(AssetName, a, b, st);
    let (bi, ti, ad) = (BlockId::new(a.clone()), TransactionId::new(a.clone()), Address::new(a.clone()));
    check_eq!(AsRef::<[u8]>::as_ref(&bi), a.as_bytes(), "bytes of block id {a:?}");
    check_eq!(AsRef::<[u8]>::as_ref(&ti), a.as_bytes(), "bytes of transaction id {a:?}");
    check_eq!(&*ad, a.as_str(), "address {a:?} as text");
    check_eq!(a.parse::<Address>().map(|x| x.to_string()), Ok(a.clone()), "address parsed from {a:?}");
    check_eq!(a.parse::<TokenId>().map(|x| x.to_string()), Ok(a.clone()), "token id parsed from {a:?}");
    let want = a.starts_with(b.as_str());
    check_eq!(bi.starts_with(&b), want, "block id {a:?} starts with {b:?}");
    check_eq!(ti.starts_with(&b), want, "transaction id {a:?} starts with {b:?}");
    check_eq!(ad.starts_with(&b), want, "address {a:?} starts with {b:?}");
    check_eq!(TokenId::default(), TokenId::MAIN, "default token");
    check_eq!(TokenId::MAIN.to_string(), "0".repeat(64), "main token");
    check_eq!(AssetName::MAIN.to_string(), "414441", "main asset name");
    check_eq!(TransactionId::ZERO.to_string(), "N/A", "no transaction");
    let p = UtxoPointer { transaction_id: ti.clone(), output_index: OutputIndex::new(n) };
    check_eq!(p.to_string(), format!("{a}@{n}"), "pointer printed");
    let js = serde_json::to_string(&p).map_err(|e| e.to_string())?;
    check_eq!(serde_json::from_str::<UtxoPointer>(&js).map_err(|e| e.to_string()), Ok(p.clone()), "pointer through JSON {js}");
    let q = UtxoPointer { transaction_id: TransactionId::new(b.clone()), output_index: OutputIndex::new(if c.rng.chance(1, 2) { n } else { n ^ 1 }) };
    let same = a == b && p.output_index == q.output_index;
    check_eq!(p == q, same, "pointer {p} equal to {q}");
    check_eq!(p.to_string() == q.to_string(), same, "pointer {p} printed like {q}");
    let t = TransactionAsset::new(PolicyId::new(a.clone()), AssetName::new(b.clone()), TokenId::new(format!("{a}{b}")));
    check_eq!((t.policy_id.as_ref(), t.asset_name.as_ref(), t.fingerprint.to_string(), &t.quantity), (a.as_str(), b.as_str(), format!("{a}{b}"), &Value::zero()), "new asset of {a:?} and {b:?}");
    let u = UTxOBuilder::new(ad.clone(), Value::from(n), vec![t.clone()]);
    check!(u.address == ad && u.value == Value::from(n) && u.assets == vec![t.clone()] && u.extra.is_none(), "new output at {a:?} of {n}: {u:?}");
    let js = serde_json::to_string(&u).map_err(|e| e.to_string())?;
    check_eq!(serde_json::from_str::<UTxOBuilder>(&js).map_err(|e| e.to_string()), Ok(u), "output through JSON {js}");
    Ok(())
}

use common::*;
use dcspark_core::*;
use std::time::{Duration, SystemTime};

fn num(c: &mut Case) -> u64 {
    if c.rng.chance(1, 3) { c.rng.below(5) } else { c.rng.corner() }
}

macro_rules! counter {
    ($c:ident, $T:ident, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let x = $T::new(a);
        let name = stringify!($T);
        let sum = a as u128 + b as u128;
        let fits = |v: u128| if v <= u64::MAX as u128 { Some($T::new(v as u64)) } else { None };
        check_eq!(x.checked_add(b), fits(sum), "{name}({a}).checked_add({b})");
        check_eq!(x.checked_next(), fits(a as u128 + 1), "{name}({a}).checked_next()");
        check_eq!(x.saturating_add(b), $T::new(sum.min(u64::MAX as u128) as u64), "{name}({a}).saturating_add({b})");
        check_eq!(x.saturating_next(), $T::new((a as u128 + 1).min(u64::MAX as u128) as u64), "{name}({a}).saturating_next()");
        check_eq!($T::MAX, $T::new(u64::MAX), "{name}::MAX");
        check_eq!($T::MIN, $T::new(0), "{name}::MIN");
        laws!($T, a, b);
    }};
}
macro_rules! laws {
    ($T:ident, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let name = stringify!($T);
        check_eq!(u64::from($T::from(a)), a, "{name} from and into u64");
        check_eq!(u64::from($T::new(a)), a, "{name} new and into u64");
        check_eq!($T::from(a) == $T::from(b), a == b, "{name}({a}) == {name}({b})");
        check_eq!($T::from(a).cmp(&$T::from(b)), a.cmp(&b), "{name}({a}) cmp {name}({b})");
        check_eq!($T::from(a) < $T::from(b), a < b, "{name}({a}) < {name}({b})");
        check_eq!($T::from(a).partial_cmp(&$T::from(b)), a.partial_cmp(&b), "{name}({a}) partial_cmp {name}({b})");
        check_eq!(u64::from($T::default()), 0, "{name} default");
    }};
}

pub fn arith(c: &mut Case) -> CaseResult {
    let a = num(c);
    let b = if c.rng.chance(1, 4) { u64::MAX.wrapping_sub(a).wrapping_add(c.rng.below(5)).wrapping_sub(2) } else { num(c) };
    c.log(format!("{a} {b}"));
    c.hit();
    counter!(c, BlockNumber, a, b);
    counter!(c, SlotNumber, a, b);
    counter!(c, OutputIndex, a, b);
    laws!(Timestamp, a, b);
    check_eq!(Timestamp::MAX, Timestamp::new(u64::MAX), "Timestamp::MAX");
    check_eq!(Timestamp::MIN, Timestamp::new(0), "Timestamp::MIN");
    check_eq!(BlockNumber::new(a).saturating_sub(b), BlockNumber::new((a as i128 - b as i128).max(0) as u64), "BlockNumber({a}).saturating_sub({b})");
    check_eq!(BlockNumber::new(a).into_inner(), a, "BlockNumber::into_inner");
    check_eq!(Timestamp::new(a).into_inner(), a, "Timestamp::into_inner");
    Ok(())
}

/// decimal digits with an optional plus sign that fit in 64 bits
fn unsigned(s: &str) -> Option<u64> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let t = d.trim_start_matches('0');
    if t.len() > 20 { return None; }
    let mut v: u128 = 0;
    for b in t.bytes() { v = v * 10 + (b - b'0') as u128; }
    u64::try_from(v).ok()
}

fn bad_text(c: &mut Case) -> String {
    let n = num(c);
    match c.rng.below(9) {
        0 => String::new(),
        1 => format!("-{n}"),
        2 => format!("{n} "),
        3 => format!("{n}.0"),
        4 => format!("0x{n:x}"),
        5 => format!("{}{}", n, c.rng.below(1000)),
        6 => format!("+{n}"),
        7 => format!("0{n}"),
        _ => { let k = c.rng.usize(6); (0..k).map(|_| *c.rng.pick(&['0', '1', '9', '-', '+', '.', 'e', '_', ' ', 'a'])).collect() }
    }
}

macro_rules! text {
    ($T:ident, $n:expr, $bad:expr, $js:expr, $strings:expr) => {{
        let (n, bad) = ($n, &$bad);
        let name = stringify!($T);
        let x = $T::from(n);
        check_eq!(x.to_string(), n.to_string(), "{name} text of {n}");
        check_eq!(x.to_string().parse::<$T>().ok().map(u64::from), Some(n), "{name} text round trip of {n}");
        check_eq!(bad.parse::<$T>().ok().map(u64::from), unsigned(&bad), "{name} parsed from {bad:?}");
        let j = serde_json::to_string(&x).unwrap();
        check_eq!(serde_json::from_str::<$T>(&j).ok().map(u64::from), Some(n), "{name} JSON round trip of {n} through {j}");
        check_eq!(serde_json::from_str::<$T>(&n.to_string()).ok().map(u64::from), Some(n), "{name} from the JSON number {n}");
        check_eq!(serde_json::from_value::<$T>(serde_json::to_value(&x).unwrap()).ok().map(u64::from), Some(n), "{name} JSON value round trip of {n}");
        if $strings {
            check_eq!(serde_json::from_str::<$T>(&format!("\"{n}\"")).ok().map(u64::from), Some(n), "{name} from the JSON string {n}");
            check_eq!(serde_json::from_str::<$T>(&serde_json::to_string(&bad).unwrap()).ok().map(u64::from), unsigned(&bad), "{name} from the JSON string {bad:?}");
        }
        for j in $js.iter() {
            check_eq!(serde_json::from_str::<$T>(j).ok().map(u64::from), None, "{name} from the JSON {j}");
        }
    }};
}

pub fn text(c: &mut Case) -> CaseResult {
    let n = num(c);
    let bad = bad_text(c);
    c.log(format!("{n} {bad:?}"));
    c.hit();
    let js = ["null".to_string(), "true".into(), format!("-{}", n.max(1)), format!("{n}.5"), "[]".into(), "{}".into(), format!("{}0", u64::MAX - c.rng.below(9)), "1e3".into(), format!("18446744073709551616")];
    text!(BlockNumber, n, bad, js, true);
    text!(SlotNumber, n, bad, js, true);
    text!(Timestamp, n, bad, js, true);
    text!(OutputIndex, n, bad, js, false);
    if n <= i64::MAX as u64 {
        check_eq!(Timestamp::new(n).into_unix_time().duration_since(SystemTime::UNIX_EPOCH).ok(), Some(Duration::from_secs(n)), "system time of timestamp {n}");
    }
    Ok(())
}

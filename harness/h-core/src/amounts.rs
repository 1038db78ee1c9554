//! Amounts against exact integer arithmetic (digits and a power of ten).
use common::*;
use dcspark_core::*;
use deps::bigdecimal::{num_bigint::{BigInt, Sign}, BigDecimal, ToPrimitive};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

/// digits * 10^-scale
#[derive(Clone, Debug)]
struct Num { d: BigInt, s: i64 }
fn ten(n: i64) -> BigInt { let mut r = BigInt::from(1); for _ in 0..n { r *= 10; } r }
impl Num {
    fn new(d: BigInt, s: i64) -> Num { Num { d, s } }
    fn of(b: &BigDecimal) -> Num { let (d, s) = b.as_bigint_and_exponent(); Num { d, s } }
    fn at(&self, s: i64) -> BigInt { &self.d * ten(s - self.s) }
    fn both(&self, o: &Num) -> (BigInt, BigInt, i64) { let s = self.s.max(o.s); (self.at(s), o.at(s), s) }
    fn add(&self, o: &Num) -> Num { let (a, b, s) = self.both(o); Num::new(a + b, s) }
    fn sub(&self, o: &Num) -> Num { let (a, b, s) = self.both(o); Num::new(a - b, s) }
    fn mul(&self, n: u64) -> Num { Num::new(&self.d * BigInt::from(n), self.s) }
    fn cmp(&self, o: &Num) -> Ordering { let (a, b, _) = self.both(o); a.cmp(&b) }
    fn eq(&self, o: &Num) -> bool { self.cmp(o) == Ordering::Equal }
    fn sign(&self) -> Ordering { match self.d.sign() { Sign::Minus => Ordering::Less, Sign::NoSign => Ordering::Equal, Sign::Plus => Ordering::Greater } }
    /// times 10^n
    fn shift(&self, n: i64) -> Num { Num::new(self.d.clone(), self.s - n) }
    fn trunc(&self) -> Num { if self.s <= 0 { self.clone() } else { Num::new(&self.d / ten(self.s), 0) } }
}
fn same<R>(v: &Value<R>, n: &Num) -> bool { Num::of(v.raw()).eq(n) }
macro_rules! is {
    ($v:expr, $n:expr, $($arg:tt)*) => { { let v = &$v; let n = &$n; check!(same(v, n), "{}: got {}, expected {}e{}", format!($($arg)*), v, n.d, -n.s); } };
}

fn digits(c: &mut Case) -> BigInt {
    match c.rng.below(6) {
        0 => BigInt::from(c.rng.below(3)),
        1 => BigInt::from(c.rng.below(1000)),
        2 => BigInt::from(c.rng.corner()),
        3 => ten(1 + c.rng.below(25) as i64) - c.rng.below(3),
        4 => BigInt::from(c.rng.next()) * BigInt::from(c.rng.next()) * BigInt::from(c.rng.next()) + c.rng.below(10),
        _ => BigInt::from(c.rng.below(100000)) * ten(c.rng.below(12) as i64),
    }
}
fn num(c: &mut Case, neg: bool) -> Num {
    let mut d = digits(c);
    if neg && c.rng.chance(1, 3) { d = -d; }
    let s = match c.rng.below(5) { 0 => 0, 1 => 6, 2 => 18, 3 => c.rng.below(40) as i64, _ => -(c.rng.below(25) as i64) };
    Num::new(d, s)
}
fn val<R>(n: &Num) -> Value<R> { Value::new(BigDecimal::new(n.d.clone(), n.s)) }

type A = cardano::Ada;
type L = cardano::Lovelace;
type N = Normalized;
type G = Regulated;

pub fn convert(c: &mut Case) -> CaseResult {
    let n = num(c, true);
    c.log(format!("{}e{}", n.d, -n.s));
    if n.sign() != Ordering::Equal { c.hit(); }
    macro_rules! conv { ($($name:literal, $e:expr, $k:expr);* $(;)?) => { $( is!($e, n.shift($k), "{} of {}e{}", $name, n.d, -n.s); )* } }
    conv! {
        "ada to lovelace", val::<A>(&n).to_lovelace(), 6;
        "lovelace to ada", val::<L>(&n).to_ada(), -6;
        "ada to normalized", val::<A>(&n).normalize(), 0;
        "ada from normalized", Value::<A>::from_normalized(&val(&n)), 0;
        "lovelace to normalized", val::<L>(&n).normalize(), -6;
        "lovelace from normalized", Value::<L>::from_normalized(&val(&n)), 6;
        "lovelace to regulated", val::<L>(&n).to_regulated(), 0;
        "lovelace from regulated", Value::<L>::from_regulated(&val(&n)), 0;
        "ether to wei", val::<evm::Ether>(&n).to_wei(), 18;
        "wei to ether", val::<evm::Wei>(&n).to_ether(), -18;
        "ether to normalized", val::<evm::Ether>(&n).normalize(), 0;
        "ether from normalized", Value::<evm::Ether>::from_normalized(&val(&n)), 0;
        "wei to normalized", val::<evm::Wei>(&n).normalize(), -18;
        "wei from normalized", Value::<evm::Wei>::from_normalized(&val(&n)), 18;
        "algo to microalgo", val::<algo::Algo>(&n).to_microalgo(), 6;
        "microalgo to algo", val::<algo::MicroAlgo>(&n).to_algo(), -6;
        "algo to normalized", val::<algo::Algo>(&n).normalize(), 0;
        "algo from normalized", Value::<algo::Algo>::from_normalized(&val(&n)), 0;
        "microalgo to normalized", val::<algo::MicroAlgo>(&n).normalize(), -6;
        "microalgo from normalized", Value::<algo::MicroAlgo>::from_normalized(&val(&n)), 6;
        "normalized from lovelace", Value::<N>::from(val::<L>(&n)), -6;
        "lovelace from ada", Value::<L>::from(val::<A>(&n)), 6;
        "lovelace from normalized (into)", Value::<L>::from(val::<N>(&n)), 6;
        "normalized from ada", Value::<N>::from(val::<A>(&n)), 0;
        "ada from normalized (into)", Value::<A>::from(val::<N>(&n)), 0;
        "normalized from wei", Value::<N>::from(val::<evm::Wei>(&n)), -18;
        "wei from normalized (into)", Value::<evm::Wei>::from(val::<N>(&n)), 18;
        "normalized from ether", Value::<N>::from(val::<evm::Ether>(&n)), 0;
        "ether from normalized (into)", Value::<evm::Ether>::from(val::<N>(&n)), 0;
        "normalized from microalgo", Value::<N>::from(val::<algo::MicroAlgo>(&n)), -6;
        "microalgo from normalized (into)", Value::<algo::MicroAlgo>::from(val::<N>(&n)), 6;
        "normalized from algo", Value::<N>::from(val::<algo::Algo>(&n)), 0;
    }
    // the result types (a wrongly typed result would not compile with these)
    let _: Value<algo::Algo> = val::<algo::MicroAlgo>(&n).to_algo();
    let (m, s) = (c.rng.below(60) as i64 - 20, c.rng.below(60) as i64 - 20);
    let rule = Rule { asset: TokenId::new_static("x"), mainchain_decimal_precision: m, sidechain_decimal_precision: s };
    is!(val::<G>(&n).normalize_from_mainchain(&rule), n.shift(-m), "regulated to normalized (mainchain, {m})");
    is!(val::<G>(&n).normalize_from_sidechain(&rule), n.shift(-s), "regulated to normalized (sidechain, {s})");
    is!(Value::<G>::from_normalized_to_mainchain(&val(&n), &rule), n.shift(m), "regulated from normalized (mainchain, {m})");
    is!(Value::<G>::from_normalized_to_sidechain(&val(&n), &rule), n.shift(s), "regulated from normalized (sidechain, {s})");
    Ok(())
}

pub fn arith(c: &mut Case) -> CaseResult {
    let a = num(c, true);
    // near each other often
    let b = match c.rng.below(4) { 0 => Num::new(a.d.clone() * ten(3), a.s + 3), 1 => Num::new(&a.d + BigInt::from(c.rng.below(3)) - 1, a.s), _ => num(c, true) };
    c.log(format!("{}e{} {}e{}", a.d, -a.s, b.d, -b.s));
    if a.sign() != Ordering::Equal && b.sign() != Ordering::Equal { c.hit(); }
    let (x, y) = (val::<L>(&a), val::<L>(&b));
    is!(x.clone() + y.clone(), a.add(&b), "a + b");
    is!(&x + y.clone(), a.add(&b), "&a + b");
    is!(&x + &y, a.add(&b), "&a + &b");
    is!(x.clone() + &y, a.add(&b), "a + &b");
    is!(x.clone() - y.clone(), a.sub(&b), "a - b");
    is!(x.clone() - &y, a.sub(&b), "a - &b");
    is!(&x - &y, a.sub(&b), "&a - &b");
    macro_rules! asg { ($op:tt, $r:expr, $want:expr, $n:literal) => {{ let mut z = x.clone(); z $op $r; is!(z, $want, $n); }} }
    asg!(+=, y.clone(), a.add(&b), "a += b");
    asg!(+=, &y, a.add(&b), "a += &b");
    asg!(-=, y.clone(), a.sub(&b), "a -= b");
    asg!(-=, &y, a.sub(&b), "a -= &b");
    let k = c.rng.corner();
    is!(x.clone() * k as usize, a.mul(k), "a * {k}usize");
    is!(&x * k as usize, a.mul(k), "&a * {k}usize");
    is!(x.clone() * k as u32, a.mul(k as u32 as u64), "a * {}u32", k as u32);
    is!(&x * k as u32, a.mul(k as u32 as u64), "&a * {}u32", k as u32);
    let o = a.cmp(&b);
    check_eq!(x == y, o == Ordering::Equal, "{x} == {y}");
    check_eq!(x.cmp(&y), o, "{x} cmp {y}");
    check_eq!(x.partial_cmp(&y), Some(o), "{x} partial_cmp {y}");
    check_eq!(x < y, o == Ordering::Less, "{x} < {y}");
    is!(x.clone().min(y.clone()), if o == Ordering::Greater { b.clone() } else { a.clone() }, "min");
    is!(x.clone().max(y.clone()), if o == Ordering::Greater { a.clone() } else { b.clone() }, "max");
    check_eq!(x == Value::zero(), a.sign() == Ordering::Equal, "zero test of {x}");
    is!(Value::<L>::zero(), Num::new(0.into(), 0), "zero");
    is!(Value::<L>::one(), Num::new(1.into(), 0), "one");
    is!(Value::<L>::default(), Num::new(0.into(), 0), "default");
    is!(Value::<L>::from(k), Num::new(k.into(), 0), "from {k}");
    is!(Value::<L>::from(BigDecimal::new(a.d.clone(), a.s)), a, "from a decimal");
    is!(x.clone(), a, "clone");
    is!(x.truncate(), a.trunc(), "truncate {x}");
    is!(y.truncate(), b.trunc(), "truncate {y}");
    // machine integers: the part before the point, when it fits
    let t = a.trunc();
    let whole = if t.s >= 0 { t.d.clone() / ten(t.s) } else { t.d.clone() * ten(-t.s) };
    let fits = |lo: BigInt, hi: BigInt| whole >= lo && whole <= hi;
    let i = ToPrimitive::to_i64(&x);
    check_eq!(i.map(BigInt::from), fits(i64::MIN.into(), i64::MAX.into()).then(|| whole.clone()), "to_i64 of {x}");
    let u = ToPrimitive::to_u64(&x);
    check_eq!(u.map(BigInt::from), (a.sign() != Ordering::Less && fits(0.into(), u64::MAX.into())).then(|| whole.clone()), "to_u64 of {x}");
    // equal amounts hash alike, however they are written
    let h = |v: &Value<L>| { let mut s = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut s); s.finish() };
    if o == Ordering::Equal { check_eq!(h(&x), h(&y), "hashes of the equal amounts {x} and {y}"); }
    let again = val::<L>(&Num::new(a.d.clone() * ten(3), a.s + 3));
    check_eq!(h(&x), h(&again), "hashes of {x} and {again}");
    let vs: Vec<Num> = (0..c.rng.usize(c.size.min(12))).map(|_| num(c, true)).collect();
    let sum = vs.iter().fold(Num::new(0.into(), 0), |s, v| s.add(v));
    is!(vs.iter().map(val::<L>).sum::<Value<L>>(), sum, "sum of {} amounts", vs.len());
    let ws: Vec<Value<L>> = vs.iter().map(val).collect();
    is!(ws.iter().sum::<Value<L>>(), sum, "sum of {} references", vs.len());
    Ok(())
}

/// [+-]digits[.digits], or None when the text has another shape
fn simple(s: &str) -> Option<Num> {
    let (neg, t) = match s.as_bytes().first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    let (i, f) = match t.split_once('.') { Some((i, f)) => (i, f), None => (t, "") };
    if i.is_empty() || t.ends_with('.') || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) { return None; }
    let mut d = BigInt::from(0);
    for b in i.bytes().chain(f.bytes()) { d = d * 10 + (b - b'0'); }
    Some(Num::new(if neg { -d } else { d }, f.len() as i64))
}

fn text(c: &mut Case) -> String {
    let ds = |c: &mut Case, n: usize| -> String { (0..n).map(|_| if c.rng.chance(1, 3) { '0' } else { (b'0' + c.rng.below(10) as u8) as char }).collect() };
    let i = { let n = 1 + c.rng.usize(24); ds(c, n) };
    let fl = match c.rng.below(8) { 0 => 0, 1 => 6, 2 => 7, 3 => 18, 4 => 19, 5 => 1, _ => c.rng.usize(24) };
    let f = ds(c, fl);
    let sign = match c.rng.below(8) { 0 => "-", 1 => "+", _ => "" };
    match c.rng.below(12) {
        0 => (0..c.rng.usize(8)).map(|_| *c.rng.pick(&['0', '1', '9', '-', '+', '.', 'e', 'E', '_', ' ', 'a'])).collect(),
        1 => format!("{sign}{i}"),
        2 => format!("{sign}0.{f}"),
        3 => format!("{sign}{i}.{f}e{}", c.rng.below(30) as i64 - 15),
        4 => format!("{sign}0{}", if f.is_empty() { String::new() } else { format!(".{}", "0".repeat(f.len())) }),
        _ => if f.is_empty() { format!("{sign}{i}") } else { format!("{sign}{i}.{f}") },
    }
}

fn one<R>(s: &str, max: i64, name: &str, hit: &mut bool) -> CaseResult
where Value<R>: FromStr, <Value<R> as FromStr>::Err: std::error::Error {
    let written = BigDecimal::from_str(s).ok().map(|b| Num::of(&b));
    if let Some(m) = simple(s) {
        check!(written.as_ref().map(|w| w.eq(&m) && w.s == m.s) == Some(true), "assumed contract: BigDecimal reads {s:?} as the number written");
    }
    let want = written.filter(|w| w.s <= max && w.sign() != Ordering::Less);
    let got = Value::<R>::from_str(s);
    match (&got, &want) {
        (Err(_), None) => {}
        (Ok(v), Some(w)) => {
            *hit = true;
            is!(v, w, "{name} parsed from {s:?}");
            let t = v.to_string();
            let back = Value::<R>::from_str(&t);
            check!(matches!(&back, Ok(b) if b == v), "{name} {s:?}: its text {t:?} reads back as {back:?}");
            let j = serde_json::to_string(v).map_err(|e| format!("{name} {s:?}: not serialised: {e}"))?;
            let back = serde_json::from_str::<Value<R>>(&j);
            check!(matches!(&back, Ok(b) if b == v), "{name} {s:?}: its JSON {j} reads back as {back:?}");
            let back = serde_json::from_value::<Value<R>>(serde_json::to_value(v).unwrap());
            check!(matches!(&back, Ok(b) if b == v), "{name} {s:?}: its JSON value reads back as {back:?}");
        }
        (Ok(v), None) => return Err(format!("{name} accepts {s:?} as {v}")),
        (Err(e), Some(_)) => return Err(format!("{name} refuses {s:?}: {e}")),
    }
    Ok(())
}

pub fn parse(c: &mut Case) -> CaseResult {
    let s = text(c);
    c.log(format!("{s:?}"));
    let mut hit = false;
    one::<L>(&s, 0, "lovelace", &mut hit)?;
    one::<A>(&s, 6, "ada", &mut hit)?;
    one::<evm::Wei>(&s, 0, "wei", &mut hit)?;
    one::<evm::Ether>(&s, 18, "ether", &mut hit)?;
    one::<algo::MicroAlgo>(&s, 0, "microalgo", &mut hit)?;
    one::<algo::Algo>(&s, 6, "algo", &mut hit)?;
    one::<N>(&s, 18, "normalized", &mut hit)?;
    one::<G>(&s, 18, "regulated", &mut hit)?;
    let n = c.rng.corner();
    let v = serde_json::from_str::<Value<L>>(&n.to_string());
    check!(matches!(&v, Ok(v) if same(v, &Num::new(n.into(), 0))), "the JSON number {n} reads as {v:?}");
    if hit { c.hit(); }
    Ok(())
}

fn check_balance(b: &Balance<L>, want: &Num, what: &str) -> CaseResult {
    let (got, ok) = match b {
        Balance::Debt(v) => (Num::new(0.into(), 0).sub(&Num::of(v.raw())), want.sign() == Ordering::Less),
        Balance::Balanced => (Num::new(0.into(), 0), want.sign() == Ordering::Equal),
        Balance::Excess(v) => (Num::of(v.raw()), want.sign() == Ordering::Greater),
    };
    check!(ok && got.eq(want), "{what}: balance is {b:?}, the exact sum is {}e{}", want.d, -want.s);
    check_eq!((b.in_debt(), b.balanced(), b.in_excess()), (want.sign() == Ordering::Less, want.sign() == Ordering::Equal, want.sign() == Ordering::Greater), "{what}: predicates of {b:?}");
    Ok(())
}

pub fn balance(c: &mut Case) -> CaseResult {
    let zero = Num::new(0.into(), 0);
    let mut bs: Vec<(Balance<L>, Num)> = vec![(Balance::zero(), zero.clone()), (Balance::default(), zero)];
    let ops = 1 + c.rng.usize(c.size);
    if ops >= 3 { c.hit(); }
    for _ in 0..ops {
        let k = c.rng.usize(bs.len());
        let (b, w) = bs[k].clone();
        // amounts that cancel, or come close
        let n = match c.rng.below(5) {
            0 => if w.sign() == Ordering::Less { Num::new(-w.d.clone(), w.s) } else { w.clone() },
            1 => { let m = if w.sign() == Ordering::Less { Num::new(-w.d.clone(), w.s) } else { w.clone() }; Num::new(m.d + c.rng.below(2), m.s) },
            2 => { let mut m = num(c, false); m.d = BigInt::from(c.rng.below(4)); m },
            _ => num(c, false),
        };
        let v = val::<L>(&n);
        let op = c.rng.below(12);
        c.log(format!("op {op} on {b:?} with {v:?}"));
        let (nb, nw) = match op {
            0 => (b + v, w.add(&n)),
            1 => (b - v, w.sub(&n)),
            2 => (&b + &v, w.add(&n)),
            3 => (&b - &v, w.sub(&n)),
            4 => { let mut x = b; x += v; (x, w.add(&n)) }
            5 => { let mut x = b; x -= v; (x, w.sub(&n)) }
            6 => { let mut x = b; x += &v; (x, w.add(&n)) }
            7 => { let mut x = b; x -= &v; (x, w.sub(&n)) }
            8 => { let x = &(&b + &v) - &v; (x, w) }
            9 => { let x = &(&b - &v) + &v; (x, w) }
            _ => { let (o, ow) = c.rng.pick(&bs).clone(); (b + o, w.add(&ow)) }
        };
        check_balance(&nb, &nw, &format!("op {op}"))?;
        if bs.len() < 6 { bs.push((nb, nw)); } else { let i = c.rng.usize(6); bs[i] = (nb, nw); }
    }
    for (a, x) in &bs {
        check_balance(&a.clone(), x, "clone")?;
        for (b, y) in &bs { check_eq!(a == b, x.eq(y), "{a:?} == {b:?}"); }
    }
    Ok(())
}

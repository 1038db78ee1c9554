//! Runner shared by the harnesses: deterministic cases from (seed, index), growing sizes, panics and
//! hangs reported as failures, result written as JSON.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    #[allow(clippy::should_implement_trait)]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// u64 biased to corners
    pub fn corner(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => self.next() >> self.below(64),
            5 => u64::MAX / (1 + self.below(16)),
            6 => self.below(1000),
            _ => self.next(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

pub struct Case {
    pub rng: Rng,
    pub index: u64,
    /// grows with the index: 1..=max
    pub size: usize,
    pub log: Vec<String>,
    pub nontrivial: bool,
    key: u64,
}
impl Case {
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.key.hash(&mut h);
        s.hash(&mut h);
        self.key = h.finish();
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
    /// the case exercised the property (not only its empty or refused corner)
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
}

pub type CaseResult = Result<(), String>;

#[macro_export]
macro_rules! check {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => { match (&$a, &$b) { (a, b) => if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); } } };
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub secs: f64,
    pub out: String,
    pub case: Option<u64>,
    pub threads: usize,
    pub trace: bool,
    pub min: u64,
}
pub fn args() -> Args {
    let mut a = Args { prop: String::new(), seed: 1, secs: 5.0, out: String::new(), case: None, threads: 6, trace: false, min: 0 };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match k.as_str() {
            "--prop" => a.prop = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--secs" => a.secs = v().parse().unwrap(),
            "--out" => a.out = v(),
            "--case" => a.case = Some(v().parse().unwrap()),
            "--threads" => a.threads = v().parse().unwrap(),
            "--min" => a.min = v().parse().unwrap(),
            "--trace" => a.trace = true,
            _ => panic!("unknown argument {k}"),
        }
    }
    a
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// `max_size`: largest case size; sizes cycle 1..=max with small ones first.
pub fn run(a: &Args, rule: &str, max_size: usize, f: impl Fn(&mut Case) -> CaseResult + Sync) -> ! {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
    let start = Instant::now();
    let next = AtomicU64::new(a.case.unwrap_or(0));
    let evals = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fail: Mutex<Option<(u64, String, Vec<String>)>> = Mutex::new(None);
    let threads = if a.case.is_some() || a.trace { 1 } else { a.threads };
    let busy: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let write = |fail: &Option<(u64, String, Vec<String>)>| -> bool {
        let mut o = String::from("{");
        o.push_str(&format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"wall_s\": {:.2}, ", evals.load(Ordering::SeqCst), distinct.lock().unwrap().len(), esc(rule), start.elapsed().as_secs_f64()));
        o.push_str(&format!("\"samples\": [{}], ", samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")));
        match fail {
            None => o.push_str("\"failure\": null}"),
            Some((i, m, l)) => o.push_str(&format!("\"failure\": {{\"case\": {}, \"seed\": {}, \"message\": {}, \"input\": [{}]}}}}", i, a.seed, esc(m), l.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))),
        }
        if a.out.is_empty() { println!("{o}"); } else { std::fs::write(&a.out, o).unwrap(); }
        fail.is_some()
    };
    std::thread::scope(|s| {
        // watchdog
        s.spawn(|| loop {
            std::thread::sleep(Duration::from_millis(50));
            if done.load(Ordering::SeqCst) { break; }
            for b in &busy {
                let cur = *b.lock().unwrap();
                if let Some((i, t)) = cur {
                    if t.elapsed() > Duration::from_secs(40) {
                        let f = Some((i, "the case did not finish within 40 s".to_string(), vec![]));
                        write(&f);
                        std::process::exit(10);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..threads).map(|w| { let (busy, stop, next, evals, distinct, samples, fail, f) = (&busy, &stop, &next, &evals, &distinct, &samples, &fail, &f); s.spawn(move || {
            loop {
                if stop.load(Ordering::SeqCst) { break; }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if a.case.is_none() && start.elapsed().as_secs_f64() > a.secs && i >= a.min { break; }
                if a.trace && !a.out.is_empty() { std::fs::write(format!("{}.trace", a.out), i.to_string()).unwrap(); }
                let size = size_of(i, max_size);
                let mut c = Case { rng: Rng::new(a.seed.wrapping_mul(0x1000_0001).wrapping_add(i)), index: i, size, log: vec![], nontrivial: false, key: 0 };
                *busy[w].lock().unwrap() = Some((i, Instant::now()));
                let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                *busy[w].lock().unwrap() = None;
                evals.fetch_add(1, Ordering::SeqCst);
                let err = match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(_) => Some(PANIC.with(|p| p.borrow().clone())) };
                if let Some(e) = err {
                    let mut g = fail.lock().unwrap();
                    if g.as_ref().map(|x| x.0 > i).unwrap_or(true) { *g = Some((i, e, c.log.clone())); }
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
                if c.nontrivial {
                    let mut d = distinct.lock().unwrap();
                    if d.len() < 4_000_000 && d.insert(c.key) {
                        drop(d);
                        let mut s = samples.lock().unwrap();
                        if s.len() < 3 && i % 7 == 3 { s.push(c.log.join("; ").chars().take(600).collect()); }
                    }
                }
                if a.case.is_some() { break; }
            }
        }) }).collect();
        for h in hs { let _ = h.join(); }
        done.store(true, Ordering::SeqCst);
    });
    let g = fail.lock().unwrap().clone();
    let bad = write(&g);
    std::process::exit(if bad { 10 } else { 0 });
}

pub fn size_of(i: u64, max: usize) -> usize {
    // 0..200: tiny; then cycle through the whole range
    if i < 200 { 1 + (i as usize % 8).min(max - 1) } else { 1 + (i as usize % max) }
}

/// Scratch directory, removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { "/tmp".into() });
        let p = std::path::PathBuf::from(base).join(format!("verif-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &std::path::Path { &self.0 }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn copy_dir(from: &std::path::Path, to: &std::path::Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() { copy_dir(&e.path(), &t); } else { std::fs::copy(e.path(), t).unwrap(); }
    }
}

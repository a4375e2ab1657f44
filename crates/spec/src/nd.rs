//! Native stand-in for the verifier's nondeterminism: replay of concrete values, seeded sampling,
//! and the context for complete evaluation of finite domains.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};

pub struct AssumeFailed;

pub fn assume(c: bool) {
    if !c {
        panic_any(AssumeFailed)
    }
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

enum Mode {
    Replay(VecDeque<Vec<u8>>),
    Sample(Rng),
}

thread_local! {
    static MODE: RefCell<Mode> = const { RefCell::new(Mode::Replay(VecDeque::new())) };
    static TRACE: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

pub trait Nd: Sized {
    fn from_bytes(b: &[u8]) -> Self;
    fn to_bytes(&self) -> Vec<u8>;
    fn sample(r: &mut Rng) -> Self;
    /// How many of the verifier's values make up one.
    const PARTS: usize = 1;
}

macro_rules! nd_int {
    ($($t:ty),*) => {$(
        impl Nd for $t {
            fn from_bytes(b: &[u8]) -> Self {
                let mut a = [0u8; size_of::<$t>()];
                let n = a.len().min(b.len());
                a[..n].copy_from_slice(&b[..n]);
                <$t>::from_le_bytes(a)
            }
            fn to_bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
            fn sample(r: &mut Rng) -> Self {
                let full = ((r.next() as u128) << 64 | r.next() as u128) as $t;
                match r.below(8) {
                    0 => full,
                    1 => (r.below(7) as $t).wrapping_sub(3 as $t),
                    2 => <$t>::MAX.wrapping_sub(r.below(4) as $t),
                    3 => <$t>::MIN.wrapping_add(r.below(4) as $t),
                    4 => (r.below(200) as $t),
                    5 => (0 as $t).wrapping_sub(r.below(200) as $t),
                    6 => ((1 as $t).wrapping_shl(r.below(<$t>::BITS as u64) as u32)).wrapping_add(r.below(3) as $t).wrapping_sub(1),
                    _ => full.wrapping_shr(r.below(<$t>::BITS as u64) as u32),
                }
            }
        }
    )*};
}
nd_int!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

macro_rules! nd_float {
    ($($t:ty, $u:ty);*) => {$(
        impl Nd for $t {
            fn from_bytes(b: &[u8]) -> Self { <$t>::from_bits(<$u as Nd>::from_bytes(b)) }
            fn to_bytes(&self) -> Vec<u8> { self.to_bits().to_le_bytes().to_vec() }
            fn sample(r: &mut Rng) -> Self {
                match r.below(6) {
                    0 => <$t>::from_bits(r.next() as $u),
                    1 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 100.0, 1e-3, <$t>::INFINITY,
                                   <$t>::NEG_INFINITY, <$t>::NAN, <$t>::MAX, <$t>::MIN_POSITIVE,
                                   <$t>::EPSILON, 273.15, -40.0]),
                    2 => r.below(2000) as $t - 1000.0,
                    3 => (r.below(2_000_000) as $t - 1.0e6) / 1000.0,
                    4 => (r.next() as $t / u64::MAX as $t) * 2.0 - 1.0,
                    _ => (r.next() as $t) / (1u64 << r.below(63)) as $t,
                }
            }
        }
    )*};
}
nd_float!(f32, u32; f64, u64);

impl<T: Nd + Copy, const N: usize> Nd for [T; N] {
    fn from_bytes(b: &[u8]) -> Self {
        let w = size_of::<T>();
        std::array::from_fn(|i| T::from_bytes(b.get(i * w..(i + 1) * w).unwrap_or(&[])))
    }
    fn to_bytes(&self) -> Vec<u8> {
        self.iter().flat_map(|x| x.to_bytes()).collect()
    }
    fn sample(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::sample(r))
    }
    const PARTS: usize = N;
}

impl Nd for bool {
    fn from_bytes(b: &[u8]) -> Self {
        b.first().copied().unwrap_or(0) & 1 == 1
    }
    fn to_bytes(&self) -> Vec<u8> {
        vec![*self as u8]
    }
    fn sample(r: &mut Rng) -> Self {
        r.next() & 1 == 1
    }
}

pub fn nd<T: Nd>() -> T {
    let v = MODE.with(|m| match &mut *m.borrow_mut() {
        Mode::Replay(q) => {
            let parts: Vec<u8> = (0..T::PARTS).flat_map(|_| q.pop_front().unwrap_or_default()).collect();
            T::from_bytes(&parts)
        }
        Mode::Sample(r) => T::sample(r),
    });
    TRACE.with(|t| {
        let b = v.to_bytes();
        t.borrow_mut().extend(b.chunks((b.len() / T::PARTS).max(1)).map(|c| c.to_vec()));
    });
    v
}

#[derive(Debug)]
pub enum Outcome {
    Pass,
    Discarded,
    Fail(String),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn run_caught(f: impl FnOnce()) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(()) => Outcome::Pass,
        Err(e) if e.is::<AssumeFailed>() => Outcome::Discarded,
        Err(_) => Outcome::Fail(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Whether `f` panics (used for contracts that say "must reject").
pub fn panics(f: impl FnOnce()) -> bool {
    matches!(run_caught(f), Outcome::Fail(_))
}

/// Context of a complete evaluation: counts cases, records failing ones.
#[derive(Default)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub cases: u64,
    pub fails: Vec<String>,
    pub known: Vec<String>,
    pub samples: Vec<String>,
}
impl Ctx {
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed)
    }
    pub fn case(&mut self, what: impl FnOnce() -> String, ok: bool) {
        self.cases += 1;
        if ok {
            if self.samples.len() < 3 && self.cases % 37 == 1 {
                let w = what();
                self.samples.push(w);
            }
        } else if self.fails.len() < 20 {
            let w = what();
            self.fails.push(w);
        }
    }
    /// As `case`, where `f` may panic (a panic is a failure unless `f` returns).
    pub fn run(&mut self, what: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        let mut res = Ok(());
        let o = run_caught(|| res = f());
        let (ok, msg) = match (o, res) {
            (Outcome::Pass, Ok(())) => (true, String::new()),
            (Outcome::Pass, Err(e)) => (false, e),
            (Outcome::Fail(p), _) => (false, format!("panicked: {p}")),
            (Outcome::Discarded, _) => return,
        };
        self.case(|| if ok { what() } else { format!("{}: {}", what(), msg) }, ok);
    }
    /// A failing case listed as a known finding (identified by the case text itself).
    pub fn known(&mut self, what: String) {
        self.cases += 1;
        self.known.push(what);
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// Entry point of every contract crate's native binary.
///
/// * `replay NAME HEX...`   run one obligation on concrete arguments
/// * `sample NAME N SEED`   seeded search for a failing input of one obligation
/// * `evaluate SEED TIER`   run every `evaluated!` obligation, one JSON-ish line each
/// * `list`
pub fn main_with(registry: &[&[(&'static str, fn())]], evaluated: &[&[(&'static str, fn(&mut Ctx))]]) {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
    }));
    let strip = |s: &str| s.split_once("::").map(|x| x.1.to_string()).unwrap_or(s.to_string());
    let find = |n: &str| {
        registry
            .iter()
            .flat_map(|r| r.iter())
            .find(|(k, _)| strip(k) == n || *k == n)
            .map(|x| x.1)
    };
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("replay") => {
            let Some(f) = find(&a[1]) else { println!("UNKNOWN {}", a[1]); std::process::exit(3) };
            let q: VecDeque<Vec<u8>> = a[2..].iter().map(|s| unhex(s)).collect();
            MODE.with(|m| *m.borrow_mut() = Mode::Replay(q));
            match run_caught(f) {
                Outcome::Fail(m) => { println!("REPRODUCED {m}"); std::process::exit(1) }
                o => println!("NOT-REPRODUCED {o:?}"),
            }
        }
        Some("sample") => {
            let Some(f) = find(&a[1]) else { println!("UNKNOWN {}", a[1]); std::process::exit(3) };
            let n: u64 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let mut pass = 0u64;
            let limit: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(20);
            let t0 = std::time::Instant::now();
            for i in 0..n {
                if t0.elapsed().as_secs() >= limit { break }
                MODE.with(|m| *m.borrow_mut() = Mode::Sample(Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i))));
                TRACE.with(|t| t.borrow_mut().clear());
                match run_caught(f) {
                    Outcome::Fail(m) => {
                        let v = TRACE.with(|t| t.borrow().iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
                        println!("FOUND {v}\n{m}");
                        std::process::exit(1)
                    }
                    Outcome::Pass => pass += 1,
                    Outcome::Discarded => {}
                }
            }
            println!("NONE {pass}");
        }
        Some("evaluate") => {
            let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
            let only = a.get(3);
            let mut bad = false;
            for (k, f) in evaluated.iter().flat_map(|r| r.iter()) {
                let name = strip(k);
                if let Some(o) = only && *o != name { continue }
                let mut c = Ctx { seed, thorough, ..Default::default() };
                let t0 = std::time::Instant::now();
                let o = run_caught(|| f(&mut c));
                if let Outcome::Fail(m) = &o {
                    c.fails.push(format!("panicked: {m}"));
                }
                println!("EVAL {name} cases={} fails={} ms={}", c.cases, c.fails.len(), t0.elapsed().as_millis());
                for s in &c.samples { println!("SAMPLE {name} {}", s.replace('\n', " ")); }
                for s in &c.known { println!("KNOWN {name} {}", s.replace('\n', " ")); }
                for s in &c.fails { println!("FAIL {name} {}", s.replace('\n', " ")); bad = true; }
            }
            std::process::exit(if bad { 1 } else { 0 })
        }
        _ => {
            for (k, _) in registry.iter().flat_map(|r| r.iter()) { println!("OBLIGATION {}", strip(k)); }
            for (k, _) in evaluated.iter().flat_map(|r| r.iter()) { println!("EVALUATED {}", strip(k)); }
        }
    }
}

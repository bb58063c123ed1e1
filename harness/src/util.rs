//! Shared plumbing of the conformance harness: seeded randomness, event output,
//! panic capture, a hang watchdog, and exact conversions of scalars.
use rug::{Integer, Rational};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<X>(&mut self, xs: &mut [X]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub input: Option<String>,
    pub out: BufWriter<File>,
    pub n: usize,
    pub rng: Rng,
    trace: bool,
    trace_path: String,
}

static CASE_STARTED_MS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<(String, String)>> = Mutex::new(None); // (out path, case json)

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn now_ms() -> u64 {
    use std::sync::OnceLock;
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, out: &str, input: Option<String>) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let m = info.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = m);
        }));
        let limit = std::env::var("CASE_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000u64);
        let outp = out.to_string();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let s = CASE_STARTED_MS.load(Ordering::SeqCst);
                if s != 0 && now_ms().saturating_sub(s) > limit {
                    // a call that never returns is an observation, not a tool failure
                    let c = CURRENT.lock().unwrap().clone();
                    let c = c.map(|x| x.1).unwrap_or_else(|| "null".into());
                    let _ = std::fs::write(format!("{outp}.hang"), c);
                    std::process::exit(77);
                }
            }
        });
        Ctx {
            seed,
            thorough,
            input,
            out: BufWriter::with_capacity(1 << 20, File::create(out).expect("create out")),
            n: 0,
            rng: Rng::new(seed),
            trace: std::env::var("TRACE_CASES").is_ok(),
            trace_path: format!("{out}.current"),
        }
    }
    /// Run the code under test on one case; Err carries the panic message.
    pub fn run<R>(&mut self, desc: impl FnOnce() -> Value, f: impl FnOnce() -> R) -> Result<R, String> {
        let d = desc();
        if self.trace {
            let _ = std::fs::write(&self.trace_path, d.to_string());
        }
        *CURRENT.lock().unwrap() = Some((String::new(), d.to_string()));
        self.run_quiet(f)
    }
    pub fn run_quiet<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        CASE_STARTED_MS.store(now_ms(), Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_STARTED_MS.store(0, Ordering::SeqCst);
        r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
    }
    pub fn emit(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.out, v).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.n += 1;
    }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
}

/// One-shot guard usable without a Ctx (nested captures).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    CASE_STARTED_MS.store(now_ms(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    CASE_STARTED_MS.store(0, Ordering::SeqCst);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

pub fn set_current(v: &Value) {
    *CURRENT.lock().unwrap() = Some((String::new(), v.to_string()));
}

/// Exact rational as [num, den]; values outside the specification's range become [0, 0],
/// which equals no rational.
pub fn rj(r: &Rational) -> Value {
    let lim = Integer::from(1i64 << 30);
    if r.numer().clone().abs() < lim && *r.denom() < lim {
        json!([r.numer().to_i64().unwrap(), r.denom().to_i64().unwrap()])
    } else {
        json!([0, 0])
    }
}

/// The rational with small denominator that a double stands for, or None.
pub fn snap(x: f64, maxden: i64) -> Option<Rational> {
    if !x.is_finite() {
        return None;
    }
    // continued fraction
    let tol = 1e-7 * (1.0 + x.abs());
    let (mut h0, mut h1) = (1i128, x.floor() as i128);
    let (mut k0, mut k1) = (0i128, 1i128);
    let mut frac = x - x.floor();
    for _ in 0..40 {
        let v = h1 as f64 / k1 as f64;
        if (v - x).abs() <= tol * 1e-2 {
            break;
        }
        if frac.abs() < 1e-13 {
            break;
        }
        let inv = 1.0 / frac;
        let a = inv.floor();
        frac = inv - a;
        let h2 = a as i128 * h1 + h0;
        let k2 = a as i128 * k1 + k0;
        if k2 > maxden as i128 {
            break;
        }
        h0 = h1;
        h1 = h2;
        k0 = k1;
        k1 = k2;
    }
    let v = h1 as f64 / k1 as f64;
    if (v - x).abs() <= tol { Some(Rational::from((h1, k1))) } else { None }
}

pub fn rat(n: i64, d: i64) -> Rational {
    Rational::from((n, d))
}

pub fn pow2(k: i32) -> Rational {
    if k >= 0 { Rational::from(Integer::from(1) << (k as u32)) } else { Rational::from((Integer::from(1), Integer::from(1) << ((-k) as u32))) }
}

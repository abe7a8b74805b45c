//! Shared machinery: deterministic PRNG, budgeted case runner, shrinking.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/// A failing case. `known` names the class of a recorded finding, if the
/// failure is exactly of that class.
#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub known: Option<&'static str>,
}
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), known: None })
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::common::Fail { msg: format!($($t)*), known: None }); } };
}

thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        LAST.with(|l| *l.borrow_mut() = s);
    }));
}

/// Run one case, turning a panic of the code under test into a failure.
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => fail(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}

// ---- watchdog ---------------------------------------------------------------------------------
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
static CASE: AtomicU64 = AtomicU64::new(0);
static TRACE: Mutex<String> = Mutex::new(String::new());
static INPUT: Mutex<Option<Box<dyn Fn() -> String + Send>>> = Mutex::new(None);
static FAMILY: Mutex<String> = Mutex::new(String::new());

struct SendBox<I>(I);
// Safety: only formatted by the watchdog, after the thread that owns the original is stuck.
unsafe impl<I> Send for SendBox<I> {}

/// A case that runs longer than `limit` seconds is reported as a failure (it does not terminate) and ends the
/// process.  With a trace file, every input is written to it before it is run, so that the input of an abort is
/// known.
pub fn watchdog(search: &str, trace: &str, limit: u64) {
    *TRACE.lock().unwrap() = trace.to_string();
    let search = search.to_string();
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let c = CASE.load(Relaxed);
            if c != last {
                last = c;
                since = Instant::now();
            } else if c % 2 == 1 && since.elapsed() > Duration::from_secs(limit) {
                let input = INPUT.lock().unwrap().as_ref().map_or(String::new(), |f| f());
                println!(
                    "{{\"search\":\"{}\",\"cases\":{},\"families\":[],\"known\":[],\"failure\":{{\"family\":\"{}\",\"case\":-1,\"input\":\"{}\",\"message\":\"does not terminate within {} s\"}}}}",
                    search, c / 2, FAMILY.lock().unwrap(), json_escape(&input), limit
                );
                std::process::exit(1);
            }
        }
    });
}
fn enter<I: std::fmt::Debug + Clone + 'static>(input: &I) {
    let t = TRACE.lock().unwrap();
    if !t.is_empty() {
        let _ = std::fs::write(&*t, format!("{:?}", input));
    }
    drop(t);
    let b = SendBox(input.clone());
    *INPUT.lock().unwrap() = Some(Box::new(move || {
        let r = &b;
        format!("{:?}", r.0)
    }));
    CASE.store(CASE.load(Relaxed) | 1, Relaxed);
}
fn leave() {
    CASE.store((CASE.load(Relaxed) | 1) + 1, Relaxed);
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub deadline: Instant,
    pub start: Instant,
    pub cases: u64,
    pub families: Vec<(String, u64, String)>,
    pub known: Vec<(String, String)>, // class, example
    pub allowed: Vec<String>,
    pub failure: Option<(String, u64, String, String)>, // family, case, input, msg
    /// run only this case of this family (replay)
    pub only: Option<(String, u64)>,
    /// enumerated families run in the first of several processes only
    pub shard: u64,
}
impl Ctx {
    pub fn left(&self) -> bool {
        self.failure.is_none() && (self.only.is_some() || Instant::now() < self.deadline)
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    /// An enumerated family: the same in every process, so only the first one runs it.
    pub fn exhaustive<I: Clone + std::fmt::Debug + 'static>(
        &mut self,
        name: &str,
        cases: u64,
        share: f64,
        gen: impl FnMut(u64) -> Option<I>,
        check: impl Fn(&I) -> Res,
        shrink: impl Fn(&I) -> Vec<I>,
    ) {
        if self.shard == 0 || self.only.is_some() {
            self.family(name, cases, share, gen, check, shrink);
        }
    }
    /// Budget: at most `cases` cases and at most the fraction of remaining time.
    pub fn family<I: Clone + std::fmt::Debug + 'static>(
        &mut self,
        name: &str,
        cases: u64,
        share: f64,
        mut gen: impl FnMut(u64) -> Option<I>,
        check: impl Fn(&I) -> Res,
        shrink: impl Fn(&I) -> Vec<I>,
    ) {
        if !self.left() || self.only.as_ref().map_or(false, |o| o.0 != name) {
            return;
        }
        *FAMILY.lock().unwrap() = name.to_string();
        let now = Instant::now();
        let end = now + Duration::from_secs_f64((self.deadline.max(now) - now).as_secs_f64() * share);
        let mut n = 0;
        let mut sample = String::new();
        while n < cases && (n & 15 != 0 || self.only.is_some() || Instant::now() < end) {
            let Some(input) = gen(n) else { break };
            n += 1;
            if let Some((_, k)) = &self.only {
                if n - 1 < *k {
                    continue;
                }
                if n - 1 > *k {
                    break;
                }
            }
            if n == 16 || (n < 16 && sample.is_empty()) {
                sample = format!("{:?}", input);
            }
            enter(&input);
            let r = guarded(|| check(&input));
            leave();
            if let Err(e) = r {
                if let Some(k) = e.known {
                    if self.allowed.iter().any(|a| a == k) {
                        if !self.known.iter().any(|(c, _)| c == k) {
                            self.known.push((k.to_string(), format!("{:?} :: {}", input, e.msg)));
                        }
                        continue;
                    }
                }
                let (input, e) = self.shrink(input, e, &check, &shrink);
                self.failure = Some((name.to_string(), n - 1, format!("{:?}", input), e.msg));
                break;
            }
        }
        self.cases += n;
        self.families.push((name.to_string(), n, sample));
    }
    fn shrink<I: Clone + std::fmt::Debug + 'static>(
        &self,
        mut input: I,
        mut e: Fail,
        check: &impl Fn(&I) -> Res,
        shrink: &impl Fn(&I) -> Vec<I>,
    ) -> (I, Fail) {
        let t0 = Instant::now();
        'outer: loop {
            if t0.elapsed() > Duration::from_secs(10) {
                break;
            }
            for c in shrink(&input) {
                enter(&c);
                let r = guarded(|| check(&c));
                leave();
                if let Err(e2) = r {
                    let is_known = e2.known.map_or(false, |k| self.allowed.iter().any(|a| a == k));
                    if !is_known {
                        input = c;
                        e = e2;
                        continue 'outer;
                    }
                }
            }
            break;
        }
        (input, e)
    }
}

/// Standard shrinker for vectors: drop one element.
pub fn drop_one<T: Clone>(v: &Vec<T>) -> Vec<Vec<T>> {
    let mut out = vec![];
    if v.len() > 8 {
        out.push(v[..v.len() / 2].to_vec());
        out.push(v[v.len() / 2..].to_vec());
    }
    for i in 0..v.len() {
        let mut w = v.clone();
        w.remove(i);
        out.push(w);
    }
    out
}

pub fn json_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

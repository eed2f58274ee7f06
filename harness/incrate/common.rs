// Shared machinery of the monitors: seeded randomness, case runner with panic capture, evidence.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec::Vec;

pub use rand_chacha::ChaCha20Rng as Rng;
pub use rand_core::{CryptoRng, CryptoRngCore, RngCore, SeedableRng};

pub fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|x| x.parse().ok()).unwrap_or(default)
}
pub fn seed() -> u64 {
    env_u64("VERIF_SEED", 1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough")
}
/// Number of cases: quick or thorough.
pub fn scale(q: u64, t: u64) -> u64 {
    if thorough() {
        t
    } else {
        q
    }
}

/// A generator for a case, depending on the run seed, a label and an index only.
pub fn rng_for(label: &str, idx: u64) -> Rng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed().to_le_bytes());
    s[8..16].copy_from_slice(&idx.to_le_bytes());
    let mut h = 0xcbf29ce484222325u64;
    for b in label.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    s[16..24].copy_from_slice(&h.to_le_bytes());
    Rng::from_seed(s)
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Default)]
pub struct State {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub violations: Vec<(String, String, String)>, // (signature, kind, detail)
    pub known: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    pub inconclusive: Vec<String>,
}

pub struct Ctx {
    pub id: &'static str,
    pub st: Mutex<State>,
    pub known_list: Vec<String>,
    pub start: std::time::Instant,
    pub budget: f64,
}

std::thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(std::boxed::Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...[{} chars]", &s[..k], s.len())
    }
}

impl Ctx {
    pub fn new(id: &'static str) -> Self {
        install_panic_hook();
        let known_list = std::env::var("VERIF_KNOWN")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.trim();
                let rest = l.strip_prefix("known:")?.trim();
                let rest = rest.strip_prefix(&format!("property={} ", id))?;
                let sig = rest.split(" :: ").next().unwrap_or("").trim();
                Some(sig.to_string())
            })
            .collect();
        Ctx {
            id,
            st: Mutex::new(State::default()),
            known_list,
            start: std::time::Instant::now(),
            budget: env_u64("VERIF_BUDGET_S", if thorough() { 700 } else { 60 }) as f64,
        }
    }
    /// Only used to stop *starting* new cases early on a slow machine, never for a verdict.
    pub fn time_left(&self) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget
    }
    pub fn count(&self, what: &str) {
        self.count_n(what, 1)
    }
    /// Something observed that is not an evaluation of its own.
    pub fn measure(&self, key: &str, n: u64) {
        self.count_n(&format!("measured: {}", key), n);
    }
    pub fn count_n(&self, what: &str, n: u64) {
        *self.st.lock().unwrap().counts.entry(what.to_string()).or_default() += n;
    }
    pub fn distinct(&self, sig: &[u8]) {
        let h = fnv(sig);
        self.st.lock().unwrap().distinct.insert(h);
    }
    pub fn sample(&self, kind: &str, s: impl Into<String>) {
        let mut st = self.st.lock().unwrap();
        let v = st.samples.entry(kind.to_string()).or_default();
        if v.len() < 2 {
            v.push(short(&s.into(), 400));
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        let mut st = self.st.lock().unwrap();
        if !st.notes.contains(&s) && st.notes.len() < 100 {
            st.notes.push(s);
        }
    }
    pub fn inconclusive(&self, s: impl Into<String>) {
        let s = s.into();
        let mut st = self.st.lock().unwrap();
        if !st.inconclusive.contains(&s) {
            st.inconclusive.push(s);
        }
    }
    /// `sig` identifies the specific failing input class/call site (used for the known-findings file).
    pub fn violation(&self, sig: &str, kind: &str, detail: impl Into<String>) {
        let mut st = self.st.lock().unwrap();
        if self.known_list.iter().any(|k| k == sig) {
            *st.known.entry(sig.to_string()).or_default() += 1;
            return;
        }
        if st.violations.len() < 200 && st.violations.iter().filter(|v| v.0 == sig).count() < 5 {
            st.violations.push((sig.to_string(), kind.to_string(), detail.into()));
        }
    }
    /// One monitored case on *valid* input: an Err or a panic is a violation.
    /// `sig` of the case = kind.
    pub fn case(&self, kind: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.count(kind);
        match no_panic(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.violation(kind, kind, format!("{} | input: {}", e, input())),
            Err(p) => self.violation(kind, kind, format!("panic: {} | input: {}", p, input())),
        }
    }
    /// Runs `n` indexed cases over all cores; `f(idx)`.
    pub fn par(&self, n: u64, f: impl Fn(u64) + Sync) {
        let next = std::sync::atomic::AtomicU64::new(0);
        let threads = env_u64("VERIF_THREADS", std::thread::available_parallelism().map_or(4, |x| x.get() as u64));
        std::thread::scope(|s| {
            for _ in 0..threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= n || !self.time_left() {
                            break;
                        }
                        if let Err(p) = no_panic(|| f(i)) {
                            self.violation(
                                "uncaught-panic",
                                "panic in library or harness",
                                format!("case {}: {}", i, p),
                            );
                        }
                    })
                    .unwrap();
            }
        });
    }
    /// Prints the machine-readable result; the exit code is decided by run.py.
    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
        let st = self.st.lock().unwrap();
        let total: u64 = st.counts.iter().filter(|(k, _)| !k.starts_with("measured: ")).map(|(_, v)| v).sum();
        let mut samples = vec![];
        for (k, v) in &st.samples {
            for s in v {
                samples.push(serde_json::json!({ "kind": k, "case": s }));
            }
        }
        let viol: Vec<_> = st
            .violations
            .iter()
            .map(|(s, k, d)| serde_json::json!({"sig": s, "kind": k, "detail": short(d, 4000)}))
            .collect();
        let out = serde_json::json!({
            "property": self.id,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": seed(),
            "evaluations": total,
            "distinct": st.distinct.len(),
            "counts": st.counts,
            "rule": rule,
            "samples": samples,
            "violations": viol,
            "known": st.known,
            "notes": st.notes,
            "inconclusive": st.inconclusive,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        println!("RESULT {}", out);
        0
    }
}

pub fn hexs(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s += &format!("{:02x}", x);
    }
    s
}

/// Runs `f` on a thread with a large stack.
pub fn big_stack(f: impl FnOnce() -> i32 + Send) -> i32 {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap_or(3)
    })
}

std::thread_local! {
    /// Set while an observer of memory releases is active on this thread.
    pub static WATCHING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// The harness's own conversions of secrets, not to be observed.
pub fn unwatched<T>(f: impl FnOnce() -> T) -> T {
    let old = WATCHING.with(|w| w.replace(false));
    let r = f();
    WATCHING.with(|w| w.set(old));
    r
}

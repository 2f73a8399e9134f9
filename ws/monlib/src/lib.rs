//! Shared machinery of the monitors: seeded randomness, evidence, verdicts, known findings,
//! panic capture and a CPU-time watchdog.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub use serde_json::{json, Value};

pub mod poseidon;
pub mod refvm;
pub mod rng;
pub use rng::Rng;

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: RefCell<u32> = const { RefCell::new(0) };
}

/// The property being monitored, and the directory of the results.
static RUNNING: std::sync::OnceLock<(String, String)> = std::sync::OnceLock::new();

/// Runs `f` on the code under observation; a panic becomes `Err(message @ location)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| {
        PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{msg} @ {loc}")));
        if std::env::var_os("MON_BT").is_some() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); }
        if CATCHING.with(|c| *c.borrow() == 0) {
            old(info);
            // A crash outside every guard, not in a monitor's own source: the observed code stopped the run.
            let own = info.location().map_or(true, |l| l.file().contains("/ws/mon") || l.file().starts_with("mon"));
            if let (false, Some((id, root))) = (own, RUNNING.get()) {
                let dir = format!("{root}/out/{id}");
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/violation-crash.txt");
                let _ = std::fs::write(&path, format!("property={id}\nsignature=crash\n\n{msg} @ {loc}\n{}\n", std::backtrace::Backtrace::force_capture()));
                println!("[{id}] crash (x1): {msg} @ {loc}");
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
    }));
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x1_0000_0000_01b3);
    }
    h
}

/// Shorthand for a hash of anything printable.
pub fn hash_dbg<T: std::fmt::Debug>(t: &T) -> u64 { fnv(format!("{t:?}").as_bytes()) }

#[derive(Default)]
struct Inner {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: BTreeMap<String, (u64, String)>,
    known_seen: BTreeMap<String, u64>,
    assumptions: Vec<String>,
}

pub struct Mon {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub root: String,
    start: Instant,
    known: Vec<(String, String)>,
    inner: Mutex<Inner>,
}

static CASE_START_CPU_MS: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE: Mutex<String> = Mutex::new(String::new());

fn cpu_ms() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

impl Mon {
    pub fn new(id: &str) -> Mon {
        install_hook();
        let root = std::env::var("VERIF").unwrap_or_else(|_| "/verif".into());
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let _ = RUNNING.set((id.to_string(), root.clone()));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for l in s.lines() {
                // known: property=<id> sig=<signature> | <description>
                if let Some(r) = l.strip_prefix("known: property=") {
                    if let Some((pid, r)) = r.split_once(" sig=") {
                        if pid == id {
                            let (sig, desc) = r.split_once(" | ").unwrap_or((r, ""));
                            known.push((sig.trim().to_string(), desc.trim().to_string()));
                        }
                    }
                }
            }
        }
        Mon {
            id: id.into(),
            tier: if tier == "thorough" { tier } else { "quick".into() },
            seed,
            root,
            start: Instant::now(),
            known,
            inner: Mutex::new(Inner::default()),
        }
    }

    pub fn thorough(&self) -> bool { self.tier == "thorough" }

    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough() { thorough } else { quick };
        match std::env::var("MON_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64) * f).ceil() as u64,
            None => n,
        }
    }

    /// Wall-clock budget; used only to stop generating more cases, never as a verdict.
    pub fn within(&self, quick_s: u64, thorough_s: u64) -> bool {
        self.start.elapsed().as_secs() < if self.thorough() { thorough_s } else { quick_s }
    }

    pub fn rng(&self, stream: u64) -> Rng { Rng::new(self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ fnv(self.id.as_bytes()) ^ stream.wrapping_mul(0xD134_2543_DE82_EF95)) }

    pub fn eval(&self) { self.inner.lock().unwrap().evals += 1; }

    pub fn evals(&self, n: u64) { self.inner.lock().unwrap().evals += n; }

    pub fn nontrivial(&self, h: u64) { self.inner.lock().unwrap().distinct.insert(h); }

    pub fn nontrivials(&self, it: impl IntoIterator<Item = u64>) {
        self.inner.lock().unwrap().distinct.extend(it);
    }

    pub fn count(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(k.into()).or_default() += n;
    }

    pub fn counter(&self, k: &str) -> u64 {
        self.inner.lock().unwrap().counters.get(k).copied().unwrap_or(0)
    }

    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 6 {
            i.samples.push(v);
        }
    }

    pub fn assume(&self, s: &str) { self.inner.lock().unwrap().assumptions.push(s.into()); }

    /// A violation. `sig` identifies what failed (stable across runs); `detail` replays it.
    pub fn violation(&self, sig: &str, detail: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        if self.known.iter().any(|(s, _)| s == sig) {
            *i.known_seen.entry(sig.into()).or_default() += 1;
            return;
        }
        let e = i.violations.entry(sig.into()).or_insert((0, detail.into()));
        e.0 += 1;
    }

    pub fn violated(&self) -> bool { !self.inner.lock().unwrap().violations.is_empty() }

    pub fn violation_count(&self) -> u64 {
        self.inner.lock().unwrap().violations.values().map(|v| v.0).sum()
    }

    /// Starts the watchdog: a single case burning `cpu_s` seconds of CPU time (millions of times
    /// its normal cost) is reported as non-termination.
    pub fn watchdog(self: &std::sync::Arc<Self>, cpu_s: u64, rule: &'static str) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = CASE_START_CPU_MS.load(Ordering::SeqCst);
            if s != u64::MAX && cpu_ms().saturating_sub(s) > cpu_s * 1000 {
                let case = CASE.lock().unwrap().clone();
                me.violation("non-termination", format!("no answer after {cpu_s} s of CPU time: {case}"));
                me.finish(rule);
            }
        });
    }

    /// Marks the start of a watched case.
    pub fn case(&self, desc: impl FnOnce() -> String) {
        *CASE.lock().unwrap() = desc();
        CASE_START_CPU_MS.store(cpu_ms(), Ordering::SeqCst);
    }

    pub fn case_end(&self) { CASE_START_CPU_MS.store(u64::MAX, Ordering::SeqCst); }

    /// Writes evidence, prints verdict lines and exits.
    pub fn finish(&self, rule: &str) -> ! {
        let i = self.inner.lock().unwrap();
        let mut code = 0;
        let dir = format!("{}/out/{}", self.root, self.id);
        let _ = std::fs::create_dir_all(&dir);
        for (sig, desc) in &self.known {
            let n = i.known_seen.get(sig).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {sig} {desc} (observed {n} times in this run)", self.id);
        }
        for (k, (sig, (n, detail))) in i.violations.iter().enumerate() {
            let path = format!("{dir}/violation-{k}.txt");
            let _ = std::fs::write(
                &path,
                format!("property={}\nsignature={sig}\nseed={}\ntier={}\noccurrences={n}\n\n{detail}\n", self.id, self.seed, self.tier),
            );
            let head: String = detail.chars().take(600).collect();
            println!("[{}] {sig} (x{n}): {head}", self.id);
            if k < 5 {
                println!("VIOLATION property={} replay={path}", self.id);
            }
            code = 1;
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(i.evals));
        cov.insert("distinct_nontrivial".into(), json!(i.distinct.len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(i.samples));
        cov.insert("observed".into(), json!(i.counters));
        let ev = json!({
            "property": self.id, "tier": self.tier, "seed": self.seed as i64, "level": "exploration",
            "coverage": cov, "assumptions": i.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": i.violations.len(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        let p = format!("{}/evidence/{}.json", self.root, self.id);
        if std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            eprintln!("cannot write {p}");
            std::process::exit(3);
        }
        println!("[{}] evaluations={} distinct={} observed={:?} wall={:.1}s", self.id, i.evals, i.distinct.len(), i.counters, self.start.elapsed().as_secs_f64());
        // a run that observed nothing is inconclusive, not a pass
        if code == 0 && (i.evals == 0 || i.distinct.is_empty()) {
            eprintln!("[{}] inconclusive: nothing observed", self.id);
            code = 4;
        }
        std::process::exit(code);
    }
}

/// Runs `f(worker, rng)` on all cores.
pub fn parallel(workers: u64, f: impl Fn(u64) + Sync) {
    std::thread::scope(|s| {
        for w in 0..workers {
            let f = &f;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || f(w))
                .unwrap();
        }
    });
}

pub fn cores() -> u64 {
    std::thread::available_parallelism().map_or(4, |n| n.get() as u64).min(8)
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

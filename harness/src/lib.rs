//! Monitor runtime shared by all checks: seeded generation, event accounting, verdicts, evidence.
pub mod gen;
pub mod http;
pub mod pipe;
pub mod rig;
pub mod wire;

use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub use gen::Rng;

static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
static LAST: OnceLock<Arc<Mon>> = OnceLock::new();

#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    sample_kinds: BTreeSet<String>,
    counters: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    known: BTreeMap<String, String>,
    inconclusive: Vec<String>,
    stage: String,
}

pub struct Mon {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    inner: Mutex<Inner>,
    beat: AtomicU64,
    stop: AtomicBool,
    first_fail: OnceLock<Instant>,
    known: BTreeMap<String, String>,
    root: String,
}

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn load_known(root: &str, id: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    for line in text.lines() {
        // known: property=C10 sig=<exact signature> :: what fails
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let Some((pid, rest)) = rest.split_once(" sig=") else { continue };
        let (sig, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
        if pid == id {
            out.insert(sig.trim().to_string(), what.trim().to_string());
        }
    }
    out
}

impl Mon {
    pub fn rng(&self, salt: &str) -> Rng {
        let mut h = DefaultHasher::new();
        self.seed.hash(&mut h);
        self.id.hash(&mut h);
        salt.hash(&mut h);
        Rng::new(h.finish())
    }
    /// quick / thorough sizes
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn stage(&self, s: &str) {
        self.inner.lock().unwrap().stage = s.to_string();
        self.tick();
        if std::env::var("MON_VERBOSE").is_ok() {
            eprintln!("[{:8.3}] {}", self.start.elapsed().as_secs_f64(), s);
        }
    }
    pub fn tick(&self) {
        self.beat.fetch_add(1, Ordering::Relaxed);
    }
    /// One evaluated case; `key` identifies it, `nontrivial` by the check's rule.
    pub fn case(&self, key: impl Hash, nontrivial: bool) {
        self.tick();
        let mut h = DefaultHasher::new();
        key.hash(&mut h);
        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        if nontrivial {
            i.distinct.insert(h.finish());
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        match i.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                i.counters.insert(name.to_string(), n);
            },
        }
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        let e = i.counters.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Keep the first sample of each kind (at most 12 kinds).
    pub fn sample(&self, kind: &str, f: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 && !i.sample_kinds.contains(kind) {
            i.sample_kinds.insert(kind.to_string());
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            i.samples.push(format!("{kind}: {s}"));
        }
    }
    /// Records a broken oracle. `sig` names the failure class exactly (used for known findings).
    pub fn fail(&self, sig: &str, detail: impl std::fmt::Display) {
        let mut d = detail.to_string();
        if d.len() > 4000 {
            let mut k = 4000;
            while !d.is_char_boundary(k) {
                k -= 1;
            }
            d.truncate(k);
        }
        let mut i = self.inner.lock().unwrap();
        if self.known.contains_key(sig) {
            i.known.entry(sig.to_string()).or_insert(d);
            return;
        }
        if std::env::var("MON_VERBOSE").is_ok() {
            eprintln!("FAIL {sig}: {d}");
        }
        if i.violations.len() < 50 {
            i.violations.push((sig.to_string(), d));
        }
        let _ = self.first_fail.set(Instant::now());
        if i.violations.len() >= 25 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(sig, detail());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, got: &T, want: &T, sig: &str, ctx: impl FnOnce() -> String) -> bool {
        self.check(got == want, sig, || format!("got {got:?}, want {want:?}; {}", ctx()))
    }
    pub fn inconclusive(&self, what: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        if i.inconclusive.len() < 20 {
            i.inconclusive.push(what.into());
        }
    }
    /// Enough violations collected, or time used up: workloads stop early.
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
            || self.first_fail.get().is_some_and(|t| t.elapsed() > Duration::from_secs(20))
            || (!self.thorough && self.start.elapsed() > Duration::from_secs(500))
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.contains_key(sig)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Runs code that may panic; a panic is a violation of the property.
    pub fn guard<R>(&self, sig: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail(sig, format!("panic: {msg}; {}", ctx()));
                None
            },
        }
    }
    fn finish(&self, rule: &str) -> i32 {
        for (loc, msg) in PANICS.lock().unwrap().drain(..) {
            let file = loc.split(':').next().unwrap_or("").to_string();
            if file.starts_with("/repo/") {
                let sig = format!("panic:{}", file.trim_start_matches("/repo/"));
                let known = self.known.contains_key(&sig);
                let dup = self.inner.lock().unwrap().violations.iter().any(|(s, _)| *s == sig);
                if known || !dup {
                    self.fail(&sig, format!("panic inside the code under test at {loc}: {msg}"));
                }
            }
        }
        let i = self.inner.lock().unwrap();
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(i.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(i.distinct.len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(i.samples));
        cov.insert("observed".into(), json!(i.counters));
        cov.insert("inconclusive".into(), json!(i.inconclusive));
        cov.insert("known_findings_seen".into(), json!(i.known.keys().collect::<Vec<_>>()));
        let ev = json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "exploration", "coverage": Value::Object(cov),
            "assumptions": ["the harness's reference models and oracles (see DESIGN.md)", "dependencies of pmcp and the Rust standard library behave as documented"],
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": i.violations.len(),
        });
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        println!("{} {}: {} evaluations, {} distinct non-trivial, {:?}", self.id, if self.thorough {"thorough"} else {"quick"}, i.evaluations, i.distinct.len(), i.counters);
        for (sig, d) in &i.known {
            let what = &self.known[sig];
            println!("KNOWN-FINDING: property={} {} [sig={}]", self.id, if what.is_empty() { d.as_str() } else { what.as_str() }, sig);
        }
        for s in &i.inconclusive {
            println!("INCONCLUSIVE: {s}");
        }
        if i.violations.is_empty() {
            return 0;
        }
        let rdir = format!("{dir}/replay");
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{}.json", self.id);
        let rep = json!({"property": self.id, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"}, "stage": i.stage,
            "violations": i.violations.iter().map(|(s,d)| json!({"signature": s, "detail": d})).collect::<Vec<_>>(),
            "replay_cmd": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/run.sh {}", self.seed, if self.thorough {"thorough"} else {"quick"}, self.id)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        let mut shown = BTreeSet::new();
        for (s, d) in &i.violations {
            if shown.insert(s.clone()) {
                println!("  {s}: {}", d.chars().take(600).collect::<String>());
            }
        }
        println!("VIOLATION property={} replay={}", self.id, path);
        1
    }
}

/// One check: id, what a case is and when it is non-trivial, body.
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&Arc<Mon>),
}

pub fn main(checks: &[Check]) {
    let id = std::env::args().nth(1).unwrap_or_default();
    let Some(c) = checks.iter().find(|c| c.id == id) else {
        eprintln!("no such check {id}");
        std::process::exit(2);
    };
    let root = verif_root();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mon = Arc::new(Mon {
        id: id.clone(), thorough, seed, start: Instant::now(), inner: Mutex::default(), beat: AtomicU64::new(0),
        stop: AtomicBool::new(false), first_fail: OnceLock::new(), known: load_known(&root, &id), root,
    });
    let _ = LAST.set(mon.clone());
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if std::env::var("MON_VERBOSE").is_ok() || !loc.starts_with("/repo/") {
            eprintln!("panic at {loc}: {msg}");
        }
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 200 {
                p.push((loc, msg));
            }
        }
    }));
    // No-progress watchdog: a case normally takes milliseconds; 100 s without one finishing means
    // that the code under test spins or blocks forever.
    let w = mon.clone();
    let rule = c.rule;
    std::thread::spawn(move || {
        let mut last = (w.beat.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = w.beat.load(Ordering::Relaxed);
            // A violation is known and what still runs does not end: report it.
            if w.first_fail.get().is_some_and(|t| t.elapsed() > Duration::from_secs(120)) {
                std::process::exit(w.finish(rule));
            }
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(100) {
                let st = w.inner.lock().unwrap().stage.clone();
                w.fail("no-progress", format!("no case finished for 100 s in stage {st:?}"));
                std::process::exit(w.finish(rule));
            }
        }
    });
    let run = c.run;
    let m2 = mon.clone();
    let res = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(&m2)).unwrap().join();
    if let Err(e) = res {
        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let in_repo = PANICS.lock().unwrap().iter().any(|(l, _)| l.starts_with("/repo/"));
        if in_repo {
            mon.fail("workload-panic", msg);
        } else {
            eprintln!("harness panic: {msg}");
            let rc = mon.finish(c.rule);
            std::process::exit(if rc == 1 { 1 } else { 2 });
        }
    }
    std::process::exit(mon.finish(c.rule));
}

/// Current-thread runtime with a paused (virtual) clock.
pub fn vrt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
/// Current-thread runtime with the real clock.
pub fn crt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
/// Multi-threaded runtime with the real clock.
pub fn mrt(workers: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap()
}
/// Runs `f` on a fresh virtual-time runtime with a virtual deadline of 10 days: `None` means that
/// nothing else could ever make progress (the virtual clock only advances when every task is idle).
pub fn virtually<F: std::future::Future>(f: F) -> Option<F::Output> {
    let rt = vrt();
    let out = rt.block_on(async { tokio::time::timeout(Duration::from_secs(864_000), f).await.ok() });
    rt.shutdown_background();
    out
}
/// Lets other ready tasks run.
pub async fn settle() {
    for _ in 0..64 {
        tokio::task::yield_now().await;
    }
}
/// Real-clock progress deadline: generous (60 s) bound for something that takes milliseconds.
pub async fn within<F: std::future::Future>(f: F) -> Option<F::Output> {
    tokio::time::timeout(Duration::from_secs(60), f).await.ok()
}

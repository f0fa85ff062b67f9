//! Shared driver of the bounded exhaustive checks: case bookkeeping, evidence, replay, known findings.
//!
//! A check enumerates *cases*.  A case has a key that describes it completely (given VERIF_SEED), so that
//! `--replay FILE` can run that single case again.  Nothing is sampled.

use serde_json::{json, Map, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

pub use serde_json;

const SHARDS: usize = 64;

#[derive(Clone)]
pub struct Known {
    pub key: String,
    pub failure: String,
    pub what: String,
}

struct Violation {
    key: String,
    detail: String,
    path: PathBuf,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<Value>,
    root: PathBuf,
    start: Instant,
    steps: AtomicU64,
    traces: AtomicU64,
    cases: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    extra: Mutex<Map<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    outside: Mutex<Option<String>>,
    running: Mutex<BTreeMap<u64, (String, Instant)>>,
    next_run: AtomicU64,
    pub case_limit: Duration,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}

static HOOK: Once = Once::new();

fn install_hook() {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let quiet = QUIET.with(|q| *q.borrow() > 0);
            let msg = payload_text(info.payload());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {} at {}", msg, loc)));
            if !quiet {
                old(info);
            }
        }));
    });
}

fn payload_text(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-text panic".into()
    }
}

/// Runs `f`; a panic becomes `Err` with its text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|p| {
        LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_else(|| format!("panic: {}", payload_text(&*p)))
    })
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// `*` matches any run of characters.
pub fn glob(pat: &str, s: &str) -> bool {
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == s;
    }
    if !s.starts_with(parts[0]) {
        return false;
    }
    let mut pos = parts[0].len();
    for p in &parts[1..parts.len() - 1] {
        match s[pos..].find(p) {
            Some(i) => pos += i + p.len(),
            None => return false,
        }
    }
    let last = parts[parts.len() - 1];
    s.len() >= pos + last.len() && s.ends_with(last)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn short_hex(b: &[u8]) -> String {
    if b.len() <= 24 {
        hex(b)
    } else {
        format!("{}..{} ({} bytes)", hex(&b[..10]), hex(&b[b.len() - 6..]), b.len())
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Deterministic bytes: key material that parametrises a bounded space (never used to choose what to explore).
pub struct Bytes(u64);
impl Bytes {
    pub fn new(seed: u64, label: &str) -> Self {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in label.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Bytes(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn vec(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
}

impl Ctx {
    /// `args`: ID [--replay FILE]
    pub fn from_args() -> Arc<Ctx> {
        Ctx::from_list(std::env::args().skip(1).collect())
    }
    pub fn from_list(args: Vec<String>) -> Arc<Ctx> {
        let mut args = args.into_iter();
        let id = args.next().unwrap_or_else(|| {
            eprintln!("usage: <property id> [--replay file]");
            std::process::exit(2)
        });
        let mut replay = None;
        while let Some(a) = args.next() {
            if a == "--replay" {
                let f = args.next().expect("--replay FILE");
                let t = std::fs::read_to_string(&f).expect("replay file");
                replay = Some(serde_json::from_str(&t).expect("replay file is JSON"));
            }
        }
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let known = load_known(&root, &id);
        install_hook();
        let ctx = Arc::new(Ctx {
            id,
            thorough: tier == "thorough",
            seed,
            replay,
            root,
            start: Instant::now(),
            steps: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
            extra: Mutex::new(Map::new()),
            assumptions: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            outside: Mutex::new(None),
            running: Mutex::new(BTreeMap::new()),
            next_run: AtomicU64::new(0),
            case_limit: Duration::from_secs(180),
        });
        let w = Arc::downgrade(&ctx);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let Some(c) = w.upgrade() else { return };
            let hung = {
                let r = c.running.lock().unwrap();
                r.values().find(|(_, t)| t.elapsed() > c.case_limit).map(|(k, _)| k.clone())
            };
            if let Some(k) = hung {
                c.fail(&k, &format!("did not return within {} s", c.case_limit.as_secs()), Value::Null);
                let code = c.finish();
                std::process::exit(if code == 0 { 2 } else { code });
            }
        });
        ctx
    }

    pub fn quick(&self) -> bool {
        !self.thorough
    }
    /// Picks a bound by tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn bytes(&self, label: &str) -> Bytes {
        Bytes::new(self.seed, label)
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    /// A quick check answers in time also where a change of the code has made its space much larger.
    pub fn late(&self) -> bool {
        let limit = std::env::var("MC_LATE").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
        !self.thorough && self.elapsed() > Duration::from_secs(limit)
    }
    /// Records a state; true if it was not seen before.
    pub fn state<T: Hash>(&self, t: &T) -> bool {
        let h = hash_of(t);
        self.states[(h as usize) % SHARDS].lock().unwrap().insert(h)
    }
    /// Counts calls into the real code (transitions of the explored system).
    pub fn steps(&self, n: u64) {
        self.steps.fetch_add(n, Ordering::Relaxed);
    }
    /// Counts complete executions of the real code compared with the reference model.
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn outcome(&self, s: &str) {
        let mut o = self.outcomes.lock().unwrap();
        if o.len() < 400 || o.contains_key(s) {
            *o.entry(s.to_string()).or_insert(0) += 1;
        }
    }
    pub fn outcomes_n(&self, s: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(s.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.extra.lock().unwrap().insert(k.to_string(), v);
    }
    pub fn assume(&self, s: &str) {
        let mut a = self.assumptions.lock().unwrap();
        if !a.iter().any(|x| x == s) {
            a.push(s.to_string());
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// Is this case to be run (always, unless another one is being replayed)?
    pub fn wants(&self, key: &str) -> bool {
        match &self.replay {
            None => !self.stopped(),
            Some(r) => r["key"].as_str() == Some(key),
        }
    }
    /// Runs one case. `Err` and panics are violations unless listed as known findings.
    pub fn case(&self, key: &str, f: impl FnOnce() -> Result<(), String>) -> bool {
        if !self.wants(key) {
            return true;
        }
        let n = self.next_run.fetch_add(1, Ordering::Relaxed);
        self.running.lock().unwrap().insert(n, (key.to_string(), Instant::now()));
        self.cases.fetch_add(1, Ordering::Relaxed);
        let r = match guard(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        self.running.lock().unwrap().remove(&n);
        if let Err(e) = r {
            self.fail(key, &e, Value::Null);
            return false;
        }
        true
    }
    /// Reports a failure of the property. Known findings are recorded and do not stop the check.
    pub fn fail(&self, key: &str, detail: &str, replay: Value) {
        for k in &self.known {
            if glob(&k.key, key) && glob(&k.failure, detail) {
                *self.known_hit.lock().unwrap().entry(k.what.clone()).or_insert(0) += 1;
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5 {
            let dir = self.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", self.id, v.len()));
            let doc = json!({"property": self.id, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
                "key": key, "detail": detail, "replay": replay,
                "how": format!("cd /verif && VERIF_SEED={} ./run.sh {} --replay {}", self.seed, self.id, path.display())});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            println!("VIOLATION property={} replay={}", self.id, path.display());
            println!("  case: {}", key);
            println!("  {}", detail);
            v.push(Violation { key: key.into(), detail: detail.into(), path });
        }
        self.stop.store(true, Ordering::Relaxed);
    }
    /// Applies `f` to every item on all cores.
    pub fn par<T: Sync, F: Fn(&T) + Sync>(&self, items: &[T], f: F) {
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(items.len().max(1));
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..n {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() || (self.replay.is_none() && self.stopped()) {
                        return;
                    }
                    if let Err(text) = guard(|| f(&items[i])) {
                        *self.outside.lock().unwrap() = Some(text);
                        return;
                    }
                });
            }
        });
        if self.outside.lock().unwrap().is_some() {
            panic!("a panic outside the cases");
        }
    }
    /// Runs the check.  The set-up of a check uses the code as its users do: if that panics, the property does not hold there.
    pub fn decide(&self, f: impl FnOnce()) -> i32 {
        if let Err(text) = guard(f) {
            let text = self.outside.lock().unwrap().take().unwrap_or(text);
            eprintln!("outside the cases: {}", text);
            if self.violations.lock().unwrap().is_empty() {
                if text.contains("Os {") || text.contains("unknown property") {
                    return 3;
                }
                self.fail("set-up of the cases", &text, Value::Null);
            }
        }
        self.finish()
    }
    /// Writes the evidence file, prints known findings, returns the exit code.
    pub fn finish(&self) -> i32 {
        for (w, n) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} (cases: {})", self.id, w, n);
        }
        let violations = self.violations.lock().unwrap();
        let states: u64 = self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let (steps, traces) = (self.steps.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed));
        let mut cov = Map::new();
        cov.insert("states".into(), json!(states));
        cov.insert("transitions".into(), json!(steps));
        cov.insert("traces_validated_against_impl".into(), json!(traces));
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        cov.insert("cases".into(), json!(self.cases.load(Ordering::Relaxed)));
        let o = self.outcomes.lock().unwrap();
        cov.insert("distinct_outcomes".into(), json!(o.len()));
        let mut os: Vec<(&String, &u64)> = o.iter().collect();
        os.sort_by_key(|x| std::cmp::Reverse(*x.1));
        cov.insert("outcomes".into(), Value::Object(os.iter().take(60).map(|(k, v)| ((*k).clone(), json!(v))).collect()));
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        if self.replay.is_some() {
            println!("replay: {} violation(s)", violations.len());
            return if violations.is_empty() { 0 } else { 1 };
        }
        let ev = json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "model_checking", "coverage": cov, "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": violations.len(),
        });
        let p = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&p);
        std::fs::write(p.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        println!(
            "{}: {} cases, {} states, {} transitions, {} traces, {} outcomes, {:.1}s, {} violation(s)",
            self.id, self.cases.load(Ordering::Relaxed), states, steps, traces, o.len(),
            self.start.elapsed().as_secs_f64(), violations.len()
        );
        for v in violations.iter() {
            println!("  {} | {} | {}", v.key, v.detail, v.path.display());
        }
        if violations.is_empty() { 0 } else { 1 }
    }
}

fn load_known(root: &std::path::Path, id: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(root.join("known_findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"].as_str() == Some(id))
                .map(|e| Known {
                    key: e["key"].as_str().unwrap().into(),
                    failure: e["failure"].as_str().unwrap_or("*").into(),
                    what: e["what"].as_str().unwrap().into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

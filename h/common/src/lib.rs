//! Shared runtime-monitor plumbing: seeded randomness, violation reporting, evidence.
pub use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

// ------------------------------------------------------------------ randomness
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x9e3779b97f4a7c15);
        r.u64();
        r
    }
    /// independent stream
    pub fn fork(&self, label: u64) -> Self {
        Self::new(self.0 ^ label.wrapping_mul(0xd1342543de82ef95).rotate_left(17))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        if hi_incl - lo == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut o = [0; N];
        for b in o.iter_mut() {
            *b = self.u64() as u8;
        }
        o
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /// u64 biased towards boundaries
    pub fn edgy(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => self.below(1 << 16),
            5 => self.below(1 << 33),
            _ => {
                let s = self.below(64);
                self.u64() >> s
            }
        }
    }
}

pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ panics
thread_local! {
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = Some(format!("{msg} @ {loc}")));
        if std::env::var_os("VERIF_LOUD").is_some() {
            eprintln!("panic: {msg} @ {loc}");
        }
    }));
}
/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST.with(|l| l.borrow_mut().take()).unwrap_or_else(|| "panic (no message)".into())
    })
}

// ------------------------------------------------------------------ runs that do not end as they should
static BEATS: AtomicUsize = AtomicUsize::new(0);
static RUNNING: Mutex<Vec<usize>> = Mutex::new(vec![]);
static CURRENT: Mutex<Option<(String, u64, bool)>> = Mutex::new(None);
/// seconds without any observation after which the code under test counts as not terminating
const STALL: usize = 240;

fn beat() {
    BEATS.fetch_add(1, Ordering::Relaxed);
}
/// failures of the machine, not of the code under test
fn environmental(msg: &str) -> bool {
    ["No space left", "Too many open files", "Cannot allocate", "temporarily unavailable", "Address already in use", "StorageFull", "OutOfMemory"]
        .iter()
        .any(|x| msg.contains(x))
}
/// The run cannot go on: the code under test panicked where its caller relies on it, or does not return.
fn abandon(sig: &str, detail: Value) -> ! {
    let (id, seed, quick) = CURRENT.lock().ok().and_then(|x| x.clone()).unwrap_or_default();
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(dir.join("replays"));
    let p = dir.join("replays").join(format!("{id}-{seed}-end.json"));
    let body = json!({"property": id, "seed": seed, "signature": sig, "detail": detail});
    let _ = std::fs::write(&p, body.to_string());
    let ev = json!({
        "property": id, "tier": if quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": BEATS.load(Ordering::Relaxed), "distinct_nontrivial": 0, "rule": "the run was abandoned", "samples": [sig]},
        "assumptions": [], "wall_s": 0, "violations": 1,
    });
    let _ = std::fs::write(dir.join(format!("{id}.json")), ev.to_string());
    println!("VIOLATION property={id} replay={}", p.display());
    println!("  signature: {sig}\n  {}", detail.to_string().chars().take(600).collect::<String>());
    std::process::exit(1)
}
fn watch() {
    std::thread::spawn(|| {
        let (mut last, mut idle) = (BEATS.load(Ordering::Relaxed), 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = BEATS.load(Ordering::Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle >= STALL {
                let r = RUNNING.lock().map(|x| x.clone()).unwrap_or_default();
                abandon("no termination", json!({"what": format!("nothing was observed for {STALL} s"), "scenarios under way": r}));
            }
        }
    });
}
/// Runs a whole check; a panic nobody expected ends it with a violation.
pub fn whole(f: impl FnOnce()) {
    if let Err(p) = guard(f) {
        fail(&p, json!(null))
    }
}
fn fail(p: &str, scenario: Value) -> ! {
    if environmental(p) || CURRENT.lock().map(|x| x.is_none()).unwrap_or(true) {
        println!("ERROR: the monitor itself failed: {p}");
        std::process::exit(4);
    }
    abandon("unexpected panic", json!({"what": p, "scenario": scenario}))
}

// ------------------------------------------------------------------ runs
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub rng: Rng,
    start: Instant,
    budget: Duration,
    evaluations: u64,
    distinct: HashSet<u64>,
    pub rule: String,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    violations: Vec<(String, Value)>,
    known_hits: BTreeMap<String, u64>,
    known: Vec<(String, String)>,
    assumptions: Vec<String>,
    floors: Vec<(String, u64)>,
}

fn root() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

impl Run {
    /// reads `VERIF_SEED`, `VERIF_TIER`; `quick_s`/`thorough_s` bound the exploration time.
    pub fn new(id: &str, quick_s: u64, thorough_s: u64) -> Self {
        quiet_panics();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let known = std::fs::read_to_string(root().join("known_findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v["findings"].as_array().cloned())
            .unwrap_or_default()
            .into_iter()
            .filter(|f| f["property"] == id && f["status"] == "known")
            .map(|f| {
                (
                    f["signature"].as_str().unwrap_or("").to_string(),
                    f["what"].as_str().unwrap_or("").to_string(),
                )
            })
            .collect();
        let scale = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse::<u64>().ok());
        *CURRENT.lock().unwrap() = Some((id.into(), seed, tier == Tier::Quick));
        watch();
        // quick runs end by count; the time only bounds a run on a slow or busy machine
        let secs = scale.unwrap_or(if tier == Tier::Quick { quick_s.max(300) } else { thorough_s });
        Self {
            id: id.into(),
            tier,
            seed,
            rng: Rng::new(seed.wrapping_mul(0x1000193) ^ hash64(&id)),
            start: Instant::now(),
            budget: Duration::from_secs(secs),
            evaluations: 0,
            distinct: HashSet::new(),
            rule: String::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            violations: vec![],
            known_hits: BTreeMap::new(),
            known,
            assumptions: vec![],
            floors: vec![],
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn time_left(&self) -> bool {
        beat();
        self.start.elapsed() < self.budget && self.violations.len() < 20
    }
    pub fn fraction(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.into();
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// one monitored execution; `key` identifies the case, `nontrivial` by the rule
    pub fn eval<T: Hash>(&mut self, key: &T, nontrivial: bool) {
        beat();
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(hash64(key));
        }
    }
    pub fn merge(&mut self, evals: u64, keys: HashSet<u64>) {
        self.evaluations += evals;
        self.distinct.extend(keys);
    }
    pub fn evals(&self) -> u64 {
        self.evaluations
    }
    pub fn count(&mut self, name: &str, n: u64) {
        beat();
        *self.counters.entry(name.into()).or_default() += n;
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    /// a coverage floor: fewer observed events than this is an error of the check, not a pass
    pub fn floor(&mut self, name: &str, n: u64) {
        self.floors.push((name.into(), n));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 6 {
            self.samples.push(v);
        }
    }
    pub fn violation(&mut self, sig: &str, detail: Value) {
        if self.known.iter().any(|(s, _)| s == sig) {
            *self.known_hits.entry(sig.into()).or_default() += 1;
            return;
        }
        if self.violations.iter().filter(|(s, _)| s == sig).count() < 3 {
            self.violations.push((sig.into(), detail));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            let d = detail();
            self.violation(sig, d);
        }
        ok
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    /// writes the evidence file, prints verdict lines, exits
    pub fn finish(mut self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replays"));
        if self.samples.is_empty() {
            self.samples.push(json!("(no sample recorded)"));
        }
        let mut coverage = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
        });
        for (k, v) in &self.counters {
            coverage[format!("observed:{k}")] = json!(v);
        }
        for (k, v) in &self.known_hits {
            coverage[format!("known_finding_hits:{k}")] = json!(v);
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.violations.len(),
        });
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
        for (sig, what) in &self.known {
            println!(
                "KNOWN-FINDING: property={} {} [{} hits this run; {}]",
                self.id,
                what,
                self.known_hits.get(sig).copied().unwrap_or(0),
                sig
            );
        }
        println!(
            "{}: {} monitored executions, {} distinct non-trivial, {:.1}s",
            self.id,
            self.evaluations,
            self.distinct.len(),
            wall
        );
        for (k, v) in &self.counters {
            println!("  observed {k}: {v}");
        }
        if !self.violations.is_empty() {
            for (i, (sig, d)) in self.violations.iter().enumerate() {
                let p = dir.join("replays").join(format!("{}-{}-{}.json", self.id, self.seed, i));
                let body = json!({"property": self.id, "seed": self.seed, "signature": sig, "detail": d});
                std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).expect("replay");
                println!("VIOLATION property={} replay={}", self.id, p.display());
                let s = d.to_string();
                println!("  signature: {sig}\n  {}", s.chars().take(600).collect::<String>());
            }
            std::process::exit(1);
        }
        for (name, n) in &self.floors {
            let got = self.counter(name);
            if got < *n {
                println!("ERROR: coverage floor not reached: {name} = {got} < {n}");
                std::process::exit(3);
            }
        }
        if self.evaluations == 0 {
            println!("ERROR: nothing was observed");
            std::process::exit(3);
        }
        std::process::exit(0)
    }
}
pub fn hexs(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}

// ------------------------------------------------------------------ parallel scenarios
#[derive(Default)]
pub struct Acc {
    pub index: usize,
    evals: u64,
    keys: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    violations: Vec<(usize, String, Value)>,
    samples: Vec<(usize, Value)>,
}
impl Acc {
    pub fn eval<T: Hash>(&mut self, key: &T, nontrivial: bool) {
        beat();
        self.evals += 1;
        if nontrivial {
            self.keys.insert(hash64(key));
        }
    }
    pub fn count(&mut self, n: &str, x: u64) {
        beat();
        *self.counters.entry(n.into()).or_default() += x;
    }
    pub fn violation(&mut self, sig: &str, d: Value) {
        if self.violations.iter().filter(|v| v.1 == sig).count() < 3 {
            self.violations.push((self.index, sig.into(), d));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, d: impl FnOnce() -> Value) -> bool {
        if !ok {
            let d = d();
            self.violation(sig, d);
        }
        ok
    }
    pub fn sample(&mut self, d: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push((self.index, d()));
        }
    }
}

/// A quick run goes on past its fixed share of scenarios until this long after it began, ...
const QUICK_EXTRA: Duration = Duration::from_secs(12);
/// ... or until it has done this many times its share.
const QUICK_TIMES: usize = 8;

/// Runs scenarios 0..`quick_n`, then more while there is time (quick), or until the time budget ends (thorough) on all cores;
/// scenario `i` draws from its own random stream, so it can be replayed alone (`VERIF_ONLY=i`).
pub fn scenarios(run: &mut Run, quick_n: usize, f: impl Fn(&mut Acc, usize, &mut Rng) + Sync) {
    let only: Option<usize> = std::env::var("VERIF_ONLY").ok().and_then(|s| s.parse().ok());
    let next = AtomicUsize::new(only.unwrap_or(0));
    let (stop, done) = (AtomicBool::new(false), AtomicUsize::new(0));
    let total = Mutex::new(vec![]);
    let base = run.rng.clone();
    let quick = run.quick();
    let fixed = std::env::var("VERIF_N").ok().and_then(|s| s.parse().ok());
    let (end, extra) = match only {
        Some(i) => (i + 1, i + 1),
        None if quick => (fixed.unwrap_or(quick_n), fixed.unwrap_or(quick_n.saturating_mul(QUICK_TIMES))),
        None => (usize::MAX, usize::MAX),
    };
    let began = Instant::now();
    let broken: Mutex<Option<(usize, String)>> = Mutex::new(None);
    {
        let run = &*run;
        std::thread::scope(|s| {
            for _ in 0..8 {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut a = Acc::default();
                        loop {
                            if stop.load(Ordering::Relaxed) || !run.time_left() {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= end && (i >= extra || began.elapsed() > QUICK_EXTRA) {
                                break;
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                            a.index = i;
                            RUNNING.lock().unwrap().push(i);
                            let mut r = base.fork(i as u64 + 1);
                            if let Err(p) = guard(|| f(&mut a, i, &mut r)) {
                                *broken.lock().unwrap() = Some((i, p));
                                stop.store(true, Ordering::Relaxed);
                            }
                            RUNNING.lock().unwrap().retain(|x| *x != i);
                            if a.violations.iter().filter(|v| !run.known.iter().any(|k| k.0 == v.1)).count() > 12 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        total.lock().unwrap().push(a);
                    })
                    .unwrap();
            }
        });
    }
    let done = done.into_inner();
    run.count("scenarios", done as u64);
    let mut viol = vec![];
    let mut samples = vec![];
    for a in total.into_inner().unwrap() {
        run.merge(a.evals, a.keys);
        for (k, v) in a.counters {
            run.count(&k, v);
        }
        viol.extend(a.violations);
        samples.extend(a.samples);
    }
    viol.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
    for (i, s, mut d) in viol {
        d["scenario"] = json!(i);
        run.violation(&s, d);
    }
    samples.sort_by_key(|s| s.0);
    for (_, s) in samples {
        run.sample(s);
    }
    if let Some((i, p)) = broken.into_inner().unwrap() {
        if !run.violated() {
            fail(&p, json!(i))
        }
        println!("the run was cut short in scenario {i}: {p}");
    }
}


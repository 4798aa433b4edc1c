//! Deterministic sharded property runner on top of proptest.
use crate::dict::Dict;
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

/// A failure that takes this long to see isn't shrunk.
const SLOW: Duration = Duration::from_secs(20);

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub dict: Dict,
    pub repo: PathBuf,
    pub texmo: PathBuf,
    pub aux: PathBuf,
}

/// What one shard observed.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub labels: BTreeMap<String, u64>,
    nontrivial: bool,
    keys: Vec<u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    frozen: bool,
}

impl Obs {
    pub fn label(&mut self, l: &str) {
        if !self.frozen {
            *self.labels.entry(l.to_string()).or_insert(0) += 1;
        }
    }
    pub fn label_n(&mut self, l: &str, n: u64) {
        if !self.frozen {
            *self.labels.entry(l.to_string()).or_insert(0) += n;
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    /// The current case is non-trivial by the property's rule.
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Further distinct sub-cases evaluated within this case.
    pub fn extra(&mut self, evals: u64, keys: impl IntoIterator<Item = u64>) {
        if !self.frozen {
            self.evals += evals;
            self.keys.extend(keys);
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type CheckResult = Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

const HARNESS_PREFIX: &str = "HARNESS-ERROR: ";

/// Runs the check; a panic of the code under test is a violation, a panic of
/// the harness is an error of the check.
fn guarded(f: impl FnOnce() -> CheckResult) -> CheckResult {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("panic".into(), "?".into()));
            let msg: String = msg.chars().take(600).collect();
            if loc.starts_with("src/") || loc.contains("/verif/harness/src") || loc.contains("proptest") {
                Err(format!("{HARNESS_PREFIX}{msg} at {loc}"))
            } else {
                Err(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}... ({} chars)", s.chars().count())
    }
}

pub struct Runner {
    pub ctx: Ctx,
    rule: String,
    out: PathBuf,
    replay: Option<Value>,
    regressions: Vec<(String, Value)>,
    start: Instant,
    total: Obs,
    subs: BTreeMap<String, Value>,
    violation: Option<Value>,
    errors: Vec<String>,
    notes: Vec<String>,
    scale: f64,
    only: Option<String>,
}

impl Runner {
    pub fn new(property: &str, rule: &str) -> Runner {
        install_hook();
        let mut args = std::env::args().skip(1);
        let (mut out, mut seed, mut tier, mut regr, mut replay) =
            (PathBuf::from("/dev/null"), 1u64, "quick".to_string(), None, None);
        let mut repo = PathBuf::from("/repo");
        let mut texmo = PathBuf::from("/verif/target/release/texmo");
        let mut aux = PathBuf::from("/verif");
        while let Some(a) = args.next() {
            let mut v = || args.next().expect("argument value");
            match a.as_str() {
                "--out" => out = v().into(),
                "--seed" => seed = v().parse().unwrap(),
                "--tier" => tier = v(),
                "--regressions" => regr = Some(PathBuf::from(v())),
                "--replay" => replay = Some(PathBuf::from(v())),
                "--repo" => repo = v().into(),
                "--texmo" => texmo = v().into(),
                "--aux" => aux = v().into(),
                _ => panic!("unknown argument {a}"),
            }
        }
        let read = |p: &Path| -> Value {
            serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay json")
        };
        let mut regressions = Vec::new();
        if let Some(d) = regr {
            if let Ok(rd) = std::fs::read_dir(&d) {
                let mut fs: Vec<_> = rd.flatten().map(|e| e.path()).filter(|p| p.extension().map(|e| e == "json").unwrap_or(false)).collect();
                fs.sort();
                for f in fs {
                    regressions.push((f.file_name().unwrap().to_string_lossy().to_string(), read(&f)));
                }
            }
        }
        let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Runner {
            ctx: Ctx {
                property: property.to_string(),
                seed,
                thorough: tier == "thorough",
                dict: Dict::load(&repo),
                repo,
                texmo,
                aux,
            },
            rule: rule.to_string(),
            out,
            replay: replay.map(|p| read(&p)),
            regressions,
            start: Instant::now(),
            total: Obs::default(),
            subs: BTreeMap::new(),
            violation: None,
            errors: Vec::new(),
            notes: Vec::new(),
            scale,
            only: std::env::var("VH_ONLY").ok(),
        }
    }

    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    fn fail<C: Serialize>(&mut self, sub: &str, case: &C, msg: String, origin: String) {
        if msg.starts_with(HARNESS_PREFIX) {
            self.errors.push(format!("{sub}: {msg}; case {}", truncate(&serde_json::to_string(case).unwrap_or_default(), 2000)));
        } else if self.violation.is_none() {
            self.violation = Some(json!({
                "property": self.ctx.property,
                "sub": sub,
                "seed": self.ctx.seed,
                "origin": origin,
                "message": truncate(&msg, 4000),
                "case": serde_json::to_value(case).unwrap(),
            }));
        }
    }

    fn absorb(&mut self, sub: &str, o: Obs) {
        let e = self.subs.entry(sub.to_string()).or_insert(json!({"evaluations": 0, "distinct_nontrivial": 0}));
        e["evaluations"] = (e["evaluations"].as_u64().unwrap() + o.evals).into();
        let before = self.total.distinct.len();
        self.total.evals += o.evals;
        for (k, v) in o.labels {
            *self.total.labels.entry(k).or_insert(0) += v;
        }
        let salt = hash_of(sub);
        self.total.distinct.extend(o.distinct.iter().map(|h| h ^ salt));
        let gained = (self.total.distinct.len() - before) as u64;
        e["distinct_nontrivial"] = (e["distinct_nontrivial"].as_u64().unwrap() + gained).into();
        for s in o.samples {
            if self.total.samples.iter().filter(|x| x.starts_with(sub)).count() < 4 {
                self.total.samples.push(s);
            }
        }
    }

    fn run_one<C: Serialize>(
        sub: &str,
        ctx: &Ctx,
        case: &C,
        obs: &mut Obs,
        check: &(impl Fn(&C, &Ctx, &mut Obs) -> CheckResult + Sync),
    ) -> CheckResult {
        obs.nontrivial = false;
        obs.keys.clear();
        if !obs.frozen {
            obs.evals += 1;
        }
        let t0 = Instant::now();
        let r = guarded(|| check(case, ctx, obs));
        if let Ok(f) = std::env::var("VH_SLOW") {
            // development aid: which cases take long
            if t0.elapsed().as_millis() as u64 > f.parse().unwrap_or(1000) {
                eprintln!("SLOW {:.1} s {sub} {}", t0.elapsed().as_secs_f64(), truncate(&serde_json::to_string(case).unwrap_or_default(), 600));
            }
        }
        if obs.nontrivial && !obs.frozen {
            if obs.keys.is_empty() || obs.samples.len() < 2 || obs.distinct.len() % 997 == 5 {
                let s = serde_json::to_string(case).unwrap_or_default();
                if obs.keys.is_empty() {
                    obs.distinct.insert(hash_of(&s));
                }
                if obs.samples.len() < 4 && (obs.samples.is_empty() || obs.evals > 20) {
                    obs.samples.push(format!("{sub}: {}", truncate(&s, 400)));
                }
            }
            let ks = std::mem::take(&mut obs.keys);
            obs.distinct.extend(ks);
        }
        r
    }

    /// Replays and regressions for this sub-check. Returns false if the
    /// search itself should not run.
    fn preliminaries<C>(&mut self, name: &str, check: &(impl Fn(&C, &Ctx, &mut Obs) -> CheckResult + Sync)) -> bool
    where
        C: Serialize + DeserializeOwned,
    {
        if let Some(r) = self.replay.clone() {
            if r["sub"] == name {
                let case: C = serde_json::from_value(r["case"].clone()).expect("replay case");
                let mut o = Obs::default();
                if let Err(m) = Self::run_one(name, &self.ctx, &case, &mut o, check) {
                    self.fail(name, &case, m, "replay".into());
                }
                self.absorb(name, o);
            }
            return false;
        }
        if self.violation.is_some() || !self.errors.is_empty() {
            return false;
        }
        let regs: Vec<_> = self.regressions.iter().filter(|(_, v)| v["sub"] == name).cloned().collect();
        for (fname, v) in regs {
            let case: C = match serde_json::from_value(v["case"].clone()) {
                Ok(c) => c,
                Err(e) => {
                    self.errors.push(format!("regression {fname}: {e}"));
                    return false;
                }
            };
            let mut o = Obs::default();
            let r = Self::run_one(name, &self.ctx, &case, &mut o, check);
            o.label("regression case");
            self.absorb(name, o);
            if let Err(m) = r {
                self.fail(name, &case, m, format!("regression {fname}"));
                return false;
            }
        }
        if let Some(o) = &self.only {
            return o == name;
        }
        true
    }

    /// Random search with shrinking.
    pub fn sub<C>(
        &mut self,
        name: &str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn(&Ctx) -> BoxedStrategy<C> + Sync,
        check: impl Fn(&C, &Ctx, &mut Obs) -> CheckResult + Sync,
    ) where
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
    {
        self.sub_opts(name, quick, thorough, SHARDS, 3000, strategy, check)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn sub_opts<C>(
        &mut self,
        name: &str,
        quick: u32,
        thorough: u32,
        threads: usize,
        shrink_iters: u32,
        strategy: impl Fn(&Ctx) -> BoxedStrategy<C> + Sync,
        check: impl Fn(&C, &Ctx, &mut Obs) -> CheckResult + Sync,
    ) where
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
    {
        if !self.preliminaries(name, &check) {
            return;
        }
        let t0 = Instant::now();
        let n = if self.ctx.thorough { thorough } else { quick };
        let n = ((n as f64 * self.scale) as u32).max(SHARDS as u32);
        let lowest_failed = AtomicUsize::new(usize::MAX);
        let next = AtomicUsize::new(0);
        type Found = (String, Value, String);
        let results: Mutex<Vec<(usize, Obs, Option<Found>)>> = Mutex::new(Vec::new());
        let ctx = &self.ctx;
        std::thread::scope(|s| {
            for _ in 0..threads.min(SHARDS) {
                s.spawn(|| loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    if shard >= SHARDS {
                        break;
                    }
                    let cases = n / SHARDS as u32 + u32::from((n % SHARDS as u32) as usize > shard);
                    let mut seed = [0u8; 32];
                    for (i, w) in [ctx.seed, hash_of(&(ctx.property.as_str(), name)), shard as u64, 0x5eed].iter().enumerate() {
                        seed[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
                    }
                    let cfg = Config {
                        cases,
                        failure_persistence: None,
                        max_shrink_iters: shrink_iters,
                        max_shrink_time: 90_000,
                        max_global_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                    let obs = RefCell::new(Obs::default());
                    let first = RefCell::new(String::new());
                    let slow = std::cell::Cell::new(false);
                    let strat = strategy(ctx);
                    let r = runner.run(&strat, |case| {
                        if slow.get() || lowest_failed.load(Ordering::SeqCst) < shard {
                            return Ok(());
                        }
                        let started = Instant::now();
                        let mut o = obs.borrow_mut();
                        match Self::run_one(name, ctx, &case, &mut o, &check) {
                            Ok(()) => Ok(()),
                            Err(m) => {
                                if !o.frozen {
                                    *first.borrow_mut() = m.clone();
                                    o.frozen = true;
                                }
                                slow.set(slow.get() || started.elapsed() > SLOW);
                                lowest_failed.fetch_min(shard, Ordering::SeqCst);
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    let found = match r {
                        Ok(()) => None,
                        Err(TestError::Fail(reason, case)) => Some((
                            reason.message().to_string(),
                            serde_json::to_value(&case).unwrap(),
                            first.into_inner(),
                        )),
                        Err(TestError::Abort(reason)) => Some((
                            format!("{HARNESS_PREFIX}aborted: {}", reason.message()),
                            Value::Null,
                            String::new(),
                        )),
                    };
                    results.lock().unwrap().push((shard, obs.into_inner(), found));
                });
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        for (shard, o, found) in rs {
            self.absorb(name, o);
            if let Some((mut msg, mut case, _first)) = found {
                if !msg.starts_with(HARNESS_PREFIX) && self.violation.is_none() {
                    let (t1, slow) = (Instant::now(), std::cell::Cell::new(false));
                    shorten_text(&mut case, &mut msg, |v| {
                        if slow.get() || t1.elapsed() > 3 * SLOW {
                            return None;
                        }
                        let started = Instant::now();
                        let case: C = serde_json::from_value(v.clone()).ok()?;
                        let mut o = Obs { frozen: true, ..Obs::default() };
                        let found = Self::run_one(name, &self.ctx, &case, &mut o, &check).err().filter(|m| !m.starts_with(HARNESS_PREFIX));
                        slow.set(started.elapsed() > SLOW);
                        found
                    });
                }
                self.fail(name, &case, msg, format!("search shard {shard}"));
            }
        }
        self.subs.get_mut(name).unwrap()["seconds"] = (t0.elapsed().as_secs_f64() * 10.0).round().into();
        let e = self.subs.get_mut(name).unwrap();
        e["seconds"] = (t0.elapsed().as_millis() as f64 / 1000.0).into();
    }

    /// Every case of a finite list; `shrink` proposes smaller cases.
    pub fn enumerate<C>(
        &mut self,
        name: &str,
        cases: Vec<C>,
        threads: usize,
        shrink: impl Fn(&C) -> Vec<C> + Sync,
        check: impl Fn(&C, &Ctx, &mut Obs) -> CheckResult + Sync,
    ) where
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Sync + Send + 'static,
    {
        if !self.preliminaries(name, &check) {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let lowest_failed = AtomicUsize::new(usize::MAX);
        let results: Mutex<(Vec<Obs>, Vec<(usize, String)>)> = Mutex::new((Vec::new(), Vec::new()));
        let ctx = &self.ctx;
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let mut o = Obs::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases.len() || lowest_failed.load(Ordering::SeqCst) < i {
                            break;
                        }
                        if let Err(m) = Self::run_one(name, ctx, &cases[i], &mut o, &check) {
                            lowest_failed.fetch_min(i, Ordering::SeqCst);
                            results.lock().unwrap().1.push((i, m));
                        }
                    }
                    results.lock().unwrap().0.push(o);
                });
            }
        });
        let (obs, mut fails) = results.into_inner().unwrap();
        for o in obs {
            self.absorb(name, o);
        }
        fails.sort();
        if let Some((i, m)) = fails.into_iter().next() {
            let mut case = cases[i].clone();
            let mut msg = m;
            let mut o = Obs { frozen: true, ..Obs::default() };
            let mut budget = 500;
            let t1 = Instant::now();
            'outer: loop {
                for c in shrink(&case) {
                    if budget == 0 || t1.elapsed() > 3 * SLOW {
                        break 'outer;
                    }
                    budget -= 1;
                    if let Err(m) = Self::run_one(name, &self.ctx, &c, &mut o, &check) {
                        if !m.starts_with(HARNESS_PREFIX) {
                            case = c;
                            msg = m;
                            continue 'outer;
                        }
                    }
                }
                break;
            }
            self.fail(name, &case, msg, format!("enumeration item {i}"));
        }
        let e = self.subs.get_mut(name).unwrap();
        e["seconds"] = (t0.elapsed().as_millis() as f64 / 1000.0).into();
    }

    pub fn finish(self) -> ! {
        let out = json!({
            "property": self.ctx.property,
            "seed": self.ctx.seed,
            "tier": if self.ctx.thorough { "thorough" } else { "quick" },
            "evaluations": self.total.evals,
            "distinct_nontrivial": self.total.distinct.len(),
            "rule": self.rule,
            "samples": self.total.samples,
            "labels": self.total.labels,
            "sub_checks": self.subs,
            "notes": self.notes,
            "violation": self.violation,
            "errors": self.errors,
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&out).unwrap()).expect("writing the result");
        std::process::exit(0)
    }
}

/// Removes what it can from the text of a failing case, after proptest's own
/// shrinking, which works on the parts texts are built from.
fn shorten_text(case: &mut Value, msg: &mut String, fails: impl Fn(&Value) -> Option<String>) {
    let Some(text) = case["text"].as_str() else { return };
    let mut chars: Vec<char> = text.chars().collect();
    let start = Instant::now();
    let mut step = chars.len() / 2;
    while step > 0 {
        let mut i = 0;
        let mut removed = false;
        while i < chars.len() && chars.len() > step {
            if start.elapsed().as_secs() > 45 {
                return;
            }
            let mut c = chars.clone();
            c.drain(i..(i + step).min(c.len()));
            let mut v = case.clone();
            v["text"] = c.iter().collect::<String>().into();
            match fails(&v) {
                Some(m) if !c.is_empty() => {
                    *case = v;
                    *msg = m;
                    chars = c;
                    removed = true;
                }
                _ => i += step,
            }
        }
        if !removed || step > 1 {
            step /= 2;
        }
    }
}

/// `Strategy::boxed` with a shorter name.
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}

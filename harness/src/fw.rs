//! The runner: drives a proptest strategy over a fixed number of cases on a fixed number of
//! workers, executes every case on a fresh thread whose randomness is a function of the case,
//! shrinks failures, writes replay files and counts what was covered.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
/// Processor time of one case after which it counts as not terminating (a case takes well under
/// a second, a few with the real key derivation some ten).
const CPU_LIMIT: Duration = Duration::from_secs(90);
/// Wall-clock time after which a case is given up without a verdict.
const HANG_LIMIT: Duration = Duration::from_secs(400);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a failed case reports. `sig` identifies a specific failing input or history, so that it
/// can be listed in the known-findings file.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { sig: None, msg: msg.to_string() }
    }
}
impl Fail {
    /// The check itself could not do its work: no verdict.
    pub fn error(msg: impl Into<String>) -> Self {
        Fail { sig: Some("!error".into()), msg: msg.into() }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::fw::Fail::from(format!($($a)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::fw::Fail::from(format!($($a)*))) };
}

/// Per-case coverage record.
#[derive(Default)]
pub struct Cov {
    labels: Vec<String>,
    nontrivial: bool,
    extra_evals: u64,
}
impl Cov {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Executions beyond the first inside one generated case (fault points, mutations...).
    pub fn evals(&mut self, n: u64) {
        self.extra_evals += n;
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sub: BTreeMap<String, Value>,
    exhaustive: Option<bool>,
}

pub struct Violation {
    pub sub: String,
    pub case: Value,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub replay: Option<(String, Value)>,
    pub scratch: PathBuf,
    pub known: Vec<(String, String)>,
    stats: Mutex<Stats>,
    violations: Mutex<Vec<Violation>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    errors: Mutex<Vec<String>>,
    only_sub: Option<String>,
    inflight: Arc<Mutex<BTreeMap<u64, Inflight>>>,
    next_id: AtomicU64,
    pub notes: Mutex<Vec<String>>,
}

struct Inflight {
    since: Instant,
    clock: Option<libc::clockid_t>,
    sub: String,
    case: Value,
}

fn cpu_time(c: libc::clockid_t) -> Option<Duration> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let ok = unsafe { libc::clock_gettime(c, &mut ts) } == 0;
    ok.then(|| Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32))
}

pub fn h64(bytes: &[u8]) -> u64 {
    u64::from_le_bytes(blake3::hash(bytes).as_bytes()[..8].try_into().unwrap())
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = payload_str(info.payload());
        if std::env::var_os("VH_DEBUG").is_some() {
            eprintln!("panic: {m} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} ({loc})")));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| payload_str(&*p))
    })
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: Tier, scratch: PathBuf) -> Self {
        Ctx {
            prop: prop.into(),
            seed,
            tier,
            replay: None,
            scratch,
            known: vec![],
            stats: Mutex::default(),
            violations: Mutex::default(),
            known_hit: Mutex::default(),
            errors: Mutex::default(),
            only_sub: std::env::var("VH_SUB").ok(),
            inflight: Arc::default(),
            next_id: AtomicU64::new(0),
            notes: Mutex::default(),
        }
    }

    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.tier == Tier::Quick { quick } else { thorough };
        match std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64 * f) as u64).max(1),
            None => n,
        }
    }

    pub fn error(&self, m: impl Into<String>) {
        let m = m.into();
        eprintln!("check error: {m}");
        self.errors.lock().unwrap().push(m);
    }

    pub fn note(&self, m: impl Into<String>) {
        self.notes.lock().unwrap().push(m.into());
    }

    pub fn set_exhaustive(&self, b: bool) {
        let mut s = self.stats.lock().unwrap();
        s.exhaustive = Some(s.exhaustive.unwrap_or(true) && b);
    }

    pub fn spawn_watchdog(self: &Arc<Self>, out: PathBuf) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let (mut cpu, mut wall) = (None, None);
            for i in me.inflight.lock().unwrap().values() {
                let used = i.clock.and_then(cpu_time).unwrap_or_default();
                if used > CPU_LIMIT {
                    cpu = Some((i.sub.clone(), i.case.clone()));
                } else if i.since.elapsed() > HANG_LIMIT {
                    wall = Some(i.sub.clone());
                }
            }
            if let Some((sub, case)) = cpu {
                me.violations.lock().unwrap().push(Violation {
                    sub,
                    case,
                    msg: format!("case did not terminate within {CPU_LIMIT:?} of processor time"),
                });
            } else if let Some(sub) = wall {
                me.error(format!("{sub}: no answer within {HANG_LIMIT:?}"));
            } else {
                continue;
            }
            std::process::exit(me.finish(&out, 0.0));
        });
    }

    /// Executes one case on a fresh thread with case-determined randomness.
    fn exec<T: Serialize + Sync>(
        &self,
        sub: &str,
        case: &T,
        f: &(dyn Fn(&T, &mut Cov) -> Res + Sync),
        cov: &mut Cov,
    ) -> Res {
        let v = serde_json::to_value(case).expect("case serializes");
        let bytes = serde_json::to_vec(&v).unwrap();
        let seed = h64(&bytes);
        let id = self.next_id.fetch_add(1, Ordering::Relaxed);
        self.inflight.lock().unwrap().insert(id, Inflight { since: Instant::now(), clock: None, sub: sub.to_string(), case: v });
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    let mut clock = 0;
                    if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } == 0 {
                        if let Some(i) = self.inflight.lock().unwrap().get_mut(&id) {
                            i.clock = Some(clock);
                        }
                    }
                    getrandom::verif::set(Some(seed));
                    let r = match guard(|| f(case, cov)) {
                        Ok(r) => r,
                        Err(p) => Err(Fail::from(format!("panic: {p}"))),
                    };
                    getrandom::verif::set(None);
                    r
                })
                .expect("thread")
                .join()
                .unwrap_or_else(|_| Err(Fail::from("panic in case thread")))
        });
        self.inflight.lock().unwrap().remove(&id);
        match r {
            Err(Fail { sig: Some(sig), msg }) if sig == "!error" => {
                self.error(format!("{sub}: {msg}"));
                Ok(())
            }
            Err(Fail { sig: Some(sig), msg: _ }) if self.is_known(&sig) => {
                *self.known_hit.lock().unwrap().entry(sig).or_default() += 1;
                Ok(())
            }
            r => r,
        }
    }

    fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|(p, s)| *p == self.prop && s == sig)
    }

    fn record<T: Serialize>(&self, sub: &str, case: &T, cov: Cov, st: &mut Stats) {
        st.evaluations += 1 + cov.extra_evals;
        for l in cov.labels {
            *st.labels.entry(format!("{sub}/{l}")).or_default() += 1;
        }
        if cov.nontrivial {
            let v = serde_json::to_value(case).unwrap();
            let h = h64(format!("{sub}:{v}").as_bytes());
            if st.distinct.insert(h) {
                let have = st.samples.iter().filter(|s| s["sub"] == sub).count();
                if have < 2 {
                    let mut txt = v.to_string();
                    if txt.len() > 1500 {
                        let mut n = 1500;
                        while !txt.is_char_boundary(n) {
                            n -= 1;
                        }
                        txt.truncate(n);
                        txt.push_str("...");
                        st.samples.push(json!({"sub": sub, "case_prefix": txt}));
                    } else {
                        st.samples.push(json!({"sub": sub, "case": v}));
                    }
                }
            }
        }
    }

    fn merge(&self, local: Stats) {
        let mut s = self.stats.lock().unwrap();
        s.evaluations += local.evaluations;
        s.distinct.extend(local.distinct);
        for (k, v) in local.labels {
            *s.labels.entry(k).or_default() += v;
        }
        for x in local.samples {
            if s.samples.iter().filter(|y| y["sub"] == x["sub"]).count() < 3 {
                s.samples.push(x);
            }
        }
    }

    fn wants(&self, sub: &str) -> bool {
        self.only_sub.as_deref().map_or(true, |s| s == sub)
    }

    /// Runs `cases` generated cases of `sub`, split over the workers.
    pub fn check<T, F>(&self, sub: &str, cases: u64, strat: impl Fn() -> BoxedStrategy<T> + Sync, f: F)
    where
        T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static,
        F: Fn(&T, &mut Cov) -> Res + Sync,
    {
        if let Some((rsub, v)) = &self.replay {
            if rsub == sub {
                self.replay_one(sub, v, &f);
            }
            return;
        }
        if !self.wants(sub) {
            return;
        }
        let t0 = Instant::now();
        let stop = AtomicBool::new(false);
        let workers = WORKERS.min(cases.max(1));
        std::thread::scope(|s| {
            for w in 0..workers {
                let (stop, strat, f) = (&stop, &strat, &f);
                s.spawn(move || {
                    let n = cases / workers + u64::from(w < cases % workers);
                    self.worker(sub, w, n, strat(), f, stop);
                });
            }
        });
        self.sub_done(sub, cases, t0);
    }

    fn sub_done(&self, sub: &str, cases: u64, t0: Instant) {
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var_os("VH_DEBUG").is_some() {
            eprintln!("{sub}: {cases} cases in {dt:.2}s");
        }
        self.stats
            .lock()
            .unwrap()
            .sub
            .insert(sub.into(), json!({"cases": cases, "seconds": (dt * 100.0).round() / 100.0}));
    }

    fn replay_one<T, F>(&self, sub: &str, v: &Value, f: &F)
    where
        T: Serialize + DeserializeOwned + Sync,
        F: Fn(&T, &mut Cov) -> Res + Sync,
    {
        match serde_json::from_value::<T>(v.clone()) {
            Err(e) => self.error(format!("cannot parse replay case: {e}")),
            Ok(case) => {
                let mut cov = Cov::default();
                if let Err(e) = self.exec(sub, &case, f, &mut cov) {
                    self.violations.lock().unwrap().push(Violation {
                        sub: sub.into(),
                        case: v.clone(),
                        msg: e.msg,
                    });
                }
                let mut st = Stats::default();
                self.record(sub, &case, cov, &mut st);
                self.merge(st);
            }
        }
    }

    fn worker<T, F>(&self, sub: &str, w: u64, n: u64, strat: BoxedStrategy<T>, f: &F, stop: &AtomicBool)
    where
        T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static,
        F: Fn(&T, &mut Cov) -> Res + Sync,
    {
        let mut key = [0u8; 32];
        key.copy_from_slice(
            blake3::hash(format!("{}/{}/{}/{}", self.seed, self.prop, sub, w).as_bytes()).as_bytes(),
        );
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::ChaCha, &key),
        );
        let mut local = Stats::default();
        for _ in 0..n {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    self.error(format!("{sub}: generator failed: {e}"));
                    break;
                }
            };
            let case = tree.current();
            let mut cov = Cov::default();
            let r = self.exec(sub, &case, f, &mut cov);
            self.record(sub, &case, cov, &mut local);
            if let Err(first) = r {
                if stop.swap(true, Ordering::Relaxed) {
                    break; // another worker is already shrinking a failure of this sub
                }
                // shrink
                let t0 = Instant::now();
                let (mut best, mut msg) = (case, first.msg);
                let mut iters = 0;
                if tree.simplify() {
                    loop {
                        iters += 1;
                        if iters > 600 || t0.elapsed() > Duration::from_secs(60) {
                            break;
                        }
                        let c = tree.current();
                        match self.exec(sub, &c, f, &mut Cov::default()) {
                            Err(e) => {
                                best = c;
                                msg = e.msg;
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            Ok(()) => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                self.violations.lock().unwrap().push(Violation {
                    sub: sub.into(),
                    case: serde_json::to_value(&best).unwrap(),
                    msg,
                });
                break;
            }
        }
        self.merge(local);
    }

    /// Runs an explicit list of cases (enumerations, committed regressions).
    pub fn enumerate<T, F>(&self, sub: &str, cases: Vec<T>, f: F)
    where
        T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static,
        F: Fn(&T, &mut Cov) -> Res + Sync,
    {
        if let Some((rsub, v)) = &self.replay {
            if rsub == sub {
                self.replay_one(sub, v, &f);
            }
            return;
        }
        if !self.wants(sub) {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let failed: Mutex<Option<(u64, String)>> = Mutex::new(None);
        std::thread::scope(|s| {
            for _ in 0..WORKERS.min(cases.len() as u64) {
                s.spawn(|| {
                    let mut local = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases.len() as u64 || failed.lock().unwrap().is_some() {
                            break;
                        }
                        let case = &cases[i as usize];
                        let mut cov = Cov::default();
                        let r = self.exec(sub, case, &f, &mut cov);
                        self.record(sub, case, cov, &mut local);
                        if let Err(e) = r {
                            let mut g = failed.lock().unwrap();
                            if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                *g = Some((i, e.msg));
                            }
                        }
                    }
                    self.merge(local);
                });
            }
        });
        if let Some((i, msg)) = failed.into_inner().unwrap() {
            self.violations.lock().unwrap().push(Violation {
                sub: sub.into(),
                case: serde_json::to_value(&cases[i as usize]).unwrap(),
                msg,
            });
        }
        self.sub_done(sub, cases.len() as u64, t0);
    }

    /// Writes evidence and replay files into `out`, prints the verdict lines, returns exit code.
    pub fn finish(&self, out: &PathBuf, wall: f64) -> i32 {
        let (rule, level) = crate::props::describe(&self.prop);
        let viols = self.violations.lock().unwrap();
        let errors = self.errors.lock().unwrap();
        let st = self.stats.lock().unwrap();
        for (sig, n) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({} cases)", self.prop, sig, n);
        }
        if self.replay.is_none() {
            let mut coverage = json!({
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.distinct.len(),
                "rule": rule,
                "samples": st.samples,
                "labels": st.labels,
                "subchecks": st.sub,
            });
            if let Some(e) = st.exhaustive {
                coverage["exhaustive_parts"] = json!(e);
            }
            let ev = json!({
                "property": self.prop,
                "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
                "seed": self.seed,
                "level": level,
                "coverage": coverage,
                "assumptions": crate::props::assumptions(&self.prop),
                "notes": *self.notes.lock().unwrap(),
                "wall_s": (wall * 100.0).round() / 100.0,
                "violations": viols.len(),
            });
            std::fs::create_dir_all(out.join("evidence")).ok();
            std::fs::write(
                out.join("evidence").join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
        }
        for v in viols.iter() {
            let name = format!("{}-{}.json", self.prop, v.sub);
            if self.replay.is_none() {
                let rep = json!({"property": self.prop, "sub": v.sub, "seed": self.seed, "message": v.msg, "case": v.case});
                std::fs::create_dir_all(out.join("replays")).ok();
                std::fs::write(out.join("replays").join(&name), serde_json::to_string_pretty(&rep).unwrap())
                    .expect("write replay");
            }
            println!("  {}: {}", v.sub, v.msg);
            println!("VIOLATION property={} replay=replays/{}", self.prop, name);
        }
        if !viols.is_empty() {
            1
        } else if !errors.is_empty() {
            for e in errors.iter() {
                println!("ERROR {e}");
            }
            2
        } else {
            println!(
                "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s",
                self.prop,
                st.evaluations,
                st.distinct.len(),
                wall
            );
            0
        }
    }
}

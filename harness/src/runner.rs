//! Drives suites: generates cases from fixed seeds on several threads, counts what they were, shrinks failures and
//! writes replay files and evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::Instant;

pub const SHARDS: u64 = 8;
/// Evaluations spent on shrinking one failure
const MAX_SHRINK: u32 = 4000;
/// Seconds after which a quick run draws no further cases; it takes much less unless a number in the
/// source makes the cases large
const QUICK_S: u64 = 240;
/// Seconds spent on shrinking one failure
const MAX_SHRINK_S: u64 = 25;
/// A case that takes longer than this is taken not to terminate
const HANG_S: u64 = 40;
/// The exit code of a process whose case does not terminate
const HANG: i32 = 3;

pub type Verdict = Result<(), String>;

/// `Err(format!(..))` unless the condition holds
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond {
            return Err(format!($($fmt)+));
        }
    };
}

/// What a check says about the case it looked at
#[derive(Default)]
pub struct Cx {
    labels: Vec<Cow<'static, str>>,
    nontrivial: bool,
    known: Vec<String>,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(Cow::Borrowed(l));
    }

    pub fn label_owned(&mut self, l: String) {
        self.labels.push(Cow::Owned(l));
    }

    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }

    /// The case is one in which the property has something to decide
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// The failure `what` is the listed finding `id`, if the findings file lists it
    pub fn known(&mut self, id: &str, what: String) -> Verdict {
        if findings().iter().any(|f| f.id == id) {
            self.known.push(id.to_owned());
            Ok(())
        } else {
            Err(what)
        }
    }
}

pub struct Finding {
    pub id: String,
    pub property: String,
    pub what: String,
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).parent().expect("parent").to_owned())
}

/// The known findings: lines `known: id=<id> property=<id> <what fails>`
pub fn findings() -> &'static [Finding] {
    static FINDINGS: OnceLock<Vec<Finding>> = OnceLock::new();
    FINDINGS.get_or_init(|| {
        let path = root().join("known_findings.txt");
        let text = std::fs::read_to_string(&path).unwrap_or_else(|e| fatal(&format!("{}: {e}", path.display())));
        text.lines()
            .filter_map(|l| l.strip_prefix("known: "))
            .filter_map(|l| {
                let mut parts = l.splitn(3, ' ');
                Some(Finding {
                    id: parts.next()?.strip_prefix("id=")?.to_owned(),
                    property: parts.next()?.strip_prefix("property=")?.to_owned(),
                    what: parts.next()?.to_owned(),
                })
            })
            .collect()
    })
}

/// An error of the check itself
pub fn fatal(message: &str) -> ! {
    println!("ERROR {message}");
    std::process::exit(2);
}

// ------------------------------------------------------------------------------------------------ panics

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CATCHING.with(|c| *c.borrow()) {
            PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
        } else {
            default(info);
        }
    }));
}

/// Run `f`; a panic becomes `Err` of its message
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = CATCHING.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() = before);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_owned()))
}

// ------------------------------------------------------------------------------------------------ suites

/// One executable check over one kind of case
pub struct Suite<C: Debug> {
    pub name: &'static str,
    /// cases in the quick tier
    pub cases: u64,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Cx) -> Verdict,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
}

pub struct Failure {
    pub suite: &'static str,
    pub message: String,
    pub case: String,
    pub shrunk_by: u32,
}

pub trait AnySuite: Send + Sync {
    fn name(&self) -> &'static str;
    fn quick_cases(&self) -> u64;
    /// Returns the failure, if any
    fn run_shard(&self, shard: Shard<'_>) -> (Stats, Option<Failure>);
    fn replay(&self, case: &str) -> Result<Verdict, String>;
}

/// A part of a run
pub struct Shard<'a> {
    pub seed: [u8; 32],
    pub cases: u64,
    pub stop: &'a AtomicBool,
    pub heartbeat: &'a Heartbeat,
    /// keep samples
    pub sample: bool,
    /// write every case here before it runs
    pub trace: Option<&'a Path>,
    /// shrink failures
    pub shrink: bool,
    /// draw no further cases after this
    pub until: Option<Instant>,
}

/// Shares the time of a quick run out among the suites, by their numbers of cases
struct Budget {
    end: Option<Instant>,
    left: u64,
}

impl Budget {
    fn new(property: &Property, factor: u64) -> Self {
        let left = property.suites.iter().map(|s| s.quick_cases()).sum();
        Self { end: (factor == 1).then(|| Instant::now() + std::time::Duration::from_secs(QUICK_S)), left }
    }

    fn next(&mut self, suite: &dyn AnySuite) -> Option<Instant> {
        let (cases, left) = (suite.quick_cases(), self.left.max(1));
        self.left = self.left.saturating_sub(cases);
        let now = Instant::now();
        self.end.map(|end| now + end.saturating_duration_since(now).mul_f64(cases as f64 / left as f64))
    }
}

#[derive(Default)]
pub struct Heartbeat {
    /// seconds since the start of the run at which the current case began, plus one
    since: AtomicU64,
}

static START: OnceLock<Instant> = OnceLock::new();

fn elapsed_s() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_secs()
}

impl<C> Suite<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn judge(&self, case: &C, cx: &mut Cx) -> Verdict {
        match catch(|| (self.check)(case, cx)) {
            Ok(v) => v,
            Err(panic) => Err(format!("panic: {panic}")),
        }
    }

    pub fn boxed(self) -> Box<dyn AnySuite> {
        Box::new(self)
    }
}

fn hash(text: &str) -> u64 {
    // fixed keys
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    text.hash(&mut h);
    h.finish()
}

impl<C> AnySuite for Suite<C>
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn quick_cases(&self) -> u64 {
        self.cases
    }

    fn run_shard(&self, shard: Shard<'_>) -> (Stats, Option<Failure>) {
        let mut stats = Stats::default();
        let config = Config { failure_persistence: None, max_local_rejects: u32::MAX, ..Config::default() };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &shard.seed);
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = (self.strategy)();
        let text = |c: &C| serde_json::to_string(c).unwrap_or_else(|e| fatal(&format!("{}: case as JSON: {e}", self.name)));
        for _ in 0..shard.cases {
            if shard.stop.load(Ordering::Relaxed) {
                break;
            }
            if shard.until.is_some_and(|t| Instant::now() > t) {
                stats.labels.insert("(stopped by the clock)".to_owned(), 1);
                break;
            }
            let mut tree = match strategy.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => fatal(&format!("{}: generator: {e}", self.name)),
            };
            let case = tree.current();
            let json = text(&case);
            if let Some(path) = shard.trace {
                if std::fs::write(path, &json).is_err() {
                    fatal("cannot write the trace file");
                }
            }
            shard.heartbeat.since.store(elapsed_s() + 1, Ordering::Relaxed);
            let mut cx = Cx::default();
            let verdict = self.judge(&case, &mut cx);
            stats.evaluations += 1;
            for l in &cx.labels {
                if let Some(n) = stats.labels.get_mut(l.as_ref()) {
                    *n += 1;
                } else {
                    stats.labels.insert(l.to_string(), 1);
                }
            }
            for k in cx.known {
                *stats.known.entry(k).or_insert(0) += 1;
            }
            if cx.nontrivial && stats.nontrivial.insert(hash(&json)) && shard.sample && stats.samples.len() < 3 && json.len() < 4000 {
                if let Ok(v) = serde_json::from_str::<Value>(&json) {
                    stats.samples.push(json!({"suite": self.name, "labels": cx.labels, "case": v}));
                }
            }
            if let Err(first) = verdict {
                shard.heartbeat.since.store(0, Ordering::Relaxed);
                let (mut message, mut case, mut steps) = (first, case, 0);
                if shard.shrink {
                    let mut tries = 0;
                    let begun = Instant::now();
                    let mut more = tree.simplify();
                    while more && tries < MAX_SHRINK && begun.elapsed().as_secs() < MAX_SHRINK_S {
                        tries += 1;
                        shard.heartbeat.since.store(elapsed_s() + 1, Ordering::Relaxed);
                        let smaller = tree.current();
                        let mut cx = Cx::default();
                        let verdict = self.judge(&smaller, &mut cx);
                        // the generator can be slow, as it makes parts anew
                        shard.heartbeat.since.store(0, Ordering::Relaxed);
                        match verdict {
                            Err(m) => {
                                message = m;
                                case = smaller;
                                steps += 1;
                                more = tree.simplify();
                            }
                            Ok(()) => more = tree.complicate(),
                        }
                    }
                }
                let failure = Failure { suite: self.name, message, case: text(&case), shrunk_by: steps };
                return (stats, Some(failure));
            }
        }
        shard.heartbeat.since.store(0, Ordering::Relaxed);
        (stats, None)
    }

    fn replay(&self, case: &str) -> Result<Verdict, String> {
        let case: C = serde_json::from_str(case).map_err(|e| format!("replay case: {e}"))?;
        Ok(self.judge(&case, &mut Cx::default()))
    }
}

/// Everything that decides one property
pub struct Property {
    pub id: &'static str,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub suites: Vec<Box<dyn AnySuite>>,
    pub assumptions: &'static [&'static str],
    /// run the shards in child processes, so that an abort is seen
    pub isolated: bool,
}

// ------------------------------------------------------------------------------------------------ runs

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }

    pub fn factor(self) -> u64 {
        match self {
            Tier::Quick => 1,
            Tier::Thorough => std::env::var("VERIF_FACTOR").ok().and_then(|v| v.parse().ok()).unwrap_or(20),
        }
    }
}

pub fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse().ok()).unwrap_or(1)
}

/// Distinct seeds for every part of a run
pub fn seed_for(seed: u64, property: &str, suite: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, part) in out.chunks_mut(8).enumerate() {
        part.copy_from_slice(&hash(&format!("{seed}/{property}/{suite}/{shard}/{i}")).to_le_bytes());
    }
    out
}

/// Ends the process when a case does not terminate
pub fn start_watchdog(hearts: &'static [Heartbeat]) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        for h in hearts {
            let since = h.since.load(Ordering::Relaxed);
            if since > 0 && elapsed_s() + 1 > since + HANG_S {
                std::process::exit(HANG);
            }
        }
    });
}

pub struct Outcome {
    pub stats: Stats,
    pub failures: Vec<Failure>,
}

impl Stats {
    pub fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        self.nontrivial.extend(other.nontrivial);
        for (k, v) in other.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in other.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.samples.extend(other.samples);
    }
}

fn share(total: u64, shard: u64) -> u64 {
    total / SHARDS + u64::from(shard < total % SHARDS)
}

/// Run all suites of a property in this process
pub fn run_suites(property: &Property, seed: u64, factor: u64) -> Outcome {
    let hearts: &'static Vec<Heartbeat> = Box::leak(Box::new((0..SHARDS).map(|_| Heartbeat::default()).collect()));
    start_watchdog(hearts);
    let stop = AtomicBool::new(false);
    let mut outcome = Outcome { stats: Stats::default(), failures: vec![] };
    let results: Vec<(Stats, Vec<Failure>)> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..SHARDS)
            .map(|shard| {
                let stop = &stop;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let mut stats = Stats::default();
                        let mut failures = vec![];
                        let mut budget = Budget::new(property, factor);
                        for suite in &property.suites {
                            let (s, f) = suite.run_shard(Shard {
                                seed: seed_for(seed, property.id, suite.name(), shard),
                                cases: share(suite.quick_cases() * factor, shard),
                                stop,
                                heartbeat: &hearts[shard as usize],
                                sample: shard == 0,
                                trace: None,
                                shrink: true,
                                until: budget.next(&**suite),
                            });
                            stats.merge(s);
                            if let Some(f) = f {
                                failures.push(f);
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        (stats, failures)
                    })
                    .unwrap_or_else(|e| fatal(&format!("thread: {e}")))
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| fatal("a shard thread panicked"))).collect()
    });
    for (s, f) in results {
        outcome.stats.merge(s);
        outcome.failures.extend(f);
    }
    outcome
}

/// Run all suites in child processes that write every case before it runs
fn run_isolated(property: &Property, seed: u64, tier: Tier) -> Outcome {
    let exe = std::env::current_exe().unwrap_or_else(|e| fatal(&format!("own path: {e}")));
    let dir = root().join("harness/target/scratch").join(format!("{}-{}", property.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| fatal(&format!("{}: {e}", dir.display())));
    let children: Vec<_> = (0..SHARDS)
        .map(|shard| {
            let child = std::process::Command::new(&exe)
                .args(["child", property.id, &shard.to_string(), &seed.to_string(), &tier.factor().to_string()])
                .arg(&dir)
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .unwrap_or_else(|e| fatal(&format!("child: {e}")));
            (shard, child)
        })
        .collect();
    let mut outcome = Outcome { stats: Stats::default(), failures: vec![] };
    let mut errors = vec![];
    // in the order in which they end; after the first failure the others have a moment to end with theirs
    let mut running: BTreeMap<u64, String> = children.iter().map(|(shard, c)| (*shard, c.id().to_string())).collect();
    let (ended, results) = std::sync::mpsc::channel();
    for (shard, child) in children {
        let ended = ended.clone();
        std::thread::spawn(move || {
            let _ = ended.send((shard, child.wait_with_output()));
        });
    }
    for _ in 0..SHARDS {
        let next = if outcome.failures.is_empty() {
            results.recv().ok()
        } else {
            results.recv_timeout(std::time::Duration::from_secs(5)).ok()
        };
        let Some((shard, output)) = next else {
            let _ = std::process::Command::new("kill").arg("-9").args(running.values()).stderr(std::process::Stdio::null()).status();
            break;
        };
        running.remove(&shard);
        let output = output.unwrap_or_else(|e| fatal(&format!("child: {e}")));
        let result = std::fs::read_to_string(dir.join(format!("{shard}.result")))
            .ok()
            .and_then(|t| serde_json::from_str::<Value>(&t).ok());
        match (output.status.code(), result) {
            (Some(0), Some(result)) => {
                let (stats, failure) = stats_from_json(property, &result);
                outcome.stats.merge(stats);
                outcome.failures.extend(failure);
            }
            (Some(code), _) if code != HANG => {
                errors.push(format!("child {shard} ended with {code}: {}", String::from_utf8_lossy(&output.stdout)));
            }
            (code, _) => {
                // killed by a signal, or hanging: the case it was working on
                let trace = std::fs::read_to_string(dir.join(format!("{shard}.case"))).unwrap_or_default();
                let suite = std::fs::read_to_string(dir.join(format!("{shard}.suite"))).unwrap_or_default();
                match property.suites.iter().find(|s| s.name() == suite) {
                    Some(suite) => {
                        let failure = Failure {
                            suite: suite.name(),
                            message: match code {
                                None => format!("the process was ended by a signal ({})", output.status),
                                Some(_) => format!("a case did not finish within {HANG_S} s"),
                            },
                            case: trace,
                            shrunk_by: 0,
                        };
                        // it counts when it happens again
                        if happens_again(&exe, property, &failure, &dir) {
                            outcome.failures.push(failure);
                        } else {
                            errors.push(format!("child {shard} ended with {}, which did not happen again", output.status));
                        }
                    }
                    None => errors.push(format!("child {shard} ended with {}", output.status)),
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if outcome.failures.is_empty() && !errors.is_empty() {
        fatal(&errors.join("\n"));
    }
    outcome
}

fn happens_again(exe: &Path, property: &Property, failure: &Failure, dir: &Path) -> bool {
    let path = dir.join("again.json");
    if write_replay(&path, property.id, failure).is_err() {
        return false;
    }
    std::process::Command::new(exe)
        .args(["replay", property.id])
        .arg(&path)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .is_ok_and(|s| s.code().is_none() || s.code() == Some(1))
}

/// The child side of `run_isolated`
pub fn run_child(property: &Property, shard: u64, seed: u64, factor: u64, dir: &Path) {
    let hearts: &'static Vec<Heartbeat> = Box::leak(Box::new(vec![Heartbeat::default()]));
    start_watchdog(hearts);
    let stop = AtomicBool::new(false);
    let mut stats = Stats::default();
    let mut failure = None;
    let trace = dir.join(format!("{shard}.case"));
    let mut budget = Budget::new(property, factor);
    for suite in &property.suites {
        if std::fs::write(dir.join(format!("{shard}.suite")), suite.name()).is_err() {
            fatal("cannot write the suite file");
        }
        let (s, f) = suite.run_shard(Shard {
            seed: seed_for(seed, property.id, suite.name(), shard),
            cases: share(suite.quick_cases() * factor, shard),
            stop: &stop,
            heartbeat: &hearts[0],
            sample: shard == 0,
            trace: Some(&trace),
            shrink: true,
            until: budget.next(&**suite),
        });
        stats.merge(s);
        if f.is_some() {
            failure = f;
            break;
        }
    }
    let result = json!({
        "evaluations": stats.evaluations,
        "nontrivial": stats.nontrivial,
        "labels": stats.labels,
        "samples": stats.samples,
        "known": stats.known,
        "failure": failure.map(|f| json!({"suite": f.suite, "message": f.message, "case": f.case, "shrunk_by": f.shrunk_by})),
    });
    if std::fs::write(dir.join(format!("{shard}.result")), result.to_string()).is_err() {
        fatal("cannot write the result file");
    }
}

fn stats_from_json(property: &Property, v: &Value) -> (Stats, Option<Failure>) {
    let counts = |v: &Value| -> BTreeMap<String, u64> { serde_json::from_value(v.clone()).unwrap_or_default() };
    let stats = Stats {
        evaluations: v["evaluations"].as_u64().unwrap_or(0),
        nontrivial: serde_json::from_value(v["nontrivial"].clone()).unwrap_or_default(),
        labels: counts(&v["labels"]),
        samples: v["samples"].as_array().cloned().unwrap_or_default(),
        known: counts(&v["known"]),
    };
    let f = &v["failure"];
    let failure = f["suite"].as_str().and_then(|name| property.suites.iter().find(|s| s.name() == name)).map(|s| Failure {
        suite: s.name(),
        message: f["message"].as_str().unwrap_or_default().to_owned(),
        case: f["case"].as_str().unwrap_or_default().to_owned(),
        shrunk_by: f["shrunk_by"].as_u64().unwrap_or(0) as u32,
    });
    (stats, failure)
}

fn write_replay(path: &Path, property: &str, failure: &Failure) -> std::io::Result<()> {
    let text = format!(
        "{{\n \"property\": {},\n \"suite\": {},\n \"failure\": {},\n \"shrunk_by\": {},\n \"case\": {}\n}}\n",
        json!(property),
        json!(failure.suite),
        json!(failure.message),
        failure.shrunk_by,
        failure.case
    );
    std::fs::write(path, text)
}

/// Run one property, write the evidence and report. Returns the exit code. Most run in one process; if that crashes or
/// does not terminate, they run once more in the way that finds the case.
pub fn supervise(property: &Property, tier: Tier, seed: u64) -> i32 {
    if property.isolated {
        return run_property(property, tier, seed, true);
    }
    let exe = std::env::current_exe().unwrap_or_else(|e| fatal(&format!("own path: {e}")));
    let status = std::process::Command::new(&exe)
        .args(["direct", property.id, tier.name()])
        .status()
        .unwrap_or_else(|e| fatal(&format!("child: {e}")));
    match status.code() {
        Some(code) if code != HANG => code,
        _ => {
            println!("{}: {status}, looking for the case", property.id);
            run_property(property, tier, seed, true)
        }
    }
}

pub fn run_property(property: &Property, tier: Tier, seed: u64, isolated: bool) -> i32 {
    let start = Instant::now();
    let outcome = if isolated { run_isolated(property, seed, tier) } else { run_suites(property, seed, tier.factor()) };

    let listed: Vec<&Finding> = findings().iter().filter(|f| f.property == property.id).collect();
    for f in &listed {
        if outcome.stats.known.contains_key(&f.id) {
            println!("KNOWN-FINDING: property={} {}", property.id, f.what);
        }
    }

    let mut code = 0;
    let replays = root().join("replays");
    let mut seen = HashSet::new();
    for (i, f) in outcome.failures.iter().enumerate() {
        if !seen.insert((f.suite, f.message.clone())) {
            continue;
        }
        let _ = std::fs::create_dir_all(&replays);
        let path = replays.join(format!("{}-{}-{seed}-{i}.json", property.id, f.suite));
        if let Err(e) = write_replay(&path, property.id, f) {
            println!("cannot write {}: {e}", path.display());
        }
        println!("{}/{}: {}", property.id, f.suite, f.message.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", property.id, path.display());
        code = 1;
    }

    let evidence = json!({
        "property": property.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": outcome.stats.evaluations,
            "distinct_nontrivial": outcome.stats.nontrivial.len(),
            "rule": property.rule,
            "samples": outcome.stats.samples.iter().take(8).collect::<Vec<_>>(),
            "suites": property.suites.iter().map(|s| s.name()).collect::<Vec<_>>(),
            "labels": outcome.stats.labels,
            "known_finding_hits": outcome.stats.known,
        },
        "assumptions": property.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": seen.len(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", property.id));
    let text = serde_json::to_string_pretty(&evidence).unwrap_or_default();
    if let Err(e) = std::fs::write(&path, text + "\n") {
        fatal(&format!("{}: {e}", path.display()));
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, {} violation(s)",
        property.id,
        outcome.stats.evaluations,
        outcome.stats.nontrivial.len(),
        start.elapsed().as_secs_f64(),
        seen.len()
    );
    code
}

/// Re-run a saved case. Returns the exit code.
pub fn replay(property: &Property, file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fatal(&format!("{}: {e}", file.display())));
    // a line break never occurs inside the texts of the file, so this finds the member
    let case = text.split_once("\n \"case\": ").and_then(|(_, c)| c.trim_end().strip_suffix('}'));
    let saved: Value = serde_json::from_str(&text).unwrap_or_else(|e| fatal(&format!("{}: {e}", file.display())));
    let name = saved["suite"].as_str().unwrap_or_default();
    let suite =
        property.suites.iter().find(|s| s.name() == name).unwrap_or_else(|| fatal(&format!("no suite {name}")));
    let case = case.unwrap_or_else(|| fatal("not a replay file"));
    let (id, shown) = (property.id, file.display().to_string());
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(HANG_S));
        println!("{id}: does not finish within {HANG_S} s");
        println!("VIOLATION property={id} replay={shown}");
        std::process::exit(1);
    });
    match suite.replay(case) {
        Err(e) => fatal(&e),
        Ok(Ok(())) => {
            println!("{}/{}: holds", property.id, name);
            0
        }
        Ok(Err(m)) => {
            println!("{}/{}: {m}", property.id, name);
            println!("VIOLATION property={} replay={}", property.id, file.display());
            1
        }
    }
}

//! The property-based testing engine: seeded case generation, parallel execution, shrinking,
//! replay files, known findings, crash containment and evidence.

use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{Serialize, de::DeserializeOwned};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{DefaultHasher, Hash, Hasher},
    io::Write as _,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::AssertUnwindSafe,
    path::{Path, PathBuf},
    process::Command,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

/// How long a single case may take before it counts as hanging. Cases take milliseconds.
const HANG_LIMIT: Duration = Duration::from_secs(100);
/// The exit code by which the child says that a case hangs.
const HANG_CODE: i32 = 97;

/// The reason a check did not pass.
#[derive(Clone, Debug)]
pub enum Fail {
    /// The code under test breaks the property. The signature identifies the kind of failure and is
    /// matched against the known findings.
    Violation { signature: String, message: String },
    /// The harness could not carry out the check. Never reported as a violation.
    Harness(String),
}

pub type Res<T = ()> = Result<T, Fail>;

/// Builds a violation.
pub fn violation(signature: &str, message: impl Into<String>) -> Fail {
    Fail::Violation {
        signature: signature.to_string(),
        message: message.into(),
    }
}

/// Fails the check with a violation unless the condition holds.
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::violation($sig, format!($($arg)*)));
        }
    };
}

/// Turns an error of the harness's own plumbing into `Fail::Harness`.
pub trait OrHarness<T> {
    fn harness(self, what: &str) -> Res<T>;
}
impl<T, E: std::fmt::Debug> OrHarness<T> for Result<T, E> {
    fn harness(self, what: &str) -> Res<T> {
        self.map_err(|e| Fail::Harness(format!("{what}: {e:?}")))
    }
}

/// Turns an error returned by the code under test, where the property demands success, into a
/// violation.
pub trait OrViolation<T> {
    fn must(self, signature: &str, what: &str) -> Res<T>;
}
impl<T, E: std::fmt::Debug> OrViolation<T> for Result<T, E> {
    fn must(self, signature: &str, what: &str) -> Res<T> {
        self.map_err(|e| violation(signature, format!("{what} failed: {e:?}")))
    }
}

/// What a single evaluation of a case covered.
#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Stats {
    pub fn add(&mut self, key: &str, n: u64) {
        *self.counters.entry(key.to_string()).or_insert(0) += n;
    }
    pub fn hit(&mut self, key: &str) {
        self.add(key, 1);
    }
    pub fn hit_if(&mut self, cond: bool, key: &str) {
        self.add(key, u64::from(cond));
    }
    pub fn mark_nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

/// A property, as an executable check over generated cases.
pub trait Prop: Sync {
    type Case: Clone + Serialize + DeserializeOwned + Send + Sync + std::fmt::Debug;

    fn id(&self) -> &'static str;
    /// The stated rule that makes a case non-trivial.
    fn rule(&self) -> &'static str;
    /// Number of cases generated by the quick tier.
    fn quick_cases(&self) -> usize;
    /// Number of cases generated by the thorough tier.
    fn thorough_cases(&self) -> usize {
        self.quick_cases() * 25
    }
    /// How often a candidate is re-run while shrinking or replaying. More than one only where the
    /// code under test draws from an unseeded random generator.
    fn reps(&self) -> usize {
        1
    }
    /// Worker threads running cases at the same time.
    fn workers(&self) -> usize {
        8
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Self::Case>;
    fn check(&self, case: &Self::Case, stats: &mut Stats) -> Res;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static ANY_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

/// Records panics instead of printing them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        if let Ok(mut any) = ANY_PANIC.lock() {
            *any = Some((msg, loc));
        }
    }));
}

/// Runs the check once, turning panics of the code under test into violations.
fn run_once<P: Prop>(prop: &P, case: &P::Case, stats: &mut Stats) -> Res {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(AssertUnwindSafe(|| prop.check(case, stats))) {
        Ok(res) => res,
        Err(_) => Err(thread_panic()),
    }
}

/// The failure for a panic in this thread or in one of those that a check started.
pub fn thread_panic() -> Fail {
    let (msg, loc) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .or_else(|| ANY_PANIC.lock().ok().and_then(|mut p| p.take()))
        .unwrap_or_default();
    if loc.starts_with("src/") {
        return Fail::Harness(format!("harness panicked at {loc}: {msg}"));
    }
    violation("panic", format!("panicked at {loc}: {msg}"))
}

/// Runs the check up to `reps` times and returns the first failure.
fn run_reps<P: Prop>(prop: &P, case: &P::Case, reps: usize) -> Res {
    for _ in 0..reps {
        run_once(prop, case, &mut Stats::default())?;
    }
    Ok(())
}

/// The parameters of a run.
pub struct RunConfig {
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub cases_override: Option<usize>,
}

/// The generator of case number `index` is a pure function of the seed and the property.
fn case_tree<P: Prop>(
    prop: &P,
    strategy: &BoxedStrategy<P::Case>,
    seed: u64,
    index: usize,
) -> Result<Box<dyn ValueTree<Value = P::Case>>, String> {
    let mut bytes = [0u8; 32];
    for lane in 0u64..4 {
        let mut h = DefaultHasher::new();
        (seed, prop.id(), index as u64, lane).hash(&mut h);
        bytes[lane as usize * 8..lane as usize * 8 + 8].copy_from_slice(&h.finish().to_le_bytes());
    }
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng);
    strategy
        .new_tree(&mut runner)
        .map_err(|e| format!("cannot generate a case: {e:?}"))
}

/// Shrinks a failing tree: `fails` says whether a candidate still fails.
fn shrink<C: Clone + std::fmt::Debug>(
    tree: &mut dyn ValueTree<Value = C>,
    mut fails: impl FnMut(&C) -> Option<Fail>,
    first: Fail,
    max_steps: usize,
    budget: Duration,
) -> (C, Fail, usize) {
    let start = Instant::now();
    let mut best = tree.current();
    let mut best_fail = first;
    let mut steps = 0;
    if !tree.simplify() {
        return (best, best_fail, 0);
    }
    while steps < max_steps && start.elapsed() < budget {
        steps += 1;
        let cand = tree.current();
        match fails(&cand) {
            Some(f) => {
                best = cand;
                best_fail = f;
                if !tree.simplify() {
                    break;
                }
            }
            None => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    (best, best_fail, steps)
}

fn read_known_findings(verif: &Path, id: &str) -> Vec<(String, String)> {
    // Each line: known: property=<id> signature=<sig> <what fails>
    let Ok(text) = std::fs::read_to_string(verif.join("known-findings.txt")) else {
        return vec![];
    };
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("known: property={id} signature="))?;
            let (sig, what) = rest.split_once(' ')?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

fn write_replay<C: Serialize>(cfg: &RunConfig, id: &str, case: &C, fail: &Fail) -> PathBuf {
    let dir = cfg.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let json = serde_json::json!({
        "property": id,
        "seed": cfg.seed,
        "failure": match fail {
            Fail::Violation { signature, message } =>
                serde_json::json!({"signature": signature, "message": message}),
            Fail::Harness(m) => serde_json::json!({"harness": m}),
        },
        "case": case,
    });
    let text = serde_json::to_string_pretty(&json).unwrap_or_default();
    let mut h = DefaultHasher::new();
    text.hash(&mut h);
    let path = dir.join(format!("{id}-{:016x}.json", h.finish()));
    let _ = std::fs::write(&path, text + "\n");
    path
}

fn write_evidence(
    cfg: &RunConfig,
    id: &str,
    rule: &str,
    acc: &Acc,
    planned: usize,
    started: Instant,
    assumptions: Vec<String>,
    violations: usize,
    known: &[String],
) {
    let path = cfg.verif.join("evidence").join(format!("{id}.json"));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let json = serde_json::json!({
        "property": id,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": acc.evaluations,
            "planned_cases": planned,
            "distinct_nontrivial": acc.nontrivial.len(),
            "rule": rule,
            "counters": acc.counters,
            "samples": acc.samples.iter().map(|(_, s)| s.clone()).collect::<Vec<_>>(),
        },
        "wall_s": started.elapsed().as_secs_f64(),
        "assumptions": assumptions,
        "violations": violations,
        "known_findings_hit": known,
    });
    let _ = std::fs::write(path, serde_json::to_string_pretty(&json).unwrap() + "\n");
}

#[derive(Default)]
struct Acc {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<(usize, serde_json::Value)>,
    known: BTreeMap<String, String>,
}

/// Runs the property as the (contained) child process. Returns the exit code.
pub fn run_child<P: Prop>(prop: &P, cfg: &RunConfig) -> i32 {
    let started = Instant::now();
    let planned = cfg.cases_override.unwrap_or(if cfg.thorough {
        prop.thorough_cases()
    } else {
        prop.quick_cases()
    });
    let soft_limit = Duration::from_secs(if cfg.thorough { 5400 } else { 420 });
    let known = read_known_findings(&cfg.verif, prop.id());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let acc = Mutex::new(Acc::default());
    type Found = Option<(usize, Fail)>;
    let found: Mutex<Found> = Mutex::new(None);
    let progress = std::fs::File::create(cfg.scratch.join("progress")).ok();
    // When each worker started on its current case, in milliseconds since the start plus one, or
    // zero if it is idle.
    let busy: Vec<AtomicU64> = (0..prop.workers()).map(|_| AtomicU64::new(0)).collect();
    let running = AtomicUsize::new(prop.workers());
    let millis = || started.elapsed().as_millis() as u64 + 1;

    std::thread::scope(|scope| {
        let (busy, running) = (&busy, &running);
        // A case that does not come back is handed to the parent, which runs it again by itself.
        scope.spawn(move || {
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = millis();
                for since in busy {
                    let since = since.load(Ordering::SeqCst);
                    if since > 0 && now > since + HANG_LIMIT.as_millis() as u64 {
                        std::process::exit(HANG_CODE);
                    }
                }
            }
        });
        for worker in 0..prop.workers() {
            let (next, stop, acc, found, known, progress) =
                (&next, &stop, &acc, &found, &known, &progress);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(scope, move || {
                    let strategy = prop.strategy(cfg.thorough);
                    loop {
                        let index = next.fetch_add(1, Ordering::SeqCst);
                        if index >= planned
                            || stop.load(Ordering::SeqCst)
                            || started.elapsed() > soft_limit
                        {
                            break;
                        }
                        if let Some(f) = progress {
                            let _ =
                                f.write_at(&(index as u64 + 1).to_le_bytes(), worker as u64 * 8);
                        }
                        let tree = match case_tree(prop, &strategy, cfg.seed, index) {
                            Ok(t) => t,
                            Err(e) => {
                                stop.store(true, Ordering::SeqCst);
                                *found.lock().unwrap() = Some((index, Fail::Harness(e)));
                                break;
                            }
                        };
                        let case = tree.current();
                        let mut stats = Stats::default();
                        busy[worker].store(millis(), Ordering::SeqCst);
                        let res = run_once(prop, &case, &mut stats);
                        busy[worker].store(0, Ordering::SeqCst);
                        let mut acc = acc.lock().unwrap();
                        acc.evaluations += 1;
                        for (k, v) in &stats.counters {
                            *acc.counters.entry(k.clone()).or_insert(0) += v;
                        }
                        if stats.nontrivial {
                            let json = serde_json::to_string(&case).unwrap_or_default();
                            let mut h = DefaultHasher::new();
                            json.hash(&mut h);
                            acc.nontrivial.insert(h.finish());
                            if acc.samples.len() < 3 {
                                let sample = if json.len() <= 3000 {
                                    serde_json::to_value(&case).unwrap_or_default()
                                } else {
                                    let cut = json
                                        .char_indices()
                                        .take_while(|(i, _)| *i < 3000)
                                        .last()
                                        .map_or(0, |(i, _)| i);
                                    serde_json::Value::String(format!("{}…", &json[..cut]))
                                };
                                acc.samples.push((index, sample));
                            }
                        }
                        match res {
                            Ok(()) => {}
                            Err(fail) => {
                                if let Fail::Violation { signature, .. } = &fail
                                    && let Some((sig, what)) =
                                        known.iter().find(|(s, _)| s == signature)
                                {
                                    acc.known.insert(sig.clone(), what.clone());
                                    continue;
                                }
                                drop(acc);
                                let mut found = found.lock().unwrap();
                                // Keep the failure with the lowest index.
                                if found.as_ref().is_none_or(|(i, _)| index < *i) {
                                    *found = Some((index, fail));
                                }
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                    }
                    if let Some(f) = progress {
                        let _ = f.write_at(&0u64.to_le_bytes(), worker as u64 * 8);
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("cannot spawn a worker");
        }
    });

    let acc = acc.into_inner().unwrap();
    for (sig, what) in &acc.known {
        println!(
            "KNOWN-FINDING: property={} signature={sig} {what}",
            prop.id()
        );
    }
    let known_hit: Vec<String> = acc.known.keys().cloned().collect();
    let found = found.into_inner().unwrap();
    match found {
        None => {
            write_evidence(
                cfg,
                prop.id(),
                prop.rule(),
                &acc,
                planned,
                started,
                prop.assumptions(),
                0,
                &known_hit,
            );
            println!(
                "OK property={} evaluations={} nontrivial={} wall_s={:.1}",
                prop.id(),
                acc.evaluations,
                acc.nontrivial.len(),
                started.elapsed().as_secs_f64()
            );
            0
        }
        Some((_, Fail::Harness(m))) => {
            eprintln!("HARNESS-ERROR property={}: {m}", prop.id());
            2
        }
        Some((index, fail)) => {
            let strategy = prop.strategy(cfg.thorough);
            // If shrinking runs into a case that does not come back, report the original one.
            let shrinking = Arc::new(AtomicBool::new(true));
            if let (Ok(tree), true) = (
                case_tree(prop, &strategy, cfg.seed, index),
                matches!(fail, Fail::Violation { .. }),
            ) {
                let replay = write_replay(cfg, prop.id(), &tree.current(), &fail);
                let (id, shrinking) = (prop.id(), Arc::clone(&shrinking));
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_secs(200));
                    if shrinking.load(Ordering::SeqCst) {
                        println!("VIOLATION property={id} replay={}", replay.display());
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                });
            }
            let (case, fail) = match case_tree(prop, &strategy, cfg.seed, index) {
                Ok(mut tree) => {
                    let sig = match &fail {
                        Fail::Violation { signature, .. } => signature.clone(),
                        Fail::Harness(_) => String::new(),
                    };
                    let (case, fail, steps) = shrink(
                        &mut *tree,
                        |c| match run_reps(prop, c, prop.reps()) {
                            Err(f @ Fail::Violation { .. }) => match &f {
                                Fail::Violation { signature, .. } if *signature == sig => Some(f),
                                _ => None,
                            },
                            _ => None,
                        },
                        fail,
                        2000,
                        Duration::from_secs(90),
                    );
                    shrinking.store(false, Ordering::SeqCst);
                    eprintln!("shrunk in {steps} steps");
                    (case, fail)
                }
                Err(e) => {
                    eprintln!("HARNESS-ERROR property={}: {e}", prop.id());
                    return 2;
                }
            };
            let replay = write_replay(cfg, prop.id(), &case, &fail);
            if let Fail::Violation { signature, message } = &fail {
                eprintln!("{signature}: {message}");
            }
            write_evidence(
                cfg,
                prop.id(),
                prop.rule(),
                &acc,
                planned,
                started,
                prop.assumptions(),
                1,
                &known_hit,
            );
            println!(
                "VIOLATION property={} replay={}",
                prop.id(),
                replay.display()
            );
            1
        }
    }
}

/// Runs one generated case by its index, or writes it out. Used after a crash of the child.
pub fn run_index<P: Prop>(prop: &P, cfg: &RunConfig, index: usize, dump: Option<&Path>) -> i32 {
    let strategy = prop.strategy(cfg.thorough);
    let Ok(tree) = case_tree(prop, &strategy, cfg.seed, index) else {
        return 2;
    };
    if let Some(path) = dump {
        let json = serde_json::json!({
            "property": prop.id(),
            "seed": cfg.seed,
            "failure": {"signature": "crash", "message": "the process died while running this case"},
            "case": tree.current(),
        });
        let _ = std::fs::write(path, serde_json::to_string_pretty(&json).unwrap() + "\n");
        return 0;
    }
    let case = tree.current();
    in_big_stack(|| match run_reps(prop, &case, prop.reps()) {
        Ok(()) => 0,
        Err(Fail::Violation { signature, message }) => {
            eprintln!("{signature}: {message}");
            let known = read_known_findings(&cfg.verif, prop.id());
            i32::from(!known.iter().any(|(s, _)| *s == signature))
        }
        Err(Fail::Harness(m)) => {
            eprintln!("HARNESS-ERROR: {m}");
            2
        }
    })
}

fn in_big_stack(f: impl FnOnce() -> i32 + Send) -> i32 {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, f)
            .expect("cannot spawn")
            .join()
            .unwrap_or(2)
    })
}

/// Replays a replay file.
pub fn replay<P: Prop>(prop: &P, path: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path.display());
        return 2;
    };
    let case: P::Case = match serde_json::from_str::<serde_json::Value>(&text)
        .ok()
        .and_then(|v| serde_json::from_value(v.get("case").cloned().unwrap_or_default()).ok())
    {
        Some(c) => c,
        None => {
            eprintln!("cannot parse the case in {}", path.display());
            return 2;
        }
    };
    in_big_stack(|| match run_reps(prop, &case, prop.reps().max(1) * 5) {
        Ok(()) => {
            println!("OK property={} replay passed", prop.id());
            0
        }
        Err(Fail::Violation { signature, message }) => {
            eprintln!("{signature}: {message}");
            println!("VIOLATION property={} replay={}", prop.id(), path.display());
            1
        }
        Err(Fail::Harness(m)) => {
            eprintln!("HARNESS-ERROR: {m}");
            2
        }
    })
}

/// Runs the child process and handles its abnormal ends. Returns the exit code.
pub fn run_parent(id: &str, tier: &str, cfg: &RunConfig) -> i32 {
    let exe = std::env::current_exe().expect("no current exe");
    let limit = Duration::from_secs(if cfg.thorough { 7200 } else { 780 });
    let spawn = |args: &[&str], limit: Duration| -> Option<std::process::ExitStatus> {
        let mut child = Command::new(&exe)
            .args(args)
            .env("TRANE_PBT_SCRATCH", &cfg.scratch)
            .env("VERIF_SEED", cfg.seed.to_string())
            .spawn()
            .ok()?;
        let start = Instant::now();
        loop {
            match child.try_wait() {
                Ok(Some(status)) => return Some(status),
                Ok(None) => {
                    if start.elapsed() > limit {
                        let _ = child.kill();
                        let _ = child.wait();
                        return None;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                Err(_) => return None,
            }
        }
    };
    let status = spawn(&["child", id, tier], limit);
    let Some(status) = status else {
        eprintln!("INCONCLUSIVE property={id}: the run did not finish in time");
        return 2;
    };
    let hung = status.code() == Some(HANG_CODE);
    if let Some(code) = status.code()
        && !hung
    {
        return code;
    }
    // The child died from a signal or hangs. Find out which of the cases in progress does that.
    const CRASHES: [i32; 5] = [4, 6, 7, 8, 11];
    let signal = status.signal().unwrap_or(0);
    if hung {
        eprintln!("a case does not come back");
    } else {
        eprintln!("the run died from signal {signal}");
        if !CRASHES.contains(&signal) {
            return 2;
        }
    }
    let progress = std::fs::read(cfg.scratch.join("progress")).unwrap_or_default();
    let mut indices: Vec<u64> = progress
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|i| *i > 0)
        .map(|i| i - 1)
        .collect();
    indices.sort_unstable();
    for index in indices {
        let index = index.to_string();
        // The code under test may draw from an unseeded random generator.
        let mut again = None;
        for _ in 0..3 {
            again = spawn(&["index", id, tier, &index], HANG_LIMIT);
            if again.is_none_or(|status| !status.success()) {
                break;
            }
        }
        let broken = match &again {
            None => hung,
            // It may also come back, with a failure, when it does not compete with others.
            Some(status) => {
                status.signal().is_some_and(|s| CRASHES.contains(&s)) || status.code() == Some(1)
            }
        };
        if broken {
            let dir = cfg.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let kind = match &again {
                None => "hang",
                Some(status) if status.code() == Some(1) => "failure",
                Some(_) => "crash",
            };
            let path = dir.join(format!("{id}-{kind}-{}-{index}.json", cfg.seed));
            let p = path.display().to_string();
            let _ = spawn(&["dump", id, tier, &index, &p], Duration::from_secs(60));
            let acc = Acc {
                evaluations: 1,
                ..Acc::default()
            };
            write_evidence(cfg, id, kind, &acc, 1, Instant::now(), vec![], 1, &[]);
            println!("VIOLATION property={id} replay={p}");
            let _ = std::io::stdout().flush();
            return 1;
        }
    }
    2
}

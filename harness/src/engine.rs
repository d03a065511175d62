//! Property runner: generated cases, shards in child processes, shrinking, replay files, evidence.
//!
//! A property is a list of parts; a part is a proptest strategy and a test over one case.
//! Every random choice comes from the strategy's seeded generator, so a case is a pure function of
//! (VERIF_SEED, property, part, shard, index) and of nothing else.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngSeed, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::Instant;

/// Time for shrinking one failure.
const SHRINK_SECONDS: u64 = 90;

pub type Check = Result<(), String>;

/// What one case showed, besides passing.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, f64>,
}

impl Obs {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.class(name)
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.classes.entry(name.to_string()).or_insert(0) += n;
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => { if !($cond) { return Err(format!($($arg)+)); } };
}

pub struct Part {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// CPU seconds one case may take, hundreds of times what it usually takes. No end
    /// within a multiple of that, alone, breaks the property, which speaks of a result.
    pub cpu_limit: u64,
    pub max_shrink: usize,
    /// A check over the classes and statistics of all cases of the part together.
    pub aggregate: Option<fn(u64, &BTreeMap<String, u64>) -> Check>,
    inner: Box<dyn Inner>,
}

impl Part {
    pub fn cpu(mut self, secs: u64) -> Self {
        self.cpu_limit = secs;
        self
    }
    pub fn shrink(mut self, n: usize) -> Self {
        self.max_shrink = n;
        self
    }
    pub fn aggregate(mut self, f: fn(u64, &BTreeMap<String, u64>) -> Check) -> Self {
        self.aggregate = Some(f);
        self
    }
}

pub fn part<C>(
    name: &'static str,
    rule: &'static str,
    quick: usize,
    thorough: usize,
    strategy: fn() -> BoxedStrategy<C>,
    test: fn(&C, &mut Obs) -> Check,
) -> Part
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    Part {
        name,
        rule,
        quick,
        thorough,
        cpu_limit: 60,
        max_shrink: 3000,
        aggregate: None,
        inner: Box::new(Typed { strategy, test }),
    }
}

/// How many times the numbers of cases of its parts a property gets: quick, thorough.
fn scale(id: &str) -> (usize, usize) {
    match id {
        "C22" => (1, 1),
        "C02" => (2, 2),
        "C12" | "C18" => (3, 3),
        "C05" | "C06" | "C07" | "C08" | "C15" | "C23" | "C26" => (10, 10),
        "C10" | "C11" | "C13" => (14, 8),
        "C16" => (15, 15),
        _ => (6, 4),
    }
}

pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<Part>,
}

#[derive(Serialize, Deserialize, Default, Clone)]
struct ShardOut {
    evaluations: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    failure: Option<Failure>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    message: String,
    case: serde_json::Value,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    part: String,
    message: String,
    case: serde_json::Value,
}

trait Inner {
    fn shard(&self, seed: u64, cases: usize, cur: &Path, limit: u64, max_shrink: usize) -> ShardOut;
    /// Regenerates case `index` and shrinks it, running every candidate in a forked child.
    fn isolate(&self, seed: u64, index: usize, limit: u64, budget: usize) -> (IsolateEnd, Option<Failure>);
    fn replay(&self, case: &serde_json::Value) -> Result<Check, String>;
    fn dump(&self, seed: u64, n: usize);
}

#[derive(Debug, Clone, PartialEq)]
enum IsolateEnd {
    Passed,
    Failed(String),
    Hung,
    OutOfMemory,
    Killed,
}

struct Typed<C> {
    strategy: fn() -> BoxedStrategy<C>,
    test: fn(&C, &mut Obs) -> Check,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn runner(seed: u64) -> TestRunner {
    TestRunner::new(Config {
        failure_persistence: None,
        rng_seed: RngSeed::Fixed(seed),
        max_global_rejects: 1_000_000,
        ..Config::default()
    })
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// For tuning: VH_SLOW=<seconds>:<file> lists the cases that take longer.
fn slow_cases(took: f64) -> Option<std::fs::File> {
    let var = std::env::var("VH_SLOW").ok()?;
    let (limit, file) = var.split_once(':')?;
    if took < limit.parse().ok()? {
        return None;
    }
    std::fs::OpenOptions::new().append(true).create(true).open(file).ok()
}

fn run_one<C>(test: fn(&C, &mut Obs) -> Check, case: &C, obs: &mut Obs) -> Check {
    match catch_unwind(AssertUnwindSafe(|| test(case, obs))) {
        Ok(r) => r,
        Err(_) => {
            let text = LAST_PANIC.with(|p| p.borrow().clone());
            Err(format!("panic: {}", text))
        }
    }
}

extern "C" fn on_prof(_sig: libc::c_int) {
    unsafe { libc::_exit(77) }
}

fn arm_cpu_limit(secs: u64) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_prof as *const () as usize;
        libc::sigaction(libc::SIGPROF, &sa, std::ptr::null_mut());
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs as libc::time_t, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

/// CPU seconds of a case that is run alone; a check has 900 seconds in all.
fn alone_limit(part: &Part) -> u64 {
    if part.cpu_limit >= 100 {
        part.cpu_limit * 3 / 2
    } else {
        part.cpu_limit * 3
    }
}

fn limit_memory() {
    // Address sanitizer reserves terabytes of address space, so the limit is for plain builds only.
    if cfg!(not(vh_asan)) {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
}

impl<C> Inner for Typed<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn shard(&self, seed: u64, cases: usize, cur: &Path, limit: u64, max_shrink: usize) -> ShardOut {
        let strategy = (self.strategy)();
        let mut runner = runner(seed);
        let mut out = ShardOut::default();
        let mut seen = HashSet::new();
        let cur_file = std::fs::File::create(cur).expect("cannot create progress file");
        use std::os::unix::fs::FileExt;
        for index in 0..cases {
            let mut tree = strategy.new_tree(&mut runner).expect("generator rejected");
            cur_file.write_at(&(index as u64).to_le_bytes(), 0).unwrap();
            let case = tree.current();
            let mut obs = Obs::default();
            arm_cpu_limit(limit);
            let began = Instant::now();
            let result = run_one(self.test, &case, &mut obs);
            let took = began.elapsed().as_secs_f64();
            if let Some(file) = slow_cases(took) {
                use std::io::Write;
                let _ = writeln!(&file, "{:.2} {}", took, serde_json::to_string(&case).unwrap());
            }
            out.evaluations += 1;
            for (k, v) in obs.classes {
                *out.classes.entry(k).or_insert(0) += v;
            }
            if obs.nontrivial {
                out.nontrivial += 1;
                let text = serde_json::to_string(&case).unwrap();
                if seen.insert(fnv(text.as_bytes())) && out.samples.len() < 3 && text.len() < 3000 {
                    out.samples.push(text);
                }
            }
            if let Err(message) = result {
                let mut best = (message, case);
                let begun = Instant::now();
                for _ in 0..max_shrink {
                    if begun.elapsed().as_secs() > SHRINK_SECONDS || !tree.simplify() {
                        break;
                    }
                    loop {
                        let candidate = tree.current();
                        arm_cpu_limit(limit);
                        match run_one(self.test, &candidate, &mut Obs::default()) {
                            Err(m) => {
                                best = (m, candidate);
                                break;
                            }
                            Ok(()) => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                out.failure = Some(Failure {
                    message: best.0,
                    case: serde_json::to_value(&best.1).unwrap(),
                });
                break;
            }
        }
        arm_cpu_limit(0);
        out.hashes = seen.into_iter().collect();
        out
    }

    fn isolate(&self, seed: u64, index: usize, limit: u64, budget: usize) -> (IsolateEnd, Option<Failure>) {
        let strategy = (self.strategy)();
        let mut runner = runner(seed);
        for _ in 0..index {
            strategy.new_tree(&mut runner).expect("generator rejected");
        }
        let mut tree = strategy.new_tree(&mut runner).expect("generator rejected");
        let test = self.test;
        let attempt = |case: &C, limit: u64| forked(|| run_one(test, case, &mut Obs::default()), limit);
        let first = attempt(&tree.current(), limit);
        let mut best = match &first {
            IsolateEnd::Passed | IsolateEnd::Killed => return (first, None),
            IsolateEnd::OutOfMemory => {
                let failure = Failure { message: "more than 3 GB of memory are not enough".into(), case: serde_json::to_value(&tree.current()).unwrap() };
                return (first, Some(failure));
            }
            IsolateEnd::Failed(m) => (m.clone(), tree.current()),
            IsolateEnd::Hung => ("no end within the CPU limit".to_string(), tree.current()),
        };
        let hung = first == IsolateEnd::Hung;
        let step_limit = if hung { 5 } else { limit };
        let mut spent = 0;
        let begun = Instant::now();
        'outer: while spent < budget && begun.elapsed().as_secs() < SHRINK_SECONDS && tree.simplify() {
            loop {
                spent += 1;
                let candidate = tree.current();
                let end = attempt(&candidate, step_limit);
                let fails = if hung { end == IsolateEnd::Hung } else { matches!(end, IsolateEnd::Failed(_)) };
                if fails {
                    if let IsolateEnd::Failed(m) = end {
                        best = (m, candidate);
                    } else {
                        best.1 = candidate;
                    }
                    break;
                }
                if spent >= budget || begun.elapsed().as_secs() >= SHRINK_SECONDS || !tree.complicate() {
                    break 'outer;
                }
            }
        }
        let failure = Failure { message: best.0, case: serde_json::to_value(&best.1).unwrap() };
        (first, Some(failure))
    }

    fn replay(&self, case: &serde_json::Value) -> Result<Check, String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("cannot read case: {}", e))?;
        Ok(run_one(self.test, &case, &mut Obs::default()))
    }

    fn dump(&self, seed: u64, n: usize) {
        let strategy = (self.strategy)();
        let mut runner = runner(seed);
        for _ in 0..n {
            let tree = strategy.new_tree(&mut runner).expect("generator rejected");
            eprintln!("{}", serde_json::to_string(&tree.current()).unwrap());
        }
    }
}

/// Runs `f` in a forked child and says how it ended. The process has a single thread.
fn forked<F: FnOnce() -> Check>(f: F, limit: u64) -> IsolateEnd {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(0, libc::pipe(fds.as_mut_ptr()));
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::dup2(fds[1], 2);
            arm_cpu_limit(limit);
            let r = f();
            if let Err(m) = r {
                let text = format!("\u{1}{}", m);
                libc::write(2, text.as_ptr() as *const _, text.len().min(60000));
                libc::_exit(1);
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut text = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            if text.len() < 200_000 {
                text.extend_from_slice(&buf[..n as usize]);
            }
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        let text = String::from_utf8_lossy(&text).to_string();
        classify_end(std::process::ExitStatus::from_raw(status), &text)
    }
}

fn classify_end(status: std::process::ExitStatus, text: &str) -> IsolateEnd {
    if status.success() {
        return IsolateEnd::Passed;
    }
    if status.code() == Some(77) {
        return IsolateEnd::Hung;
    }
    if status.signal() == Some(libc::SIGKILL) {
        // Ended from outside.
        return IsolateEnd::Killed;
    }
    if text.contains("memory allocation of") {
        return IsolateEnd::OutOfMemory;
    }
    if let Some(pos) = text.find('\u{1}') {
        return IsolateEnd::Failed(text[pos + 1..].to_string());
    }
    let head: String = text.lines().filter(|l| !l.trim().is_empty()).take(12).collect::<Vec<_>>().join(" | ");
    IsolateEnd::Failed(format!("process ended abnormally ({}): {}", status, head))
}

// ---------------------------------------------------------------------------------------------

struct Job {
    part: usize,
    shard: usize,
    seed: u64,
    cases: usize,
    out: PathBuf,
    cur: PathBuf,
    err: PathBuf,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VH_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp".into()))
}

fn shard_seed(prop: &str, part: &str, shard: usize) -> u64 {
    splitmix(base_seed() ^ splitmix(fnv(format!("{}/{}/{}", prop, part, shard).as_bytes())))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn main(props: Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: vh check <id> | replay <file> | list | dump <id> <part> <n>";
    let find = |id: &str| props.iter().find(|p| p.id == id);
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for p in &props {
                for part in &p.parts {
                    println!("{} {} quick={} thorough={}", p.id, part.name, part.quick, part.thorough);
                }
            }
            0
        }
        Some("dump") => {
            let p = find(&args[2]).expect(usage);
            let part = p.parts.iter().find(|q| q.name == args[3]).expect(usage);
            part.inner.dump(shard_seed(p.id, part.name, 0), args[4].parse().unwrap());
            0
        }
        Some("check") => {
            let p = match args.get(2).and_then(|id| find(id)) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property; {}", usage);
                    return 2;
                }
            };
            check(p)
        }
        Some("worker") => {
            // worker <id> <part index> <seed> <cases> <out> <cur>
            let p = find(&args[2]).expect(usage);
            let part = &p.parts[args[3].parse::<usize>().unwrap()];
            install_panic_hook();
            limit_memory();
            let out = part.inner.shard(
                args[4].parse().unwrap(),
                args[5].parse().unwrap(),
                Path::new(&args[7]),
                part.cpu_limit,
                part.max_shrink,
            );
            std::fs::write(&args[6], serde_json::to_vec(&out).unwrap()).unwrap();
            0
        }
        Some("isolate") => {
            // isolate <id> <part index> <seed> <index> <out>
            let p = find(&args[2]).expect(usage);
            let part = &p.parts[args[3].parse::<usize>().unwrap()];
            install_panic_hook();
            limit_memory();
            let (end, failure) = part.inner.isolate(
                args[4].parse().unwrap(),
                args[5].parse().unwrap(),
                alone_limit(part),
                if part.max_shrink > 200 { 400 } else { part.max_shrink },
            );
            let kind = match &end {
                IsolateEnd::Passed => "passed",
                IsolateEnd::Failed(_) => "failed",
                IsolateEnd::Hung => "hung",
                IsolateEnd::OutOfMemory => "oom",
                IsolateEnd::Killed => "killed",
            };
            std::fs::write(&args[6], serde_json::to_vec(&(kind, failure)).unwrap()).unwrap();
            0
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("cannot read replay file");
            let replay: Replay = serde_json::from_str(&text).expect("not a replay file");
            let p = find(&replay.property).expect("unknown property");
            let part = p.parts.iter().find(|q| q.name == replay.part).expect("unknown part");
            install_panic_hook();
            let _scratch = ensure_scratch();
            if let Some(seed) = replay.case.get("shard_seed").and_then(|v| v.as_u64()) {
                let cases = replay.case["cases"].as_u64().unwrap_or(1) as usize;
                let out = part.inner.shard(seed, cases, &scratch().join("replay.cur"), part.cpu_limit, 0);
                return match out.failure {
                    None => 0,
                    Some(f) => {
                        eprintln!("\u{1}{}", f.message);
                        1
                    }
                };
            }
            arm_cpu_limit(alone_limit(part));
            match part.inner.replay(&replay.case) {
                Ok(Ok(())) => {
                    eprintln!("replay: holds");
                    0
                }
                Ok(Err(m)) => {
                    eprintln!("\u{1}{}", m);
                    1
                }
                Err(m) => {
                    eprintln!("{}", m);
                    2
                }
            }
        }
        _ => {
            eprintln!("{}", usage);
            2
        }
    }
}

fn ensure_scratch() -> Option<Scratch> {
    if std::env::var("VH_SCRATCH").is_ok() {
        return None;
    }
    let dir = PathBuf::from(format!("/tmp/vh-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("cannot create scratch directory");
    std::env::set_var("VH_SCRATCH", &dir);
    Some(Scratch(dir))
}

fn spawn(args: &[String], err: &Path) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(err).unwrap())
        .spawn()
        .expect("cannot start worker")
}

struct Known {
    fingerprint: String,
    text: String,
}

/// Lines of known_findings.txt: `finding: property=<id> part=<part> fp=<case hash> <what fails>`;
/// `fixed:` lines suppress nothing.
fn known_findings(id: &str) -> Vec<Known> {
    let path = verif_dir().join("known_findings.txt");
    let mut out = Vec::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut words = rest.splitn(4, ' ');
            let (prop, part, fp, text) = (
                words.next().unwrap_or(""),
                words.next().unwrap_or(""),
                words.next().unwrap_or(""),
                words.next().unwrap_or(""),
            );
            if prop == format!("property={}", id) {
                out.push(Known { fingerprint: format!("{} {}", part, fp), text: text.to_string() });
            }
        }
    }
    out
}

fn check(prop: &Prop) -> i32 {
    let start = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let _scratch = ensure_scratch();
    let dir = scratch();
    let nproc = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    for known in known_findings(prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, known.text);
    }

    let mut totals: Vec<ShardOut> = prop.parts.iter().map(|_| ShardOut::default()).collect();
    let mut regress = 0u64;

    // 1. Regression corpus: shrunk failures of the past, replayed without the generator.
    let corpus = verif_dir().join("regress").join(prop.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&corpus)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for file in files.iter().filter(|f| f.extension().map_or(false, |e| e == "json")) {
        let replay: Replay = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            Some(r) => r,
            None => {
                eprintln!("unreadable regression file {}", file.display());
                return 2;
            }
        };
        let part = match prop.parts.iter().find(|p| p.name == replay.part) {
            Some(p) => p,
            None => continue, // part belongs to the other build of the harness
        };
        regress += 1;
        let err = dir.join("regress.err");
        let mut child = spawn(&["replay".into(), file.display().to_string()], &err);
        let status = child.wait().unwrap();
        let text = std::fs::read_to_string(&err).unwrap_or_default();
        match classify_end(status, &text) {
            IsolateEnd::Passed => {}
            IsolateEnd::Failed(m) => {
                if status.code() == Some(2) {
                    eprintln!("regression file {}: {}", file.display(), m);
                    return 2;
                }
                return report(prop, part, &Failure { message: m, case: replay.case }, start, &tier, &totals, regress);
            }
            IsolateEnd::Hung => {
                let f = Failure { message: "no end within the CPU limit".into(), case: replay.case };
                return report(prop, part, &f, start, &tier, &totals, regress);
            }
            IsolateEnd::OutOfMemory => {
                let f = Failure { message: "more than 3 GB of memory are not enough".into(), case: replay.case };
                return report(prop, part, &f, start, &tier, &totals, regress);
            }
            other => {
                eprintln!("regression file {}: {:?}", file.display(), other);
                return 2;
            }
        }
    }

    // 2. Generated cases, in shards.
    let mut jobs = Vec::new();
    for (index, part) in prop.parts.iter().enumerate() {
        let (q, t) = scale(prop.id);
        let cases = if thorough { part.thorough * t } else { part.quick * q };
        let shards = nshards(cases);
        for shard in 0..shards {
            let n = cases / shards + if shard < cases % shards { 1 } else { 0 };
            if n == 0 {
                continue;
            }
            let tag = format!("{}-{}-{}", prop.id, index, shard);
            jobs.push(Job {
                part: index,
                shard,
                seed: shard_seed(prop.id, part.name, shard),
                cases: n,
                out: dir.join(format!("{}.out", tag)),
                cur: dir.join(format!("{}.cur", tag)),
                err: dir.join(format!("{}.err", tag)),
            });
        }
    }
    let mut queue: Vec<Job> = jobs.into_iter().rev().collect();
    let mut running: Vec<(Job, Child)> = Vec::new();
    let mut verdict: Option<(usize, Failure)> = None;
    let mut broken: Option<String> = None;
    while verdict.is_none() && broken.is_none() && (!queue.is_empty() || !running.is_empty()) {
        while running.len() < nproc && !queue.is_empty() {
            let job = queue.pop().unwrap();
            let args: Vec<String> = vec![
                "worker".into(),
                prop.id.into(),
                job.part.to_string(),
                job.seed.to_string(),
                job.cases.to_string(),
                job.out.display().to_string(),
                job.cur.display().to_string(),
            ];
            let child = spawn(&args, &job.err);
            running.push((job, child));
        }
        let mut done = None;
        for (i, (_, child)) in running.iter_mut().enumerate() {
            if let Some(status) = child.try_wait().expect("wait failed") {
                done = Some((i, status));
                break;
            }
        }
        let (i, status) = match done {
            Some(d) => d,
            None => {
                std::thread::sleep(std::time::Duration::from_millis(5));
                continue;
            }
        };
        let (job, _) = running.remove(i);
        let part = &prop.parts[job.part];
        if status.success() {
            let out: ShardOut = serde_json::from_slice(&std::fs::read(&job.out).unwrap()).unwrap();
            let total = &mut totals[job.part];
            total.evaluations += out.evaluations;
            total.nontrivial += out.nontrivial;
            total.hashes.extend(out.hashes);
            for (k, v) in out.classes {
                *total.classes.entry(k).or_insert(0) += v;
            }
            if job.shard < 2 {
                total.samples.extend(out.samples);
            }
            if let Some(f) = out.failure {
                verdict = Some((job.part, f));
            }
        } else {
            // The worker died: find the case and look at it alone.
            let index = std::fs::read(&job.cur)
                .ok()
                .filter(|b| b.len() >= 8)
                .map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
            let err = std::fs::read_to_string(&job.err).unwrap_or_default();
            let index = match index {
                Some(i) => i,
                None => {
                    broken = Some(format!("worker of part {} died at start ({}): {}", part.name, status, err));
                    continue;
                }
            };
            let out = dir.join("isolate.out");
            let mut child = spawn(
                &[
                    "isolate".into(),
                    prop.id.into(),
                    job.part.to_string(),
                    job.seed.to_string(),
                    index.to_string(),
                    out.display().to_string(),
                ],
                &dir.join("isolate.err"),
            );
            let ok = child.wait().unwrap().success();
            let end: Option<(String, Option<Failure>)> =
                if ok { std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()) } else { None };
            match end {
                Some((kind, Some(f))) if kind == "failed" || kind == "oom" || kind == "hung" => {
                    verdict = Some((job.part, f));
                }
                Some((kind, _)) => {
                    if kind == "passed" && matches!(classify_end(status, &err), IsolateEnd::Failed(_)) {
                        // Crash that needs the cases before it (memory corrupted earlier).
                        verdict = Some((
                            job.part,
                            Failure {
                                message: format!("crash in a sequence of cases ({}): {}", status, err.chars().take(2000).collect::<String>()),
                                case: serde_json::json!({"shard_seed": job.seed, "cases": index + 1}),
                            },
                        ));
                    } else {
                        broken = Some(format!("part {} case {}: worker {} / alone: {}", part.name, index, status, kind));
                    }
                }
                None => broken = Some(format!("part {} case {}: cannot isolate ({})", part.name, index, status)),
            }
        }
    }
    for (_, child) in running.iter_mut() {
        let _ = child.kill();
        let _ = child.wait();
    }
    if let Some((p, f)) = verdict {
        return report(prop, &prop.parts[p], &f, start, &tier, &totals, regress);
    }
    if let Some(text) = broken {
        eprintln!("check {} could not decide: {}", prop.id, text);
        return 2;
    }
    for (i, part) in prop.parts.iter().enumerate() {
        if let Some(aggregate) = part.aggregate {
            if let Err(m) = aggregate(totals[i].evaluations, &totals[i].classes) {
                let f = Failure { message: m, case: serde_json::json!({"aggregate": totals[i].classes, "verif_seed": base_seed()}) };
                return report(prop, part, &f, start, &tier, &totals, regress);
            }
        }
    }
    evidence(prop, start, &tier, &totals, regress, 0);
    println!("OK property={} tier={} cases={} wall={:.1}s", prop.id, tier, totals.iter().map(|t| t.evaluations).sum::<u64>(), start.elapsed().as_secs_f64());
    0
}

fn nshards(cases: usize) -> usize {
    cases.min(16).max(1)
}

fn report(prop: &Prop, part: &Part, f: &Failure, start: Instant, tier: &str, totals: &[ShardOut], regress: u64) -> i32 {
    let text = serde_json::to_string(&f.case).unwrap();
    let fp = format!("{:016x}", fnv(text.as_bytes()));
    for known in known_findings(prop.id) {
        if known.fingerprint == format!("part={} fp={}", part.name, fp) {
            evidence(prop, start, tier, totals, regress, 0);
            return 0;
        }
    }
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", prop.id, part.name, fp));
    let replay = Replay { property: prop.id.into(), part: part.name.into(), message: f.message.clone(), case: f.case.clone() };
    std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).expect("cannot write replay file");
    evidence(prop, start, tier, totals, regress, 1);
    let mut err = std::io::stderr();
    let _ = writeln!(err, "part {}: {}", part.name, f.message.chars().take(4000).collect::<String>());
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    1
}

fn evidence(prop: &Prop, start: Instant, tier: &str, totals: &[ShardOut], regress: u64, violations: u64) {
    let mut evaluations = 0;
    let mut distinct = 0u64;
    let mut parts = serde_json::Map::new();
    let mut samples = Vec::new();
    let mut rules = Vec::new();
    for (part, t) in prop.parts.iter().zip(totals) {
        let unique: HashSet<u64> = t.hashes.iter().copied().collect();
        evaluations += t.evaluations;
        distinct += unique.len() as u64;
        rules.push(format!("{}: {}", part.name, part.rule));
        parts.insert(
            part.name.into(),
            serde_json::json!({"evaluations": t.evaluations, "nontrivial": t.nontrivial, "distinct_nontrivial": unique.len(), "classes": t.classes}),
        );
        for s in t.samples.iter().take(2) {
            samples.push(serde_json::json!({"part": part.name, "case": serde_json::from_str::<serde_json::Value>(s).unwrap()}));
        }
    }
    let path = verif_dir().join("evidence").join(format!("{}.json", prop.id));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let mut coverage = serde_json::json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "rule": rules.join("; "),
        "samples": samples,
        "parts": parts,
        "regression_cases_replayed": regress,
    });
    let mut wall = start.elapsed().as_secs_f64();
    // A second stage (another build of the harness) adds to the evidence of the first.
    if std::env::var("VH_STAGE").as_deref() == Ok("2") {
        if let Some(old) = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
            let c = &old["coverage"];
            coverage["evaluations"] = (c["evaluations"].as_u64().unwrap_or(0) + evaluations).into();
            coverage["distinct_nontrivial"] = (c["distinct_nontrivial"].as_u64().unwrap_or(0) + distinct).into();
            coverage["rule"] = format!("{}; {}", c["rule"].as_str().unwrap_or(""), rules.join("; ")).into();
            let mut all = c["samples"].as_array().cloned().unwrap_or_default();
            all.extend(coverage["samples"].as_array().cloned().unwrap_or_default());
            coverage["samples"] = all.into();
            if let (Some(a), Some(b)) = (coverage["parts"].as_object_mut(), c["parts"].as_object()) {
                for (k, v) in b {
                    a.insert(k.clone(), v.clone());
                }
            }
            wall += old["wall_s"].as_f64().unwrap_or(0.0);
        }
    }
    let doc = serde_json::json!({
        "property": prop.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base_seed(),
        "level": "exploration",
        "coverage": coverage,
        "assumptions": ["the reference model in harness/src/oracle.rs", "cases are drawn by the generators described in rule; absence of a violation is not a proof"],
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("cannot write evidence");
}

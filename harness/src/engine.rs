//! Runs one property: lanes of generated cases over worker processes, shrinking,
//! replay files and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// What a passing case exercised.
#[derive(Default, Clone, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, classes: Vec::new() }
    }
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.class(name);
        }
    }
}

pub type CaseResult = Result<Info, String>;

pub struct Lane<C: Debug> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: BoxedStrategy<C>,
}

pub fn lane<C: Debug>(name: &'static str, quick: u32, thorough: u32, strategy: BoxedStrategy<C>) -> Lane<C> {
    Lane { name, quick, thorough, strategy }
}

pub trait Prop: 'static {
    type Case: Clone + Debug + Serialize + DeserializeOwned + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    /// Cases may also open the device in the ways 1 to this (see `dev::STREAMS`)
    const STREAMS: u8 = 0;
    /// How often the numbers of cases of the lanes are made in the quick tier
    const TIMES: u32 = 1;
    fn assumptions() -> Vec<&'static str> {
        Vec::new()
    }
    fn lanes() -> Vec<Lane<Self::Case>>;
    fn run(case: &Self::Case) -> CaseResult;
    /// Cases covered exhaustively by worker 0, in addition to the lanes: (evaluations, description).
    fn exhaustive() -> Result<Option<(u64, String)>, (Self::Case, String)> {
        Ok(None)
    }
}

/// A case, and how the device is opened
#[derive(Clone, Debug)]
pub struct OnCase<C> {
    on: u8,
    case: C,
}

impl<C: Serialize> Serialize for OnCase<C> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        if self.on == 0 {
            return self.case.serialize(s);
        }
        let mut m = s.serialize_map(Some(2))?;
        m.serialize_entry("on", &self.on)?;
        m.serialize_entry("case", &self.case)?;
        m.end()
    }
}

impl<'de, C: DeserializeOwned> Deserialize<'de> for OnCase<C> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let mut v = Value::deserialize(d)?;
        let on = match v.as_object() {
            Some(o) if o.len() == 2 && o.contains_key("on") && o.contains_key("case") => v["on"].as_u64().unwrap_or(0) as u8,
            _ => 0,
        };
        let v = if on != 0 { v["case"].take() } else { v };
        Ok(OnCase { on, case: serde_json::from_value(v).map_err(D::Error::custom)? })
    }
}

/// A property whose cases open the device in several ways
pub struct On<P>(std::marker::PhantomData<P>);

impl<P: Prop> Prop for On<P> {
    type Case = OnCase<P::Case>;
    const ID: &'static str = P::ID;
    const RULE: &'static str = P::RULE;
    fn assumptions() -> Vec<&'static str> {
        P::assumptions()
    }
    fn lanes() -> Vec<Lane<Self::Case>> {
        use proptest::prelude::*;
        P::lanes().into_iter().map(|l| {
            let on = if P::STREAMS > 0 { prop_oneof![5 => Just(0), 2 => 1..=P::STREAMS].boxed() } else { Just(0).boxed() };
            let strategy = (on, l.strategy).prop_map(|(on, case)| OnCase { on, case }).boxed();
            let quick = l.quick * P::TIMES;
            Lane { name: l.name, quick, thorough: l.thorough.max(quick), strategy }
        }).collect()
    }
    fn run(c: &Self::Case) -> CaseResult {
        crate::dev::STREAMS.store(c.on.min(P::STREAMS), Ordering::SeqCst);
        let mut i = P::run(&c.case)?;
        match c.on {
            0 => (),
            1 => i.class("device is standard output"),
            2 => i.class("device is standard output, input from another device"),
            3 => i.class("descriptor above 1023"),
            _ => i.class("device is standard error"),
        }
        Ok(i)
    }
    fn exhaustive() -> Result<Option<(u64, String)>, (Self::Case, String)> {
        P::exhaustive().map_err(|(case, m)| (OnCase { on: 0, case }, m))
    }
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    hashes: Vec<u64>,
    classes: BTreeMap<String, u64>,
    lanes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<Failure>,
    exhaustive: Option<(u64, String)>,
    regressions: u64,
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    lane: String,
    message: String,
    case: Value,
}

// ---------------------------------------------------------------------------
// The case being run, kept in a shared file so that it survives an abort.

static CUR_PTR: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
const CUR_SIZE: usize = 1 << 22;
static CUR_LEN: AtomicUsize = AtomicUsize::new(0);

fn map_current(path: &Path) {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true)
        .open(path).expect("current-case file");
    f.set_len(CUR_SIZE as u64).expect("set_len");
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), CUR_SIZE, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    CUR_PTR.store(p as *mut u8, Ordering::SeqCst);
}

fn set_current(json: &[u8]) {
    let p = CUR_PTR.load(Ordering::SeqCst);
    if p.is_null() || json.len() + 8 > CUR_SIZE {
        return;
    }
    unsafe {
        std::ptr::copy_nonoverlapping(json.as_ptr(), p.add(8), json.len());
        (p as *mut u64).write_volatile(json.len() as u64);
    }
    CUR_LEN.store(json.len(), Ordering::SeqCst);
}

// ---------------------------------------------------------------------------
// Panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Exit status of a process in which one case does not end.
pub const HANG: i32 = 78;
static CASE_SERIAL: AtomicUsize = AtomicUsize::new(0);
static CASE_RUNNING: AtomicBool = AtomicBool::new(false);

/// Ends the process if one case takes longer than `secs`.
fn watchdog(secs: u32) {
    std::thread::spawn(move || {
        let (mut last, mut ticks) = (0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CASE_SERIAL.load(Ordering::SeqCst);
            if !CASE_RUNNING.load(Ordering::SeqCst) || cur != last {
                last = cur;
                ticks = 0;
            } else {
                ticks += 1;
                if ticks > 2 * secs {
                    unsafe { libc::_exit(HANG) }
                }
            }
        }
    });
}

struct Running;
impl Running {
    fn new() -> Running {
        CASE_SERIAL.fetch_add(1, Ordering::SeqCst);
        CASE_RUNNING.store(true, Ordering::SeqCst);
        Running
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        CASE_RUNNING.store(false, Ordering::SeqCst);
    }
}

/// Runs a case, turning a panic into a failure.
fn run_guarded<P: Prop>(case: &P::Case) -> CaseResult {
    let _running = Running::new();
    match catch_unwind(AssertUnwindSafe(|| P::run(case))) {
        Ok(r) => r,
        Err(_) => {
            crate::sim::deactivate();
            Err(format!("panic: {}", take_panic().unwrap_or_default()))
        }
    }
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(seed: u64, id: &str, lane: &str, worker: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (seed, id, lane, worker, i, "mortal-pbt").hash(&mut h);
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(1)
}

fn share(total: u32, worker: u32, workers: u32) -> u32 {
    total / workers + if worker < total % workers { 1 } else { 0 }
}

/// Worker process: runs its share of every lane.
pub fn worker<P: Prop>(worker: u32, workers: u32, tier: &str, out: &Path, scale: f64) -> i32 {
    install_panic_hook();
    watchdog(30);
    map_current(&out.with_extension("cur"));
    let seed = env_seed();
    let mut res = WorkerOut::default();

    if worker == 0 {
        // Regression cases of earlier failures
        for (name, value) in regressions(P::ID) {
            let case: P::Case = match serde_json::from_value(value.clone()) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("bad regression {}: {}", name, e);
                    return 2;
                }
            };
            set_current(serde_json::to_string(&case).unwrap().as_bytes());
            res.regressions += 1;
            res.evaluations += 1;
            if let Err(message) = run_guarded::<P>(&case) {
                res.failure = Some(Failure { lane: format!("regression {}", name), message, case: value });
                break;
            }
        }
        if res.failure.is_none() {
            match catch_unwind(AssertUnwindSafe(P::exhaustive)) {
                Ok(Ok(Some((n, d)))) => {
                    res.evaluations += n;
                    res.exhaustive = Some((n, d));
                }
                Ok(Ok(None)) => (),
                Ok(Err((case, message))) => {
                    res.failure = Some(Failure {
                        lane: "exhaustive".into(), message, case: serde_json::to_value(&case).unwrap(),
                    });
                }
                Err(_) => {
                    eprintln!("panic in exhaustive part: {:?}", take_panic());
                    return 2;
                }
            }
        }
    }

    let mut hashes: HashSet<u64> = HashSet::new();
    if res.failure.is_none() {
        for l in P::lanes() {
            let total = if tier == "thorough" { l.thorough } else { l.quick };
            let total = ((total as f64) * scale).ceil() as u32;
            let cases = share(total, worker, workers);
            if cases == 0 {
                continue;
            }
            if let Some(f) = run_lane::<P>(&l, cases, seed, worker, &mut res, &mut hashes) {
                res.failure = Some(f);
                break;
            }
        }
    }
    res.hashes = hashes.into_iter().collect();
    std::fs::write(out, serde_json::to_vec(&res).unwrap()).expect("write worker result");
    0
}

fn run_lane<P: Prop>(l: &Lane<P::Case>, cases: u32, seed: u64, worker: u32, res: &mut WorkerOut,
        hashes: &mut HashSet<u64>) -> Option<Failure> {
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 20_000,
        max_shrink_time: 60_000,
        max_global_rejects: 0,
        source_file: None,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, P::ID, l.name, worker));
    let mut runner = TestRunner::new_with_rng(config, rng);

    struct St<'a> {
        res: &'a mut WorkerOut,
        hashes: &'a mut HashSet<u64>,
        failed: bool,
        lane_samples: u32,
    }
    let st = RefCell::new(St { res, hashes, failed: false, lane_samples: 0 });

    let outcome = runner.run(&l.strategy, |case| {
        let text = serde_json::to_string(&case).unwrap();
        set_current(text.as_bytes());
        let r = run_guarded::<P>(&case);
        let mut st = st.borrow_mut();
        match r {
            Ok(info) => {
                if !st.failed {
                    st.res.evaluations += 1;
                    *st.res.lanes.entry(l.name.to_owned()).or_insert(0) += 1;
                    for c in &info.classes {
                        *st.res.classes.entry(c.to_string()).or_insert(0) += 1;
                    }
                    if info.nontrivial {
                        let fresh = st.hashes.insert(fnv(text.as_bytes()));
                        if fresh && worker == 0 && st.lane_samples < 1 && text.len() < 6000 {
                            st.lane_samples += 1;
                            let v: Value = serde_json::from_str(&text).unwrap();
                            st.res.samples.push(json!({"lane": l.name, "case": v}));
                        }
                    }
                }
                Ok(())
            }
            Err(m) => {
                st.failed = true;
                Err(TestCaseError::fail(m))
            }
        }
    });
    match outcome {
        Ok(()) => None,
        Err(TestError::Fail(_, value)) => {
            // The reason kept by the runner may be that of an earlier case; run again.
            let message = match run_guarded::<P>(&value) {
                Err(m) => m,
                Ok(_) => "shrunk case did not fail again".to_owned(),
            };
            Some(Failure {
                lane: l.name.to_owned(),
                message,
                case: serde_json::to_value(&value).unwrap(),
            })
        }
        Err(TestError::Abort(r)) => panic!("generator aborted: {}", r),
    }
}

static REPLAYING: AtomicBool = AtomicBool::new(false);

/// One case is being replayed: cases that depend on the schedule run more often.
pub fn replaying() -> bool {
    REPLAYING.load(Ordering::SeqCst)
}

/// `replay FILE`: exit 0 if the case passes, 1 if it fails.
pub fn replay<P: Prop>(case: Value) -> i32 {
    install_panic_hook();
    REPLAYING.store(true, Ordering::SeqCst);
    watchdog(std::env::var("MORTAL_PBT_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(15));
    let case: P::Case = match serde_json::from_value(case) {
        Ok(c) => c,
        Err(e) => {
            println!("cannot decode case: {}", e);
            return 2;
        }
    };
    match run_guarded::<P>(&case) {
        Ok(_) => {
            println!("PASS");
            0
        }
        Err(m) => {
            println!("FAIL: {}", m);
            1
        }
    }
}

/// `show ID`: prints some generated cases of each lane, for looking at distributions.
pub fn show<P: Prop>(n: u32, only: Option<&str>) -> i32 {
    install_panic_hook();
    for l in P::lanes() {
        if only.map_or(false, |o| o != l.name) {
            continue;
        }
        let mut res = WorkerOut::default();
        let mut hashes = HashSet::new();
        let t = Instant::now();
        let f = run_lane::<P>(&l, n, env_seed(), 0, &mut res, &mut hashes);
        println!("lane {}: {} cases, {} nontrivial distinct, {:?}, classes {:?}",
            l.name, res.evaluations, hashes.len(), t.elapsed(), res.classes);
        for s in &res.samples {
            let s = s.to_string();
            println!("   {}", s.chars().take(600).collect::<String>());
        }
        if let Some(f) = f {
            println!("   FAIL {}\n   {}", f.message, f.case);
        }
    }
    0
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")))
}

fn regressions(id: &str) -> Vec<(String, Value)> {
    let dir = verif_dir().join("harness/regressions").join(id);
    let mut out = Vec::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        names.sort();
        for p in names {
            if p.extension().map_or(false, |e| e == "json") {
                let v: Value = serde_json::from_slice(&std::fs::read(&p).unwrap()).expect("regression json");
                let case = v.get("case").cloned().unwrap_or(v);
                out.push((p.file_name().unwrap().to_string_lossy().into_owned(), case));
            }
        }
    }
    out
}

pub fn read_current(path: &Path) -> Option<Value> {
    let data = std::fs::read(path).ok()?;
    let len = u64::from_le_bytes(data.get(..8)?.try_into().ok()?) as usize;
    serde_json::from_slice(data.get(8..8 + len)?).ok()
}

/// Exit status of a worker when one case makes an unbounded number of device calls.
pub const RUNAWAY: i32 = 77;

/// Whether a child was stopped by a signal; nothing would ever continue it.
pub fn stopped(pid: u32) -> bool {
    std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()
        .and_then(|s| s.rsplit(')').next().map(|r| r.trim_start().starts_with('T'))).unwrap_or(false)
}

fn hang_status() -> std::process::ExitStatus {
    std::os::unix::process::ExitStatusExt::from_raw(HANG << 8)
}

/// Runs a replay to its end; one that is stopped or does not end counts as hanging.
fn run_replay(cmd: &mut Command) -> std::process::ExitStatus {
    let t0 = Instant::now();
    let mut child = cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn replay");
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return st;
        }
        if stopped(child.id()) || t0.elapsed() > Duration::from_secs(120) {
            let _ = child.kill();
            let _ = child.wait();
            return hang_status();
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Parent process of `check ID`.
pub fn check<P: Prop>(tier: &str, workers: u32, scale: f64) -> i32 {
    let t0 = Instant::now();
    let vd = verif_dir();
    let scratch = std::env::temp_dir().join(format!("mortal-pbt-{}-{}", P::ID, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch dir");
    let code = check_in::<P>(tier, workers, scale, &vd, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn check_in<P: Prop>(tier: &str, workers: u32, scale: f64, vd: &Path, scratch: &Path, t0: Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 800 });
    let mut kids = Vec::new();
    for w in 0..workers {
        let out = scratch.join(format!("w{}", w));
        let err = std::fs::File::create(out.with_extension("err")).unwrap();
        let child = Command::new(&exe)
            .arg("worker").arg(P::ID).arg(w.to_string()).arg(workers.to_string()).arg(tier).arg(&out)
            .arg(scale.to_string())
            .env("MORTAL_PBT_SCRATCH", scratch)
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(err)
            .spawn().expect("spawn worker");
        kids.push((w, out, child, None));
    }
    loop {
        let mut running = false;
        for k in kids.iter_mut() {
            if k.3.is_none() {
                match k.2.try_wait().expect("wait") {
                    Some(st) => k.3 = Some(st),
                    None if stopped(k.2.id()) => {
                        let _ = k.2.kill();
                        let _ = k.2.wait();
                        k.3 = Some(hang_status());
                    }
                    None => running = true,
                }
            }
        }
        if !running {
            break;
        }
        if t0.elapsed() > limit {
            for k in kids.iter_mut() {
                let _ = k.2.kill();
                let _ = k.2.wait();
            }
            println!("ERROR: time limit reached; no result");
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
    }

    let mut total = WorkerOut::default();
    let mut hashes = HashSet::new();
    let mut failure: Option<Failure> = None;
    let mut error = None;
    for (w, out, _, st) in &kids {
        let st = st.unwrap();
        if st.success() {
            let r: WorkerOut = serde_json::from_slice(&std::fs::read(out).unwrap()).unwrap();
            total.evaluations += r.evaluations;
            total.regressions += r.regressions;
            hashes.extend(r.hashes);
            for (k, v) in r.classes {
                *total.classes.entry(k).or_insert(0) += v;
            }
            for (k, v) in r.lanes {
                *total.lanes.entry(k).or_insert(0) += v;
            }
            total.samples.extend(r.samples);
            if r.exhaustive.is_some() {
                total.exhaustive = r.exhaustive;
            }
            if let Some(f) = r.failure {
                // Prefer the smallest case
                let better = failure.as_ref().map_or(true, |g| f.case.to_string().len() < g.case.to_string().len());
                if better {
                    failure = Some(f);
                }
            }
        } else {
            use std::os::unix::process::ExitStatusExt;
            let sig = st.signal();
            let fatal = matches!(sig, Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGBUS)
                | Some(libc::SIGILL) | Some(libc::SIGFPE)) || matches!(st.code(), Some(RUNAWAY) | Some(HANG));
            let cur = read_current(&out.with_extension("cur"));
            let err = std::fs::read(out.with_extension("err")).unwrap_or_default();
            let err = String::from_utf8_lossy(&err).chars().take(1500).collect::<String>();
            match (fatal, cur) {
                (true, Some(case)) => {
                    // Believe it only if the recorded case does it again on its own.
                    let f = scratch.join("crash.json");
                    std::fs::write(&f, json!({"property": P::ID, "case": case}).to_string()).unwrap();
                    let again = run_replay(Command::new(&exe).arg("replay").arg(&f)
                        .env("MORTAL_PBT_SCRATCH", scratch));
                    if !again.success() && again.code() != Some(2) {
                        if failure.is_none() {
                            let case = shrink_crash(&exe, scratch, P::ID, case);
                            failure = Some(Failure {
                                lane: "crash".into(),
                                message: format!("process died or hung ({}) while running this case; alone: {}", st, again),
                                case,
                            });
                        }
                    } else {
                        error = Some(format!("worker {} died ({}), not reproduced: {}", w, st, err));
                    }
                }
                _ => error = Some(format!("worker {} ended with {}: {}", w, st, err)),
            }
        }
    }

    if let Some(e) = &error {
        if failure.is_none() {
            println!("ERROR: {}", e);
            return 2;
        }
    }

    let mut code = 0;
    if let Some(f) = &failure {
        let rd = vd.join("replay");
        std::fs::create_dir_all(&rd).unwrap();
        let path = rd.join(format!("{}-seed{}.json", P::ID, env_seed()));
        let body = json!({"property": P::ID, "lane": f.lane, "message": f.message, "case": f.case});
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        let path = path.canonicalize().unwrap_or(path);
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        println!("lane: {}", f.lane);
        println!("message: {}", f.message.chars().take(3000).collect::<String>());
        println!("case: {}", f.case.to_string().chars().take(3000).collect::<String>());
        code = 1;
    }

    known_findings(&exe, scratch, P::ID, vd);

    let wall = t0.elapsed().as_secs_f64();
    let mut coverage = json!({
        "evaluations": total.evaluations,
        "distinct_nontrivial": hashes.len(),
        "rule": P::RULE,
        "lanes": total.lanes,
        "classes": total.classes,
        "regression_cases": total.regressions,
        "workers": workers,
        "samples": total.samples,
    });
    if let Some((n, d)) = &total.exhaustive {
        coverage["exhaustive_part"] = json!({"evaluations": n, "what": d});
    }
    let ev = json!({
        "property": P::ID,
        "tier": tier,
        "seed": env_seed() as i64,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": P::assumptions(),
        "wall_s": wall,
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    std::fs::create_dir_all(vd.join("evidence")).unwrap();
    std::fs::write(vd.join("evidence").join(format!("{}.json", P::ID)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s{}", P::ID, total.evaluations, hashes.len(), wall,
        if failure.is_some() { ", FAILED" } else { "" });
    code
}

/// Runs the listed findings of a property, and prints those that still fail.
fn known_findings(exe: &Path, scratch: &Path, id: &str, vd: &Path) {
    let v: Value = match std::fs::read(vd.join("known_findings.json")).ok().and_then(|d| serde_json::from_slice(&d).ok()) {
        Some(v) => v,
        None => return,
    };
    for f in v["findings"].as_array().into_iter().flatten().filter(|f| f["property"] == id) {
        let file = scratch.join("known.json");
        std::fs::write(&file, json!({"property": id, "case": f["case"]}).to_string()).unwrap();
        let st = run_replay(Command::new(exe).arg("replay").arg(&file).env("MORTAL_PBT_SCRATCH", scratch));
        if !st.success() && st.code() != Some(2) {
            println!("KNOWN-FINDING: property={} {}", id, f["what"].as_str().unwrap_or(""));
        }
    }
}

/// Greedy structural shrinking of a crashing case: removes elements of arrays while the
/// replay process still dies.
fn shrink_crash(exe: &Path, scratch: &Path, id: &str, case: Value) -> Value {
    let t0 = Instant::now();
    let dies = |v: &Value| -> bool {
        let f = scratch.join("shrink.json");
        std::fs::write(&f, json!({"property": id, "case": v}).to_string()).unwrap();
        let st = run_replay(Command::new(exe).arg("replay").arg(&f).env("MORTAL_PBT_SCRATCH", scratch)
            .env("MORTAL_PBT_HANG", "3"));
        !st.success() && st.code() != Some(2) && st.code() != Some(1)
    };
    fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
        match v {
            Value::Array(a) => {
                out.push((path.clone(), a.len()));
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    arrays(x, path, out);
                    path.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    path.push(k.clone());
                    arrays(x, path, out);
                    path.pop();
                }
            }
            _ => (),
        }
    }
    let mut cur = case;
    loop {
        let mut progress = false;
        let mut arrs = Vec::new();
        arrays(&cur, &mut Vec::new(), &mut arrs);
        'outer: for (path, len) in arrs {
            for i in (0..len).rev() {
                if t0.elapsed() > Duration::from_secs(30) {
                    return cur;
                }
                let mut cand = cur.clone();
                {
                    let mut p = &mut cand;
                    for k in &path {
                        p = match p {
                            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
                            Value::Object(o) => o.get_mut(k).unwrap(),
                            _ => unreachable!(),
                        };
                    }
                    p.as_array_mut().unwrap().remove(i);
                }
                if dies(&cand) {
                    cur = cand;
                    progress = true;
                    break 'outer;
                }
            }
        }
        if !progress {
            return cur;
        }
    }
}

//! Property-test driver: seeded proptest runners over choice tapes, replay files,
//! CPU-time watchdog, statistics and evidence.
use crate::tape::Tape;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const WORKERS: usize = 8;
const HANG_CPU_S: f64 = 40.0;
const MEM_LIMIT: u64 = 14 << 30;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Call into the code under test; a panic there becomes Err(message).
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let old = IN_LIB.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(old));
    r.map_err(|_| format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        if IN_LIB.with(|c| c.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = msg.replace('\n', " "));
        } else {
            eprintln!("HARNESS ERROR: {msg}");
            std::process::exit(2);
        }
    }));
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Rec {
    pub labels: Vec<&'static str>,
    pub hash: u64,
    pub nontrivial: bool,
    pub evals: u64,
    /// set in replay / sampling mode: render inputs
    pub verbose: bool,
    pub input: String,
    pub sample: Option<String>,
}
impl Rec {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    pub fn key<T: Hash>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash.hash(&mut h);
        t.hash(&mut h);
        self.hash = h.finish();
    }
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            eprintln!("INPUT {s}");
            self.input.push_str(&s);
            self.input.push('\n');
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f())
        }
    }
}

pub type CaseFn = fn(&mut Tape, &mut Rec) -> Result<(), String>;

pub enum Gen {
    /// random tapes: (max length, weight)
    Random { quick: usize, thorough: usize, sizes: &'static [(usize, u32)] },
    /// every index 0..n as a one-word tape
    Enumerate { quick: usize, thorough: usize },
}
pub struct Phase {
    pub name: &'static str,
    pub gen: Gen,
    pub case: CaseFn,
    pub workers: usize,
}
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub phases: Vec<Phase>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
    trivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}
impl Stats {
    fn add(&mut self, r: Rec) {
        self.cases += 1;
        self.evaluations += r.evals.max(1);
        if r.nontrivial {
            self.nontrivial.insert(r.hash);
        } else {
            self.trivial += 1;
        }
        for l in r.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if let Some(s) = r.sample {
            let c = self.cases;
            if r.nontrivial && self.samples.len() < 3 && (c % 37 == 0 || c < 3) {
                self.samples.push(s.chars().take(1500).collect());
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.cases += o.cases;
        self.trivial += o.trivial;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
    }
}

struct Slot {
    clock: libc::clockid_t,
    start: AtomicU64, // thread CPU ns at case start; 0 = idle
    tape: Mutex<Vec<u32>>,
    phase: usize,
}
fn clock_ns(c: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(c, &mut ts) } != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096)
        .unwrap_or(0)
}

struct Failure {
    phase: usize,
    worker: usize,
    tape: Vec<u32>,
    msg: String,
}

pub struct Ctx {
    pub tier: String,
    pub seed: u64,
}

/// `open: property=<id> key=<key> <what fails>` lines of KNOWN_FINDINGS.txt: (key, text)
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string("KNOWN_FINDINGS.txt").unwrap_or_default();
    let pre = format!("open: property={id} key=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((l.to_string(), String::new())))
        .collect()
}
/// A case that fails with a listed signature says so by starting its message with "[[key]] ".
pub fn finding(key: &str, msg: impl std::fmt::Display) -> String {
    format!("[[{key}]] {msg}")
}
fn key_of(msg: &str) -> Option<&str> {
    msg.strip_prefix("[[")?.split_once("]]").map(|x| x.0)
}

/// Tapes under way, one slot per worker, in a file that outlives the process.
pub const SLOT_WORDS: usize = 1 << 15;
pub struct Shared(*mut u32);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    pub fn open(path: &str) -> Option<Shared> {
        use std::os::fd::AsRawFd;
        let len = SLOT_WORDS * 4 * WORKERS;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len(len as u64).ok()?;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(Shared(p as *mut u32))
    }
    fn at(&self, w: usize) -> *mut u32 {
        unsafe { self.0.add(w * SLOT_WORDS) }
    }
    /// word 0: 1 while a case runs; 1: phase; 2: length; then the tape
    fn begin(&self, w: usize, phase: usize, tape: &[u32]) {
        let n = tape.len().min(SLOT_WORDS - 3);
        unsafe {
            let p = self.at(w);
            *p.add(1) = phase as u32;
            *p.add(2) = n as u32;
            std::ptr::copy_nonoverlapping(tape.as_ptr(), p.add(3), n);
            std::ptr::write_volatile(p, 1);
        }
    }
    fn end(&self, w: usize) {
        unsafe { std::ptr::write_volatile(self.at(w), 0) }
    }
    pub fn running(&self) -> Vec<(usize, Vec<u32>)> {
        let mut v = vec![];
        for w in 0..WORKERS {
            unsafe {
                let p = self.at(w);
                if *p == 1 {
                    let n = *p.add(2) as usize;
                    v.push((*p.add(1) as usize, std::slice::from_raw_parts(p.add(3), n).to_vec()));
                }
            }
        }
        v
    }
}
pub static SHARED: std::sync::OnceLock<Shared> = std::sync::OnceLock::new();

pub fn run_check(check: &Check, ctx: &Ctx) -> i32 {
    let t0 = Instant::now();
    let slots: Arc<Mutex<Vec<Arc<Slot>>>> = Default::default();
    let done = Arc::new(AtomicBool::new(false));
    {
        // watchdog: CPU time of one case, never wall time
        let slots = slots.clone();
        let done = done.clone();
        let id = check.id;
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if done.load(Ordering::SeqCst) {
                return;
            }
            let mem = rss();
            let list = slots.lock().unwrap().clone();
            let mut worst: Option<(f64, Arc<Slot>)> = None;
            for s in list {
                let st = s.start.load(Ordering::SeqCst);
                if st == 0 {
                    continue;
                }
                let used = clock_ns(s.clock).saturating_sub(st) as f64 / 1e9;
                if worst.as_ref().map(|w| used > w.0).unwrap_or(true) {
                    worst = Some((used, s));
                }
            }
            if let Some((used, s)) = worst {
                if used > HANG_CPU_S || (mem > MEM_LIMIT && used > 1.0) {
                    let tape = s.tape.lock().unwrap().clone();
                    let why = if used > HANG_CPU_S {
                        format!("no result after {used:.0} s of CPU time (usual: milliseconds)")
                    } else {
                        format!("memory grew past {} GiB after {used:.1} s of CPU time in one call", MEM_LIMIT >> 30)
                    };
                    let input = crate::render_in_child(id, s.phase, &tape);
                    let path = write_replay(id, s.phase, &tape, &why, &input);
                    println!("{why}");
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
            }
        });
    }
    let known = known(check.id);
    let mut stats = Stats::default();
    let mut per_phase = vec![];
    let mut failure: Option<Failure> = None;
    for (pi, phase) in check.phases.iter().enumerate() {
        let p0 = Instant::now();
        let thorough = ctx.tier == "thorough";
        let results: Vec<(Stats, Option<Failure>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..phase.workers)
                .map(|w| {
                    let slots = slots.clone();
                    let known = &known;
                    std::thread::Builder::new()
                        .stack_size(1 << 29)
                        .spawn_scoped(sc, move || {
                            let mut clock: libc::clockid_t = 0;
                            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                            let slot = Arc::new(Slot { clock, start: AtomicU64::new(0), tape: Mutex::new(vec![]), phase: pi });
                            slots.lock().unwrap().push(slot.clone());
                            let r = run_worker(phase, pi, w, thorough, ctx.seed, &slot, known);
                            slot.start.store(0, Ordering::SeqCst);
                            slots.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &slot));
                            r
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| {
                    eprintln!("HARNESS ERROR: worker died");
                    std::process::exit(2)
                }))
                .collect()
        });
        let mut ps = Stats::default();
        for (s, f) in results {
            ps.merge(s);
            if failure.is_none() {
                failure = f;
            }
        }
        per_phase.push(serde_json::json!({
            "phase": phase.name,
            "cases": ps.cases,
            "evaluations": ps.evaluations,
            "distinct_nontrivial": ps.nontrivial.len(),
            "trivial": ps.trivial,
            "exhaustive_enumeration": matches!(phase.gen, Gen::Enumerate{..}),
            "classes": ps.labels.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
            "wall_s": p0.elapsed().as_secs_f64(),
        }));
        if std::env::var("JLX_VERBOSE").is_ok() {
            eprintln!("{}", serde_json::to_string_pretty(per_phase.last().unwrap()).unwrap());
        }
        stats.merge(ps);
        if failure.is_some() {
            break;
        }
    }
    done.store(true, Ordering::SeqCst);
    let mut code = 0;
    for (k, text) in &known {
        println!("KNOWN-FINDING: property={} {} {} (seen {} times in this run)", check.id, k, text, stats.known.get(k).unwrap_or(&0));
    }
    if let Some(f) = &failure {
        let phase = &check.phases[f.phase];
        let mut rec = Rec { verbose: true, ..Default::default() };
        let again = (phase.case)(&mut Tape::new(&f.tape), &mut rec);
        let msg = match &again {
            Err(m) => m.clone(),
            Ok(()) => format!("(not reproduced when run again on its own) {}", f.msg),
        };
        let path = write_replay(check.id, f.phase, &f.tape, &msg, &rec.input);
        println!("phase {} worker {}: {}", phase.name, f.worker, msg);
        println!("VIOLATION property={} replay={}", check.id, path);
        code = 1;
    }
    let mut samples = stats.samples.clone();
    samples.truncate(6);
    let ev = serde_json::json!({
        "property": check.id,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "cases": stats.cases,
            "distinct_nontrivial": stats.nontrivial.len(),
            "trivial": stats.trivial,
            "rule": check.rule,
            "samples": samples,
            "phases": per_phase,
        },
        "known_findings_hit": stats.known,
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 0 { 0 } else { 1 },
    });
    std::fs::create_dir_all("evidence").ok();
    if let Err(e) = std::fs::write(format!("evidence/{}.json", check.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("HARNESS ERROR: cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s: {}",
        check.id,
        stats.cases,
        stats.evaluations,
        stats.nontrivial.len(),
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

fn run_worker(phase: &Phase, pi: usize, w: usize, thorough: bool, seed: u64, slot: &Slot, known: &[(String, String)]) -> (Stats, Option<Failure>) {
    let stats = RefCell::new(Stats::default());
    let failed = Cell::new(false);
    let one = |tape: &[u32]| -> Result<(), String> {
        *slot.tape.lock().unwrap() = tape.to_vec();
        slot.start.store(clock_ns(slot.clock).max(1), Ordering::SeqCst);
        let mut rec = Rec::default();
        if let Some(sh) = SHARED.get() {
            sh.begin(w, pi, tape);
        }
        let mut r = (phase.case)(&mut Tape::new(tape), &mut rec);
        if let Some(sh) = SHARED.get() {
            sh.end(w);
        }
        slot.start.store(0, Ordering::SeqCst);
        if let Err(m) = &r {
            if let Some(k) = key_of(m) {
                if known.iter().any(|(n, _)| n == k) {
                    *stats.borrow_mut().known.entry(k.to_string()).or_default() += 1;
                    r = Ok(());
                }
            }
        }
        if r.is_err() {
            failed.set(true);
        }
        if !failed.get() {
            stats.borrow_mut().add(rec);
        }
        r
    };
    match phase.gen {
        Gen::Enumerate { quick, thorough: th } => {
            let n = if thorough { th } else { quick };
            let mut i = w;
            while i < n {
                let tape = [i as u32];
                if let Err(msg) = one(&tape) {
                    return (stats.into_inner(), Some(Failure { phase: pi, worker: w, tape: tape.to_vec(), msg }));
                }
                i += phase.workers;
            }
            (stats.into_inner(), None)
        }
        Gen::Random { quick, thorough: th, sizes } => {
            let n = (if thorough { th } else { quick }).div_ceil(phase.workers);
            let mut seedb = [0u8; 32];
            seedb[..8].copy_from_slice(&seed.to_le_bytes());
            seedb[8..16].copy_from_slice(&(w as u64 + 1).to_le_bytes());
            seedb[16..24].copy_from_slice(&(pi as u64 + 1).to_le_bytes());
            let config = Config {
                cases: n as u32,
                failure_persistence: None,
                max_shrink_iters: 30000,
                max_shrink_time: 60_000,
                verbose: 0,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seedb));
            let strategy = proptest::strategy::Union::new_weighted(
                sizes.iter().map(|(len, wt)| (*wt, pvec(any::<u32>(), 1..=*len).boxed())).collect(),
            );
            let res = runner.run(&strategy, |tape| one(&tape).map_err(TestCaseError::fail));
            match res {
                Ok(()) => (stats.into_inner(), None),
                Err(TestError::Fail(reason, tape)) => (
                    stats.into_inner(),
                    Some(Failure { phase: pi, worker: w, tape: trim(tape), msg: reason.message().to_string() }),
                ),
                Err(TestError::Abort(r)) => {
                    eprintln!("HARNESS ERROR: proptest aborted: {r}");
                    std::process::exit(2)
                }
            }
        }
    }
}

fn trim(mut t: Vec<u32>) -> Vec<u32> {
    // the generators read fuel from "tape exhausted", so trailing words may matter; keep as is
    t.shrink_to_fit();
    t
}

pub fn write_replay(id: &str, phase: usize, tape: &[u32], msg: &str, input: &str) -> String {
    std::fs::create_dir_all("replay").ok();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    tape.hash(&mut h);
    let path = format!("replay/{id}-{phase}-{:08x}.json", h.finish() as u32);
    let v = serde_json::json!({
        "property": id, "phase": phase, "tape": tape, "message": msg, "input": input,
        "how": format!("cd /verif && ./check.sh {id} quick --replay {path}"),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
    format!("/verif/{path}")
}

pub fn replay(check: &Check, file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay JSON");
    let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let phase = v["phase"].as_u64().unwrap() as usize;
    let case = check.phases[phase].case;
    let r = std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(move || {
            let mut rec = Rec { verbose: true, ..Default::default() };
            case(&mut Tape::new(&tape), &mut rec)
        })
        .unwrap()
        .join()
        .unwrap();
    match r {
        Ok(()) => {
            println!("replay: the property holds on this input");
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", check.id, file);
            1
        }
    }
}

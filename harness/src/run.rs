//! The monitor runtime: runs the cases of a check on a pool of threads, watches every call into the
//! code under test (panics, CPU time, memory, and - from the parent process - deaths by signal),
//! collects what was observed, and turns it into a verdict, an evidence file and replays.

use crate::rng::{hash_bytes, mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- memory monitor

/// Counts the live and peak heap bytes of each thread.
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
static WHOLE: AtomicBool = AtomicBool::new(false);
static ALL: AtomicI64 = AtomicI64::new(0);
/// From now on, count the live bytes of the whole process too.
pub fn watch_process() {
    WHOLE.store(true, SeqCst)
}
pub fn process_bytes() -> i64 {
    ALL.load(SeqCst)
}
fn account(d: i64) {
    if WHOLE.load(std::sync::atomic::Ordering::Relaxed) {
        ALL.fetch_add(d, SeqCst);
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        account(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
/// Runs `f` and gives the heap bytes it had live at its worst moment.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = LIVE.with(|l| l.get());
    let old = PEAK.with(|p| p.replace(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(old.max(peak)));
    (r, peak - base)
}

// ---------------------------------------------------------------- panic monitor

thread_local! {
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_monitor() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_CALL.with(|c| c.get()) {
            let msg = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", at, msg));
        } else {
            old(i)
        }
    }));
}

// ---------------------------------------------------------------- cases

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Case) -> Res;

#[derive(Clone, Copy)]
pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}
pub fn stage(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Stage {
    Stage { name, quick, thorough, f }
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial (for the evidence).
    pub rule: &'static str,
    pub stages: Vec<Stage>,
    /// Counters that must have been reached, or the run observed too little to give an answer.
    pub need: Vec<(&'static str, u64)>,
    pub assumptions: Vec<&'static str>,
    /// What may happen now and then, but not often.
    pub limits: Vec<Limit>,
}

/// Over a whole run, `bad` may be counted at most in the share `share` of what `of` counts
/// (plus what chance adds to that, and `slack`).
#[derive(Clone)]
pub struct Limit {
    pub bad: String,
    pub of: String,
    pub share: f64,
    pub slack: u64,
}
pub fn limit(bad: &str, of: &str, share: f64, slack: u64) -> Limit {
    Limit { bad: bad.into(), of: of.into(), share, slack }
}
impl Limit {
    pub fn allowed(&self, n: u64) -> u64 {
        let e = n as f64 * self.share;
        (e + 4.0 * e.sqrt()).ceil() as u64 + self.slack
    }
}
pub const WHOLE_RUN: &str = "whole-run";

#[derive(Default)]
struct Gathered {
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    evaluations: u64,
    calls: u64,
    per_stage: BTreeMap<String, u64>,
    /// The first few cases behind the counters that are limited.
    rare: BTreeMap<String, Vec<String>>,
    /// The slowest call of every stage: CPU nanoseconds and case.
    slowest: BTreeMap<String, (u64, u64)>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub total: u64,
    pub thorough: bool,
    pub scratch: &'a Path,
    slot: &'a Slot,
    counts: BTreeMap<String, u64>,
    fps: Vec<u64>,
    note: Option<String>,
    pub art: Vec<(String, Vec<u8>)>,
    calls: u64,
    slowest: u64,
    /// CPU nanoseconds of the last call.
    pub last: u64,
    want_note: bool,
    pub replaying: bool,
}

impl<'a> Case<'a> {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    /// Record a distinct non-trivial execution by the fingerprint of its input.
    pub fn seen(&mut self, fp: u64) {
        self.fps.push(fp)
    }
    /// Write the case out (kept for a few cases of every stage, and for violations).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note || self.replaying {
            self.note = Some(f())
        }
    }
    /// A call into the code under test. A panic is reported as an error.
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.calls += 1;
        self.slot.enter();
        IN_CALL.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CALL.with(|c| c.set(false));
        self.last = self.slot.leave();
        self.slowest = self.slowest.max(self.last);
        r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
    }
    pub fn artefact(&mut self, name: &str, b: Vec<u8>) {
        self.art.push((name.to_string(), b))
    }
}

/// Like `Case::call`, for threads a case starts itself.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(old));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Fails the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- CPU-time monitor

struct Slot {
    clock: AtomicU64,   // clockid + 1 of the worker
    entered: AtomicU64, // CPU ns at entry of the call + 1, or 0 outside
    stage: AtomicUsize,
    idx: AtomicU64,
}
impl Slot {
    fn new() -> Slot {
        Slot { clock: AtomicU64::new(0), entered: AtomicU64::new(0), stage: AtomicUsize::new(0), idx: AtomicU64::new(0) }
    }
    fn bind(&self) {
        let mut c: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
        self.clock.store(c as u32 as u64 + 1, SeqCst);
    }
    fn cpu(&self) -> Option<u64> {
        let c = self.clock.load(SeqCst);
        if c == 0 {
            return None;
        }
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        let r = unsafe { libc::clock_gettime((c - 1) as u32 as libc::clockid_t, &mut t) };
        (r == 0).then(|| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
    }
    fn enter(&self) {
        self.entered.store(self.cpu().unwrap_or(0) + 1, SeqCst)
    }
    /// CPU nanoseconds the call took.
    fn leave(&self) -> u64 {
        let e = self.entered.swap(0, SeqCst);
        (self.cpu().unwrap_or(0) + 1).saturating_sub(e)
    }
}

/// CPU seconds after which one call into the code under test counts as not terminating: about a
/// hundred times what the slowest calls take (the evidence shows that), and more for grids.
pub fn cpu_limit(prop: &str) -> u64 {
    let usual = if prop == "C07" { 4 } else { 20 };
    std::env::var("VH_CPU_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(usual)
}

// ---------------------------------------------------------------- running

pub struct Cfg {
    pub root: PathBuf,
    pub tier: String,
    pub seed: u64,
    pub scratch: PathBuf,
    pub threads: usize,
    pub board: Option<PathBuf>,
    pub build: String,
    /// Seconds after which no new cases are started.
    pub wall: u64,
}

pub struct Violation {
    pub stage: String,
    pub idx: u64,
    pub what: String,
    pub note: String,
    pub art: Vec<(String, Vec<u8>)>,
}

fn case_seed(seed: u64, prop: &str, stage: &str, idx: u64) -> u64 {
    mix(seed ^ mix(hash_bytes(prop.as_bytes()) ^ mix(hash_bytes(stage.as_bytes()) ^ mix(idx))))
}

fn new_case<'a>(cfg: &'a Cfg, slot: &'a Slot, prop: &str, st: &Stage, idx: u64, total: u64) -> Case<'a> {
    Case {
        rng: Rng::new(case_seed(cfg.seed, prop, st.name, idx)),
        idx,
        total,
        thorough: cfg.tier == "thorough",
        scratch: &cfg.scratch,
        slot,
        counts: BTreeMap::new(),
        fps: vec![],
        note: None,
        art: vec![],
        calls: 0,
        slowest: 0,
        last: 0,
        want_note: idx < 2 || idx == total / 2,
        replaying: false,
    }
}

/// Shared with the parent process: the case every worker is at.
struct Board(Option<*mut u64>);
unsafe impl Sync for Board {}
pub const BOARD_SLOTS: usize = 64;
impl Board {
    fn open(p: &Option<PathBuf>) -> Board {
        let Some(p) = p else { return Board(None) };
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap();
        f.set_len((BOARD_SLOTS * 8) as u64).unwrap();
        let m = unsafe {
            libc::mmap(std::ptr::null_mut(), BOARD_SLOTS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        Board((m != libc::MAP_FAILED).then_some(m as *mut u64))
    }
    fn put(&self, w: usize, stage: usize, idx: u64) {
        if let Some(p) = self.0 {
            unsafe { p.add(w).write_volatile((stage as u64 + 1) << 48 | idx) }
        }
    }
}
pub fn board_cases(p: &Path) -> Vec<(usize, u64)> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|v| *v != 0)
        .map(|v| ((v >> 48) as usize - 1, v & 0xffff_ffff_ffff))
        .collect()
}

pub fn run_one(cfg: &Cfg, prop: &Prop, st: &Stage, idx: u64) -> Result<Option<String>, Violation> {
    let slot = Slot::new();
    slot.bind();
    let total = if cfg.tier == "thorough" { st.thorough } else { st.quick };
    let mut c = new_case(cfg, &slot, prop.id, st, idx, total);
    c.replaying = true;
    let r = (st.f)(&mut c);
    let note = c.note.clone().unwrap_or_default();
    match r {
        Ok(()) => Ok(c.note),
        Err(what) => Err(Violation { stage: st.name.into(), idx, what, note, art: std::mem::take(&mut c.art) }),
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(cfg: &Cfg, prop: &Prop, v: &Violation) -> PathBuf {
    let dir = cfg.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let base = format!("{}-{}-{}-{}-{}", prop.id, cfg.tier, cfg.seed, v.stage, v.idx);
    let mut arts = vec![];
    for (n, b) in &v.art {
        let p = dir.join(format!("{}.{}", base, n));
        if std::fs::write(&p, b).is_ok() {
            arts.push(jstr(&p.to_string_lossy()));
        }
    }
    let p = dir.join(format!("{}.json", base));
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"stage\": {},\n \"index\": {},\n \"build\": {},\n \"what\": {},\n \"case\": {},\n \"artefacts\": [{}],\n \"replay\": {}\n}}\n",
        jstr(prop.id), jstr(&cfg.tier), cfg.seed, jstr(&v.stage), v.idx, jstr(&cfg.build), jstr(&v.what), jstr(&v.note),
        arts.join(", "), jstr(&format!("bash /verif/run.sh replay {}", p.display()))
    );
    let _ = std::fs::write(&p, j);
    p
}

pub const KEEP: usize = 5;

/// Returns the exit code.
pub fn run(cfg: &Cfg, prop: &Prop, known: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let thorough = cfg.tier == "thorough";
    let total = |s: &Stage| if thorough { s.thorough } else { s.quick };
    let board = Board::open(&cfg.board);
    // one queue over all stages, in chunks
    let mut jobs: Vec<(usize, u64, u64)> = vec![];
    for (si, s) in prop.stages.iter().enumerate() {
        let n = total(s);
        let chunk = (n / (cfg.threads as u64 * 8)).clamp(1, 256);
        let mut i = 0;
        while i < n {
            jobs.push((si, i, (i + chunk).min(n)));
            i += chunk;
        }
    }
    // interleave the stages so a limited run still sees all of them
    jobs.sort_by_key(|j| (j.1 as u128 * 1_000_000 / total(&prop.stages[j.0]).max(1) as u128, j.0));
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let slots: Vec<Slot> = (0..cfg.threads).map(|_| Slot::new()).collect();
    let all = Mutex::new(Gathered::default());
    let bad: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let known_hit: Mutex<Vec<String>> = Mutex::new(vec![]);

    let report = |code: i32| -> i32 {
        let g = all.lock().unwrap_or_else(|e| e.into_inner());
        let mut b = bad.lock().unwrap_or_else(|e| e.into_inner());
        b.sort_by(|x, y| (&x.stage, x.idx).cmp(&(&y.stage, y.idx)));
        let number = |k: &str| g.counts.get(k).copied().unwrap_or(0);
        for l in &prop.limits {
            let (n, bad) = (number(&l.of), number(&l.bad));
            if bad > l.allowed(n) {
                b.push(Violation {
                    stage: WHOLE_RUN.into(),
                    idx: 0,
                    what: format!("{}: {} of {} ({}), where at most {} are expected", l.bad, bad, n, l.of, l.allowed(n)),
                    note: g.rare.get(&l.bad).map(|v| v.join("; ")).unwrap_or_default(),
                    art: vec![],
                });
            }
        }
        let kh = known_hit.lock().unwrap();
        for k in kh.iter() {
            println!("KNOWN-FINDING: property={} {}", prop.id, k);
        }
        let missing: Vec<String> = prop
            .need
            .iter()
            .filter(|(k, n)| g.counts.get(*k).copied().unwrap_or(0) < *n)
            .map(|(k, n)| format!("{} (needs {}, saw {})", k, n, g.counts.get(*k).copied().unwrap_or(0)))
            .collect();
        // evidence
        let counts = g.counts.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
        let stages = g.per_stage.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
        let slow = g.slowest.iter().map(|(k, v)| format!("{}: {{\"cpu_ms\": {:.1}, \"case\": {}}}", jstr(k), v.0 as f64 / 1e6, v.1)).collect::<Vec<_>>().join(", ");
        let samples = g.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ");
        let assumptions = prop.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"calls_observed\": {},\n  \"slowest_call_ms\": {{{}}},\n  \"cases_per_stage\": {{{}}},\n  \"observed\": {{{}}},\n  \"missing_coverage\": [{}],\n  \"build\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            jstr(prop.id), jstr(&cfg.tier), cfg.seed, g.evaluations, g.distinct.len(), jstr(prop.rule), g.calls, slow, stages, counts,
            missing.iter().map(|m| jstr(m)).collect::<Vec<_>>().join(", "), jstr(&cfg.build), samples, assumptions,
            t0.elapsed().as_secs_f64(), b.len()
        );
        let dir = cfg.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let name = if cfg.build == "checked" { prop.id.to_string() } else { format!("{}.{}", prop.id, cfg.build) };
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", name)), ev) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
        println!(
            "{} {} seed {} [{}]: {} cases, {} calls, {} distinct, {} violations, {:.1}s",
            prop.id, cfg.tier, cfg.seed, cfg.build, g.evaluations, g.calls, g.distinct.len(), b.len(), t0.elapsed().as_secs_f64()
        );
        if !b.is_empty() {
            for v in b.iter() {
                let p = write_replay(cfg, prop, v);
                println!("  stage {} case {}: {}", v.stage, v.idx, v.what.chars().take(1500).collect::<String>());
                println!("VIOLATION property={} replay={}", prop.id, p.display());
            }
            return 1;
        }
        if let Some(e) = broken.lock().unwrap().as_ref() {
            eprintln!("harness error: {}", e);
            return 2;
        }
        if !missing.is_empty() {
            eprintln!("inconclusive: coverage not reached: {}", missing.join("; "));
            return 2;
        }
        code
    };

    let (next, stop, done, slots, all, bad, broken, known_hit, board, jobs) =
        (&next, &stop, &done, &slots, &all, &bad, &broken, &known_hit, &board, &jobs);
    std::thread::scope(|sc| {
        // CPU-time monitor
        let report_ref = &report;
        sc.spawn(move || {
            let lim = cpu_limit(prop.id) * 1_000_000_000;
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for s in slots.iter() {
                    let e = s.entered.load(SeqCst);
                    if e == 0 {
                        continue;
                    }
                    if let Some(now) = s.cpu() {
                        if now + 1 > e + lim && s.entered.load(SeqCst) == e {
                            let st = &prop.stages[s.stage.load(SeqCst)];
                            bad.lock().unwrap().push(Violation {
                                stage: st.name.into(),
                                idx: s.idx.load(SeqCst),
                                what: format!("a call used more than {} s of CPU time without returning", cpu_limit(prop.id)),
                                note: String::new(),
                                art: vec![],
                            });
                            let code = report_ref(0);
                            std::process::exit(code);
                        }
                    }
                }
            }
        });
        let workers: Vec<_> = (0..cfg.threads)
            .map(|w| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = &slots[w];
                        slot.bind();
                        let mut g = Gathered::default();
                        'jobs: loop {
                            let j = next.fetch_add(1, SeqCst);
                            if j >= jobs.len() || stop.load(SeqCst) {
                                break;
                            }
                            if t0.elapsed().as_secs() > cfg.wall {
                                g.counts.insert("stopped_by_time_budget".into(), 1);
                                break;
                            }
                            let (si, a, b) = jobs[j];
                            let st = &prop.stages[si];
                            slot.stage.store(si, SeqCst);
                            for idx in a..b {
                                slot.idx.store(idx, SeqCst);
                                board.put(w, si, idx);
                                let mut c = new_case(cfg, slot, prop.id, st, idx, total(st));
                                let r = catch_unwind(AssertUnwindSafe(|| (st.f)(&mut c)));
                                g.evaluations += 1;
                                g.calls += c.calls;
                                *g.per_stage.entry(st.name.into()).or_default() += 1;
                                for (k, v) in &c.counts {
                                    *g.counts.entry(k.clone()).or_default() += v;
                                }
                                g.distinct.extend(c.fps.iter().copied());
                                let m = g.slowest.entry(st.name.into()).or_default();
                                *m = (*m).max((c.slowest, idx));
                                for l in &prop.limits {
                                    if c.counts.contains_key(&l.bad) {
                                        let v = g.rare.entry(l.bad.clone()).or_default();
                                        if v.len() < 5 {
                                            v.push(format!("{} {}", st.name, idx));
                                        }
                                    }
                                }
                                if let Some(n) = &c.note {
                                    if g.samples.len() < 40 {
                                        g.samples.push(format!("{} #{}: {}", st.name, idx, n));
                                    }
                                }
                                match r {
                                    Ok(Ok(())) => {}
                                    Ok(Err(what)) => {
                                        let key = format!("{}#{}", st.name, idx);
                                        if let Some((_, d)) = known.iter().find(|(k, _)| *k == key || what.contains(k.as_str())) {
                                            let mut kh = known_hit.lock().unwrap();
                                            if !kh.contains(d) {
                                                kh.push(d.clone());
                                            }
                                            continue;
                                        }
                                        let mut v = bad.lock().unwrap();
                                        v.push(Violation {
                                            stage: st.name.into(),
                                            idx,
                                            what,
                                            note: c.note.clone().unwrap_or_default(),
                                            art: std::mem::take(&mut c.art),
                                        });
                                        if v.len() >= KEEP {
                                            stop.store(true, SeqCst);
                                            break 'jobs;
                                        }
                                    }
                                    Err(_) => {
                                        *broken.lock().unwrap() = Some(format!("harness panicked in {} #{}", st.name, idx));
                                        stop.store(true, SeqCst);
                                        break 'jobs;
                                    }
                                }
                            }
                        }
                        let mut a = all.lock().unwrap();
                        a.evaluations += g.evaluations;
                        a.calls += g.calls;
                        for (k, v) in g.counts {
                            *a.counts.entry(k).or_default() += v;
                        }
                        for (k, v) in g.per_stage {
                            *a.per_stage.entry(k).or_default() += v;
                        }
                        a.distinct.extend(g.distinct);
                        for (k, v) in g.slowest {
                            let m = a.slowest.entry(k).or_default();
                            *m = (*m).max(v);
                        }
                        for (k, v) in g.rare {
                            a.rare.entry(k).or_default().extend(v);
                        }
                        for s in g.samples {
                            if a.samples.len() < 12 {
                                a.samples.push(s);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for w in workers {
            let _ = w.join();
        }
        done.store(true, SeqCst);
    });
    report(0)
}

//! Case runner: deterministic cases, three-valued verdicts, counters, replay.
use crate::rng::{mix2, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// Panic payload of a violation found by an oracle.
pub struct Violation(pub String);
/// Panic payload that user callbacks of the workload throw on purpose.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Injected(pub u64);

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { std::panic::panic_any($crate::run::Violation(format!($($t)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::viol!($($t)*) } };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(v) = p.downcast_ref::<Violation>() { v.0.clone() }
            else if p.downcast_ref::<Injected>().is_some() { "injected".to_string() }
            else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        let unwinding_abort = msg.contains("unsafe precondition") || msg.contains("cannot unwind");
        if unwinding_abort {
            eprintln!("FATAL-PANIC {msg} @ {loc}");
        }
        let _ = LAST_PANIC.try_with(|lp| { if let Ok(mut b) = lp.try_borrow_mut() { *b = format!("{msg} @ {loc}"); } });
    }));
}

/// One case: its random source, its counters, its trace.
pub struct Case {
    pub rng: Rng,
    /// number of the case, for round-robin over configurations
    pub no: usize,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub label: String,
    counters: BTreeMap<&'static str, u64>,
    states: Vec<u64>,
    judged: u64,
    pub sample: Option<String>,
    /// 0 = tiny (Miri), 1 = normal, 2 = thorough
    pub scale: u8,
    /// of everything logged and recorded, for the comparison of builds
    pub digest: Option<u64>,
}

impl Case {
    /// The case of a thread of this case.
    pub fn child(&mut self) -> Case {
        Case { rng: Rng::new(self.rng.u64()), no: self.no, tracing: false, trace: vec![], label: self.label.clone(), counters: BTreeMap::new(),
            states: vec![], judged: 0, sample: None, scale: self.scale, digest: None }
    }
    pub fn absorb(&mut self, o: Case) {
        for (k, n) in o.counters { self.count(k, n) }
        self.states.extend(o.states);
        self.judged += o.judged;
    }
    pub fn count(&mut self, k: &'static str, n: u64) { *self.counters.entry(k).or_insert(0) += n; }
    /// Record a distinct non-trivial state (hash) that was observed and judged.
    pub fn state(&mut self, h: u64) { self.states.push(h); self.judged += 1; }
    /// A judged state that is trivial (empty), counted but not as distinct.
    pub fn trivial(&mut self) { self.judged += 1; }
    pub fn state_if(&mut self, nontrivial: bool, h: u64) { if nontrivial { self.state(h) } else { self.trivial() } }
    #[inline]
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing || self.digest.is_some() {
            let s = f();
            if let Some(d) = self.digest.as_mut() { *d = s.bytes().fold(*d, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)); }
            if self.tracing && self.trace.len() < 200_000 { self.trace.push(s); }
        }
    }
    /// Something observed that has to be the same in every build.
    #[inline]
    pub fn record(&mut self, x: u64) { if crate::repr::ADDR.with(|a| a.get()) { return } if let Some(d) = self.digest.as_mut() { *d = mix2(*d, x); } }
    /// n at normal scale, reduced under Miri.
    pub fn sz(&self, tiny: usize, normal: usize) -> usize { match self.scale { 0 => tiny, _ => normal } }
}

/// name, minimum cases, body.
/// A positive minimum is per worker; a negative one is the total over all workers (heavy scenarios).
pub type Scenario = (&'static str, isize, fn(&mut Case));

// ---- watchdog: bounded progress by CPU time, never by wall time ----
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
static CASE_START_CPU_MS: AtomicU64 = AtomicU64::new(0);
static CASE_CPU_LIMIT_MS: AtomicU64 = AtomicU64::new(0);
#[repr(C)] struct Timespec { s: i64, n: i64 }
extern "C" { fn clock_gettime(c: i32, t: *mut Timespec) -> i32; fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32; }
pub fn cpu_ms() -> u64 {
    if cfg!(miri) { return 0; }
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t); }
    t.s as u64 * 1000 + t.n as u64 / 1_000_000
}
/// CPU time of this thread alone.
pub fn thread_us() -> u64 {
    if cfg!(miri) { return 0; }
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t); }
    t.s as u64 * 1_000_000 + t.n as u64 / 1000
}
static FATAL_ONCE: AtomicUsize = AtomicUsize::new(0);
/// End the process with a violation from a context that cannot unwind.
pub fn fatal(msg: &str) -> ! {
    if FATAL_ONCE.fetch_add(1, Ordering::SeqCst) == 0 {
        // no allocation: called from the allocator too
        use std::io::Write;
        let mut o = std::io::stderr();
        let _ = o.write_all(b"FATAL-VIOLATION ");
        let _ = o.write_all(msg.as_bytes());
        let _ = o.write_all(b"\n");
    }
    std::process::abort()
}
fn start_watchdog(limit_ms: u64) {
    CASE_CPU_LIMIT_MS.store(limit_ms, Ordering::Relaxed);
    static RUNNING: AtomicUsize = AtomicUsize::new(0);
    std::thread::spawn(|| loop {
        RUNNING.store(1, Ordering::SeqCst);
        std::thread::sleep(Duration::from_millis(500));
        let st = CASE_START_CPU_MS.load(Ordering::Relaxed);
        let lim = CASE_CPU_LIMIT_MS.load(Ordering::Relaxed);
        if st != 0 && lim != 0 && cpu_ms().saturating_sub(st) > lim {
            fatal("no bounded progress: one case used more CPU time than any correct run needs");
        }
    });
    // what starting a thread allocates and frees is over before the first case takes a reading
    while RUNNING.load(Ordering::SeqCst) == 0 { std::thread::yield_now() }
}

pub struct Outcome { pub violation: Option<String>, pub trace: Vec<String>, pub label: String }

/// Run the body of a thread so that a violation or panic in it can be carried to the thread that joins it.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| match p.downcast::<Violation>() { Ok(v) => v.0, Err(_) => format!("unexpected panic: {}", last_panic()) })
}
/// Several bodies at once, each with a case of its own, starting together.
pub fn together<'e, F: FnOnce(&mut Case) + Send + 'e>(c: &mut Case, bodies: Vec<F>) {
    let bar = std::sync::Barrier::new(bodies.len());
    let kids: Vec<(Case, F)> = bodies.into_iter().map(|b| (c.child(), b)).collect();
    let rs: Vec<Result<Case, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = kids.into_iter().map(|(mut k, b)| {
            let bar = &bar;
            s.spawn(move || { bar.wait(); guarded(|| b(&mut k)).map(|_| k) })
        }).collect();
        hs.into_iter().map(|h| h.join().expect("guarded thread")).collect()
    });
    for r in rs { match r { Ok(k) => c.absorb(k), Err(m) => viol!("in a thread: {m}") } }
}

fn run_case(sc: &Scenario, seed: u64, case_no: u64, tracing: bool, scale: u8, digest: bool) -> (Case, Option<String>) {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in sc.0.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    let mut case = Case {
        rng: Rng::new(mix2(mix2(seed, h), case_no)),
        no: case_no as usize,
        tracing, trace: vec![], label: String::new(),
        counters: BTreeMap::new(), states: vec![], judged: 0, sample: None, scale, digest: digest.then_some(1),
    };
    CASE_START_CPU_MS.store(cpu_ms().max(1), Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| (sc.2)(&mut case)));
    CASE_START_CPU_MS.store(0, Ordering::Relaxed);
    let v = match r {
        Ok(()) => None,
        Err(p) => Some(match p.downcast::<Violation>() {
            Ok(v) => v.0,
            Err(p) => {
                if p.downcast_ref::<Injected>().is_some() {
                    "an injected panic escaped the monitored call".to_string()
                } else { format!("unexpected panic: {}", last_panic()) }
            }
        }),
    };
    (case, v)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}

/// What a hostile program says first, so that an end before it is not mistaken for its end.
pub fn hostile_begin() { println!("HOSTILE-BEGIN"); }

/// Entry point of every check binary.
/// args: --seed N --worker I --workers N --ms BUDGET --scale 0|1|2 --mult M --progress FILE
///       --scenario NAME --case N (replay one case)
///       --only SUBSTR (restrict scenarios)
pub fn main(scenarios: &[Scenario]) {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    let seed = num("--seed", 1);
    let worker = num("--worker", 0);
    let workers = num("--workers", 1);
    let ms = num("--ms", 1000);
    let hard_ms = num("--hard-ms", ms * 6);
    let scale = num("--scale", if cfg!(miri) { 0 } else { 1 }) as u8;
    let mult = num("--mult", 100); // percent of the minimum number of cases
    let only = get("--only");
    let digest = a.iter().any(|x| x == "--digest");
    let ub_only = a.iter().any(|x| x == "--ub-only");
    crate::alloc::JUDGE.store(ub_only, Ordering::Relaxed);
    let mut digests: BTreeMap<String, u64> = BTreeMap::new();
    let times = a.iter().any(|x| x == "--times");
    let start = Instant::now();

    if a.iter().any(|x| x == "--list") {
        for s in scenarios { println!("{} {}", s.0, s.1); }
        return;
    }
    if let Some(scn) = get("--scenario") {
        let n = num("--case", 0);
        let sc = scenarios.iter().find(|s| s.0 == scn).expect("no such scenario");
        let (case, v) = run_case(sc, seed, n, true, scale, digest);
        for t in &case.trace { println!("TRACE {t}"); }
        println!("LABEL {}", case.label);
        if let Some(d) = case.digest { println!("DIGEST {d:016x}"); }
        match v { Some(v) => { println!("REPLAY-VIOLATION {v}"); std::process::exit(1) } None => println!("REPLAY-OK") }
        return;
    }
    // unbounded growth ends in a failed allocation here, not in the end of some process
    if let (false, Some(mb)) = (cfg!(miri), get("--mem-mb")) { let b = mb.parse::<u64>().unwrap() << 20; unsafe { setrlimit(9, &[b, b]); } }
    if !cfg!(miri) { start_watchdog(num("--cpu-limit-ms", 60_000)); }
    let mut progress = get("--progress").map(|p| std::fs::File::create(p).unwrap());
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut sampled: Vec<&str> = vec![];
    let mut judged = 0u64;
    let mut cases: BTreeMap<&'static str, u64> = BTreeMap::new();
    let scs: Vec<&Scenario> = scenarios.iter()
        .filter(|s| !(ub_only && s.0.starts_with("work_"))) // nothing to measure under a sanitizer
        .filter(|s| only.as_ref().map(|o| o.split(',').any(|o| s.0.starts_with(o))).unwrap_or(true)).collect();
    let budget = Duration::from_millis(ms);
    let hard = Duration::from_millis(hard_ms);
    let mut round = 0u64;
    let mut truncated = false;
    'outer: loop {
        let mut any = false;
        for (si, sc) in scs.iter().enumerate() {
            let sharded = sc.1 < 0;
            let (min, base) = if sharded {
                let total = (((-sc.1) as u64 * mult).div_ceil(100)).max(1);
                // case i goes to worker (si + i) % workers
                let first = (worker + workers * 64 - si as u64 % workers) % workers;
                ((total + workers - 1).saturating_sub(first) / workers, first)
            } else { (((sc.1 as u64 * mult).div_ceil(100)).max(1), worker) };
            // Below its minimum a scenario always runs; above it only while time is left.
            let below_min = round < min;
            if !below_min && (start.elapsed() >= budget || mult == 0) { continue; }
            if start.elapsed() >= hard { truncated = true; break 'outer; }
            // scenarios with a small minimum are heavy: run them less often afterwards
            any = true;
            let weight = if sharded { 1 } else { sc.1.min(50) as u64 };
            if !below_min && round % (50 / weight).max(1) != 0 { continue; }
            let case_no = round * workers + base;
            if let Some(f) = progress.as_mut() {
                use std::os::unix::fs::FileExt;
                let s = format!("{:<63}\n", format!("{} {}", sc.0, case_no));
                let _ = f.write_at(s.as_bytes(), 0);
            }
            let t0 = Instant::now();
            let (case, mut v) = run_case(sc, seed, case_no, false, scale, digest);
            if times { eprintln!("TIME {} {} {}", sc.0, case_no, t0.elapsed().as_millis()); }
            if ub_only && v.is_some() {
                // results are judged by other properties; go on under the sanitizer
                *counters.entry("cases_ended_by_another_property").or_insert(0) += 1;
                v = None;
            }
            if digest && v.is_some() {
                // the comparison of builds is about their differences, other properties judge the rest
                v = None;
                digests.insert(format!("{} {}", sc.0, case_no), u64::MAX);
            } else if let Some(d) = case.digest {
                let d = case.states.iter().fold(mix2(d, case.judged), |h, s| mix2(h, *s));
                let d = case.counters.values().fold(d, |h, s| mix2(h, *s));
                digests.insert(format!("{} {}", sc.0, case_no), d);
            }
            *cases.entry(sc.0).or_insert(0) += 1;
            for (k, n) in &case.counters { *counters.entry(k).or_insert(0) += n; }
            if states.len() < 2_000_000 { for s in &case.states { states.insert(*s); } }
            judged += case.judged;
            if samples.len() < 6 && round % 5 == 0 && !case.states.is_empty() && !sampled.contains(&sc.0) {
                sampled.push(sc.0);
                let cj: Vec<String> = case.counters.iter().map(|(k, v)| format!("{k}={v}")).collect();
                let extra = case.sample.clone().map(|s| format!("; {s}")).unwrap_or_default();
                samples.push(format!("scenario {} case {}: {}; {} distinct states judged; {}{}", sc.0, case_no, case.label, case.states.len(), cj.join(" "), extra));
            }
            if let Some(v) = v {
                let label = case.label.clone();
                println!("{{\"violation\":{},\"scenario\":{},\"case\":{},\"seed\":{},\"label\":{}}}",
                    json_str(&v), json_str(sc.0), case_no, seed, json_str(&label));
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
        round += 1;
        if !any { break; }
    }
    // write distinct state hashes for merging
    if let Some(p) = get("--states") {
        let mut b = Vec::with_capacity(states.len() * 8);
        for s in &states { b.extend_from_slice(&s.to_le_bytes()); }
        let _ = std::fs::write(p, b);
    }
    let cj: Vec<String> = counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let sj: Vec<String> = cases.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let smp: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    println!("{{\"done\":true,\"truncated\":{},\"counters\":{{{}}},\"cases\":{{{}}},\"states\":{},\"judged\":{},\"samples\":[{}],\"digests\":{{{}}},\"ms\":{}}}",
        truncated, cj.join(","), sj.join(","), states.len(), judged, smp.join(","), digests.iter().map(|(k, v)| format!("{}:\"{:016x}\"", json_str(k), v)).collect::<Vec<_>>().join(","), start.elapsed().as_millis());
}

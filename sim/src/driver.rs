//! Runs seeded cases of a check, minimises what fails, writes replay files and evidence.
//!
//! The supervisor process starts a worker process, so that a crash, a stack overflow, exhausted memory or a hang of the code
//! under test is a finding with a seed, too.
use crate::json::J;
use crate::rng::{derive, StreamSpec};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
const STACK: usize = 512 << 20;
/// A single run of the code under test takes milliseconds; one that computes for this long does not come to an end.
const HANG_CPU_S: u64 = 40;
const HANG_WALL_S: u64 = 240;

#[derive(Clone)]
pub struct Case {
    pub id: &'static str,
    pub seed: u64,
    pub index: u64,
    pub p: StreamSpec,
    pub h: StreamSpec,
    pub edits: Vec<u32>,
    pub big: bool,
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub viol: Option<(String, String)>,
    pub discard: Option<&'static str>,
    pub p: Vec<u32>,
    pub h: Vec<u32>,
    pub sig: u64,
    /// Further signatures of what the run reached.
    pub sigs: Vec<u64>,
    pub nontrivial: bool,
    pub stats: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub sim_time: u64,
    pub show: Vec<String>,
}

impl Outcome {
    pub fn violate(&mut self, kind: &str, detail: impl Into<String>) {
        if self.viol.is_none() {
            let mut d: String = detail.into();
            if d.len() > 2000 {
                let mut n = 2000;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
            }
            self.viol = Some((kind.to_string(), d));
        }
    }
    pub fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
}

pub struct Check {
    pub id: &'static str,
    pub scenario: fn(&Case, bool) -> Outcome,
    pub quick: u64,
    pub thorough: u64,
    pub quick_wall: u64,
    pub thorough_wall: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub time_unit: &'static str,
    pub sig: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn hash_text(bytes: impl Iterator<Item = u8>) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    crate::rng::mix(h)
}

// ---- panics ------------------------------------------------------------------------------------------------------------

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", m, at));
    }));
}

pub fn panic_text() -> String {
    PANIC.with(|p| p.borrow().clone())
}

// ---- one case ----------------------------------------------------------------------------------------------------------

pub fn case_of(check: &Check, seed: u64, index: u64) -> Case {
    let n = check.id[1..].parse::<u64>().unwrap_or(99);
    Case {
        id: check.id,
        seed,
        index,
        p: StreamSpec::Seed(derive(seed, &[n, index, 1])),
        h: StreamSpec::Seed(derive(seed, &[n, index, 2])),
        edits: Vec::new(),
        big: index % 4 == 3,
    }
}

/// Runs a case; a panic of the harness itself is reported as such.
pub fn run_case(check: &Check, case: &Case, verbose: bool) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (check.scenario)(case, verbose))) {
        Ok(o) => o,
        Err(_) => {
            let mut o = Outcome::default();
            o.violate("panic", format!("unexpected panic: {}", panic_text()));
            o
        }
    }
}

fn spec_json(s: &StreamSpec) -> J {
    match s {
        StreamSpec::Seed(s) => J::s(format!("{:016x}", s)),
        StreamSpec::Choices(c) => J::ints(c),
    }
}

fn spec_of(j: &J, key: &str) -> StreamSpec {
    match j.str(key) {
        Some(s) => StreamSpec::Seed(u64::from_str_radix(&s, 16).unwrap_or(0)),
        None => StreamSpec::Choices(j.u32s(key).unwrap_or_default()),
    }
}

fn case_json(case: &Case, kind: &str, detail: &str, show: &[String], note: &str) -> J {
    J::obj(vec![
        ("property", J::s(case.id)),
        ("seed", J::Int(case.seed as i64)),
        ("run", J::Int(case.index as i64)),
        ("kind", J::s(kind)),
        ("detail", J::s(detail)),
        ("note", J::s(note)),
        ("big", J::Int(case.big as i64)),
        ("edits", J::ints(&case.edits)),
        ("program_choices", spec_json(&case.p)),
        ("schedule_choices", spec_json(&case.h)),
        ("trace", J::strs(show)),
    ])
}

pub fn read_case(path: &Path, checks: &'static [Check]) -> Result<(Case, &'static Check, String, String), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let j = J::parse(&text)?;
    let id = j.str("property").ok_or("no property")?;
    let check = checks.iter().find(|c| c.id == id).ok_or("unknown property")?;
    let case = Case {
        id: check.id,
        seed: j.int("seed").unwrap_or(0) as u64,
        index: j.int("run").unwrap_or(0) as u64,
        p: spec_of(&j, "program_choices"),
        h: spec_of(&j, "schedule_choices"),
        edits: j.u32s("edits").unwrap_or_default(),
        big: j.int("big").unwrap_or(0) == 1,
    };
    Ok((case, check, j.str("kind").unwrap_or_default(), j.str("detail").unwrap_or_default()))
}

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    std::thread::Builder::new().stack_size(STACK).spawn(f).expect("thread").join()
}

// ---- minimising --------------------------------------------------------------------------------------------------------

/// Makes a failing case smaller: shorter choice lists, smaller choices, fewer statements.
fn minimise(case: &Case, first: &Outcome, limit: usize, test: &mut dyn FnMut(&Case) -> Option<Outcome>) -> (Case, usize) {
    let start = Instant::now();
    let mut best = case.clone();
    best.p = StreamSpec::Choices(first.p.clone());
    best.h = StreamSpec::Choices(first.h.clone());
    let mut tries = 0;
    if test(&best).is_none() {
        return (case.clone(), 1);
    }
    let get = |c: &Case, which: usize| -> Vec<u32> {
        match if which == 0 { &c.p } else { &c.h } {
            StreamSpec::Choices(v) => v.clone(),
            _ => Vec::new(),
        }
    };
    let with = |c: &Case, which: usize, v: Vec<u32>| -> Case {
        let mut c = c.clone();
        if which == 0 {
            c.p = StreamSpec::Choices(v);
        } else {
            c.h = StreamSpec::Choices(v);
        }
        c
    };
    let mut attempt = |c: Case, best: &mut Case, tries: &mut usize| -> bool {
        *tries += 1;
        match test(&c) {
            Some(o) => {
                let mut c = c;
                // The recorded choices are what the run used; anything longer was never read.
                let (p, h) = (get(&c, 0), get(&c, 1));
                if o.p.len() < p.len() {
                    c.p = StreamSpec::Choices(o.p);
                }
                if o.h.len() < h.len() {
                    c.h = StreamSpec::Choices(o.h);
                }
                *best = c;
                true
            }
            None => false,
        }
    };
    let over = |tries: usize| tries >= limit || start.elapsed() > Duration::from_secs(90);
    loop {
        let before = (get(&best, 0), get(&best, 1), best.edits.len());
        // Fewer statements.
        let mut n = 0;
        let mut misses = 0;
        while misses < 60 && !over(tries) {
            let mut c = best.clone();
            c.edits.push(n);
            if attempt(c, &mut best, &mut tries) {
                misses = 0;
            } else {
                n += 1;
                misses += 1;
            }
        }
        for which in [1usize, 0] {
            let mut size = get(&best, which).len().next_power_of_two().max(1);
            while size >= 1 && !over(tries) {
                let mut at = 0;
                while at < get(&best, which).len() && !over(tries) {
                    let v = get(&best, which);
                    let end = (at + size).min(v.len());
                    let mut cut = v.clone();
                    cut.drain(at..end);
                    if attempt(with(&best, which, cut), &mut best, &mut tries) {
                        continue;
                    }
                    if v[at..end].iter().any(|x| *x != 0) {
                        let mut zero = v.clone();
                        zero[at..end].iter_mut().for_each(|x| *x = 0);
                        attempt(with(&best, which, zero), &mut best, &mut tries);
                    }
                    at += size;
                }
                size /= 2;
            }
            let mut i = 0;
            while i < get(&best, which).len() && !over(tries) {
                let v = get(&best, which);
                if v[i] > 1 {
                    for smaller in [1, v[i] / 2, v[i] - 1] {
                        let mut c = v.clone();
                        c[i] = smaller;
                        if smaller < v[i] && attempt(with(&best, which, c), &mut best, &mut tries) {
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
        if over(tries) || before == (get(&best, 0), get(&best, 1), best.edits.len()) {
            return (best, tries);
        }
    }
}

// ---- worker ------------------------------------------------------------------------------------------------------------

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    discards: BTreeMap<&'static str, u64>,
    stats: BTreeMap<&'static str, u64>,
    faults: BTreeMap<&'static str, u64>,
    faulty_runs: u64,
    sim_time: u64,
    sigs: HashSet<u64>,
    distinct_nontrivial: HashSet<u64>,
    repeats: u64,
    repeats_same: u64,
}

struct Slot {
    index: AtomicU64,
    cpu_start_ms: AtomicU64,
    wall_start_ms: AtomicU64,
    clock: AtomicU64,
}

fn clock_ms(clock: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: the pointer is valid for the call.
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return 0;
    }
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn my_clock() -> u64 {
    let mut c: libc::clockid_t = 0;
    // SAFETY: asks for the clock of the calling thread.
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c as u32 as u64
}

const NONE: u64 = u64::MAX;

pub struct Tier {
    pub name: String,
    pub runs: u64,
    pub wall: u64,
}

pub fn tier_of(check: &Check, name: &str) -> Tier {
    let quick = name != "thorough";
    let mut t = Tier {
        name: if quick { "quick".into() } else { "thorough".into() },
        runs: if quick { check.quick } else { check.thorough },
        wall: if quick { check.quick_wall } else { check.thorough_wall },
    };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        t.runs = n;
    }
    if let Some(n) = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()) {
        t.wall = n;
    }
    t
}

pub fn workers() -> usize {
    std::env::var("SIM_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8))
}

/// The worker process. Exit code 0: nothing found; 1: found, `out`.json holds the case; 97: a run hangs.
pub fn worker(check: &'static Check, tier: &str, seed: u64, first: u64, out: &Path) -> i32 {
    limit_memory(14 << 30);
    quiet_panics();
    let tier = tier_of(check, tier);
    let n = workers();
    let start = Instant::now();
    let slots: &'static Vec<Slot> = Box::leak(Box::new(
        (0..n)
            .map(|_| Slot {
                index: AtomicU64::new(NONE),
                cpu_start_ms: AtomicU64::new(0),
                wall_start_ms: AtomicU64::new(0),
                clock: AtomicU64::new(0),
            })
            .collect(),
    ));
    let flight: &'static AtomicU64s = map_flight(&out.with_extension("flight"), n);
    let done: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let hang_file = out.with_extension("hang");
    std::thread::spawn(move || {
        while !done.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(500));
            for s in slots.iter() {
                let i = s.index.load(SeqCst);
                if i == NONE {
                    continue;
                }
                let cpu = clock_ms(s.clock.load(SeqCst) as u32 as libc::clockid_t);
                let long = cpu.saturating_sub(s.cpu_start_ms.load(SeqCst)) > HANG_CPU_S * 1000
                    || (start.elapsed().as_millis() as u64).saturating_sub(s.wall_start_ms.load(SeqCst)) > HANG_WALL_S * 1000;
                if long && s.index.load(SeqCst) == i {
                    let _ = std::fs::write(&hang_file, i.to_string());
                    std::process::exit(97);
                }
            }
        }
    });
    let found: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(NONE)));
    let hits: &'static Mutex<BTreeMap<u64, (Case, Outcome)>> = Box::leak(Box::new(Mutex::new(BTreeMap::new())));
    let tier_runs = tier.runs;
    let wall = Duration::from_secs(tier.wall);
    let handles: Vec<_> = (0..n)
        .map(|t| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let slot = &slots[t];
                    slot.clock.store(my_clock(), SeqCst);
                    let mut tot = Totals::default();
                    let mut i = first + t as u64;
                    while i < tier_runs && start.elapsed() < wall && i < found.load(SeqCst) {
                        slot.cpu_start_ms.store(clock_ms(libc::CLOCK_THREAD_CPUTIME_ID), SeqCst);
                        slot.wall_start_ms.store(start.elapsed().as_millis() as u64, SeqCst);
                        slot.index.store(i, SeqCst);
                        flight.set(t, i);
                        let case = case_of(check, seed, i);
                        let o = run_case(check, &case, false);
                        tot.runs += 1;
                        if i % 61 == 0 && o.viol.is_none() {
                            let again = run_case(check, &case, false);
                            tot.repeats += 1;
                            if again.sig == o.sig && again.h == o.h && again.p == o.p && again.viol.is_none() {
                                tot.repeats_same += 1;
                            }
                        }
                        if let Some(d) = o.discard {
                            *tot.discards.entry(d).or_default() += 1;
                        }
                        for (k, v) in &o.stats {
                            *tot.stats.entry(k).or_default() += v;
                        }
                        for (k, v) in &o.faults {
                            *tot.faults.entry(k).or_default() += v;
                        }
                        tot.faulty_runs += !o.faults.is_empty() as u64;
                        tot.sim_time += o.sim_time;
                        if o.discard.is_none() {
                            tot.sigs.insert(o.sig);
                            tot.sigs.extend(o.sigs.iter().copied());
                            if o.nontrivial {
                                tot.nontrivial += 1;
                                tot.distinct_nontrivial.insert(o.sig);
                            }
                        }
                        if o.viol.is_some() {
                            found.fetch_min(i, SeqCst);
                            hits.lock().unwrap().insert(i, (case, o));
                        }
                        slot.index.store(NONE, SeqCst);
                        flight.set(t, NONE);
                        i += n as u64;
                    }
                    tot
                })
                .expect("thread")
        })
        .collect();
    let mut all = Totals::default();
    for h in handles {
        let t = h.join().expect("worker thread");
        all.runs += t.runs;
        all.nontrivial += t.nontrivial;
        for (k, v) in t.discards {
            *all.discards.entry(k).or_default() += v;
        }
        for (k, v) in t.stats {
            *all.stats.entry(k).or_default() += v;
        }
        for (k, v) in t.faults {
            *all.faults.entry(k).or_default() += v;
        }
        all.faulty_runs += t.faulty_runs;
        all.sim_time += t.sim_time;
        all.sigs.extend(t.sigs);
        all.distinct_nontrivial.extend(t.distinct_nontrivial);
        all.repeats += t.repeats;
        all.repeats_same += t.repeats_same;
    }
    done.store(true, SeqCst);
    let hit = hits.lock().unwrap().pop_first();
    let mut code = 0;
    if let Some((_, (case, o))) = hit {
        code = 1;
        let out = out.to_path_buf();
        let r = on_big_stack(move || {
            write_min(check, &case, &o, &out);
        });
        if r.is_err() {
            code = 3;
        }
    }
    let wall_s = start.elapsed().as_secs_f64();
    let ev = evidence(check, &tier, seed, &all, wall_s, code == 1);
    let _ = std::fs::write(out.with_extension("evidence"), ev.to_text());
    code
}

fn write_min(check: &'static Check, case: &Case, o: &Outcome, out: &Path) {
    // Write what is known first: minimising may meet a crash.
    let (kind, detail) = o.viol.clone().unwrap();
    let full = run_case(check, case, true);
    let _ = std::fs::write(out, case_json(case, &kind, &detail, &full.show, "not minimised").to_text());
    let (min, tries) = minimise(case, o, 5000, &mut |c| {
        let o = run_case(check, c, false);
        (o.viol.as_ref().map(|v| &v.0) == Some(&kind)).then_some(o)
    });
    let shown = run_case(check, &min, true);
    if let Some((k, d)) = &shown.viol {
        let note = format!("minimised in {} runs from run {} of seed {}", tries, case.index, case.seed);
        let _ = std::fs::write(out, case_json(&min, k, d, &shown.show, &note).to_text());
    }
}

pub struct AtomicU64s(*const AtomicU64);
// SAFETY: the memory is a shared mapping of atomics that lives as long as the process.
unsafe impl Sync for AtomicU64s {}
unsafe impl Send for AtomicU64s {}

impl AtomicU64s {
    fn set(&self, i: usize, v: u64) {
        // SAFETY: the mapping has one entry per thread.
        unsafe { (*self.0.add(i)).store(v, SeqCst) }
    }
}

/// A file that holds the run each thread works on, for the supervisor to read if this process dies.
fn map_flight(path: &Path, n: usize) -> &'static AtomicU64s {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("flight file");
    f.set_len(n as u64 * 8).expect("flight file");
    use std::os::fd::AsRawFd;
    // SAFETY: maps the whole file, which stays open inside the mapping.
    let m = unsafe { libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(m != libc::MAP_FAILED);
    let a = Box::leak(Box::new(AtomicU64s(m as *const AtomicU64)));
    for i in 0..n {
        a.set(i, NONE);
    }
    a
}

pub fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    // SAFETY: plain system calls on this process.
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn evidence(check: &Check, tier: &Tier, seed: u64, t: &Totals, wall_s: f64, violated: bool) -> J {
    let samples: Vec<J> = (0..40)
        .filter_map(|i| {
            let case = case_of(check, seed, i);
            let r = on_big_stack({
                let scenario = check.scenario;
                move || catch_unwind(AssertUnwindSafe(|| scenario(&case, true))).ok()
            });
            let o = r.ok().flatten()?;
            (o.nontrivial && o.discard.is_none() && o.viol.is_none()).then(|| {
                J::obj(vec![
                    ("run", J::Int(i as i64)),
                    ("simulated_time", J::Int(o.sim_time as i64)),
                    ("trace", J::strs(&o.show.iter().take(120).cloned().collect::<Vec<_>>())),
                ])
            })
        })
        .take(2)
        .collect();
    let names = |m: &BTreeMap<&'static str, u64>| J::Obj(m.iter().map(|(k, v)| (k.to_string(), J::Int(*v as i64))).collect());
    let strs = |s: &[&str]| J::Arr(s.iter().map(|s| J::s(*s)).collect());
    let per_hour = |n: u64| J::Int((n as f64 / wall_s.max(0.001) * 3600.0) as i64);
    J::obj(vec![
        ("property", J::s(check.id)),
        ("tier", J::s(&tier.name)),
        ("seed", J::Int(seed as i64)),
        ("level", J::s("exploration")),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::Int(t.runs as i64)),
                ("distinct_nontrivial", J::Int(t.distinct_nontrivial.len() as i64)),
                ("nontrivial_runs", J::Int(t.nontrivial as i64)),
                ("rule", J::s(check.rule)),
                ("runs_per_hour", per_hour(t.runs)),
                ("simulated_time", J::Int(t.sim_time as i64)),
                ("simulated_time_unit", J::s(check.time_unit)),
                ("runs_with_faults", J::Int(t.faulty_runs as i64)),
                ("faults_injected", names(&t.faults)),
                ("distinct_states", J::Int(t.sigs.len() as i64)),
                ("distinct_states_measure", J::s(check.sig)),
                ("counters", names(&t.stats)),
                ("discarded_runs", names(&t.discards)),
                ("runs_repeated", J::Int(t.repeats as i64)),
                ("runs_repeated_identically", J::Int(t.repeats_same as i64)),
                ("components_real", strs(check.real)),
                ("components_stubbed", strs(check.stubs)),
                ("worker_threads", J::Int(workers() as i64)),
                ("samples", J::Arr(samples)),
            ]),
        ),
        ("assumptions", strs(check.assumptions)),
        ("violations", J::Int(violated as i64)),
        ("wall_s", J::Num((wall_s * 100.0).round() / 100.0)),
    ])
}

// ---- supervisor --------------------------------------------------------------------------------------------------------

fn work_dir() -> PathBuf {
    let d = PathBuf::from(VERIF).join("work");
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Runs one case file in a process of its own; gives its kind and detail, if it fails.
fn one(path: &Path) -> Option<(String, String)> {
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(exe)
        .arg("one")
        .arg(path)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    let mut text = String::new();
    let _ = child.stdout.take().unwrap().read_to_string(&mut text);
    let st = child.wait().expect("child");
    if let Some(s) = st.signal() {
        return Some(("crash".into(), format!("the process is ended by signal {}", s)));
    }
    match st.code() {
        Some(97) => Some(("hang".into(), "the code under test does not come to an end".into())),
        Some(0) => None,
        Some(1) => {
            let j = J::parse(&text).ok()?;
            Some((j.str("kind")?, j.str("detail")?))
        }
        c => Some(("crash".into(), format!("the process ends with code {:?}", c))),
    }
}

/// Entry of the child that runs a single case.
pub fn run_one(path: &Path, checks: &'static [Check]) -> i32 {
    limit_memory(6 << 30);
    quiet_panics();
    let (case, check, _, _) = match read_case(path, checks) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let done: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    std::thread::spawn(move || {
        let start = Instant::now();
        while !done.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(200));
            let cpu = clock_ms(libc::CLOCK_PROCESS_CPUTIME_ID);
            if cpu > HANG_CPU_S * 1000 || start.elapsed().as_secs() > HANG_WALL_S {
                std::process::exit(97);
            }
        }
    });
    let o = on_big_stack(move || run_case(check, &case, false)).expect("thread");
    done.store(true, SeqCst);
    match o.viol {
        Some((k, d)) => {
            println!("{}", J::obj(vec![("kind", J::s(k)), ("detail", J::s(d))]).to_text());
            1
        }
        None => 0,
    }
}

pub fn supervise(check: &'static Check, tier: &str, seed: u64) -> i32 {
    let base = work_dir().join(format!("{}-{}-{}", check.id, seed, std::process::id()));
    let out = base.with_extension("json");
    let exe = std::env::current_exe().expect("exe");
    let st = Command::new(&exe)
        .args(["worker", check.id, tier, &seed.to_string(), "0"])
        .arg(&out)
        .stderr(Stdio::null())
        .status()
        .expect("worker");
    let evidence_path = PathBuf::from(VERIF).join("evidence").join(format!("{}.json", check.id));
    let _ = std::fs::create_dir_all(evidence_path.parent().unwrap());
    let mut result = 0;
    let replay = PathBuf::from(VERIF).join("evidence").join("replay").join(format!("{}-seed{}.json", check.id, seed));
    let _ = std::fs::create_dir_all(replay.parent().unwrap());
    let has_evidence = std::fs::rename(base.with_extension("evidence"), &evidence_path).is_ok();
    match st.code() {
        Some(0) => {}
        Some(1) => {
            result = 1;
            let _ = std::fs::rename(&out, &replay);
        }
        _ => {
            // The worker died or hangs: find the run that does it.
            let mut suspects: Vec<u64> = Vec::new();
            if let Ok(s) = std::fs::read_to_string(base.with_extension("hang")) {
                suspects.extend(s.trim().parse::<u64>());
            }
            if let Ok(b) = std::fs::read(base.with_extension("flight")) {
                let mut all: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|i| *i != NONE).collect();
                all.sort();
                suspects.extend(all);
            }
            let mut confirmed = None;
            for i in suspects {
                let case = case_of(check, seed, i);
                let tmp = base.with_extension("one");
                let _ = std::fs::write(&tmp, case_json(&case, "", "", &[], "").to_text());
                if let Some((k, d)) = one(&tmp) {
                    confirmed = Some((case, k, d));
                    break;
                }
            }
            match confirmed {
                Some((case, k, d)) => {
                    result = 1;
                    let _ = std::fs::write(&replay, case_json(&case, &k, &d, &[], "runs in a process of its own").to_text());
                }
                None => {
                    eprintln!("the worker ended with {:?}, and no single run explains it", st);
                    result = 2;
                }
            }
            if !has_evidence {
                let t = Totals { runs: 1, ..Default::default() };
                let tier = tier_of(check, tier);
                let mut ev = evidence_stub(check, &tier, seed, &t, result == 1);
                if let J::Obj(o) = &mut ev {
                    o.push(("note".into(), J::s("the worker process died; only the failing run is counted")));
                }
                let _ = std::fs::write(&evidence_path, ev.to_text());
            }
        }
    }
    for ext in ["json", "flight", "hang", "evidence", "one"] {
        let _ = std::fs::remove_file(base.with_extension(ext));
    }
    if result == 1 {
        if let Ok(t) = std::fs::read_to_string(&replay) {
            if let Ok(j) = J::parse(&t) {
                println!("{}: {}", j.str("kind").unwrap_or_default(), j.str("detail").unwrap_or_default());
                println!("seed {} run {}", seed, j.int("run").unwrap_or(0));
            }
        }
        println!("VIOLATION property={} replay={}", check.id, replay.display());
    } else if result == 0 {
        println!("{}: held on everything explored; see {}", check.id, evidence_path.display());
    }
    let _ = std::io::stdout().flush();
    result
}

fn evidence_stub(check: &Check, tier: &Tier, seed: u64, t: &Totals, violated: bool) -> J {
    J::obj(vec![
        ("property", J::s(check.id)),
        ("tier", J::s(&tier.name)),
        ("seed", J::Int(seed as i64)),
        ("level", J::s("exploration")),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::Int(t.runs as i64)),
                ("distinct_nontrivial", J::Int(0)),
                ("rule", J::s(check.rule)),
                ("samples", J::Arr(vec![])),
            ]),
        ),
        ("violations", J::Int(violated as i64)),
        ("wall_s", J::Num(0.0)),
    ])
}

/// Runs a replay file and tells whether it shows what it recorded.
pub fn replay(path: &Path, checks: &'static [Check]) -> i32 {
    let (case, _, kind, detail) = match read_case(path, checks) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    match one(path) {
        None => {
            println!("the recorded run does not fail");
            0
        }
        Some((k, d)) => {
            println!("{}: {}", k, d);
            if (&k, &d) == (&kind, &detail) {
                println!("reproduced exactly");
            } else {
                println!("recorded was {}: {}", kind, detail);
            }
            println!("VIOLATION property={} replay={}", case.id, path.display());
            1
        }
    }
}

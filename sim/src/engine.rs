//! Running cases inside one process: seeded environment, workers, single tries.
use crate::case::{generate, Case, Sched};
use crate::exec::{quiescent, run_case, LAST_PANIC};
use crate::run::{self, Class, Fired, Run, Viol};
use crate::shapes::{self, Shape};
use parking_lot::race;
use parking_lot::sim::{self, Chooser, Config, Fatal, Policy, Stats};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

pub const EXIT_VIOL: i32 = 10;
/// the checker itself ran out of memory: says nothing about the code
pub const EXIT_OOM: i32 = 78;

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if race::wants(&l) {
            return race::alloc(l);
        }
        enough(std::alloc::System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if race::owns(p) {
            return race::dealloc(p, l);
        }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if race::wants(&l) {
            let p = race::alloc(l);
            std::ptr::write_bytes(p, 0, l.size());
            return p;
        }
        enough(std::alloc::System.alloc_zeroed(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let to = std::alloc::Layout::from_size_align_unchecked(n, l.align());
        if race::owns(p) || race::wants(&to) {
            let q = self.alloc(to);
            if !q.is_null() {
                race::copy(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        enough(std::alloc::System.realloc(p, l, n))
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;
fn enough(p: *mut u8) -> *mut u8 {
    if p.is_null() && !crate::comps::IN_LIB.try_with(|c| c.get()).unwrap_or(false) {
        unsafe { libc::_exit(EXIT_OOM) }
    }
    p
}
pub const MAX_STEPS: u64 = 400_000;

// ------------------------------------------------------------------ seams
static HASH_SEED: AtomicU64 = AtomicU64::new(0);

/// The process' only source of entropy (hash map seeds come from here) is a function of the case.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: libc::c_uint) -> libc::ssize_t {
    let base = HASH_SEED.load(Ordering::SeqCst).wrapping_add((sim::tid().unwrap_or(77) as u64).wrapping_mul(0x1234_5678_9ABC_DEF1));
    let mut r = sim::Rng::new(base);
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in b.chunks_mut(8) {
        let v = r.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    len as libc::ssize_t
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{}{}", m, at);
        if m.contains("unsafe precondition") || sim::tid().is_none() && !info.payload().is::<crate::comps::Injected>() {
            eprintln!("panic: {}", m);
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = m);
    }));
}

pub fn all_shapes() -> &'static [Shape] {
    static ALL: std::sync::OnceLock<Vec<Shape>> = std::sync::OnceLock::new();
    ALL.get_or_init(shapes::all)
}

pub fn all_pats() -> &'static [crate::pat::PatD] {
    static ALL: std::sync::OnceLock<Vec<crate::pat::PatD>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| all_shapes().iter().map(|s| s.pat.clone()).collect())
}

// ------------------------------------------------------------------ one run
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Record {
    pub idx: u64,
    pub case: Case,
    pub viols: Vec<Viol>,
    pub choices: Vec<u32>,
    pub hash: u64,
    pub fired: Fired,
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Sum {
    pub runs: u64,
    pub conc_runs: u64,
    pub outer_runs: u64,
    pub fault_runs: u64,
    pub steps: u64,
    pub points: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub barges: u64,
    pub barge_waits: u64,
    pub acquisitions: u64,
    pub atomics: u64,
    pub futex: u64,
    pub mem_runs: u64,
    pub mem_reads: u64,
    pub mem_writes: u64,
    pub mem_blocks: u64,
    pub ops: u64,
    pub audits: u64,
    pub lin_states: u64,
    pub lin_unknown: u64,
    pub cut_short: u64,
    pub conc_nodes: u64,
    pub blocked_judged: u64,
    pub fired: Fired,
    pub probes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max_steps_run: u64,
    pub done: bool,
}
impl Sum {
    pub fn add(&mut self, o: &Sum) {
        self.runs += o.runs;
        self.conc_runs += o.conc_runs;
        self.outer_runs += o.outer_runs;
        self.fault_runs += o.fault_runs;
        self.steps += o.steps;
        self.points += o.points;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.blocks += o.blocks;
        self.barges += o.barges;
        self.barge_waits += o.barge_waits;
        self.acquisitions += o.acquisitions;
        self.atomics += o.atomics;
        self.futex += o.futex;
        self.mem_runs += o.mem_runs;
        self.mem_reads += o.mem_reads;
        self.mem_writes += o.mem_writes;
        self.mem_blocks += o.mem_blocks;
        self.ops += o.ops;
        self.audits += o.audits;
        self.lin_states += o.lin_states;
        self.lin_unknown += o.lin_unknown;
        self.cut_short += o.cut_short;
        self.conc_nodes += o.conc_nodes;
        self.blocked_judged += o.blocked_judged;
        self.max_steps_run = self.max_steps_run.max(o.max_steps_run);
        let (a, b) = (&mut self.fired, &o.fired);
        a.client_panics += b.client_panics;
        a.drop_panics += b.drop_panics;
        a.conv_panics += b.conv_panics;
        a.stalls += b.stalls;
        a.cancels += b.cancels;
        a.step_panics += b.step_panics;
        a.refusals += b.refusals;
        a.lib_drops += b.lib_drops;
        a.handovers_refused += b.handovers_refused;
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        for s in &o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s.clone());
            }
        }
    }
}

pub fn chooser(s: &Sched) -> Chooser {
    match s {
        Sched::Sticky { seed, p, barge } => Chooser::random(*seed, Policy::Sticky(*p), *barge),
        Sched::Pct { seed, changes, horizon, barge } => Chooser::random(*seed, Policy::Pct { changes: *changes, horizon: *horizon }, *barge),
        Sched::Choices(v) => Chooser::replay(v.clone()),
    }
}

/// what a fatal ending (deadlock, livelock) must save before the process goes
struct Ctx {
    idx: u64,
    case: Option<Case>,
    rec: String,
    sum: Option<(String, Sum, HashSet<u64>)>,
}
struct CtxCell(UnsafeCell<Ctx>);
unsafe impl Sync for CtxCell {}
static CTX: CtxCell = CtxCell(UnsafeCell::new(Ctx { idx: 0, case: None, rec: String::new(), sum: None }));
#[allow(static_mut_refs)]
fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX.0.get() }
}

fn on_fatal(f: Fatal) -> ! {
    let (c, m) = match f {
        Fatal::Deadlock(m) if run::run().nested => (Class::Blocked, format!("an access waits for an unrelated or shared one held by the same thread\n{}", m)),
        Fatal::Deadlock(m) => (Class::Deadlock, format!("deadlock: every thread waits for another\n{}", m)),
        Fatal::Race(m) => (Class::Race, m),
        Fatal::Memory(m) => (Class::Memory, m),
        Fatal::Livelock(m) => (Class::Livelock, format!("no progress: {}", m)),
    };
    if run::bad() {
        // an earlier violation of this run already tells the story
    } else {
        run::violate(c, m);
    }
    let stats = sim::stats();
    let mut r = run::take();
    let rec = Record {
        idx: ctx().idx,
        case: ctx().case.clone().unwrap(),
        viols: r.viols.clone(),
        choices: sim::choices(),
        hash: stats.hash,
        fired: r.fired.clone(),
        trace: r.trace.take().unwrap_or_default(),
    };
    finish(rec)
}

/// a violation ends the process: its memory can no longer be trusted
fn finish(rec: Record) -> ! {
    let _ = std::fs::write(&ctx().rec, serde_json::to_vec(&rec).unwrap());
    save_sum();
    unsafe { libc::_exit(EXIT_VIOL) }
}

fn save_sum() {
    if let Some((path, s, h)) = &ctx().sum {
        let _ = std::fs::write(format!("{}.sum", path), serde_json::to_vec(s).unwrap());
        let mut b = Vec::with_capacity(h.len() * 8);
        for x in h {
            b.extend_from_slice(&x.to_le_bytes());
        }
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.hashes", path)) {
            let _ = f.write_all(&b);
        }
    }
}

/// Runs the case; ends the process if it violates anything.
pub fn execute(case: &Case, shapes: &'static [Shape], sink: Option<std::fs::File>, trace: bool) -> (Box<Run>, Stats, Vec<u32>) {
    HASH_SEED.store(case.hash_seed, Ordering::SeqCst);
    let mut r = Run::new(0);
    if trace {
        r.trace = Some(vec![]);
    }
    run::reset_sides();
    run::install(0, r);
    if case.other.is_some() {
        run::install(1, Run::new(1));
    }
    let mut ch = chooser(&case.sched);
    ch.sink = sink;
    // a large batch may take its time
    let batch = crate::check::ops_of(case).map(|o| if let crate::case::Op::CreateN { n, .. } = o.op { n as u64 } else { 0 }).max().unwrap_or(0);
    let cfg = Config { chooser: ch, max_steps: MAX_STEPS + 400 * batch, on_fatal, on_quiescent: quiescent };
    let c = case.clone();
    parking_lot::mem::PACE.store(sim::mix(case.hash_seed ^ 0x71), Ordering::SeqCst);
    race::start(case.mem, case.hash_seed);
    let (res, stats, choices) = sim::run(cfg, move || run_case(&c, shapes));
    let mem = race::stop();
    if let Err(m) = res {
        if !run::bad() {
            run::run().viols.push(Viol { classes: vec![Class::Panic], msg: format!("the run died: {}", m), step: stats.steps });
        }
    }
    if run::bad() {
        let r = run::take();
        finish(Record {
            idx: ctx().idx,
            case: case.clone(),
            viols: r.viols.clone(),
            choices,
            hash: stats.hash,
            fired: r.fired.clone(),
            trace: r.trace.unwrap_or_default(),
        });
    }
    let mut r = run::take();
    r.mem = mem;
    (r, stats, choices)
}

pub fn limits() {
    let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
pub fn pin(i: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[i % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

pub fn case_seed(prop: &str, base: u64, idx: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |h, b| h.wrapping_mul(131) + b as u64);
    sim::mix(sim::mix(base.wrapping_mul(0x9E37_79B9) ^ p << 32).wrapping_add(idx.wrapping_mul(0x2545_F491_4F6C_DD1D)))
}

/// worker PROP BASE FROM STEP COUNT DEADLINE_S PATH CPU
pub fn worker(a: &[&str]) -> i32 {
    let prop = a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, from, step, count, deadline) = (n(1), n(2), n(3), n(4), n(5));
    let path = a[6].to_string();
    limits();
    pin(n(7) as usize);
    let shapes = all_shapes();
    let status = crate::watch::page(&format!("{}.status", path));
    sim::set_beat(&status[1]);
    let t0 = std::time::Instant::now();
    ctx().rec = format!("{}.rec", path);
    ctx().sum = Some((path, Sum::default(), HashSet::new()));
    let mut idx = from;
    while idx < count {
        if t0.elapsed().as_secs() >= deadline {
            break;
        }
        status[0].store(idx, Ordering::SeqCst);
        let case = generate(prop, case_seed(prop, base, idx), all_pats());
        ctx().idx = idx;
        ctx().case = Some(case.clone());
        if let Some((_, s, _)) = &mut ctx().sum {
            s.runs += 1;
        }
        let (r, stats, _) = execute(&case, shapes, None, false);
        let (_, s, h) = ctx().sum.as_mut().unwrap();
        s.conc_runs += (!case.clients.is_empty() || !case.cross.is_empty()) as u64;
        s.outer_runs += case.outer as u64;
        let f = &r.fired;
        if f.client_panics + f.drop_panics + f.conv_panics + f.stalls + f.cancels + f.step_panics > 0 {
            s.fault_runs += 1;
        }
        s.steps += stats.steps;
        s.points += stats.points;
        s.switches += stats.switches;
        s.preemptions += stats.preemptions;
        s.blocks += stats.blocks;
        s.barges += stats.barges;
        s.barge_waits += stats.barge_waits;
        s.acquisitions += stats.acquisitions;
        s.atomics += stats.atomics;
        s.futex += stats.futex;
        s.mem_runs += case.mem as u64;
        s.mem_reads += r.mem.reads;
        s.mem_writes += r.mem.writes;
        s.mem_blocks += r.mem.allocs;
        s.ops += r.ops;
        s.audits += r.audits;
        s.lin_states += r.lin_states;
        s.lin_unknown += r.lin_unknown;
        s.cut_short += r.stop as u64;
        s.conc_nodes += r.conc_nodes;
        s.blocked_judged += r.blocked_judged;
        s.max_steps_run = s.max_steps_run.max(stats.steps);
        let one = Sum { fired: r.fired.clone(), probes: r.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(), ..Sum::default() };
        s.add(&one);
        if r.ops >= 3 {
            h.insert(stats.hash);
        }
        if s.samples.is_empty() && case.size() < 40 && r.ops > 4 {
            s.samples.push(format!("index {} hash {:016x}: {}", idx, stats.hash, serde_json::to_string(&case).unwrap()));
        }
        idx += step;
    }
    ctx().sum.as_mut().unwrap().1.done = true;
    save_sum();
    0
}

/// schedule number k for a case
pub fn alt(case: &Case, k: u64) -> Case {
    let mut c = case.clone();
    if k == 0 {
        return c;
    }
    let s = match &case.sched {
        Sched::Sticky { seed, .. } | Sched::Pct { seed, .. } => *seed,
        Sched::Choices(_) => return c,
    };
    let seed = sim::mix(s.wrapping_add(k));
    let barge = [0, 1000, 300, 700][(seed >> 7) as usize % 4];
    c.sched = match k % 4 {
        0 => Sched::Sticky { seed, p: 100, barge },
        1 => Sched::Sticky { seed, p: 500, barge },
        _ => Sched::Pct { seed, changes: 1 + (seed % 4) as u32, horizon: 30 + (seed >> 20) as u32 % 150, barge },
    };
    c
}

/// try CASEFILE FROM_K TO_K REC TRACE(0|1) SINK(0|1): exit 10 with REC written if it violates
pub fn try_case(a: &[&str]) -> i32 {
    limits();
    let case: Case = serde_json::from_slice(&std::fs::read(a[0]).unwrap()).unwrap();
    let (from, to): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let shapes = all_shapes();
    ctx().rec = a[3].to_string();
    let status = crate::watch::page(&format!("{}.k", a[3]));
    sim::set_beat(&status[1]);
    for k in from..to {
        status[0].store(k, Ordering::SeqCst);
        let c = alt(&case, k);
        ctx().case = Some(c.clone());
        let sink = if a[5] == "1" { Some(std::fs::File::create(format!("{}.choices", a[3])).unwrap()) } else { None };
        execute(&c, shapes, sink, a[4] == "1");
    }
    0
}

/// digest PROP BASE FROM TO: hash of every run, to compare two executions
pub fn digest(a: &[&str]) -> i32 {
    let shapes = all_shapes();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let mut all = 0u64;
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for idx in n(2)..n(3) {
        let case = generate(a[0], case_seed(a[0], n(1), idx), all_pats());
        ctx().case = Some(case.clone());
        ctx().rec = "/dev/null".into();
        let (r, s, ch) = execute(&case, shapes, None, true);
        let t = r.trace.unwrap_or_default().join("\n");
        let th = t.bytes().fold(7u64, |h, b| sim::mix(h ^ b as u64));
        all = sim::mix(all ^ s.hash ^ th);
        let _ = writeln!(out, "{} {:016x} {:016x} {} {}", idx, s.hash, th, ch.len(), s.steps);
    }
    let _ = writeln!(out, "{:016x}", all);
    0
}

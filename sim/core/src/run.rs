//! State of the run in progress. Only the thread that holds the simulator's baton (or the
//! main thread between runs) touches it.
use crate::comps::{Ledger, NR, NT};
use crate::model::{GKey, Node, St};
use parking_lot::sim;
use std::cell::UnsafeCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub enum Class {
    Id,
    Range,
    Pin,
    Cellv,
    Comp,
    Query,
    Group,
    Pack,
    Removal,
    Reg,
    MakeGroup,
    Res,
    Refusal,
    Accepted,
    Excl,
    Deadlock,
    Livelock,
    LeakLock,
    Blocked,
    /// shared access delayed by shared access
    Share,
    DebugBlocks,
    Panic,
    Drop,
    Crash,
    Hang,
    Escape,
    /// unordered accesses to the same memory
    Race,
    /// freed or out-of-bounds memory
    Memory,
    /// something is on a thread where it must not be, or cannot go where it must
    Cross,
    /// the same calls have different effects
    Differs,
    /// memory use grows without need
    Growth,
    /// iteration takes more memory accesses than promised
    Cost,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    pub classes: Vec<Class>,
    pub msg: String,
    pub step: u64,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Fired {
    pub client_panics: u64,
    pub drop_panics: u64,
    pub conv_panics: u64,
    pub stalls: u64,
    pub cancels: u64,
    pub step_panics: u64,
    pub refusals: u64,
    pub lib_drops: u64,
    #[serde(default)]
    pub handovers_refused: u64,
}

/// What a thread is doing, for judging who may be delayed by whom.
#[derive(Clone, Default, Debug)]
pub struct Doing {
    /// plain accesses only: component mask / resource mask
    pub plain: bool,
    pub types: u8,
    pub res: u8,
    /// only shared access is asked for
    pub shared: bool,
    /// a running query or guard (its types become busy while it is delayed)
    pub spreads: bool,
    pub debug: bool,
    pub label: String,
}

#[derive(Default, Clone, Copy)]
pub struct Window {
    pub shared: u32,
    pub excl: u32,
}

/// types nobody else uses (see crowd.rs)
#[derive(Default)]
pub struct Crowd {
    pub known: std::collections::BTreeSet<usize>,
    pub res: std::collections::BTreeSet<usize>,
    pub pairs: Vec<(usize, usize)>,
    /// by entity
    pub held: std::collections::BTreeMap<u64, Vec<usize>>,
    /// something crashed: who holds what is not known
    pub off: bool,
}

pub struct Run {
    pub crowd: Crowd,
    pub ledger: Ledger,
    pub viols: Vec<Viol>,
    pub fired: Fired,
    pub win: [Window; NT],
    pub rwin: [Window; NR],
    /// per thread: component and resource masks of the open windows
    pub held: Vec<(u8, u8)>,
    /// the exclusive part of it
    pub held_x: Vec<(u8, u8)>,
    /// in the middle of an operation inside another one (sequential phases)
    pub nested: bool,
    pub doing: Vec<Doing>,
    pub nodes: Vec<Node>,
    pub st: St,
    pub groups: Vec<GKey>,
    pub trace: Option<Vec<String>>,
    pub lin_states: u64,
    pub lin_unknown: u64,
    pub blocked_judged: u64,
    pub audits: u64,
    pub last_panic: String,
    pub ops: u64,
    pub conc: bool,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
    /// outer lock in use (exclusive steps)
    pub outer: bool,
    /// open windows: thread, serial, component mask, since
    pub open: Vec<(usize, u64, u8, u64)>,
    pub seq: u64,
    pub max_id: u64,
    /// entities created whose ids were not told (upper bound)
    pub lost: u64,
    /// crashed creations whose cells are known but not their ids: (node, client)
    pub lost_cells: Vec<(usize, usize)>,
    /// the rest of the run cannot be judged
    pub stop: bool,
    pub conc_nodes: u64,
    pub mem: parking_lot::race::Counts,
}
impl Run {
    pub fn new(side: usize) -> Run {
        Run {
            crowd: Crowd::default(),
            ledger: Ledger::new(side),
            viols: vec![],
            fired: Fired::default(),
            win: Default::default(),
            rwin: Default::default(),
            held: vec![(0, 0); 8],
            held_x: vec![(0, 0); 8],
            nested: false,
            doing: vec![Doing::default(); 8],
            nodes: vec![],
            st: St::new(),
            groups: vec![],
            trace: None,
            lin_states: 0,
            lin_unknown: 0,
            blocked_judged: 0,
            audits: 0,
            last_panic: String::new(),
            ops: 0,
            conc: false,
            probes: Default::default(),
            outer: false,
            open: vec![],
            seq: 0,
            max_id: 0,
            lost: 0,
            lost_cells: vec![],
            stop: false,
            conc_nodes: 0,
            mem: Default::default(),
        }
    }
}

impl Run {
    /// what another world of the same run saw
    fn absorb(&mut self, o: Run) {
        self.viols.extend(o.viols);
        let (a, b) = (&mut self.fired, &o.fired);
        a.client_panics += b.client_panics;
        a.drop_panics += b.drop_panics;
        a.conv_panics += b.conv_panics;
        a.stalls += b.stalls;
        a.cancels += b.cancels;
        a.step_panics += b.step_panics;
        a.refusals += b.refusals;
        a.lib_drops += b.lib_drops;
        a.handovers_refused += b.handovers_refused;
        self.lin_states += o.lin_states;
        self.lin_unknown += o.lin_unknown;
        self.blocked_judged += o.blocked_judged;
        self.audits += o.audits;
        self.ops += o.ops;
        self.conc_nodes += o.conc_nodes;
        self.stop |= o.stop;
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
    }
}

/// a run has one world, or two that must not notice each other; every thread is at work in
/// one of them at a time
pub const SIDES: usize = 2;
struct G(UnsafeCell<[Option<Box<Run>>; SIDES]>);
unsafe impl Sync for G {}
static RUN: G = G(UnsafeCell::new([None, None]));
struct At(UnsafeCell<[u8; 16]>);
unsafe impl Sync for At {}
static AT: At = At(UnsafeCell::new([0; 16]));
thread_local! {
    static SIDE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn install(side: usize, r: Run) {
    unsafe { (*RUN.0.get())[side] = Some(Box::new(r)) }
}
/// the calling thread now works in this world
pub fn enter(side: usize) {
    SIDE.with(|s| s.set(side));
    if let Some(t) = sim::tid() {
        unsafe { (*AT.0.get())[t % 16] = side as u8 }
    }
}
pub fn side() -> usize {
    SIDE.with(|s| s.get())
}
pub fn side_of(tid: usize) -> usize {
    unsafe { (*AT.0.get())[tid % 16] as usize }
}
pub fn reset_sides() {
    unsafe { *AT.0.get() = [0; 16] }
    SIDE.with(|s| s.set(0));
}
pub fn take() -> Box<Run> {
    let both = unsafe { &mut *RUN.0.get() };
    let mut r = both[0].take().unwrap();
    if let Some(o) = both[1].take() {
        r.absorb(*o);
    }
    r
}
pub fn of(side: usize) -> Option<&'static mut Run> {
    unsafe { (*RUN.0.get())[side].as_deref_mut() }
}
pub fn run() -> &'static mut Run {
    of(SIDE.with(|s| s.get())).expect("no run")
}

pub fn violate(c: Class, msg: String) {
    violate_all(vec![c], msg)
}
pub fn violate_all(classes: Vec<Class>, msg: String) {
    let r = run();
    if r.viols.len() >= 8 {
        return;
    }
    let v = Viol { classes, msg, step: sim::now() };
    trace(|| format!("VIOLATION {:?}: {}", v.classes, v.msg));
    r.viols.push(v);
}
pub fn bad() -> bool {
    (0..SIDES).any(|s| of(s).map_or(false, |r| !r.viols.is_empty()))
}
pub fn trace(f: impl FnOnce() -> String) {
    if let Some(t) = &mut of(0).expect("no run").trace {
        let who = sim::tid().map(|t| t.to_string()).unwrap_or("-".into());
        let w = if of(1).is_none() { "" } else { [" first world:", " second world:"][side()] };
        t.push(format!("{:>5} [{}]{} {}", sim::now(), who, w, f()));
    }
}
pub fn probe(name: &'static str) {
    *run().probes.entry(name).or_insert(0) += 1;
}

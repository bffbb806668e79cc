//! The simulator's scheduler. Real OS threads, but exactly one of them (the holder of
//! the baton) runs at any time; who gets the baton next is decided here, from a
//! recorded stream of choices and nothing else.
use crate::race;
use std::cell::{Cell, UnsafeCell};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};


// ------------------------------------------------------------------ PRNG
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

// ------------------------------------------------------------------ choices
#[derive(Clone, Debug)]
pub enum Policy {
    /// keep running the current thread, switch with probability p/1000 at each point
    Sticky(u32),
    /// priorities with `changes` priority-change points spread over about `horizon` points
    Pct { changes: u32, horizon: u32 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// index 0 is the current thread when it can run
    Sched { current_can_run: bool },
    /// 0: a new reader waits behind a waiting writer; 1: it passes it
    Barge,
    /// 0: a timed wait waits, 1: it times out at once
    Timeout,
}

pub struct Chooser {
    replay: Option<(Vec<u32>, usize)>,
    rng: Rng,
    policy: Policy,
    barge: u32,
    prio: Vec<u64>,
    change_at: Vec<u64>,
    points: u64,
    pub log: Vec<u32>,
    pub sink: Option<std::fs::File>,
}
impl Chooser {
    pub fn random(seed: u64, policy: Policy, barge: u32) -> Chooser {
        let mut rng = Rng::new(seed);
        let mut change_at = vec![];
        if let Policy::Pct { changes, horizon } = &policy {
            for _ in 0..*changes {
                change_at.push(rng.below(*horizon as u64));
            }
            change_at.sort();
        }
        Chooser { replay: None, rng, policy, barge, prio: vec![], change_at, points: 0, log: vec![], sink: None }
    }
    pub fn replay(list: Vec<u32>) -> Chooser {
        let mut c = Chooser::random(0, Policy::Sticky(0), 0);
        c.replay = Some((list, 0));
        c
    }
    fn choose(&mut self, tids: &[usize], n: u32, kind: Kind) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if let Some((list, pos)) = &mut self.replay {
            let v = list.get(*pos).copied().unwrap_or(0);
            *pos += 1;
            if v < n { v } else { 0 }
        } else {
            match kind {
                Kind::Barge => (self.rng.below(1000) < self.barge as u64) as u32,
                Kind::Timeout => self.rng.below(2) as u32,
                Kind::Sched { current_can_run } => match self.policy {
                    Policy::Sticky(p) => {
                        if current_can_run {
                            if self.rng.below(1000) < p as u64 {
                                1 + self.rng.below(n as u64 - 1) as u32
                            } else {
                                0
                            }
                        } else {
                            self.rng.below(n as u64) as u32
                        }
                    }
                    Policy::Pct { .. } => {
                        let max = *tids.iter().max().unwrap();
                        while self.prio.len() <= max {
                            let p = self.rng.next() | (1 << 40);
                            self.prio.push(p);
                        }
                        self.points += 1;
                        while let Some(&c) = self.change_at.first() {
                            if self.points >= c {
                                self.change_at.remove(0);
                                // demote the one that would run now
                                let best = *tids.iter().max_by_key(|t| self.prio[**t]).unwrap();
                                self.prio[best] = self.change_at.len() as u64;
                            } else {
                                break;
                            }
                        }
                        let mut bi = 0;
                        for (i, t) in tids.iter().enumerate() {
                            if self.prio[*t] > self.prio[tids[bi]] {
                                bi = i;
                            }
                        }
                        bi as u32
                    }
                },
            }
        };
        self.log.push(v);
        if let Some(f) = &mut self.sink {
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
        v
    }
}

// ------------------------------------------------------------------ runtime
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Runnable,
    Blocked { lock: u32, want_excl: bool, timed: bool },
    Stalled,
    /// busy-waiting: runs again once somebody else has run, or nobody else can
    Spin,
    WaitAll,
    Finished,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Shared,
    Excl,
    Upgradable,
}

struct Th {
    go: Arc<AtomicBool>,
    handle: Arc<OnceLock<std::thread::Thread>>,
    status: Status,
    held: Vec<(u32, Mode)>,
    blocked_events: u64,
    timed_out: bool,
    label: String,
    join: Option<std::thread::JoinHandle<()>>,
    panic: Option<String>,
}

pub enum Fatal {
    Deadlock(String),
    Livelock(String),
    /// unordered accesses
    Race(String),
    /// freed or foreign memory
    Memory(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub points: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub barges: u64,
    pub barge_waits: u64,
    pub stalls: u64,
    pub acquisitions: u64,
    pub atomics: u64,
    pub futex: u64,
    pub hash: u64,
}

pub struct Config {
    pub chooser: Chooser,
    pub max_steps: u64,
    pub on_fatal: fn(Fatal) -> !,
    /// called when no thread can run but some are stalled: (stalled, blocked) thread ids
    pub on_quiescent: fn(&[usize], &[usize]),
}

struct Rt {
    th: Vec<Th>,
    cur: usize,
    next_lock: u32,
    cfg: Config,
    stats: Stats,
    clock: u64,
    progress: u64,
    futex: Vec<usize>,
}

struct Global(UnsafeCell<Option<Rt>>);
// Only the baton holder touches it; the baton is handed over through `go` (acquire/release).
unsafe impl Sync for Global {}
/// somebody outside counts these to see that the run gets on
static BEAT: std::sync::atomic::AtomicPtr<std::sync::atomic::AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn set_beat(b: &'static std::sync::atomic::AtomicU64) {
    BEAT.store(b as *const _ as *mut _, std::sync::atomic::Ordering::SeqCst);
}
pub fn beat() {
    let p = BEAT.load(std::sync::atomic::Ordering::Relaxed);
    if !p.is_null() {
        unsafe { &*p }.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
}

static RT: Global = Global(UnsafeCell::new(None));

thread_local! {
    /// the thread is inside a library call
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
    /// the scheduler itself is at work
    static BUSY: Cell<bool> = const { Cell::new(false) };
    /// the last thing looked at: where, what was seen, how often in a row
    static LOOK: Cell<(usize, u64, u32)> = const { Cell::new((0, 0, 0)) };
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn tid() -> Option<usize> {
    TID.try_with(|t| t.get()).ok().filter(|t| *t != usize::MAX)
}

fn rt() -> &'static mut Rt {
    unsafe { (*RT.0.get()).as_mut().expect("simulator is not running") }
}

fn active() -> Option<(&'static mut Rt, usize)> {
    let t = tid()?;
    unsafe { (*RT.0.get()).as_mut().map(|r| (r, t)) }
}

impl Rt {
    fn event(&mut self, what: u64, a: u64, b: u64) {
        self.clock += 1;
        beat();
        let h = self.stats.hash ^ what.wrapping_mul(0x100_0000_01B3) ^ (a << 20) ^ b;
        self.stats.hash = mix(h.wrapping_add(0x9E37_79B9_7F4A_7C15));
        self.stats.steps += 1;
        if self.stats.steps - self.progress > self.cfg.max_steps {
            let f = self.cfg.on_fatal;
            f(Fatal::Livelock(format!("more than {} simulated steps without any operation starting or ending\n{}", self.cfg.max_steps, self.describe())));
        }
    }
    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.th.iter().enumerate() {
            s.push_str(&format!("thread {} [{}] {:?} holds {:?}\n", i, t.label, t.status, t.held));
        }
        s
    }
    /// pick who runs next; never returns a thread that cannot run
    fn pick(&mut self, me: usize) -> usize {
        loop {
            let mut run: Vec<usize> = vec![];
            let me_ok = self.th[me].status == Status::Runnable;
            if me_ok {
                run.push(me);
            }
            for (i, t) in self.th.iter().enumerate() {
                if i != me && t.status == Status::Runnable {
                    run.push(i);
                }
            }
            if run.is_empty() {
                self.unstick();
                continue;
            }
            // a busy-waiting thread has its next turn after this one
            for t in self.th.iter_mut() {
                if t.status == Status::Spin {
                    t.status = Status::Runnable;
                }
            }
            let k = self.cfg.chooser.choose(&run, run.len() as u32, Kind::Sched { current_can_run: me_ok });
            let n = run[k as usize];
            if n != me {
                self.stats.switches += 1;
                if me_ok {
                    self.stats.preemptions += 1;
                }
            }
            return n;
        }
    }
    fn unstick(&mut self) {
        let mut spinning = false;
        for t in self.th.iter_mut() {
            if t.status == Status::Spin {
                t.status = Status::Runnable;
                spinning = true;
            }
        }
        if spinning {
            return;
        }
        let stalled: Vec<usize> = (0..self.th.len()).filter(|i| self.th[*i].status == Status::Stalled).collect();
        let blocked: Vec<usize> =
            (0..self.th.len()).filter(|i| matches!(self.th[*i].status, Status::Blocked { .. })).collect();
        if !stalled.is_empty() {
            (self.cfg.on_quiescent)(&stalled, &blocked);
            // every stalled holder resumes
            for i in stalled {
                self.th[i].status = Status::Runnable;
            }
            return;
        }
        let timed: Vec<usize> = blocked
            .iter()
            .copied()
            .filter(|i| matches!(self.th[*i].status, Status::Blocked { timed: true, .. }))
            .collect();
        if let Some(i) = timed.first() {
            self.th[*i].timed_out = true;
            self.th[*i].status = Status::Runnable;
            return;
        }
        if let Some(w) = (0..self.th.len()).find(|i| self.th[*i].status == Status::WaitAll) {
            let others_done =
                (0..self.th.len()).all(|i| i == w || self.th[i].status == Status::Finished);
            if others_done {
                self.th[w].status = Status::Runnable;
                return;
            }
        }
        let f = self.cfg.on_fatal;
        f(Fatal::Deadlock(self.describe()))
    }
}

fn wait_turn(go: &AtomicBool) {
    while !go.swap(false, Ordering::SeqCst) {
        std::thread::park();
    }
}

/// give the baton to whoever is picked, come back when it is our turn again
fn reschedule(me: usize) {
    let r = rt();
    let was = BUSY.with(|b| b.replace(true));
    let n = r.pick(me);
    if n != me {
        let my_go = r.th[me].go.clone();
        hand_over(n);
        wait_turn(&my_go);
    }
    BUSY.with(|b| b.set(was));
}

fn hand_over(n: usize) {
    let r = rt();
    r.cur = n;
    let go = r.th[n].go.clone();
    let h = r.th[n].handle.clone();
    go.swap(true, Ordering::SeqCst);
    if let Some(t) = h.get() {
        t.unpark();
    }
}

/// A scheduling point.
pub fn point(what: u64, a: u64) {
    if let Some((r, me)) = active() {
        r.stats.points += 1;
        r.event(what, me as u64, a);
        // going on and on without ending an operation may be waiting, too
        let n = r.stats.steps - r.progress;
        if n > 5000 && n % 64 == 0 {
            r.th[me].status = Status::Spin;
        }
        reschedule(me);
    }
}

/// Scheduling point placed by the workload.
pub fn yield_now() {
    point(1, 0);
}

/// Stay put until nothing else can run.
pub fn stall() {
    if let Some((r, me)) = active() {
        r.stats.stalls += 1;
        r.event(2, me as u64, 0);
        r.th[me].status = Status::Stalled;
        reschedule(me);
    }
}

/// The global event clock; does not reschedule. Stamps mark starts and ends of operations.
pub fn stamp() -> u64 {
    match active() {
        Some((r, _)) => {
            r.clock += 1;
            r.progress = r.stats.steps;
            LOOK.with(|l| l.set((0, 0, 0)));
            r.clock
        }
        None => 0,
    }
}

/// Fold something observable into the run's event hash.
pub fn note(x: u64) {
    if let Some((r, _)) = active() {
        r.stats.hash = mix(r.stats.hash ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
}

pub fn held_by(t: usize) -> Vec<(u32, Mode)> {
    rt().th[t].held.clone()
}
pub fn held_count() -> usize {
    match active() {
        Some((r, me)) => r.th[me].held.len(),
        None => 0,
    }
}
pub fn blocked_events() -> u64 {
    match active() {
        Some((r, me)) => r.th[me].blocked_events,
        None => 0,
    }
}
pub fn set_label(s: String) {
    if let Some((r, me)) = active() {
        r.th[me].label = s;
    }
}
pub fn stats() -> Stats {
    rt().stats.clone()
}
pub fn choices() -> Vec<u32> {
    unsafe { (*RT.0.get()).as_ref().map(|r| r.cfg.chooser.log.clone()).unwrap_or_default() }
}
pub fn describe() -> String {
    unsafe { (*RT.0.get()).as_ref().map(|r| r.describe()).unwrap_or_default() }
}

// ------------------------------------------------------------------ below the lock API
/// a simulated thread is inside a library call
pub fn inside() -> bool {
    IN_LIB.try_with(|c| c.get()).unwrap_or(false) && !BUSY.try_with(|c| c.get()).unwrap_or(true) && active().is_some()
}
/// the calling thread is doing the simulator's own work; returns what was before
pub(crate) fn busy(b: bool) -> bool {
    BUSY.try_with(|c| c.replace(b)).unwrap_or(true)
}
struct Busy(bool);
impl Busy {
    fn now() -> Busy {
        Busy(busy(true))
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        busy(self.0);
    }
}
pub(crate) fn is_busy() -> bool {
    BUSY.try_with(|c| c.get()).unwrap_or(true)
}
/// memory was used in a way that nothing can be said about what follows
pub(crate) fn fatal_memory(race: bool, m: String) -> ! {
    busy(true);
    let at = std::backtrace::Backtrace::force_capture().to_string();
    let r = rt();
    let m = format!("{}\n{}{}", m, where_in(&at), r.describe());
    let f = r.cfg.on_fatal;
    f(if race { Fatal::Race(m) } else { Fatal::Memory(m) })
}
/// the frames that belong to the library
fn where_in(bt: &str) -> String {
    let l: Vec<&str> = bt.lines().map(|l| l.trim()).collect();
    let mut out = String::new();
    for w in l.windows(2) {
        if let Some(p) = w[1].strip_prefix("at ") {
            if p.contains("/repo/") && out.lines().count() < 6 {
                out.push_str(&format!("  {} ({})\n", w[0].split_once(": ").map_or(w[0], |x| x.1), p.rsplit("/repo/").next().unwrap_or(p)));
            }
        }
    }
    out
}
/// before an atomic operation of the library
pub fn atomic_point() {
    if inside() {
        rt().stats.atomics += 1;
        point(20, 0);
    }
}
/// The library looked at a word and cannot have changed it. Seeing the same again and again
/// without doing anything else is waiting for another thread.
pub fn looked(at: usize, v: u64) {
    if inside() {
        let (a, w, n) = LOOK.with(|l| l.get());
        let n = if (a, w) == (at, v) { n + 1 } else { 0 };
        LOOK.with(|l| l.set((at, v, n)));
        if n >= 3 {
            spin();
        }
    }
}
/// Busy-waiting, yielding or sleeping: let others run.
pub fn spin() {
    if let Some((r, me)) = active() {
        r.event(7, me as u64, 0);
        r.th[me].status = Status::Spin;
        reschedule(me);
        race::join_all();
    }
}
const FUTEX: u32 = 1 << 30;
fn futex_id(at: usize) -> u32 {
    let _b = Busy::now();
    let f = &mut rt().futex;
    let i = f.iter().position(|a| *a == at).unwrap_or_else(|| {
        f.push(at);
        f.len() - 1
    });
    FUTEX | i as u32
}
pub(crate) fn futex_wait(at: usize, timed: bool) -> bool {
    rt().stats.futex += 1;
    if timed && time_out_now() {
        return false;
    }
    let r = block(futex_id(at), true, timed);
    race::join_all();
    r
}
pub(crate) fn futex_wake(at: usize) -> i64 {
    rt().stats.futex += 1;
    wake(futex_id(at))
}

// ------------------------------------------------------------------ lock support
pub(crate) fn fresh_lock_id() -> u32 {
    let _b = Busy::now();
    match active() {
        Some((r, _)) => {
            r.next_lock += 1;
            r.next_lock
        }
        None => u32::MAX,
    }
}

/// Block the calling thread on `lock`; returns false if a timed wait timed out.
pub(crate) fn block(lock: u32, want_excl: bool, timed: bool) -> bool {
    let _b = Busy::now();
    match active() {
        None => panic!("simlock: contended lock outside the simulator"),
        Some((r, me)) => {
            r.stats.blocks += 1;
            r.th[me].blocked_events += 1;
            r.event(3, me as u64, lock as u64);
            r.th[me].status = Status::Blocked { lock, want_excl, timed };
            r.th[me].timed_out = false;
            reschedule(me);
            let r = rt();
            !std::mem::replace(&mut r.th[me].timed_out, false)
        }
    }
}
pub(crate) fn acquired(lock: u32, m: Mode) {
    let _b = Busy::now();
    if let Some((r, me)) = active() {
        r.stats.acquisitions += 1;
        LOOK.with(|l| l.set((0, 0, 0)));
        r.th[me].held.push((lock, m));
        r.event(4, me as u64, (lock as u64) << 2 | m as u64);
        race::acquire(lock, m);
    }
}
pub(crate) fn released(lock: u32, m: Mode) {
    let _b = Busy::now();
    if let Some((r, me)) = active() {
        if let Some(p) = r.th[me].held.iter().rposition(|h| *h == (lock, m)) {
            r.th[me].held.remove(p);
        } else {
            // released by another thread than the one that locked it
            'o: for t in r.th.iter_mut() {
                if let Some(p) = t.held.iter().rposition(|h| *h == (lock, m)) {
                    t.held.remove(p);
                    break 'o;
                }
            }
        }
        r.event(5, me as u64, (lock as u64) << 2 | m as u64);
        race::release(lock, m);
        wake(lock);
    }
}
pub(crate) fn wake(lock: u32) -> i64 {
    let mut n = 0;
    if let Some((r, _)) = active() {
        for t in r.th.iter_mut() {
            if let Status::Blocked { lock: l, .. } = t.status {
                if l == lock {
                    t.status = Status::Runnable;
                    n += 1;
                }
            }
        }
    }
    n
}
pub(crate) fn may_barge() -> bool {
    let _b = Busy::now();
    match active() {
        None => true,
        Some((r, _)) => {
            if r.cfg.chooser.choose(&[], 2, Kind::Barge) == 1 {
                r.stats.barges += 1;
                true
            } else {
                r.stats.barge_waits += 1;
                false
            }
        }
    }
}
pub(crate) fn time_out_now() -> bool {
    let _b = Busy::now();
    match active() {
        None => true,
        Some((r, _)) => r.cfg.chooser.choose(&[], 2, Kind::Timeout) == 1,
    }
}

// ------------------------------------------------------------------ running
fn new_th(label: &str) -> Th {
    Th {
        go: Arc::new(AtomicBool::new(false)),
        handle: Arc::new(OnceLock::new()),
        status: Status::Runnable,
        held: vec![],
        blocked_events: 0,
        timed_out: false,
        label: label.to_string(),
        join: None,
        panic: None,
    }
}

/// Run `main` as simulated thread 0 on a fresh OS thread. Returns when it has finished.
pub fn run<R: Send + 'static>(cfg: Config, main: impl FnOnce() -> R + Send + 'static) -> (Result<R, String>, Stats, Vec<u32>) {
    unsafe {
        *RT.0.get() = Some(Rt {
            th: vec![new_th("main")],
            cur: 0,
            next_lock: 0,
            futex: vec![],
            cfg,
            stats: Stats::default(),
            progress: 0,
            clock: 0,
        });
    }
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            TID.with(|t| t.set(0));
            let _ = rt().th[0].handle.set(std::thread::current());
            let r = catch_unwind(AssertUnwindSafe(main)).map_err(|e| payload(&*e));
            TID.with(|t| t.set(usize::MAX));
            r
        })
        .expect("spawn");
    let res = h.join().unwrap_or_else(|e| Err(payload(&*e)));
    let r = unsafe { (*RT.0.get()).take().unwrap() };
    (res, r.stats, r.cfg.chooser.log)
}

pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Add a simulated thread; it first runs when the scheduler picks it.
pub fn spawn(label: &str, f: impl FnOnce() + Send + 'static) -> usize {
    let r = rt();
    let id = r.th.len();
    let th = new_th(label);
    let go = th.go.clone();
    let handle = th.handle.clone();
    r.th.push(th);
    race::fork(id);
    let j = std::thread::Builder::new()
        .stack_size(512 * 1024)
        .spawn(move || {
            let _ = handle.set(std::thread::current());
            wait_turn(&go);
            TID.with(|t| t.set(id));
            let res = catch_unwind(AssertUnwindSafe(f));
            let r = rt();
            if let Err(e) = res {
                r.th[id].panic = Some(payload(&*e));
            }
            r.event(6, id as u64, 0);
            r.th[id].status = Status::Finished;
            TID.with(|t| t.set(usize::MAX));
            let n = r.pick(id);
            hand_over(n);
        })
        .expect("spawn");
    rt().th[id].join = Some(j);
    id
}

/// Wait until every other simulated thread has finished; returns stray panics.
pub fn join_all() -> Vec<(usize, String)> {
    let me = tid().unwrap();
    let r = rt();
    if r.th.len() > 1 {
        r.th[me].status = Status::WaitAll;
        reschedule(me);
        race::join_all();
    }
    let mut out = vec![];
    let r = rt();
    for (i, t) in r.th.iter_mut().enumerate() {
        if let Some(j) = t.join.take() {
            let _ = j.join();
        }
        if let Some(p) = t.panic.take() {
            out.push((i, p));
        }
    }
    r.th.truncate(1);
    out
}

/// The event clock, without advancing it.
pub fn now() -> u64 {
    active().map(|(r, _)| r.clock).unwrap_or(0)
}

/// as `spawn`, whatever the compiler thinks of what `f` carries
pub fn spawn_any(label: &str, f: impl FnOnce() + 'static) -> usize {
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    impl<T: FnOnce()> Any<T> {
        fn call(self) {
            (self.0)()
        }
    }
    let f = Any(f);
    spawn(label, move || f.call())
}

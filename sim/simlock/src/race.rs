//! Memory oracle: while it is on, everything the library allocates lives in an arena of its
//! own, every access to it that instrumented code makes (the __tsan_* hooks in mem.rs) is
//! judged. Two accesses by different threads to the same byte, one of them a write, must be
//! ordered by happens-before (vector clocks over locks, atomics, thread creation and end);
//! freed and never allocated bytes must not be touched at all.
use crate::sim::{self, Mode};
use std::alloc::Layout;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

const T: usize = 8;
type Vc = [u32; T];

const ARENA: usize = 96 << 20;
const G: usize = ARENA / 8;
/// untouchable bytes behind every block
const ZONE: usize = 16;

#[derive(Clone, Copy)]
#[repr(C)]
struct Cell {
    /// bytes that may be accessed
    live: u8,
    freed: bool,
    wtid: u8,
    wmask: u8,
    wclk: u32,
    rmask: [u8; T],
    rclk: [u32; T],
}

static BASE: AtomicUsize = AtomicUsize::new(0);
static SHADOW: AtomicUsize = AtomicUsize::new(0);
static MAPS: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);

struct Heap {
    next: usize,
    free: Vec<Vec<u32>>,
    gone: Vec<(u32, u8)>,
    /// blocks in use, of this run or an earlier one
    blocks: u64,
    /// decides where blocks are placed
    rng: u64,
}
struct State {
    vc: [Vc; T],
    locks: Vec<[Vc; 2]>,
    atomics: BTreeMap<usize, (u64, Vc)>,
    work: u64,
    /// bytes in use
    live: u64,
    reads: u64,
    writes: u64,
    allocs: u64,
    frees: u64,
}
struct Glob<X>(std::cell::UnsafeCell<Option<X>>);
unsafe impl<X> Sync for Glob<X> {}
static HEAP: Glob<Heap> = Glob(std::cell::UnsafeCell::new(None));
static ST: Glob<State> = Glob(std::cell::UnsafeCell::new(None));

fn st() -> &'static mut State {
    unsafe { (*ST.0.get()).as_mut().unwrap() }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Counts {
    pub reads: u64,
    pub writes: u64,
    pub allocs: u64,
    pub frees: u64,
}

extern "C" {
    fn mmap(a: usize, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
}
unsafe fn map(n: usize) -> usize {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    // the same place in every process, if it is free (MAP_FIXED_NOREPLACE)
    let at = 0x6100_0000_0000 + MAPS.fetch_add(1, SeqCst) * (1 << 36);
    let p = mmap(at, n, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0);
    let p = if p as isize == -1 || p != at { mmap(0, n, 3, 0x2 | 0x20 | 0x4000, -1, 0) } else { p };
    assert!(p as isize != -1, "mmap");
    p
}

/// before a run
pub fn start(on: bool, seed: u64) {
    if !on {
        return;
    }
    let was = sim::busy(true);
    unsafe {
        if BASE.load(Relaxed) == 0 {
            let b = map(ARENA);
            let s = map(G * std::mem::size_of::<Cell>());
            SHADOW.store(s, Relaxed);
            BASE.store(b, SeqCst);
            *HEAP.0.get() = Some(Heap { next: 64, free: vec![vec![]; 256], gone: Vec::with_capacity(1 << 14), blocks: 0, rng: 0 });
        }
        heap(|h| {
            // where blocks are does not depend on earlier runs
            if h.blocks == 0 {
                h.next = 64;
            }
            if h.blocks == 0 || h.next < ARENA / 2 {
                h.free.iter_mut().for_each(|f| f.clear());
            }
            h.rng = seed | 1;
        });
        let mut vc = [[0; T]; T];
        for (i, v) in vc.iter_mut().enumerate() {
            v[i] = 1;
        }
        *ST.0.get() = Some(State { vc, locks: vec![], atomics: BTreeMap::new(), work: 0, live: 0, reads: 0, writes: 0, allocs: 0, frees: 0 });
    }
    ON.store(true, SeqCst);
    sim::busy(was);
}
/// after a run: freed memory may be handed out again
pub fn stop() -> Counts {
    if !ON.swap(false, SeqCst) {
        return Counts::default();
    }
    heap(|h| {
        h.gone.sort_unstable();
        for (at, c) in h.gone.drain(..) {
            h.free[c as usize].push(at);
        }
    });
    let s = st();
    Counts { reads: s.reads, writes: s.writes, allocs: s.allocs, frees: s.frees }
}

fn heap<R>(f: impl FnOnce(&mut Heap) -> R) -> R {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let was = sim::busy(true);
    let r = f(unsafe { (*HEAP.0.get()).as_mut().unwrap() });
    sim::busy(was);
    LOCK.store(false, Release);
    r
}

#[inline]
fn offset(p: usize) -> Option<usize> {
    let o = p.wrapping_sub(BASE.load(Relaxed));
    (o < ARENA && BASE.load(Relaxed) != 0).then_some(o)
}
#[inline]
fn cell(g: usize) -> &'static mut Cell {
    unsafe { &mut *(SHADOW.load(Relaxed) as *mut Cell).add(g) }
}

// ------------------------------------------------------------------ heap
fn class(n: usize) -> (usize, usize) {
    let n = n + ZONE;
    if n <= 2048 {
        let c = n.div_ceil(16);
        (c, c * 16)
    } else {
        let p = n.next_power_of_two();
        (130 + p.trailing_zeros() as usize, p)
    }
}
pub fn wants(l: &Layout) -> bool {
    ON.load(Relaxed) && l.align() <= 16 && l.size() <= 1 << 20 && sim::inside()
}
pub unsafe fn alloc(l: Layout) -> *mut u8 {
    let (c, n) = class(l.size());
    let at = heap(|h| {
        h.blocks += 1;
        if h.free[c].is_empty() {
            // several places at once, to be taken in any order
            h.rng ^= h.rng << 13;
            h.rng ^= h.rng >> 7;
            h.rng ^= h.rng << 17;
            let k = if n > 4096 { 1 } else { 1 + (h.rng >> 8) as usize % 6 };
            for i in 0..k {
                if h.next + n > ARENA {
                    break;
                }
                let j = (h.rng >> 16) as usize % (i + 1);
                h.rng = h.rng.rotate_left(11);
                h.free[c].push(h.next as u32);
                h.free[c].swap(i, j);
                h.next += n;
            }
        }
        match h.free[c].pop() {
            Some(a) => a as usize,
            None => {
                h.blocks -= 1;
                0
            }
        }
    });
    if at == 0 {
        return std::alloc::System.alloc(l);
    }
    st().allocs += 1;
    st().live = st().live.wrapping_add(l.size() as u64);
    let g = at / 8;
    std::ptr::write_bytes(cell(g) as *mut Cell, 0, n / 8);
    for i in 0..l.size() / 8 {
        cell(g + i).live = 0xff;
    }
    if l.size() % 8 != 0 {
        cell(g + l.size() / 8).live = ((1u32 << (l.size() % 8)) - 1) as u8;
    }
    let p = (BASE.load(Relaxed) + at) as *mut u8;
    // nobody may count on what was there
    std::ptr::write_bytes(p, 0xA5, l.size());
    p
}
use std::alloc::GlobalAlloc;
pub fn owns(p: *const u8) -> bool {
    offset(p as usize).is_some()
}
pub unsafe fn dealloc(p: *mut u8, l: Layout) {
    let at = offset(p as usize).unwrap();
    let g = at / 8;
    let (c, n) = class(l.size());
    st().live = st().live.wrapping_sub(l.size() as u64);
    if judged() {
        st().frees += 1;
        if cell(g).freed {
            broken(format!("a block of {} bytes is freed twice", l.size()));
        }
        access(at, l.size(), true, "frees");
        let was = sim::busy(true);
        let m = &mut st().atomics;
        let gone: Vec<usize> = m.range(p as usize..p as usize + l.size()).map(|x| *x.0).collect();
        for a in gone {
            m.remove(&a);
        }
        sim::busy(was);
    }
    for i in 0..n / 8 {
        let x = cell(g + i);
        x.live = 0;
        x.freed = true;
    }
    if ON.load(Relaxed) {
        std::ptr::write_bytes(p, 0xDB, l.size());
    }
    heap(|h| {
        h.blocks -= 1;
        if ON.load(Relaxed) {
            h.gone.push((at as u32, c as u8));
        } else {
            h.free[c].push(at as u32);
        }
    });
}

// ------------------------------------------------------------------ accesses
fn judged() -> bool {
    ON.load(Relaxed) && sim::tid().is_some() && !sim::is_busy()
}
fn broken(m: String) {
    sim::fatal_memory(false, m)
}
#[cold]
fn complain(at: usize, g: usize, m: u8, me: usize, what: &str) {
    let c = *cell(g);
    if m & !c.live != 0 {
        let how = if c.freed { "freed" } else { "never allocated (out of bounds)" };
        broken(format!("thread {} {} memory that is {}", me, what, how));
        return;
    }
    let v = &st().vc[me];
    let w = c.wtid as usize;
    let (other, did) = if c.wmask & m != 0 && w != me && c.wclk > v[w] {
        (w, "wrote")
    } else {
        let u = (0..T).find(|u| *u != me && c.rmask[*u] & m != 0 && c.rclk[*u] > v[*u]).unwrap_or(T);
        (u, "read")
    };
    let _ = at;
    sim::fatal_memory(true, format!("data race: thread {} {} a byte that thread {} {} with nothing ordering the two", me, what, other, did));
}
#[inline]
fn access(at: usize, n: usize, write: bool, what: &str) {
    let me = sim::tid().unwrap_or(T);
    if me >= T || n == 0 {
        return;
    }
    let v = &st().vc[me];
    let clk = v[me];
    let (a, b) = (at / 8, (at + n - 1) / 8);
    if b >= G {
        return;
    }
    for g in a..=b {
        let mut m = 0xffu8;
        if g == a {
            m &= 0xffu8 << (at % 8);
        }
        if g == b {
            m &= 0xffu8 >> (7 - (at + n - 1) % 8);
        }
        let c = cell(g);
        if m & !c.live != 0 || c.wmask & m != 0 && c.wtid as usize != me && c.wclk > v[c.wtid as usize] {
            return complain(at, g, m, me, what);
        }
        if write {
            for u in 0..T {
                if c.rmask[u] & m != 0 {
                    if u != me && c.rclk[u] > v[u] {
                        return complain(at, g, m, me, what);
                    }
                    c.rmask[u] &= !m;
                }
            }
            if c.wtid as usize == me && c.wclk == clk {
                c.wmask |= m;
            } else {
                (c.wtid, c.wclk, c.wmask) = (me as u8, clk, m);
            }
        } else if c.rclk[me] == clk {
            c.rmask[me] |= m;
        } else {
            (c.rclk[me], c.rmask[me]) = (clk, m);
        }
    }
}
#[inline]
pub fn read(p: usize, n: usize) {
    if let Some(at) = offset(p) {
        if judged() {
            st().reads += 1;
            st().work += n.div_ceil(16).max(1) as u64;
            access(at, n, false, "reads");
        }
    }
}
#[inline]
pub fn write(p: usize, n: usize) {
    if let Some(at) = offset(p) {
        if judged() {
            st().writes += 1;
            st().work += n.div_ceil(16).max(1) as u64;
            access(at, n, true, "writes");
        }
    }
}

pub unsafe fn copy(from: *const u8, to: *mut u8, n: usize) {
    read(from as usize, n);
    write(to as usize, n);
    std::ptr::copy_nonoverlapping(from, to, n);
}

// ------------------------------------------------------------------ order
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..T {
        a[i] = a[i].max(b[i]);
    }
}
fn with(f: impl FnOnce(&mut State, usize)) {
    if !ON.load(Relaxed) {
        return;
    }
    if let Some(me) = sim::tid().filter(|t| *t < T) {
        let was = sim::busy(true);
        f(st(), me);
        sim::busy(was);
    }
}
fn slot(s: &mut State, lock: u32) -> &mut [Vc; 2] {
    let i = lock as usize;
    if s.locks.len() <= i {
        s.locks.resize(i + 1, [[0; T]; 2]);
    }
    &mut s.locks[i]
}
const MANY: u32 = 1 << 20;
pub fn acquire(lock: u32, m: Mode) {
    with(|s, me| {
        s.work += 2;
        if lock > MANY {
            return;
        }
        let l = *slot(s, lock);
        join(&mut s.vc[me], &l[0]);
        if m == Mode::Excl {
            join(&mut s.vc[me], &l[1]);
        }
    })
}
pub fn release(lock: u32, m: Mode) {
    with(|s, me| {
        if lock > MANY {
            return;
        }
        let v = s.vc[me];
        join(&mut slot(s, lock)[(m == Mode::Shared) as usize], &v);
        s.vc[me][me] += 1;
    })
}
/// whatever it was that let this thread go on, it may have come from anybody
pub fn join_all() {
    with(|s, me| {
        let mut v = s.vc[me];
        for u in 0..T {
            join(&mut v, &s.vc[u]);
            if u != me {
                s.vc[u][u] += 1;
            }
        }
        s.vc[me] = v;
    })
}
pub fn fork(child: usize) {
    with(|s, me| {
        if child < T {
            let v = s.vc[me];
            join(&mut s.vc[child], &v);
            s.vc[child][child] += 1;
            s.vc[me][me] += 1;
        }
    })
}
fn acq(o: i32) -> bool {
    o != 0 && o != 3
}
fn rel(o: i32) -> bool {
    o >= 3
}
/// an atomic operation: what was found, what was left there (`None`: nothing written)
pub fn atomic(p: usize, found: Option<u64>, left: Option<u64>, o: i32) {
    with(|s, me| {
        s.work += 1 + left.is_some() as u64;
        let known = s.atomics.get(&p).copied();
        let mut vc = [0; T];
        if let Some(f) = found {
            match known {
                Some((v, k)) if v == f => {
                    vc = k;
                    if acq(o) {
                        join(&mut s.vc[me], &k);
                    }
                }
                // written by code without hooks
                _ => {
                    for u in 0..T {
                        let x = s.vc[u];
                        join(&mut s.vc[me], &x);
                        if u != me {
                            s.vc[u][u] += 1;
                        }
                    }
                }
            }
        }
        if let Some(l) = left {
            if rel(o) {
                let v = s.vc[me];
                join(&mut vc, &v);
                s.vc[me][me] += 1;
            }
            s.atomics.insert(p, (l, vc));
        }
    })
}
/// the atomic itself must be alive
pub fn atomic_touch(p: usize, n: usize) {
    if let Some(at) = offset(p) {
        if judged() {
            for b in at..at + n {
                if cell(b / 8).live >> (b % 8) & 1 == 0 {
                    return complain(at, b / 8, 1 << (b % 8), sim::tid().unwrap_or(T), "uses atomically");
                }
            }
        }
    }
}
/// bytes allocated in this run and not freed
pub fn live() -> u64 {
    st().live
}
/// something that costs as much as `n` accesses
pub fn work(n: u64) {
    with(|s, _| s.work += n)
}
/// what this run has cost so far, in accesses to memory
pub fn cost() -> u64 {
    st().work
}

//! Component and resource types owned by the harness. Every value has an identity, is
//! checked whenever it is looked at, and reports its destruction to a ledger.
use crate::run::{run, violate, Class};
use parking_lot::sim;
pub use parking_lot::sim::IN_LIB;
use std::cell::Cell;

pub const NT: usize = 6; // CA..CE and the zero-sized CZ
pub const NR: usize = 3;
pub const ZST: usize = 5;
/// the component type without a destructor
pub const PLAIN: usize = 3;
pub const KRES: u8 = 16;
const DEAD: u32 = 0xDEAD_0BAD;
const K: u32 = 0x5EED_C0DE;
/// identity of a value: uid in the upper half, last written version in the lower half
pub type Val = u64;
pub const ZVAL: Val = 1 << 32;
pub fn uid_of(v: Val) -> u32 {
    (v >> 32) as u32
}

#[derive(Clone, Copy, Default)]
pub struct Entry {
    pub kind: u8,
    pub drops: u8,
}

#[derive(Default)]
pub struct Ledger {
    /// by uid; the first two are unused
    e: Vec<Entry>,
    /// the values of different worlds have different uids
    base: u32,
    pub z_made: u32,
    pub z_dropped: u32,
    pub next_ver: u32,
}
impl Ledger {
    pub fn new(side: usize) -> Ledger {
        Ledger { e: vec![Entry::default(); 2], base: (side as u32) << 28, z_made: 0, z_dropped: 0, next_ver: 0 }
    }
    pub fn at(&mut self, uid: u32) -> Option<&mut Entry> {
        self.e.get_mut(uid.wrapping_sub(self.base) as usize)
    }
    pub fn drops(&mut self, v: Val) -> u8 {
        self.at(uid_of(v)).map_or(0, |e| e.drops)
    }
    /// values that exist (plain ones are not known to be gone)
    pub fn live(&self) -> usize {
        self.e.iter().skip(2).filter(|e| e.drops == 0 && e.kind != PLAIN as u8).count()
    }
}

/// payload of a panic injected by the simulator
pub struct Injected;

thread_local! {
    /// countdown of destructor runs inside library calls until one panics
    pub static DROP_PANIC: Cell<i32> = const { Cell::new(0) };
    pub static DROP_POINTS: Cell<bool> = const { Cell::new(false) };
    /// what the next piece of user code that the library runs (a destructor, a conversion) does
    pub static INNER: Cell<Option<Box<dyn FnOnce()>>> = const { Cell::new(None) };
}

fn fresh(kind: u8) -> u32 {
    let l = &mut run().ledger;
    l.e.push(Entry { kind, drops: 0 });
    l.base + (l.e.len() - 1) as u32
}
pub fn next_ver() -> u32 {
    let l = &mut run().ledger;
    l.next_ver += 1;
    l.next_ver
}

fn saw<X>(x: &X) {
    parking_lot::race::read(x as *const X as usize, std::mem::size_of::<X>());
}
fn changed<X>(x: &mut X) {
    parking_lot::race::write(x as *mut X as usize, std::mem::size_of::<X>());
}
/// memory of a value belongs to the memory under observation
pub fn observed<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_LIB.with(|c| c.replace(true));
    let r = f();
    IN_LIB.with(|c| c.set(was));
    r
}

fn check(kind: u8, uid: u32, ver: u32, sound: bool, what: &str) -> Val {
    let l = &mut run().ledger;
    match l.at(uid) {
        Some(e) if e.kind == kind && e.drops == 0 && sound => ((uid as u64) << 32) | ver as u64,
        Some(e) if e.kind == kind && e.drops > 0 => {
            violate(Class::Drop, format!("{}: read of value #{} (kind {}) after it was destroyed", what, uid, kind));
            0
        }
        _ => {
            violate(
                Class::Comp,
                format!("{}: memory that is no value of kind {} (uid field {:#x}, canary sound: {})", what, kind, uid, sound),
            );
            0
        }
    }
}

fn on_drop(kind: u8, uid: u32, sound: bool) {
    let r = run();
    match r.ledger.at(uid) {
        Some(e) if e.kind == kind => {
            e.drops = e.drops.saturating_add(1);
            if e.drops > 1 {
                violate(Class::Drop, format!("value #{} (kind {}) destroyed {} times", uid, kind, e.drops));
            } else if !sound {
                violate(Class::Comp, format!("value #{} (kind {}) destroyed with a broken canary", uid, kind));
            }
        }
        _ => violate(Class::Drop, format!("destructor of kind {} run on memory that is no such value (uid field {:#x})", kind, uid)),
    }
    drop_hook();
}
/// code of the user's, run by the library
pub fn user_code() {
    if let Some(f) = INNER.with(|c| c.take()) {
        let was = IN_LIB.with(|c| c.replace(false));
        f();
        IN_LIB.with(|c| c.set(was));
    }
}
fn drop_hook() {
    if !IN_LIB.with(|c| c.get()) || std::thread::panicking() {
        return;
    }
    run().fired.lib_drops += 1;
    if DROP_POINTS.with(|c| c.get()) {
        let was = IN_LIB.with(|c| c.replace(false));
        sim::yield_now();
        IN_LIB.with(|c| c.set(was));
    }
    user_code();
    let n = DROP_PANIC.with(|c| c.get());
    if n > 0 {
        DROP_PANIC.with(|c| c.set(n - 1));
        if n == 1 {
            run().fired.drop_panics += 1;
            std::panic::panic_any(Injected);
        }
    }
}

/// an observable value, type-erased
pub trait Obj {
    fn val(&self) -> Val;
    /// write a fresh version, return the new value
    fn bump(&mut self) -> Val;
}

pub trait Comp: Obj + Send + Sync + 'static + Sized {
    const T: usize;
    fn make() -> Self;
}

pub struct CA {
    uid: u32,
    ver: u32,
    can: u32,
}
impl Obj for CA {
    fn val(&self) -> Val {
        saw(self);
        check(0, self.uid, self.ver, self.can == self.uid ^ K, "CA")
    }
    fn bump(&mut self) -> Val {
        self.val();
        changed(self);
        self.ver = next_ver();
        self.val()
    }
}
impl Comp for CA {
    const T: usize = 0;
    fn make() -> Self {
        let uid = fresh(0);
        CA { uid, ver: 0, can: uid ^ K }
    }
}
impl Drop for CA {
    fn drop(&mut self) {
        let ok = self.can == self.uid ^ K;
        unsafe { std::ptr::write_volatile(&mut self.can, DEAD) };
        on_drop(0, self.uid, ok);
    }
}

struct Inner {
    uid: u32,
    ver: u32,
    can: u32,
}
/// heap allocated, pointer sized
pub struct CB(Box<Inner>);
impl Obj for CB {
    fn val(&self) -> Val {
        saw(self);
        saw(&*self.0);
        check(1, self.0.uid, self.0.ver, self.0.can == self.0.uid ^ K, "CB")
    }
    fn bump(&mut self) -> Val {
        self.val();
        changed(&mut *self.0);
        self.0.ver = next_ver();
        self.val()
    }
}
impl Comp for CB {
    const T: usize = 1;
    fn make() -> Self {
        let uid = fresh(1);
        observed(|| CB(Box::new(Inner { uid, ver: 0, can: uid ^ K })))
    }
}
impl Drop for CB {
    fn drop(&mut self) {
        let ok = self.0.can == self.0.uid ^ K;
        unsafe { std::ptr::write_volatile(&mut self.0.can, DEAD) };
        on_drop(1, self.0.uid, ok);
    }
}

/// large and over-aligned
#[repr(align(32))]
pub struct CC {
    head: u32,
    ver: u32,
    uid: u32,
    body: [u32; 13],
    tail: u32,
}
impl CC {
    fn sound(&self) -> bool {
        (self as *const CC as usize) % 32 == 0
            && self.head == self.uid ^ K
            && self.tail == self.uid ^ !K
            && self.body.iter().all(|b| *b == self.uid)
    }
}
impl Obj for CC {
    fn val(&self) -> Val {
        saw(self);
        check(2, self.uid, self.ver, self.sound(), "CC")
    }
    fn bump(&mut self) -> Val {
        self.val();
        changed(self);
        self.ver = next_ver();
        self.val()
    }
}
impl Comp for CC {
    const T: usize = 2;
    fn make() -> Self {
        let uid = fresh(2);
        CC { head: uid ^ K, ver: 0, uid, body: [uid; 13], tail: uid ^ !K }
    }
}
impl Drop for CC {
    fn drop(&mut self) {
        let ok = self.sound();
        unsafe { std::ptr::write_volatile(&mut self.head, DEAD) };
        on_drop(2, self.uid, ok);
    }
}

/// plain data: small, copyable, no canary, no destructor
#[derive(Clone, Copy)]
pub struct CD {
    ver: u32,
    uid: u32,
}
impl Obj for CD {
    fn val(&self) -> Val {
        saw(self);
        check(3, self.uid, self.ver, true, "CD")
    }
    fn bump(&mut self) -> Val {
        self.val();
        changed(self);
        self.ver = next_ver();
        self.val()
    }
}
impl Comp for CD {
    const T: usize = 3;
    fn make() -> Self {
        CD { uid: fresh(3), ver: 0 }
    }
}
/// owns several allocations; also used as a resource type
pub struct CE {
    uid: u32,
    name: String,
    nums: Vec<u32>,
}
impl CE {
    fn sound(&self) -> bool {
        self.nums.len() == 2 && self.nums[0] == self.uid && self.name.len() == 3
    }
}
impl Obj for CE {
    fn val(&self) -> Val {
        saw(self);
        let s = self.sound();
        check(4, self.uid, if s { self.nums[1] } else { 0 }, s, "CE")
    }
    fn bump(&mut self) -> Val {
        self.val();
        changed(self);
        self.nums[1] = next_ver();
        self.val()
    }
}
impl Comp for CE {
    const T: usize = 4;
    fn make() -> Self {
        let uid = fresh(4);
        observed(|| CE { uid, name: "abc".to_string(), nums: vec![uid, 0] })
    }
}
impl Drop for CE {
    fn drop(&mut self) {
        let ok = self.sound();
        on_drop(4, self.uid, ok);
    }
}

/// zero sized
pub struct CZ;
impl Obj for CZ {
    fn val(&self) -> Val {
       saw(self);
        ZVAL
    }
    fn bump(&mut self) -> Val {
        ZVAL
    }
}
impl Comp for CZ {
    const T: usize = 5;
    fn make() -> Self {
        run().ledger.z_made += 1;
        CZ
    }
}
impl Drop for CZ {
    fn drop(&mut self) {
        let r = run();
        r.ledger.z_dropped += 1;
        if r.ledger.z_dropped > r.ledger.z_made {
            violate(Class::Drop, "more zero-sized values destroyed than made".into());
        }
        drop_hook();
    }
}

macro_rules! resource {
    ($n:ident, $i:expr, $pad:ty) => {
        pub struct $n {
            pub pad: $pad,
            uid: u32,
            ver: u32,
            can: u32,
        }
        impl Obj for $n {
            fn val(&self) -> Val {
                saw(self);
                check(KRES + $i, self.uid, self.ver, self.can == self.uid ^ K, stringify!($n))
            }
            fn bump(&mut self) -> Val {
                self.val();
                changed(self);
                self.ver = next_ver();
                self.val()
            }
        }
        impl Res for $n {
            const R: usize = $i;
            fn new_res() -> Self {
                let uid = fresh(KRES + $i);
                $n { pad: Default::default(), uid, ver: 0, can: uid ^ K }
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                let ok = self.can == self.uid ^ K;
                unsafe { std::ptr::write_volatile(&mut self.can, DEAD) };
                on_drop(KRES + $i, self.uid, ok);
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "D{}:{}", $i, self.val())
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "S{}:{}", $i, self.val())
            }
        }
    };
}
pub trait Res: Obj + std::fmt::Debug + std::fmt::Display + Send + Sync + 'static + Sized {
    const R: usize;
    fn new_res() -> Self;
}
resource!(RA, 0, ());
impl Res for CE {
    const R: usize = 1;
    fn new_res() -> Self {
        CE::make()
    }
}
impl std::fmt::Debug for CE {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "D1:{}", self.val())
    }
}
impl std::fmt::Display for CE {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "S1:{}", self.val())
    }
}
pub type RB = CE;
resource!(RC, 2, String);

pub const NAMES: [&str; NT] = ["CA", "CB", "CC", "CD", "CE", "CZ"];

/// run `$body` with `$T` bound to component type number `$t`
#[macro_export]
macro_rules! with_t {
    ($t:expr, $T:ident, $body:expr) => {
        match $t as usize {
            0 => { type $T = $crate::comps::CA; $body }
            1 => { type $T = $crate::comps::CB; $body }
            2 => { type $T = $crate::comps::CC; $body }
            3 => { type $T = $crate::comps::CD; $body }
            4 => { type $T = $crate::comps::CE; $body }
            _ => { type $T = $crate::comps::CZ; $body }
        }
    };
}
#[macro_export]
macro_rules! with_r {
    ($t:expr, $T:ident, $body:expr) => {
        match $t as usize {
            0 => { type $T = $crate::comps::RA; $body }
            1 => { type $T = $crate::comps::RB; $body }
            _ => { type $T = $crate::comps::RC; $body }
        }
    };
}

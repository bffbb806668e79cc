//! One thread, one history, repeated: in another world (C22: it has to go the same way) or over
//! and over in the same one (C23: it must not grow).
use crate::case::{Drill, DrillKind};
use crate::comps::*;
use crate::run::*;
use parking_lot::{race, sim};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, Group, NonOwning, PartialOwning};
use xecs::query::{WithId, Without};
use xecs::{Component, EntityId, World};

trait Num: Component + Sized {
    fn new(x: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&mut self, x: u64);
}
struct P0(u64);
struct P1(u32);
struct P2;
struct P3(Box<u64>);
impl Num for P0 {
    fn new(x: u64) -> Self {
        P0(x)
    }
    fn get(&self) -> u64 {
        self.0
    }
    fn set(&mut self, x: u64) {
        self.0 = x
    }
}
impl Num for P1 {
    fn new(x: u64) -> Self {
        P1(x as u32)
    }
    fn get(&self) -> u64 {
        self.0 as u64
    }
    fn set(&mut self, x: u64) {
        self.0 = x as u32
    }
}
impl Num for P2 {
    fn new(_: u64) -> Self {
        P2
    }
    fn get(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl Num for P3 {
    fn new(x: u64) -> Self {
        P3(Box::new(x))
    }
    fn get(&self) -> u64 {
        *self.0
    }
    fn set(&mut self, x: u64) {
        *self.0 = x
    }
}

macro_rules! one {
    ($i:expr, $s:ident.$f:ident($($a:expr),*)) => {
        match $i % 4 { 0 => $s.$f::<P0>($($a),*), 1 => $s.$f::<P1>($($a),*), 2 => $s.$f::<P2>($($a),*), _ => $s.$f::<P3>($($a),*) }
    };
}
macro_rules! two {
    ($i:expr, $s:ident.$f:ident($($a:expr),*)) => {
        match $i % 12 {
            0 => $s.$f::<P0, P1>($($a),*), 1 => $s.$f::<P1, P0>($($a),*), 2 => $s.$f::<P0, P2>($($a),*), 3 => $s.$f::<P2, P0>($($a),*),
            4 => $s.$f::<P0, P3>($($a),*), 5 => $s.$f::<P3, P0>($($a),*), 6 => $s.$f::<P1, P2>($($a),*), 7 => $s.$f::<P2, P1>($($a),*),
            8 => $s.$f::<P1, P3>($($a),*), 9 => $s.$f::<P3, P1>($($a),*), 10 => $s.$f::<P2, P3>($($a),*), _ => $s.$f::<P3, P2>($($a),*),
        }
    };
}

#[derive(Clone, Copy)]
struct Mk(fn() -> Group);
impl From<Mk> for Group {
    fn from(m: Mk) -> Group {
        (m.0)()
    }
}
const REFUSED: u64 = u64::MAX;

struct Sub {
    w: World,
    live: Vec<EntityId>,
    /// the next new value
    n: u64,
    /// what the present step has shown
    saw: Vec<u64>,
}
impl Sub {
    fn new() -> Sub {
        Sub { w: observed(World::new), live: Vec::with_capacity(1024), n: 0, saw: Vec::with_capacity(4096) }
    }
    fn lib<R>(&mut self, f: impl FnOnce(&mut World) -> R) -> Option<R> {
        let w = &mut self.w;
        match catch_unwind(AssertUnwindSafe(|| observed(|| f(w)))) {
            Ok(r) => Some(r),
            Err(p) => {
                IN_LIB.with(|c| c.set(false));
                drop(p);
                run().fired.refusals += 1;
                self.saw.push(REFUSED);
                None
            }
        }
    }
    fn val(&mut self) -> u64 {
        self.n += 1;
        self.n
    }
    fn attach<T: Num>(&mut self, e: EntityId) {
        let v = self.val();
        self.lib(|w| w.attach_component(e, T::new(v)));
    }
    fn detach<T: Num>(&mut self, e: EntityId) {
        if let Some(r) = self.lib(|w| w.detach_component::<T>(e)) {
            self.saw.push(r.map_or(REFUSED - 1, |v| v.get()));
        }
    }
    fn register<T: Num>(&mut self) {
        self.lib(|w| {
            w.register::<T>();
        });
    }
    fn create_n<A: Num, B: Num>(&mut self, n: usize, both: bool) {
        let (a, b): (Vec<A>, Vec<B>) = ((0..n).map(|_| A::new(self.val())).collect(), (0..n).map(|_| B::new(self.val())).collect());
        let r = self.lib(|w| {
            let es = w.create_entities(n).attach::<A, Vec<A>>(a);
            if both { es.attach::<B, Vec<B>>(b) } else { es }.into_ids()
        });
        if let Some(r) = r {
            self.saw.extend([r.start.get() as u64, r.end.get() as u64]);
            self.live.extend((r.start.get()..r.end.get()).map(|i| EntityId::new(i).unwrap()));
        }
    }
    fn make<A: Num, B: Num>(&mut self, kind: u64) {
        self.lib(|w| match kind {
            0 => w.make_group(Mk(|| full_owning::<A, B>().into())),
            1 => w.make_group(Mk(|| partial_owning::<A, B>().into())),
            _ => w.make_group(Mk(|| non_owning::<A, B>().into())),
        });
    }
    fn see(&mut self, r: Option<Vec<u64>>) {
        self.saw.extend(r.unwrap_or_default());
    }
    fn query1<T: Num>(&mut self) {
        let r = self.lib(|w| w.query::<&T>().with_id().flat_map(|(e, a)| [e.get() as u64, a.get()]).collect());
        self.see(r);
    }
    fn query2<A: Num, B: Num>(&mut self, how: u64) {
        let mut n = self.n;
        let r = self.lib(|w| match how % 4 {
            0 => w.query::<(&A, &B)>().with_id().flat_map(|(e, (a, b))| [e.get() as u64, a.get(), b.get()]).collect(),
            1 => w
                .query::<(&A, &mut B)>()
                .with_id()
                .flat_map(|(e, (a, b))| {
                    n += 1;
                    b.set(n);
                    [e.get() as u64, a.get()]
                })
                .collect(),
            2 => w.query::<(&A, Without<&B>)>().with_id().flat_map(|(e, a)| [e.get() as u64, a.get()]).collect(),
            _ => w
                .query::<(Without<&B>, &mut A)>()
                .flat_map(|a| {
                    n += 1;
                    let v = a.get();
                    a.set(n);
                    [v]
                })
                .collect(),
        });
        self.n = n;
        self.see(r);
    }
    fn grouped<A: Num, B: Num>(&mut self, how: u64) {
        let mut n = self.n;
        macro_rules! q {
            ($g:ident) => {
                self.lib(|w| match how / 3 % 2 {
                    0 => w.query::<$g<&A, &B>>().with_id().flat_map(|(e, (a, b))| [e.get() as u64, a.get(), b.get()]).collect(),
                    _ => w
                        .query::<$g<&mut A, &B>>()
                        .flat_map(|(a, b)| {
                            n += 1;
                            a.set(n);
                            [b.get()]
                        })
                        .collect::<Vec<u64>>(),
                })
            };
        }
        let r = match how % 3 {
            0 => q!(FullOwning),
            1 => q!(PartialOwning),
            _ => q!(NonOwning),
        };
        self.n = n;
        self.see(r);
    }
    fn storage<T: Num>(&mut self, write: bool) {
        let mut n = self.n;
        let r = self.lib(|w| {
            if write {
                let mut s = w.components_write::<T>()?;
                for a in s.data_mut() {
                    n += 1;
                    a.set(n);
                }
            }
            let s = w.components_read::<T>()?;
            Some(std::iter::once(s.count() as u64).chain(s.data().iter().map(|a| a.get())).collect::<Vec<u64>>())
        });
        self.n = n;
        self.see(r.flatten());
    }
    fn one_of<T: Num>(&mut self, e: EntityId) {
        let r = self.lib(|w| w.entity_component_read::<T>(e).map_or(REFUSED - 1, |a| a.get()));
        self.saw.extend(r);
    }
    fn step(&mut self, act: u32, batches: bool) {
        let (what, x) = (act % 32, (act / 32) as u64);
        let k = (x >> 4) as usize % self.live.len().max(1);
        let any = EntityId::new(1 + (x as usize >> 3) % (self.live.len() + 4)).unwrap();
        let e = self.live.get(k).copied().unwrap_or(any);
        run().ops += 1;
        sim::note(act as u64);
        sim::stamp();
        match what {
            0..=6 => {
                if let Some(e) = self.lib(|w| w.create_entity().into_id()) {
                    self.saw.push(e.get() as u64);
                    self.live.push(e);
                    for t in 0..4 {
                        if x >> t & 1 == 1 {
                            one!(t, self.attach(e));
                        }
                    }
                }
            }
            7 | 8 if batches => two!(x, self.create_n(1 + (x >> 8) as usize % 6, x & 16 != 0)),
            9..=11 => one!(x, self.attach(e)),
            12 | 13 => one!(x, self.detach(e)),
            14..=17 => {
                if k < self.live.len() {
                    self.live.swap_remove(k);
                }
                self.lib(|w| w.remove_entity(e));
            }
            18 => {
                // whoever it is
                self.lib(|w| w.remove_entity(any));
                self.live.retain(|e| *e != any);
            }
            19 => two!(x >> 2, self.make(x % 3)),
            20 => one!(x, self.register()),
            21 => one!(x, self.query1()),
            22 | 23 => two!(x >> 2, self.query2(x)),
            24 | 25 => two!(x >> 3, self.grouped(x)),
            26 => one!(x, self.storage(x & 4 != 0)),
            27 => {
                let r = self.lib(|w| [w.exist(any) as u64, w.entity(any).is_some() as u64]);
                self.saw.extend(r.into_iter().flatten());
            }
            28 => one!(x, self.one_of(any)),
            29 => {
                let v = self.val();
                self.lib(|w| w.register_resource(v));
            }
            30 => {
                let r = self.lib(|w| {
                    *w.resource_write::<u64>()? += 1;
                    w.resource_read::<u64>().map(|r| *r)
                });
                self.saw.extend(r.flatten());
            }
            _ => one!(x >> 9, self.attach(any)),
        }
    }
    fn setup(&mut self, d: &Drill) {
        for t in 0..4u32 {
            if d.types >> t & 1 == 1 {
                one!(t, self.register());
            }
        }
        for g in &d.groups {
            two!(*g / 3, self.make(*g as u64 % 3));
        }
    }
    fn all(&mut self) {
        for t in 0..4u32 {
            one!(t, self.storage(false));
            one!(t, self.query1());
        }
        for g in 0..12u64 {
            for how in 0..3 {
                two!(g, self.grouped(how));
            }
        }
    }
}

pub fn drill(d: &Drill) {
    match d.kind {
        DrillKind::Twice => twice(d),
        DrillKind::Rounds => rounds(d),
    }
}

fn twice(d: &Drill) {
    let mut subs = [Sub::new(), Sub::new()];
    for s in &mut subs {
        s.setup(d);
    }
    for (i, a) in d.acts.iter().map(Some).chain([None]).enumerate() {
        // sometimes the one, sometimes the other goes first
        let first = i.count_ones() as usize % 2;
        for s in [first, 1 - first] {
            subs[s].saw.clear();
            match a {
                Some(a) => subs[s].step(*a, true),
                None => subs[s].all(),
            }
        }
        sim::note(subs[0].saw.iter().fold(0, |h, x| sim::mix(h ^ x)));
        if subs[0].saw != subs[1].saw {
            let [a, b] = &subs;
            violate(Class::Differs, format!("two worlds go different ways after the same calls: step {} ({:?}) shows {:?} in one, {:?} in the other", i, a_name(a_what(d.acts.get(i))), a.saw, b.saw));
            break;
        }
        if bad() {
            break;
        }
    }
    probe("a history played in two worlds");
    for s in subs {
        observed(move || drop(s.w));
    }
}
fn a_what(a: Option<&u32>) -> u32 {
    a.map_or(99, |a| a % 32)
}
fn a_name(w: u32) -> &'static str {
    match w {
        0..=6 => "create",
        7 | 8 => "create a batch",
        9..=11 | 31 => "attach",
        12 | 13 => "detach",
        14..=18 => "remove",
        19 => "make group",
        20 => "register",
        21..=23 => "query",
        24 | 25 => "query group",
        26 => "storage",
        27 | 28 => "look up",
        29 | 30 => "resource",
        _ => "look at everything",
    }
}

const ROUNDS: usize = 24;
fn rounds(d: &Drill) {
    let mut after = [0; 2];
    for after in after.iter_mut() {
        let mut s = Sub::new();
        s.setup(d);
        // everything as big as it can get
        let peak = d.acts.len() + 8;
        for _ in 0..peak {
            s.step(15 * 32, false);
        }
        let clear = |s: &mut Sub| {
            // also those of whom nothing is known any more
            for i in 0..s.live.len() {
                let e = s.live[i];
                s.lib(|w| w.remove_entity(e));
            }
            s.live.clear();
        };
        clear(&mut s);
        let mut most = [0; ROUNDS];
        for m in most.iter_mut() {
            for a in &d.acts {
                s.saw.clear();
                s.step(*a, false);
                if bad() {
                    return;
                }
            }
            clear(&mut s);
            s.saw.clear();
            *m = race::live();
        }
        sim::note(most[ROUNDS - 1]);
        let (early, late) = (most[..ROUNDS / 3].iter().max().unwrap(), most[2 * ROUNDS / 3..].iter().max().unwrap());
        if late > early {
            violate(Class::Growth, format!("an empty world holds {} bytes more each time the same entities came and went (up to {} in the first {} rounds, {} in the last)", late - early, early, ROUNDS / 3, late));
            return;
        }
        let w = s.w;
        observed(move || drop(w));
        drop((s.live, s.saw));
        *after = race::live();
    }
    probe("the same entities came and went many times");
    if after[1] > after[0] {
        violate(Class::Growth, format!("{} bytes are left behind by a world that was dropped", after[1] - after[0]));
    }
}

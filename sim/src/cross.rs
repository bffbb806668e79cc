//! Worlds between threads (C18): every run tries to carry the world, and then each kind of guard
//! and running query, to another simulated thread. What the type system admits happens, under the
//! seeded scheduler; what it refuses counts as a refused hand-over.
use crate::comps::*;
use crate::run::*;
use crate::shapes::eid;
use parking_lot::sim;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, NonOwning, PartialOwning};
use xecs::query::{QueryIterator, WithId, Without};
use xecs::World;

// what the type system admits, as a value: an inherent method wins over the trait's when its bounds hold
struct P<T: ?Sized>(PhantomData<T>);
fn of<T>(_: &T) -> P<T> {
    P(PhantomData)
}
trait Refused {
    fn sent(&self) -> bool {
        false
    }
    fn shared(&self) -> bool {
        false
    }
    fn put(&self, _: &mut World) -> bool {
        false
    }
    fn put_res(&self, _: &mut World) -> bool {
        false
    }
    fn touch(&self, _: &World) {}
    fn touch_res(&self, _: &World) {}
}
impl<T: ?Sized> Refused for P<T> {}
impl<T: Send> P<T> {
    fn sent(&self) -> bool {
        true
    }
}
struct S<T>(PhantomData<T>);
impl<T> Refused for S<T> {}
impl<T: Sync> S<T> {
    fn shared(&self) -> bool {
        true
    }
}

/// a value that minds the threads it meets
trait Minds {
    fn new() -> Self;
    fn meet(&self);
}
macro_rules! minding {
    ($n:ident, $send:expr, $sync:expr) => {
        struct $n {
            home: usize,
            inside: Cell<usize>,
            _p: PhantomData<*const ()>,
        }
        impl Minds for $n {
            fn new() -> Self {
                $n { home: me(), inside: Cell::new(usize::MAX), _p: PhantomData }
            }
            fn meet(&self) {
                if !$sync && self.inside.get() != usize::MAX && self.inside.get() != me() && !bad() {
                    violate(Class::Cross, format!("threads {} and {} are inside the same value of a type that is not Sync, stored in a world that can be shared", self.inside.get(), me()));
                }
                self.inside.set(me());
                sim::yield_now();
                self.inside.set(usize::MAX);
                if !$send && !$sync && self.home != me() && !bad() {
                    violate(Class::Cross, format!("thread {} reached a value of a type that is neither Send nor Sync and belongs to thread {}", me(), self.home));
                }
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                if !$send && self.home != me() && !bad() && !std::thread::panicking() {
                    violate(Class::Cross, format!("a value of a type that is not Send was made by thread {} and destroyed by thread {}", self.home, me()));
                }
            }
        }
    };
}
minding!(NoSync, true, false);
unsafe impl Send for NoSync {}
minding!(NoSend, false, true);
unsafe impl Sync for NoSend {}
minding!(Neither, false, false);
impl std::fmt::Debug for Neither {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Neither")
    }
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}
/// main 0, builder 1, clients from 2, undertaker 9
fn me() -> usize {
    ME.with(|m| m.get())
}
fn call_me(n: usize) {
    ME.with(|m| m.set(n))
}

struct C<T>(PhantomData<T>);
impl<T> Refused for C<T> {}
impl<T: Minds + xecs::Component> C<T> {
    fn put(&self, w: &mut World) -> bool {
        w.register::<T>();
        w.create_entity().attach(T::new());
        true
    }
    fn touch(&self, w: &World) {
        if let Some(s) = w.components_read::<T>() {
            s.data().iter().for_each(|v| v.meet());
        }
    }
}
struct R<T>(PhantomData<T>);
impl<T> Refused for R<T> {}
impl<T: Minds + xecs::Resource> R<T> {
    fn put_res(&self, w: &mut World) -> bool {
        w.register_resource(T::new());
        true
    }
    fn touch_res(&self, w: &World) {
        if let Some(v) = w.resource_read::<T>() {
            v.meet();
        }
    }
}

type Mail = Rc<RefCell<Vec<(usize, &'static str, Box<dyn Any>)>>>;
/// what a letter carries: released by whoever opens it
struct Parcel<T>(#[allow(dead_code)] T);




fn offer<T: 'static>(mail: &Mail, what: &'static str, admitted: bool, v: T) {
    if admitted {
        probe("hand-over of a guard admitted by the type system");
        trace(|| format!("{} goes into the mail", what));
        mail.borrow_mut().push((me(), what, Box::new(Parcel(v))));
    } else {
        run().fired.handovers_refused += 1;
        trace(|| format!("{} may not be sent", what));
        drop(v);
    }
}
/// somebody else's guard, if there is one
fn open(mail: &Mail) {
    let i = mail.borrow().iter().position(|m| m.0 != me());
    if let Some(i) = i {
        let (from, what, v) = mail.borrow_mut().remove(i);
        violate(Class::Cross, format!("{} taken by thread {} was sent to thread {}, which releases it", what, from, me()));
        std::mem::forget(v);
    }
}

fn act(w: &'static World, a: u8, mail: &Mail, mine: &mut Vec<xecs::EntityId>) {
    macro_rules! hand {
        ($what:expr, $v:expr) => {{
            let v = $v;
            let ok = of(&v).sent();
            sim::yield_now();
            offer(mail, $what, ok, v)
        }};
    }
    let e = mine[a as usize % mine.len()];
    run().ops += 1;
    sim::note(a as u64);
    sim::set_label(format!("action {}", a));
    trace(|| format!("action {}", a));
    match a {
        0 => hand!("an entity handle", w.entity(e).unwrap()),
        1 => hand!("a handle to a batch of new entities", w.create_entities(2)),
        2 => hand!("a storage read guard", w.components_read::<CA>().unwrap()),
        3 => hand!("a storage write guard", w.components_write::<CA>().unwrap()),
        4 => hand!("a component read guard", w.entity_component_read::<CA>(e).unwrap()),
        5 => hand!("a component write guard", w.entity_component_write::<CA>(e).unwrap()),
        6 => hand!("a resource read guard", w.resource_read::<RA>().unwrap()),
        7 => hand!("a resource write guard", w.resource_write::<RA>().unwrap()),
        8 => hand!("a running shared query", w.query::<&CA>()),
        9 => hand!("a running exclusive query", w.query::<&mut CA>()),
        10 => hand!("a running query of a tuple", w.query::<(&CA, &mut CB)>()),
        11 => hand!("a running query with an exclusion", w.query::<(&CA, Without<&CB>)>()),
        12 => hand!("a running query through a full-owning group", w.query::<FullOwning<&CA, &mut CB>>()),
        13 => hand!("a running query through a partial-owning group", w.query::<PartialOwning<&CC, &CD>>()),
        14 => hand!("a running query through a non-owning group", w.query::<NonOwning<&CA, &CC>>()),
        15 => {
            let mut q = w.query::<&CB>();
            let _ = q.next_with_id();
            hand!("a running query with ids", q.with_id())
        }
        16 | 17 => mine.push(w.create_entity().attach(CA::make()).attach(CB::make()).into_id()),
        18 | 19 => mine.push(w.create_entity().attach(CC::make()).attach(CA::make()).attach(CD::make()).into_id()),
        20 => {
            if let Some(mut g) = w.entity_component_write::<CA>(e) {
                g.bump();
            }
        }
        21 => {
            let h = w.entity(e).unwrap();
            drop(h.detach::<CB>());
        }
        22 if mine.len() > 1 => {
            let e = mine.pop().unwrap();
            w.remove_entity(e)
        }
        23 => {
            for v in w.query::<(&CA, &CB)>() {
                v.0.val();
                v.1.val();
            }
        }
        24 => {
            w.resource_write::<RA>().unwrap().bump();
        }
        25 => {
            let _ = w.exist(eid(3));
        }
        26 => C::<NoSync>(PhantomData).touch(w),
        27 => C::<NoSend>(PhantomData).touch(w),
        28 => C::<Neither>(PhantomData).touch(w),
        29 => R::<NoSync>(PhantomData).touch_res(w),
        30 => R::<NoSend>(PhantomData).touch_res(w),
        31 => R::<Neither>(PhantomData).touch_res(w),
        _ => {
            w.entity_component_read::<CA>(e).map(|g| g.val());
        }
    }
}

fn must(ok: bool, what: &str) {
    if !ok && !bad() {
        violate(Class::Cross, format!("a world cannot be {} between threads", what));
    }
}

pub fn cross(plan: &[Vec<u8>], seed: u64) {
    call_me(0);
    let mut world = World::new();
    let admitted = (of(&world).sent(), S::<World>(PhantomData).shared());
    sim::note(admitted.0 as u64 * 2 + admitted.1 as u64);
    must(admitted.0, "sent");
    must(admitted.1, "shared");
    if bad() {
        return;
    }
    // the world is filled by another thread than the one that made it
    let foreign = seed % 7;
    let admit = move |w: &mut World| match foreign {
        0 => C::<NoSync>(PhantomData).put(w),
        1 => C::<NoSend>(PhantomData).put(w),
        2 => C::<Neither>(PhantomData).put(w),
        3 => R::<NoSync>(PhantomData).put_res(w),
        4 => R::<NoSend>(PhantomData).put_res(w),
        5 => R::<Neither>(PhantomData).put_res(w),
        _ => false,
    };
    let back: Rc<Cell<Option<World>>> = Rc::new(Cell::new(None));
    let job = (world, back.clone(), admit);
    sim::spawn_any("builder", move || {
        call_me(1);
        let (mut w, back, admit) = job;
        w.register::<CA>().register::<CB>().register::<CC>().register::<CD>();
        w.register_resource(RA::new_res());
        if seed & 8 == 0 {
            w.create_entity().attach(CA::make()).attach(CB::make());
        }
        w.make_group(Both(|| full_owning::<CA, CB>().into()));
        w.make_group(Both(|| partial_owning::<CC, CD>().into()));
        w.make_group(Both(|| non_owning::<CA, CC>().into()));
        if admit(&mut w) {
            probe("a type that must stay on its thread was registrable");
        } else if foreign < 6 {
            run().fired.handovers_refused += 1;
        }
        back.set(Some(w));
    });
    for (t, m) in sim::join_all() {
        violate(Class::Panic, format!("thread {} died: {}", t, m));
    }
    if bad() {
        return;
    }
    world = back.take().unwrap();
    probe("world sent to another thread and back");
    let mail: Mail = Default::default();
    let w: &'static World = unsafe { &*(&world as *const World) };
    run().conc = true;
    for (i, acts) in plan.iter().enumerate() {
        let job = (acts.clone(), w, mail.clone());
        sim::spawn_any(&format!("client {}", i), move || {
            call_me(2 + i);
            let (acts, w, mail) = job;
            let mut mine = vec![w.create_entity().attach(CA::make()).into_id()];
            for a in acts {
                if bad() {
                    return;
                }
                open(&mail);
                if bad() {
                    return;
                }
                act(w, if (26..32).contains(&a) { 26 + foreign as u8 } else { a }, &mail, &mut mine);
                sim::yield_now();
            }
            // letters nobody took stay where they are until the others had their chance
            for _ in 0..3 {
                sim::yield_now();
                if !bad() {
                    open(&mail);
                }
            }
        });
    }
    let dead = sim::join_all();
    run().conc = false;
    if bad() {
        std::mem::forget(world);
        std::mem::forget(mail);
        return;
    }
    for (t, m) in dead {
        violate(Class::Panic, format!("thread {} died: {}", t, m));
    }
    // what was sent and not yet opened
    open(&mail);
    if bad() {
        std::mem::forget(world);
        std::mem::forget(mail);
        return;
    }
    let job = world;
    sim::spawn_any("undertaker", move || {
        call_me(9);
        drop(job)
    });
    for (t, m) in sim::join_all() {
        violate(Class::Panic, format!("thread {} died: {}", t, m));
    }
    let left = run().ledger.live();
    if !bad() && left > 0 {
        violate(Class::Drop, format!("{} values were never destroyed", left));
    }
}

#[derive(Clone, Copy)]
struct Both(fn() -> xecs::group::Group);
impl From<Both> for xecs::group::Group {
    fn from(m: Both) -> xecs::group::Group {
        (m.0)()
    }
}

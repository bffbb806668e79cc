//! Executes a case against the real crate under the simulator and records what happened.
use crate::case::*;
use crate::comps::*;
use crate::model::*;
use crate::run::*;
use crate::shapes::{eid, RefV, Running, Shape};
use xcore::{with_r, with_t};
use parking_lot::{sim, RwLock};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use xecs::{System, World};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

thread_local! {
    /// inside user code that the library runs
    /// the second world, while the calling thread may use it
    static IN_USER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PEER: std::cell::Cell<*const World> = const { std::cell::Cell::new(std::ptr::null()) };
}

pub enum LibErr {
    Injected,
    Panic(String),
}
pub struct Lib<R> {
    inv: u64,
    resp: u64,
    r: Result<R, LibErr>,
}
pub enum W<'a> {
    S(&'a World),
    X(&'a mut World),
}

/// an access as the client sees it
struct Win {
    who: usize,
    /// what was held before, and the length of the list of windows
    before: ((u8, u8), (u8, u8)),
    seq: u64,
    types: Vec<(u8, bool)>,
    res: Option<(u8, bool)>,
}
impl Win {
    fn open(who: usize, types: Vec<(u8, bool)>, res: Option<(u8, bool)>) -> Win {
        let r = run();
        let before = (r.held[who], r.held_x[who]);
        for (t, x) in &types {
            let w = &mut r.win[*t as usize];
            if w.excl > 0 || (*x && w.shared > 0) {
                violate(
                    Class::Excl,
                    format!("{} access to {} granted while {} shared and {} exclusive accesses are held", if *x { "exclusive" } else { "shared" }, NAMES[*t as usize], w.shared, w.excl),
                );
            }
            if *x {
                w.excl += 1
            } else {
                w.shared += 1
            }
            r.held[who].0 |= 1 << t;
            if *x {
                r.held_x[who].0 |= 1 << t;
            }
        }
        if let Some((q, x)) = res {
            let w = &mut r.rwin[q as usize];
            if w.excl > 0 || (x && w.shared > 0) {
                violate(Class::Excl, format!("access to resource {} granted while it is held ({} shared, {} exclusive)", q, w.shared, w.excl));
            }
            if x {
                w.excl += 1
            } else {
                w.shared += 1
            }
            r.held[who].1 |= 1 << q;
            if x {
                r.held_x[who].1 |= 1 << q;
            }
        }
        r.seq += 1;
        r.open.push((who, r.seq, types.iter().fold(0, |m, t| m | 1 << t.0), sim::now()));
        Win { who, before, seq: r.seq, types, res }
    }
}
impl Drop for Win {
    fn drop(&mut self) {
        let r = run();
        for (t, x) in &self.types {
            let w = &mut r.win[*t as usize];
            if *x {
                w.excl -= 1
            } else {
                w.shared -= 1
            }
        }
        if let Some((q, x)) = self.res {
            let w = &mut r.rwin[q as usize];
            if x {
                w.excl -= 1
            } else {
                w.shared -= 1
            }
        }
        (r.held[self.who], r.held_x[self.who]) = self.before;
        r.open.retain(|o| o.0 != self.who || o.1 != self.seq);
    }
}

pub struct Cl<'s> {
    pub shapes: &'s [Shape],
    pub who: usize,
    pub own: Vec<u64>,
    fault: Option<Fault>,
    k: u8,
    pub seq: bool,
    pinned: Option<(u64, u64)>,
    last: u64,
    pub refused: bool,
    pub lost: bool,
    before: Vec<u64>,
    /// an unknown-id creation that also attached something: the run cannot be judged further
    label: String,
    query: Option<(usize, Vec<QEv>)>,
    /// index of the first node of the creation in progress
    fresh: Option<usize>,
    nest: Option<Box<Nest>>,
    world: *const World,
}

impl<'s> Cl<'s> {
    pub fn new(shapes: &'s [Shape], who: usize, seq: bool) -> Cl<'s> {
        Cl {
            shapes,
            who,
            own: vec![],
            fault: None,
            k: 0,
            seq,
            pinned: None,
            last: 0,
            refused: false,
            lost: false,
            before: vec![],
            label: String::new(),
            query: None,
            fresh: None,
            nest: None,
            world: std::ptr::null(),
        }
    }
    fn ent(&self, e: Ent) -> u64 {
        match e {
            Ent::L(n) => n.max(1) as u64,
            Ent::Own(k) => {
                if self.own.is_empty() {
                    1
                } else {
                    self.own[k as usize % self.own.len()]
                }
            }
            Ent::Big(0) => u64::MAX,
            Ent::Big(1) => 1 << 40,
            Ent::Big(_) => run().max_id + 1000,
        }
    }
    fn node(&mut self, inv: u64, resp: u64, alts: Vec<Atom>) -> usize {
        let r = run();
        r.nodes.push(Node { inv, resp, after: vec![], soft: None, alts, label: self.label.clone(), who: self.who });
        r.nodes.len() - 1
    }
    fn one(&mut self, inv: u64, resp: u64, a: Atom) -> usize {
        trace(|| format!("{} => {:?}", self.label, a));
        self.node(inv, resp, vec![a])
    }
    /// a point of the client's own code inside an operation
    fn up(&mut self) {
        if std::thread::panicking() {
            return;
        }
        self.k += 1;
        self.last = sim::stamp();
        if self.nest.as_ref().map_or(false, |n| n.at == self.k) {
            let n = self.nest.take().unwrap();
            self.nested(*n);
            self.last = sim::stamp();
        }
        match self.fault {
            Some(Fault::Panic(k)) if k == self.k => {
                run().fired.client_panics += 1;
                trace(|| format!("{}: client panics here", self.label));
                panic_any(Injected)
            }
            Some(Fault::Stall(k)) if k == self.k => {
                run().fired.stalls += 1;
                trace(|| format!("{}: client stalls here", self.label));
                sim::stall()
            }
            _ => sim::yield_now(),
        }
    }
    /// an operation in the middle of another one
    fn nested(&mut self, n: Nest) {
        if bad() {
            return;
        }
        let o = OpX { op: n.op, f: None, n: None };
        let mut cl = Cl::new(self.shapes, self.who, self.seq);
        if n.other {
            // the second world neither knows nor minds what is held in the first
            let w = PEER.with(|p| p.get());
            if w.is_null() || side() != 0 {
                return;
            }
            let dp = DROP_PANIC.with(|c| c.replace(0));
            enter(1);
            if !run().stop {
                probe(if IN_USER.with(|c| c.get()) { "operation on the second world from user code run by the first one" } else { "operation on the second world while the first one is in use" });
                let _ = cl.exec(W::S(unsafe { &*w }), &o);
                if self.seq && !bad() {
                    let nodes = std::mem::take(&mut run().nodes);
                    settle(nodes);
                }
            }
            enter(0);
            DROP_PANIC.with(|c| c.set(dp));
            sim::set_label(self.label.clone());
            return;
        }
        let r = run();
        if !self.seq || self.world.is_null() {
            return;
        }
        // only what is promised not to be delayed by what this thread holds
        let d = doing(&o.op, self.shapes, "");
        let (held, held_x) = (r.held[self.who], r.held_x[self.who]);
        let fits = match &o.op {
            Op::Debug => true,
            _ if d.shared => group_close(r, held_x.0) & d.types == 0 && held_x.1 & d.res == 0 && (d.plain || group_close(r, held.0) & d.types == 0),
            _ => group_close(r, held.0) & d.types == 0 && held.1 & d.res == 0,
        };
        if !fits || !(d.plain || d.debug || matches!(o.op, Op::Query { .. })) {
            return;
        }
        probe("operation inside another one of the same thread");
        if held.0 & d.types != 0 || held.1 & d.res != 0 {
            probe("shared access inside a shared access of the same thread");
        }
        let out = std::mem::take(&mut r.doing[self.who]);
        r.nested = true;
        let dp = DROP_PANIC.with(|c| c.replace(0));
        let _ = cl.exec(W::S(unsafe { &*self.world }), &o);
        DROP_PANIC.with(|c| c.set(dp));
        let r = run();
        r.nested = false;
        r.doing[self.who] = out;
        sim::set_label(self.label.clone());
    }
    fn lib<R>(&mut self, f: impl FnOnce() -> R) -> Lib<R> {
        let inv = sim::stamp();
        self.last = inv;
        IN_LIB.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_LIB.with(|c| c.set(false));
        let resp = sim::stamp();
        let r = match r {
            Ok(v) => Ok(v),
            Err(p) if p.is::<Injected>() => Err(LibErr::Injected),
            Err(p) => {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                drop(p);
                Err(LibErr::Panic(m))
            }
        };
        Lib { inv, resp, r }
    }
    /// the library said no
    fn refuse(&mut self, inv: u64, resp: u64, msg: &str, why: Vec<Why>) {
        if why.is_empty() {
            violate(Class::Panic, format!("{}: library panicked: {}", self.label, msg));
            return;
        }
        trace(|| format!("{} => refused: {}", self.label, msg));
        run().fired.refusals += 1;
        self.refused = true;
        self.node(inv, resp, vec![Atom::Refused(why)]);
    }
    fn crash(&mut self) -> ! {
        trace(|| format!("{}: destructor or conversion panicked inside the library", self.label));
        resume_unwind(Box::new(Injected))
    }
    /// an effective change to component t between inv and now: nobody else may have been
    /// looking at it all along
    fn modified(&mut self, t: u8, inv: u64) {
        for (who, _, m, since) in &run().open {
            if *who != self.who && m >> t & 1 == 1 && *since < inv {
                violate(
                    Class::Excl,
                    format!("{}: {} was modified while thread {} holds access to it", self.label, NAMES[t as usize], who),
                );
                return;
            }
        }
    }

    // -------------------------------------------------------------- one operation
    /// Err: the client crashed
    pub fn exec(&mut self, w: W<'_>, o: &OpX) -> Result<(), ()> {
        if bad() {
            return Ok(());
        }
        self.fault = o.f;
        self.k = 0;
        self.refused = false;
        self.lost = false;
        self.pinned = None;
        self.fresh = None;
        self.query = None;
        self.nest = o.n.clone();
        self.label = describe(&o.op, self.shapes);
        let n0 = run().nodes.len();
        run().ops += 1;
        trace(|| format!("{} {}", self.label, o.f.map(|f| format!("with fault {:?}", f)).unwrap_or_default()));
        sim::note(self.label.bytes().fold(o.f.is_some() as u64, |h, b| sim::mix(h ^ b as u64)));
        sim::set_label(self.label.clone());
        run().doing[self.who] = doing(&o.op, self.shapes, &self.label);
        if let Some(Fault::DropPanic(k)) = o.f {
            DROP_PANIC.with(|c| c.set(k as i32));
        }
        let base = sim::held_count();
        let wp: *const World = match &w {
            W::S(w) => *w,
            W::X(w) => *w,
        };
        self.world = wp;
        if self.seq && matches!(o.op, Op::Create { .. } | Op::CreateN { .. }) {
            let top = run().max_id.max(run().st.hw as u64) + run().lost + 2;
            self.before = (1..=top).filter(|i| unsafe { &*wp }.exist(eid(*i))).collect();
        }
        if let Some(n) = o.n.as_ref().filter(|n| n.other) {
            // user code that the library runs in the middle of the call may use the second world
            let (n, shapes, who, seq, label) = (n.clone(), self.shapes as *const [Shape], self.who, self.seq, self.label.clone());
            INNER.with(|c| {
                c.set(Some(Box::new(move || {
                    let mut cl = Cl::new(unsafe { &*shapes }, who, seq);
                    cl.world = wp;
                    cl.label = label;
                    IN_USER.with(|c| c.set(true));
                    cl.nested(*n);
                    IN_USER.with(|c| c.set(false));
                })))
            });
        }
        let r = catch_unwind(AssertUnwindSafe(|| match w {
            W::S(w) => self.shared(w, &o.op),
            W::X(w) => self.exclusive(w, &o.op),
        }));
        IN_LIB.with(|c| c.set(false));
        DROP_PANIC.with(|c| c.set(0));
        if o.n.is_some() {
            INNER.with(|c| c.set(None));
        }
        self.nest = None;
        run().doing[self.who] = Doing::default();
        if let Some((i, ev)) = self.query.take() {
            if let Some(Atom::Query(q)) = run().nodes[i].alts.first_mut() {
                q.ev = ev;
            }
            trace(|| format!("{:?}", run().nodes[i].alts[0]));
        }
        let mut out = Ok(());
        if let Err(p) = r {
            if p.is::<Injected>() {
                out = Err(());
                let now = sim::stamp();
                if let Some(i) = self.fresh {
                    // the handle died before the caller learned the id
                    if self.seq {
                        let n = self.pinned.map_or(1, |p| p.1);
                        self.find_batch(unsafe { &*wp }, i, n);
                    } else {
                        self.lost_creation(i, now);
                    }
                } else if let Some((a, n)) = self.pinned.take() {
                    self.node(self.last, now, vec![Atom::UnpinN(a, n)]);
                }
            } else {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                violate(Class::Panic, format!("{}: unexpected panic: {}", self.label, m));
            }
        }
        if self.refused && self.pinned.is_some() && self.fresh.is_none() {
            let (a, n) = self.pinned.take().unwrap();
            let now = sim::stamp();
            self.node(self.last, now, vec![Atom::UnpinN(a, n)]);
        }
        if !bad() && sim::held_count() != base {
            violate(
                Class::LeakLock,
                format!("{}: returned with {} lock(s) still held: {:?}", self.label, sim::held_count() - base, sim::held_by(sim::tid().unwrap())),
            );
        }
        let _ = n0;
        out
    }

    /// the creation whose nodes start at i never told its id(s)
    fn lost_creation(&mut self, i: usize, now: u64) {
        let r = run();
        let n = match r.nodes[i].alts[0] {
            Atom::Create { .. } => None,
            Atom::CreateN { n, .. } => Some(n),
            _ => unreachable!(),
        };
        self.pinned = None;
        self.lost = true;
        // anything recorded under the unknown id?
        let with_cells = r.nodes[i + 1..].iter().any(|x| x.who == self.who && x.alts.iter().any(|a| matches!(a, Atom::Set { e, .. } | Atom::Clear { e, .. } | Atom::Take { e, .. } | Atom::Is { e, .. } | Atom::Rmw { e, .. } if *e >= FRESH)));
        if with_cells {
            r.lost_cells.push((i, self.who));
        }
        let x = &mut r.nodes[i];
        x.alts = vec![Atom::Lost(n)];
        x.resp = now;
    }

    fn attach_done(&mut self, t: u8, e: u64, v: Val, l: &Lib<()>, why: Vec<Why>) -> bool {
        match &l.r {
            Ok(()) => {
                self.one(l.inv, l.resp, Atom::Set { t, e, v });
                self.modified(t, l.inv);
                true
            }
            Err(LibErr::Panic(m)) => {
                let m = m.clone();
                self.refuse(l.inv, l.resp, &m, why);
                false
            }
            Err(LibErr::Injected) => {
                let alts = crash_alts(t, e, v);
                self.node(l.inv, l.resp, alts);
                self.crash()
            }
        }
    }

    fn removal(&mut self, e: u64, l: Lib<()>, after: Option<usize>) {
        let reg = if run().outer { 0x3f } else { run().st.reg };
        match l.r {
            Ok(()) => {
                let mut pre: Vec<usize> = vec![];
                for t in 0..NT as u8 {
                    if reg >> t & 1 == 1 {
                        let i = self.node(l.inv, l.resp, vec![Atom::Del { t, e }]);
                        run().nodes[i].after.extend(after);
                        pre.push(i);
                    }
                }
                let i = self.one(l.inv, l.resp, Atom::Free(e));
                pre.extend(after);
                run().nodes[i].after = pre;
            }
            Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![Why::Dead(e)]),
            Err(LibErr::Injected) => {
                let mut pre: Vec<usize> = vec![];
                for t in 0..NT as u8 {
                    if reg >> t & 1 == 1 {
                        let i = self.node(l.inv, l.resp, vec![Atom::Del { t, e }, Atom::Nop]);
                        run().nodes[i].after.extend(after);
                        pre.push(i);
                    }
                }
                let i = self.node(l.inv, l.resp, vec![Atom::Nop, Atom::Free(e)]);
                pre.extend(after);
                run().nodes[i].after = pre;
                self.pinned = None;
                self.crash()
            }
        }
    }

    /// acts on a handle; None if the handle is gone
    fn acts<'w>(&mut self, mut h: xecs::Entity<'w>, e: u64, acts: &[Act]) -> Option<xecs::Entity<'w>> {
        for a in acts {
            if bad() {
                return Some(h);
            }
            match *a {
                Act::Pause => self.up(),
                Act::Attach(t) => {
                    let r = with_t!(t, T, {
                        let c = T::make();
                        let v = c.val();
                        let l = self.lib(move || h.attach::<T>(c));
                        let (l, back) = split(l);
                        if self.attach_done(t, e, v, &l, vec![Why::Unreg(t)]) {
                            back
                        } else {
                            None
                        }
                    });
                    h = r?;
                    self.up();
                }
                Act::Detach(t) => with_t!(t, T, {
                    let l = self.lib(|| h.detach::<T>());
                    match l.r {
                        Ok(c) => {
                            let got = c.as_ref().map(|c| c.val()).unwrap_or(0);
                            self.one(l.inv, l.resp, Atom::Take { t, e, got });
                            if got != 0 {
                                self.modified(t, l.inv);
                            }
                            drop(c);
                            self.up();
                        }
                        Err(LibErr::Panic(m)) => {
                            self.refuse(l.inv, l.resp, &m, vec![Why::Unreg(t)]);
                            if self.refused {
                                self.refused = false; // the handle lives on
                            }
                        }
                        Err(LibErr::Injected) => self.crash(),
                    }
                }),
                Act::Read(t) => with_t!(t, T, {
                    let l = self.lib(|| h.component_read::<T>());
                    match l.r {
                        Ok(None) => {
                            self.one(l.inv, l.resp, Atom::Is { t, e, got: 0 });
                        }
                        Ok(Some(g)) => {
                            let win = Win::open(self.who, vec![(t, false)], None);
                            let v = g.val();
                            self.one(l.inv, l.resp, Atom::Is { t, e, got: v });
                            self.up();
                            if !bad() && g.val() != v {
                                violate(Class::Excl, format!("{}: value changed under a read guard", self.label));
                            }
                            drop(win);
                            drop(g);
                        }
                        Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                        Err(LibErr::Injected) => self.crash(),
                    }
                }),
                Act::Write(t) => with_t!(t, T, {
                    let l = self.lib(|| h.component_write::<T>());
                    match l.r {
                        Ok(None) => {
                            self.one(l.inv, l.resp, Atom::Is { t, e, got: 0 });
                        }
                        Ok(Some(mut g)) => {
                            let win = Win::open(self.who, vec![(t, true)], None);
                            let old = g.val();
                            let i = self.one(l.inv, l.resp, Atom::Rmw { t, e, old, new: old });
                            self.up();
                            let new = g.bump();
                            run().nodes[i].alts[0] = Atom::Rmw { t, e, old, new };
                            self.up();
                            if !bad() && g.val() != new {
                                violate(Class::Excl, format!("{}: value changed under a write guard", self.label));
                            }
                            drop(win);
                            drop(g);
                        }
                        Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                        Err(LibErr::Injected) => self.crash(),
                    }
                }),
            }
        }
        Some(h)
    }

    fn drop_handle(&mut self, h: xecs::Entity<'_>, e: u64, end: End) {
        match end {
            End::IntoId => {
                let l = self.lib(move || h.into_id().get() as u64);
                match l.r {
                    Ok(id) => {
                        if id != e {
                            violate(Class::Id, format!("{}: handle of {} turned into id {}", self.label, e, id));
                        }
                        self.node(l.inv, l.resp, vec![Atom::Unpin(e)]);
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
                self.pinned = None;
            }
            End::Drop => {
                let l = self.lib(move || drop(h));
                self.node(l.inv, l.resp, vec![Atom::Unpin(e)]);
                self.pinned = None;
            }
            End::ManualDrop => {
                let l = self.lib(move || h.manaully_drop());
                self.pinned = None;
                let u = self.node(l.inv, l.resp, vec![Atom::Unpin(e)]);
                self.removal(e, l, Some(u));
            }
        }
    }

    fn issued(&mut self, id: u64) {
        if self.own.len() < 64 {
            self.own.push(id);
        }
        let r = run();
        r.crowd.held.remove(&id);
        if id < 1 << 24 {
            r.max_id = r.max_id.max(id);
        }
    }

    fn shared(&mut self, w: &World, op: &Op) {
        match op {
            Op::Create { att, acts, end } => {
                let l = self.lib(|| w.create_entity());
                let h = match l.r {
                    Ok(h) => h,
                    Err(LibErr::Panic(m)) => return self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => return,
                };
                let first = self.node(l.inv, l.resp, vec![Atom::Create { id: FRESH, pin: true }]);
                self.fresh = Some(first);
                self.pinned = Some((FRESH, 1));
                run().lost += 1;
                self.up();
                let mut all: Vec<Act> = att.iter().map(|t| Act::Attach(*t)).collect();
                all.extend_from_slice(acts);
                let h = match self.acts(h, FRESH, &all) {
                    Some(h) => h,
                    None => {
                        if self.seq {
                            return self.find_batch(w, first, 1);
                        }
                        let now = sim::stamp();
                        return self.lost_creation(first, now);
                    }
                };
                if bad() {
                    return;
                }
                self.up();
                if *end == End::Drop && self.seq {
                    let l = self.lib(move || drop(h));
                    self.node(l.inv, l.resp, vec![Atom::Unpin(FRESH)]);
                    self.pinned = None;
                    self.fresh = None;
                    run().lost -= 1;
                    // the caller never learns the id: look for it
                    let new = self.newly(w, 1);
                    if new.len() != 1 {
                        violate(Class::Id, format!("{}: after one creation the newly existing ids are {:?}", self.label, new));
                        return;
                    }
                    self.patch(first, new[0]);
                    self.issued(new[0]);
                    return;
                }
                let l = self.lib(move || h.into_id().get() as u64);
                match l.r {
                    Ok(id) => {
                        run().lost -= 1;
                        self.pinned = None;
                        self.fresh = None;
                        self.node(l.inv, l.resp, vec![Atom::Unpin(FRESH)]);
                        trace(|| format!("{} => id {}", self.label, id));
                        self.patch(first, id);
                        self.issued(id);
                        if *end == End::ManualDrop {
                            let l = self.lib(|| w.entity(eid(id)));
                            match l.r {
                                Ok(None) => self.refuse(l.inv, l.resp, "no such entity", vec![Why::Dead(id)]),
                                Ok(Some(h)) => {
                                    self.one(l.inv, l.resp, Atom::Pin(id));
                                    self.pinned = Some((id, 1));
                                    self.up();
                                    self.drop_handle(h, id, End::ManualDrop)
                                }
                                Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                                Err(_) => {}
                            }
                        }
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
            }
            Op::CreateN { n, att } => {
                let n = *n as u64;
                let l = self.lib(|| w.create_entities(n as usize));
                let mut h = match l.r {
                    Ok(h) => h,
                    Err(LibErr::Panic(m)) => return self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => return,
                };
                let first = self.node(l.inv, l.resp, vec![Atom::CreateN { start: FRESH, n, pin: true }]);
                self.fresh = Some(first);
                self.pinned = Some((FRESH, n));
                run().lost += n;
                self.up();
                for (t, d) in att {
                    let t = *t;
                    if *d <= -50 {
                        // meanwhile somebody who looked for new ids attaches to one of them
                        let new = if self.seq { self.newly(w, n) } else { vec![] };
                        if !new.is_empty() && run().st.registered(t as usize) {
                            let e = new[(-50 - *d) as usize % new.len()];
                            with_t!(t, T, {
                                let c = T::make();
                                let v = c.val();
                                let l = self.lib(move || w.attach_component::<T>(eid(e), c));
                                self.attach_done(t, e, v, &l, vec![]);
                            });
                            if bad() {
                                return;
                            }
                        }
                        continue;
                    }
                    let r = with_t!(t, T, {
                        let len = (n as i64 + *d as i64).max(0) as usize;
                        let data: Vec<T> = (0..len).map(|_| T::make()).collect();
                        let vals: Vec<Val> = data.iter().map(|c| c.val()).collect();
                        let conv = Conv { v: data, panic: self.fault == Some(Fault::ConvPanic) };
                        let l = self.lib(move || h.attach::<T, Conv<T>>(conv));
                        let (l, back) = split(l);
                        match l.r {
                            Ok(()) => {
                                if vals.len() as u64 != n {
                                    violate_all(vec![Class::Refusal, Class::Accepted, Class::Range], format!("{}: a list of {} was accepted for a batch of {}", self.label, vals.len(), n));
                                    return;
                                }
                                let mut prev = None;
                                for (i, v) in vals.iter().enumerate() {
                                    let x = self.node(l.inv, l.resp, vec![Atom::Set { t, e: FRESH + i as u64, v: *v }]);
                                    run().nodes[x].soft = prev;
                                    prev = Some(x);
                                }
                                if n > 0 {
                                    self.modified(t, l.inv);
                                }
                                back
                            }
                            Err(LibErr::Panic(m)) => {
                                let mut why = vec![Why::Unreg(t)];
                                if vals.len() as u64 != n {
                                    why.push(Why::Always);
                                }
                                self.refuse(l.inv, l.resp, &m, why);
                                None
                            }
                            Err(LibErr::Injected) => {
                                if self.fault != Some(Fault::ConvPanic) {
                                    let mut prev = None;
                                    for (i, v) in vals.iter().enumerate() {
                                        let mut a = crash_alts(t, FRESH + i as u64, *v);
                                        if T::T == ZST || run().ledger.drops(*v) > 0 {
                                            a.push(Atom::Nop);
                                        }
                                        let x = self.node(l.inv, l.resp, a);
                                        run().nodes[x].soft = prev;
                                        prev = Some(x);
                                    }
                                }
                                if self.seq {
                                    self.find_batch(w, first, n);
                                    self.pinned = None;
                                }
                                self.crash()
                            }
                        }
                    });
                    h = match r {
                        Some(h) => h,
                        None => {
                            let now = sim::stamp();
                            if self.seq {
                                self.find_batch(w, first, n);
                                return;
                            }
                            return self.lost_creation(first, now);
                        }
                    };
                    self.up();
                }
                let l = self.lib(move || h.into_ids());
                match l.r {
                    Ok(ids) => {
                        run().lost -= n;
                        self.fresh = None;
                        self.pinned = None;
                        let (a, b) = (ids.start.get() as u64, ids.end.get() as u64);
                        trace(|| format!("{} => ids {}..{}", self.label, a, b));
                        if b < a || b - a != n {
                            violate(Class::Range, format!("{}: asked for {} ids, got the range {}..{}", self.label, n, a, b));
                            return;
                        }
                        self.node(l.inv, l.resp, vec![Atom::UnpinN(FRESH, n)]);
                        self.patch(first, a);
                        for i in a..b {
                            self.issued(i);
                        }
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
            }
            Op::Attach { t, e } => with_t!(*t, T, {
                let e = self.ent(*e);
                let c = T::make();
                let v = c.val();
                let l = self.lib(move || w.attach_component::<T>(eid(e), c));
                self.attach_done(*t, e, v, &l, vec![Why::Dead(e), Why::Unreg(*t)]);
            }),
            Op::Detach { t, e } => with_t!(*t, T, {
                let e = self.ent(*e);
                let l = self.lib(|| w.detach_component::<T>(eid(e)));
                match l.r {
                    Ok(c) => {
                        let got = c.as_ref().map(|c| c.val()).unwrap_or(0);
                        self.one(l.inv, l.resp, Atom::Take { t: *t, e, got });
                        if got != 0 {
                            self.modified(*t, l.inv);
                        }
                        self.up();
                        drop(c);
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![Why::Dead(e), Why::Unreg(*t)]),
                    Err(LibErr::Injected) => self.crash(),
                }
            }),
            Op::Remove { e } => {
                let e = self.ent(*e);
                let l = self.lib(|| w.remove_entity(eid(e)));
                self.removal(e, l, None);
            }
            Op::Exist { e } => {
                let e = self.ent(*e);
                let l = self.lib(|| w.exist(eid(e)));
                match l.r {
                    Ok(x) => {
                        self.one(l.inv, l.resp, Atom::Alive(e, x));
                    }
                    Err(LibErr::Panic(m)) => violate(Class::Id, format!("{}: library panicked: {}", self.label, m)),
                    Err(_) => {}
                }
            }
            Op::HasReg { t } => with_t!(*t, T, {
                let l = self.lib(|| w.has_registered::<T>());
                if let Ok(x) = l.r {
                    self.one(l.inv, l.resp, Atom::HasReg(*t, x));
                }
            }),
            Op::Handle { e, acts, end } => {
                let e = self.ent(*e);
                let l = self.lib(|| w.entity(eid(e)));
                match l.r {
                    Ok(None) => self.refuse(l.inv, l.resp, "no such entity", vec![Why::Dead(e)]),
                    Ok(Some(h)) => {
                        self.one(l.inv, l.resp, Atom::Pin(e));
                        self.pinned = Some((e, 1));
                        self.up();
                        if let Some(h) = self.acts(h, e, acts) {
                            if !bad() {
                                self.up();
                                self.drop_handle(h, e, *end)
                            }
                        }
                    }
                    Err(LibErr::Panic(m)) => violate(Class::Id, format!("{}: library panicked: {}", self.label, m)),
                    Err(_) => {}
                }
            }
            Op::CompR { t, e } => with_t!(*t, T, {
                let e = self.ent(*e);
                let l = self.lib(|| w.entity_component_read::<T>(eid(e)));
                match l.r {
                    Ok(None) => {
                        self.one(l.inv, l.resp, Atom::Is { t: *t, e, got: 0 });
                    }
                    Ok(Some(g)) => {
                        let win = Win::open(self.who, vec![(*t, false)], None);
                        let v = g.val();
                        self.one(l.inv, l.resp, Atom::Is { t: *t, e, got: v });
                        for _ in 0..2 {
                            self.up();
                            if !bad() && g.val() != v {
                                violate(Class::Excl, format!("{}: value changed under a read guard", self.label));
                            }
                        }
                        drop(win);
                        drop(g);
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
            }),
            Op::CompW { t, e, n } => with_t!(*t, T, {
                let e = self.ent(*e);
                let l = self.lib(|| w.entity_component_write::<T>(eid(e)));
                match l.r {
                    Ok(None) => {
                        self.one(l.inv, l.resp, Atom::Is { t: *t, e, got: 0 });
                    }
                    Ok(Some(mut g)) => {
                        let win = Win::open(self.who, vec![(*t, true)], None);
                        let old = g.val();
                        let i = self.one(l.inv, l.resp, Atom::Rmw { t: *t, e, old, new: old });
                        let mut cur = old;
                        self.up();
                        for _ in 0..*n {
                            if bad() {
                                break;
                            }
                            if g.val() != cur {
                                violate(Class::Excl, format!("{}: value changed under a write guard", self.label));
                            }
                            cur = g.bump();
                            run().nodes[i].alts[0] = Atom::Rmw { t: *t, e, old, new: cur };
                            self.up();
                        }
                        if !bad() && g.val() != cur {
                            violate(Class::Excl, format!("{}: value changed under a write guard", self.label));
                        }
                        drop(win);
                        drop(g);
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
            }),
            Op::StoR { t, probes } => with_t!(*t, T, {
                let ids: Vec<u64> = probes.iter().map(|p| self.ent(*p)).collect();
                let l = self.lib(|| w.components_read::<T>());
                match l.r {
                    Ok(None) => self.refuse(l.inv, l.resp, "no such storage", vec![Why::Unreg(*t)]),
                    Ok(Some(g)) => {
                        let win = Win::open(self.who, vec![(*t, false)], None);
                        let snap = || {
                            let d = g.data();
                            let mut o = StoObs { t: *t, count: g.count(), empty: g.is_empty(), data: Some((d.len(), d.iter().fold(0u64, |s, c| s.wrapping_add(vsum(c.val()))))), probes: vec![], edits: vec![] };
                            for e in &ids {
                                let ex = g.exist(eid(*e));
                                let v = g.get(eid(*e)).map(|c| c.val());
                                if ex && v.is_some() {
                                    let u = unsafe { g.get_unchecked(eid(*e)) }.val();
                                    if Some(u) != v {
                                        violate(Class::Cellv, format!("get and get_unchecked disagree on id {}", e));
                                    }
                                }
                                o.probes.push((*e, ex, v));
                            }
                            o
                        };
                        let o = snap();
                        self.one(l.inv, l.resp, Atom::Sto(Box::new(o.clone())));
                        for _ in 0..2 {
                            self.up();
                            if bad() {
                                break;
                            }
                            let p = snap();
                            if (p.count, p.data, &p.probes) != (o.count, o.data, &o.probes) {
                                violate(Class::Excl, format!("{}: storage changed under a read guard", self.label));
                            }
                        }
                        drop(win);
                        drop(g);
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
            }),
            Op::StoW { t, probes, slice } => with_t!(*t, T, {
                let ids: Vec<u64> = probes.iter().map(|p| self.ent(*p)).collect();
                let l = self.lib(|| w.components_write::<T>());
                match l.r {
                    Ok(None) => self.refuse(l.inv, l.resp, "no such storage", vec![Why::Unreg(*t)]),
                    Ok(Some(mut g)) => {
                        let win = Win::open(self.who, vec![(*t, true)], None);
                        let total = |g: &xecs::StorageWrite<'_, T>| {
                            let d = g.data();
                            (d.len(), d.iter().fold(0u64, |s, c| s.wrapping_add(vsum(c.val()))))
                        };
                        let mut o = StoObs { t: *t, count: g.count(), empty: g.is_empty(), data: Some(total(&g)), probes: vec![], edits: vec![] };
                        for e in &ids {
                            let ex = g.exist(eid(*e));
                            let v = g.get(eid(*e)).map(|c| c.val());
                            if ex && v.is_some() {
                                let u = unsafe { g.get_unchecked(eid(*e)) }.val();
                                if Some(u) != v {
                                    violate(Class::Cellv, format!("get and get_unchecked disagree on id {}", e));
                                }
                            }
                            o.probes.push((*e, ex, v));
                        }
                        let i = self.one(l.inv, l.resp, Atom::Sto(Box::new(o)));
                        self.up();
                        let edit = |old: Val, new: Val| {
                            if old != new {
                                if let Atom::Sto(o) = &mut run().nodes[i].alts[0] {
                                    o.edits.push((old, new));
                                }
                            }
                        };
                        for (k, e) in ids.iter().enumerate() {
                            if bad() {
                                break;
                            }
                            let had = g.exist(eid(*e));
                            if k % 2 == 1 && had {
                                let c = unsafe { g.get_unchecked_mut(eid(*e)) };
                                let old = c.val();
                                edit(old, c.bump());
                            } else {
                                match g.get_mut(eid(*e)) {
                                    Some(c) => {
                                        if !had {
                                            violate(Class::Cellv, format!("get_mut finds id {} that exist denies", e));
                                        }
                                        let old = c.val();
                                        if k == 2 && T::T != ZST {
                                            // replace the whole value; the caller gets the old one
                                            let new = T::make();
                                            edit(old, new.val());
                                            drop(std::mem::replace(c, new));
                                        } else {
                                            edit(old, c.bump());
                                        }
                                    }
                                    None => {
                                        if had {
                                            violate(Class::Cellv, format!("get_mut misses id {} that exist affirms", e));
                                        }
                                    }
                                }
                            }
                            self.up();
                        }
                        if *slice > 0 {
                            let d = g.data_mut();
                            if !d.is_empty() {
                                let n = d.len();
                                let c = &mut d[*slice as usize % n];
                                let old = c.val();
                                edit(old, c.bump());
                            }
                        }
                        let t0 = total(&g);
                        self.up();
                        if !bad() && total(&g) != t0 {
                            violate(Class::Excl, format!("{}: storage changed under a write guard", self.label));
                        }
                        drop(win);
                        drop(g);
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
            }),
            Op::Query { s, mode, probes, limit } => self.query(w, *s as usize % self.shapes.len(), *mode, probes, *limit),
            Op::ResR { r, fmt } => with_r!(*r, R, {
                let l = self.lib(|| w.resource_read::<R>());
                match l.r {
                    Ok(None) => self.refuse(l.inv, l.resp, "no such resource", vec![Why::NoRes(*r)]),
                    Ok(Some(g)) => {
                        let win = Win::open(self.who, vec![], Some((*r, false)));
                        let v = g.val();
                        self.one(l.inv, l.resp, Atom::ResIs { r: *r, got: v });
                        if *fmt {
                            let (d, s) = (format!("{:?}", g), format!("{}", g));
                            if !d.contains(&format!("D{}:{}", r, v)) || s != format!("S{}:{}", r, v) {
                                violate(Class::Res, format!("{}: value {} formats as {:?} / {:?}", self.label, v, d, s));
                            }
                        }
                        self.up();
                        if !bad() && g.val() != v {
                            violate_all(vec![Class::Excl, Class::Res], format!("{}: resource changed under a read guard", self.label));
                        }
                        drop(win);
                        drop(g);
                    }
                    Err(LibErr::Panic(m)) => violate(Class::Res, format!("{}: library panicked: {}", self.label, m)),
                    Err(_) => {}
                }
            }),
            Op::ResW { r, n, fmt } => with_r!(*r, R, {
                let l = self.lib(|| w.resource_write::<R>());
                match l.r {
                    Ok(None) => self.refuse(l.inv, l.resp, "no such resource", vec![Why::NoRes(*r)]),
                    Ok(Some(mut g)) => {
                        let win = Win::open(self.who, vec![], Some((*r, true)));
                        let old = g.val();
                        let mut cur = old;
                        let i = self.one(l.inv, l.resp, Atom::ResRmw { r: *r, old, new: old });
                        self.up();
                        for _ in 0..*n {
                            cur = g.bump();
                            run().nodes[i].alts[0] = Atom::ResRmw { r: *r, old, new: cur };
                            self.up();
                            if !bad() && g.val() != cur {
                                violate_all(vec![Class::Excl, Class::Res], format!("{}: resource changed under a write guard", self.label));
                            }
                        }
                        if *fmt {
                            let (d, s) = (format!("{:?}", g), format!("{}", g));
                            if !d.contains(&format!("D{}:{}", r, cur)) || s != format!("S{}:{}", r, cur) {
                                violate(Class::Res, format!("{}: value {} formats as {:?} / {:?}", self.label, cur, d, s));
                            }
                        }
                        drop(win);
                        drop(g);
                    }
                    Err(LibErr::Panic(m)) => violate(Class::Res, format!("{}: library panicked: {}", self.label, m)),
                    Err(_) => {}
                }
            }),
            Op::Debug => {
                let b = sim::blocked_events();
                let l = self.lib(|| format!("{:?}", w));
                if sim::blocked_events() != b {
                    violate(Class::DebugBlocks, format!("{}: formatting the world waited for a lock", self.label));
                }
                match l.r {
                    Ok(s) => {
                        if !s.contains("World") {
                            violate(Class::Panic, format!("formatting the world gives {:?}", s));
                        }
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                    Err(_) => {}
                }
            }
            Op::Drain => {
                let n = run().st.pits + 1;
                for _ in 0..n.min(200) {
                    if bad() {
                        return;
                    }
                    let l = self.lib(|| w.create_entity().into_id().get() as u64);
                    match l.r {
                        Ok(id) => {
                            self.one(l.inv, l.resp, Atom::Create { id, pin: false });
                            self.issued(id);
                        }
                        Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![]),
                        Err(_) => {}
                    }
                }
            }
            Op::Register { .. } | Op::MakeGroup { .. } | Op::RegRes { .. } | Op::Step { .. } | Op::Crowd { .. } => unreachable!("exclusive operation"),
        }
    }

    /// fill in the id a creation turned out to have
    fn patch(&mut self, first: usize, id: u64) {
        patch(self.who, first, id)
    }

    /// sequential phases: a batch was created but its ids never told; look for them
    /// the ids that exist now and did not when this operation began (one client only)
    fn newly(&mut self, w: &World, n: u64) -> Vec<u64> {
        let top = run().max_id.max(run().st.hw as u64).max(self.before.last().copied().unwrap_or(0)) + run().lost + n + 2;
        let before = &self.before;
        (1..=top).filter(|i| before.binary_search(i).is_err() && w.exist(eid(*i))).collect()
    }

    fn find_batch(&mut self, w: &World, first: usize, n: u64) {
        let inv = sim::stamp();
        let new = self.newly(w, n);
        run().lost -= n;
        let contiguous = new.windows(2).all(|p| p[1] == p[0] + 1);
        self.fresh = None;
        self.pinned = None;
        if new.len() as u64 != n || !contiguous {
            violate(Class::Range, format!("{}: after creating {} entities the newly existing ids are {:?}", self.label, n, new));
            return;
        }
        let resp = sim::stamp();
        self.node(inv, resp, vec![Atom::UnpinN(FRESH, n)]);
        let start = new.first().copied().unwrap_or(run().st.hw as u64 + 1);
        self.patch(first, start);
        for i in new {
            self.issued(i);
        }
    }

    fn query(&mut self, w: &World, s: usize, mode: QMode, probes: &[Ent], limit: u32) {
        let shapes = self.shapes;
        let sh = &shapes[s];
        let ids: Vec<u64> = probes.iter().map(|p| self.ent(*p)).collect();
        let locks = sh.pat.locks();
        let groups = sh.pat.groups();
        let l = self.lib(|| (sh.start)(w));
        let q: Box<dyn Running<'_> + '_> = match l.r {
            Ok(q) => q,
            Err(LibErr::Panic(m)) => {
                let mut why: Vec<Why> = locks.iter().map(|l| Why::Unreg(l.0)).collect();
                why.extend(groups.iter().map(|g| Why::NoGroup(*g)));
                return self.refuse(l.inv, l.resp, &m, why);
            }
            Err(_) => return,
        };
        let win = Win::open(self.who, locks.clone(), None);
        let obs = QObs { pat: sh.pat.clone(), items: sh.pat.items(), locks: locks.iter().map(|l| l.0).collect(), groups, ev: vec![] };
        let i = self.node(l.inv, l.resp, vec![Atom::Query(Box::new(obs))]);
        self.query = Some((i, vec![]));
        let mut kept: Vec<(RefV<'_>, Val)> = vec![];
        let mut ny = 0u32;
        let keep = !matches!(mode, QMode::FromId | QMode::Mixed);
        macro_rules! ev {
            ($e:expr) => {
                self.query.as_mut().unwrap().1.push($e)
            };
        }
        macro_rules! take {
            ($id:expr, $items:expr) => {{
                let mut vals = vec![];
                let mut after = vec![];
                for mut r in $items {
                    let v = r.val();
                    vals.push(v);
                    let mut a = v;
                    if let RefV::M(m) = &mut r {
                        if ny % 4 < 3 {
                            a = m.bump();
                        }
                    }
                    after.push(a);
                    if keep {
                        kept.push((r, a));
                    }
                }
                ev!(QEv::Yield { id: $id, vals, after });
                ny += 1;
                if ny <= 3 {
                    self.up();
                }
            }};
        }
        macro_rules! hint {
            ($q:expr) => {{
                let (lo, hi) = $q.size_hint();
                ev!(QEv::Hint { lo, hi });
            }};
        }
        macro_rules! probe {
            ($q:expr, $id:expr) => {{
                let id = $id;
                let res = $q.from_id(id).map(|items| {
                    let mut vals = vec![];
                    let mut after = vec![];
                    for mut r in items {
                        let v = r.val();
                        vals.push(v);
                        let mut a = v;
                        if let RefV::M(m) = &mut r {
                            a = m.bump();
                        }
                        after.push(a);
                    }
                    (vals, after)
                });
                ev!(QEv::Probe { id, res });
            }};
        }
        self.up();
        let mut q = Some(q);
        match mode {
            QMode::Next | QMode::NextWithId | QMode::Mixed => {
                let q = q.as_mut().unwrap();
                hint!(q);
                let mut pi = 0;
                while ny < limit && !bad() {
                    let got = if mode == QMode::Next { q.next().map(|v| (None, v)) } else { q.next_with_id().map(|(e, v)| (Some(e), v)) };
                    match got {
                        Some((id, v)) => {
                            take!(id, v);
                            if ny <= 4 {
                                hint!(q);
                            }
                            if mode == QMode::Mixed && pi < ids.len() {
                                probe!(q, ids[pi]);
                                pi += 1;
                                if let Some(id) = id {
                                    if pi % 2 == 0 {
                                        probe!(q, id);
                                    }
                                }
                            }
                            if ny > 100_000 {
                                violate(Class::Query, format!("{}: more than 100000 items", self.label));
                            }
                        }
                        None => {
                            ev!(QEv::End { slack: 0 });
                            hint!(q);
                            break;
                        }
                    }
                }
            }
            QMode::WithId => {
                let mut qi = q.take().unwrap().into_with_id();
                hint!(qi);
                while ny < limit && !bad() {
                    match qi.next() {
                        Some((id, v)) => {
                            take!(Some(id), v);
                            if ny <= 4 {
                                hint!(qi);
                            }
                            if ny > 100_000 {
                                violate(Class::Query, format!("{}: more than 100000 items", self.label));
                            }
                        }
                        None => {
                            ev!(QEv::End { slack: 0 });
                            hint!(qi);
                            break;
                        }
                    }
                }
                self.recheck(&kept);
                kept.clear();
                drop(win);
                drop(qi);
                return;
            }
            QMode::FromId => {
                let q = q.as_mut().unwrap();
                for id in &ids {
                    if bad() {
                        break;
                    }
                    probe!(q, *id);
                    self.up();
                }
                for id in 1..=run().max_id.min(6) {
                    if bad() {
                        break;
                    }
                    probe!(q, id);
                }
            }
            QMode::Nth(k) => {
                let q = q.as_mut().unwrap();
                while ny < limit && !bad() {
                    match q.nth(k as usize) {
                        Some(v) => {
                            ev!(QEv::Skip(k as usize));
                            take!(None, v);
                            hint!(q);
                        }
                        None => {
                            ev!(QEv::End { slack: k as usize });
                            break;
                        }
                    }
                }
            }
            QMode::Count => {
                let n = q.take().unwrap().count();
                // the query is over, its locks released; the answer stands for its beginning
                ev!(QEv::Skip(n));
                ev!(QEv::End { slack: 0 });
                run().nodes[i].resp = sim::stamp();
                drop(win);
                return;
            }
        }
        self.recheck(&kept);
        kept.clear();
        drop(win);
        drop(q);
    }

    fn recheck(&mut self, kept: &[(RefV<'_>, Val)]) {
        self.up();
        for (r, v) in kept {
            if bad() {
                return;
            }
            if r.val() != *v {
                violate(Class::Excl, format!("{}: a value changed while the query holds it", self.label));
            }
        }
    }

    fn exclusive(&mut self, w: &mut World, op: &Op) {
        match op {
            Op::Register { t } => with_t!(*t, T, {
                let l = self.lib(|| {
                    w.register::<T>();
                });
                match l.r {
                    Ok(()) => {
                        self.one(l.inv, l.resp, Atom::Register(*t));
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, vec![Why::AlreadyReg(*t)]),
                    Err(_) => {}
                }
            }),
            Op::MakeGroup { g } => {
                let l = self.lib(|| make_group(w, *g));
                match l.r {
                    Ok(()) => {
                        self.one(l.inv, l.resp, Atom::Group(*g));
                        run().groups.push(*g);
                    }
                    Err(LibErr::Panic(m)) => self.refuse(l.inv, l.resp, &m, if g.1 == g.2 { vec![Why::Always] } else { vec![Why::Conflict(*g), Why::Unreg(g.1), Why::Unreg(g.2)] }),
                    Err(_) => {}
                }
            }
            Op::RegRes { r } => with_r!(*r, R, {
                let c = R::new_res();
                let v = c.val();
                let l = self.lib(|| w.register_resource(c));
                match l.r {
                    Ok(()) => {
                        self.one(l.inv, l.resp, Atom::ResSet { r: *r, v });
                    }
                    Err(LibErr::Panic(m)) => violate(Class::Res, format!("{}: library panicked: {}", self.label, m)),
                    Err(LibErr::Injected) => {
                        let gone = run().ledger.drops(v) > 0;
                        let a = if gone { Atom::ResSet { r: *r, v: 0 } } else { Atom::ResSet { r: *r, v } };
                        self.node(l.inv, l.resp, vec![a]);
                        self.crash()
                    }
                }
            }),
            Op::Crowd { from, to, res, groups, salt } => {
                let top = run().max_id;
                let l = self.lib(|| {
                    crate::crowd::arrive(w, *from as usize, *to as usize, *res, *groups);
                    crate::crowd::mingle(w, *salt, top);
                });
                if let Err(LibErr::Panic(m)) = l.r {
                    violate(Class::Panic, format!("{}: library panicked: {}", self.label, m))
                }
            }
            _ => self.shared(&*w, op),
        }
    }
}

/// placeholder ids of a creation in progress
const FRESH: u64 = 1 << 60;

fn patch(who: usize, first: usize, id: u64) {
    let fix = |e: &mut u64| {
        if *e >= FRESH && *e < u64::MAX {
            *e = *e - FRESH + id
        }
    };
    for n in run().nodes[first..].iter_mut().filter(|n| n.who == who) {
        for a in n.alts.iter_mut() {
            match a {
                Atom::Create { id, .. } => fix(id),
                Atom::CreateN { start, .. } => fix(start),
                Atom::Unpin(e) | Atom::UnpinN(e, _) | Atom::Pin(e) => fix(e),
                Atom::Set { e, .. } | Atom::Clear { e, .. } | Atom::Take { e, .. } | Atom::Is { e, .. } | Atom::Rmw { e, .. } => fix(e),
                _ => {}
            }
        }
    }
}

/// Several clients ran; one of them crashed inside a creation after attaching to the new
/// entities. If it was the only such crash, the ids nobody else was told are its ids.
fn find_lost(w: &World) {
    let r = run();
    if r.lost_cells.is_empty() {
        return;
    }
    let all = r.nodes.iter().filter(|n| matches!(n.alts[..], [Atom::Lost(k)] if k != Some(0))).count();
    let (i, who) = r.lost_cells[0];
    if all != 1 {
        r.stop = true;
        probe("lost_creations_not_resolved");
        return;
    }
    let mut known = std::collections::HashSet::new();
    for n in &r.nodes {
        match n.alts[..] {
            [Atom::Create { id, .. }] => {
                known.insert(id);
            }
            [Atom::CreateN { start, n, .. }] => known.extend(start..start + n),
            _ => {}
        }
    }
    let top = r.max_id.max(r.st.hw as u64) + r.lost + 2;
    let new: Vec<u64> = (1..=top).filter(|x| !r.st.alive(*x) && !known.contains(x) && w.exist(eid(*x))).collect();
    let k = match r.nodes[i].alts[..] {
        [Atom::Lost(k)] => k,
        _ => unreachable!(),
    };
    if new.len() as u64 != k.unwrap_or(1) || !new.windows(2).all(|p| p[1] == p[0] + 1) {
        r.stop = true;
        probe("lost_creations_not_resolved");
        return;
    }
    probe("lost_creations_resolved");
    r.nodes[i].alts = vec![match k {
        None => Atom::Create { id: FRESH, pin: false },
        Some(n) => Atom::CreateN { start: FRESH, n, pin: false },
    }];
    patch(who, i, new[0]);
    r.max_id = r.max_id.max(new[new.len() - 1]);
}


fn crash_alts(t: u8, e: u64, v: Val) -> Vec<Atom> {
    if t as usize == ZST {
        return vec![Atom::Set { t, e, v }, Atom::Clear { t, e }];
    }
    if run().ledger.drops(v) > 0 {
        // destroyed by the library, or by somebody who has taken it out since
        vec![Atom::Clear { t, e }, Atom::Set { t, e, v }]
    } else {
        vec![Atom::Set { t, e, v }]
    }
}

fn split<R>(l: Lib<R>) -> (Lib<()>, Option<R>) {
    match l.r {
        Ok(r) => (Lib { inv: l.inv, resp: l.resp, r: Ok(()) }, Some(r)),
        Err(e) => (Lib { inv: l.inv, resp: l.resp, r: Err(e) }, None),
    }
}

/// user code the library runs: the conversion into a list
pub struct Conv<T> {
    v: Vec<T>,
    panic: bool,
}
impl<T> From<Conv<T>> for Vec<T> {
    fn from(c: Conv<T>) -> Vec<T> {
        sim::yield_now();
        user_code();
        if c.panic {
            run().fired.conv_panics += 1;
            panic_any(Injected);
        }
        c.v
    }
}

/// `World::make_group` wants a `Copy` group, and `FullOwning<A, B>` is `Copy` only when both
/// components are; this stands for the same group of components that have destructors.
#[derive(Clone, Copy)]
struct Mk(fn() -> xecs::group::Group);
impl From<Mk> for xecs::group::Group {
    fn from(m: Mk) -> xecs::group::Group {
        (m.0)()
    }
}

fn make_group(w: &mut World, g: GKey) {
    use xecs::group::{full_owning, non_owning, partial_owning};
    macro_rules! go {
        ($A:ident, $B:ident) => {
            match g.0 {
                GKind::Full => w.make_group(Mk(|| full_owning::<$A, $B>().into())),
                GKind::Part => w.make_group(Mk(|| partial_owning::<$A, $B>().into())),
                GKind::Non => w.make_group(Mk(|| non_owning::<$A, $B>().into())),
            }
        };
    }
    match (g.1, g.2) {
        (0, 1) => go!(CA, CB),
        (1, 2) => go!(CB, CC),
        (0, 2) => go!(CA, CC),
        (2, 3) => go!(CC, CD),
        (0, 5) => go!(CA, CZ),
        (3, 4) => go!(CD, CE),
        (1, 0) => go!(CB, CA),
        (5, 0) => go!(CZ, CA),
        (2, 1) => go!(CC, CB),
        (0, 0) => go!(CA, CA),
        (3, 3) => go!(CD, CD),
        _ => unreachable!(),
    }
}

fn doing(op: &Op, shapes: &[Shape], label: &str) -> Doing {
    let mut d = Doing { label: label.to_string(), ..Doing::default() };
    match op {
        Op::CompR { t, .. } | Op::CompW { t, .. } | Op::StoR { t, .. } | Op::StoW { t, .. } => {
            d.plain = true;
            d.shared = matches!(op, Op::CompR { .. } | Op::StoR { .. });
            d.types = 1 << t;
        }
        Op::Query { s, .. } => {
            let p = &shapes[*s as usize % shapes.len()].pat;
            d.plain = p.groups().is_empty();
            d.types = p.locks().iter().fold(0, |m, l| m | 1 << l.0);
            d.shared = p.locks().iter().all(|l| !l.1);
            d.spreads = true;
        }
        Op::ResR { r, .. } | Op::ResW { r, .. } => {
            d.plain = true;
            d.shared = matches!(op, Op::ResR { .. });
            d.res = 1 << r;
        }
        Op::Debug => {
            d.debug = true;
            d.shared = true;
        }
        _ => {}
    }
    d
}
/// with everything that shares a group with it
fn group_close(r: &Run, m: u8) -> u8 {
    let mut o = m;
    for g in &r.groups {
        let gm = 1u8 << g.1 | 1 << g.2;
        if gm & m != 0 {
            o |= gm;
        }
    }
    o
}

pub fn describe(op: &Op, shapes: &[Shape]) -> String {
    match op {
        Op::Query { s, mode, probes, limit } => {
            let sh = &shapes[*s as usize % shapes.len()];
            let lim = if *limit == u32::MAX { String::new() } else { format!(" limit {}", limit) };
            format!("Query<{}> {:?}{} {:?}", sh.text.replace("'a ", ""), mode, lim, probes)
        }
        Op::Step { ops } => format!("Step of {}", ops.len()),
        _ => format!("{:?}", op),
    }
}

// ------------------------------------------------------------------ audits
/// Observe everything the public API shows, as sequential steps; check group layout.
pub fn audit(cl: &mut Cl<'_>, w: &World) {
    if bad() {
        return;
    }
    run().audits += 1;
    cl.fault = None;
    cl.label = "audit".into();
    let top = run().max_id.max(run().st.hw as u64) + run().lost + 2;
    let r = catch_unwind(AssertUnwindSafe(|| {
        for id in 1..=top {
            let inv = sim::stamp();
            let x = w.exist(eid(id));
            let resp = sim::stamp();
            cl.node(inv, resp, vec![Atom::Alive(id, x)]);
        }
        let mut orders: [Option<Vec<(u64, Val)>>; NT] = Default::default();
        for t in 0..NT {
            with_t!(t, T, {
                let reg = w.has_registered::<T>();
                let s = sim::stamp();
                cl.node(s, s, vec![Atom::HasReg(t as u8, reg)]);
                if !reg {
                    continue;
                }
                // the same storage through every door
                let inv = sim::stamp();
                let g = w.components_read::<T>().expect("registered storage");
                let d: Vec<Val> = g.data().iter().map(|c| c.val()).collect();
                let mut o = StoObs {
                    t: t as u8,
                    count: g.count(),
                    empty: g.is_empty(),
                    data: Some((d.len(), d.iter().fold(0u64, |s, v| s.wrapping_add(vsum(*v))))),
                    probes: vec![],
                    edits: vec![],
                };
                for id in 1..=top {
                    o.probes.push((id, g.exist(eid(id)), g.get(eid(id)).map(|c| c.val())));
                }
                drop(g);
                let resp = sim::stamp();
                cl.node(inv, resp, vec![Atom::Sto(Box::new(o))]);
                let inv = sim::stamp();
                let mut items = vec![];
                {
                    use xecs::query::WithId;
                    for (id, c) in w.query::<&T>().with_id() {
                        items.push((id.get() as u64, c.val()));
                        if items.len() > 200_000 {
                            violate(Class::Query, "endless query".into());
                            return;
                        }
                    }
                }
                let resp = sim::stamp();
                let mut ev: Vec<QEv> = items.iter().map(|(id, v)| QEv::Yield { id: Some(*id), vals: vec![*v], after: vec![*v] }).collect();
                ev.push(QEv::End { slack: 0 });
                let q = QObs { pat: crate::pat::PatD::C(t as u8, false), items: vec![t as u8], locks: vec![t as u8], groups: vec![], ev };
                cl.node(inv, resp, vec![Atom::Query(Box::new(q))]);
                let owned = run().groups.iter().any(|g| crate::model::owned(g) >> t & 1 == 1);
                if owned && items.iter().map(|i| i.1).collect::<Vec<_>>() != d {
                    violate_all(vec![Class::Pack], format!("{}: data slice and query disagree on the order of values", NAMES[t]));
                }
                orders[t] = Some(items);
            });
        }
        crate::crowd::audit(w);
        let groups = run().groups.clone();
        for g in groups {
            group_audit(cl, w, g, &orders);
        }
    }));
    if r.is_err() {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        violate(Class::Panic, format!("library panicked while everything was at rest: {}", m));
    }
    if !bad() && sim::held_count() != 0 {
        violate(Class::LeakLock, "locks held after an audit".into());
    }
}

fn group_audit(cl: &mut Cl<'_>, w: &World, g: GKey, orders: &[Option<Vec<(u64, Val)>>; NT]) {
    let (a, b) = (g.1 as usize, g.2 as usize);
    let sh = match cl.shapes.iter().find(|s| s.pat == crate::pat::PatD::G(g.0, g.1, g.2, false, false)) {
        Some(s) => s,
        None => return,
    };
    let inv = sim::stamp();
    let q = (sh.start)(w);
    let mut qi = q.into_with_id();
    let mut got: Vec<(u64, Val, Val)> = vec![];
    while let Some((id, v)) = qi.next() {
        got.push((id, v[0].val(), v[1].val()));
        if got.len() > 200_000 {
            violate(Class::Group, "endless group query".into());
            return;
        }
    }
    drop(qi);
    let resp = sim::stamp();
    let mut ev: Vec<QEv> = got.iter().map(|(id, x, y)| QEv::Yield { id: Some(*id), vals: vec![*x, *y], after: vec![*x, *y] }).collect();
    ev.push(QEv::End { slack: 0 });
    let ob = QObs { pat: sh.pat.clone(), items: sh.pat.items(), locks: vec![g.1, g.2], groups: vec![g], ev };
    cl.node(inv, resp, vec![Atom::Query(Box::new(ob))]);
    // layout of owned storages
    if g.0 == GKind::Non {
        return;
    }
    let (oa, ob) = match (&orders[a], &orders[b]) {
        (Some(x), Some(y)) => (x, y),
        _ => return,
    };
    let in_b: std::collections::HashSet<u64> = ob.iter().map(|x| x.0).collect();
    let members: Vec<u64> = oa.iter().map(|x| x.0).filter(|i| in_b.contains(i)).collect();
    let n = members.len();
    let front_a: Vec<u64> = oa.iter().take(n).map(|x| x.0).collect();
    if front_a != members {
        violate(Class::Pack, format!("{:?}: entities of the group are not at the front of {}: storage order {:?}, group {:?}", g, NAMES[a], oa.iter().map(|x| x.0).collect::<Vec<_>>(), members));
        return;
    }
    let order: Vec<u64> = got.iter().map(|x| x.0).collect();
    if order != front_a {
        violate_all(vec![Class::Pack, Class::Group], format!("{:?}: group query order {:?} is not the storage order {:?}", g, order, front_a));
        return;
    }
    if g.0 == GKind::Full {
        let front_b: Vec<u64> = ob.iter().take(n).map(|x| x.0).collect();
        if front_b != front_a {
            violate(Class::Pack, format!("{:?}: the two owned storages list the group differently: {:?} and {:?}", g, front_a, front_b));
        }
    }
}

/// every value is in exactly one place
fn ledger_check(when: &str) {
    if bad() {
        return;
    }
    let r = run();
    let live = r.ledger.live();
    let stored: u32 = (0..NT).filter(|t| *t != ZST && *t != PLAIN).map(|t| r.st.cnt[t]).sum::<u32>() + r.st.res.iter().filter(|v| **v != 0).count() as u32;
    let zl = r.ledger.z_made - r.ledger.z_dropped;
    if live != stored as usize || zl != r.st.cnt[ZST] {
        violate(
            Class::Drop,
            format!("{}: {} values (and {} zero-sized) are not destroyed yet but the world stores {} (and {})", when, live, zl, stored, r.st.cnt[ZST]),
        );
    }
}

/// Which situations the history reached, for the evidence.
fn situations(nodes: &[Node], conc: bool) {
    let start = &run().st;
    let (hw, mut seen) = (start.hw as u64, std::collections::HashSet::new());
    let mut hit: Vec<&'static str> = vec![];
    for n in nodes.iter().filter(|n| n.label != "audit") {
        let overlapping = conc && nodes.iter().any(|m| m.who != n.who && m.inv < n.resp && n.inv < m.resp);
        if overlapping {
            hit.push("step_overlapping_another_client");
        }
        match &n.alts[0] {
            Atom::Create { id, .. } if *id <= hw || !seen.insert(*id) => hit.push(if conc { "freed_id_reissued_concurrently" } else { "freed_id_reissued" }),
            Atom::CreateN { n: 0, .. } => hit.push("empty_batch"),
            Atom::CreateN { n, .. } if *n > 20 => hit.push("batch_of_more_than_20"),
            Atom::Set { t, e, .. } if start.cell(*t as usize, *e) != 0 => hit.push("attach_over_present"),
            Atom::Take { got, .. } => hit.push(if *got != 0 { "detach_present" } else { "detach_absent" }),
            Atom::Free(e) if start.groups.iter().any(|g| start.cell(g.1 as usize, *e) != 0 && start.cell(g.2 as usize, *e) != 0) => hit.push("removed_entity_was_in_a_group"),
            Atom::Free(_) => hit.push("removed_entity"),
            Atom::Group(g) => hit.push(match (g.0, start.cnt[g.1 as usize] > 0 && start.cnt[g.2 as usize] > 0) {
                (GKind::Full, true) => "full_owning_made_over_data",
                (GKind::Part, true) => "partial_owning_made_over_data",
                (GKind::Non, true) => "non_owning_made_over_data",
                _ => "group_made_over_empty_storage",
            }),
            Atom::Query(q) => {
                let y = q.ev.iter().filter(|e| matches!(e, QEv::Yield { .. })).count();
                if let (Some(g), true) = (q.groups.first(), y > 0) {
                    hit.push(match g.0 {
                        GKind::Full => "full_owning_query_with_items",
                        GKind::Part => "partial_owning_query_with_items",
                        GKind::Non => "non_owning_query_with_items",
                    });
                } else if y > 0 {
                    hit.push(match q.items.len() {
                        0 | 1 => "query_of_1_with_items",
                        2 => "query_of_2_with_items",
                        3 => "query_of_3_with_items",
                        4 => "query_of_4_with_items",
                        _ => "query_of_5_with_items",
                    });
                } else {
                    hit.push("query_without_items");
                }
                if q.ev.iter().any(|e| matches!(e, QEv::Probe { res: Some(_), .. })) {
                    hit.push("lookup_in_query_hit");
                }
            }
            Atom::Refused(w) => hit.push(match w.first() {
                Some(Why::Dead(_)) => "refused_nonexistent_entity",
                Some(Why::Unreg(_)) => "refused_unregistered",
                Some(Why::AlreadyReg(_)) => "refused_double_registration",
                Some(Why::Conflict(_)) => "refused_group_conflict",
                Some(Why::NoGroup(_)) => "refused_missing_group",
                Some(Why::NoRes(_)) => "absent_resource",
                Some(Why::Always) => "refused_always",
                None => "refused_other",
            }),
            _ => {}
        }
    }
    for h in hit {
        probe(h);
    }
}

/// judge the recorded steps of a sequential stretch
fn settle(nodes: Vec<Node>) {
    if bad() {
        return;
    }
    let mut nodes = nodes;
    expand_lost(&mut nodes);
    situations(&nodes, false);
    let r = run();
    let mut st = std::mem::replace(&mut r.st, St::new());
    match replay_seq(&mut st, &nodes) {
        Verdict::Ok => {}
        Verdict::Unknown => {
            run().lin_unknown += 1;
            run().stop = true;
        }
        Verdict::Bad { classes, explain } => violate_all(classes, explain),
    }
    run().st = st;
}

/// With one client only, a crash inside an attach leaves a cell that can simply be looked at:
/// keep the outcomes that agree with it (the audit that follows still has to confirm them).
fn narrow(cl: &mut Cl<'_>, w: &World) {
    for i in 0..run().nodes.len() {
        let n = &run().nodes[i];
        if n.alts.len() < 2 {
            continue;
        }
        let cell = n.alts.iter().find_map(|a| match a {
            Atom::Set { t, e, .. } | Atom::Clear { t, e } => Some((*t, *e)),
            _ => None,
        });
        let (t, e) = match cell {
            Some(c) if c.1 < 1 << 24 => c,
            _ => continue,
        };
        let now: Val = with_t!(t, T, {
            let l = cl.lib(|| w.components_read::<T>().and_then(|g| g.get(eid(e)).map(|c| c.val())));
            match l.r {
                Ok(v) => v.unwrap_or(0),
                Err(_) => continue,
            }
        });
        let keep: Vec<Atom> = run().nodes[i]
            .alts
            .iter()
            .filter(|a| match a {
                Atom::Set { v, .. } => *v == now,
                Atom::Clear { .. } => now == 0,
                Atom::Nop => now != 0,
                _ => true,
            })
            .cloned()
            .collect();
        if !keep.is_empty() {
            run().nodes[i].alts = keep;
        }
    }
}

fn expand_lost(nodes: &mut [Node]) {
    let top = run().max_id.max(run().st.hw as u64) + run().lost + 1;
    for n in nodes.iter_mut() {
        if let [Atom::Lost(k)] = n.alts[..] {
            n.alts = match k {
                Some(0) => vec![Atom::Nop],
                Some(n) => (1..=top).rev().map(|id| Atom::CreateN { start: id, n, pin: false }).collect(),
                None => (1..=top).rev().map(|id| Atom::Create { id, pin: false }).collect(),
            };
        }
    }
}

fn seq_phase(cl: &mut Cl<'_>, world: &Arc<RwLock<World>>, ops: &[OpX], case: &Case, phase: &str) {
    let mut since = 0;
    for i in 0..ops.len() {
        seq_step(cl, world, ops, i, &mut since, case, phase);
    }
}
fn seq_step(cl: &mut Cl<'_>, world: &Arc<RwLock<World>>, ops: &[OpX], i: usize, since: &mut u32, case: &Case, phase: &str) {
    {
        let o = &ops[i];
        if bad() || run().stop {
            return;
        }
        let p = world.data_ptr();
        let crashed = if is_excl(&o.op) {
            match &o.op {
                Op::Step { ops } => {
                    let mut r = Ok(());
                    for s in ops {
                        r = cl.exec(W::X(unsafe { &mut *p }), s);
                        if r.is_err() {
                            break;
                        }
                    }
                    r.is_err()
                }
                _ => cl.exec(W::X(unsafe { &mut *p }), o).is_err(),
            }
        } else {
            cl.exec(W::S(unsafe { &*p }), o).is_err()
        };
        *since += 1;
        let ambiguous = run().nodes.iter().any(|n| n.alts.len() != 1 || matches!(n.alts[0], Atom::Lost(_)));
        let look = ambiguous || crashed || cl.refused || *since >= case.audit_every || i + 1 == ops.len();
        if !look {
            let nodes = std::mem::take(&mut run().nodes);
            settle(nodes);
            return;
        }
        *since = 0;
        let was_refused = cl.refused;
        if !ambiguous {
            let nodes = std::mem::take(&mut run().nodes);
            settle(nodes);
        }
        let before = run().viols.len();
        if ambiguous {
            narrow(cl, unsafe { &*p });
        }
        audit(cl, unsafe { &*p });
        let nodes = std::mem::take(&mut run().nodes);
        settle(nodes);
        if !run().stop {
            ledger_check(phase);
        }
        if run().viols.len() > before {
            let v = &mut run().viols[before];
            if was_refused {
                v.msg = format!("after a refused call: {}", v.msg);
            }
            if crashed {
                v.msg = format!("after a crash: {}", v.msg);
            }
        }
    }
}

// ------------------------------------------------------------------ systems
struct Sys {
    world: Arc<RwLock<World>>,
    ops: VecDeque<OpX>,
    cl: Cl<'static>,
}
impl futures::Stream for Sys {
    type Item = ();
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<()>> {
        let o = match self.ops.pop_front() {
            Some(o) => o,
            None => return Poll::Ready(None),
        };
        if bad() {
            return Poll::Ready(None);
        }
        let world = System::world(&*self);
        let r = match &o.op {
            Op::Step { ops } => {
                let mut g = world.write();
                trace(|| "exclusive step begins".into());
                let mut res = Ok(());
                for (k, s) in ops.iter().enumerate() {
                    if o.f == Some(Fault::Panic(k as u8 + 1)) {
                        run().fired.step_panics += 1;
                        trace(|| "the step panics here".into());
                        panic_any(Injected);
                    }
                    res = self.cl.exec(W::X(&mut g), s);
                    if res.is_err() {
                        run().fired.step_panics += 1;
                        panic_any(Injected);
                    }
                }
                res
            }
            op if is_excl(op) => {
                let mut g = world.write();
                self.cl.exec(W::X(&mut g), &o)
            }
            _ => {
                let g = world.read();
                let r = self.cl.exec(W::S(&g), &o);
                if r.is_err() {
                    panic_any(Injected);
                }
                r
            }
        };
        if r.is_err() {
            panic_any(Injected);
        }
        Poll::Ready(Some(()))
    }
}
impl System for Sys {
    fn world(&self) -> Arc<RwLock<World>> {
        self.world.clone()
    }
}

fn run_system(world: Arc<RwLock<World>>, ops: Vec<OpX>, shapes: &'static [Shape], who: usize) {
    use futures::Stream;
    let mut rest: VecDeque<OpX> = ops.into();
    let mut own = vec![];
    loop {
        let mut sys = Box::pin(Sys { world: world.clone(), ops: rest.clone(), cl: Cl::new(shapes, who, false) });
        sys.cl.own = own.clone();
        let mut again = false;
        loop {
            if bad() {
                return;
            }
            match sys.ops.front() {
                None => break,
                Some(o) if o.f == Some(Fault::Cancel) => {
                    // drop the system mid-way, then start a new one with what is left
                    run().fired.cancels += 1;
                    trace(|| "system cancelled".into());
                    let mut q = std::mem::take(&mut sys.ops);
                    q.front_mut().unwrap().f = None;
                    rest = q;
                    again = true;
                    break;
                }
                _ => {}
            }
            sim::yield_now();
            let waker = futures::task::noop_waker();
            let mut cx = Context::from_waker(&waker);
            let r = catch_unwind(AssertUnwindSafe(|| sys.as_mut().poll_next(&mut cx)));
            match r {
                Ok(Poll::Ready(Some(()))) => {}
                Ok(_) => break,
                Err(p) if p.is::<Injected>() => {
                    rest = std::mem::take(&mut sys.ops);
                    again = true;
                    break;
                }
                Err(p) => resume_unwind(p),
            }
        }
        own = sys.cl.own.clone();
        if !bad() && sim::held_count() != 0 {
            violate(Class::LeakLock, format!("a system ended holding {:?}", sim::held_by(sim::tid().unwrap())));
        }
        drop(sys);
        if !again {
            break;
        }
    }
}

// ------------------------------------------------------------------ whole run
pub fn quiescent(stalled: &[usize], blocked: &[usize]) {
    if bad() {
        return;
    }
    for side in 0..SIDES {
        if let Some(r) = of(side) {
            let here = |l: &[usize]| l.iter().copied().filter(|t| side_of(*t) == side).collect::<Vec<_>>();
            // who is stuck in the other world in the middle of an operation on this one is
            // as good as stalled here
            let mut st = here(stalled);
            st.extend(stalled.iter().chain(blocked).copied().filter(|t| side_of(*t) != side && r.doing.get(*t).map_or(false, |d| !d.label.is_empty())));
            judge_delays(r, &st, &here(blocked));
        }
    }
}
fn judge_delays(r: &mut Run, stalled: &[usize], blocked: &[usize]) {
    let mut types = 0u8;
    let mut res = 0u8;
    for s in stalled {
        if let Some(h) = r.held.get(*s) {
            types |= h.0;
            res |= h.1;
        }
    }
    let close = |m: u8| group_close(r, m);
    // a delayed query legitimately keeps what it already has
    loop {
        let c = close(types);
        let mut t2 = types;
        for b in blocked {
            let d = &r.doing[*b];
            if d.spreads && d.types & c != 0 {
                t2 |= d.types;
            }
        }
        if t2 == types {
            break;
        }
        types = t2;
    }
    let busy = close(types);
    // shared accesses: delayed only where exclusive access is held or asked for
    let mut hx = stalled.iter().filter_map(|s| r.held_x.get(*s)).fold((0u8, 0u8), |m, h| (m.0 | h.0, m.1 | h.1));
    for b in blocked {
        let d = &r.doing[*b];
        if d.shared {
        } else if d.plain {
            hx.0 |= d.types;
            hx.1 |= d.res;
        } else {
            hx.0 = 0xff;
        }
    }
    let hx = (close(hx.0), hx.1);
    for b in blocked {
        let d = &r.doing[*b];
        if d.plain && d.shared && d.types & hx.0 == 0 && d.res & hx.1 == 0 && (d.types & busy != 0 || d.res & res != 0) {
            violate(Class::Share, format!("thread {} ({}) is delayed although nobody has or asks for exclusive access to what it wants to read\n{}", b, d.label, sim::describe()));
        }
    }
    for b in blocked {
        let d = &r.doing[*b];
        if d.debug {
            violate(Class::DebugBlocks, "formatting the world is stuck behind a held guard".into());
        } else if d.plain {
            r.blocked_judged += 1;
            if d.types & busy == 0 && d.res & res == 0 {
                violate(
                    Class::Blocked,
                    format!("thread {} ({}) is delayed although the stalled threads {:?} hold only component mask {:#b}, resource mask {:#b}\n{}", b, d.label, stalled, busy, res, sim::describe()),
                );
            }
        }
    }
}

/// one world of a run
struct Side<'s> {
    case: &'s Case,
    world: Arc<RwLock<World>>,
    cl: Cl<'static>,
    since: u32,
}
impl<'s> Side<'s> {
    fn new(case: &'s Case, shapes: &'static [Shape]) -> Side<'s> {
        run().outer = case.outer;
        Side { case, world: observed(|| Arc::new(RwLock::new(World::new()))), cl: Cl::new(shapes, 0, true), since: 0 }
    }
    fn step(&mut self, ops: &[OpX], i: usize, phase: &str) {
        if i == 0 {
            self.since = 0;
        }
        DROP_POINTS.with(|c| c.set(self.case.drop_points));
        seq_step(&mut self.cl, &self.world, ops, i, &mut self.since, self.case, phase)
    }
    fn runnable(&self) -> bool {
        !bad() && !run().stop
    }
    /// everything concurrent is over
    fn judge(&mut self) {
        run().conc = false;
        if !bad() {
            find_lost(unsafe { &*self.world.data_ptr() });
        }
        if self.runnable() {
            let nodes = &run().nodes;
            let n = nodes.len();
            run().conc_nodes += n as u64;
            audit(&mut self.cl, unsafe { &*self.world.data_ptr() });
            if !bad() {
                let mut nodes = std::mem::take(&mut run().nodes);
                expand_lost(&mut nodes);
                situations(&nodes, true);
                let mut st = std::mem::replace(&mut run().st, St::new());
                match if self.case.clients.is_empty() { replay_seq(&mut st, &nodes) } else { explain(&mut st, &nodes) } {
                    Verdict::Ok => {}
                    Verdict::Unknown => {
                        run().lin_unknown += 1;
                        run().stop = true;
                    }
                    Verdict::Bad { classes, explain } => violate_all(classes, explain),
                }
                run().st = st;
                if !run().stop {
                    ledger_check("after the concurrent phase");
                }
            }
        }
    }
    fn end(mut self) {
        if bad() {
            std::mem::forget(self.world);
            return;
        }
        let world = self.world;
        let l = self.cl.lib(move || drop(world));
        if let Err(LibErr::Panic(m)) = l.r {
            violate(Class::Panic, format!("dropping the world panicked: {}", m));
        }
        let r = run();
        let left = r.ledger.live();
        if !bad() && (left > 0 || r.ledger.z_made != r.ledger.z_dropped) {
            violate(Class::Drop, format!("{} values and {} zero-sized values were never destroyed", left, r.ledger.z_made - r.ledger.z_dropped));
        }
    }
}

pub fn run_case(case: &Case, shapes: &'static [Shape]) {
    enter(0);
    PEER.with(|p| p.set(std::ptr::null()));
    if let Some(d) = &case.drill {
        return crate::drill::drill(d);
    }
    if let Some(c) = &case.cost {
        return crate::cost::compare(c);
    }
    if !case.cross.is_empty() {
        return crate::cross::cross(&case.cross, case.hash_seed);
    }
    if case.alias {
        return alias(observed(|| Arc::new(RwLock::new(World::new()))));
    }
    if case.escape {
        return escape(observed(|| Arc::new(RwLock::new(World::new()))));
    }
    if let Some(other) = &case.other {
        return run_pair(case, other, shapes);
    }
    run_one(0, case, shapes)
}

fn run_one(at: usize, case: &Case, shapes: &'static [Shape]) {
    enter(at);
    DROP_POINTS.with(|c| c.set(case.drop_points));
    let mut s = Side::new(case, shapes);
    seq_phase(&mut s.cl, &s.world, &case.prefix, case, "before the concurrent phase");
    if !case.clients.is_empty() && s.runnable() {
        run().conc = true;
        run().nodes.clear();
        for (i, ops) in case.clients.iter().enumerate() {
            let ops = ops.clone();
            let world = s.world.clone();
            let outer = case.outer;
            let dp = case.drop_points;
            sim::spawn_any(&format!("client {}", i), move || {
                enter(at);
                PEER.with(|p| p.set(std::ptr::null()));
                DROP_POINTS.with(|c| c.set(dp));
                if outer {
                    run_system(world, ops, shapes, i + 1);
                } else {
                    let p = world.data_ptr();
                    let mut cl = Cl::new(shapes, i + 1, false);
                    for o in &ops {
                        if bad() {
                            return;
                        }
                        let _ = cl.exec(W::S(unsafe { &*p }), o);
                        sim::yield_now();
                    }
                }
            });
        }
        let stray = sim::join_all();
        for (t, m) in stray {
            violate(Class::Panic, format!("thread {} died: {}", t, m));
        }
        s.judge();
    }
    s.cl.seq = true;
    seq_phase(&mut s.cl, &s.world, &case.suffix, case, "after the run");
    s.end();
}

/// Two worlds used by the same threads; each is judged as if it were alone.
fn run_pair(case: &Case, other: &Case, shapes: &'static [Shape]) {
    if case.hash_seed & 0x30 == 0 {
        // one after the other: nothing of the first may be left behind
        run_one(0, case, shapes);
        if !bad() {
            run_one(1, other, shapes);
        }
        return;
    }
    let cases = [case, other];
    let mut rng = sim::Rng::new(case.hash_seed ^ 0x0DD5_1DE5);
    let mut s: Vec<Side> = vec![];
    for i in 0..2 {
        enter(i);
        s.push(Side::new(cases[i], shapes));
    }
    PEER.with(|p| p.set(s[1].world.data_ptr()));
    let mut mixed = |s: &mut Vec<Side>, suffix: bool, phase: &str| {
        let mut at = [0, 0];
        loop {
            let left: Vec<usize> = (0..2).filter(|i| at[*i] < if suffix { cases[*i].suffix.len() } else { cases[*i].prefix.len() }).collect();
            if left.is_empty() {
                break;
            }
            let i = left[rng.below(left.len() as u64) as usize];
            enter(i);
            let c = cases[i];
            s[i].step(if suffix { &c.suffix } else { &c.prefix }, at[i], phase);
            at[i] += 1;
        }
    };
    mixed(&mut s, false, "before the concurrent phase");
    let n = case.clients.len().max(other.clients.len());
    let fit = |i: usize| {
        enter(i);
        !bad() && !run().stop
    };
    let go: Vec<bool> = (0..2).map(fit).collect();
    if n > 0 && !bad() {
        for i in 0..2 {
            enter(i);
            run().conc = true;
            run().nodes.clear();
        }
        for k in 0..n {
            let mut q: Vec<VecDeque<OpX>> = (0..2).map(|i| if go[i] { cases[i].clients.get(k).cloned().unwrap_or_default().into() } else { VecDeque::new() }).collect();
            let worlds: Vec<_> = s.iter().map(|s| s.world.clone()).collect();
            let dp = [case.drop_points, other.drop_points];
            let go1 = go[1];
            let mut rng = sim::Rng::new(case.hash_seed ^ 77 ^ k as u64);
            sim::spawn_any(&format!("client {}", k), move || {
                PEER.with(|p| p.set(if go1 { worlds[1].data_ptr() } else { std::ptr::null() }));
                let mut cl = vec![];
                for i in 0..2 {
                    enter(i);
                    cl.push(Cl::new(shapes, k + 1, false));
                }
                while !q[0].is_empty() || !q[1].is_empty() {
                    let i = if q[0].is_empty() { 1 } else if q[1].is_empty() { 0 } else { rng.below(2) as usize };
                    enter(i);
                    DROP_POINTS.with(|c| c.set(dp[i]));
                    let o = q[i].pop_front().unwrap();
                    if bad() {
                        return;
                    }
                    let p = worlds[i].data_ptr();
                    let _ = cl[i].exec(W::S(unsafe { &*p }), &o);
                    sim::yield_now();
                }
            });
        }
        enter(0);
        for (t, m) in sim::join_all() {
            violate(Class::Panic, format!("thread {} died: {}", t, m));
        }
        for i in 0..2 {
            if go[i] {
                enter(i);
                s[i].judge();
            }
        }
    }
    s[0].cl.seq = true;
    s[1].cl.seq = true;
    if case.hash_seed & 2 == 0 {
        mixed(&mut s, true, "after the run");
        PEER.with(|p| p.set(std::ptr::null()));
        let b = s.pop().unwrap();
        enter(0);
        s.pop().unwrap().end();
        enter(1);
        b.end();
    } else {
        // one world ends before the other goes on
        PEER.with(|p| p.set(std::ptr::null()));
        let k = (case.hash_seed >> 2 & 1) as usize;
        for i in [k, 1 - k] {
            enter(i);
            let mut x = s.remove(if s.len() == 2 { i } else { 0 });
            let ops = &x.case.suffix;
            for j in 0..ops.len() {
                x.step(ops, j, "after the run");
            }
            x.end();
        }
    }
}

/// The recorded finding about C09: what a query yields can outlive the query.
/// exclusive access handed out twice by one query
fn alias(world: Arc<RwLock<World>>) {
    use xecs::query::QueryIterator;
    let w: &'static World = unsafe { &*world.data_ptr() };
    unsafe { &mut *world.data_ptr() }.register::<CA>();
    let id = w.create_entity().attach(CA::make()).into_id();
    {
        let mut q = w.query::<&mut CA>();
        let a: Option<&mut CA> = q.from_id(id);
        let b: Option<&mut CA> = q.from_id(id);
        if let (Some(a), Some(b)) = (a, b) {
            let (a, b) = (a as *mut CA, b as *mut CA);
            if a == b {
                violate(Class::Escape, "a query of &mut handed out two live exclusive references to the same value".into());
            }
        }
    }
    drop(world);
}
fn escape(world: Arc<RwLock<World>>) {
    let p = world.data_ptr();
    let w: &'static World = unsafe { &*p };
    unsafe { &mut *p }.register::<CA>();
    let id = w.create_entity().attach(CA::make()).into_id();
    sim::spawn_any("reader", move || {
        let r: &CA = w.query::<&CA>().next().unwrap();
        let before = std::hint::black_box(r).val();
        sim::stall();
        let after = std::hint::black_box(r).val();
        if before != after {
            violate(Class::Escape, format!("a reference obtained from a query still lives after the query ended, and its value went from {:#x} to {:#x} when another thread wrote the component", before, after));
        }
    });
    sim::spawn_any("writer", move || {
        let mut g = w.entity_component_write::<CA>(id).unwrap();
        g.bump();
    });
    sim::join_all();
    drop(world);
}

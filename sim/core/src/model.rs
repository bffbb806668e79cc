//! The reference model: what a world is, as plain data, and what each operation may do
//! to it in one step. Also the linearizability search over recorded operations.
use crate::comps::{uid_of, Val, NR, NT};
use crate::run::Class;
use crate::pat::PatD;
use parking_lot::sim::mix;
use std::collections::HashSet;

pub type Id = u32;
#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize, Hash)]
pub enum GKind {
    Full,
    Part,
    Non,
}
pub type GKey = (GKind, u8, u8);
pub fn owned(g: &GKey) -> u8 {
    match g.0 {
        GKind::Full => 1 << g.1 | 1 << g.2,
        GKind::Part => 1 << g.1,
        GKind::Non => 0,
    }
}

#[derive(Clone, Debug)]
pub struct St {
    pub hw: Id,
    pub issued: Vec<bool>,
    pub alive: Vec<bool>,
    pub pins: Vec<u8>,
    pub pits: u32,
    pub cells: [Vec<Val>; NT],
    pub cnt: [u32; NT],
    pub sum: [u64; NT],
    pub reg: u8,
    pub groups: Vec<GKey>,
    pub res: [Val; NR],
    pub hash: u64,
}

fn z(tag: u64, a: u64, b: u64) -> u64 {
    mix(mix(tag.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ a).wrapping_add(b))
}
pub fn vsum(v: Val) -> u64 {
    mix(v)
}

impl St {
    pub fn new() -> St {
        St {
            hw: 0,
            issued: vec![false],
            alive: vec![false],
            pins: vec![0],
            pits: 0,
            cells: Default::default(),
            cnt: [0; NT],
            sum: [0; NT],
            reg: 0,
            groups: vec![],
            res: [0; NR],
            hash: 0,
        }
    }
    fn grow(&mut self, id: Id) {
        let n = id as usize + 1;
        if self.issued.len() < n {
            self.issued.resize(n, false);
            self.alive.resize(n, false);
            self.pins.resize(n, 0);
            for c in self.cells.iter_mut() {
                c.resize(n, 0);
            }
        }
    }
    pub fn alive(&self, id: u64) -> bool {
        (id as usize) < self.alive.len() && self.alive[id as usize]
    }
    pub fn cell(&self, t: usize, id: u64) -> Val {
        if (id as usize) < self.cells[t].len() {
            self.cells[t][id as usize]
        } else {
            0
        }
    }
    pub fn registered(&self, t: usize) -> bool {
        self.reg >> t & 1 == 1
    }
    pub fn set(&mut self, t: usize, id: Id, v: Val) {
        self.grow(id);
        let old = self.cells[t][id as usize];
        if old == v {
            return;
        }
        if old != 0 {
            self.cnt[t] -= 1;
            self.sum[t] = self.sum[t].wrapping_sub(vsum(old));
            self.hash ^= z(t as u64 + 10, id as u64, old);
        }
        if v != 0 {
            self.cnt[t] += 1;
            self.sum[t] = self.sum[t].wrapping_add(vsum(v));
            self.hash ^= z(t as u64 + 10, id as u64, v);
        }
        self.cells[t][id as usize] = v;
    }
    fn bare(&self, id: u64) -> bool {
        (0..NT).all(|t| self.cell(t, id) == 0)
    }
    fn raise(&mut self, id: Id) {
        self.grow(id);
        if self.issued[id as usize] {
            self.pits -= 1;
        }
        self.issued[id as usize] = true;
        self.alive[id as usize] = true;
        self.hw = self.hw.max(id);
        self.hash ^= z(1, id as u64, 0);
        self.hash ^= z(4, self.issued.len() as u64, 0);
    }
    fn free(&mut self, id: Id) {
        self.alive[id as usize] = false;
        self.pits += 1;
        self.hash ^= z(1, id as u64, 0);
    }
    fn pin(&mut self, id: Id, d: i32) {
        let p = &mut self.pins[id as usize];
        self.hash ^= z(2, id as u64, *p as u64);
        *p = (*p as i32 + d) as u8;
        self.hash ^= z(2, id as u64, *p as u64);
    }
    fn set_res(&mut self, r: usize, v: Val) {
        self.hash ^= z(3, r as u64, self.res[r]) ^ z(3, r as u64, v);
        self.res[r] = v;
    }
    pub fn group_conflict(&self, g: &GKey) -> bool {
        self.groups.iter().any(|h| h == g || owned(h) & owned(g) != 0)
    }
    pub fn live_ids(&self) -> impl Iterator<Item = Id> + '_ {
        self.alive.iter().enumerate().filter(|(_, a)| **a).map(|(i, _)| i as Id)
    }
    fn find(&self, t: usize, v: Val) -> Option<Id> {
        self.cells[t].iter().position(|c| *c == v).map(|i| i as Id)
    }
}

#[derive(Clone, Debug)]
pub enum Why {
    Dead(u64),
    Unreg(u8),
    AlreadyReg(u8),
    Conflict(GKey),
    NoGroup(GKey),
    NoRes(u8),
    Always,
}
impl Why {
    fn holds(&self, s: &St) -> bool {
        match self {
            Why::Dead(e) => !s.alive(*e),
            Why::Unreg(t) => !s.registered(*t as usize),
            Why::AlreadyReg(t) => s.registered(*t as usize),
            Why::Conflict(g) => s.group_conflict(g),
            Why::NoGroup(g) => !s.groups.contains(g),
            Why::NoRes(r) => s.res[*r as usize] == 0,
            Why::Always => true,
        }
    }
}

#[derive(Clone, Debug)]
pub enum QEv {
    Yield { id: Option<u64>, vals: Vec<Val>, after: Vec<Val> },
    Probe { id: u64, res: Option<(Vec<Val>, Vec<Val>)> },
    Hint { lo: usize, hi: Option<usize> },
    /// items skipped by nth before the next yield
    Skip(usize),
    /// next returned None; up to `slack` items may have been consumed by the failing nth
    End { slack: usize },
}
#[derive(Clone, Debug)]
pub struct QObs {
    pub pat: PatD,
    pub items: Vec<u8>,
    pub locks: Vec<u8>,
    pub groups: Vec<GKey>,
    pub ev: Vec<QEv>,
}

#[derive(Clone, Debug)]
pub struct StoObs {
    pub t: u8,
    pub count: usize,
    pub empty: bool,
    pub data: Option<(usize, u64)>,
    pub probes: Vec<(u64, bool, Option<Val>)>,
    /// (old, new) values written, in order
    pub edits: Vec<(Val, Val)>,
}

#[derive(Clone, Debug)]
pub enum Atom {
    Create { id: u64, pin: bool },
    CreateN { start: u64, n: u64, pin: bool },
    /// creation of one entity, or of a batch, whose ids the caller never learned
    Lost(Option<u64>),
    Pin(u64),
    Unpin(u64),
    UnpinN(u64, u64),
    Alive(u64, bool),
    Set { t: u8, e: u64, v: Val },
    /// crash inside an attach: the cell ended empty
    Clear { t: u8, e: u64 },
    Take { t: u8, e: u64, got: Val },
    Is { t: u8, e: u64, got: Val },
    Rmw { t: u8, e: u64, old: Val, new: Val },
    Sto(Box<StoObs>),
    Query(Box<QObs>),
    Del { t: u8, e: u64 },
    Free(u64),
    Register(u8),
    HasReg(u8, bool),
    Group(GKey),
    ResSet { r: u8, v: Val },
    ResIs { r: u8, got: Val },
    ResRmw { r: u8, old: Val, new: Val },
    Refused(Vec<Why>),
    Nop,
}

fn small(id: u64) -> bool {
    id >= 1 && id < 1 << 24
}

impl Atom {
    /// classes of violation to blame when this observation cannot be explained
    pub fn classes(&self) -> &'static [Class] {
        use Class::*;
        match self {
            Atom::Create { .. } => &[Id],
            Atom::CreateN { .. } => &[Range],
            Atom::Lost(_) => &[Id],
            Atom::Pin(_) | Atom::Unpin(_) | Atom::UnpinN(..) => &[Pin],
            Atom::Alive(..) => &[Id],
            Atom::Set { .. } | Atom::Clear { .. } => &[Cellv],
            Atom::Take { .. } | Atom::Is { .. } | Atom::Rmw { .. } | Atom::Sto(_) => &[Cellv],
            Atom::Query(q) => {
                if q.groups.is_empty() {
                    &[Query]
                } else {
                    &[Group]
                }
            }
            Atom::Del { .. } | Atom::Free(_) => &[Removal],
            Atom::Register(_) | Atom::HasReg(..) => &[Reg],
            Atom::Group(_) => &[MakeGroup],
            Atom::ResSet { .. } | Atom::ResIs { .. } | Atom::ResRmw { .. } => &[Res],
            // refused although there was no reason: also a matter of what it was refused for
            Atom::Refused(w) => {
                let has = |f: &dyn Fn(&Why) -> bool| w.iter().any(f);
                if has(&|w| matches!(w, Why::Conflict(_))) {
                    &[Refusal, MakeGroup]
                } else if has(&|w| matches!(w, Why::NoGroup(_))) {
                    &[Refusal, Group]
                } else if has(&|w| matches!(w, Why::Dead(_))) {
                    &[Refusal, Id]
                } else if has(&|w| matches!(w, Why::NoRes(_))) {
                    &[Refusal, Res]
                } else {
                    &[Refusal, Reg]
                }
            }
            Atom::Nop => &[],
        }
    }
    /// the library did this although it is documented to refuse it in this state
    pub fn should_be_refused(&self, s: &St) -> bool {
        match self {
            Atom::Set { t, e, .. } | Atom::Clear { t, e } | Atom::Take { t, e, .. } => !s.alive(*e) || !s.registered(*t as usize),
            Atom::Pin(e) | Atom::Free(e) => !s.alive(*e),
            Atom::Register(t) => s.registered(*t as usize),
            Atom::Group(g) => g.1 == g.2 || s.group_conflict(g) || !s.registered(g.1 as usize) || !s.registered(g.2 as usize),
            Atom::Query(q) => q.locks.iter().any(|t| !s.registered(*t as usize)) || q.groups.iter().any(|g| !s.groups.contains(g)),
            Atom::ResRmw { r, .. } => s.res[*r as usize] == 0,
            _ => false,
        }
    }
    pub fn read_only(&self) -> bool {
        match self {
            Atom::Alive(..) | Atom::Is { .. } | Atom::HasReg(..) | Atom::ResIs { .. } | Atom::Refused(_) | Atom::Nop => true,
            // releasing only relaxes what others may do
            Atom::Unpin(_) | Atom::UnpinN(..) => true,
            Atom::Sto(s) => s.edits.is_empty(),
            Atom::Query(q) => q.ev.iter().all(|e| match e {
                QEv::Yield { vals, after, .. } => vals == after,
                QEv::Probe { res: Some((v, a)), .. } => v == a,
                _ => true,
            }),
            _ => false,
        }
    }
    /// entities mentioned, for explaining
    pub fn describe(&self) -> String {
        format!("{:?}", self)
    }

    /// Apply to `s`; false (and `s` unspecified) if the step is not possible there.
    pub fn apply(&self, s: &mut St) -> bool {
        match self {
            Atom::Create { id, pin } => {
                if !small(*id) || s.alive(*id) {
                    return false;
                }
                let i = *id as Id;
                s.grow(i);
                if s.pits > 0 {
                    if !s.issued[i as usize] {
                        return false;
                    }
                } else if i != s.hw + 1 {
                    return false;
                }
                if !s.bare(*id) {
                    return false;
                }
                s.raise(i);
                if *pin {
                    s.pin(i, 1);
                }
                true
            }
            Atom::CreateN { start, n, pin } => {
                if !small(*start) || (*n > 0 && !small(start + n - 1)) {
                    return false;
                }
                for id in *start..start + n {
                    if s.alive(id) || !s.bare(id) {
                        return false;
                    }
                    s.grow(id as Id);
                    s.raise(id as Id);
                    if *pin {
                        s.pin(id as Id, 1);
                    }
                }
                true
            }
            Atom::Pin(e) => {
                if !s.alive(*e) {
                    return false;
                }
                s.pin(*e as Id, 1);
                true
            }
            Atom::Unpin(e) => {
                s.pin(*e as Id, -1);
                true
            }
            Atom::UnpinN(a, n) => {
                for e in *a..a + n {
                    s.pin(e as Id, -1);
                }
                true
            }
            Atom::Alive(e, x) => s.alive(*e) == *x,
            Atom::Set { t, e, v } => {
                if !s.alive(*e) || !s.registered(*t as usize) {
                    return false;
                }
                s.set(*t as usize, *e as Id, *v);
                true
            }
            Atom::Clear { t, e } => {
                if !s.alive(*e) {
                    return false;
                }
                s.set(*t as usize, *e as Id, 0);
                true
            }
            Atom::Take { t, e, got } => {
                if !s.alive(*e) || !s.registered(*t as usize) || s.cell(*t as usize, *e) != *got {
                    return false;
                }
                s.set(*t as usize, *e as Id, 0);
                true
            }
            Atom::Is { t, e, got } => s.cell(*t as usize, *e) == *got,
            Atom::Rmw { t, e, old, new } => {
                if s.cell(*t as usize, *e) != *old {
                    return false;
                }
                s.set(*t as usize, *e as Id, *new);
                true
            }
            Atom::Sto(o) => {
                let t = o.t as usize;
                if !s.registered(t) || s.cnt[t] as usize != o.count || o.empty != (s.cnt[t] == 0) {
                    return false;
                }
                if let Some((n, h)) = o.data {
                    if n != s.cnt[t] as usize || h != s.sum[t] {
                        return false;
                    }
                }
                for (e, ex, v) in &o.probes {
                    let c = s.cell(t, *e);
                    if *ex != (c != 0) || v.unwrap_or(0) != c {
                        return false;
                    }
                }
                for (old, new) in &o.edits {
                    match s.find(t, *old) {
                        Some(i) => s.set(t, i, *new),
                        None => return false,
                    }
                }
                true
            }
            Atom::Query(q) => apply_query(q, s),
            Atom::Del { t, e } => {
                if (*e as usize) < s.pins.len() && s.pins[*e as usize] > 0 {
                    return false;
                }
                if s.cell(*t as usize, *e) != 0 {
                    s.set(*t as usize, *e as Id, 0);
                }
                true
            }
            Atom::Free(e) => {
                if !s.alive(*e) || s.pins[*e as usize] > 0 || !s.bare(*e) {
                    return false;
                }
                s.free(*e as Id);
                true
            }
            Atom::Register(t) => {
                if s.registered(*t as usize) {
                    return false;
                }
                s.reg |= 1 << t;
                s.hash ^= z(5, *t as u64, 0);
                true
            }
            Atom::HasReg(t, x) => s.registered(*t as usize) == *x,
            Atom::Group(g) => {
                if g.1 == g.2 || s.group_conflict(g) || !s.registered(g.1 as usize) || !s.registered(g.2 as usize) {
                    return false;
                }
                s.groups.push(*g);
                s.hash ^= z(6, (g.0 as u64) << 16 | (g.1 as u64) << 8 | g.2 as u64, 0);
                true
            }
            Atom::ResSet { r, v } => {
                s.set_res(*r as usize, *v);
                true
            }
            Atom::ResIs { r, got } => s.res[*r as usize] == *got,
            Atom::ResRmw { r, old, new } => {
                if s.res[*r as usize] != *old {
                    return false;
                }
                s.set_res(*r as usize, *new);
                true
            }
            Atom::Refused(w) => w.iter().any(|w| w.holds(s)),
            Atom::Nop => true,
            Atom::Lost(_) => false,
        }
    }
}

fn apply_query(q: &QObs, s: &mut St) -> bool {
    for t in &q.locks {
        if !s.registered(*t as usize) {
            return false;
        }
    }
    for g in &q.groups {
        if !s.groups.contains(g) {
            return false;
        }
    }
    let match_ids: Vec<Id> = (1..=s.hw.max(s.cells[0].len() as u32)).filter(|i| q.pat.matches(s, *i as u64)).collect();
    let total = match_ids.len();
    let same = |s: &St, id: Id, vals: &[Val]| {
        vals.len() == q.items.len() && q.items.iter().zip(vals).all(|(t, v)| s.cell(*t as usize, id as u64) == *v)
    };
    // id lookup for id-less yields: by the first item that carries an identity
    let mut by_uid: Option<std::collections::HashMap<u64, Id>> = None;
    let lead = q.items.iter().position(|t| *t as usize != crate::comps::ZST);
    let mut seen: HashSet<Id> = HashSet::new();
    let mut consumed = 0usize;
    let mut free = 0;
    for e in &q.ev {
        match e {
            QEv::Yield { id, vals, after } => {
                let i = match id {
                    Some(i) if small(*i) => *i as Id,
                    Some(_) => return false,
                    None => match lead {
                        Some(l) if vals.len() > l => {
                            let m = by_uid.get_or_insert_with(|| {
                                match_ids.iter().map(|i| (uid_of(s.cell(q.items[l] as usize, *i as u64)) as u64, *i)).collect()
                            });
                            match m.get(&(uid_of(vals[l]) as u64)) {
                                Some(i) => *i,
                                None => return false,
                            }
                        }
                        _ => {
                            // anonymous and without identity: any one not seen yet
                            while free < total && seen.contains(&match_ids[free]) {
                                free += 1;
                            }
                            match match_ids.get(free) {
                                Some(i) => *i,
                                None => return false,
                            }
                        }
                    },
                };
                if !q.pat.matches(s, i as u64) || !seen.insert(i) || !same(s, i, vals) {
                    return false;
                }
                for (k, t) in q.items.iter().enumerate() {
                    if after[k] != vals[k] {
                        s.set(*t as usize, i, after[k]);
                    }
                }
                consumed += 1;
            }
            QEv::Probe { id, res } => {
                let m = q.pat.matches(s, *id);
                match res {
                    None => {
                        if m {
                            return false;
                        }
                    }
                    Some((vals, after)) => {
                        if !m || !same(s, *id as Id, vals) {
                            return false;
                        }
                        for (k, t) in q.items.iter().enumerate() {
                            if after[k] != vals[k] {
                                s.set(*t as usize, *id as Id, after[k]);
                            }
                        }
                    }
                }
            }
            QEv::Hint { lo, hi } => {
                if consumed > total {
                    return false;
                }
                let rem = total - consumed;
                if *lo > rem || hi.map(|h| h < rem).unwrap_or(false) {
                    return false;
                }
            }
            QEv::Skip(k) => {
                consumed += k;
                if consumed > total {
                    return false;
                }
            }
            QEv::End { slack } => {
                if consumed > total || total - consumed > *slack {
                    return false;
                }
            }
        }
    }
    consumed <= total
}

// ------------------------------------------------------------------ histories
#[derive(Clone, Debug)]
pub struct Node {
    pub inv: u64,
    pub resp: u64,
    pub after: Vec<usize>,
    /// tried in this order first (only to make the search short)
    pub soft: Option<usize>,
    /// any one of these
    pub alts: Vec<Atom>,
    pub label: String,
    /// thread
    pub who: usize,
}

pub enum Verdict {
    Ok,
    Bad { classes: Vec<Class>, explain: String },
    Unknown,
}

pub struct Search<'a> {
    nodes: &'a [Node],
    relax: Option<Class>,
    memo: HashSet<(u64, u64)>,
    budget: u64,
    soft: bool,
    out: Option<St>,
    best: (usize, Vec<bool>),
    pub states: u64,
}

impl<'a> Search<'a> {
    fn relaxed(&self, a: &Atom) -> bool {
        match self.relax {
            None => false,
            Some(c) => a.classes().contains(&c),
        }
    }
    fn enabled(&self, done: &[bool], i: usize, horizon: u64) -> bool {
        !done[i] && self.nodes[i].inv <= horizon && self.nodes[i].after.iter().all(|p| done[*p]) && !(self.soft && self.nodes[i].soft.map_or(false, |p| !done[p]))
    }
    /// smallest response among pending nodes: anything invoked later must wait
    fn horizon(&self, done: &[bool]) -> u64 {
        let mut h = u64::MAX;
        for (i, n) in self.nodes.iter().enumerate() {
            if !done[i] && n.resp < h {
                h = n.resp;
            }
        }
        h
    }
    /// depth first over the orders real time allows; a state seen with the same steps done is not
    /// tried again. None: the budget ran out before an answer.
    fn go(&mut self, st: St, n: usize) -> Option<bool> {
        let mut stack: Vec<Frame> = vec![];
        let mut next = Some((st, vec![false; n], 0u64, 0usize));
        loop {
            if let Some((mut st, mut done, mut dh, mut ndone)) = next.take() {
                if self.budget == 0 {
                    return None;
                }
                self.budget -= 1;
                self.states += 1;
                parking_lot::sim::beat();
                // observations that hold now can be placed now
                let mut progressed = true;
                while progressed {
                    progressed = false;
                    parking_lot::sim::beat();
                    let h = self.horizon(&done);
                    for i in 0..self.nodes.len() {
                        if !self.enabled(&done, i, h) {
                            continue;
                        }
                        let n = &self.nodes[i];
                        if !n.alts.iter().all(|a| a.read_only()) {
                            continue;
                        }
                        // read-only steps leave the state alone, releases change it and never fail
                        if n.alts.iter().any(|a| a.apply(&mut st) || self.relaxed(a)) {
                            done[i] = true;
                            dh ^= z(9, i as u64, 1);
                            ndone += 1;
                            progressed = true;
                        }
                    }
                }
                if ndone > self.best.0 {
                    self.best = (ndone, done.clone());
                }
                if ndone == self.nodes.len() {
                    self.out = Some(st);
                    return Some(true);
                }
                if self.memo.insert((dh, st.hash)) {
                    let h = self.horizon(&done);
                    let mut cand: Vec<usize> = (0..self.nodes.len()).filter(|i| self.enabled(&done, *i, h)).collect();
                    cand.sort_by_key(|i| std::cmp::Reverse((self.nodes[*i].resp, *i)));
                    stack.push(Frame { st, done, dh, ndone, cand, alt: 0 });
                }
            }
            // the next successor of the innermost state that has one left
            let mut f = match stack.pop() {
                Some(f) => f,
                None => return Some(false),
            };
            while let Some(&i) = f.cand.last() {
                let alts = &self.nodes[i].alts;
                if f.alt >= alts.len() {
                    f.cand.pop();
                    f.alt = 0;
                    continue;
                }
                let a = &alts[f.alt];
                f.alt += 1;
                let mut s2 = f.st.clone();
                if !a.apply(&mut s2) {
                    if !self.relaxed(a) {
                        continue;
                    }
                    s2 = f.st.clone();
                    force(a, &mut s2);
                }
                let mut d2 = f.done.clone();
                d2[i] = true;
                next = Some((s2, d2, f.dh ^ z(9, i as u64, 1), f.ndone + 1));
                break;
            }
            if f.alt < f.cand.last().map_or(0, |i| self.nodes[*i].alts.len()) || f.cand.len() > 1 {
                stack.push(f);
            }
        }
    }
}

struct Frame {
    st: St,
    done: Vec<bool>,
    dh: u64,
    ndone: usize,
    cand: Vec<usize>,
    alt: usize,
}

/// what a relaxed (disbelieved) step does to the state
fn force(a: &Atom, s: &mut St) {
    match a {
        Atom::Set { t, e, v } if small(*e) => s.set(*t as usize, *e as Id, *v),
        Atom::Take { t, e, .. } if small(*e) => s.set(*t as usize, *e as Id, 0),
        Atom::Rmw { t, e, new, .. } if small(*e) => s.set(*t as usize, *e as Id, *new),
        Atom::Create { id, pin } if small(*id) => {
            s.grow(*id as Id);
            if !s.alive(*id) {
                s.raise(*id as Id);
            }
            if *pin {
                s.pin(*id as Id, 1);
            }
        }
        Atom::CreateN { start, n, pin } if small(*start) && small(*start + *n) => {
            for id in *start..start + n {
                s.grow(id as Id);
                if !s.alive(id) {
                    s.raise(id as Id);
                }
                if *pin {
                    s.pin(id as Id, 1);
                }
            }
        }
        Atom::Free(e) => {
            if s.alive(*e) {
                for t in 0..NT {
                    s.set(t, *e as Id, 0);
                }
                s.free(*e as Id);
            }
        }
        Atom::Pin(e) if small(*e) => {
            s.grow(*e as Id);
            s.pin(*e as Id, 1);
        }
        Atom::Group(g) => {
            if !s.groups.contains(g) {
                s.groups.push(*g);
            }
        }
        Atom::ResRmw { r, new, .. } => s.set_res(*r as usize, *new),
        _ => {}
    }
}


fn run_search(st: &St, nodes: &[Node], relax: Option<Class>, budget: u64, soft: bool) -> (Option<bool>, Option<St>, (usize, Vec<bool>), u64) {
    let mut s = Search {
        nodes,
        relax,
        memo: HashSet::new(),
        budget,
        soft,
        out: None,
        best: (0, vec![false; nodes.len()]),
        states: 0,
    };
    let r = s.go(st.clone(), nodes.len());
    (r, s.out, s.best, s.states)
}

/// Steps known to have happened one after another.
pub fn replay_seq(st: &mut St, nodes: &[Node]) -> Verdict {
    if nodes.iter().any(|n| n.alts.len() != 1) {
        return explain(st, nodes);
    }
    for n in nodes {
        parking_lot::sim::beat();
        let should = n.alts[0].should_be_refused(st);
        if !n.alts[0].apply(st) {
            let mut classes = n.alts[0].classes().to_vec();
            if should {
                classes.push(Class::Accepted);
            }
            return Verdict::Bad {
                classes,
                explain: format!("{} cannot happen here{}: {}", n.label, if should { ", it has to be refused" } else { "" }, n.alts[0].describe()),
            };
        }
    }
    Verdict::Ok
}

/// Is there an order of the recorded steps, consistent with real time, that the model allows?
pub fn explain(st: &mut St, nodes: &[Node]) -> Verdict {
    const BUDGET: u64 = 60_000;
    let (mut r, mut out, best, states) = run_search(st, nodes, None, BUDGET, true);
    crate::run::run().lin_states += states;
    let soft = nodes.iter().any(|n| n.soft.is_some());
    if r != Some(true) && soft {
        let x = run_search(st, nodes, None, BUDGET, false);
        crate::run::run().lin_states += x.3;
        r = x.0;
        out = x.1;
    }
    match r {
        Some(true) => {
            *st = out.unwrap();
            Verdict::Ok
        }
        None => Verdict::Unknown,
        Some(false) => {
            let mut classes = vec![];
            let mut all: Vec<Class> = vec![];
            for n in nodes {
                for a in &n.alts {
                    for c in a.classes() {
                        if !all.contains(c) {
                            all.push(*c);
                        }
                    }
                }
            }
            for c in &all {
                if let (Some(true), ..) = run_search(st, nodes, Some(*c), 20_000, true) {
                    classes.push(*c);
                }
            }
            if classes.is_empty() {
                classes = all;
            }
            let stuck: Vec<String> = nodes
                .iter()
                .enumerate()
                .filter(|(i, _)| !best.1[*i])
                .take(4)
                .map(|(_, n)| format!("[thread {}] {} {:?}", n.who, n.label, n.alts))
                .collect();
            Verdict::Bad {
                classes,
                explain: format!(
                    "no order of the concurrent operations explains what they returned; {} of {} steps could be placed, then none of: {}",
                    best.0,
                    nodes.len(),
                    stuck.join(" | ")
                ),
            }
        }
    }
}

//! A run as data (what a replay file holds) and the seeded generator of runs.
use crate::comps::{NR, NT};
use crate::model::{GKey, GKind};
use crate::pat::{PatD, PAIRS};
use parking_lot::sim::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ent {
    /// this id
    L(u32),
    /// the k-th id this client created (or id 1)
    Own(u8),
    /// ids far outside anything issued
    Big(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Attach(u8),
    Detach(u8),
    Read(u8),
    Write(u8),
    Pause,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Drop,
    IntoId,
    ManualDrop,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum QMode {
    Next,
    NextWithId,
    WithId,
    FromId,
    Mixed,
    Nth(u8),
    Count,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Register { t: u8 },
    MakeGroup { g: GKey },
    RegRes { r: u8 },
    /// component types nobody else uses: register some, and give some to entities
    Crowd { from: u16, to: u16, res: bool, groups: bool, salt: u64 },
    Create { att: Vec<u8>, acts: Vec<Act>, end: End },
    /// (component, difference between list length and batch size)
    CreateN { n: u32, att: Vec<(u8, i8)> },
    Attach { t: u8, e: Ent },
    Detach { t: u8, e: Ent },
    Remove { e: Ent },
    Exist { e: Ent },
    HasReg { t: u8 },
    Handle { e: Ent, acts: Vec<Act>, end: End },
    CompR { t: u8, e: Ent },
    CompW { t: u8, e: Ent, n: u8 },
    StoR { t: u8, probes: Vec<Ent> },
    StoW { t: u8, probes: Vec<Ent>, slice: u8 },
    Query { s: u16, mode: QMode, probes: Vec<Ent>, limit: u32 },
    ResR { r: u8, fmt: bool },
    ResW { r: u8, n: u8, fmt: bool },
    Debug,
    /// several operations in one exclusive step
    Step { ops: Vec<OpX> },
    /// create entities until every freed id is back in use, and one more
    Drain,
}
pub fn is_excl(op: &Op) -> bool {
    matches!(op, Op::Register { .. } | Op::MakeGroup { .. } | Op::RegRes { .. } | Op::Step { .. } | Op::Crowd { .. })
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// the client panics at its k-th point inside the operation
    Panic(u8),
    /// the k-th destructor the library runs in this operation panics
    DropPanic(u8),
    /// the client stalls at its k-th point inside the operation
    Stall(u8),
    /// the conversion of the batch list panics
    ConvPanic,
    /// the system running this is cancelled before this step
    Cancel,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OpX {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub f: Option<Fault>,
    /// done in the middle of this operation, by the same thread, while it holds what it holds
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub n: Option<Box<Nest>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Nest {
    /// on the second world
    pub other: bool,
    /// at this point of the outer operation
    pub at: u8,
    pub op: Op,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sched {
    Sticky { seed: u64, p: u32, barge: u32 },
    Pct { seed: u64, changes: u32, horizon: u32, barge: u32 },
    Choices(Vec<u32>),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum DrillKind {
    Twice,
    Rounds,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Drill {
    pub kind: DrillKind,
    /// registered in the beginning
    pub types: u32,
    /// made in the beginning
    pub groups: Vec<u32>,
    /// see sim/src/drill.rs
    pub acts: Vec<u32>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cost {
    /// see sim/src/cost.rs
    pub acts: Vec<u16>,
    /// the group is made before this one
    pub group_at: usize,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub hash_seed: u64,
    pub prefix: Vec<OpX>,
    pub clients: Vec<Vec<OpX>>,
    pub suffix: Vec<OpX>,
    /// operations go through RwLock<World>, clients are Systems
    pub outer: bool,
    /// destructors run by the library are scheduling points
    pub drop_points: bool,
    /// audit after every n-th sequential operation
    pub audit_every: u32,
    /// scripted run for a recorded finding
    #[serde(default)]
    pub escape: bool,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub alias: bool,
    /// a second world, used by the same threads (only its operations count)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub other: Option<Box<Case>>,
    /// judge every memory access
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub mem: bool,
    /// carrying things between threads: the actions of each client
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub cross: Vec<Vec<u8>>,
    /// one history over and over
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub drill: Option<Drill>,
    /// comparing the cost of iterations
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cost: Option<Cost>,
    pub sched: Sched,
}
impl Case {
    pub fn size(&self) -> usize {
        let n = |v: &Vec<OpX>| {
            v.iter()
                .map(|o| {
                    1 + o.f.is_some() as usize + 2 * o.n.is_some() as usize
                        + match &o.op {
                            Op::Step { ops } => ops.len(),
                            Op::Handle { acts, .. } => acts.len(),
                            Op::Create { att, acts, .. } => att.len() + acts.len(),
                            Op::CreateN { att, n } => att.len() + *n as usize,
                            Op::StoR { probes, .. } | Op::StoW { probes, .. } | Op::Query { probes, .. } => probes.len(),
                            _ => 0,
                        }
                })
                .sum::<usize>()
        };
        n(&self.prefix) + n(&self.suffix) + self.clients.iter().map(n).sum::<usize>() + self.clients.len() + self.other.as_ref().map_or(0, |o| 1 + o.size())
    }
}

// ------------------------------------------------------------------ profiles
pub const KINDS: usize = 20;
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(usize)]
pub enum K {
    Create = 0,
    CreateN,
    Attach,
    Detach,
    Remove,
    Exist,
    HasReg,
    Handle,
    CompR,
    CompW,
    StoR,
    StoW,
    Query,
    GQuery,
    ResR,
    ResW,
    Debug,
    Excl,
    Drain,
    Refuse,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub w: [u32; KINDS],
    /// probability (percent) that the run has a concurrent phase
    pub conc: u32,
    pub max_clients: u64,
    pub ops: (u64, u64),
    pub prefix: (u64, u64),
    pub suffix: (u64, u64),
    /// percent of operations that get a fault, per kind
    pub panic: u32,
    pub drop_panic: u32,
    pub stall: u32,
    pub cancel: u32,
    /// percent of runs without any fault
    pub calm: u32,
    pub outer: u32,
    pub large: u32,
    pub groups: u64,
    /// percent of groups requested that are deliberately illegal
    pub bad_groups: u32,
    pub unreg: u32,
    pub res: u64,
    pub drain: u32,
    /// runs in 10 000 with a world of more than 65 536 entities
    pub huge: u32,
    /// percent of runs that start with entities holding most components
    pub dense: u32,
    /// percent of operations with another one inside
    pub nest: u32,
    /// runs in 1000 with many more component types than the run itself uses
    pub crowd: u32,
    /// sequential runs in 1000 that repeat some operations more than 256 times
    pub burst: u32,
}

pub fn profile(prop: &str) -> Profile {
    use K::*;
    let base = |set: &[(K, u32)]| {
        let mut w = [0u32; KINDS];
        for (k, v) in [
            (Create, 8), (CreateN, 3), (Attach, 10), (Detach, 8), (Remove, 8), (Exist, 2), (HasReg, 1), (Handle, 6),
            (CompR, 4), (CompW, 4), (StoR, 3), (StoW, 2), (Query, 6), (GQuery, 8), (ResR, 1), (ResW, 1), (Debug, 1), (Excl, 2), (Drain, 0), (Refuse, 1),
        ] {
            w[k as usize] = v;
        }
        for (k, v) in set {
            w[*k as usize] = *v;
        }
        w
    };
    let d = Profile {
        w: base(&[]),
        conc: 70,
        max_clients: 3,
        ops: (1, 5),
        prefix: (3, 14),
        suffix: (0, 4),
        panic: 3,
        drop_panic: 2,
        stall: 2,
        cancel: 2,
        calm: 50,
        outer: 8,
        large: 1,
        groups: 2,
        bad_groups: 15,
        unreg: 10,
        res: 2,
        drain: 20,
        dense: 20,
        huge: 12,
        nest: 6,
        crowd: 15,
        burst: 40,
    };
    match prop {
        "C21" => Profile {
            w: base(&[(Attach, 12), (Detach, 12), (Remove, 10), (Exist, 6), (HasReg, 5), (Query, 10), (GQuery, 10), (StoR, 6), (StoW, 6), (CompR, 6), (CompW, 6), (ResR, 3), (ResW, 3), (Debug, 3), (Excl, 4)]),
            conc: 85,
            max_clients: 4,
            groups: 3,
            prefix: (3, 12),
            huge: 4,
            ..d
        },
        "C01" => Profile {
            w: base(&[(Create, 20), (CreateN, 6), (Remove, 22), (Exist, 12), (Handle, 6), (Query, 2), (GQuery, 1), (Drain, 2), (Debug, 0), (StoR, 1), (StoW, 0), (CompR, 1), (CompW, 1), (Attach, 4), (Detach, 2)]),
            groups: 1,
            drain: 60,
            large: 2,
            prefix: (3, 20),
            ..d
        },
        "C02" => Profile {
            w: base(&[(CreateN, 30), (Create, 5), (Remove, 10), (GQuery, 10), (Query, 4), (Detach, 5), (Exist, 2)]),
            groups: 3,
            large: 3,
            ..d
        },
        "C03" => Profile {
            w: base(&[(Attach, 18), (Detach, 14), (CompR, 10), (CompW, 10), (StoR, 8), (StoW, 8), (Handle, 10), (GQuery, 2), (Query, 3)]),
            groups: 2,
            large: 2,
            ..d
        },
        "C04" => Profile {
            w: base(&[(Remove, 24), (Create, 16), (Handle, 12), (Attach, 14), (Detach, 6), (StoR, 4), (Query, 4), (GQuery, 6), (Exist, 4)]),
            groups: 3,
            drain: 40,
            ..d
        },
        "C05" => Profile {
            w: base(&[(Query, 34), (GQuery, 8), (Attach, 12), (Detach, 8), (Remove, 5), (Create, 8), (CreateN, 4), (StoR, 1), (StoW, 1)]),
            groups: 1,
            large: 3,
            dense: 55,
            nest: 15,
            ..d
        },
        "C06" => Profile {
            w: base(&[(GQuery, 24), (Attach, 16), (Detach, 14), (Remove, 10), (Create, 8), (CreateN, 6), (Query, 1), (StoR, 1), (StoW, 2), (Excl, 5)]),
            groups: 4,
            unreg: 5,
            large: 2,
            nest: 10,
            ..d
        },
        "C07" => Profile {
            w: base(&[(GQuery, 8), (Attach, 20), (Detach, 18), (Remove, 14), (Create, 8), (CreateN, 6), (Query, 1), (StoR, 1), (StoW, 2), (Excl, 5), (Handle, 10)]),
            groups: 4,
            unreg: 5,
            large: 2,
            ..d
        },
        "C08" => Profile {
            w: base(&[(Excl, 20), (GQuery, 8), (Attach, 14), (Detach, 10), (Remove, 8), (Create, 8), (CreateN, 5)]),
            groups: 4,
            bad_groups: 45,
            unreg: 15,
            outer: 35,
            large: 2,
            ..d
        },
        "C09" => Profile {
            w: base(&[(CompR, 12), (CompW, 12), (StoR, 12), (StoW, 12), (Query, 14), (GQuery, 12), (Attach, 10), (Detach, 8), (Remove, 6), (ResR, 6), (ResW, 6), (Handle, 6), (Create, 4)]),
            conc: 95,
            panic: 5,
            stall: 5,
            prefix: (3, 9),
            suffix: (0, 2),
            outer: 3,
            ..d
        },
        "C10" => Profile {
            w: base(&[(Handle, 30), (Create, 18), (CreateN, 6), (Remove, 26), (Exist, 8), (Attach, 6), (Detach, 4), (GQuery, 3), (Query, 2)]),
            conc: 95,
            prefix: (2, 8),
            suffix: (0, 4),
            outer: 3,
            ..d
        },
        "C11" => Profile {
            w: base(&[(Attach, 14), (Detach, 12), (Remove, 14), (Create, 8), (CreateN, 6), (GQuery, 16), (Query, 14), (StoR, 5), (StoW, 5), (Handle, 10), (Exist, 4), (Debug, 3)]),
            conc: 100,
            max_clients: 4,
            groups: 3,
            prefix: (3, 8),
            suffix: (0, 1),
            panic: 5,
            drop_panic: 3,
            stall: 4,
            ..d
        },
        "C12" => Profile {
            w: base(&[(CompR, 14), (CompW, 10), (StoR, 10), (StoW, 10), (Query, 16), (GQuery, 6), (Attach, 10), (Detach, 8), (Remove, 12), (Create, 8), (CreateN, 4), (ResR, 8), (ResW, 8), (Debug, 12), (Handle, 6)]),
            conc: 100,
            max_clients: 4,
            groups: 2,
            prefix: (3, 8),
            suffix: (0, 1),
            stall: 25,
            nest: 10,
            calm: 3,
            outer: 0,
            unreg: 2,
            ..d
        },
        "C13" => Profile {
            w: base(&[(Refuse, 40), (Excl, 8)]),
            groups: 3,
            bad_groups: 60,
            unreg: 45,
            outer: 20,
            ..d
        },
        "C14" => Profile {
            w: base(&[(Attach, 14), (Remove, 14), (Handle, 12), (CreateN, 6), (StoW, 6), (CompW, 6), (GQuery, 10), (Query, 8)]),
            groups: 3,
            panic: 22,
            drop_panic: 22,
            stall: 1,
            calm: 3,
            outer: 12,
            cancel: 10,
            ..d
        },
        "C15" => Profile {
            w: base(&[(Attach, 18), (Detach, 10), (Remove, 14), (CreateN, 8), (Create, 10), (Refuse, 6), (Excl, 6), (Handle, 8)]),
            groups: 2,
            drop_panic: 8,
            panic: 6,
            large: 2,
            unreg: 20,
            ..d
        },
        "C16" => Profile {
            w: base(&[(ResR, 30), (ResW, 30), (Excl, 10), (Attach, 3), (Remove, 3), (Create, 3), (Query, 1), (GQuery, 1), (Handle, 2), (Detach, 2), (CreateN, 1)]),
            res: 3,
            groups: 1,
            outer: 40,
            panic: 6,
            stall: 8,
            nest: 12,
            ..d
        },
        "C17" => Profile {
            w: base(&[(Excl, 26), (ResR, 4), (ResW, 4)]),
            outer: 100,
            conc: 97,
            prefix: (2, 8),
            suffix: (0, 3),
            cancel: 12,
            panic: 8,
            unreg: 25,
            calm: 30,
            ..d
        },
        "C20" => Profile {
            conc: 50,
            max_clients: 2,
            ops: (1, 4),
            prefix: (2, 8),
            suffix: (1, 5),
            outer: 0,
            large: 0,
            huge: 0,
            dense: 10,
            stall: 4,
            nest: 25,
            panic: 2,
            drop_panic: 1,
            ..d
        },
        _ => d,
    }
}

// ------------------------------------------------------------------ generator
struct Gen<'a> {
    r: Rng,
    p: Profile,
    shapes: &'a [PatD],
    reg: u8,
    groups: Vec<GKey>,
    res: u8,
    max_id: u32,
    hot: u32,
    seq: bool,
    faults: bool,
    outer: bool,
    /// ids around here are of interest
    high: u32,
    /// component types in play, most used first
    types: Vec<u8>,
    big: bool,
    dense: bool,
    /// there is a second world
    twin: bool,
}

impl<'a> Gen<'a> {
    fn ty(&mut self) -> u8 {
        if self.r.chance(2, 3) {
            let n = self.types.len().min(3) as u64;
            self.types[self.r.below(n) as usize]
        } else {
            self.types[self.r.below(self.types.len() as u64) as usize]
        }
    }
    fn any_ty(&mut self) -> u8 {
        self.r.below(NT as u64) as u8
    }
    fn ent(&mut self) -> Ent {
        let m = self.max_id.max(1);
        if self.high > 0 && self.r.chance(3, 5) {
            return Ent::L(self.high - 6 + self.r.below(12) as u32);
        }
        match self.r.below(100) {
            0..=74 => Ent::L(1 + self.r.below(self.hot.min(m) as u64) as u32),
            75..=91 => Ent::L(1 + self.r.below(m as u64) as u32),
            92..=96 => Ent::Own(self.r.below(3) as u8),
            97..=98 => Ent::L(m + 1 + self.r.below(2) as u32),
            _ => Ent::Big(self.r.below(3) as u8),
        }
    }
    fn ents(&mut self, n: u64) -> Vec<Ent> {
        let k = self.r.below(n + 1);
        (0..k).map(|_| self.ent()).collect()
    }
    fn acts(&mut self) -> Vec<Act> {
        let k = self.r.below(4);
        (0..k)
            .map(|_| {
                let t = self.ty();
                match self.r.below(10) {
                    0..=3 => Act::Attach(t),
                    4..=5 => Act::Detach(t),
                    6 => Act::Read(t),
                    7 => Act::Write(t),
                    _ => Act::Pause,
                }
            })
            .collect()
    }
    fn end(&mut self) -> End {
        match self.r.below(6) {
            0 => End::ManualDrop,
            1 | 2 => End::Drop,
            _ => End::IntoId,
        }
    }
    fn group(&mut self, legal: bool) -> Option<GKey> {
        if !legal && self.r.chance(1, 6) {
            let t = [0, 3][self.r.below(2) as usize];
            return Some(([GKind::Full, GKind::Part, GKind::Non][self.r.below(3) as usize], t, t));
        }
        for _ in 0..20 {
            let np = if self.seq_only() { PAIRS.len() } else { 6 } as u64;
            let (a, b) = PAIRS[self.r.below(np) as usize];
            let k = [GKind::Full, GKind::Part, GKind::Non][self.r.below(3) as usize];
            let g = (k, a, b);
            let conflict = self.groups.iter().any(|h| *h == g || crate::model::owned(h) & crate::model::owned(&g) != 0);
            let unreg = self.reg >> a & 1 == 0 || self.reg >> b & 1 == 0;
            if legal == (!conflict && !unreg) {
                return Some(g);
            }
        }
        None
    }
    /// whole run is single threaded, anything goes
    fn seq_only(&self) -> bool {
        self.seq
    }
    fn shape(&mut self, grouped: bool) -> Option<u16> {
        let wide = self.dense && self.r.chance(1, 2);
        for n in 0..60 {
            let i = self.r.below(self.shapes.len() as u64) as usize;
            let s = &self.shapes[i];
            if wide && n < 30 && s.locks().len() < 3 {
                continue;
            }
            let g = s.groups();
            if g.is_empty() == grouped {
                continue;
            }
            if !self.seq_only() && !s.ordered() {
                continue;
            }
            let known = g.iter().all(|g| self.groups.contains(g)) && s.locks().iter().all(|l| self.reg >> l.0 & 1 == 1);
            if known || self.r.chance(1, 400) {
                return Some(i as u16);
            }
        }
        None
    }
    fn qmode(&mut self) -> QMode {
        match self.r.below(12) {
            0..=1 => QMode::Next,
            2..=4 => QMode::NextWithId,
            5..=7 => QMode::WithId,
            8 => QMode::FromId,
            9..=10 => QMode::Mixed,
            _ => {
                if self.r.chance(1, 2) {
                    QMode::Count
                } else {
                    QMode::Nth(self.r.below(3) as u8)
                }
            }
        }
    }
    fn query(&mut self, grouped: bool) -> Op {
        // a group that exists is likely to be asked
        let mut s = None;
        if grouped && !self.groups.is_empty() && self.r.chance(9, 10) {
            let g = self.groups[self.r.below(self.groups.len() as u64) as usize];
            let c: Vec<usize> = (0..self.shapes.len())
                .filter(|i| {
                    let p = &self.shapes[*i];
                    p.groups().contains(&g)
                        && (self.seq_only() || p.ordered())
                        && p.groups().iter().all(|g| self.groups.contains(g))
                        && p.locks().iter().all(|l| self.reg >> l.0 & 1 == 1)
                })
                .collect();
            if !c.is_empty() {
                s = Some(c[self.r.below(c.len() as u64) as usize] as u16);
            }
        }
        let s = match s.or_else(|| self.shape(grouped)).or_else(|| self.shape(false)) {
            Some(s) => s,
            None => self.r.below(6) as u16,
        };
        let mode = self.qmode();
        let probes = self.ents(4);
        let limit = if self.r.chance(1, 6) { self.r.below(4) as u32 } else { u32::MAX };
        Op::Query { s, mode, probes, limit }
    }
    fn batch(&mut self) -> u32 {
        match self.r.below(20) {
            0 => 0,
            1..=4 => 1,
            5..=16 => 2 + self.r.below(4) as u32,
            17..=18 => 6 + self.r.below(12) as u32,
            _ => {
                if self.big {
                    30 + self.r.below(300) as u32
                } else {
                    5
                }
            }
        }
    }
    fn reg_ty(&mut self) -> Option<u8> {
        for _ in 0..10 {
            let t = self.ty();
            if self.reg >> t & 1 == 1 {
                return Some(t);
            }
        }
        (0..NT as u8).find(|t| self.reg >> t & 1 == 1)
    }
    fn excl(&mut self) -> Op {
        match self.r.below(10) {
            0..=1 => {
                let t = self.any_ty();
                let un: Vec<u8> = (0..NT as u8).filter(|t| self.reg >> t & 1 == 0).collect();
                let t = if !un.is_empty() && self.r.chance(3, 4) { un[self.r.below(un.len() as u64) as usize] } else { t };
                self.reg |= 1 << t;
                Op::Register { t }
            }
            2..=6 => {
                let legal = !self.r.chance(self.p.bad_groups as u64, 100);
                match self.group(legal).or_else(|| self.group(false)) {
                    Some(g) => {
                        let bad = self.groups.iter().any(|h| *h == g || crate::model::owned(h) & crate::model::owned(&g) != 0)
                            || self.reg >> g.1 & 1 == 0
                            || self.reg >> g.2 & 1 == 0;
                        if !bad {
                            self.groups.push(g);
                        }
                        Op::MakeGroup { g }
                    }
                    None => Op::HasReg { t: 0 },
                }
            }
            _ => {
                let r = self.r.below(self.p.res.max(1)) as u8;
                self.res |= 1 << r;
                Op::RegRes { r }
            }
        }
    }
    fn refuse(&mut self) -> Op {
        // something that should be refused, as far as the generator can tell
        let un: Vec<u8> = (0..NT as u8).filter(|t| self.reg >> t & 1 == 0).collect();
        let dead = if self.r.chance(1, 2) { Ent::L(self.max_id + 1 + self.r.below(3) as u32) } else { Ent::Big(self.r.below(3) as u8) };
        match self.r.below(14) {
            0 => Op::Remove { e: dead },
            1 => Op::Attach { t: self.ty(), e: dead },
            2 => Op::Detach { t: self.ty(), e: dead },
            3 if !un.is_empty() => Op::Attach { t: un[0], e: self.ent() },
            4 if !un.is_empty() => Op::Detach { t: un[0], e: self.ent() },
            5 if !un.is_empty() => {
                let e = self.ent();
                Op::Handle { e, acts: vec![Act::Pause, if self.r.chance(1, 2) { Act::Attach(un[0]) } else { Act::Detach(un[0]) }], end: End::Drop }
            }
            6 if !un.is_empty() => Op::StoR { t: un[0], probes: vec![] },
            7 if !un.is_empty() => Op::CompW { t: un[0], e: self.ent(), n: 1 },
            8 => {
                let n = self.batch().min(9);
                let t = self.reg_ty().unwrap_or(0);
                Op::CreateN { n, att: vec![(t, if self.r.chance(1, 2) { 1 } else { -1 })] }
            }
            9 if !un.is_empty() => Op::CreateN { n: 1 + self.r.below(3) as u32, att: vec![(un[0], 0)] },
            10 => {
                // a query that names an unregistered component or a missing group
                for _ in 0..30 {
                    let i = self.r.below(self.shapes.len() as u64) as usize;
                    let p = &self.shapes[i];
                    if (self.seq_only() || p.ordered())
                        && (!p.groups().iter().all(|g| self.groups.contains(g)) || !p.locks().iter().all(|l| self.reg >> l.0 & 1 == 1))
                    {
                        return Op::Query { s: i as u16, mode: QMode::WithId, probes: vec![], limit: u32::MAX };
                    }
                }
                Op::ResR { r: 2, fmt: false }
            }
            11 => Op::ResW { r: 2, n: 1, fmt: false },
            12 if self.seq || self.outer => match self.group(false) {
                Some(g) => Op::MakeGroup { g },
                None => Op::Exist { e: dead },
            },
            13 if self.seq || self.outer => match self.reg_ty() {
                Some(t) => Op::Register { t },
                None => Op::Exist { e: dead },
            },
            _ => {
                if self.r.chance(1, 2) {
                    Op::Exist { e: dead }
                } else {
                    Op::Handle { e: dead, acts: vec![], end: End::Drop }
                }
            }
        }
    }
    fn kind(&mut self) -> K {
        let total: u32 = self.p.w.iter().sum();
        let mut x = self.r.below(total as u64) as u32;
        for (i, w) in self.p.w.iter().enumerate() {
            if x < *w {
                return unsafe { std::mem::transmute::<usize, K>(i) };
            }
            x -= w;
        }
        K::Exist
    }
    /// may exclusive operations be generated here
    fn op(&mut self, phase_seq: bool, depth: u32) -> OpX {
        let k = self.kind();
        let op = match k {
            K::Create => {
                let n = self.r.below(4);
                let mut att: Vec<u8> = vec![];
                for _ in 0..n {
                    if let Some(t) = self.reg_ty() {
                        att.push(t);
                    }
                }
                let mut acts = self.acts();
                acts.retain(|a| match a {
                    Act::Attach(t) | Act::Detach(t) => self.reg >> t & 1 == 1,
                    _ => true,
                });
                self.max_id += 1;
                Op::Create { att, acts, end: self.end() }
            }
            K::CreateN => {
                let n = self.batch();
                let k = self.r.below(4);
                let mut att = vec![];
                for _ in 0..k {
                    if let Some(t) = self.reg_ty() {
                        if phase_seq && self.r.chance(1, 8) {
                            att.push((t, -50 - self.r.below(8) as i8));
                        }
                        att.push((t, 0));
                    }
                }
                self.max_id += n;
                Op::CreateN { n, att }
            }
            K::Attach => Op::Attach { t: self.ty(), e: self.ent() },
            K::Detach => Op::Detach { t: self.ty(), e: self.ent() },
            K::Remove => Op::Remove { e: self.ent() },
            K::Exist => Op::Exist { e: self.ent() },
            K::HasReg => Op::HasReg { t: self.any_ty() },
            K::Handle => Op::Handle { e: self.ent(), acts: self.acts(), end: self.end() },
            K::CompR => Op::CompR { t: self.ty(), e: self.ent() },
            K::CompW => Op::CompW { t: self.ty(), e: self.ent(), n: self.r.below(3) as u8 },
            K::StoR => Op::StoR { t: self.ty(), probes: self.ents(5) },
            K::StoW => Op::StoW { t: self.ty(), probes: self.ents(4), slice: self.r.below(4) as u8 },
            K::Query => self.query(false),
            K::GQuery => self.query(true),
            K::ResR => Op::ResR { r: self.r.below(NR as u64) as u8, fmt: self.r.chance(1, 3) },
            K::ResW => Op::ResW { r: self.r.below(NR as u64) as u8, n: self.r.below(3) as u8, fmt: self.r.chance(1, 4) },
            K::Debug => Op::Debug,
            K::Excl if phase_seq => self.excl(),
            K::Excl if self.outer && depth == 0 => {
                let n = 1 + self.r.below(4);
                let ops = (0..n)
                    .map(|_| if self.r.chance(1, 2) { OpX { op: self.excl(), f: None, n: None } } else { self.op(false, 1) })
                    .collect();
                Op::Step { ops }
            }
            K::Excl if self.outer => self.excl(),
            K::Excl => Op::Attach { t: self.ty(), e: self.ent() },
            K::Drain if phase_seq => Op::Drain,
            K::Drain => Op::Exist { e: self.ent() },
            K::Refuse => self.refuse(),
        };
        let f = if self.faults { self.fault(&op, phase_seq) } else { None };
        let n = if self.r.chance(self.p.nest as u64, 100) && (self.twin && !matches!(op, Op::Drain) || matches!(op, Op::Create { .. } | Op::CreateN { .. } | Op::Handle { .. } | Op::CompR { .. } | Op::CompW { .. } | Op::StoR { .. } | Op::StoW { .. } | Op::Query { .. } | Op::ResR { .. } | Op::ResW { .. })) {
            self.nested()
        } else {
            None
        };
        OpX { op, f, n }
    }
    fn nested(&mut self) -> Option<Box<Nest>> {
        let at = 1 + self.r.below(3) as u8;
        if self.twin && self.r.chance(3, 4) {
            let save = std::mem::replace(&mut self.p.nest, 0);
            let mut op = self.op(false, 1).op;
            self.p.nest = save;
            if is_excl(&op) || op == Op::Drain {
                op = Op::Exist { e: self.ent() };
            }
            return Some(Box::new(Nest { other: true, at, op }));
        }
        let op = match self.r.below(12) {
            0..=1 => Op::CompR { t: self.ty(), e: self.ent() },
            2..=3 => Op::CompW { t: self.ty(), e: self.ent(), n: 1 },
            4 => Op::StoR { t: self.ty(), probes: self.ents(3) },
            5 => Op::StoW { t: self.ty(), probes: self.ents(2), slice: 1 },
            6 => Op::ResR { r: self.r.below(NR as u64) as u8, fmt: true },
            7 => Op::ResW { r: self.r.below(NR as u64) as u8, n: 1, fmt: false },
            8 => Op::Debug,
            _ => {
                let g = self.r.chance(1, 4);
                self.query(g)
            }
        };
        Some(Box::new(Nest { other: false, at, op }))
    }
    fn fault(&mut self, op: &Op, phase_seq: bool) -> Option<Fault> {
        let p = &self.p;
        let x = self.r.below(100) as u32;
        let k = 1 + self.r.below(3) as u8;
        let (a, b, c, d) = (p.panic, p.drop_panic, p.stall, p.cancel);
        if x < a {
            return match op {
                Op::Create { .. } => Some(Fault::Panic(if self.r.chance(1, 3) { k } else { 1 })),
                Op::CreateN { .. } => Some(if self.r.chance(1, 2) { Fault::Panic(if self.r.chance(1, 3) { k } else { 1 }) } else { Fault::ConvPanic }),
                Op::Drain | Op::Exist { .. } | Op::HasReg { .. } => None,
                Op::Step { .. } => Some(Fault::Panic(k)),
                _ => Some(Fault::Panic(k)),
            };
        }
        if x < a + b {
            return match op {
                Op::Attach { .. } | Op::Handle { .. } | Op::Remove { .. } | Op::RegRes { .. } => Some(Fault::DropPanic(k)),
                Op::Create { .. } | Op::CreateN { .. } => Some(Fault::DropPanic(k)),
                _ => None,
            };
        }
        if x < a + b + c && !phase_seq && !self.outer {
            return match op {
                Op::CompR { .. } | Op::CompW { .. } | Op::StoR { .. } | Op::StoW { .. } | Op::Query { .. } | Op::ResR { .. } | Op::ResW { .. } => {
                    Some(Fault::Stall(1 + self.r.below(2) as u8))
                }
                Op::Handle { .. } => Some(Fault::Stall(1)),
                _ => None,
            };
        }
        if x < a + b + c + d && self.outer && !phase_seq {
            return Some(Fault::Cancel);
        }
        None
    }
}

pub fn generate(prop: &str, seed: u64, shapes: &[PatD]) -> Case {
    if prop == "C22" || prop == "C23" {
        let mut c = generate_one(prop, seed, shapes, false, true);
        (c.prefix, c.clients, c.suffix, c.outer) = (vec![], vec![], vec![], false);
        let mut r = Rng::new(seed ^ 0xD811_0000);
        let kind = if prop == "C22" { DrillKind::Twice } else { DrillKind::Rounds };
        let n = 4 + r.below(if kind == DrillKind::Twice { 120 } else { 40 });
        let groups = (0..r.below(4)).map(|_| r.below(36) as u32).collect();
        let mut acts = vec![];
        for _ in 0..n {
            let what = if r.chance(1, 3) { r.below(7) } else { r.below(32) };
            let what = if kind == DrillKind::Rounds && (19..=20).contains(&what) { 14 } else { what };
            // now and then many of a kind
            for _ in 0..if r.chance(1, 12) { r.below(40) } else { 1 } {
                acts.push((what + 32 * r.below(1 << 20)) as u32);
            }
        }
        let types = if r.chance(3, 4) { 15 } else { r.below(16) as u32 };
        c.drill = Some(Drill { kind, types, groups, acts });
        c.mem = true;
        return c;
    }
    if prop == "C19" {
        let mut c = generate_one(prop, seed, shapes, false, true);
        (c.prefix, c.clients, c.suffix, c.outer) = (vec![], vec![], vec![], false);
        let mut r = Rng::new(seed ^ 0xC057_0000);
        // from nearly everybody to hardly anybody in the group
        let others = r.below(6) * 3;
        let members = 17 + r.below(60);
        let n = members * (6 + others) / 6 + r.below(30);
        let group_at = if r.chance(1, 2) { r.below(n) as usize } else if r.chance(1, 2) { 0 } else { n as usize };
        let mut acts: Vec<u16> = vec![];
        for _ in 0..n {
            let x = r.below(6 + others);
            let what = if r.chance(1, 8) { 12 + r.below(4) } else if x < 6 { x } else { 6 + r.below(6) };
            acts.push((what + 16 * r.below(4000)) as u16);
        }
        c.cost = Some(Cost { acts, group_at });
        c.mem = true;
        return c;
    }
    // most runs hand things over, some do ordinary work in a shared world
    if prop == "C18" && seed >> 11 & 3 == 0 {
        let mut c = generate_one("C21", seed, shapes, false, true);
        c.mem = true;
        return c;
    }
    if prop == "C18" {
        let mut c = generate_one(prop, seed, shapes, false, true);
        (c.prefix, c.clients, c.suffix, c.outer) = (vec![], vec![], vec![], false);
        let mut r = Rng::new(seed ^ 0xC105_5000);
        // every other action tries to hand something over
        c.cross = (0..2 + r.below(3)).map(|_| (0..2 + r.below(7)).map(|_| if r.chance(1, 2) { r.below(16) } else { 16 + r.below(18) } as u8).collect()).collect();
        return c;
    }
    // now and then a second world takes part
    let twin = prop == "C20" || Rng::new(seed ^ 0x7717).chance(4, 100);
    let mut c = generate_one(prop, seed, shapes, prop == "C20", twin);
    if twin && !c.outer {
        let o = generate_one(prop, seed ^ 0x5A5A_0000_1234_5678, shapes, false, true);
        if !o.outer {
            c.other = Some(Box::new(o));
        }
    }
    c.mem = prop == "C21" || matches!(prop, "C09" | "C14" | "C15") && seed >> 9 & 3 == 0;
    c
}
fn generate_one(prop: &str, seed: u64, shapes: &[PatD], twin: bool, any_twin: bool) -> Case {
    let mut r = Rng::new(seed ^ 0x5151_0000);
    let mut p = profile(prop);
    // swarm: switch some kinds off for this run
    for i in 0..KINDS {
        if p.w[i] > 0 && p.w[i] < 10 && r.chance(1, 4) {
            p.w[i] = 0;
        }
    }
    // a world larger than small index types can count
    let huge = r.chance(p.huge as u64, 10_000) && !any_twin;
    let conc = !huge && r.chance(p.conc as u64, 100);
    let outer = conc && r.chance(p.outer as u64, 100);
    let large = !huge && r.chance(p.large as u64, 100);
    let faults = !huge && !r.chance(p.calm as u64, 100);
    let mut types: Vec<u8> = (0..NT as u8).collect();
    for i in (1..types.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        types.swap(i, j);
    }
    // half of the runs concentrate on the types most groups are about
    if r.chance(1, 2) {
        types.sort_by_key(|t| match t {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => 3,
        });
    }
    let nt = 2 + r.below(NT as u64 - 1) as usize;
    // many entities with most components: wide queries have something to yield
    let dense = r.chance(p.dense as u64, 100);
    types.truncate(if dense { NT } else { nt });
    let mut g = Gen {
        dense,
        high: 0,
        hot: 2 + r.below(6) as u32,
        r: Rng::new(r.next()),
        shapes,
        reg: 0,
        groups: vec![],
        res: 0,
        max_id: 0,
        seq: !conc,
        faults,
        outer,
        types: types.clone(),
        big: large,
        twin,
        p: p.clone(),
    };
    let mut prefix: Vec<OpX> = vec![];
    let plain = |op: Op| OpX { op, f: None, n: None };
    // now and then, many more kinds of things than the run itself uses
    let mut crowd: Vec<Op> = vec![];
    let mut cr = Rng::new(seed ^ 0xC0_3D);
    if !huge && !any_twin && cr.chance(p.crowd as u64, 1000) {
        let edge = [8u64, 16, 32, 32, 64, 64, 128, 256][cr.below(8) as usize];
        let n = (edge + 2 - cr.below(9)).clamp(1, 259) as u16;
        let cut = if cr.chance(1, 2) { n } else { cr.below(n as u64 + 1) as u16 };
        let (res, groups) = (cr.chance(1, 2), cr.chance(1, 2));
        crowd.push(Op::Crowd { from: 0, to: cut, res, groups, salt: 0 });
        crowd.push(Op::Crowd { from: cut, to: n, res, groups, salt: cr.next() >> 8 });
        for _ in 0..2 + cr.below(4) {
            crowd.push(Op::Crowd { from: n, to: n, res: false, groups: false, salt: cr.next() >> 8 });
        }
        crowd.reverse();
        if cr.chance(2, 3) {
            prefix.push(plain(crowd.pop().unwrap()));
        }
    }
    for t in 0..NT as u8 {
        let wanted = types.contains(&t) && !g.r.chance(p.unreg as u64, 200);
        if wanted || g.r.chance(1, 6) {
            g.reg |= 1 << t;
            prefix.push(plain(Op::Register { t }));
        }
    }
    for rr in 0..p.res.min(NR as u64) {
        if g.r.chance(2, 3) {
            g.res |= 1 << rr;
            prefix.push(plain(Op::RegRes { r: rr as u8 }));
        }
    }
    // some groups before, some after the world is filled
    let ng = if p.groups == 0 { 0 } else { g.r.below(p.groups + 1) };
    let early = g.r.below(ng + 1);
    let add_group = |g: &mut Gen, prefix: &mut Vec<OpX>| {
        let legal = !g.r.chance(g.p.bad_groups as u64, 100);
        // prefer types in play
        for _ in 0..6 {
            if let Some(k) = g.group(legal) {
                let busy = g.types.contains(&k.1) && g.types.contains(&k.2);
                if !busy && g.r.chance(4, 5) {
                    continue;
                }
                if legal {
                    g.groups.push(k);
                }
                prefix.push(OpX { op: Op::MakeGroup { g: k }, f: None, n: None });
                return;
            }
        }
    };
    if crowd.len() > 1 && cr.chance(2, 3) {
        let at = cr.below(prefix.len() as u64 + 1) as usize;
        let k = prefix.len().min(1);
        prefix.insert(at.max(k), plain(crowd.pop().unwrap()));
    }
    for _ in 0..early {
        add_group(&mut g, &mut prefix);
    }
    if large {
        let n = 40 + g.r.below(g.r.clone().below(900) + 1) as u32;
        let att: Vec<(u8, i8)> = types.iter().filter(|t| g.reg >> **t & 1 == 1).filter(|_| g.r.chance(2, 3)).map(|t| (*t, 0)).collect();
        g.max_id += n;
        prefix.push(plain(Op::CreateN { n, att }));
    }
    if huge {
        let edge = [256u32, 32_768, 65_536][g.r.below(3) as usize];
        let a = edge - g.r.below(4) as u32;
        let n = if g.r.chance(1, 3) { a } else { edge + g.r.below(9) as u32 };
        let att: Vec<(u8, i8)> = types.iter().filter(|t| g.reg >> **t & 1 == 1).filter(|_| g.r.chance(1, 2)).map(|t| (*t, 0)).collect();
        g.max_id += n;
        g.high = edge;
        prefix.push(plain(Op::CreateN { n, att }));
    }
    if dense {
        for _ in 0..1 + g.r.below(2) {
            let n = 1 + g.r.below(5) as u32;
            let miss = g.r.below(5);
            let att: Vec<(u8, i8)> = types.iter().filter(|t| g.reg >> **t & 1 == 1).filter(|_| !g.r.chance(miss, 10)).map(|t| (*t, 0)).collect();
            g.max_id += n;
            prefix.push(plain(Op::CreateN { n, att }));
        }
    }
    let n = p.prefix.0 + g.r.below(p.prefix.1 - p.prefix.0 + 1);
    let n = if conc { n } else { n * 3 };
    let n = if large { n * 3 } else { n };
    // fill the world first
    let fill = 1 + g.r.below(6);
    for _ in 0..fill {
        let save = g.p.w;
        if !g.r.chance(1, 4) {
            for i in 0..KINDS {
                g.p.w[i] = 0;
            }
            g.p.w[K::Create as usize] = 4;
            g.p.w[K::CreateN as usize] = 1;
            g.p.w[K::Attach as usize] = 2;
        }
        let o = g.op(true, 0);
        prefix.push(o);
        g.p.w = save;
    }
    for i in 0..n {
        if early < ng && i % 3 == 2 {
            // spread the remaining groups
            if (prefix.iter().filter(|o| matches!(o.op, Op::MakeGroup { .. })).count() as u64) < ng {
                add_group(&mut g, &mut prefix);
            }
        }
        let o = g.op(true, 0);
        prefix.push(o);
        if !crowd.is_empty() && cr.chance(1, 3) {
            prefix.push(plain(crowd.pop().unwrap()));
        }
    }
    let burst = !conc && !huge && !large && !any_twin && cr.chance(p.burst as u64, 1000);
    if burst {
        let (mut t, e) = (g.ty(), Ent::L(1 + g.r.below(g.hot.min(g.max_id.max(1)) as u64) as u32));
        let rr = g.r.below(NR as u64) as u8;
        if !g.groups.is_empty() && g.r.chance(3, 4) {
            // in and out of a group
            let k = g.groups[g.r.below(g.groups.len() as u64) as usize];
            let other = if g.r.chance(1, 2) { k.1 } else { k.2 };
            t = if other == k.1 { k.2 } else { k.1 };
            prefix.push(plain(Op::Attach { t: other, e }));
        }
        let mut win = match g.r.below(14) {
            9..=13 | 0 => vec![Op::Attach { t, e }, Op::Detach { t, e }],
            1 => vec![Op::Remove { e }, Op::Create { att: vec![t], acts: vec![], end: End::IntoId }],
            2 => vec![Op::Remove { e }, Op::CreateN { n: 1, att: vec![(t, 0)] }],
            3 => vec![Op::Attach { t, e }],
            4 => vec![Op::CompW { t, e, n: 1 }, Op::CompR { t, e }],
            5 => vec![Op::ResW { r: rr, n: 1, fmt: false }, Op::ResR { r: rr, fmt: false }],
            6 => vec![Op::CreateN { n: 1 + g.r.below(2) as u32, att: vec![(t, 0)] }],
            _ => (0..1 + g.r.below(3)).map(|_| g.op(true, 0).op).collect(),
        };
        if g.r.chance(1, 3) {
            // boom and bust: many entities come, nearly all of them go again
            win.clear();
            let n = [20, 70, 70, 140, 300, 600][g.r.below(6) as usize] + g.r.below(12) as u32;
            let att: Vec<(u8, i8)> = types.iter().filter(|t| g.reg >> **t & 1 == 1).filter(|_| g.r.chance(1, 2)).map(|t| (*t, 0)).collect();
            prefix.push(plain(Op::CreateN { n, att }));
            g.max_id += n;
            let top = g.max_id;
            let mut go: Vec<u32> = (1..=top).collect();
            match g.r.below(4) {
                0 => {}
                1 => go.reverse(),
                2 => {
                    let at = g.r.below(top as u64) as usize;
                    go.rotate_left(at);
                }
                _ => {
                    for i in (1..go.len()).rev() {
                        go.swap(i, g.r.below(i as u64 + 1) as usize);
                    }
                }
            }
            let stay = match g.r.below(3) {
                0 => 0,
                1 => g.r.below(4),
                _ => g.r.below(go.len() as u64 / 4 + 1),
            };
            go.truncate(go.len() - stay as usize);
            let detach = g.r.chance(1, 4);
            for i in go {
                let e = Ent::L(i);
                prefix.push(plain(if detach { Op::Detach { t, e } } else { Op::Remove { e } }));
            }
            if g.r.chance(2, 3) {
                prefix.push(plain(Op::Drain));
            }
        }
        win.retain(|o| !is_excl(o) && *o != Op::Drain);
        if !win.is_empty() {
            let n = [33, 130, 258, 258][g.r.below(4) as usize] + g.r.below(8);
            for _ in 0..n {
                prefix.extend(win.iter().cloned().map(plain));
            }
            g.max_id += n as u32;
        }
        for _ in 0..3 + g.r.below(6) {
            let o = g.op(true, 0);
            prefix.push(o);
        }
    }
    while (prefix.iter().filter(|o| matches!(o.op, Op::MakeGroup { .. })).count() as u64) < ng && g.r.chance(5, 6) {
        add_group(&mut g, &mut prefix);
    }
    let mut clients = vec![];
    if conc {
        g.big = false;
        let nc = 2 + g.r.below(p.max_clients - 1);
        for _ in 0..nc {
            let k = p.ops.0 + g.r.below(p.ops.1 - p.ops.0 + 1);
            clients.push((0..k).map(|_| g.op(false, 0)).collect::<Vec<_>>());
        }
    }
    let mut suffix = vec![];
    while let Some(o) = crowd.pop() {
        prefix.push(plain(o));
    }
    let k = p.suffix.0 + g.r.below(p.suffix.1 - p.suffix.0 + 1);
    for _ in 0..k {
        suffix.push(g.op(true, 0));
    }
    if g.r.chance(p.drain as u64, 100) {
        suffix.push(plain(Op::Drain));
    }
    let barge = [0, 0, 300, 700, 1000][r.below(5) as usize];
    let sseed = r.next();
    let sched = match r.below(5) {
        0 => Sched::Sticky { seed: sseed, p: 80, barge },
        1 => Sched::Sticky { seed: sseed, p: 300, barge },
        2 => Sched::Sticky { seed: sseed, p: 800, barge },
        _ => Sched::Pct { seed: sseed, changes: r.below(6) as u32, horizon: 60 + r.below(200) as u32, barge },
    };
    Case {
        hash_seed: r.next(),
        prefix,
        clients,
        suffix,
        outer,
        drop_points: r.chance(1, 2),
        audit_every: if huge { 10_000 } else if large || burst { 25 } else { 1 + r.below(4) as u32 },
        escape: false,
        alias: false,
        other: None,
        mem: false,
        cross: vec![],
        cost: None,
        drill: None,
        sched,
    }
}

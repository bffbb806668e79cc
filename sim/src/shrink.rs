//! Makes a violating case small: fewer operations, fewer clients, fewer faults, then an
//! explicit list of scheduling choices. Every candidate runs in a process of its own.
use crate::case::*;
use crate::check::relevant;
use crate::engine::{alt, Record, EXIT_VIOL};
use crate::run::{Class, Viol};
use crate::watch::Watch;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub dir: String,
    pub deadline: Instant,
    pub tries: std::sync::atomic::AtomicU64,
}

#[derive(Clone, Debug)]
pub enum Got {
    Rec(Box<Record>),
    Nothing,
}

/// run the case under schedules from..to in a child process
pub fn attempt(cx: &Ctx, case: &Case, from: u64, to: u64, trace: bool, sink: bool, slot: usize, secs: u64) -> Got {
    cx.tries.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let base = format!("{}/s{}", cx.dir, slot);
    let cf = format!("{}.case", base);
    let rf = format!("{}.rec", base);
    let _ = std::fs::remove_file(&rf);
    std::fs::write(&cf, serde_json::to_vec(case).unwrap()).unwrap();
    let err = std::fs::File::create(format!("{}.err", base)).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["try", &cf, &from.to_string(), &to.to_string(), &rf, if trace { "1" } else { "0" }, if sink { "1" } else { "0" }])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let mut watch = Watch::new(child.id(), &format!("{}.k", rf), from);
    let mut nap = 200;
    let mut hung = false;
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break Some(s),
            None => {
                hung = watch.stuck();
                if hung || t0.elapsed() > Duration::from_secs(secs.max(25)) {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(20_000);
            }
        }
    };
    match status {
        Some(s) if s.code() == Some(EXIT_VIOL) => match std::fs::read(&rf).ok().and_then(|b| serde_json::from_slice::<Record>(&b).ok()) {
            Some(r) => Got::Rec(Box::new(r)),
            None => Got::Nothing,
        },
        Some(s) if s.code() == Some(0) => Got::Nothing,
        // slow, but not stuck
        None if !hung => Got::Nothing,
        other => {
            // died or hung: describe it ourselves
            let mut c = alt(case, watch.at());
            let msg = std::fs::read_to_string(format!("{}.err", base)).unwrap_or_default();
            let msg: String = msg.chars().take(1500).collect();
            use std::os::unix::process::ExitStatusExt;
            let v = match other {
                None => Viol { classes: vec![Class::Hang], msg: "a library call never came back".into(), step: 0 },
                Some(s) => {
                    if s.signal() == Some(9) || s.signal().is_none() && s.code() != Some(134) {
                        return Got::Nothing;
                    }
                    Viol { classes: vec![Class::Crash], msg: format!("the process died with {}: {}", s, msg), step: 0 }
                }
            };
            let mut choices = vec![];
            if sink {
                if let Ok(t) = std::fs::read_to_string(format!("{}.choices", rf)) {
                    choices = t.lines().filter_map(|l| l.parse().ok()).collect();
                    c.sched = Sched::Choices(choices.clone());
                }
            }
            Got::Rec(Box::new(Record { idx: 0, case: c, viols: vec![v], choices, hash: 0, fired: Default::default(), trace: vec![] }))
        }
    }
}

/// first candidate (in order) that still violates in the same way
fn first(cx: &Ctx, cands: &[Case], seeds: u64, kind: Kind) -> Option<(usize, Record)> {
    let mut i = 0;
    while i < cands.len() {
        if Instant::now() > cx.deadline {
            return None;
        }
        let end = (i + 8).min(cands.len());
        let mut res: Vec<Option<Record>> = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = (i..end)
                .map(|j| {
                    let c = &cands[j];
                    s.spawn(move || {
                        let n = if c.clients.is_empty() && c.other.as_ref().map_or(true, |o| o.clients.is_empty()) || matches!(c.sched, Sched::Choices(_)) { 1 } else { seeds };
                        match attempt(cx, c, 0, n, false, false, j - i, 12) {
                            Got::Rec(r) if same(cx, kind, &r) && (cx.prop != "C20" || crate::check::alone(cx, &r.case, 24, j - i)) => Some(*r),
                            _ => None,
                        }
                    })
                })
                .collect();
            res = hs.into_iter().map(|h| h.join().unwrap()).collect();
        });
        for (k, r) in res.into_iter().enumerate() {
            if let Some(r) = r {
                return Some((i + k, r));
            }
        }
        i = end;
    }
    None
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Judged(Class),
    Died,
    Hung,
}
pub fn kind_of(r: &Record) -> Kind {
    match r.viols[0].classes[0] {
        Class::Crash => Kind::Died,
        Class::Hang => Kind::Hung,
        c => Kind::Judged(c),
    }
}
fn same(cx: &Ctx, kind: Kind, r: &Record) -> bool {
    match kind {
        Kind::Judged(_) => matches!(kind_of(r), Kind::Judged(_)) && relevant(&cx.prop, r),
        k => kind_of(r) == k && relevant(&cx.prop, r),
    }
}

fn simpler_op(o: &OpX) -> Vec<OpX> {
    let mut out = vec![];
    let mut push = |op: Op| out.push(OpX { op, f: o.f, n: o.n.clone() });
    match &o.op {
        Op::Create { att, acts, end } => {
            for i in 0..att.len() {
                let mut a = att.clone();
                a.remove(i);
                push(Op::Create { att: a, acts: acts.clone(), end: *end });
            }
            for i in 0..acts.len() {
                let mut a = acts.clone();
                a.remove(i);
                push(Op::Create { att: att.clone(), acts: a, end: *end });
            }
            if *end != End::IntoId {
                push(Op::Create { att: att.clone(), acts: acts.clone(), end: End::IntoId });
            }
        }
        Op::CreateN { n, att } => {
            for m in [0, 1, 2, n / 2, n.saturating_sub(1)] {
                if m < *n {
                    push(Op::CreateN { n: m, att: att.clone() });
                }
            }
            for i in 0..att.len() {
                let mut a = att.clone();
                a.remove(i);
                push(Op::CreateN { n: *n, att: a });
            }
        }
        Op::Handle { e, acts, end } => {
            for i in 0..acts.len() {
                let mut a = acts.clone();
                a.remove(i);
                push(Op::Handle { e: *e, acts: a, end: *end });
            }
            if *end != End::IntoId {
                push(Op::Handle { e: *e, acts: acts.clone(), end: End::IntoId });
            }
        }
        Op::StoR { t, probes } if !probes.is_empty() => {
            push(Op::StoR { t: *t, probes: vec![] });
            for i in 0..probes.len() {
                push(Op::StoR { t: *t, probes: vec![probes[i]] });
            }
        }
        Op::StoW { t, probes, slice } => {
            if !probes.is_empty() {
                push(Op::StoW { t: *t, probes: vec![], slice: *slice });
                for i in 0..probes.len() {
                    push(Op::StoW { t: *t, probes: vec![probes[i]], slice: *slice });
                }
            }
            if *slice != 0 {
                push(Op::StoW { t: *t, probes: probes.clone(), slice: 0 });
            }
        }
        Op::Query { s, mode, probes, limit } => {
            if !probes.is_empty() {
                push(Op::Query { s: *s, mode: *mode, probes: vec![], limit: *limit });
                for i in 0..probes.len().min(4) {
                    push(Op::Query { s: *s, mode: *mode, probes: vec![probes[i]], limit: *limit });
                }
            }
            if *mode != QMode::NextWithId {
                push(Op::Query { s: *s, mode: QMode::NextWithId, probes: probes.clone(), limit: *limit });
            }
        }
        Op::CompW { t, e, n } if *n > 1 => push(Op::CompW { t: *t, e: *e, n: 1 }),
        Op::ResR { r, fmt: true } => push(Op::ResR { r: *r, fmt: false }),
        Op::ResW { r, n, fmt: true } => push(Op::ResW { r: *r, n: *n, fmt: false }),
        Op::Step { ops } => {
            for i in 0..ops.len() {
                let mut a = ops.clone();
                a.remove(i);
                push(Op::Step { ops: a });
            }
        }
        _ => {}
    }
    if let Some(n) = &o.n {
        for i in simpler_op(&OpX { op: n.op.clone(), f: None, n: None }) {
            out.push(OpX { op: o.op.clone(), f: o.f, n: Some(Box::new(crate::case::Nest { op: i.op, ..(**n).clone() })) });
        }
        out.insert(0, OpX { op: o.op.clone(), f: o.f, n: None });
    }
    if o.f.is_some() {
        out.insert(0, OpX { op: o.op.clone(), f: None, n: o.n.clone() });
    }
    out
}

fn seq_of<'a>(c: &'a Case, i: usize) -> &'a Vec<OpX> {
    match i {
        0 => &c.prefix,
        1 => &c.suffix,
        _ => &c.clients[i - 2],
    }
}
fn with_seq(c: &Case, i: usize, v: Vec<OpX>) -> Case {
    let mut d = c.clone();
    match i {
        0 => d.prefix = v,
        1 => d.suffix = v,
        _ => d.clients[i - 2] = v,
    }
    d
}

fn coarse(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    if !c.clients.is_empty() {
        let mut d = c.clone();
        d.clients.clear();
        out.push(d);
        for i in 0..c.clients.len() {
            let mut d = c.clone();
            d.clients.remove(i);
            out.push(d);
        }
    }
    let parts = 2 + c.clients.len();
    for i in 0..parts {
        let v = seq_of(c, i);
        let mut size = v.len();
        while size >= 1 {
            let mut at = 0;
            while at < v.len() {
                let e = (at + size).min(v.len());
                let mut w = v.clone();
                w.drain(at..e);
                // later pieces first: they depend on the earlier ones
                out.push(with_seq(c, i, w));
                at = e;
            }
            size /= 2;
        }
    }
    if let Some(o) = &c.other {
        out.extend(coarse(o).into_iter().map(|o| Case { other: Some(Box::new(o)), ..c.clone() }));
    }
    out.sort_by_key(|c| c.size());
    out
}
fn fine(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    for i in 0..2 + c.clients.len() {
        let v = seq_of(c, i);
        for k in 0..v.len() {
            for o in simpler_op(&v[k]) {
                let mut w = v.clone();
                w[k] = o;
                out.push(with_seq(c, i, w));
            }
        }
    }
    if let Some(k) = &c.drill {
        let n = k.acts.len();
        let mut w = n / 2;
        while w > 0 && n / w <= 64 {
            for at in (0..n).step_by(w) {
                let mut d = k.clone();
                d.acts.drain(at..(at + w).min(n));
                out.push(Case { drill: Some(d), ..c.clone() });
            }
            w /= 2;
        }
        for i in 0..k.groups.len() {
            let mut d = k.clone();
            d.groups.remove(i);
            out.push(Case { drill: Some(d), ..c.clone() });
        }
    }
    if let Some(k) = &c.cost {
        let n = k.acts.len();
        let mut w = n / 2;
        while w > 0 && n / w <= 64 {
            for at in (0..n).step_by(w) {
                let mut acts = k.acts.clone();
                acts.drain(at..(at + w).min(n));
                out.push(Case { cost: Some(crate::case::Cost { acts, group_at: k.group_at }), ..c.clone() });
            }
            w /= 2;
        }
        if k.group_at != 0 {
            out.push(Case { cost: Some(crate::case::Cost { acts: k.acts.clone(), group_at: 0 }), ..c.clone() });
        }
    }
    for i in 0..c.cross.len() {
        if c.cross.len() > 1 {
            let mut x = c.cross.clone();
            x.remove(i);
            out.push(Case { cross: x, ..c.clone() });
        }
        for j in 0..c.cross[i].len() {
            let mut x = c.cross.clone();
            x[i].remove(j);
            out.push(Case { cross: x, ..c.clone() });
        }
    }
    if c.drop_points {
        out.push(Case { drop_points: false, ..c.clone() });
    }
    if c.audit_every != 1 {
        out.push(Case { audit_every: 1, ..c.clone() });
    }
    if c.outer && !c.clients.iter().flatten().any(|o| crate::case::is_excl(&o.op)) {
        out.push(Case { outer: false, ..c.clone() });
    }
    if let Some(o) = &c.other {
        out.extend(fine(o).into_iter().map(|o| Case { other: Some(Box::new(o)), ..c.clone() }));
    }
    out
}

pub fn shrink(cx: &Ctx, start: Record) -> Record {
    let kind = kind_of(&start);
    let mut best = start;
    let seeds = 24;
    // structure
    loop {
        let mut moved = false;
        let mut stage = 0;
        while Instant::now() < cx.deadline && stage < 2 {
            let cands = if stage == 0 { coarse(&best.case) } else { fine(&best.case) };
            match first(cx, &cands, seeds, kind) {
                Some((_, r)) => {
                    best = r;
                    moved = true;
                }
                None => stage += 1,
            }
        }
        if !moved || Instant::now() >= cx.deadline {
            break;
        }
    }
    // the schedule as an explicit list
    let fixed = match attempt(cx, &best.case, 0, 1, false, true, 9, 12) {
        Got::Rec(r) if same(cx, kind, &r) => r.choices.clone(),
        _ => return best,
    };
    let mut list = fixed;
    let run = |l: &[u32], slot: usize| -> Option<Record> {
        let c = Case { sched: Sched::Choices(l.to_vec()), ..best.case.clone() };
        match attempt(cx, &c, 0, 1, false, false, slot, 12) {
            Got::Rec(r) if same(cx, kind, &r) => Some(*r),
            _ => None,
        }
    };
    if run(&list, 9).is_none() {
        return best;
    }
    while list.last() == Some(&0) {
        list.pop();
    }
    // trailing, then single non-zero choices (fewer context switches)
    let soft = Instant::now() + Duration::from_secs(25);
    let mut step = list.len() / 2;
    while step > 0 && Instant::now() < soft {
        if list.len() >= step {
            let l: Vec<u32> = list[..list.len() - step].to_vec();
            if run(&l, 9).is_some() {
                list = l;
                continue;
            }
        }
        step /= 2;
    }
    let mut width = (list.len() / 2).max(1);
    while Instant::now() < soft {
        let mut at = 0;
        while at < list.len() && Instant::now() < soft {
            let e = (at + width).min(list.len());
            if list[at..e].iter().any(|x| *x != 0) {
                let mut l = list.clone();
                l[at..e].iter_mut().for_each(|x| *x = 0);
                if run(&l, 9).is_some() {
                    list = l;
                }
            }
            at = e;
        }
        if width == 1 {
            break;
        }
        width /= 2;
    }
    while list.last() == Some(&0) {
        list.pop();
    }
    if run(&list, 9).is_some() {
        best.case.sched = Sched::Choices(list);
    } else {
        best.case.sched = Sched::Choices(best.choices.clone());
    }
    best
}

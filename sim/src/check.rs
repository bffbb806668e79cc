//! The registered checks: seeded search over many runs in worker processes, then
//! minimisation, a replay file, and the evidence.
use crate::case::{generate, Case, Fault, Op, OpX, Sched};
use crate::model::GKind;
use crate::engine::{all_pats, all_shapes, case_seed, Record, Sum, EXIT_OOM, EXIT_VIOL};
use crate::run::{Class, Fired, Viol};
use crate::watch::Watch;
use crate::shrink::{attempt, shrink, Ctx, Got};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Plan {
    /// runs in the quick and thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub what: &'static str,
}

pub fn plan(prop: &str) -> Option<Plan> {
    let what = match prop {
        "C01" => "ids: fresh, distinct, contiguous batches, exact existence, recycling",
        "C02" => "batch creation and batch attach",
        "C03" => "component cells as linearizable registers",
        "C04" => "removal leaves nothing behind",
        "C05" => "queries yield exactly the matching entities",
        "C06" => "group queries equal plain queries",
        "C07" => "owned storages packed and aligned",
        "C08" => "make_group keeps everything, ownership exclusive",
        "C09" => "shared and exclusive accesses never overlap",
        "C10" => "a handle pins its entity",
        "C11" => "no deadlock, no leaked lock",
        "C12" => "unrelated accesses are never delayed",
        "C13" => "refused calls change nothing",
        "C14" => "crashes are contained",
        "C15" => "every value destroyed exactly once",
        "C16" => "resources",
        "C17" => "systems over a shared world",
        "C18" => "worlds, guards and queries between threads",
        "C22" => "histories in two worlds",
        "C23" => "rounds of the same history",
        "C19" => "simulated cost of group and plain iteration",
        "C20" => "worlds do not notice each other",
        "C21" => "memory: no races, nothing freed or foreign is touched",
        _ => return None,
    };
    Some(Plan { quick: 150_000, thorough: 3_000_000, what })
}

pub fn ops_of(c: &Case) -> impl Iterator<Item = &OpX> {
    c.prefix.iter().chain(c.suffix.iter()).chain(c.clients.iter().flatten()).flat_map(|o| {
        let inner: Vec<&OpX> = match &o.op {
            Op::Step { ops } => ops.iter().collect(),
            _ => vec![],
        };
        std::iter::once(o).chain(inner)
    })
}

impl Record {
    fn case_uses_group_query(&self) -> bool {
        let sh = all_shapes();
        ops_of(&self.case).any(|o| matches!(o.op, Op::Query { s, .. } if !sh[s as usize].pat.groups().is_empty()))
    }
}

/// does this violation speak about the property?
pub fn relevant(prop: &str, r: &Record) -> bool {
    let v = &r.viols[0];
    let has = |c: Class| v.classes.contains(&c);
    let any = |l: &[Class]| l.iter().any(|c| has(*c));
    use Class::*;
    let ops = |f: &dyn Fn(&Op) -> bool| ops_of(&r.case).any(|o| f(&o.op));
    if any(&[Crash, Hang]) && !matches!(prop, "C14" | "C13" | "C17" | "C12" | "C16") {
        return true;
    }
    match prop {
        "C01" => any(&[Id, Range, Removal, Pin, Panic]),
        "C02" => any(&[Range, Id, Cellv, Comp, Query, Group, Pack, Panic, Drop, Refusal]) && ops(&|o| matches!(o, Op::CreateN { .. })),
        "C03" => any(&[Cellv, Comp, Excl, Drop, Removal, Panic]) || has(Refusal) && has(Reg),
        "C04" => {
            any(&[Removal, Cellv, Query, Group, Pack, Id, Pin, Panic, Drop, Comp, Refusal])
                && ops(&|o| {
                    matches!(o, Op::Remove { .. } | Op::Handle { end: crate::case::End::ManualDrop, .. } | Op::Create { end: crate::case::End::ManualDrop, .. })
                })
        }
        "C05" => any(&[Query, Group, Cellv, Panic]) || any(&[Excl, Refusal]) && ops(&|o| matches!(o, Op::Query { .. })),
        "C06" => any(&[Group, Panic]) || any(&[Query, Pack, Cellv, Excl, Refusal]) && ops(&|o| matches!(o, Op::MakeGroup { .. })) && r.case_uses_group_query(),
        "C07" => any(&[Pack, Panic]) || any(&[Group, Query, Cellv, Comp, Removal]) && ops(&owning),
        "C08" => any(&[MakeGroup, Cellv, Query, Group, Pack, Panic, Drop, Comp, Refusal]) && ops(&|o| matches!(o, Op::MakeGroup { .. })),
        "C09" => any(&[Excl, Escape, Share, Race]),
        "C10" => any(&[Pin, Removal, Cellv, Id]) || any(&[Panic, Refusal, Range]) && ops(&|o| matches!(o, Op::Handle { .. } | Op::Create { .. } | Op::CreateN { .. })),
        "C11" => any(&[Deadlock, Livelock, LeakLock]),
        "C12" => any(&[Blocked, DebugBlocks, Share]),
        "C13" => r.fired.refusals > 0 || any(&[Accepted, Refusal]),
        "C14" => r.fired.client_panics + r.fired.drop_panics + r.fired.conv_panics + r.fired.step_panics > 0 || any(&[Crash, Hang]) && ops_of(&r.case).any(|o| matches!(o.f, Some(Fault::Panic(_) | Fault::DropPanic(_) | Fault::ConvPanic))),
        "C15" => any(&[Drop, Comp, Memory]),
        "C16" => any(&[Res]) || (any(&[Crash, Hang, Excl, Panic, Deadlock, LeakLock, Drop, Share, Blocked]) && ops(&|o| matches!(o, Op::ResR { .. } | Op::ResW { .. } | Op::RegRes { .. }))),
        "C17" => r.case.outer || has(Reg),
        "C18" => has(Cross) || any(&[Race, Memory, Panic]) && !r.case.clients.is_empty(),
        "C19" => has(Cost),
        "C22" => has(Differs),
        "C23" => has(Growth),
        "C20" => r.case.other.is_some(),
        "C21" => any(&[Race, Memory, Comp, Escape]) || has(Drop) && !v.msg.contains("never destroyed") && !v.msg.contains("not destroyed yet"),
        _ => false,
    }
}

fn owning(o: &Op) -> bool {
    matches!(o, Op::MakeGroup { g } if g.0 != GKind::Non)
}
/// the same story without owning groups
fn strip_owning(c: &mut Case) {
    fn go(v: &mut Vec<OpX>) {
        v.retain(|o| !owning(&o.op));
        for o in v {
            if let Op::Step { ops } = &mut o.op {
                go(ops);
            }
        }
    }
    go(&mut c.prefix);
    go(&mut c.suffix);
    c.clients.iter_mut().for_each(go);
}

/// after minimisation: is the feature the property is about still needed?
fn confirmed(prop: &str, cx: &Ctx, r: &Record) -> bool {
    if !relevant(prop, r) {
        return false;
    }
    match prop {
        "C14" => {
            // the same story without the faults would be somebody else's
            let mut c = r.case.clone();
            strip_faults(&mut c);
            if let Sched::Choices(_) = c.sched {
                c.sched = Sched::Pct { seed: 5, changes: 3, horizon: 60, barge: 300 };
            }
            matches!(attempt(cx, &c, 0, 60, false, false, 11, 20), Got::Nothing)
        }
        "C07" if !r.viols[0].classes.contains(&Class::Pack) && !matches!(r.viols[0].classes[0], Class::Crash | Class::Hang) => {
            let mut c = r.case.clone();
            strip_owning(&mut c);
            if let Sched::Choices(_) = c.sched {
                c.sched = Sched::Pct { seed: 5, changes: 3, horizon: 60, barge: 300 };
            }
            matches!(attempt(cx, &c, 0, 60, false, false, 11, 20), Got::Nothing)
        }
        "C18" if !r.viols[0].classes.contains(&Class::Cross) => {
            // and one thread alone can do the same
            let mut c = r.case.clone();
            let all: Vec<OpX> = c.clients.drain(..).flatten().collect();
            c.prefix.extend(all);
            if let Sched::Choices(_) = c.sched {
                c.sched = Sched::Pct { seed: 5, changes: 3, horizon: 60, barge: 300 };
            }
            matches!(attempt(cx, &c, 0, 5, false, false, 11, 20), Got::Nothing)
        }
        "C20" => alone(cx, &r.case, 60, 11),
        _ => true,
    }
}

/// of two worlds, each alone is fine
pub fn alone(cx: &Ctx, c: &Case, seeds: u64, slot: usize) -> bool {
    let mut a = c.clone();
    let mut b = match a.other.take() {
        Some(b) => *b,
        None => return false,
    };
    for c in [&mut a, &mut b] {
        if let Sched::Choices(_) = c.sched {
            c.sched = Sched::Pct { seed: 5, changes: 3, horizon: 60, barge: 300 };
        }
    }
    [a, b].iter().all(|c| matches!(attempt(cx, c, 0, if c.clients.is_empty() { 1 } else { seeds }, false, false, slot, 20), Got::Nothing))
}

fn strip_faults(c: &mut Case) {
    fn go(v: &mut Vec<OpX>) {
        for o in v {
            if matches!(o.f, Some(Fault::Panic(_) | Fault::DropPanic(_) | Fault::ConvPanic)) {
                o.f = None;
            }
            if let Op::Step { ops } = &mut o.op {
                go(ops);
            }
        }
    }
    go(&mut c.prefix);
    go(&mut c.suffix);
    c.clients.iter_mut().for_each(go);
}

struct Worker {
    child: Child,
    path: String,
    slot: u64,
    from: u64,
    watch: Watch,
}
fn watched(child: &Child, path: &str, from: u64) -> Watch {
    Watch::new(child.id(), &format!("{}.status", path), from)
}

fn spawn(prop: &str, base: u64, from: u64, step: u64, count: u64, secs: u64, path: &str, cpu: u64) -> Child {
    let err = std::fs::File::create(format!("{}.err", path)).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop, &base.to_string(), &from.to_string(), &step.to_string(), &count.to_string(), &secs.to_string(), path, &cpu.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .expect("spawn worker")
}

fn root() -> String {
    std::env::var("XSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let id = it.next()?.strip_prefix("id=")?;
            (p == prop).then(|| (id.to_string(), it.next().unwrap_or("").to_string()))
        })
        .collect()
}

fn arg<'a>(a: &[&'a str], k: &str) -> Option<&'a str> {
    a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1).copied())
}

/// what distinguishes one violation from another of the same property
fn signature(r: &Record) -> String {
    if r.case.alias && r.viols[0].classes == [Class::Escape] {
        return "query-lookup-twice".into();
    }
    if r.viols[0].classes == [Class::Escape] {
        return "query-item-outlives-query".into();
    }
    String::new()
}

pub fn check(a: &[&str]) -> i32 {
    let prop = arg(a, "--property").unwrap_or("").to_string();
    let tier = arg(a, "--tier").unwrap_or("quick").to_string();
    let pl = match plan(&prop) {
        Some(p) => p,
        None => {
            eprintln!("no such check: {}", prop);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let quick = tier != "thorough";
    let count: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if quick { pl.quick } else { pl.thorough });
    let secs: u64 = arg(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if quick { 60 } else { 780 });
    let nw = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 16));
    let t0 = Instant::now();
    let dir = format!("{}/sim/target/work/{}-{}-{}", root(), prop, tier, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let cx = Ctx { prop: prop.clone(), dir: dir.clone(), deadline: Instant::now(), tries: Default::default() };
    let mut total = Sum::default();
    let mut foreign: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut unreproduced = 0u64;
    let mut found: Option<Record> = None;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: Vec<String> = vec![];

    // scripted runs for recorded findings
    let scripts: &[bool] = match prop.as_str() {
        "C09" => &[false, true],
        "C21" => &[false],
        _ => &[],
    };
    for alias in scripts {
        let case = Case {
            hash_seed: 1,
            prefix: vec![],
            clients: vec![],
            suffix: vec![],
            outer: false,
            drop_points: false,
            audit_every: 1,
            escape: !alias,
            alias: *alias,
            other: None,
            mem: false,
            cross: vec![],
            cost: None,
            drill: None,
            sched: Sched::Sticky { seed, p: 300, barge: 0 },
        };
        total.runs += 1;
        for k in 0..40 {
            if let Got::Rec(r) = attempt(&cx, &case, k, k + 1, false, false, 10, 20) {
                let sig = signature(&r);
                match known(&prop).iter().find(|x| x.0 == sig) {
                    Some((id, text)) => {
                        println!("KNOWN-FINDING: property={} id={} {}", prop, id, text);
                        *known_hits.entry(id.clone()).or_insert(0) += 1;
                    }
                    None => found = Some(*r),
                }
                break;
            }
        }
    }

    let mut ws: Vec<Worker> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    if found.is_none() {
        for i in 0..nw {
            let path = format!("{}/w{}", dir, i);
            let child = spawn(&prop, seed, i, nw, count, secs, &path, i);
            let watch = watched(&child, &path, i);
            ws.push(Worker { child, path, slot: i, from: i, watch });
        }
    }
    let mut candidates_tried = 0;
    let mut killed9 = 0;
    let mut restarts = 0u64;
    let deadline = t0 + Duration::from_secs(secs);
    while !ws.is_empty() && found.is_none() {
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < ws.len() && found.is_none() {
            let done = ws[i].child.try_wait().unwrap();
            let (rec, next): (Option<Record>, u64) = match done {
                None => {
                    if !ws[i].watch.stuck() {
                        i += 1;
                        continue;
                    }
                    let s = ws[i].watch.at();
                    let _ = ws[i].child.kill();
                    let _ = ws[i].child.wait();
                    (Some(died(&prop, seed, s, Class::Hang, "a library call never came back")), s)
                }
                Some(st) if st.code() == Some(0) => {
                    collect(&ws[i].path, &mut total, &mut hashes);
                    ws.remove(i);
                    continue;
                }
                Some(st) if st.code() == Some(EXIT_VIOL) => {
                    collect(&ws[i].path, &mut total, &mut hashes);
                    let r: Record = serde_json::from_slice(&std::fs::read(format!("{}.rec", ws[i].path)).unwrap()).unwrap();
                    let n = r.idx;
                    (Some(r), n)
                }
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    let s = ws[i].watch.at();
                    let err = std::fs::read_to_string(format!("{}.err", ws[i].path)).unwrap_or_default();
                    total.runs += (s - ws[i].from) / nw + 1;
                    if st.signal() == Some(9) {
                        // ended from outside (memory guard): try again, a few times
                        killed9 += 1;
                        if killed9 > 5 {
                            eprintln!("workers keep being killed from outside");
                            return 2;
                        }
                        let path = ws[i].path.clone();
                        let left = deadline.saturating_duration_since(Instant::now()).as_secs();
                        ws[i].child = spawn(&prop, seed, s, nw, count, left, &path, ws[i].slot);
                        ws[i].from = s;
                        ws[i].watch = watched(&ws[i].child, &ws[i].path, s);
                        continue;
                    }
                    if st.code() == Some(EXIT_OOM) {
                        total.lin_unknown += 1;
                        notes.push(format!("run {}: not judged, the checker ran out of memory", s));
                        (None, s)
                    } else
                    if st.signal().is_none() && st.code() == Some(101) {
                        eprintln!("worker failed: {}", err);
                        return 2;
                    } else {
                    (Some(died(&prop, seed, s, Class::Crash, &format!("the process died with {}: {}", st, err.chars().take(1500).collect::<String>()))), s)
                    }
                }
            };
            if let Some(r) = rec {
                let mut mine = relevant(&prop, &r);
                let sig = signature(&r);
                if mine && known(&prop).iter().any(|k| !sig.is_empty() && k.0 == sig) {
                    *known_hits.entry(sig.clone()).or_insert(0) += 1;
                    mine = false;
                }
                if mine && candidates_tried < 6 && unreproduced < 60 {
                    candidates_tried += 1;
                    let cx = Ctx { prop: prop.clone(), dir: dir.clone(), deadline: Instant::now() + Duration::from_secs(if quick { 60 } else { 150 }), tries: Default::default() };
                    // everything else waits meanwhile
                    for w in ws.iter_mut() {
                        unsafe { libc::kill(w.child.id() as i32, libc::SIGSTOP) };
                    }
                    // first in a fresh process
                    let again = match attempt(&cx, &r.case, 0, 1, false, false, 8, 30) {
                        Got::Rec(q) if relevant(&prop, &q) => Some(*q),
                        _ => None,
                    };
                    if let (Some(q), "C20") = (&again, prop.as_str()) {
                        mine = alone(&cx, &q.case, 60, 11);
                    }
                    match again {
                        Some(_) if !mine => {}
                        Some(q) => {
                            let m = shrink(&cx, q);
                            if confirmed(&prop, &cx, &m) {
                                found = Some(m);
                            } else {
                                mine = false;
                            }
                        }
                        None => {
                            // left over from an earlier run of the same process, perhaps: a run
                            // with two worlds will tell
                            unreproduced += 1;
                            candidates_tried -= 1;
                            if unreproduced < 4 { notes.push(format!("run {}: {} -- did not happen again in a fresh process", r.idx, r.viols[0].msg.lines().next().unwrap_or(""))); }
                            mine = false;
                        }
                    }
                    for w in ws.iter_mut() {
                        unsafe { libc::kill(w.child.id() as i32, libc::SIGCONT) };
                        w.watch.reset();
                    }
                }
                if found.is_none() {
                    let _ = mine;
                    let mut names: Vec<String> = r.viols[0].classes.iter().map(|c| format!("{:?}", c)).collect();
                    names.sort();
                    let key = format!("[{}]", names.join(", "));
                    let e = foreign.entry(key).or_insert((0, format!("run {}: {}", r.idx, r.viols[0].msg.lines().next().unwrap_or(""))));
                    e.0 += 1;
                }
            }
            if found.is_some() {
                break;
            }
            // carry on behind it
            let left = deadline.saturating_duration_since(Instant::now()).as_secs();
            restarts += 1;
            if left == 0 || next + nw >= count || restarts > 20_000 {
                ws.remove(i);
                continue;
            }
            let path = ws[i].path.clone();
            ws[i].child = spawn(&prop, seed, next + nw, nw, count, left, &path, ws[i].slot);
            ws[i].from = next + nw;
            ws[i].watch = watched(&ws[i].child, &ws[i].path, next + nw);
            i += 1;
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    for i in 0..nw {
        if let Ok(b) = std::fs::read(format!("{}/w{}.hashes", dir, i)) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();

    let mut code = 0;
    if let Some(r) = &found {
        let path = write_replay(&prop, seed, &cx, r);
        println!("{}", r.viols[0].msg);
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    for (k, (n, m)) in &foreign {
        println!("note: {} run(s) violated {} (not this property): {}", n, k, m);
    }
    for n in &notes {
        println!("note: {}", n);
    }
    println!(
        "{} {}: {} runs ({} concurrent, {} with faults), {} simulated steps, {} distinct event histories, {} violation(s), {:.1} s",
        prop, tier, total.runs, total.conc_runs, total.fault_runs, total.steps, hashes.len(), found.is_some() as u32, explore_s
    );
    write_evidence(&prop, &tier, seed, pl.what, &total, hashes.len() as u64, &foreign, &known_hits, unreproduced, found.is_some(), explore_s, t0.elapsed().as_secs_f64(), nw);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn collect(path: &str, total: &mut Sum, _h: &mut HashSet<u64>) {
    if let Ok(b) = std::fs::read(format!("{}.sum", path)) {
        if let Ok(s) = serde_json::from_slice::<Sum>(&b) {
            total.add(&s);
        }
        let _ = std::fs::remove_file(format!("{}.sum", path));
    }
}

fn died(prop: &str, base: u64, idx: u64, c: Class, msg: &str) -> Record {
    let case = generate(prop, case_seed(prop, base, idx), all_pats());
    Record { idx, case, viols: vec![Viol { classes: vec![c], msg: msg.into(), step: 0 }], choices: vec![], hash: 0, fired: Fired::default(), trace: vec![] }
}

fn write_replay(prop: &str, seed: u64, cx: &Ctx, r: &Record) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:08x}.json", dir, prop, parking_lot::sim::mix(r.hash ^ serde_json::to_vec(&r.case).unwrap().iter().fold(0u64, |h, b| parking_lot::sim::mix(h ^ *b as u64))) as u32);
    // once more, traced, in a fresh process
    let fin = match attempt(cx, &r.case, 0, 1, true, false, 12, 30) {
        Got::Rec(q) => *q,
        Got::Nothing => r.clone(),
    };
    let v = json!({
        "property": prop,
        "verif_seed": seed,
        "run_index": r.idx,
        "violation": fin.viols,
        "event_hash": format!("{:016x}", fin.hash),
        "faults_fired": fin.fired,
        "case": r.case,
        "second_world": fin.case.other.as_ref().map(|o| o.prefix.iter().map(|o| format!("before: {:?}", o)).chain(o.clients.iter().enumerate().flat_map(|(i, c)| c.iter().map(move |o| format!("client {}: {:?}", i, o)))).chain(o.suffix.iter().map(|o| format!("after: {:?}", o))).collect::<Vec<_>>()),
        "operations": fin.case.prefix.iter().map(|o| format!("before: {:?}", o)).chain(fin.case.clients.iter().enumerate().flat_map(|(i, c)| c.iter().map(move |o| format!("client {}: {:?}", i, o)))).chain(fin.case.suffix.iter().map(|o| format!("after: {:?}", o))).collect::<Vec<_>>(),
        "trace": fin.trace,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// replay FILE: exit 1 if the violation happens again exactly, 0 if nothing is violated
pub fn replay(a: &[&str]) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(a[0]).or_else(|_| std::fs::read(format!("{}/{}", root(), a[0]))).expect("replay file")).expect("json");
    let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let dir = format!("{}/sim/target/work/replay-{}", root(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let cx = Ctx { prop: prop.clone(), dir: dir.clone(), deadline: Instant::now(), tries: Default::default() };
    let g = attempt(&cx, &case, 0, 1, true, false, 0, 60);
    let _ = std::fs::remove_dir_all(&dir);
    match g {
        Got::Nothing => {
            println!("replay: no violation on this tree");
            0
        }
        Got::Rec(r) => {
            for t in &r.trace {
                println!("{}", t);
            }
            println!("{}", r.viols[0].msg);
            let h = format!("{:016x}", r.hash);
            println!("replay: event hash {} ({})", h, if Some(h.as_str()) == v["event_hash"].as_str() { "the recorded execution, exactly" } else { "differs from the recorded one: the code has changed" });
            println!("VIOLATION property={} replay={}", prop, a[0]);
            1
        }
    }
}

/// show PROP INDEX [SEED]: run one generated case with its trace
pub fn show(a: &[&str]) -> i32 {
    let idx: u64 = a[1].parse().unwrap();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let case = generate(a[0], case_seed(a[0], seed, idx), all_pats());
    println!("{}", serde_json::to_string(&case).unwrap());
    let dir = format!("/tmp/xsim-show-{}", std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let cx = Ctx { prop: a[0].into(), dir: dir.clone(), deadline: Instant::now(), tries: Default::default() };
    let g = attempt(&cx, &case, 0, 1, true, false, 0, 60);
    let _ = std::fs::remove_dir_all(&dir);
    match g {
        Got::Nothing => {
            println!("no violation");
            0
        }
        Got::Rec(r) => {
            for t in &r.trace {
                println!("{}", t);
            }
            println!("{:?}", r.viols);
            1
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &str, tier: &str, seed: u64, what: &str, t: &Sum, distinct: u64, foreign: &BTreeMap<String, (u64, String)>, known: &BTreeMap<String, u64>, unreproduced: u64, violated: bool, explore_s: f64, wall: f64, nw: u64) {
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let per_hour = |n: u64| (n as f64 / explore_s.max(0.001) * 3600.0) as u64;
    let f = &t.fired;
    let v = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "violations": violated as u32,
        "wall_s": wall,
        "coverage": {
            "subject": what,
            "evaluations": t.runs,
            "distinct_nontrivial": distinct,
            "rule": "one evaluation = one simulated run of a generated case (operations of all clients, faults, scheduling policy) under one seed. Distinct and non-trivial = at least 3 library calls were made, counted by distinct hash of the run's full event sequence (every operation with its arguments, every lock event, every context switch).",
            "samples": t.samples,
            "runs_per_hour": per_hour(t.runs),
            "seeds_per_hour": per_hour(t.runs),
            "workers": nw,
            "concurrent_runs": t.conc_runs,
            "runs_through_outer_lock_and_systems": t.outer_runs,
            "runs_with_injected_faults": t.fault_runs,
            "simulated_time_steps": t.steps,
            "simulated_time_note": "the code under test reads no clock and sets no timer; simulated time is the number of scheduler events",
            "longest_run_steps": t.max_steps_run,
            "scheduling_points": t.points,
            "context_switches": t.switches,
            "preemptions": t.preemptions,
            "lock_acquisitions": t.acquisitions,
            "atomic_operations_as_scheduling_points": t.atomics,
            "futex_calls_simulated": t.futex,
            "lock_waits": t.blocks,
            "readers_that_passed_a_waiting_writer": t.barges,
            "readers_that_queued_behind_a_waiting_writer": t.barge_waits,
            "runs_with_memory_oracle": t.mem_runs,
            "memory_reads_judged": t.mem_reads,
            "memory_writes_judged": t.mem_writes,
            "memory_blocks_under_observation": t.mem_blocks,
            "library_operations": t.ops,
            "state_audits": t.audits,
            "concurrent_history_nodes_checked": t.conc_nodes,
            "linearization_search_states": t.lin_states,
            "histories_not_decided_within_search_budget": t.lin_unknown,
            "runs_cut_short": t.cut_short,
            "quiescent_waits_judged": t.blocked_judged,
            "faults_fired": {
                "client_panic_holding_guards": f.client_panics,
                "panic_in_destructor_run_by_library": f.drop_panics,
                "panic_in_user_conversion_run_by_library": f.conv_panics,
                "client_stall_holding_guards": f.stalls,
                "system_cancelled": f.cancels,
                "panic_inside_exclusive_step": f.step_panics,
                "calls_refused_by_library": f.refusals,
                "hand_overs_to_another_thread_refused_by_the_type_system": f.handovers_refused,
            },
            "probes": t.probes,
            "violations_of_other_properties_seen": foreign.iter().map(|(k, (n, m))| json!({"classes": k, "runs": n, "first": m})).collect::<Vec<_>>(),
            "known_findings_reproduced": known,
            "not_reproduced_in_fresh_process": unreproduced,
            "real_components": ["xecs::World", "entity manager", "sparse sets", "groups", "queries", "guards and handles", "resources", "System trait", "lock_api guards", "std collections"],
            "stub_components": ["parking_lot raw locks (replaced by simlock)", "OS scheduling (replaced by the seeded scheduler)", "getrandom (seeded)"]
        },
        "assumptions": [
            "the replaced parking_lot keeps its contract: shared/exclusive exclusion, no poisoning, a new reader may queue behind or pass a waiting writer, no fairness beyond that",
            "interleavings are explored at lock operations, atomic operations, futex calls, and client/destructor/conversion code run by the library; code between two such points is treated as one step",
            if t.mem_runs > 0 { "in runs with the memory oracle, plain accesses to memory the library allocated are judged by happens-before; stack memory and code of the precompiled standard library are not" } else { "plain memory accesses of the library between two such points are not themselves racing (property C21 judges that)" }
        ]
    });
    let _ = std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&v).unwrap());
}

//! Simulated cost of iteration (C19): how many accesses to the world's memory it takes,
//! operations on locks and atomics and waiting counted as several. The same
//! history is played in worlds that differ only in the group they have.
use crate::case::Cost;
use crate::comps::*;
use crate::run::*;
use parking_lot::{race, sim};
use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, NonOwning, PartialOwning};
use xecs::query::WithId;
use xecs::{EntityId, World};

/// components that cost nothing to look at
struct Pa(#[allow(dead_code)] u64);
struct Pb(#[allow(dead_code)] u32);

const KINDS: [&str; 4] = ["no group", "a full-owning group", "a partial-owning group", "a non-owning group"];
const WAYS: [&str; 8] = ["(&A, &B)", "(&A, &mut B)", "(&mut A, &B)", "(&mut A, &mut B)", "(&A, &B) with ids", "(&A, &mut B) with ids", "(&mut A, &B) with ids", "(&mut A, &mut B) with ids"];

#[derive(Clone, Copy)]
struct Mk(fn() -> xecs::group::Group);
impl From<Mk> for xecs::group::Group {
    fn from(m: Mk) -> xecs::group::Group {
        (m.0)()
    }
}

/// (accesses, items)
fn cost<I: Iterator>(q: impl FnOnce() -> I) -> (u64, u64) {
    let a = race::cost();
    let n = observed(|| {
        let mut n = 0;
        for i in q() {
            std::hint::black_box(&i);
            n += 1;
        }
        n
    });
    (race::cost() - a, n)
}

macro_rules! ways {
    ($w:expr, $n:ident) => {
        [
            cost(|| $w.query::<$n<&Pa, &Pb>>()),
            cost(|| $w.query::<$n<&Pa, &mut Pb>>()),
            cost(|| $w.query::<$n<&mut Pa, &Pb>>()),
            cost(|| $w.query::<$n<&mut Pa, &mut Pb>>()),
            cost(|| $w.query::<$n<&Pa, &Pb>>().with_id()),
            cost(|| $w.query::<$n<&Pa, &mut Pb>>().with_id()),
            cost(|| $w.query::<$n<&mut Pa, &Pb>>().with_id()),
            cost(|| $w.query::<$n<&mut Pa, &mut Pb>>().with_id()),
        ]
    };
}
type Plain<A, B> = (A, B);

struct Measured {
    costs: [(u64, u64); 8],
    members: u64,
    only_a: u64,
    only_b: u64,
}

fn measure(kind: usize, c: &Cost) -> Measured {
    let mut w = observed(World::new);
    observed(|| {
        w.register::<Pa>().register::<Pb>();
    });
    let group = |w: &mut World| {
        observed(|| match kind {
            1 => w.make_group(Mk(|| full_owning::<Pa, Pb>().into())),
            2 => w.make_group(Mk(|| partial_owning::<Pa, Pb>().into())),
            3 => w.make_group(Mk(|| non_owning::<Pa, Pb>().into())),
            _ => {}
        })
    };
    let mut live: Vec<(EntityId, bool, bool)> = vec![];
    for (i, a) in c.acts.iter().enumerate() {
        if i == c.group_at {
            group(&mut w);
        }
        let (what, x) = (a % 16, (a / 16) as usize);
        let k = x % live.len().max(1);
        run().ops += 1;
        sim::note(*a as u64);
        sim::stamp();
        observed(|| match what {
            0..=4 => live.push((w.create_entity().attach(Pa(0)).attach(Pb(0)).into_id(), true, true)),
            5 => live.push((w.create_entity().attach(Pb(0)).attach(Pa(0)).into_id(), true, true)),
            6..=8 => live.push((w.create_entity().attach(Pa(1)).into_id(), true, false)),
            9..=11 => live.push((w.create_entity().attach(Pb(1)).into_id(), false, true)),
            12 if !live.is_empty() => w.remove_entity(live.swap_remove(k).0),
            13 if !live.is_empty() => {
                let e = w.entity(live[k].0).unwrap();
                if x & 1 == 0 {
                    e.detach::<Pa>();
                    live[k].1 = false;
                } else {
                    e.detach::<Pb>();
                    live[k].2 = false;
                }
            }
            14 if !live.is_empty() => {
                w.attach_component(live[k].0, Pa(2));
                live[k].1 = true;
            }
            15 => {
                let n = 1 + x % 5;
                let es = w.create_entities(n);
                let es = es.attach::<Pa, Vec<Pa>>((0..n).map(|_| Pa(3)).collect());
                let es = es.attach::<Pb, Vec<Pb>>((0..n).map(|_| Pb(3)).collect());
                live.extend(es.into_ids().map(|e| (e, true, true)));
            }
            _ => {}
        });
    }
    if c.group_at >= c.acts.len() {
        group(&mut w);
    }
    let costs = match kind {
        0 => ways!(w, Plain),
        1 => ways!(w, FullOwning),
        2 => ways!(w, PartialOwning),
        _ => ways!(w, NonOwning),
    };
    observed(|| drop(w));
    let n = |f: &dyn Fn(&(EntityId, bool, bool)) -> bool| live.iter().filter(|e| f(e)).count() as u64;
    Measured { costs, members: n(&|e| e.1 && e.2), only_a: n(&|e| e.1 && !e.2), only_b: n(&|e| !e.1 && e.2) }
}

pub fn compare(c: &Cost) {
    let m: Vec<Measured> = (0..4).map(|k| measure(k, c)).collect();
    let n = m[0].members;
    // of few items, fixed costs tell nothing
    if n < 16 {
        return;
    }
    let sparse = m[0].only_a >= n && m[0].only_b >= n;
    probe(if sparse { "iteration cost compared in a world where most entities are outside the group" } else { "iteration cost compared in a world where most entities are in the group" });
    for i in 0..WAYS.len() {
        let cost = |k: usize| m[k].costs[i].0;
        let what = |k: usize, than: usize| {
            format!(
                "iterating {} of {} entities through {} takes {} memory accesses, with {} it takes {} ({} more have only A, {} only B)",
                WAYS[i], n, KINDS[k], cost(k), KINDS[than], cost(than), m[0].only_a, m[0].only_b
            )
        };
        trace(|| format!("{}: {} members, {} only A, {} only B: {}", WAYS[i], n, m[0].only_a, m[0].only_b, (0..4).map(|k| format!("{} {}", KINDS[k], cost(k))).collect::<Vec<_>>().join(", ")));
        sim::note((0..4).map(cost).fold(0, |h, c| sim::mix(h ^ c)));
        for k in 1..4 {
            if m[k].costs[i].1 != n {
                // whether it yields the right entities is for others to say
                return;
            }
            // where everybody is a member there is little to save by lists of members
            let slack = if sparse || k == 1 { 100 } else { 125 };
            if cost(k) * 100 > cost(0) * slack {
                violate(Class::Cost, what(k, 0));
            }
        }
        for k in 2..4 {
            if cost(1) >= cost(k) {
                violate(Class::Cost, what(1, k));
            }
        }
        if bad() {
            return;
        }
    }
}

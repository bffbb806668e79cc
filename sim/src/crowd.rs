//! Bystanders: component and resource types, groups and values the rest of the run never
//! mentions. They make the world big in kinds, and nothing may ever happen to them except
//! that they go with their entity.
use crate::comps::KRES;
use crate::run::{run, violate_all, Class};
use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, NonOwning, PartialOwning};
use xecs::{EntityId, World};

pub const NF: usize = 260;
#[derive(Clone, Copy, Debug)]
struct F<const N: usize>(u64);
struct FR<const N: usize>(u64);

struct Fns {
    register: fn(&mut World),
    known: fn(&World) -> bool,
    attach: fn(&World, EntityId, u64),
    detach: fn(&World, EntityId) -> Option<u64>,
    get: fn(&World, EntityId) -> Option<u64>,
    count: fn(&World) -> Option<usize>,
    ids: fn(&World) -> Vec<u64>,
    res_set: fn(&mut World, u64),
    res_get: fn(&World) -> Option<u64>,
}
fn fns<const N: usize>() -> Fns {
    Fns {
        register: |w| {
            w.register::<F<N>>();
        },
        known: |w| w.has_registered::<F<N>>(),
        attach: |w, e, v| w.attach_component(e, F::<N>(v)),
        detach: |w, e| w.detach_component::<F<N>>(e).map(|f| f.0),
        get: |w, e| w.entity_component_read::<F<N>>(e).map(|c| c.0),
        count: |w| w.components_read::<F<N>>().map(|s| s.count()),
        ids: |w| {
            use xecs::query::WithId;
            w.query::<&F<N>>().with_id().take(100_000).map(|(id, _)| id.get() as u64).collect()
        },
        res_set: |w, v| w.register_resource(FR::<N>(v)),
        res_get: |w| w.resource_read::<FR<N>>().map(|r| r.0),
    }
}
macro_rules! table {
    ($(($($n:literal)*))*) => {
        fn f(n: usize) -> Fns {
            match n { $($($n => fns::<$n>(),)*)* _ => unreachable!() }
        }
    };
}
table! {
    (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19)
    (20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39)
    (40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59)
    (60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79)
    (80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99)
    (100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119)
    (120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139)
    (140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159)
    (160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179)
    (180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199)
    (200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219)
    (220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239)
    (240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259)
}
/// groups of two bystanders each: bystander a and a + 1, for a = 0, 2, 4 ...
pub const NPAIR: usize = 70;
fn make<const A: usize, const B: usize>(w: &mut World) {
    match A / 2 % 3 {
        0 => w.make_group(full_owning::<F<A>, F<B>>()),
        1 => w.make_group(partial_owning::<F<A>, F<B>>()),
        _ => w.make_group(non_owning::<F<A>, F<B>>()),
    }
}
fn look<const A: usize, const B: usize>(w: &World) -> Vec<u64> {
    use xecs::query::WithId;
    macro_rules! go {
        ($G:ident) => {
            w.query::<$G<&F<A>, &F<B>>>().with_id().take(100_000).map(|(id, _)| id.get() as u64).collect()
        };
    }
    match A / 2 % 3 {
        0 => go!(FullOwning),
        1 => go!(PartialOwning),
        _ => go!(NonOwning),
    }
}
fn make_pair(w: &mut World, a: usize) {
    match a {
        0 => make::<0, 1>(w), 2 => make::<2, 3>(w), 4 => make::<4, 5>(w), 6 => make::<6, 7>(w), 8 => make::<8, 9>(w), 10 => make::<10, 11>(w), 12 => make::<12, 13>(w), 14 => make::<14, 15>(w), 16 => make::<16, 17>(w), 18 => make::<18, 19>(w),
        20 => make::<20, 21>(w), 22 => make::<22, 23>(w), 24 => make::<24, 25>(w), 26 => make::<26, 27>(w), 28 => make::<28, 29>(w), 30 => make::<30, 31>(w), 32 => make::<32, 33>(w), 34 => make::<34, 35>(w), 36 => make::<36, 37>(w), 38 => make::<38, 39>(w),
        40 => make::<40, 41>(w), 42 => make::<42, 43>(w), 44 => make::<44, 45>(w), 46 => make::<46, 47>(w), 48 => make::<48, 49>(w), 50 => make::<50, 51>(w), 52 => make::<52, 53>(w), 54 => make::<54, 55>(w), 56 => make::<56, 57>(w), 58 => make::<58, 59>(w),
        60 => make::<60, 61>(w), 62 => make::<62, 63>(w), 64 => make::<64, 65>(w), 66 => make::<66, 67>(w), 68 => make::<68, 69>(w), 70 => make::<70, 71>(w), 72 => make::<72, 73>(w), 74 => make::<74, 75>(w), 76 => make::<76, 77>(w), 78 => make::<78, 79>(w),
        80 => make::<80, 81>(w), 82 => make::<82, 83>(w), 84 => make::<84, 85>(w), 86 => make::<86, 87>(w), 88 => make::<88, 89>(w), 90 => make::<90, 91>(w), 92 => make::<92, 93>(w), 94 => make::<94, 95>(w), 96 => make::<96, 97>(w), 98 => make::<98, 99>(w),
        100 => make::<100, 101>(w), 102 => make::<102, 103>(w), 104 => make::<104, 105>(w), 106 => make::<106, 107>(w), 108 => make::<108, 109>(w), 110 => make::<110, 111>(w), 112 => make::<112, 113>(w), 114 => make::<114, 115>(w), 116 => make::<116, 117>(w), 118 => make::<118, 119>(w),
        120 => make::<120, 121>(w), 122 => make::<122, 123>(w), 124 => make::<124, 125>(w), 126 => make::<126, 127>(w), 128 => make::<128, 129>(w), 130 => make::<130, 131>(w), 132 => make::<132, 133>(w), 134 => make::<134, 135>(w), 136 => make::<136, 137>(w), 138 => make::<138, 139>(w),
        _ => unreachable!(),
    }
}
fn look_pair(w: &World, a: usize) -> Vec<u64> {
    match a {
        0 => look::<0, 1>(w), 2 => look::<2, 3>(w), 4 => look::<4, 5>(w), 6 => look::<6, 7>(w), 8 => look::<8, 9>(w), 10 => look::<10, 11>(w), 12 => look::<12, 13>(w), 14 => look::<14, 15>(w), 16 => look::<16, 17>(w), 18 => look::<18, 19>(w),
        20 => look::<20, 21>(w), 22 => look::<22, 23>(w), 24 => look::<24, 25>(w), 26 => look::<26, 27>(w), 28 => look::<28, 29>(w), 30 => look::<30, 31>(w), 32 => look::<32, 33>(w), 34 => look::<34, 35>(w), 36 => look::<36, 37>(w), 38 => look::<38, 39>(w),
        40 => look::<40, 41>(w), 42 => look::<42, 43>(w), 44 => look::<44, 45>(w), 46 => look::<46, 47>(w), 48 => look::<48, 49>(w), 50 => look::<50, 51>(w), 52 => look::<52, 53>(w), 54 => look::<54, 55>(w), 56 => look::<56, 57>(w), 58 => look::<58, 59>(w),
        60 => look::<60, 61>(w), 62 => look::<62, 63>(w), 64 => look::<64, 65>(w), 66 => look::<66, 67>(w), 68 => look::<68, 69>(w), 70 => look::<70, 71>(w), 72 => look::<72, 73>(w), 74 => look::<74, 75>(w), 76 => look::<76, 77>(w), 78 => look::<78, 79>(w),
        80 => look::<80, 81>(w), 82 => look::<82, 83>(w), 84 => look::<84, 85>(w), 86 => look::<86, 87>(w), 88 => look::<88, 89>(w), 90 => look::<90, 91>(w), 92 => look::<92, 93>(w), 94 => look::<94, 95>(w), 96 => look::<96, 97>(w), 98 => look::<98, 99>(w),
        100 => look::<100, 101>(w), 102 => look::<102, 103>(w), 104 => look::<104, 105>(w), 106 => look::<106, 107>(w), 108 => look::<108, 109>(w), 110 => look::<110, 111>(w), 112 => look::<112, 113>(w), 114 => look::<114, 115>(w), 116 => look::<116, 117>(w), 118 => look::<118, 119>(w),
        120 => look::<120, 121>(w), 122 => look::<122, 123>(w), 124 => look::<124, 125>(w), 126 => look::<126, 127>(w), 128 => look::<128, 129>(w), 130 => look::<130, 131>(w), 132 => look::<132, 133>(w), 134 => look::<134, 135>(w), 136 => look::<136, 137>(w), 138 => look::<138, 139>(w),
        _ => unreachable!(),
    }
}

/// one bystander in many groups: 0 and k, for k = 2, 3 ...
const STAR: std::ops::Range<usize> = 2..39;
fn ray<const A: usize, const B: usize>(w: &mut World) {
    w.make_group(non_owning::<F<A>, F<B>>())
}
fn look_ray<const A: usize, const B: usize>(w: &World) -> Vec<u64> {
    use xecs::query::WithId;
    w.query::<NonOwning<&F<A>, &F<B>>>().with_id().take(100_000).map(|(id, _)| id.get() as u64).collect()
}
fn make_star(w: &mut World, k: usize) {
    match k {
        2 => ray::<0, 2>(w), 3 => ray::<0, 3>(w), 4 => ray::<0, 4>(w), 5 => ray::<0, 5>(w), 6 => ray::<0, 6>(w), 7 => ray::<0, 7>(w), 8 => ray::<0, 8>(w), 9 => ray::<0, 9>(w),
        10 => ray::<0, 10>(w), 11 => ray::<0, 11>(w), 12 => ray::<0, 12>(w), 13 => ray::<0, 13>(w), 14 => ray::<0, 14>(w), 15 => ray::<0, 15>(w), 16 => ray::<0, 16>(w), 17 => ray::<0, 17>(w),
        18 => ray::<0, 18>(w), 19 => ray::<0, 19>(w), 20 => ray::<0, 20>(w), 21 => ray::<0, 21>(w), 22 => ray::<0, 22>(w), 23 => ray::<0, 23>(w), 24 => ray::<0, 24>(w), 25 => ray::<0, 25>(w),
        26 => ray::<0, 26>(w), 27 => ray::<0, 27>(w), 28 => ray::<0, 28>(w), 29 => ray::<0, 29>(w), 30 => ray::<0, 30>(w), 31 => ray::<0, 31>(w), 32 => ray::<0, 32>(w), 33 => ray::<0, 33>(w),
        34 => ray::<0, 34>(w), 35 => ray::<0, 35>(w), 36 => ray::<0, 36>(w), 37 => ray::<0, 37>(w), 38 => ray::<0, 38>(w),
        _ => unreachable!(),
    }
}
fn look_star(w: &World, k: usize) -> Vec<u64> {
    match k {
        2 => look_ray::<0, 2>(w), 3 => look_ray::<0, 3>(w), 4 => look_ray::<0, 4>(w), 5 => look_ray::<0, 5>(w), 6 => look_ray::<0, 6>(w), 7 => look_ray::<0, 7>(w), 8 => look_ray::<0, 8>(w), 9 => look_ray::<0, 9>(w),
        10 => look_ray::<0, 10>(w), 11 => look_ray::<0, 11>(w), 12 => look_ray::<0, 12>(w), 13 => look_ray::<0, 13>(w), 14 => look_ray::<0, 14>(w), 15 => look_ray::<0, 15>(w), 16 => look_ray::<0, 16>(w), 17 => look_ray::<0, 17>(w),
        18 => look_ray::<0, 18>(w), 19 => look_ray::<0, 19>(w), 20 => look_ray::<0, 20>(w), 21 => look_ray::<0, 21>(w), 22 => look_ray::<0, 22>(w), 23 => look_ray::<0, 23>(w), 24 => look_ray::<0, 24>(w), 25 => look_ray::<0, 25>(w),
        26 => look_ray::<0, 26>(w), 27 => look_ray::<0, 27>(w), 28 => look_ray::<0, 28>(w), 29 => look_ray::<0, 29>(w), 30 => look_ray::<0, 30>(w), 31 => look_ray::<0, 31>(w), 32 => look_ray::<0, 32>(w), 33 => look_ray::<0, 33>(w),
        34 => look_ray::<0, 34>(w), 35 => look_ray::<0, 35>(w), 36 => look_ray::<0, 36>(w), 37 => look_ray::<0, 37>(w), 38 => look_ray::<0, 38>(w),
        _ => unreachable!(),
    }
}

fn eid(id: u64) -> EntityId {
    EntityId::new(id as usize).unwrap()
}
fn mix(x: u64) -> u64 {
    let x = (x ^ x >> 31).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^ x >> 29
}
fn tag(n: usize, id: u64) -> u64 {
    (n as u64) << 40 | id
}

/// register bystanders `from..to`, with resources and groups among them
pub fn arrive(w: &mut World, from: usize, to: usize, res: bool, groups: bool) {
    let c = &mut run().crowd;
    for n in from..to {
        (f(n).register)(w);
        c.known.insert(n);
        if res {
            (f(n).res_set)(w, tag(n, KRES as u64));
            c.res.insert(n);
        }
        if groups && n % 2 == 1 && n / 2 < NPAIR && c.known.contains(&(n - 1)) {
            make_pair(w, n - 1);
            c.pairs.push((n - 1, n));
        }
        if groups && res && STAR.contains(&n) && c.known.contains(&0) {
            make_star(w, n);
            c.pairs.push((0, n));
        }
    }
}

/// give some of them to entities, or take them away again
pub fn mingle(w: &World, salt: u64, top: u64) {
    let c = &mut run().crowd;
    let known: Vec<usize> = c.known.iter().copied().collect();
    if known.is_empty() {
        return;
    }
    for i in 0..24 {
        let s = mix(salt + i);
        let id = 1 + s % top.max(1);
        // mostly neighbours of the edges
        let n = match s >> 20 & 3 {
            0 => known[(s >> 32) as usize % known.len()],
            1 => known[if s >> 27 & 1 == 0 { 0 } else { (s >> 32) as usize % known.len().min(40) }],
            2 => *known.last().unwrap(),
            _ => known[known.len() / 2],
        };
        if c.off || !w.exist(eid(id)) {
            continue;
        }
        let at = c.held.entry(id).or_default();
        if s >> 25 & 3 == 0 {
            let want = at.iter().position(|x| *x == n).map(|p| at.swap_remove(p));
            let got = (f(n).detach)(w, eid(id));
            if got != want.map(|n| tag(n, id)) {
                violate_all(vec![Class::Cellv, Class::Comp], format!("bystander {} of entity {}: detached {:?}, {} expected", n, id, got, if want.is_some() { "one" } else { "none" }));
                return;
            }
        } else {
            (f(n).attach)(w, eid(id), tag(n, id));
            if !at.contains(&n) {
                at.push(n);
            }
        }
    }
}

pub fn audit(w: &World) {
    let r = run();
    let fi = &r.fired;
    if fi.client_panics + fi.drop_panics + fi.conv_panics + fi.step_panics + fi.cancels > 0 || r.lost > 0 {
        r.crowd.off = true;
    }
    let c = &mut r.crowd;
    if c.known.is_empty() {
        return;
    }
    let last = *c.known.last().unwrap();
    for (edge, what) in [(16, "over 16 bystander types"), (32, "over 32 bystander types"), (64, "over 64 bystander types"), (128, "over 128 bystander types"), (256, "over 256 bystander types")] {
        if last > edge {
            *r.probes.entry(what).or_default() += 1;
        }
    }
    if c.pairs.len() > 64 {
        *r.probes.entry("over 64 groups").or_default() += 1;
    }
    for n in [0, last / 2, last, last + 1, NF - 1] {
        if n < NF && (f(n).known)(w) != c.known.contains(&n) {
            violate_all(vec![Class::Reg], format!("bystander {} is {}registered", n, if c.known.contains(&n) { "not " } else { "" }));
            return;
        }
    }
    for n in c.res.iter().copied() {
        let got = (f(n).res_get)(w);
        if got != Some(tag(n, KRES as u64)) {
            violate_all(vec![Class::Res], format!("resource of bystander {} reads {:x?}", n, got));
            return;
        }
    }
    if c.off {
        return;
    }
    let mut of: std::collections::BTreeMap<usize, Vec<u64>> = Default::default();
    for (id, ns) in &c.held {
        let alive = w.exist(eid(*id));
        for n in ns {
            let got = (f(*n).get)(w, eid(*id));
            if alive && got != Some(tag(*n, *id)) {
                violate_all(vec![Class::Cellv], format!("bystander {} of entity {} reads {:x?}, {:x} expected", n, id, got, tag(*n, *id)));
                return;
            }
            if !alive && got.is_some() {
                violate_all(vec![Class::Removal], format!("bystander {} is still there after entity {} was removed", n, id));
                return;
            }
            if alive {
                of.entry(*n).or_default().push(*id);
            }
        }
    }
    for n in c.known.iter().copied() {
        let want = of.get(&n).map_or(0, |v| v.len());
        let got = (f(n).count)(w);
        if got != Some(want) {
            violate_all(vec![Class::Removal, Class::Cellv], format!("{:?} entities have bystander {}, {} expected", got, n, want));
            return;
        }
        if want > 0 {
            let mut ids = (f(n).ids)(w);
            ids.sort_unstable();
            if ids != of[&n] {
                violate_all(vec![Class::Query], format!("a query for bystander {} yields {:?}, {:?} expected", n, ids, of[&n]));
                return;
            }
        }
    }
    for (a, b) in c.pairs.iter().copied() {
        let none = vec![];
        let other = of.get(&b).unwrap_or(&none);
        let want: Vec<u64> = of.get(&a).unwrap_or(&none).iter().filter(|i| other.contains(i)).copied().collect();
        let mut got = if a + 1 == b { look_pair(w, a) } else { look_star(w, b) };
        got.sort_unstable();
        if got != want {
            violate_all(vec![Class::Group], format!("the group of bystanders {} and {} yields {:?}, {:?} expected", a, b, got, want));
            return;
        }
    }
}

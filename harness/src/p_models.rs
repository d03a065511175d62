//! C05 distances, C06 neighbour lists, C23 sectors, C26 fleet bound.

use crate::engine::{part, splitmix, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use hybridcvrp::models::{CircleSector, Matrix};
use hybridcvrp::solver::improvement::LocalSearch;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C05", parts: vec![distances(), distances_large(), distances_huge(), container()] },
        Prop { id: "C06", parts: vec![neighbours(), neighbours_large()] },
        Prop { id: "C23", parts: vec![sectors(), sector_laws(), route_sectors(), route_sectors_large()] },
        Prop { id: "C26", parts: vec![fleet_bound(), fleet_large(), fleet_exact()] },
    ]
}

// --- C05 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DistCase {
    inst: Inst,
    picks: Vec<u16>,
    reads: Vec<(u16, u16, u16)>,
}

fn dist_strategy(max: usize) -> BoxedStrategy<DistCase> {
    dist_between(2, max)
}

fn dist_between(min: usize, max: usize) -> BoxedStrategy<DistCase> {
    (inst(SMALL.customers(min, max)), vec(any::<u16>(), 3..12.max(min)), vec((any::<u16>(), any::<u16>(), any::<u16>()), 0..6))
        .prop_map(|(inst, picks, reads)| DistCase { inst, picks, reads })
        .boxed()
}

/// Rounding may go either way only if the unrounded value sits on the tie up to float noise.
fn same_distance(inst: &Inst, i: usize, j: usize, got: f64) -> bool {
    let want = inst.dist(i, j);
    if got == want {
        return true;
    }
    let raw = inst.raw_dist(i, j);
    if inst.rounded {
        let tie = (raw - raw.floor() - 0.5).abs() < 1e-9 * raw.max(1.0);
        let exact = raw - raw.floor() == 0.5;
        tie && !exact && (got == raw.floor() || got == raw.ceil())
    } else {
        (got - want).abs() <= 1e-9 * want.abs()
    }
}

fn check_distances(inst: &Inst, map: &[usize], ctx: &hybridcvrp::solver::Context) -> Check {
    let d = &ctx.matrix_provider.distance;
    let n = map.len();
    for i in 0..n {
        for j in 0..n {
            let got = d.get(i, j);
            ensure!(same_distance(inst, map[i], map[j], got), "distance {}-{} is {}, should be {} (raw {})", map[i], map[j], got, inst.dist(map[i], map[j]), inst.raw_dist(map[i], map[j]));
            ensure!(got == d.get(j, i), "distance {}-{} is not symmetric", map[i], map[j]);
        }
        ensure!(d.get(i, i) == 0.0, "distance of {} to itself is {}", map[i], d.get(i, i));
    }
    Ok(())
}

fn dist_test(case: &DistCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let n = inst.dim();
    let ctx = inst.default_context(1);
    let d = &ctx.matrix_provider.distance;
    let all: Vec<usize> = (0..n).collect();
    ensure!(d.size() == n, "size {} of {}", d.size(), n);
    check_distances(inst, &all, &ctx)?;
    // The other storage mode agrees exactly.
    let mut other = inst.clone();
    other.precompute = !inst.precompute;
    let octx = other.default_context(1);
    for i in 0..n {
        for j in 0..n {
            ensure!(d.get(i, j) == octx.matrix_provider.distance.get(i, j), "distance {}-{} depends on the storage mode: {} / {}", i, j, d.get(i, j), octx.matrix_provider.distance.get(i, j));
        }
        // Whole rows, as the neighbour lists read them.
        let row = d.get_vec(i, 0, n);
        ensure!(row.len() == n && (0..n).all(|j| row[j] == d.get(i, j)), "row {} reads {:?}", i, row);
    }
    for &(a, b, c) in &case.reads {
        let (i, j) = (a as usize % n, b as usize % n);
        // Row after row, as far as there are any.
        let len = c as usize % ((n * n - (i * n + j)).min(2 * n) + 1);
        let row = d.get_vec(i, j, len);
        ensure!(row.len() == len && (0..len).all(|k| row[k] == d.get(i + (j + k) / n, (j + k) % n)), "part of row {} from {} reads {:?}", i, j, row);
    }
    // Largest distance, when the matrix is stored.
    if inst.precompute || inst.matrix.is_some() {
        let mut max = 0.0f64;
        for i in 0..n {
            for j in 0..i {
                max = max.max(d.get(i, j));
            }
        }
        let got = d.max();
        ensure!(got.is_some() && (got.unwrap() - max).abs() <= 1e-6, "largest distance {:?}, should be {}", got, max);
    }
    // Sub-problem.
    let mut map = vec![0usize];
    for p in &case.picks {
        let c = 1 + *p as usize % (n - 1);
        if !map.contains(&c) {
            map.push(c);
        }
    }
    if map.len() >= 3 {
        let sub = ctx.from_mapping(&map);
        ensure!(sub.problem.dim() == map.len() && sub.matrix_provider.distance.size() == map.len(), "sub-problem has {} nodes, {} selected", sub.problem.dim(), map.len());
        for i in 0..map.len() {
            let (a, b) = (&sub.problem.nodes[i], &ctx.problem.nodes[map[i]]);
            ensure!(a.demand == b.demand && a.coord.lng == b.coord.lng && a.coord.lat == b.coord.lat, "node {} of the sub-problem is not node {} of the parent", i, map[i]);
            for j in 0..map.len() {
                ensure!(sub.matrix_provider.distance.get(i, j) == d.get(map[i], map[j]), "sub-problem distance {}-{} is {}, parent has {}", i, j, sub.matrix_provider.distance.get(i, j), d.get(map[i], map[j]));
            }
        }
        ensure!(sub.problem.vehicle.cap == inst.cap, "sub-problem capacity {}", sub.problem.vehicle.cap);
        if let Some(max) = sub.matrix_provider.distance.max() {
            let mut want = 0.0f64;
            for i in 0..map.len() {
                for j in 0..i {
                    want = want.max(d.get(map[i], map[j]));
                }
            }
            ensure!((max - want).abs() <= 1e-6, "largest distance {} of the sub-problem, should be {}", max, want);
        }
        // A sub-problem of the sub-problem.
        if map.len() >= 4 {
            let inner: Vec<usize> = vec![0, map.len() - 1, 1];
            let subsub = sub.from_mapping(&inner);
            for i in 0..3 {
                for j in 0..3 {
                    ensure!(subsub.matrix_provider.distance.get(i, j) == d.get(map[inner[i]], map[inner[j]]), "nested sub-problem distance differs");
                }
            }
        }
        obs.class("sub-problem");
    }
    obs.class(if inst.matrix.is_some() { "explicit" } else { "euclidean" });
    obs.class(if inst.rounded { "rounded" } else { "unrounded" });
    obs.class(if inst.precompute { "stored" } else { "lazy" });
    let fractional = (0..n).any(|i| (0..i).any(|j| inst.raw_dist(i, j).fract() != 0.0));
    obs.class_if(fractional && inst.rounded, "rounding matters");
    if fractional {
        obs.nontrivial();
    }
    Ok(())
}

fn distances() -> Part {
    part("small", "instances (explicit and Euclidean, stored and lazy, rounded or not) x selections; non-trivial: some distance is fractional before rounding", 25_000, 600_000, || dist_strategy(10), dist_test)
}
fn distances_huge() -> Part {
    part("huge", "as small with 200 to 420 customers", 20, 500, || dist_between(200, 420), dist_test).shrink(40)
}
fn distances_large() -> Part {
    part("large", "as small with up to 60 customers", 1_500, 40_000, || dist_strategy(60), dist_test)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ContainerCase {
    rows: usize,
    cols: usize,
    ops: Vec<(u8, u16, u16, u32)>,
}

/// The matrix container against a vector model.
fn container_test(case: &ContainerCase, obs: &mut Obs) -> Check {
    let (r, c) = (case.rows, case.cols);
    let mut model = vec![0u64; r * c];
    let mut m: Matrix<u64> = Matrix::new(r, c);
    let init: Matrix<u64> = Matrix::init(42, r, c);
    for i in 0..r {
        for j in 0..c {
            ensure!(m.get(i, j) == 0, "new matrix holds {}", m.get(i, j));
            ensure!(init.get(i, j) == 42, "initialised matrix holds {}", init.get(i, j));
        }
    }
    for &(op, a, b, v) in &case.ops {
        let (i, j) = (a as usize % r, b as usize % c);
        match op % 6 {
            0 | 1 => {
                m.set(i, j, v as u64);
                model[i * c + j] = v as u64;
            }
            2 => {
                *m.get_mut(i, j) += v as u64;
                model[i * c + j] += v as u64;
            }
            3 => {
                let n = v as usize % (c - j + 1);
                for x in m.slice_mut(i, j, n) {
                    *x ^= 5;
                }
                for x in &mut model[i * c + j..i * c + j + n] {
                    *x ^= 5;
                }
            }
            4 => m = m.clone(),
            _ => {
                let n = v as usize % (c - j + 1);
                ensure!(m.slice(i, j, n) == &model[i * c + j..i * c + j + n], "slice of row {}", i);
            }
        }
    }
    for i in 0..r {
        for j in 0..c {
            ensure!(m.get(i, j) == model[i * c + j], "cell {},{} holds {}, should hold {}", i, j, m.get(i, j), model[i * c + j]);
        }
    }
    ensure!(m.get_max() == *model.iter().max().unwrap(), "maximum {}", m.get_max());
    if r == c {
        let map: Vec<usize> = case.ops.iter().map(|o| o.1 as usize % r).collect();
        if !map.is_empty() {
            let s = m.from_mapping(&map);
            for i in 0..map.len() {
                for j in 0..map.len() {
                    ensure!(s.get(i, j) == model[map[i] * c + map[j]], "mapped cell {},{}", i, j);
                }
            }
        }
    }
    if case.ops.len() >= 3 && r > 1 && c > 1 {
        obs.nontrivial();
    }
    Ok(())
}

fn container() -> Part {
    part(
        "container",
        "matrix operations against a vector model; non-trivial: three or more operations on at least 2x2 cells",
        20_000,
        400_000,
        || {
            (1usize..8, 1usize..8, vec((any::<u8>(), any::<u16>(), any::<u16>(), 0u32..1000), 0..12))
                .prop_map(|(rows, cols, ops)| ContainerCase { rows, cols, ops })
                .boxed()
        },
        container_test,
    )
}

// --- C06 -------------------------------------------------------------------------------------

fn check_neighbours(ctx: &hybridcvrp::solver::Context) -> Check {
    let n = ctx.problem.dim();
    let d = &ctx.matrix_provider.distance;
    let width = 200.min(n - 2);
    for i in 0..n {
        let list = ctx.matrix_provider.correlation.get(i);
        ensure!(list.len() == width, "list of {} has {} entries, {} possible", i, list.len(), width);
        let mut seen = vec![false; n];
        for &j in list {
            ensure!(j > 0 && j < n, "list of {} holds {}", i, j);
            ensure!(j != i, "list of {} holds the node itself", i);
            ensure!(!seen[j], "list of {} holds {} twice", i, j);
            seen[j] = true;
        }
        for w in list.windows(2) {
            ensure!(d.get(i, w[0]) <= d.get(i, w[1]), "list of {} is not sorted: {} at {} before {} at {}", i, w[0], d.get(i, w[0]), w[1], d.get(i, w[1]));
        }
        if let Some(&last) = list.last() {
            for j in 1..n {
                ensure!(j == i || seen[j] || d.get(i, j) >= d.get(i, last), "{} at {} is missing in the list of {} that ends at {}", j, d.get(i, j), i, d.get(i, last));
            }
        }
        ensure!(ctx.matrix_provider.correlation.top_slice(i, width.min(3)) == &list[..width.min(3)], "head of the list of {} differs", i);
    }
    Ok(())
}

fn neighbours_test(case: &DistCase, obs: &mut Obs) -> Check {
    let ctx = case.inst.default_context(1);
    check_neighbours(&ctx)?;
    let n = case.inst.dim();
    let mut map = vec![0usize];
    for p in &case.picks {
        let c = 1 + *p as usize % (n - 1);
        if !map.contains(&c) {
            map.push(c);
        }
    }
    if map.len() >= 3 {
        check_neighbours(&ctx.from_mapping(&map))?;
        obs.class("sub-problem");
    }
    let ties = (1..n).any(|i| (1..i).any(|j| i != j && case.inst.dist(0, i) == case.inst.dist(0, j)));
    obs.class_if(ties, "ties");
    obs.class_if(n > 202, "longer than the list limit");
    obs.class_if(!case.inst.precompute, "lazy");
    if n >= 5 {
        obs.nontrivial();
    }
    Ok(())
}

fn neighbours() -> Part {
    part("small", "instances x selections; non-trivial: four or more customers", 20_000, 500_000, || dist_strategy(14), neighbours_test)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeded {
    n: usize,
    seed: u64,
    grid: u64,
    precompute: bool,
    rounded: bool,
}

fn big_inst(s: &Seeded) -> Inst {
    let nodes = (0..=s.n)
        .map(|i| {
            let r = splitmix(s.seed ^ splitmix(i as u64));
            ((r % s.grid) as f64, ((r >> 20) % s.grid) as f64, if i == 0 { 0.0 } else { 1.0 + ((r >> 40) % 9) as f64 })
        })
        .collect();
    Inst { nodes, cap: 50.0, rounded: s.rounded, precompute: s.precompute, matrix: None }
}

fn neighbours_large_test(case: &Seeded, obs: &mut Obs) -> Check {
    let inst = big_inst(case);
    let ctx = inst.default_context(1);
    check_neighbours(&ctx)?;
    let map: Vec<usize> = std::iter::once(0).chain((1..=case.n).filter(|i| splitmix(case.seed ^ *i as u64) % 8 != 0)).collect();
    check_neighbours(&ctx.from_mapping(&map))?;
    obs.class_if(case.n > 201, "longer than the list limit");
    obs.class_if(case.n > 801, "four times the list limit and longer");
    obs.class_if(map.len() > 202, "sub-problem longer than the list limit");
    if case.n > 201 {
        obs.nontrivial();
    }
    Ok(())
}

fn neighbours_large() -> Part {
    part(
        "large",
        "180 to 2400 customers (most below 330) on grids of 3 to 1000 (many ties on small grids), and a selection of 7/8 of them; non-trivial: more customers than the list limit",
        160,
        3_000,
        || {
            let size = prop_oneof![12 => 180usize..330, 4 => 330usize..1300, 1 => 1300usize..2400];
            (size, any::<u64>(), prop_oneof![Just(3u64), Just(30), Just(1000), Just(100_000)], any::<bool>(), any::<bool>())
                .prop_map(|(n, seed, grid, precompute, rounded)| Seeded { n, seed, grid, precompute, rounded })
                .boxed()
        },
        neighbours_large_test,
    )
}

// --- C23 -------------------------------------------------------------------------------------

const FULL: i64 = 65536;

fn on_arc(start: i64, end: i64, a: i64) -> bool {
    // Walk counter-clockwise from start to end.
    let len = (end - start).rem_euclid(FULL);
    let off = (a - start).rem_euclid(FULL);
    off <= len
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Angles {
    angles: Vec<i32>,
    probes: Vec<i32>,
}

fn angle() -> BoxedStrategy<i32> {
    prop_oneof![3 => 0i32..65536, 2 => Just(0i32), 1 => 65530i32..65536, 1 => 0i32..6, 1 => 32760i32..32776, 1 => (0i32..16).prop_map(|k| k * 4096)].boxed()
}

fn sectors_test(case: &Angles, obs: &mut Obs) -> Check {
    let mut s = CircleSector::new();
    let mut model: Option<(i64, i64)> = None;
    for &a in &case.angles {
        let a64 = a as i64;
        model = Some(match model {
            None => (a64, a64),
            Some((st, en)) => {
                if on_arc(st, en, a64) {
                    (st, en)
                } else if (a64 - en).rem_euclid(FULL) <= (st - a64).rem_euclid(FULL) {
                    (st, a64)
                } else {
                    (a64, en)
                }
            }
        });
        s.extend(a);
        let (st, en) = model.unwrap();
        ensure!((s.start as i64, s.end as i64) == (st, en), "after {:?} the sector is [{}, {}], should be [{}, {}]", case.angles, s.start, s.end, st, en);
    }
    for &a in &case.angles {
        ensure!(s.is_enclosed(a), "sector [{}, {}] does not enclose {} of {:?}", s.start, s.end, a, case.angles);
    }
    for &p in &case.probes {
        if let Some((st, en)) = model {
            ensure!(s.is_enclosed(p) == on_arc(st, en, p as i64), "angle {} in [{}, {}]: {}", p, st, en, s.is_enclosed(p));
        }
    }
    // Reuse after a reset.
    s.reset();
    if let Some(&a) = case.angles.last() {
        s.extend(a);
        ensure!(s.start == a && s.end == a, "after reset and {} the sector is [{}, {}]", a, s.start, s.end);
        s.reset();
        s.from_angle(a);
        ensure!(s.start == a && s.end == a, "from_angle({}) gives [{}, {}]", a, s.start, s.end);
        for &a in &case.angles {
            s.extend(a);
        }
        for &a in &case.angles {
            ensure!(s.is_enclosed(a), "sector started by from_angle loses {}", a);
        }
    }
    let mut d = case.angles.clone();
    d.sort();
    d.dedup();
    if d.len() >= 3 {
        obs.nontrivial();
    }
    obs.class_if(case.angles.contains(&0), "contains angle 0");
    obs.class_if(case.angles.first() == Some(&0), "starts at angle 0");
    Ok(())
}

fn sectors() -> Part {
    part(
        "extend",
        "sequences of angles, extended one by one and compared with an independent model; non-trivial: three or more distinct angles",
        200_000,
        5_000_000,
        || (prop_oneof![12 => vec(angle(), 0..8), 1 => vec(angle(), 8..80)], vec(angle(), 0..4)).prop_map(|(angles, probes)| Angles { angles, probes }).boxed(),
        sectors_test,
    )
}

fn sector_laws_test(case: &(Vec<i32>, Vec<i32>), obs: &mut Obs) -> Check {
    let build = |v: &Vec<i32>| {
        let mut s = CircleSector::new();
        s.from_angle(v[0]);
        for &a in &v[1..] {
            s.extend(a);
        }
        s
    };
    let (s, t) = (build(&case.0), build(&case.1));
    let a = s.overlaps(&t);
    ensure!(a == t.overlaps(&s), "overlap of [{}, {}] and [{}, {}] depends on who asks", s.start, s.end, t.start, t.end);
    // Two arcs meet iff one starts inside the other.
    let meet = on_arc(s.start as i64, s.end as i64, t.start as i64) || on_arc(t.start as i64, t.end as i64, s.start as i64);
    ensure!(a == meet, "[{}, {}] and [{}, {}] overlap: {}, should be {}", s.start, s.end, t.start, t.end, a, meet);
    // Brute force over candidate angles: arcs that meet share one of their end points.
    let shared = [s.start, s.end, t.start, t.end].iter().any(|&x| s.is_enclosed(x) && t.is_enclosed(x));
    ensure!(a == shared, "[{}, {}] and [{}, {}] overlap: {}, share an angle: {}", s.start, s.end, t.start, t.end, a, shared);
    ensure!(s.overlaps(&s), "a sector does not overlap itself");
    // A sector of no angles shares none, new or reset.
    let mut none = build(&case.0);
    none.reset();
    for none in [CircleSector::new(), none] {
        ensure!(none.is_empty() && !none.is_enclosed(s.start) && !none.overlaps(&s) && !s.overlaps(&none) && !none.overlaps(&none), "a sector without angles shares some with [{}, {}]", s.start, s.end);
    }
    obs.class(if a { "overlap" } else { "disjoint" });
    obs.class_if(s.start > s.end || t.start > t.end, "across angle zero");
    obs.nontrivial();
    Ok(())
}

fn sector_laws() -> Part {
    part(
        "overlap",
        "pairs of sectors built from 1 to 4 angles; every case is non-trivial",
        150_000,
        4_000_000,
        || (vec(angle(), 1..5), vec(angle(), 1..5)).boxed(),
        sector_laws_test,
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RouteSector {
    inst: Inst,
    raw: RawRoutes,
    slots: usize,
}

/// Sectors kept by the local search for loaded routes, against angles computed here.
fn route_sector_test(case: &RouteSector, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let ctx = inst.default_context(1);
    let n = inst.customers();
    let angle = |c: usize| -> i32 {
        let (x, y) = (inst.nodes[c].0 - inst.nodes[0].0, inst.nodes[c].1 - inst.nodes[0].1);
        ((y.atan2(x) / std::f64::consts::PI * 32768.0).round() as i64).rem_euclid(FULL) as i32
    };
    for c in 0..=n {
        let got = ctx.problem.get_angle(c);
        ensure!((0..65536).contains(&got), "angle of node {} is {}", c, got);
        let off = (got as i64 - angle(c) as i64).rem_euclid(FULL);
        ensure!(off <= 1 || off == FULL - 1, "angle of node {} is {}, should be {}", c, got, angle(c));
    }
    let slots = case.slots.min(fleet(&ctx));
    let mut routes = case.raw.routes(n, slots);
    routes.resize(fleet(&ctx), Vec::new());
    let mut ls = LocalSearch::new(&ctx, 1.0);
    ls.load_individual(&individual(&ctx, &routes));
    for (k, r) in routes.iter().enumerate() {
        if r.is_empty() {
            continue;
        }
        let s = &ls.routes[k].sector;
        let mut model: Option<CircleSector> = None;
        for &c in r {
            let a = ctx.problem.get_angle(c);
            ensure!(s.is_enclosed(a), "sector [{}, {}] of route {:?} does not enclose customer {} at {}", s.start, s.end, r, c, a);
            match model.as_mut() {
                None => {
                    let mut m = CircleSector::new();
                    m.from_angle(a);
                    model = Some(m);
                }
                Some(m) => m.extend(a),
            }
        }
        let m = model.unwrap();
        ensure!(s.start == m.start && s.end == m.end, "sector of {:?} is [{}, {}], should be [{}, {}]", r, s.start, s.end, m.start, m.end);
        if r.len() >= 2 {
            obs.nontrivial();
        }
        obs.class_if(ctx.problem.get_angle(r[0]) == 0, "route starts at angle 0");
    }
    Ok(())
}

fn route_sectors() -> Part {
    part(
        "routes",
        "instances x route sets loaded into the local search; non-trivial: a route of two or more customers",
        20_000,
        400_000,
        || (inst(SMALL.customers(2, 10)), raw_routes(10), 1usize..6).prop_map(|(inst, raw, slots)| RouteSector { inst, raw, slots }).boxed(),
        route_sector_test,
    )
}

fn route_sectors_large() -> Part {
    part(
        "routes-large",
        "as routes with 30 to 300 customers",
        300,
        8_000,
        || (inst(SMALL.customers(30, 300)), raw_routes(300), 1usize..60).prop_map(|(inst, raw, slots)| RouteSector { inst, raw, slots }).boxed(),
        route_sector_test,
    )
    .shrink(100)
}

// --- C26 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Packing {
    demands: Vec<u32>,
    cap: u32,
    unit: f64,
}

fn packing_strategy(max: usize) -> BoxedStrategy<Packing> {
    let mode = prop_oneof![
        1 => Just((1u32, 100u32)),
        2 => Just((51, 60)),   // above half
        2 => Just((34, 50)),   // above a third
        1 => Just((26, 100)),
        1 => Just((1, 10)),
        1 => Just((0, 100)),
        1 => Just((100, 101)),
    ];
    (mode, vec(any::<u32>(), 2..max), prop_oneof![Just(1.0f64), Just(0.25), Just(0.1), Just(7.0)])
        .prop_map(|((lo, hi), raw, unit)| Packing { demands: raw.iter().map(|r| lo + r % (hi - lo)).collect(), cap: 100, unit })
        .boxed()
}

fn packing_inst(p: &Packing) -> Inst {
    let mut nodes = vec![(0.0, 0.0, 0.0)];
    for (i, d) in p.demands.iter().enumerate() {
        nodes.push((i as f64, 1.0, *d as f64 * p.unit));
    }
    Inst { nodes, cap: p.cap as f64 * p.unit, rounded: true, precompute: true, matrix: None }
}

fn first_fit_decreasing(demands: &[u32], cap: u32) -> usize {
    let mut d = demands.to_vec();
    d.sort_by(|a, b| b.cmp(a));
    let mut bins: Vec<u32> = Vec::new();
    for x in d {
        match bins.iter_mut().find(|b| **b + x <= cap) {
            Some(b) => *b += x,
            None => bins.push(x),
        }
    }
    bins.len()
}

/// Martello and Toth's L2: no packing uses fewer bins.
fn packing_lower_bound(demands: &[u32], cap: u32) -> usize {
    let mut best = 0;
    for k in 0..=cap / 2 {
        let (mut large, mut half, mut half_load, mut small_load) = (0u64, 0u64, 0u64, 0u64);
        for &d in demands {
            if d > cap - k {
                large += 1;
            } else if 2 * d > cap {
                half += 1;
                half_load += d as u64;
            } else if d >= k {
                small_load += d as u64;
            }
        }
        let room = half * cap as u64 - half_load;
        let extra = (small_load.saturating_sub(room) + cap as u64 - 1) / cap as u64;
        best = best.max((large + half + extra) as usize);
    }
    best
}

fn fleet_test(case: &Packing, obs: &mut Obs) -> Check {
    let inst = packing_inst(case);
    let ctx = inst.default_context(1);
    let got = fleet(&ctx);
    let total: u64 = case.demands.iter().map(|&d| d as u64).sum();
    // The quotient in exact arithmetic; the code's may be off by float noise when it is integral.
    let exact = (total + case.cap as u64 - 1) / case.cap as u64;
    let noise = total % case.cap as u64 == 0;
    let lower = ctx.vehicle_lower_bound();
    ensure!(lower == exact || (noise && lower == exact + 1), "lower bound {} for total {} and capacity {}", lower, total, case.cap);
    let margin = ((12 * lower + 20) as f64 / 10.0).ceil() as usize;
    ensure!(got >= margin || ((12 * lower + 20) % 10 == 0 && got + 1 >= margin), "fleet {} below the documented margin {}", got, margin);
    let ffd = first_fit_decreasing(&case.demands, case.cap);
    let needed = packing_lower_bound(&case.demands, case.cap);
    ensure!(needed <= ffd, "oracle: L2 {} above first-fit-decreasing {}", needed, ffd);
    ensure!(got >= needed, "fleet of {} vehicles, but no packing uses fewer than {} for {:?} in {}", got, needed, case.demands, case.cap);
    obs.class_if(needed > margin, "margin alone cannot hold any packing");
    // A fleet far beyond the number of customers would only slow the search down.
    ensure!(got <= margin.max(2 * case.demands.len() + 3) + 1, "fleet {} for {} customers", got, case.demands.len());
    obs.class_if(ffd > margin, "margin alone too small");
    obs.class_if(ffd as u64 > lower, "packing bites");
    if ffd as u64 > lower {
        obs.nontrivial();
    }
    // The whole search uses this fleet.
    let ls = LocalSearch::new(&ctx, 1.0);
    ensure!(ls.routes.len() == got && ls.start_depots.len() == got && ls.end_depots.len() == got, "local search has {} routes of {}", ls.routes.len(), got);
    let rr = hybridcvrp::solver::improvement::RuinRecreate::new(&ctx);
    ensure!(rr.solution.routes.len() == got && rr.current_solution.routes.len() == got, "ruin and recreate has {} routes of {}", rr.solution.routes.len(), got);
    let ind = hybridcvrp::solver::genetic::Individual::new_random(&ctx, 0);
    ensure!(ind.phenotype.len() == got, "new individual has {} routes of {}", ind.phenotype.len(), got);
    Ok(())
}

fn fleet_bound() -> Part {
    part("bound", "demand vectors of up to 60 customers in bands that make packing easy or hard; non-trivial: first-fit-decreasing needs more than the lower bound", 20_000, 400_000, || packing_strategy(60), fleet_test)
}

fn fleet_large() -> Part {
    part("bound-large", "as bound with up to 900 customers", 300, 8_000, || packing_strategy(900), fleet_test).shrink(100)
}

fn fleet_exact_test(case: &Packing, obs: &mut Obs) -> Check {
    let inst = packing_inst(case);
    let ctx = inst.default_context(1);
    if let Some((_, vehicles)) = exact(&inst) {
        ensure!(fleet(&ctx) >= vehicles, "fleet of {} vehicles, but {} are needed for {:?} in {}", fleet(&ctx), vehicles, case.demands, case.cap);
        if vehicles as u64 > ctx.vehicle_lower_bound() {
            obs.nontrivial();
        }
    }
    Ok(())
}

fn fleet_exact() -> Part {
    part("exact", "up to 9 customers against an exact packing; non-trivial: the exact packing needs more than the lower bound", 2_000, 40_000, || packing_strategy(9), fleet_exact_test)
}

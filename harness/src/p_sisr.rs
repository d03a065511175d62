//! C31: how much a ruin takes, from where, and in what order it is put back.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use hybridcvrp::solver::improvement::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C31", parts: vec![strength_part(), strength_large(), order_part()] }]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StrengthCase {
    inst: Inst,
    start: RawRoutes,
    slots: usize,
    cavg: usize,
    lmax: usize,
    seed: u64,
}

const ROUNDS: u64 = 3000;
/// The customers preserved in a split string grow by one with this probability.
const LONGER: f64 = 0.99;

/// Distribution of floor(u x) + 1 for uniform u.
fn up_to(x: f64) -> Vec<(usize, f64)> {
    if x <= 0.0 {
        return vec![(1, 1.0)];
    }
    (0..x.ceil() as usize).map(|j| (j + 1, ((j + 1) as f64).min(x) / x - j as f64 / x)).collect()
}

/// Probability of every set of positions taken from a route of `len` around position `at`.
fn string_sets(len: usize, at: usize, longest: f64) -> BTreeMap<u64, f64> {
    let mut sets = BTreeMap::new();
    let starts = |size: usize| ((at + 1).saturating_sub(size), at.min(len - size));
    let bits = |from: usize, to: usize| (from..to).fold(0u64, |b, i| b | 1 << i);
    for (l, p) in up_to(longest.min(len as f64)) {
        let (a, b) = starts(l);
        for s in a..=b {
            *sets.entry(bits(s, s + l)).or_insert(0.0) += p * 0.5 / (b - a + 1) as f64;
        }
        let most = len - l;
        let mut preserved: Vec<(usize, f64)> = Vec::new();
        if most == 0 {
            preserved.push((0, 1.0));
        }
        for m in 1..=most {
            let reach = LONGER.powi(m as i32 - 1);
            preserved.push((m, if m == most { reach } else { reach * (1.0 - LONGER) }));
        }
        for (m, pm) in preserved {
            let (a, b) = starts(l + m);
            for s in a..=b {
                for gap in s..s + l {
                    let set = bits(s, s + l + m) & !bits(gap, gap + m);
                    *sets.entry(set).or_insert(0.0) += p * 0.5 * pm / ((b - a + 1) * l) as f64;
                }
            }
        }
    }
    sets
}

/// What is summed up over all ruins, as a check on small shifts.
const FEATURES: [&str; 5] = ["customers", "strings", "interrupted strings", "first of a route", "pairs"];

fn features(set: u64) -> [f64; 5] {
    let low = if set == 0 { 0 } else { set >> set.trailing_zeros() };
    let interrupted = (low & (low + 1)) != 0;
    [set.count_ones() as f64, 1.0, interrupted as u8 as f64, (set & 1) as f64, (set & (set >> 1)).count_ones() as f64]
}

/// Chernoff: less likely than e^-40 if true.
fn likely(successes: u64, trials: u64, p: f64) -> bool {
    if p < 1e-12 {
        return successes == 0;
    }
    if p > 1.0 - 1e-12 {
        return successes == trials;
    }
    let q = successes as f64 / trials as f64;
    let term = |q: f64, p: f64| if q > 0.0 { q * (q / p).ln() } else { 0.0 };
    trials as f64 * (term(q, p) + term(1.0 - q, 1.0 - p)) < 40.0
}

fn strength_test(case: &StrengthCase, obs: &mut Obs) -> Check {
    let n = case.inst.customers();
    let mut c = hybridcvrp::config::Config::default();
    c.deterministic = true;
    c.seed = case.seed;
    c.average_ruin_cardinality = case.cavg;
    c.max_ruin_string_length = case.lmax;
    let ctx = case.inst.context(c);
    let fleet = fleet(&ctx);
    let mut routes = case.start.routes(n, case.slots.min(fleet).max(1));
    routes.resize(fleet, vec![]);
    let mut start = RuinRecreateSolution::new(&ctx);
    start.load(&individual(&ctx, &routes));
    let all: Vec<usize> = (0..fleet).collect();
    start.evaluate(&ctx, all.iter());

    // What to expect.
    let place = |c: usize| {
        let r = routes.iter().position(|r| r.contains(&c)).unwrap();
        (r, routes[r].iter().position(|&x| x == c).unwrap())
    };
    let longest = (n as f64 / fleet as f64).round().min(case.lmax as f64);
    let most = 4.0 * case.cavg as f64 / (1.0 + longest) - 1.0;
    let mut taken = vec![0.0; n + 1];
    let mut strings = vec![0.0; fleet + 1];
    let mut mean = [0.0; 5];
    for seed in 1..=n {
        let mut anchors: Vec<(usize, usize)> = Vec::new();
        for &c in ctx.matrix_provider.correlation.get(seed) {
            let (r, at) = place(c);
            if !anchors.iter().any(|a| a.0 == r) {
                anchors.push((r, at));
            }
        }
        let sets: Vec<BTreeMap<u64, f64>> = anchors.iter().map(|&(r, at)| string_sets(routes[r].len(), at, longest)).collect();
        for (k, p) in up_to(most) {
            let k = k.min(anchors.len());
            let p = p / n as f64;
            strings[k] += p;
            for (set, ps) in sets[..k].iter().zip(&anchors).flat_map(|(s, a)| s.iter().map(move |(set, ps)| ((*set, a.0), *ps))) {
                let (set, r) = set;
                for (i, &c) in routes[r].iter().enumerate() {
                    if set >> i & 1 == 1 {
                        taken[c] += p * ps;
                    }
                }
                for (m, f) in mean.iter_mut().zip(features(set)) {
                    *m += p * ps * f;
                }
            }
        }
    }

    // What happens.
    let ruin = AdjacentStringRemoval::new(&ctx);
    let mut taken_really = vec![0u64; n + 1];
    let mut strings_really = vec![0u64; fleet + 1];
    let mut sum = [0.0; 5];
    let mut squares = [0.0; 5];
    for _ in 0..ROUNDS {
        let mut sol = start.clone();
        ruin.run(&ctx, &mut sol);
        let mut k = 0;
        let mut here = [0.0; 5];
        for (before, after) in routes.iter().zip(&sol.routes) {
            let mut set = 0u64;
            for (i, c) in before.iter().enumerate() {
                if !after.nodes.contains(c) {
                    set |= 1 << i;
                    taken_really[*c] += 1;
                }
            }
            if set != 0 {
                k += 1;
                for (s, f) in here.iter_mut().zip(features(set)) {
                    *s += f;
                }
            }
        }
        for i in 0..here.len() {
            sum[i] += here[i];
            squares[i] += here[i] * here[i];
        }
        strings_really[k] += 1;
    }
    for c in 1..=n {
        ensure!(
            likely(taken_really[c], ROUNDS, taken[c]),
            "customer {} was taken out {} times in {} ruins of {:?}, {:.1} are expected",
            c, taken_really[c], ROUNDS, routes, taken[c] * ROUNDS as f64
        );
    }
    for k in 0..=fleet {
        ensure!(
            likely(strings_really[k], ROUNDS, strings[k]),
            "{} routes were ruined {} times in {} ruins of {:?}, {:.1} are expected",
            k, strings_really[k], ROUNDS, routes, strings[k] * ROUNDS as f64
        );
    }
    for ((name, s), m) in FEATURES.iter().zip(sum).zip(mean) {
        obs.count(&format!("sum of {}", name), s as u64);
        obs.count(&format!("expected sum of {}, in thousandths", name), (m * ROUNDS as f64 * 1000.0).round() as u64);
    }
    for (name, s) in FEATURES.iter().zip(squares) {
        obs.count(&format!("sum of squares of {}", name), s as u64);
    }
    if strings[1] < 1.0 - 1e-9 && longest >= 2.0 {
        obs.nontrivial();
    }
    obs.class_if(mean[2] > 0.05, "split strings likely");
    obs.class_if(strings[1] > 0.999, "one string at a time");
    obs.class_if(longest < case.lmax as f64, "string bounded by the average route");
    Ok(())
}

/// Over all ruins of the part; the variance is at most the mean square, eight standard deviations.
fn strength_aggregate(_n: u64, c: &BTreeMap<String, u64>) -> Check {
    let get = |k: &str| c.get(k).copied().unwrap_or(0) as f64;
    for name in FEATURES {
        let real = get(&format!("sum of {}", name));
        let expected = get(&format!("expected sum of {}, in thousandths", name)) / 1000.0;
        let width = 100.0 + 8.0 * get(&format!("sum of squares of {}", name)).sqrt();
        ensure!((real - expected).abs() <= width, "over all ruins the sum of {} is {}, {} is expected, give or take {}", name, real, expected, width);
    }
    Ok(())
}

fn strength_large() -> Part {
    part(
        "strength-large",
        "as strength with 23 to 63 customers and settings up to 20",
        20,
        500,
        || {
            (inst(SMALL.customers(23, 63)), raw_routes(63), 2usize..12, prop_oneof![1 => Just(10usize), 2 => 1usize..20], prop_oneof![1 => Just(10usize), 2 => 1usize..20], 0u64..100_000, 0u32..8)
                .prop_map(|(mut inst, start, slots, cavg, lmax, seed, roomy)| {
                    if roomy > 1 {
                        inst.cap = inst.cap.max((inst.total_demand() / roomy as f64).ceil());
                    }
                    StrengthCase { inst, start, slots, cavg, lmax, seed }
                })
                .boxed()
        },
        strength_test,
    )
    .cpu(200)
    .shrink(40)
}

fn strength_part() -> Part {
    part(
        "strength",
        "instance x solution x settings, 3000 ruins each against exact probabilities; non-trivial: strings of two or more and several routes are possible",
        1500,
        40_000,
        || {
            (
                prop_oneof![1 => inst(SMALL.customers(1, 11)), 3 => inst(SMALL.customers(4, 22))],
                raw_routes(22),
                1usize..6,
                prop_oneof![2 => Just(10usize), 3 => 1usize..6],
                prop_oneof![2 => Just(10usize), 3 => 1usize..6],
                0u64..100_000,
                0u32..8,
            )
                .prop_map(|(mut inst, start, slots, cavg, lmax, seed, roomy)| {
                    // A fleet of a few vehicles, so that the average route is long.
                    if roomy > 1 {
                        inst.cap = inst.cap.max((inst.total_demand() / roomy as f64).ceil());
                    }
                    (inst, start, slots, cavg, lmax, seed)
                })
                .prop_map(|(inst, start, slots, cavg, lmax, seed)| StrengthCase { inst, start, slots, cavg, lmax, seed })
                .boxed()
        },
        strength_test,
    )
    .shrink(300)
    .aggregate(strength_aggregate)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OrderCase {
    inst: Inst,
    pick: u64,
    count: usize,
    seed: u64,
}

fn permutations(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut all = Vec::new();
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let first = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, first);
            all.push(p);
        }
    }
    all
}

fn order_test(case: &OrderCase, obs: &mut Obs) -> Check {
    const DRAWS: u64 = 4000;
    let n = case.inst.customers();
    let mut c = hybridcvrp::config::Config::default();
    c.deterministic = true;
    c.seed = case.seed;
    let ctx = case.inst.context(c);
    let d = crate::engine::splitmix(case.pick);
    let mut items: Vec<usize> = (1..=n).collect();
    items.rotate_left(d as usize % n);
    items.truncate(case.count.min(n));
    let demand = |c: usize| case.inst.nodes[c].2;
    let away = |c: usize| case.inst.dist(0, c);
    let distinct = |key: &dyn Fn(usize) -> f64| items.iter().all(|&a| items.iter().all(|&b| a == b || (key(a) - key(b)).abs() > 1e-9));
    if !distinct(&demand) || !distinct(&away) || items.len() < 2 {
        obs.class("ties");
        return Ok(());
    }
    let by = |key: &dyn Fn(usize) -> f64| {
        let mut v = items.clone();
        v.sort_by(|&a, &b| key(a).partial_cmp(&key(b)).unwrap());
        v
    };
    let all = permutations(&items);
    let mut expected: BTreeMap<Vec<usize>, f64> = all.iter().map(|p| (p.clone(), 4.0 / 11.0 / all.len() as f64)).collect();
    *expected.get_mut(&by(&|c| -demand(c))).unwrap() += 4.0 / 11.0;
    *expected.get_mut(&by(&|c| -away(c))).unwrap() += 2.0 / 11.0;
    *expected.get_mut(&by(&away)).unwrap() += 1.0 / 11.0;
    let recreate = GreedyBlink::default();
    let mut sol = RuinRecreateSolution::new(&ctx);
    let mut seen: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    for _ in 0..DRAWS {
        sol.unassigned = items.clone();
        recreate.sort_unassigned(&ctx, &mut sol);
        *seen.entry(sol.unassigned.clone()).or_insert(0) += 1;
    }
    for order in seen.keys() {
        ensure!(expected.contains_key(order), "{:?} became {:?}", items, order);
    }
    for (order, p) in &expected {
        let k = seen.get(order).copied().unwrap_or(0);
        ensure!(
            likely(k, DRAWS, *p),
            "{:?} became {:?} {} times out of {}, {:.1} are expected",
            items, order, k, DRAWS, p * DRAWS as f64
        );
    }
    obs.nontrivial();
    obs.class(&format!("{} customers", items.len()));
    Ok(())
}

fn order_part() -> Part {
    part(
        "order",
        "instance x removed customers, 4000 draws of the order each; non-trivial: demands and distances are distinct",
        1000,
        30_000,
        || (inst(SMALL.customers(3, 9).no_tiny()), any::<u64>(), 2usize..5, 0u64..100_000).prop_map(|(inst, pick, count, seed)| OrderCase { inst, pick, count, seed }).boxed(),
        order_test,
    )
    .shrink(300)
}

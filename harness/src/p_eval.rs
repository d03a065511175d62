//! C07 evaluation, C08 split, C15 broken-pairs distance.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use hybridcvrp::solver::genetic::{Individual, Split};
use hybridcvrp::solver::SolutionEvaluation;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", parts: vec![eval_part(), eval_big_part(), eval_huge_part(), sort_part()] },
        Prop { id: "C08", parts: vec![split_small(), split_large(), split_huge()] },
        Prop { id: "C15", parts: vec![distance_part(), distance_large(), distance_relations(), clones_part(), clones_large()] },
    ]
}

// --- C07 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EvalCase {
    inst: Inst,
    sets: Vec<(RawRoutes, usize, f64)>,
}

fn eval_strategy(max: usize) -> BoxedStrategy<EvalCase> {
    let shape = SMALL.customers(1, max).oversize(8);
    let shape = Shape { min_customers: 2, ..shape };
    (inst(shape), proptest::collection::vec((raw_routes(max), slots(1, 8, max), penalty()), 1..5), 0u32..8, 4i32..17, any::<bool>())
        .prop_map(|(mut inst, sets, fit, power, over)| {
            if fit == 0 {
                // The fullest route of the first set misses its capacity by a little, either way.
                let routes = sets[0].0.routes(inst.customers(), sets[0].1);
                let fullest = routes.iter().map(|r| load(&inst, r)).fold(0.0, f64::max);
                let little = if over { -(2f64.powi(-power)) } else { 2f64.powi(-power) };
                if fullest >= 1.0 {
                    inst.cap = fullest + little;
                }
            }
            EvalCase { inst, sets }
        })
        .boxed()
}

fn eval_test(case: &EvalCase, obs: &mut Obs) -> Check {
    let ctx = case.inst.default_context(1);
    // One evaluation object and one individual reused for all sets, as the search does.
    let mut reused = SolutionEvaluation::new();
    let mut ind = Individual::empty();
    for (raw, slots, pen) in &case.sets {
        let routes = raw.routes(case.inst.customers(), *slots);
        ctx.config.borrow_mut().penalty_capacity = *pen;
        ind.phenotype = routes.clone();
        ind.genotype = routes.iter().flatten().copied().collect();
        ind.evaluate(&ctx);
        check_evaluation(&case.inst, Some(*pen), &ind)?;
        let first = ind.penalized_cost();
        ind.evaluate(&ctx);
        ensure!(first == ind.penalized_cost(), "evaluating twice gives {} then {}", first, ind.penalized_cost());
        reused.evaluate(&ctx, &routes);
        let fresh = individual(&ctx, &routes);
        ensure!(
            reused.penalized_cost == fresh.penalized_cost() && reused.is_feasible() == fresh.is_feasible() && reused.routes.len() == fresh.evaluation.routes.len(),
            "reused evaluation differs from a fresh one: {} {} vs {} {}",
            reused.penalized_cost, reused.is_feasible(), fresh.penalized_cost(), fresh.is_feasible()
        );
        for c in 1..case.inst.dim() {
            ensure!(reused.successors[c] == fresh.successor(c) && reused.predecessors[c] == fresh.predecessor(c), "stale link of {} in reused evaluation", c);
        }
        let naive = evaluate(&case.inst, *pen, &routes);
        for (i, r) in fresh.evaluation.routes.iter().enumerate() {
            let border = (naive.overload[i] - EPS).abs() < 1e-9;
            ensure!(border || r.is_feasible() == (naive.overload[i] <= EPS), "route {} with overload {} says feasible {}", i, naive.overload[i], r.is_feasible());
        }
        obs.class_if(!naive.feasible, "overloaded");
        obs.class_if(naive.feasible, "feasible");
        obs.class_if(routes.iter().any(|r| r.is_empty()), "has empty route");
        obs.class_if(routes.iter().any(|r| r.len() == 1), "single-customer route");
        obs.class_if(naive.overload.iter().any(|&o| o == 0.0), "exactly full route");
        obs.class_if(naive.overload.iter().any(|&o| o > 0.0 && o < 0.1), "overloaded by less than a tenth");
        if routes.iter().filter(|r| !r.is_empty()).count() >= 2 {
            obs.nontrivial();
        }
    }
    Ok(())
}

fn eval_part() -> Part {
    part("evaluate", "instance x up to 4 route sets x penalties on reused objects; non-trivial: a set with two or more non-empty routes", 60_000, 1_500_000, || eval_strategy(9), eval_test)
}
fn eval_huge_part() -> Part {
    part("evaluate-huge", "as evaluate with up to 400 customers", 500, 12_000, || eval_strategy(400), eval_test).cpu(120).shrink(60)
}
fn eval_big_part() -> Part {
    part("evaluate-large", "as evaluate with up to 60 customers", 8_000, 200_000, || eval_strategy(60), eval_test)
}

fn sort_test(case: &EvalCase, obs: &mut Obs) -> Check {
    let ctx = case.inst.default_context(1);
    for (raw, slots, pen) in &case.sets {
        let routes = raw.routes(case.inst.customers(), *slots);
        ctx.config.borrow_mut().penalty_capacity = *pen;
        let mut ind = individual(&ctx, &routes);
        let before = ind.penalized_cost();
        let was = ind.is_feasible();
        ind.sort_routes(&ctx);
        let mut a = routes.clone();
        let mut b = ind.phenotype.clone();
        a.sort();
        b.sort();
        ensure!(a == b, "sorting changed the routes {:?} into {:?}", routes, ind.phenotype);
        let flat: Vec<usize> = ind.phenotype.iter().flatten().copied().collect();
        ensure!(ind.genotype == flat, "giant tour {:?} after sorting is not {:?}", ind.genotype, flat);
        ind.evaluate(&ctx);
        ensure!(close(before, ind.penalized_cost()) && was == ind.is_feasible(), "sorting changed the cost {} to {}", before, ind.penalized_cost());
        check_evaluation(&case.inst, Some(*pen), &ind)?;
        ensure!(ind.num_nonempty_routes() == routes.iter().filter(|r| !r.is_empty()).count(), "number of non-empty routes {}", ind.num_nonempty_routes());
        if ind.phenotype != routes {
            obs.nontrivial();
            obs.class("order changed");
        }
    }
    Ok(())
}

fn sort_part() -> Part {
    part("sort-routes", "instance x route sets; non-trivial: sorting changed the order of routes", 30_000, 600_000, || eval_strategy(9), sort_test)
}

// --- C08 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SplitCase {
    inst: Inst,
    tours: Vec<(RawRoutes, f64, u64)>,
    factor: f64,
    linear: bool,
    /// A fleet below what the demands call for, as a sub-problem can have it; 0 for the usual one.
    #[serde(default)]
    short: u64,
    /// A capacity a little above or below what a segment of the first tour holds.
    #[serde(default)]
    off: Option<(u16, u16, i8)>,
    /// How the customers of each tour are put in order, and how much of the demand a vehicle takes.
    #[serde(default)]
    orders: Vec<u8>,
    #[serde(default)]
    wide: u8,
}

/// Tours as they come from anywhere else than a shuffle: by distance, by angle, or such that
/// leaving out the detour to the depot saves more and more (or less and less) along the tour.
fn ordered(inst: &Inst, mut tour: Vec<usize>, order: u8) -> Vec<usize> {
    let by = |tour: &mut Vec<usize>, key: &dyn Fn(usize) -> f64| tour.sort_by(|&a, &b| key(a).partial_cmp(&key(b)).unwrap());
    match order {
        1 => by(&mut tour, &|c| inst.dist(0, c)),
        2 => by(&mut tour, &|c| -inst.dist(0, c)),
        3 => by(&mut tour, &|c| (inst.nodes[c].1 - inst.nodes[0].1).atan2(inst.nodes[c].0 - inst.nodes[0].0)),
        4 | 5 => {
            let mut out = vec![tour.remove(0)];
            let mut now = f64::NEG_INFINITY;
            while !tour.is_empty() {
                let last = *out.last().unwrap();
                let saving = |c: usize| inst.dist(0, last) + inst.dist(0, c) - inst.dist(last, c);
                // The least saving above the one before, or else the greatest.
                let mut best = 0;
                for i in 1..tour.len() {
                    let (a, b) = (saving(tour[i]), saving(tour[best]));
                    if (a >= now && (b < now || a < b)) || (a < now && b < now && a > b) {
                        best = i;
                    }
                }
                now = saving(tour[best]);
                out.push(tour.remove(best));
            }
            if order == 5 {
                out.reverse();
            }
            tour = out;
        }
        _ => {}
    }
    tour
}

fn split_strategy(max: usize) -> BoxedStrategy<SplitCase> {
    let limit = prop_oneof![2 => Just(1000u64), 2 => Just(0u64), 3 => 1u64..8];
    (
        inst(SMALL.customers(2, max).oversize(12)),
        proptest::collection::vec((raw_routes(max), penalty(), limit), 1..4),
        prop_oneof![3 => Just(1.5f64), 1 => Just(1.0), 1 => Just(1.1), 1 => Just(3.0), 1 => Just(1000.0)],
        prop_oneof![2 => Just(true), 1 => Just(false)],
        prop_oneof![9 => Just(0u64), 1 => 1u64..4],
        proptest::option::weighted(0.25, (any::<u16>(), any::<u16>(), -12i8..13)),
        prop_oneof![1 => Just(Vec::new()), 1 => proptest::collection::vec(0u8..6, 3)],
        prop_oneof![4 => Just(0u8), 1 => 1u8..20],
    )
        .prop_map(|(mut inst, tours, factor, linear, short, off, orders, wide)| {
            if wide > 0 {
                // Few long routes.
                inst.cap = (inst.total_demand() / (wide as f64 * 0.37)).ceil().max(inst.max_demand()).max(1.0);
            }
            if let Some((from, len, step)) = off {
                // A hundredth to a ninth more or less.
                let tour = tours[0].0.tour(inst.customers());
                let from = from as usize % tour.len();
                let len = 1 + len as usize % (tour.len() - from);
                let load: f64 = tour[from..from + len].iter().map(|&c| inst.nodes[c].2).sum();
                let cap = load + step as f64 * 0.009;
                if cap > inst.max_demand() / 12.0 && cap >= 0.5 {
                    inst.cap = cap;
                }
            }
            SplitCase { inst, tours, factor, linear, short, off, orders, wide }
        })
        .boxed()
}

/// Routes come as consecutive segments of `tour` covering it (in any order of segments).
fn segments(tour: &[usize], routes: &[Vec<usize>]) -> Check {
    let mut at = vec![usize::MAX; tour.len() + 1];
    for (i, &c) in tour.iter().enumerate() {
        at[c] = i;
    }
    for r in routes {
        for w in r.windows(2) {
            ensure!(at[w[1]] == at[w[0]] + 1, "route {:?} is no segment of tour {:?}", r, tour);
        }
    }
    Ok(())
}

fn split_test(case: &SplitCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let ctx = inst.default_context(1);
    {
        let mut c = ctx.config.borrow_mut();
        c.linear_split = case.linear;
        c.split_capacity_factor = case.factor;
        if case.short > 0 {
            c.num_vehicles = c.num_vehicles.min(case.short);
        }
    }
    let fleet = fleet(&ctx);
    let n = inst.customers();
    let mut split = Split::new(&ctx);
    for (index, (raw, pen, max)) in case.tours.iter().enumerate() {
        ctx.config.borrow_mut().penalty_capacity = *pen;
        let order = case.orders.get(index).copied().unwrap_or(0);
        let tour = ordered(inst, raw.tour(n), order);
        obs.class_if(order > 0, "tour in some order");
        obs.class_if(case.wide > 0, "few long routes");
        let allowed = (*max).clamp(1, fleet as u64);
        let lower = ctx.vehicle_lower_bound();
        // Naive lower bound; the ceiling may go either way when the quotient is integral up to noise.
        let q = inst.total_demand() / inst.cap;
        ensure!(lower as f64 >= q - 1e-6 && (lower as f64) < q + 1.0 + 1e-6, "lower bound {} for {} loads", lower, q);
        let most = (allowed.max(lower) as usize).min(fleet);
        let limit = if case.linear { f64::INFINITY } else { inst.cap * case.factor + EPS / 2.0 };
        let mut any = best_split(inst, *pen, &tour, n, limit);
        if any.is_none() {
            any = best_split(inst, *pen, &tour, n, f64::INFINITY);
        }
        let any = any.unwrap();
        let mut few = best_split(inst, *pen, &tour, most, limit);
        let relaxed = few.is_none();
        if relaxed {
            few = best_split(inst, *pen, &tour, most, f64::INFINITY);
        }
        let few = few;

        let mut ind = Individual::new(tour.clone(), 7);
        split.run(&ctx, &mut ind, allowed);
        complete(&ind.phenotype, n)?;
        segments(&tour, &ind.phenotype)?;
        let used = ind.num_nonempty_routes();
        let s = scale(inst, *pen);
        let got = total_cost(inst, *pen, &ind.phenotype);
        // Every cut may be off by the tolerance of all comparisons.
        let slack = 1e-6 * (n + 1) as f64 + 1e-9 * s;
        let near = |c: f64| (got - c).abs() <= slack;
        check_evaluation(inst, Some(*pen), &ind)?;
        ensure!(ind.phenotype.len() == fleet, "{} routes for a fleet of {}", ind.phenotype.len(), fleet);
        let flat: Vec<usize> = ind.phenotype.iter().flatten().copied().collect();
        ensure!(ind.genotype == flat, "giant tour and routes disagree after the split");
        match few {
            Some(few) => {
                ensure!(used <= most, "split into {} routes, {} allowed: {:?}", used, most, ind.phenotype);
                ensure!(near(few) || near(any) || (got < few && got > any), "cost {} of the split {:?} is not the optimum {} (any number of routes: {})", got, ind.phenotype, few, any);
                ensure!(got <= few + slack, "cost {} above the optimum {} within {} routes (tour {:?})", got, few, most, tour);
            }
            None => ensure!(false, "no split exists"),
        }
        obs.class(if case.linear { "linear" } else { "quadratic" });
        obs.class_if(any < few.unwrap() - 1e-6, "fleet limit binds");
        obs.class_if(ind.evaluation.routes.iter().any(|r| r.overload > 1e-3 && r.overload < 0.1), "tiny overload");
        obs.class_if(fleet < lower as usize, "fleet below the bound");
        obs.class_if(relaxed, "capacity factor excludes every cut");
        obs.class_if(total_cost(inst, 0.0, &ind.phenotype) < got - 1e-9, "optimum is overloaded");
        if used >= 2 {
            obs.nontrivial();
        }

        // The two stages one by one.
        if max % 2 == 0 {
            let mut ind = Individual::new(tour.clone(), 8);
            split.run(&ctx, &mut ind, fleet as u64); // loads the tour
            let mut ind = Individual::new(tour.clone(), 8);
            if split.split(&ctx, &mut ind, most) {
                complete(&ind.phenotype, n)?;
                segments(&tour, &ind.phenotype)?;
                let got = total_cost(inst, *pen, &ind.phenotype);
                ensure!(got <= any + slack, "unlimited split costs {}, optimum {} (tour {:?})", got, any, tour);
            }
            let mut ind = Individual::new(tour.clone(), 8);
            if most >= 1 && most <= fleet {
                split.split_limited_fleet(&ctx, &mut ind, most);
                complete(&ind.phenotype, n)?;
                segments(&tour, &ind.phenotype)?;
                let used = ind.num_nonempty_routes();
                ensure!(used <= most, "limited split into {} routes, {} allowed", used, most);
                let got = total_cost(inst, *pen, &ind.phenotype);
                ensure!((got - few.unwrap()).abs() <= slack, "limited split costs {}, optimum {} within {} routes (tour {:?})", got, few.unwrap(), most, tour);
                obs.class("limited split called directly");
            }
        }
    }
    Ok(())
}

fn split_small() -> Part {
    part("small", "instance x up to 3 tours x penalty x route limit x algorithm, against an O(Kn^2) dynamic program; non-trivial: the split has two or more routes", 40_000, 1_200_000, || split_strategy(9), split_test)
}
fn split_large() -> Part {
    part("large", "as small with up to 40 customers", 6_000, 150_000, || split_strategy(40), split_test)
}

fn split_huge() -> Part {
    part("huge", "as small with up to 300 customers", 150, 4_000, || split_strategy(300), split_test).cpu(120).shrink(60)
}

// --- C15 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PairCase {
    n: usize,
    a: RawRoutes,
    b: RawRoutes,
    slots_a: usize,
    slots_b: usize,
    mutate: Vec<(u16, u16)>,
}

fn pair_strategy() -> BoxedStrategy<PairCase> {
    pairs(2, 14, 6)
}

fn pairs(min: usize, max: usize, slots: usize) -> BoxedStrategy<PairCase> {
    (min..max, raw_routes(max), raw_routes(max), 1..slots, 1..slots, proptest::collection::vec((any::<u16>(), any::<u16>()), 0..4))
        .prop_map(|(n, a, b, slots_a, slots_b, mutate)| PairCase { n, a, b, slots_a, slots_b, mutate })
        .boxed()
}

fn line_inst(n: usize) -> Inst {
    Inst {
        nodes: (0..=n).map(|i| (i as f64, (i * i % 7) as f64, if i == 0 { 0.0 } else { 1.0 })).collect(),
        cap: n as f64,
        rounded: true,
        precompute: true,
        matrix: None,
    }
}

/// The definition: broken successor pairs plus broken route starts.
pub fn broken_pairs(n: usize, a: &[Vec<usize>], b: &[Vec<usize>]) -> i64 {
    let nb = |routes: &[Vec<usize>], c: usize| -> (usize, usize) {
        for r in routes {
            if let Some(i) = r.iter().position(|&x| x == c) {
                return (if i == 0 { 0 } else { r[i - 1] }, if i + 1 == r.len() { 0 } else { r[i + 1] });
            }
        }
        panic!("customer missing")
    };
    let mut d = 0;
    for c in 1..=n {
        let (pa, sa) = nb(a, c);
        let (pb, sb) = nb(b, c);
        if sa != sb && sa != pb {
            d += 1;
        }
        if pa == 0 && pb != 0 && sb != 0 {
            d += 1;
        }
    }
    d
}

fn distance_test(case: &PairCase, obs: &mut Obs) -> Check {
    let inst = line_inst(case.n);
    let ctx = inst.default_context(1);
    let ra = case.a.routes(case.n, case.slots_a);
    let mut rb = case.b.routes(case.n, case.slots_b);
    if !case.mutate.is_empty() {
        // A near relative of a: a few customers moved, routes reordered.
        rb = ra.clone();
        for (x, y) in &case.mutate {
            let c = 1 + *x as usize % case.n;
            for r in rb.iter_mut() {
                r.retain(|&v| v != c);
            }
            let k = *y as usize % rb.len();
            let p = (*y as usize / 7) % (rb[k].len() + 1);
            rb[k].insert(p, c);
        }
        let k = case.mutate[0].0 as usize % rb.len();
        rb.rotate_left(k);
    }
    let a = individual(&ctx, &ra);
    let b = individual(&ctx, &rb);
    let got = a.calculate_broken_pairs_distance(&b);
    let want = broken_pairs(case.n, &ra, &rb);
    ensure!(got == want, "distance between {:?} and {:?} is {}, by definition {}", ra, rb, got, want);
    let back = b.calculate_broken_pairs_distance(&a);
    let want = broken_pairs(case.n, &rb, &ra);
    ensure!(back == want, "distance between {:?} and {:?} is {}, by definition {}", rb, ra, back, want);
    if got > 0 {
        obs.nontrivial();
    }
    obs.class_if(got == 0, "zero distance");
    obs.class_if(rb.last().unwrap().is_empty(), "last route empty");
    obs.class_if(!case.mutate.is_empty(), "near relatives");
    Ok(())
}

fn distance_part() -> Part {
    part("definition", "pairs of solutions over the same customers, unrelated or a few moves apart; non-trivial: positive distance", 150_000, 4_000_000, pair_strategy, distance_test)
}

fn relations_test(case: &PairCase, obs: &mut Obs) -> Check {
    let inst = line_inst(case.n);
    let ctx = inst.default_context(1);
    let ra = case.a.routes(case.n, case.slots_a);
    let rb = case.b.routes(case.n, case.slots_b);
    let a = individual(&ctx, &ra);
    let b = individual(&ctx, &rb);
    ensure!(a.calculate_broken_pairs_distance(&a) == 0, "a solution is not at distance 0 from itself: {:?}", ra);
    let mut copy = ra.clone();
    for (i, (x, y)) in case.mutate.iter().enumerate() {
        let k = *x as usize % copy.len();
        copy.rotate_left(k);
        let k = (*y as usize + i) % copy.len();
        copy[k].reverse();
    }
    if case.mutate.len() % 2 == 0 {
        copy.push(Vec::new());
    }
    let c = individual(&ctx, &copy);
    ensure!(a.calculate_broken_pairs_distance(&c) == 0 && c.calculate_broken_pairs_distance(&a) == 0, "{:?} and {:?} are the same solution but not at distance 0", ra, copy);
    ensure!(b.calculate_broken_pairs_distance(&a) == b.calculate_broken_pairs_distance(&c), "distance from {:?} changes when routes of {:?} are reordered or reversed ({:?})", rb, ra, copy);
    let d = a.calculate_broken_pairs_distance(&b);
    ensure!(d >= 0 && d <= 2 * case.n as i64, "distance {} of {} customers", d, case.n);
    // Same solution after sorting by angle.
    let mut s = a.clone();
    s.sort_routes(&ctx);
    s.evaluate(&ctx);
    ensure!(a.calculate_broken_pairs_distance(&s) == 0, "sorted copy not at distance 0");
    let differ = |p: &Individual, q: &Individual| {
        (1..=case.n).any(|c| {
            let (x, y) = (p.predecessor(c), p.successor(c));
            x != 0 && y != 0 && ![q.predecessor(c), q.successor(c)].contains(&x) && ![q.predecessor(c), q.successor(c)].contains(&y)
        })
    };
    if differ(&a, &b) {
        ensure!(d > 0 && b.calculate_broken_pairs_distance(&a) > 0, "{:?} and {:?} differ but are at distance {} / {}", ra, rb, d, b.calculate_broken_pairs_distance(&a));
        obs.nontrivial();
    }
    Ok(())
}

fn distance_large() -> Part {
    part("definition-large", "as definition with 20 to 700 customers", 600, 15_000, || prop_oneof![3 => pairs(20, 80, 20), 2 => pairs(200, 420, 60), 1 => pairs(300, 700, 8)].boxed(), distance_test).shrink(100)
}

fn distance_relations() -> Part {
    part("relations", "identity, reordering, reversal, range, separation; non-trivial: some customer keeps neither neighbour", 60_000, 1_500_000, pair_strategy, relations_test)
}

// --- C15: clones ---------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CloneCase {
    n: usize,
    slots: usize,
    first: RawRoutes,
    /// Which earlier solution to start from, which customers change places, which route turns.
    more: Vec<(u16, Vec<(u16, u16)>, u16)>,
}

fn clones_strategy(min: usize, max: usize) -> BoxedStrategy<CloneCase> {
    let swaps = proptest::collection::vec((any::<u16>(), any::<u16>()), 0..3);
    (min..max, 1usize..6, raw_routes(max), proptest::collection::vec((any::<u16>(), swaps, any::<u16>()), 1..20))
        .prop_map(|(n, slots, first, more)| CloneCase { n, slots, first, more })
        .boxed()
}

fn clones_test(case: &CloneCase, obs: &mut Obs) -> Check {
    let inst = line_inst(case.n);
    let mut config = hybridcvrp::config::Config::default();
    config.deterministic = true;
    let ctx = inst.context(config);
    let slots = case.slots.min(ctx.config.borrow().num_vehicles as usize);
    let mut pool = vec![case.first.routes(case.n, slots)];
    for (from, swaps, turn) in &case.more {
        let mut routes = pool[*from as usize % pool.len()].clone();
        for (a, b) in swaps {
            let (a, b) = (1 + *a as usize % case.n, 1 + *b as usize % case.n);
            for c in routes.iter_mut().flatten() {
                *c = if *c == a { b } else if *c == b { a } else { *c };
            }
        }
        let k = *turn as usize % routes.len();
        routes.rotate_left(k);
        routes[0].reverse();
        pool.push(routes);
    }
    let mut pop = hybridcvrp::solver::genetic::Population::new(&ctx);
    let mut members: Vec<Vec<Vec<usize>>> = vec![];
    let mut near = false;
    let mut gone = 0;
    for routes in &pool {
        let new = individual(&ctx, routes);
        ensure!(new.is_feasible(), "{:?} is infeasible in vehicles for all", routes);
        let both: Vec<(i64, i64)> = members.iter().map(|m| (broken_pairs(case.n, m, routes), broken_pairs(case.n, routes, m))).collect();
        let before = pop.feasible.population.len();
        pop.add_individual(&ctx, new, false);
        let joined = pop.feasible.population.len() > before;
        if joined {
            let clone = both.iter().position(|&(f, b)| f == 0 && b == 0);
            ensure!(clone.is_none(), "{:?} is a clone of {:?}, but joined", routes, members[clone.unwrap()]);
            members.push(routes.clone());
        } else {
            ensure!(both.iter().any(|&(f, b)| f == 0 || b == 0), "{:?} was taken for a clone among {:?}, at distances {:?}", routes, members, both);
            gone += 1;
        }
        near = near || both.iter().any(|&(f, b)| f == 1 || b == 1);
    }
    obs.class_if(near, "individuals at distance one");
    obs.class_if(gone > 0, "a clone came");
    if gone > 0 && members.len() > 1 {
        obs.nontrivial();
    }
    Ok(())
}

fn clones_part() -> Part {
    part("clones", "solutions, turned copies and near relatives join a population one after another; non-trivial: one was refused as a clone and two joined", 6_000, 200_000, || clones_strategy(2, 14), clones_test)
}
fn clones_large() -> Part {
    part("clones-large", "as clones with up to 70 customers", 400, 16_000, || clones_strategy(14, 70), clones_test)
}

//! C33: initial individuals, the crossover, and the order of routes in the giant tour.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::p_ga::{drive, ga_strategy, long_strategy, GaCase};
use crate::p_rnd::{even, likely};
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual};
use hybridcvrp::solver::Metaheuristic;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C33", parts: vec![zones_part(), parents_part(), parents_long(), parents_huge(), order_part(), order_large(), initial_part()] }]
}

/// The child of two tours: `start..=end` (cyclic) of the first, and the others as the second has
/// them, read from its beginning or from behind the stretch.
fn child(one: &[usize], two: &[usize], start: usize, end: usize, from_beginning: bool) -> Vec<usize> {
    let n = one.len();
    let length = (end + n - start) % n + 1;
    let mut tour = vec![0; n];
    for k in 0..length {
        tour[(start + k) % n] = one[(start + k) % n];
    }
    let kept = tour.clone();
    let mut at = (end + 1) % n;
    for k in 0..n {
        let c = two[if from_beginning { k } else { (end + 1 + k) % n }];
        if !kept.contains(&c) {
            tour[at] = c;
            at = (at + 1) % n;
        }
    }
    tour
}

// --- Zones -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ZoneCase {
    inst: Inst,
    one: RawRoutes,
    two: RawRoutes,
    tournament: u64,
    seed: u64,
}

fn zones_test(case: &ZoneCase, obs: &mut Obs) -> Check {
    const DRAWS: u64 = 1500;
    let mut inst = case.inst.clone();
    let n = inst.customers();
    // One route is enough, so that the giant tour stays as it is.
    inst.cap = inst.total_demand().max(1.0);
    inst.rounded = false;
    inst.matrix = None;
    let mut config = hybridcvrp::config::Config::default();
    config.deterministic = true;
    config.seed = case.seed;
    config.time_limit = 1_000_000;
    config.initial_individuals = 0;
    config.tournament_size = case.tournament;
    config.ls_enabled = false;
    config.rr_mutation = false;
    config.elite_education = false;
    config.repair_probability = 0.0;
    let ctx = inst.context(config);
    let (a, b) = (case.one.tour(n), case.two.tour(n));
    let mut routes = vec![Vec::new(); fleet(&ctx)];
    let mut start = |tour: &[usize]| -> Individual {
        routes[0] = tour.to_vec();
        individual(&ctx, &routes)
    };
    let mut seen: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    let mut members: Vec<(Vec<usize>, f64)> = Vec::new();
    for _ in 0..DRAWS {
        let mut ga = GeneticAlgorithm::new(&ctx);
        ga.add_initial(&ctx, start(&a));
        ga.add_initial(&ctx, start(&b));
        members = ga.population.feasible.population.iter().map(|i| (i.genotype.clone(), i.fitness)).collect();
        while ga.iterations == 0 {
            ga.iterate(&ctx);
            ensure!(!ga.terminated(), "ended before the first generation");
        }
        *seen.entry(ga.child.genotype.clone()).or_insert(0) += 1;
    }
    ensure!(!members.is_empty() && members.len() <= 2, "{} members from two individuals", members.len());
    // Chances of the two as parents.
    let chances: Vec<f64> = if members.len() == 1 {
        vec![1.0]
    } else {
        let both_lose = 0.5f64.powi(case.tournament as i32);
        let (x, y) = (members[0].1, members[1].1);
        if x < y {
            vec![1.0 - both_lose, both_lose]
        } else if y < x {
            vec![both_lose, 1.0 - both_lose]
        } else {
            vec![0.5, 0.5]
        }
    };
    let mut why = String::new();
    let fits = [true, false].iter().any(|&from_beginning| {
        let mut expected: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
        for (i, p) in members.iter().enumerate() {
            for (j, q) in members.iter().enumerate() {
                for s in 0..n {
                    for e in (0..n).filter(|&e| e != s) {
                        *expected.entry(child(&p.0, &q.0, s, e, from_beginning)).or_insert(0.0) += chances[i] * chances[j] / (n * (n - 1)) as f64;
                    }
                }
            }
        }
        for (tour, &k) in &seen {
            if !expected.contains_key(tour) {
                why = format!("child {:?} of {:?} is none of {:?}", tour, members, expected.keys());
                return false;
            }
            if !likely(k, DRAWS, expected[tour].min(1.0)) {
                why = format!("child {:?} of {:?} came {} times of {}, expected {:.1}", tour, members, k, DRAWS, expected[tour] * DRAWS as f64);
                return false;
            }
        }
        for (tour, &p) in &expected {
            if !seen.contains_key(tour) && !likely(0, DRAWS, p.min(1.0)) {
                why = format!("child {:?} of {:?} never came up in {}, expected {:.1}", tour, members, DRAWS, p * DRAWS as f64);
                return false;
            }
        }
        true
    });
    ensure!(fits, "{}", why);
    if members.len() == 2 && n >= 3 {
        obs.nontrivial();
    }
    obs.class_if(members.len() == 1, "parents are clones");
    obs.class_if(case.tournament > 1, "tournament");
    Ok(())
}

fn zones_part() -> Part {
    part("zones", "two parents that are no clones, three or more customers", 120, 3000, || {
        (inst(SMALL.customers(2, 7)), raw_routes(7), raw_routes(7), 1u64..4, 0u64..1_000_000)
            .prop_filter_map("distances obey the triangle inequality", |(inst, one, two, tournament, seed)| {
                if inst.total_demand() > 0.0 { Some(ZoneCase { inst, one, two, tournament, seed }) } else { None }
            })
            .boxed()
    }, zones_test)
    .shrink(40)
    .cpu(100)
}

// --- Whole runs without education ------------------------------------------------------------------

fn segments_of(tour: &[usize], routes: &[Vec<usize>]) -> bool {
    let mut at = vec![0; tour.len() + 1];
    for (i, &c) in tour.iter().enumerate() {
        at[c] = i;
    }
    routes.iter().all(|r| r.windows(2).all(|w| at[w[1]] == at[w[0]] + 1))
}

fn parents_test(case: &GaCase, obs: &mut Obs) -> Check {
    let n = case.inst.customers();
    let mut members: Vec<(Vec<usize>, usize)> = Vec::new();
    let mut generations = 0u64;
    let mut several = false;
    drive(case, |ctx, ga, step| {
        if step.generation && n >= 2 {
            generations += 1;
            let used: Vec<Vec<usize>> = ga.child.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
            several |= used.len() > 1;
            let lower = ctx.vehicle_lower_bound() as usize;
            let explained = members.iter().filter(|(_, most)| used.len() <= (*most).max(lower)).any(|(one, _)| {
                members.iter().any(|(two, _)| {
                    (0..n).any(|s| {
                        (0..n).any(|e| {
                            s != e && [true, false].iter().any(|&f| segments_of(&child(one, two, s, e, f), &used))
                        })
                    })
                })
            });
            ensure!(explained, "child {:?} is no cut of a child of two of {:?}", used, members);
        }
        members = ga
            .population
            .feasible
            .population
            .iter()
            .chain(ga.population.infeasible.population.iter())
            .map(|i| (i.genotype.clone(), i.phenotype.iter().filter(|r| !r.is_empty()).count()))
            .collect();
        Ok(())
    })?;
    if (generations >= 3 || n >= 100) && several {
        obs.nontrivial();
    }
    obs.count("children", generations);
    Ok(())
}

fn parents_part() -> Part {
    part("parents", "three or more generations, a child of two or more routes", 2500, 60_000, || {
        (ga_strategy(2, 8), 1u64..25)
            .prop_map(|(mut case, max_iter)| {
                let k = &mut case.knobs;
                k.ls = false;
                k.rr = false;
                k.elite = false;
                k.max_iter = max_iter;
                case
            })
            .boxed()
    }, parents_test)
    .shrink(200)
    .cpu(100)
}

fn parents_huge() -> Part {
    part("parents-huge", "a child of two or more routes", 8, 200, || {
        ga_strategy(100, 300)
            .prop_map(|mut case| {
                let k = &mut case.knobs;
                (k.ls, k.rr, k.elite) = (false, false, false);
                k.init = k.init.min(2);
                k.max_iter = 1;
                case
            })
            .boxed()
    }, parents_test)
    .shrink(20)
    .cpu(200)
}

fn parents_long() -> Part {
    part("parents-long", "three or more generations, a child of two or more routes", 30, 800, || {
        long_strategy(2, 8)
            .prop_map(|mut case| {
                let k = &mut case.knobs;
                (k.ls, k.rr, k.elite) = (false, false, false);
                case
            })
            .boxed()
    }, parents_test)
    .shrink(40)
    .cpu(150)
}

// --- Order of routes -----------------------------------------------------------------------------

/// Routes stand by the polar angle of their centre as seen from the depot, empty ones last.
fn in_order(inst: &Inst, routes: &[Vec<usize>]) -> Check {
    use std::f64::consts::PI;
    let mut last: Option<f64> = None;
    let mut empty = false;
    for (i, r) in routes.iter().enumerate() {
        if r.is_empty() {
            empty = true;
            continue;
        }
        ensure!(!empty, "route {} of {:?} stands behind an empty one", i, routes);
        let k = r.len() as f64;
        let x = r.iter().map(|&c| inst.nodes[c].0).sum::<f64>() / k - inst.nodes[0].0;
        let y = r.iter().map(|&c| inst.nodes[c].1).sum::<f64>() / k - inst.nodes[0].1;
        let size = 1.0 + inst.nodes[0].0.abs() + inst.nodes[0].1.abs();
        // At the depot there is no angle, and just left of it two.
        if x.hypot(y) < 1e-6 * size || (x < 0.0 && y.abs() < 1e-9 * size) {
            continue;
        }
        let angle = y.atan2(x);
        ensure!(angle >= -PI && angle <= PI, "angle {}", angle);
        if let Some(before) = last {
            ensure!(angle >= before - 1e-6, "route {} of {:?} at angle {} stands behind one at {}", i, routes, angle, before);
        }
        last = Some(angle);
    }
    Ok(())
}

fn order_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut most = 0;
    drive(case, |_ctx, ga, step| {
        for i in ga.population.feasible.population.iter().chain(ga.population.infeasible.population.iter()) {
            in_order(&case.inst, &i.phenotype)?;
            most = most.max(i.phenotype.iter().filter(|r| !r.is_empty()).count());
        }
        if step.generation {
            in_order(&case.inst, &ga.child.phenotype)?;
            let flat: Vec<usize> = ga.child.phenotype.iter().flatten().copied().collect();
            ensure!(flat == ga.child.genotype, "giant tour {:?} of {:?}", ga.child.genotype, ga.child.phenotype);
        }
        Ok(())
    })?;
    if most >= 3 {
        obs.nontrivial();
    }
    Ok(())
}

fn order_part() -> Part {
    part("order", "an individual of three or more routes", 3000, 80_000, || {
        (ga_strategy(3, 12), 0u64..15)
            .prop_map(|(mut case, max_iter)| {
                case.knobs.max_iter = max_iter;
                case
            })
            .boxed()
    }, order_test)
    .shrink(200)
    .cpu(100)
}

fn order_large() -> Part {
    part("order-large", "an individual of three or more routes", 60, 1_500, || prop_oneof![ga_strategy(20, 60), ga_strategy(100, 300)].boxed(), order_test).shrink(40).cpu(150)
}

// --- Initial individuals ---------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StartCase {
    inst: Inst,
    seed: u64,
    number: u64,
}

fn initial_test(case: &StartCase, obs: &mut Obs) -> Check {
    let n = case.inst.customers();
    let ctx = case.inst.default_context(case.seed);
    let mut orders: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
    let mut places: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    const DRAWS: u64 = 3000;
    for _ in 0..DRAWS {
        let i = Individual::new_random(&ctx, case.number);
        let mut sorted = i.genotype.clone();
        sorted.sort_unstable();
        ensure!(sorted == (1..=n).collect::<Vec<_>>(), "random tour {:?} of {} customers", i.genotype, n);
        ensure!(i.number == case.number, "number {}", i.number);
        for (place, &c) in i.genotype.iter().enumerate() {
            *places.entry((place, c)).or_insert(0) += 1;
        }
        if n <= 4 {
            *orders.entry(i.genotype).or_insert(0) += 1;
        }
    }
    for place in 0..n {
        let at: BTreeMap<usize, u64> = places.iter().filter(|(k, _)| k.0 == place).map(|(k, v)| (k.1, *v)).collect();
        even(&format!("customer in place {}", place), &at, n, DRAWS)?;
    }
    if n <= 4 {
        even("order", &orders, (1..=n).product(), DRAWS)?;
    }
    if n >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

fn initial_part() -> Part {
    part("initial", "two or more customers", 150, 3000, || {
        (inst(SMALL.customers(1, 20)), any::<u64>(), 0u64..100).prop_map(|(inst, seed, number)| StartCase { inst, seed, number }).boxed()
    }, initial_test)
    .shrink(40)
}

//! C19: decomposition of a global solution and its way back, and whole decomposed runs.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use crate::cli;
use crate::p_ga::{check_report, ga_strategy, GaCase};
use crate::p_rnd::likely;
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Decomposition, GeneticAlgorithm, Individual};
use hybridcvrp::solver::improvement::LocalSearch;
use hybridcvrp::solver::{Context, Metaheuristic, SearchHistory, Solver};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C19", parts: vec![way_back_part(), way_back_large(), improve_part(), quality_part(), timeout_part(), short_part(), whole_part()] },
        Prop { id: "C35", parts: vec![choice_part(), choice_large(), search_part(), program_part()] },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DecCase {
    pub inst: Inst,
    pub knobs: Knobs,
    pub penalty: f64,
    /// Routes of the global solution.
    pub raw: RawRoutes,
    /// Starts from a solution of good shape instead: the giant tour by angle, packed greedily.
    pub packed: bool,
    /// Routes put back in place of the sub-solution.
    pub back: RawRoutes,
    pub skip: u16,
}

fn strategy(min: usize, max: usize) -> BoxedStrategy<DecCase> {
    (inst(SMALL.customers(min, max).oversize(12)), knobs(), penalty(), raw_routes(max), any::<bool>(), raw_routes(max), 1u64..(max as u64 + 4), any::<u16>())
        .prop_map(|(inst, mut knobs, penalty, raw, packed, back, sub, skip)| {
            knobs.sub_size = sub;
            DecCase { inst, knobs, penalty, raw, packed, back, skip }
        })
        .boxed()
}

/// The global solution of the case; always within the fleet.
fn global(case: &DecCase, ctx: &Context) -> Individual {
    let n = case.inst.customers();
    let slots = fleet(ctx);
    let routes = if case.packed {
        let mut routes: Vec<Vec<usize>> = Vec::new();
        for c in case.raw.tour(n) {
            let place = routes.iter().position(|r| load(&case.inst, r) + case.inst.demand(c) <= case.inst.cap);
            match place {
                Some(r) => routes[r].push(c),
                None if routes.len() < slots => routes.push(vec![c]),
                None => routes[0].push(c),
            }
        }
        // Empty routes anywhere.
        let mut k = case.skip as usize;
        while routes.len() < slots {
            routes.insert(k % (routes.len() + 1), Vec::new());
            k /= 2;
        }
        routes
    } else {
        case.raw.routes(n, slots)
    };
    individual(ctx, &routes)
}

fn context(case: &DecCase) -> Box<Context> {
    let ctx = case.inst.context(case.knobs.config());
    ctx.config.borrow_mut().penalty_capacity = case.penalty;
    for _ in 0..case.skip % 8 {
        ctx.random.real();
    }
    ctx
}

fn sorted(routes: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut r: Vec<Vec<usize>> = routes.iter().filter(|r| !r.is_empty()).cloned().collect();
    r.sort();
    r
}

/// The sub-problem as an instance of its own, its distances the parent's.
fn sub_inst(inst: &Inst, mapping: &[usize]) -> Inst {
    let mut sub = inst.clone();
    sub.nodes = mapping.iter().map(|&m| inst.nodes[m]).collect();
    // Distances as the parent has them, explicitly.
    sub.matrix = Some((1..mapping.len()).map(|i| (0..i).map(|j| inst.dist(mapping[i], mapping[j])).collect()).collect());
    sub.rounded = false;
    sub
}

/// Everything the decomposition should leave and take; returns the untouched routes.
fn check_taken(case: &DecCase, before: &[Vec<usize>], d: &Decomposition, ctx: &Context) -> Result<(Vec<Vec<usize>>, Inst), String> {
    let inst = &case.inst;
    let n = inst.customers();
    ensure!(d.mapping.first() == Some(&0), "the depot of the sub-problem is {:?}", d.mapping.first());
    let mut taken = vec![false; n + 1];
    for &c in &d.mapping[1..] {
        ensure!(c >= 1 && c <= n && !taken[c], "mapping {:?}", d.mapping);
        taken[c] = true;
    }
    // Whole routes, and their customers exactly.
    let mut gone = Vec::new();
    let mut rest = Vec::new();
    for r in before.iter().filter(|r| !r.is_empty()) {
        let t = r.iter().filter(|&&c| taken[c]).count();
        ensure!(t == 0 || t == r.len(), "route {:?} was taken in part: {:?}", r, d.mapping);
        if t == 0 {
            rest.push(r.clone());
        } else {
            gone.push(r.clone());
        }
    }
    let sub_routes: Vec<Vec<usize>> = d.solution.phenotype.iter().map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect();
    ensure!(sorted(&sub_routes) == sorted(&gone), "sub-solution {:?} instead of the routes {:?}", sub_routes, gone);
    ensure!(sorted(&d.global.phenotype) == sorted(&rest), "the global solution keeps {:?} instead of {:?}", d.global.phenotype, rest);
    ensure!(d.mapping.len() > 1, "nothing was taken");
    // The sub-problem has the same data.
    let sub = sub_inst(inst, &d.mapping);
    ensure!(d.ctx.problem.dim() == d.mapping.len(), "sub-problem of {} nodes, mapping of {}", d.ctx.problem.dim(), d.mapping.len());
    ensure!(d.ctx.problem.vehicle.cap == inst.cap, "capacity {}", d.ctx.problem.vehicle.cap);
    for (i, &m) in d.mapping.iter().enumerate() {
        let (a, b) = (&d.ctx.problem.nodes[i], &ctx.problem.nodes[m]);
        ensure!(a.demand == inst.demand(m) && a.coord.lng == b.coord.lng && a.coord.lat == b.coord.lat, "node {} of the sub-problem is {:?}, customer {} is {:?}", i, a, m, b);
        for (j, &k) in d.mapping.iter().enumerate() {
            let (x, y) = (d.ctx.matrix_provider.distance.get(i, j), ctx.matrix_provider.distance.get(m, k));
            ensure!(x == y, "distance {}-{} is {} in the sub-problem and {} outside", m, k, x, y);
        }
    }
    // The sub-solution is complete and truly evaluated under the penalty of the moment.
    complete(&d.solution.phenotype, d.mapping.len() - 1)?;
    let tour: Vec<usize> = d.solution.phenotype.iter().flatten().copied().collect();
    ensure!(tour == d.solution.genotype, "giant tour {:?} of the sub-solution {:?}", d.solution.genotype, d.solution.phenotype);
    ensure!(d.ctx.config.borrow().penalty_capacity == case.penalty, "penalty {} in the sub-problem", d.ctx.config.borrow().penalty_capacity);
    check_evaluation(&sub, Some(case.penalty), &d.solution)?;
    Ok((rest, sub))
}

/// The solution after the way back: these routes, the fleet, true evaluation.
fn check_back(case: &DecCase, ctx: &Context, got: &Individual, want: &[Vec<usize>]) -> Check {
    check_shape(&case.inst, fleet(ctx), got)?;
    ensure!(sorted(&got.phenotype) == sorted(want), "routes {:?} came back instead of {:?}", sorted(&got.phenotype), sorted(want));
    check_evaluation(&case.inst, Some(case.penalty), got)
}

fn way_back_test(case: &DecCase, obs: &mut Obs) -> Check {
    let ctx = context(case);
    let mut solution = global(case, &ctx);
    let before = solution.phenotype.clone();
    let old = solution.clone();
    let mut d = Decomposition::new(&mut solution, &ctx);
    let (rest, sub) = check_taken(case, &before, &d, &ctx)?;
    let mapping = d.mapping.clone();
    let untouched = case.skip % 3 == 0;
    if !untouched {
        // Any solution of the sub-problem, in as many routes as it says it has.
        let slots = d.solution.phenotype.len();
        ensure!(slots >= 1 && slots + rest.len() <= fleet(&ctx), "{} routes for the sub-problem, {} of {} are in use", slots, rest.len(), fleet(&ctx));
        let routes = case.back.routes(mapping.len() - 1, slots);
        d.solution = individual(&d.ctx, &routes);
        check_evaluation(&sub, Some(case.penalty), &d.solution)?;
    }
    let mut want = rest.clone();
    want.extend(d.solution.phenotype.iter().map(|r| r.iter().map(|&c| mapping[c]).collect::<Vec<usize>>()));
    d.finish(&ctx);
    check_back(case, &ctx, &solution, &want)?;
    if untouched {
        ensure!(sorted(&before) == sorted(&solution.phenotype), "nothing was changed, but the routes were");
        ensure!(close_at(old.penalized_cost(), solution.penalized_cost(), scale(&case.inst, case.penalty)), "cost {} became {}", old.penalized_cost(), solution.penalized_cost());
    }
    if !rest.is_empty() && mapping.len() > 2 {
        obs.nontrivial();
    }
    obs.class_if(untouched, "put back as it was");
    obs.class_if(rest.is_empty(), "everything taken");
    obs.class_if(before.iter().all(|r| !r.is_empty()), "no empty route");
    obs.class_if(!old.is_feasible(), "global solution infeasible");
    obs.class_if(mapping.len() == 2, "one customer taken");
    Ok(())
}

fn way_back_part() -> Part {
    part("way-back", "routes are taken and others stay", 3000, 60_000, || strategy(2, 12), way_back_test)
}

fn way_back_large() -> Part {
    part("way-back-large", "routes are taken and others stay", 150, 3000, || strategy(30, 320), way_back_test)
}

/// Search of the sub-problem: never worse, feasible if it was.
fn improved(case: &DecCase, seconds: Option<u64>, obs: &mut Obs) -> Check {
    let ctx = context(case);
    if let Some(s) = seconds {
        ctx.config.borrow_mut().time_limit = s;
    }
    let solution = global(case, &ctx);
    improved_from(case, &ctx, solution, seconds.is_none(), obs)
}

fn improved_from(case: &DecCase, ctx: &Context, mut solution: Individual, whole: bool, obs: &mut Obs) -> Check {
    let before = solution.phenotype.clone();
    let old = evaluate(&case.inst, case.penalty, &before);
    let overload = |routes: &[Vec<usize>]| routes.iter().map(|r| (load(&case.inst, r) - case.inst.cap).max(0.0)).sum::<f64>();
    let mut d = Decomposition::new(&mut solution, ctx);
    let (rest, sub) = check_taken(case, &before, &d, ctx)?;
    let sub_feasible = d.solution.is_feasible();
    let sub_cost = d.solution.penalized_cost();
    d.run();
    complete(&d.solution.phenotype, d.mapping.len() - 1)?;
    if sub_feasible {
        ensure!(d.solution.is_feasible(), "the sub-solution was feasible and is not now");
        ensure!(d.solution.penalized_cost() <= sub_cost + 1e-5, "sub-solution of cost {} became {}", sub_cost, d.solution.penalized_cost());
    }
    if whole && (4..=9).contains(&(d.mapping.len() - 1)) {
        if let Some((optimum, fewest)) = exact(&sub) {
            ensure!(!d.solution.is_feasible() || d.solution.penalized_cost() >= optimum - 1e-5, "sub-solution {} below the optimum {}", d.solution.penalized_cost(), optimum);
            if fewest <= d.solution.phenotype.len() && case.knobs.ls && case.knobs.moves == DEFAULT_MOVES && case.knobs.granularity >= 8 {
                obs.count("small sub-problems", 1);
                if sub_feasible && sub_cost > optimum + 1e-5 && sub_cost < 1.03 * optimum {
                    obs.count("small gaps", 1);
                    obs.count("small gaps closed", (d.solution.penalized_cost() <= optimum + 1e-5) as u64);
                }
                obs.count("small sub-problems to optimality", (d.solution.is_feasible() && d.solution.penalized_cost() <= optimum + 1e-5) as u64);
            }
        }
    }
    let mapping = d.mapping.clone();
    let mut want = rest.clone();
    want.extend(d.solution.phenotype.iter().map(|r| r.iter().map(|&c| mapping[c]).collect::<Vec<usize>>()));
    d.finish(ctx);
    check_back(case, ctx, &solution, &want)?;
    ensure!(ctx.config.borrow().penalty_capacity == case.penalty, "the penalty of the whole problem changed");
    ensure!(*ctx.iteration.borrow() == 0, "the generations of the sub-problem were counted");
    let (a, b) = (overload(&before), overload(&solution.phenotype));
    ensure!(b <= a + 1e-6, "overload {} became {}: {:?} {:?}", a, b, before, solution.phenotype);
    if old.feasible {
        ensure!(solution.is_feasible(), "the solution was feasible and is not now");
    }
    if old.feasible || sub_feasible {
        let tol = 1e-5 + 1e-9 * scale(&case.inst, case.penalty);
        ensure!(solution.penalized_cost() <= old.total + tol, "cost {} became {}", old.total, solution.penalized_cost());
    }
    if !rest.is_empty() && mapping.len() > 2 {
        obs.nontrivial();
    }
    obs.class_if(sub_feasible, "sub-solution feasible");
    obs.class_if(!old.feasible, "global solution infeasible");
    obs.class_if(solution.is_feasible() && !old.feasible, "became feasible");
    obs.class_if(solution.penalized_cost() < old.total - 1e-5, "cost went down");
    Ok(())
}

fn quick_knobs(mut case: DecCase) -> DecCase {
    case.knobs.init = case.knobs.init.min(8);
    // The search of a sub-problem takes 2000 generations.
    case.knobs.rr_gamma = case.knobs.rr_gamma.min(1.0);
    case
}

fn improve_part() -> Part {
    part("improve", "routes are taken, improved, and others stay", 120, 3000, || strategy(2, 14).prop_map(quick_knobs).boxed(), |c: &DecCase, o: &mut Obs| improved(c, None, o))
        .cpu(120)
        .shrink(120)
}

fn share(c: &BTreeMap<String, u64>, of: &str, solved: &str, least: f64) -> Check {
    let get = |k: &str| c.get(k).copied().unwrap_or(0);
    let (n, o) = (get(of), get(solved));
    ensure!(n < 30 || o as f64 >= least * n as f64, "{}: {} of {}", solved, o, n);
    Ok(())
}

fn quality_test(case: &DecCase, obs: &mut Obs) -> Check {
    let ctx = context(case);
    let mut solution = global(case, &ctx);
    if case.packed {
        // As good as a local search makes it, but for two neighbours in the wrong order.
        LocalSearch::new(&ctx, 1.0).run(&ctx, &mut solution, 1.0);
        let good = solution.phenotype.clone();
        let mut worse: Option<(f64, Vec<Vec<usize>>)> = None;
        for r in 0..good.len() {
            for i in 1..good[r].len() {
                let mut routes = good.clone();
                routes[r].swap(i - 1, i);
                let loss = route_dist(&case.inst, &routes[r]) - route_dist(&case.inst, &good[r]);
                if loss > 1e-3 && worse.as_ref().map_or(true, |w| loss < w.0) {
                    worse = Some((loss, routes));
                }
            }
        }
        if let Some((_, routes)) = worse {
            solution = individual(&ctx, &routes);
        }
    }
    improved_from(case, &ctx, solution, true, obs)
}

fn quality_part() -> Part {
    part(
        "improve-quality",
        "routes are taken, improved, and others stay",
        120,
        3000,
        || {
            strategy(6, 14)
                .prop_map(|mut case| {
                    let k = &mut case.knobs;
                    let d = Config::default();
                    (k.min_pop, k.init, k.lambda, k.elites, k.closest) = (d.min_population_size, 50, d.population_lambda, d.num_elites, d.num_diversity_closest);
                    (k.target, k.tournament, k.repair, k.pen_interval) = (d.feasibility_proportion_target, d.tournament_size, d.repair_probability, 20);
                    (k.pen_inc, k.pen_dec, k.ls, k.moves, k.granularity, k.rr) = (d.penalty_inc_multiplier, d.penalty_dec_multiplier, true, DEFAULT_MOVES, 20, false);
                    (k.restart, k.linear, k.split_factor) = (d.max_iterations_without_improvement, d.linear_split, d.split_capacity_factor);
                    k.sub_size = 4 + k.sub_size % 6;
                    case.penalty = case.penalty.max(1.0);
                    case.packed |= case.skip % 2 == 0;
                    case
                })
                .boxed()
        },
        quality_test,
    )
    .cpu(120)
    .shrink(60)
    .aggregate(|_n, c| {
        share(c, "small sub-problems", "small sub-problems to optimality", 0.97)?;
        share(c, "small gaps", "small gaps closed", 0.9)
    })
}

fn timeout_part() -> Part {
    part("out-of-time", "routes are taken and others stay, and no time is left", 600, 20_000, || strategy(2, 14).prop_map(quick_knobs).boxed(), |c: &DecCase, o: &mut Obs| {
        improved(c, Some(0), o)
    })
}

/// A good global solution, and some milliseconds left: the search of the sub-problem is stopped
/// anywhere in it, often while still building its first individuals.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShortCase {
    pub case: DecCase,
    pub micros: u64,
}

fn short_test(c: &ShortCase, obs: &mut Obs) -> Check {
    let case = &c.case;
    let ctx = context(case);
    let mut solution = global(case, &ctx);
    if case.packed {
        // As good as a local search makes it.
        let config = ctx.config.borrow().clone();
        set_moves(&mut ctx.config.borrow_mut(), DEFAULT_MOVES);
        LocalSearch::new(&ctx, case.penalty).run(&ctx, &mut solution, case.penalty);
        *ctx.config.borrow_mut() = config;
    }
    ctx.config.borrow_mut().time_limit = 1000;
    let limit = ctx.config.borrow().time_limit;
    let start = Instant::now() + Duration::from_micros(c.micros) - Duration::from_secs(limit);
    *ctx.search_history.borrow_mut() = SearchHistory::new(start);
    improved_from(case, &ctx, solution, false, obs)?;
    obs.class_if(ctx.terminate(), "ran out of time");
    Ok(())
}

fn short_part() -> Part {
    part(
        "short-of-time",
        "routes are taken, improved while the time runs out, and others stay",
        60,
        2000,
        || {
            (strategy(20, 160), 0u64..60_000, 0u8..4, 1u64..200)
                .prop_map(|(mut case, micros, kind, init)| {
                    case.knobs.sub_size = 10 + (case.knobs.sub_size * 3) % 200;
                    case.knobs.rr_gamma = case.knobs.rr_gamma.min(1.0);
                    if kind > 0 {
                        // Little improvement of new individuals, many of them.
                        case.packed = true;
                        case.knobs.init = 20 + init * 50;
                        case.knobs.ls = kind == 1;
                        case.knobs.rr = false;
                    }
                    ShortCase { case, micros }
                })
                .boxed()
        },
        short_test,
    )
    .cpu(60)
    .shrink(60)
}

// --- Whole decomposed runs -----------------------------------------------------------------------

fn whole_test(case: &DecCase, obs: &mut Obs) -> Check {
    let ctx = case.inst.context(case.knobs.config());
    let rounds = 1 + case.knobs.max_iter % 3;
    ctx.config.borrow_mut().max_iterations = Some(rounds);
    let mut dga = DecomposedGeneticAlgorithm::new(&ctx);
    let mut steps = 0;
    let mut seen = 0;
    let mut best = f64::INFINITY;
    while !dga.terminated() {
        dga.iterate(&ctx);
        steps += 1;
        let h = ctx.search_history.borrow();
        if h.entries().len() > seen {
            seen = h.entries().len();
            let last = h.last_entry().unwrap();
            check_report(&case.inst, fleet(&ctx), &last.solution.routes, last.solution.cost)?;
            ensure!(last.solution.cost < best, "reported {} after {}", last.solution.cost, best);
            best = last.solution.cost;
        }
        ensure!(steps <= rounds + 2, "still running after {} steps with a limit of {} rounds", steps, rounds);
    }
    ensure!(steps == rounds + 2 && *ctx.iteration.borrow() == rounds, "{} steps and {} rounds counted with a limit of {}", steps, ctx.iteration.borrow(), rounds);
    if case.inst.customers() <= 8 && !ctx.search_history.borrow().entries().is_empty() {
        if let Some((optimum, _)) = exact(&case.inst) {
            ensure!(best >= optimum - 1e-5, "reported {} below the optimum {}", best, optimum);
            obs.count("small and solved", 1);
            obs.class_if(best <= optimum + 1e-5, "optimum found");
        }
    }
    if seen > 0 {
        obs.nontrivial();
    }
    obs.count("rounds", rounds);
    obs.count("reports", seen as u64);
    Ok(())
}

fn whole_part() -> Part {
    part("whole-run", "a feasible solution was reported", 60, 1200, || strategy(2, 10).prop_map(quick_knobs).boxed(), whole_test).cpu(200).shrink(40).aggregate(|_n, c| share(c, "small and solved", "optimum found", 0.93))
}

// --- C35: which routes are taken ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChoiceCase {
    case: DecCase,
}

/// The routes taken when the search starts from this customer: its own, then those of its neighbours from near to far,
/// until they hold enough customers.
fn around(ctx: &Context, routes: &[Vec<usize>], customer: usize, enough: usize) -> Vec<Vec<usize>> {
    let mut taken: Vec<Vec<usize>> = Vec::new();
    let near = std::iter::once(customer).chain(ctx.matrix_provider.correlation.get(customer).iter().copied());
    for c in near {
        if taken.iter().map(|r| r.len()).sum::<usize>() >= enough {
            break;
        }
        let route = routes.iter().find(|r| r.contains(&c)).expect("a route for each customer");
        if !taken.contains(route) {
            taken.push(route.clone());
        }
    }
    sorted(&taken)
}

fn choice_test(case: &ChoiceCase, obs: &mut Obs) -> Check {
    const DRAWS: u64 = 1500;
    let case = &case.case;
    let ctx = context(case);
    let start = global(case, &ctx);
    let n = case.inst.customers();
    let mut expected: BTreeMap<Vec<Vec<usize>>, u64> = BTreeMap::new();
    for c in 1..=n {
        *expected.entry(around(&ctx, &start.phenotype, c, case.knobs.sub_size as usize)).or_insert(0) += 1;
    }
    let mut seen: BTreeMap<Vec<Vec<usize>>, u64> = BTreeMap::new();
    for _ in 0..DRAWS {
        let mut solution = start.clone();
        let d = Decomposition::new(&mut solution, &ctx);
        let taken: Vec<Vec<usize>> = d.solution.phenotype.iter().map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect();
        *seen.entry(sorted(&taken)).or_insert(0) += 1;
    }
    for (taken, &k) in &seen {
        let ways = expected.get(taken).copied().unwrap_or(0);
        ensure!(ways > 0, "the routes {:?} of {:?} lie around no customer (at least {} customers wanted)", taken, sorted(&start.phenotype), case.knobs.sub_size);
        ensure!(likely(k, DRAWS, ways as f64 / n as f64), "the routes {:?} of {:?} were taken {} times out of {}, they lie around {} of {} customers", taken, sorted(&start.phenotype), k, DRAWS, ways, n);
    }
    for (taken, &ways) in &expected {
        ensure!(seen.contains_key(taken) || likely(0, DRAWS, ways as f64 / n as f64), "the routes {:?} of {:?} around {} of {} customers were never taken", taken, sorted(&start.phenotype), ways, n);
    }
    if expected.len() > 1 {
        obs.nontrivial();
    }
    obs.class_if(expected.keys().any(|t| t.len() > 1), "several routes taken");
    obs.class_if(start.phenotype.iter().any(|r| r.is_empty()), "empty routes");
    obs.count("different sub-problems", expected.len() as u64);
    Ok(())
}

fn choice_part() -> Part {
    part("choice", "not the same routes around every customer", 150, 4_000, || strategy(2, 14).prop_map(|mut case| {
        // Fewer customers than there are, mostly.
        case.knobs.sub_size = 1 + case.knobs.sub_size % (1 + case.inst.customers() as u64 / 2);
        ChoiceCase { case }
    }).boxed(), choice_test).shrink(100)
}

fn choice_large_test(case: &DecCase, obs: &mut Obs) -> Check {
    let ctx = context(case);
    let mut solution = global(case, &ctx);
    let before = solution.phenotype.clone();
    let d = Decomposition::new(&mut solution, &ctx);
    let taken = sorted(&d.solution.phenotype.iter().map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect::<Vec<_>>());
    let enough = case.knobs.sub_size as usize;
    ensure!((1..=case.inst.customers()).any(|c| around(&ctx, &before, c, enough) == taken), "the routes {:?} of {:?} lie around no customer (at least {} customers wanted)", taken, sorted(&before), enough);
    if taken.len() > 1 && taken.len() < sorted(&before).len() {
        obs.nontrivial();
    }
    obs.class_if(d.mapping.len() - 1 >= enough, "large enough");
    Ok(())
}

fn choice_large() -> Part {
    part("choice-large", "several routes are taken and others stay", 400, 10_000, || strategy(20, 320), choice_large_test).shrink(60)
}

/// The search of a sub-problem has its own number of generations, and no elite education.
fn search_test(case: &DecCase, obs: &mut Obs) -> Check {
    let ctx = context(case);
    {
        let mut config = ctx.config.borrow_mut();
        config.elite_education = case.skip % 2 == 0;
        config.elite_education_problem_size_limit = 0;
        config.elite_education_gamma = 20_000.0;
        config.max_iterations = [None, Some(1), Some(5000)][case.skip as usize / 2 % 3];
    }
    let limit = ctx.config.borrow().max_iterations;
    let education = ctx.config.borrow().elite_education;
    let mut solution = global(case, &ctx);
    let mut d = Decomposition::new(&mut solution, &ctx);
    d.run();
    let done = *d.ctx.iteration.borrow();
    ensure!(done == 2000, "{} generations in the search of the sub-problem (the whole run has a limit of {:?})", done, limit);
    ensure!(ctx.config.borrow().max_iterations == limit && ctx.config.borrow().elite_education == education, "the search of a sub-problem changed the configuration of the whole run");
    d.finish(&ctx);
    ensure!(*ctx.iteration.borrow() == 0, "the generations of the sub-problem were counted");
    obs.nontrivial();
    Ok(())
}

fn search_part() -> Part {
    part("search", "always", 60, 1_500, || strategy(2, 10).prop_map(quick_knobs).boxed(), search_test).cpu(120).shrink(20)
}

// --- the program: which instances are decomposed ---------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProgramCase {
    run: GaCase,
    /// The limit on the size, relative to the number of customers.
    over: i64,
}

/// The costs of all reports, and the last solution as it is written.
fn reports<M: Metaheuristic>(ctx: Box<Context>, start: impl Fn(&Context) -> M) -> (Vec<f64>, String) {
    let metaheuristic = start(&ctx);
    let mut solver = Solver::new(*ctx, metaheuristic);
    solver.run();
    let history = solver.ctx.search_history.borrow();
    (history.entries().iter().map(|e| e.solution.cost).collect(), history.last_entry().map_or(String::new(), |e| e.solution.to_string()))
}

fn program_test(case: &ProgramCase, obs: &mut Obs) -> Check {
    let inst = &case.run.inst;
    let limit = (inst.customers() as i64 + case.over).max(0) as u64;
    let mut config = case.run.knobs.config();
    config.decompose_limit = limit;
    config.max_iterations = Some(1 + config.max_iterations.unwrap_or(0) % 2);
    config.round_distances = inst.rounded;
    config.precompute_distance_size_limit = if inst.precompute { 1_000_000 } else { 0 };
    config.solution_path = Some("out.sol".into());
    let dir = cli::Dir::new("limit");
    dir.write("config.yml", &(serde_yaml::to_string(&config).map_err(|e| e.to_string())? + "\n"));
    dir.write("in.vrp", &cli::cvrplib(inst));
    let run = cli::run(&dir.0, &["in.vrp".to_string()], &[], 120);
    ensure!(run.ok(), "the program ended with {:?}: {}", run.code, run.tail());
    let logged: Vec<f64> = run.stderr.lines().filter_map(|l| l.split("New best: ").nth(1)).map(|c| c.trim().parse().unwrap_or(f64::NAN)).collect();
    let written = std::fs::read_to_string(dir.path("out.sol")).unwrap_or_default();
    let whole = reports(inst.context(config.clone()), GeneticAlgorithm::new);
    let parts = reports(inst.context(config.clone()), DecomposedGeneticAlgorithm::new);
    let is = |r: &(Vec<f64>, String)| r.0 == logged && r.1.trim_end() == written.trim_end();
    let decomposed = inst.customers() as u64 >= limit;
    let wanted = if decomposed { &parts } else { &whole };
    ensure!(
        is(wanted),
        "{} customers, a limit of {}: the program reports {:?} and writes {:?}; {} decomposition {:?} and {:?}, {} it {:?} and {:?}",
        inst.customers(),
        limit,
        logged,
        written,
        if decomposed { "with" } else { "without" },
        wanted.0,
        wanted.1,
        if decomposed { "without" } else { "with" },
        if decomposed { &whole } else { &parts }.0,
        if decomposed { &whole } else { &parts }.1
    );
    if whole != parts {
        obs.nontrivial();
        obs.class(if decomposed { "decomposed" } else { "not decomposed" });
        obs.class_if(case.over == 0, "exactly at the limit");
    }
    Ok(())
}

fn program_part() -> Part {
    part(
        "program",
        "the runs with and without decomposition differ",
        25,
        800,
        || {
            (ga_strategy(3, 12), -3i64..4, 0u8..3)
                .prop_map(|(mut run, over, zero)| {
                    run.knobs.init = run.knobs.init.min(5);
                    run.knobs.elite_gamma = run.knobs.elite_gamma.min(10.0);
                    run.knobs.rr_gamma = run.knobs.rr_gamma.min(3.0);
                    ProgramCase { run, over: if zero == 0 { 0 } else { over } }
                })
                .boxed()
        },
        program_test,
    )
    .cpu(120)
    .shrink(20)
}

//! Whole runs of the genetic algorithm: C01, C02, C17, C21, C24, C25.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm, Individual, SubPopulation};
use hybridcvrp::solver::{Context, Metaheuristic, Solver};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", parts: vec![reports_part(), reports_large(), reports_huge(), reports_long(), solver_part()] },
        Prop { id: "C02", parts: vec![incumbent_part(), incumbent_large(), incumbent_huge(), incumbent_long(), drift_part(), direct_part()] },
        Prop { id: "C17", parts: vec![individuals_part(), individuals_large(), individuals_huge(), individuals_long(), crossover_part()] },
        Prop { id: "C21", parts: vec![generations_part(), generations_long(), restart_part(), restart_long(), unlimited_part(), clock_part()] },
        Prop { id: "C24", parts: vec![optimum_part(), defaults_part(), brief_part(), clusters_part()] },
        Prop { id: "C25", parts: vec![penalty_part(), penalty_long(), penalty_bounds_part(), threshold_part(), estimate_part()] },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GaCase {
    pub inst: Inst,
    pub knobs: Knobs,
    /// Penalty at the start instead of the solver's estimate.
    pub penalty: Option<f64>,
}

pub fn ga_strategy(min: usize, max: usize) -> BoxedStrategy<GaCase> {
    (inst(SMALL.customers(min, max).oversize(10)), knobs(), prop_oneof![2 => Just(None), 1 => penalty().prop_map(|p| Some(p.max(1e-4)))])
        .prop_map(|(inst, mut knobs, penalty)| {
            if inst.customers() > 60 {
                knobs.init = knobs.init.min(3);
                knobs.max_iter = knobs.max_iter.min(3);
                knobs.elite_gamma = knobs.elite_gamma.min(2.0);
                knobs.rr_gamma = knobs.rr_gamma.min(2.0);
            } else if inst.customers() > 15 {
                knobs.init = knobs.init.min(5);
                knobs.max_iter = knobs.max_iter.min(6);
                knobs.elite_gamma = knobs.elite_gamma.min(6.0);
            }
            GaCase { inst, knobs, penalty }
        })
        .boxed()
}

/// Hundreds of generations on a few customers, with populations up to those of the default configuration.
pub fn long_strategy(min: usize, max: usize) -> BoxedStrategy<GaCase> {
    (
        ga_strategy(min, max),
        prop_oneof![3 => 100u64..260, 1 => 260u64..700],
        (1u64..50, 1u64..60, 1u64..110, 0u64..30),
        prop_oneof![1 => Just(100u64), 1 => 1u64..150],
        prop_oneof![1 => Just(20_000u64), 1 => 20u64..300],
        any::<u8>(),
    )
        .prop_map(|(mut case, max_iter, (min_pop, lambda, init, elites), pen_interval, restart, more)| {
            let k = &mut case.knobs;
            k.max_iter = max_iter;
            (k.min_pop, k.lambda, k.init, k.elites) = (min_pop, lambda, init, elites);
            (k.pen_interval, k.restart) = (pen_interval, restart);
            k.rr_gamma = k.rr_gamma.min(1.0);
            k.elite_gamma = k.elite_gamma.min(6.0);
            // Feasible and infeasible individuals all along.
            if more % 2 == 0 {
                k.repair = 0.25;
                case.penalty = Some([1e-4, 0.01, 0.1, 1.0][more as usize / 2 % 4]);
            }
            if more % 3 == 0 {
                k.ls = false;
            }
            case
        })
        .boxed()
}

pub fn context(case: &GaCase) -> Box<Context> {
    let ctx = case.inst.context(case.knobs.config());
    if let Some(p) = case.penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    ctx
}

/// What one call of `iterate` did, seen from outside.
pub struct Step {
    pub index: usize,
    pub generation: bool,
    pub restarted: bool,
    /// Initial individuals since the last (re)start.
    pub built: u64,
    pub penalty_before: f64,
    pub penalty_after: f64,
    pub iterations_before: u64,
    pub entries_before: usize,
}

/// Runs the algorithm step by step to its end and shows every step to `look`.
pub fn drive<F>(case: &GaCase, mut look: F) -> Result<(Box<Context>, Box<GeneticAlgorithm>), String>
where
    F: FnMut(&Context, &GeneticAlgorithm, &Step) -> Check,
{
    let ctx = context(case);
    let mut ga = Box::new(GeneticAlgorithm::new(&ctx));
    let mut index = 0;
    let n = case.inst.customers() as f64;
    // Far above what the configured numbers of initial individuals and generations can need.
    let per_start = case.knobs.init as f64 + (case.knobs.elite_gamma * n + 1000.0) / 1000.0 + 10.0;
    let bound = (per_start + 2.0) * (case.knobs.max_iter as f64 + 2.0) * 4.0;
    while !ga.terminated() {
        let penalty_before = ctx.config.borrow().penalty_capacity;
        let iterations_before = ga.iterations;
        let entries_before = ctx.search_history.borrow().entries().len();
        ga.iterate(&ctx);
        let generation = ga.iterations > iterations_before;
        let step = Step {
            index,
            generation,
            restarted: generation && ga.population.total_individuals_count == 0,
            built: ga.num_initialized as u64,
            penalty_before,
            penalty_after: ctx.config.borrow().penalty_capacity,
            iterations_before,
            entries_before,
        };
        look(&ctx, &ga, &step).map_err(|e| format!("step {} (generation {}): {}", index, iterations_before, e))?;
        index += 1;
        ensure!((index as f64) < bound, "still running after {} steps, {} generations of {}", index, ga.iterations, case.knobs.max_iter);
    }
    Ok((ctx, ga))
}

fn members(ga: &GeneticAlgorithm) -> impl Iterator<Item = (&'static str, &Individual)> {
    ga.population
        .feasible
        .population
        .iter()
        .map(|i| ("feasible", i))
        .chain(ga.population.infeasible.population.iter().map(|i| ("infeasible", i)))
}

fn classify(case: &GaCase, ga: &GeneticAlgorithm, obs: &mut Obs) {
    obs.class_if(case.knobs.elite && case.inst.customers() > case.knobs.elite_limit, "elite education");
    obs.class_if(case.knobs.rr && case.knobs.rr_prob > 0.0, "ruin and recreate mutation");
    obs.class_if(!ga.population.infeasible.population.is_empty(), "infeasible individuals at the end");
    obs.class_if(!ga.population.feasible.population.is_empty(), "feasible individuals at the end");
    obs.class_if(case.inst.max_demand() > case.inst.cap, "customer no vehicle can serve");
    obs.class_if(case.knobs.linear, "linear split");
    obs.class_if(!case.knobs.ls, "local search off");
}

// --- C01 -------------------------------------------------------------------------------------

/// The last report is a valid solution with its true cost.
pub fn check_report(inst: &Inst, fleet: usize, routes: &[Vec<usize>], cost: f64) -> Check {
    check_feasible(inst, routes)?;
    let used = routes.iter().filter(|r| !r.is_empty()).count();
    ensure!(used <= fleet && routes.len() <= fleet.max(used), "{} routes reported in a fleet of {}: {:?}", used, fleet, routes);
    let real: f64 = routes.iter().map(|r| route_dist(inst, r)).sum();
    ensure!(close_at(cost, real, real * 10.0), "reported cost {} is really {}: {:?}", cost, real, routes);
    Ok(())
}

fn reports_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut reports = 0;
    let (ctx, ga) = drive(case, |ctx, _ga, step| {
        let h = ctx.search_history.borrow();
        if h.entries().len() > step.entries_before {
            reports += 1;
            let last = h.last_entry().unwrap();
            check_report(&case.inst, fleet(ctx), &last.solution.routes, last.solution.cost)?;
            ensure!(h.best_cost == last.solution.cost, "best cost {} but the last report costs {}", h.best_cost, last.solution.cost);
        }
        Ok(())
    })?;
    let h = ctx.search_history.borrow();
    if case.inst.max_demand() > case.inst.cap {
        ensure!(h.entries().is_empty(), "a solution is reported though customer demands exceed the capacity");
    }
    if h.entries().is_empty() {
        ensure!(h.best_cost == f64::INFINITY, "best cost {} without any report", h.best_cost);
        obs.class("nothing reported");
    }
    classify(case, &ga, obs);
    obs.count("reports", h.entries().len() as u64);
    obs.class_if(case.knobs.max_iter == 0, "no generation");
    if reports >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

fn reports_part() -> Part {
    part("reports", "stepwise run of a generated configuration, every report judged; non-trivial: two or more steps reported an improvement", 16_000, 400_000, || ga_strategy(1, 10), reports_test).shrink(300)
}
fn reports_large() -> Part {
    part("reports-large", "as reports with up to 45 customers", 1_500, 40_000, || ga_strategy(15, 45), reports_test).shrink(100)
}
fn reports_huge() -> Part {
    part("reports-huge", "as reports with 100 to 300 customers", 60, 2_000, || ga_strategy(100, 300), reports_test).cpu(200).shrink(30)
}

/// The way a program runs it: `Solver::run` over a moved context.
fn solver_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut config = case.knobs.config();
    config.round_distances = case.inst.rounded;
    config.precompute_distance_size_limit = if case.inst.precompute { 1_000_000 } else { 0 };
    let ctx = Context::new(case.inst.parser(), config, Instant::now());
    let ga = GeneticAlgorithm::new(&ctx);
    let mut solver = Solver::new(ctx, ga);
    solver.run();
    ensure!(solver.metaheuristic.terminated(), "the run returned without having ended");
    let h = solver.ctx.search_history.borrow();
    let fleet = solver.ctx.config.borrow().num_vehicles as usize;
    match h.last_entry() {
        Some(last) => {
            check_report(&case.inst, fleet, &last.solution.routes, last.solution.cost)?;
            obs.nontrivial();
        }
        None => obs.class("nothing reported"),
    }
    classify(case, &solver.metaheuristic, obs);
    Ok(())
}

fn reports_long() -> Part {
    part("reports-long", "as reports over 100 to 700 generations with populations of usual size", 300, 10_000, || long_strategy(2, 12), reports_test).cpu(120).shrink(60)
}

fn solver_part() -> Part {
    part("solver", "whole run by Solver::run; non-trivial: a solution is reported", 8_000, 200_000, || ga_strategy(1, 12), solver_test).shrink(300)
}

// --- C02 -------------------------------------------------------------------------------------

fn incumbent_check(inst: &Inst, ctx: &Context, ga: &GeneticAlgorithm, generations: bool) -> Check {
    let h = ctx.search_history.borrow();
    let entries = h.entries();
    for (i, e) in entries.iter().enumerate() {
        if i > 0 {
            ensure!(e.solution.cost < entries[i - 1].solution.cost, "report {} costs {} after {}", i, e.solution.cost, entries[i - 1].solution.cost);
            ensure!(e.timestamp >= entries[i - 1].timestamp, "report {} is stamped {:?} after {:?}", i, e.timestamp, entries[i - 1].timestamp);
        }
        ensure!((i + 1 == entries.len()) == !e.solution.routes.is_empty(), "report {} of {} carries {} routes", i, entries.len(), e.solution.routes.len());
    }
    let best = entries.last().map_or(f64::INFINITY, |e| e.solution.cost);
    ensure!(h.best_cost == best, "best cost {} but the last report costs {}", h.best_cost, best);
    let tol = |c: f64| 3e-6 + 1e-9 * c.abs();
    for (kind, ind) in members(ga) {
        if kind == "feasible" {
            let c: f64 = ind.phenotype.iter().map(|r| route_dist(inst, r)).sum();
            ensure!(best <= c + tol(c), "a feasible individual costs {}, the best reported {}: {:?}", c, best, ind.phenotype);
        }
    }
    if generations && ga.child.is_feasible() {
        let c: f64 = ga.child.phenotype.iter().map(|r| route_dist(inst, r)).sum();
        ensure!(best <= c + tol(c), "the current individual is feasible and costs {}, the best reported {}: {:?}", c, best, ga.child.phenotype);
    }
    match &ga.best_solution {
        Some(b) => {
            let c: f64 = b.phenotype.iter().map(|r| route_dist(inst, r)).sum();
            ensure!((best - c).abs() <= tol(c), "the algorithm's best individual costs {}, the best reported {}", c, best);
            check_feasible(inst, &b.phenotype)?;
        }
        None => ensure!(entries.is_empty(), "{} is reported but the algorithm has no best individual", best),
    }
    Ok(())
}

fn incumbent_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut last_best = f64::INFINITY;
    let mut any_generation = false;
    let mut restarts = 0;
    let mut in_elite = case.knobs.elite && case.inst.customers() > case.knobs.elite_limit;
    let elite = in_elite;
    let (ctx, ga) = drive(case, |ctx, ga, step| {
        if step.restarted {
            in_elite = elite;
            restarts += 1;
        }
        if ga.num_initialized > 0 {
            in_elite = false;
        }
        any_generation |= step.generation;
        // Elite education hands over its best only when it is through.
        if !in_elite {
            incumbent_check(&case.inst, ctx, ga, any_generation && !step.restarted)?;
        }
        let now = ctx.search_history.borrow().best_cost;
        ensure!(now <= last_best, "best cost went from {} to {}", last_best, now);
        last_best = now;
        Ok(())
    })?;
    classify(case, &ga, obs);
    obs.class_if(restarts > 0, "restarted");
    let h = ctx.search_history.borrow();
    obs.class_if(h.entries().is_empty(), "nothing reported");
    if h.entries().len() >= 2 && (restarts > 0 || ga.population.feasible.size() > 1) {
        obs.nontrivial();
    }
    Ok(())
}

fn incumbent_part() -> Part {
    part("incumbent", "stepwise run, reports against everything held after every step; non-trivial: two or more reports, and a restart or two feasible individuals", 16_000, 400_000, || ga_strategy(1, 10), incumbent_test).shrink(300)
}
fn incumbent_large() -> Part {
    part("incumbent-large", "as incumbent with up to 45 customers", 1_500, 40_000, || ga_strategy(15, 45), incumbent_test).shrink(100)
}
fn incumbent_huge() -> Part {
    part("incumbent-huge", "as incumbent with 100 to 300 customers", 60, 2_000, || ga_strategy(100, 300), incumbent_test).cpu(200).shrink(30)
}

/// Long ruin and recreate searches over large distances, where rounding noise adds up.
fn incumbent_long() -> Part {
    part("incumbent-long", "as incumbent over 100 to 700 generations with populations of usual size", 300, 10_000, || long_strategy(2, 12), incumbent_test).cpu(120).shrink(60)
}

fn drift_part() -> Part {
    part("incumbent-long-search", "as incumbent, with elite educations of many thousand moves and distances of up to a million", 400, 8_000, || {
        (ga_strategy(2, 7), 1u32..4)
            .prop_map(|(mut case, f)| {
                case.inst.rounded = false;
                case.inst.matrix = None;
                for node in case.inst.nodes.iter_mut() {
                    node.0 *= 10f64.powi(f as i32) * 1.37;
                    node.1 *= 10f64.powi(f as i32) * 1.37;
                }
                case.knobs.elite = true;
                case.knobs.elite_limit = 0;
                case.knobs.elite_gamma = 20_000.0;
                case.knobs.restart = 1000;
                case.knobs.max_iter = case.knobs.max_iter.min(3);
                case.knobs.init = case.knobs.init.min(4);
                case
            })
            .boxed()
    }, incumbent_test).cpu(120).shrink(40)
}

/// `update_best` and `add_initial` driven directly with generated solutions in any order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DirectCase {
    inst: Inst,
    seed: u64,
    sols: Vec<(RawRoutes, usize, u8)>,
}

fn direct_test(case: &DirectCase, obs: &mut Obs) -> Check {
    let ctx = case.inst.default_context(case.seed);
    let fleet = fleet(&ctx);
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut best = f64::INFINITY;
    let mut improved = 0;
    for (raw, slots, how) in &case.sols {
        let mut routes = raw.routes(case.inst.customers(), (*slots).min(fleet).max(1));
        routes.resize(fleet, vec![]);
        let ind = individual(&ctx, &routes);
        let cost: f64 = routes.iter().map(|r| route_dist(&case.inst, r)).sum();
        let feasible = evaluate(&case.inst, 0.0, &routes).feasible;
        if how % 2 == 0 {
            ga.add_initial(&ctx, ind);
        } else {
            ga.child = ind;
            ga.update_best(&ctx);
        }
        if how % 8 == 7 {
            // The penalty has no say in what is feasible or best.
            ctx.config.borrow_mut().penalty_capacity *= 7.0;
        }
        let h = ctx.search_history.borrow();
        if feasible && cost < best - 1e-5 {
            best = cost;
            improved += 1;
            ensure!(close(h.best_cost, cost), "a feasible solution of cost {} was offered, best cost is {}", cost, h.best_cost);
            let last = h.last_entry().ok_or("no report")?;
            ensure!(last.solution.routes == routes, "reported routes {:?} are not those of {:?}", last.solution.routes, routes);
        } else {
            ensure!(h.best_cost >= best - 1e-5 && (best == f64::INFINITY) == (h.best_cost == f64::INFINITY), "best cost {} though the best feasible solution offered costs {}", h.best_cost, best);
        }
        drop(h);
        incumbent_check(&case.inst, &ctx, &ga, true)?;
    }
    if improved >= 2 {
        obs.nontrivial();
    }
    obs.count("improvements", improved);
    Ok(())
}

fn direct_part() -> Part {
    part(
        "offers",
        "sequences of solutions offered to the algorithm; non-trivial: two or more improve",
        10_000,
        300_000,
        || {
            (inst(SMALL.customers(1, 9)), 0u64..1000, proptest::collection::vec((raw_routes(9), 1usize..9, any::<u8>()), 1..14))
                .prop_map(|(inst, seed, sols)| DirectCase { inst, seed, sols })
                .boxed()
        },
        direct_test,
    )
}

// --- C17 -------------------------------------------------------------------------------------

fn individuals_test(case: &GaCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let mut penalties: Vec<f64> = vec![];
    let elite = case.knobs.elite && inst.customers() > case.knobs.elite_limit;
    let mut started = false;
    let mut several = false;
    let (_ctx, ga) = drive(case, |ctx, ga, step| {
        for p in [step.penalty_before, step.penalty_after].iter() {
            if !penalties.contains(p) {
                penalties.push(*p);
            }
        }
        started |= step.generation || elite;
        let fleet = fleet(ctx);
        let check_one = |name: &str, ind: &Individual| -> Check {
            check_shape(inst, fleet, ind)?;
            check_evaluation(inst, None, ind)?;
            if !ind.is_feasible() {
                let ok = penalties.iter().rev().any(|&p| check_evaluation(inst, Some(p), ind).is_ok());
                // Elite education changes the penalty several times within one step.
                ensure!(ok || elite, "{} individual: penalised cost {} is not its cost under any penalty so far {:?}: {:?}", name, ind.penalized_cost(), penalties, ind.phenotype);
            }
            Ok(())
        };
        for (kind, ind) in members(ga) {
            check_one(kind, ind).map_err(|e| format!("{} individual: {}", kind, e))?;
            let naive = evaluate(inst, 0.0, &ind.phenotype);
            let border = naive.overload.iter().any(|&o| (o - EPS).abs() < 1e-9);
            ensure!(border || naive.feasible == (kind == "feasible"), "{:?} is kept among the {} individuals", ind.phenotype, kind);
        }
        if started && !ga.child.phenotype.iter().all(|r| r.is_empty()) {
            check_one("current", &ga.child).map_err(|e| format!("current individual: {}", e))?;
        }
        ensure!(!step.generation || ga.child.phenotype.iter().any(|r| !r.is_empty()), "the current individual has no route after a generation");
        several |= ga.population.size() >= 3;
        Ok(())
    })?;
    classify(case, &ga, obs);
    obs.class_if(penalties.len() > 2, "three or more penalties");
    if several && ga.iterations > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn individuals_part() -> Part {
    part("individuals", "stepwise run, every individual judged after every step; non-trivial: three individuals at once and at least one generation", 10_000, 250_000, || ga_strategy(1, 10), individuals_test).shrink(300)
}
fn individuals_large() -> Part {
    part("individuals-large", "as individuals with up to 45 customers", 1_000, 25_000, || ga_strategy(15, 45), individuals_test).shrink(100)
}
fn individuals_huge() -> Part {
    part("individuals-huge", "as individuals with 100 to 300 customers", 60, 2_000, || ga_strategy(100, 300), individuals_test).cpu(200).shrink(30)
}

/// Is `child` made of a stretch of one parent, in place, and the rest in the order of another?
/// Some(true): and it differs from both.
fn explain(child: &[usize], parents: &[Vec<usize>]) -> Option<bool> {
    let n = child.len();
    let mut found = None;
    if n == 1 {
        return Some(false);
    }
    for a in parents {
        for start in 0..n {
            let mut kept = vec![false; n + 1];
            for len in 1..=n {
                let i = (start + len - 1) % n;
                if a[i] != child[i] {
                    break;
                }
                kept[a[i]] = true;
                if len < 2 {
                    continue;
                }
                for b in parents {
                    let mut at = (start + len) % n;
                    let mut ok = true;
                    for &g in b.iter().filter(|&&g| !kept[g]) {
                        if child[at] != g {
                            ok = false;
                            break;
                        }
                        at = (at + 1) % n;
                    }
                    if ok {
                        if len < n && a != b && child != &a[..] && child != &b[..] {
                            return Some(true);
                        }
                        found = Some(false);
                    }
                }
            }
        }
    }
    found
}

fn permutations(k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for i in 0..k {
        let mut next = vec![];
        for p in &out {
            for j in 0..=p.len() {
                let mut q: Vec<usize> = p.clone();
                q.insert(j, i);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// With local search and mutation off the child is the plain recombination, cut into routes and
/// the routes sorted.
fn crossover_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut case = case.clone();
    case.knobs.ls = false;
    case.knobs.rr = false;
    case.knobs.elite = false;
    let n = case.inst.customers();
    let mut parents: Vec<Vec<usize>> = vec![];
    let mut mixed = 0;
    let mut judged = 0;
    drive(&case, |_ctx, ga, step| {
        if step.generation {
            let routes: Vec<&Vec<usize>> = ga.child.phenotype.iter().filter(|r| !r.is_empty()).collect();
            complete(&ga.child.phenotype, n)?;
            if routes.len() <= 4 {
                judged += 1;
                let mut found = None;
                for p in permutations(routes.len()) {
                    let tour: Vec<usize> = p.iter().flat_map(|&i| routes[i].iter().copied()).collect();
                    found = found.max(explain(&tour, &parents));
                }
                ensure!(found.is_some(), "child {:?} is no recombination of any two of {:?}", routes, parents);
                if found == Some(true) && routes.len() == 1 {
                    mixed += 1;
                }
            }
        }
        parents = members(ga).map(|(_, i)| i.genotype.clone()).collect();
        parents.sort();
        parents.dedup();
        Ok(())
    })?;
    obs.count("children explained", judged);
    obs.count("single-route children unlike both parents", mixed);
    if mixed > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn recombination_strategy() -> BoxedStrategy<GaCase> {
    (ga_strategy(1, 9), 0u8..4)
        .prop_map(|(mut case, wide)| {
            if wide > 0 {
                // One vehicle takes all: the cut leaves the tour whole.
                case.inst.cap = case.inst.cap.max(case.inst.total_demand());
            }
            case.knobs.max_iter = case.knobs.max_iter.max(4);
            case.knobs.init = case.knobs.init.max(3);
            case
        })
        .boxed()
}

fn individuals_long() -> Part {
    part("individuals-long", "as individuals over 100 to 700 generations with populations of usual size", 200, 6_000, || long_strategy(2, 9), individuals_test).cpu(120).shrink(60)
}

fn crossover_part() -> Part {
    part("recombination", "runs without education, every child explained by two parents; non-trivial: a child differs from both its parents", 4_000, 100_000, recombination_strategy, crossover_test).shrink(300)
}

// --- C21 -------------------------------------------------------------------------------------

fn generations_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut starts = 0;
    let mut generations = 0;
    let (ctx, ga) = drive(case, |ctx, ga, step| {
        if step.generation {
            generations += 1;
            ensure!(ga.iterations == step.iterations_before + 1, "one step counts {} generations", ga.iterations - step.iterations_before);
        } else {
            ensure!(ga.iterations == step.iterations_before, "generations counted back from {} to {}", step.iterations_before, ga.iterations);
        }
        ensure!(*ctx.iteration.borrow() == generations, "{} generations counted, {} performed", *ctx.iteration.borrow(), generations);
        if !step.generation && ga.num_initialized == 1 {
            starts += 1;
        }
        Ok(())
    })?;
    let limit = case.knobs.max_iter;
    ensure!(generations == limit, "{} generations performed with a limit of {}", generations, limit);
    ensure!(ga.iterations == limit && *ctx.iteration.borrow() == limit, "counters {} and {} after {} generations", ga.iterations, *ctx.iteration.borrow(), limit);
    if limit == 0 {
        ensure!(ga.population.size() == 0 && ctx.search_history.borrow().entries().is_empty(), "work was done with a limit of zero generations");
        obs.class("limit zero");
    }
    // No time at all: ends at once, whatever the other limits.
    let mut config = case.knobs.config();
    config.time_limit = 0;
    let ctx = case.inst.context(config);
    let mut ga = GeneticAlgorithm::new(&ctx);
    ga.iterate(&ctx);
    ensure!(ga.terminated(), "still running with a time limit of zero");
    ensure!(ga.iterations == 0 && ga.population.size() == 0 && ctx.search_history.borrow().entries().is_empty(), "work was done with a time limit of zero");
    ga.iterate(&ctx);
    ensure!(ga.terminated() && ga.population.size() == 0, "goes on after its end");
    if limit >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

fn generations_part() -> Part {
    part("generations", "stepwise run to the iteration limit, then with no time; non-trivial: a limit of two or more", 10_000, 250_000, || ga_strategy(1, 8), generations_test).shrink(300)
}

fn generations_long() -> Part {
    part("generations-long", "as generations, 100 to 700 of them", 200, 6_000, || long_strategy(1, 8), generations_test).cpu(120).shrink(60)
}

fn restart_strategy() -> BoxedStrategy<GaCase> {
    (ga_strategy(1, 7), 0u64..9, 5u64..40)
        .prop_map(|(mut case, restart, max_iter)| {
            case.knobs.restart = restart;
            case.knobs.max_iter = max_iter;
            case.knobs.init = case.knobs.init.min(6);
            case
        })
        .boxed()
}

fn restart_test(case: &GaCase, obs: &mut Obs) -> Check {
    let limit = case.knobs.restart;
    let elite = case.knobs.elite && case.inst.customers() > case.knobs.elite_limit;
    let mut since = 0u64; // generation of the last improvement or restart
    let mut best = f64::INFINITY;
    let mut restarts = 0;
    // Initial individuals built since the last (re)start; none may be left out before a generation.
    let mut built = 0u64;
    let mut last_count = 0u64;
    drive(case, |_ctx, ga, step| {
        let g = step.iterations_before;
        if step.generation {
            ensure!(built == case.knobs.init, "generation {} begins with {} of {} initial individuals", g, built, case.knobs.init);
            if !step.restarted && ga.current_best_solution_cost < best {
                since = g;
                best = ga.current_best_solution_cost;
            }
            // The improvement of the restarting generation itself cannot be seen any more, but
            // an improvement rules a restart out.
            let due = g - since > limit;
            ensure!(
                step.restarted == due,
                "generation {}: restarted is {}, {} generations since the last improvement, limit {}",
                g, step.restarted, g - since, limit
            );
            if step.restarted {
                restarts += 1;
                since = g;
                best = f64::INFINITY;
                built = 0;
                last_count = 0;
                ensure!(ga.num_initialized == 0 && ga.population.size() == 0, "restart keeps {} individuals", ga.population.size());
                return Ok(());
            }
        } else {
            ensure!(ga.num_initialized == built || ga.num_initialized == built + 1, "initial individuals counted from {} to {}", built, ga.num_initialized);
            if ga.num_initialized > built {
                built += 1;
                ensure!(ga.population.total_individuals_count > last_count, "initial individual {} did not get into the population", built);
            }
            if ga.current_best_solution_cost < best {
                since = g;
                best = ga.current_best_solution_cost;
            }
        }
        last_count = ga.population.total_individuals_count;
        // Whatever joined the population since the (re)start counts as what is to be improved on.
        if let Some(known) = ga.population.feasible.get_best() {
            let (known, counted) = (known.penalized_cost(), ga.current_best_solution_cost);
            ensure!(counted <= known + 2e-6 + 1e-9 * known, "generation {}: the population has a feasible individual of {}, improvements are counted from {}", g, known, counted);
        }
        Ok(())
    })?;
    obs.count("restarts", restarts);
    obs.class_if(elite && restarts > 0, "restart with elite education");
    if restarts > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn restart_part() -> Part {
    part("restarts", "stepwise run with a small restart limit; non-trivial: the population was restarted", 8_000, 200_000, restart_strategy, restart_test).shrink(300)
}

fn restart_long() -> Part {
    part("restarts-long", "as restarts over 100 to 700 generations", 200, 6_000, || long_strategy(1, 8), restart_test).cpu(120).shrink(60)
}

fn unlimited_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut config = case.knobs.config();
    config.max_iterations = None;
    let ctx = case.inst.context(config);
    let mut ga = GeneticAlgorithm::new(&ctx);
    let steps = 40 + case.knobs.max_iter * 4;
    for k in 0..steps {
        ga.iterate(&ctx);
        ensure!(!ga.terminated(), "ended by itself after {} steps without a limit", k + 1);
    }
    let before = ga.iterations;
    ctx.config.borrow_mut().time_limit = 0;
    ga.iterate(&ctx);
    ensure!(ga.terminated() && ga.iterations == before, "still running after the time has run out");
    if ga.iterations > 2 {
        obs.nontrivial();
    }
    Ok(())
}

fn unlimited_part() -> Part {
    part("unlimited", "a number of steps without any limit, then time runs out; non-trivial: more than two generations", 3_000, 60_000, || ga_strategy(1, 8), unlimited_test).shrink(200)
}

/// A run whose clock is moved on between its steps.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClockCase {
    run: GaCase,
    limit: u64,
    /// Milliseconds that pass between two steps, in thousandths of the limit.
    pace: Vec<u16>,
    decomposed: bool,
    /// Whether the first of them passes before the context is made, as while an instance is read.
    early: bool,
}

fn clock_strategy() -> BoxedStrategy<ClockCase> {
    (ga_strategy(1, 8), prop_oneof![1u64..5, 5u64..1000, 1000u64..1_000_000], proptest::collection::vec(prop_oneof![3 => 0u16..100, 1 => 900u16..1001, 1 => 0u16..1001], 1..14), any::<u8>(), any::<bool>())
        .prop_map(|(mut run, limit, pace, decomposed, early)| {
            run.knobs.init = run.knobs.init.min(6);
            ClockCase { run, limit, pace, decomposed: decomposed % 128 == 0, early }
        })
        .boxed()
}

fn clock_test(case: &ClockCase, obs: &mut Obs) -> Check {
    let mut config = case.run.knobs.config();
    config.max_iterations = None;
    config.time_limit = case.limit;
    if case.decomposed {
        // A round searches each sub-problem for as long as there is time.
        config.decomposed_problem_min_size = 1;
    }
    let limit = Duration::from_secs(case.limit);
    // Passed by decree; the real clock runs as well. Some of it passes before there is a context.
    let mut passed = if case.early { limit.mul_f64(case.pace[0] as f64 / 1000.0) } else { Duration::ZERO };
    let mut start = Instant::now() - passed;
    config.round_distances = case.run.inst.rounded;
    config.precompute_distance_size_limit = if case.run.inst.precompute { 1_000_000 } else { 0 };
    let ctx = Box::new(Context::new(case.run.inst.parser(), config, start));
    let mut algorithm: Box<dyn Metaheuristic> =
        if case.decomposed { Box::new(DecomposedGeneticAlgorithm::new(&ctx)) } else { Box::new(GeneticAlgorithm::new(&ctx)) };
    let mut steps = 0;
    for (k, &p) in case.pace.iter().cycle().take(40).enumerate() {
        if case.decomposed && k > 3 {
            break;
        }
        if k > 0 {
            passed += limit.mul_f64(p as f64 / 1000.0);
            start = Instant::now() - passed;
            ctx.search_history.borrow_mut().start_time = start;
        }
        let generation = *ctx.iteration.borrow();
        let reports = ctx.search_history.borrow().entries().len();
        let before = start.elapsed();
        algorithm.iterate(&ctx);
        let after = start.elapsed();
        steps += 1;
        if after < limit {
            ensure!(!algorithm.terminated(), "ended after {:?} with a limit of {:?}", after, limit);
        }
        if before >= limit {
            ensure!(algorithm.terminated(), "still running after {:?} with a limit of {:?}", before, limit);
            ensure!(*ctx.iteration.borrow() == generation && ctx.search_history.borrow().entries().len() == reports, "goes on after its end");
            break;
        }
        if algorithm.terminated() {
            break;
        }
    }
    if passed >= limit && steps > 2 {
        obs.nontrivial();
    }
    obs.class_if(passed < limit, "time left");
    obs.class_if(passed >= limit && passed < limit + Duration::from_secs(1), "less than a second over");
    obs.class_if(case.decomposed, "decomposed");
    Ok(())
}

fn clock_part() -> Part {
    part("clock", "stepwise run while a shifted clock runs on to the limit; non-trivial: the time ran out after the second step", 4_000, 100_000, clock_strategy, clock_test).shrink(200).cpu(60)
}

// --- C25 -------------------------------------------------------------------------------------

fn penalty_strategy() -> BoxedStrategy<GaCase> {
    (ga_strategy(1, 8), 5u64..50, prop_oneof![3 => Just(1000u64), 1 => 2u64..12], 0u32..24)
        .prop_map(|(mut case, max_iter, restart, long)| {
            case.knobs.max_iter = max_iter;
            case.knobs.restart = restart;
            case.knobs.init = case.knobs.init.min(8);
            if long == 0 {
                // Mutations of thousands of rounds, after elite education.
                let k = &mut case.knobs;
                (k.elite, k.elite_limit, k.rr, k.rr_prob) = (true, 0, true, 1.0);
                k.rr_gamma = 2100.0 / case.inst.customers() as f64;
                k.max_iter = k.max_iter.min(12);
                k.init = k.init.min(4);
            }
            case
        })
        .boxed()
}

fn penalty_test(case: &GaCase, obs: &mut Obs) -> Check {
    let k = &case.knobs;
    let inst = &case.inst;
    let elite = k.elite && inst.customers() > k.elite_limit;
    let mut next = 0u64;
    let mut history = vec![true; 100];
    let mut seen = [0u64; 3];
    let mut bounded = false;
    let mut initialized = 0u64;
    drive(case, |_ctx, ga, step| {
        let g = step.iterations_before;
        if !step.generation {
            if !elite || step.built > 1 {
                ensure!(step.penalty_after == step.penalty_before, "penalty changed from {} to {} outside a generation", step.penalty_before, step.penalty_after);
            }
            // Initial individuals are recorded, whatever else joins the population is not.
            let moved = ga.population.feasible_history.len() == 100 && ga.population.feasible_history[..99] == history[1..];
            if ga.num_initialized > initialized {
                ensure!(moved, "feasibility history did not move on by one with an initial individual");
                let added = ga.population.total_individuals_count - 1;
                let whole = |s: &SubPopulation| s.population.iter().any(|i| i.number == added);
                if whole(&ga.population.feasible) || whole(&ga.population.infeasible) {
                    ensure!(ga.population.feasible_history[99] == whole(&ga.population.feasible), "an initial individual was recorded as {}", ga.population.feasible_history[99]);
                }
            } else {
                ensure!(ga.population.feasible_history == history, "feasibility history moved on without an initial individual or child");
            }
            initialized = ga.num_initialized;
            history = ga.population.feasible_history.clone();
            return Ok(());
        }
        history.remove(0);
        history.push(ga.child.is_feasible());
        if !step.restarted {
            ensure!(ga.population.feasible_history == history, "feasibility history is not that of the last hundred individuals");
        }
        let fraction = history.iter().filter(|&&b| b).count() as f64 / 100.0;
        let clamp = |p: f64| p.min(1e7).max(1e-4);
        let p = step.penalty_before;
        let mut allowed = vec![];
        if g >= next {
            next += k.pen_interval;
            if fraction < k.target - 0.05 + 1e-9 {
                allowed.push(clamp(p * k.pen_inc));
                seen[0] += 1;
            }
            if fraction > k.target + 0.05 - 1e-9 {
                allowed.push(clamp(p * k.pen_dec));
                seen[1] += 1;
            }
            if fraction > k.target - 0.05 - 1e-9 && fraction < k.target + 0.05 + 1e-9 {
                allowed.push(clamp(p));
                seen[2] += 1;
            }
            bounded |= p * k.pen_inc > 1e7 || p * k.pen_dec < 1e-4;
            let now = step.penalty_after;
            for (i, ind) in ga.population.infeasible.population.iter().enumerate() {
                check_evaluation(inst, Some(now), ind).map_err(|e| format!("infeasible individual {} after the penalty update: {}", i, e))?;
                if i > 0 {
                    let prev = ga.population.infeasible.population[i - 1].penalized_cost();
                    ensure!(prev <= ind.penalized_cost() + 2e-6 + 1e-9 * prev.abs(), "infeasible individuals out of order after the penalty update: {} before {}", prev, ind.penalized_cost());
                }
            }
        } else {
            allowed.push(p);
        }
        ensure!(
            allowed.iter().any(|a| (a - step.penalty_after).abs() <= 1e-9 * a),
            "generation {}: penalty went from {} to {}, expected {:?} (feasible share {}, target {}, next update at {})",
            g, p, step.penalty_after, allowed, fraction, k.target, next
        );
        for ind in ga.population.feasible.population.iter() {
            let d: f64 = ind.phenotype.iter().map(|r| route_dist(inst, r)).sum();
            ensure!(close(ind.penalized_cost(), d), "a feasible individual costs {}, its length is {}", ind.penalized_cost(), d);
        }
        if step.restarted {
            next = g;
            history = vec![true; 100];
            initialized = 0;
        }
        Ok(())
    })?;
    obs.count("increases", seen[0]);
    obs.count("decreases", seen[1]);
    obs.count("unchanged", seen[2]);
    obs.class_if(bounded, "at a bound");
    obs.class_if(elite && k.rr && k.rr_gamma * inst.customers() as f64 > 1000.0, "long mutations after elite education");
    if (seen[0] > 0) as u32 + (seen[1] > 0) as u32 + (seen[2] > 0) as u32 >= 2 || (k.pen_interval > 1 && seen[0] + seen[1] > 2) {
        obs.nontrivial();
    }
    Ok(())
}

fn penalty_part() -> Part {
    part("updates", "stepwise run, every penalty change against a reference controller; non-trivial: updates of two kinds, or three or more at an interval above one", 8_000, 200_000, penalty_strategy, penalty_test).shrink(300)
}

fn penalty_long() -> Part {
    part("updates-long", "as updates over 100 to 700 generations", 200, 6_000, || long_strategy(2, 9), penalty_test).cpu(120).shrink(60)
}

fn penalty_bounds_part() -> Part {
    part(
        "bounds",
        "as updates, starting near a bound with large factors",
        3_000,
        60_000,
        || {
            (penalty_strategy(), prop_oneof![Just(1e-4), Just(5e-4), Just(2e6), Just(9.9e6), Just(1e7)], prop_oneof![Just(10.0), Just(100.0)], prop_oneof![Just(0.1), Just(0.01)])
                .prop_map(|(mut case, p, inc, dec)| {
                    case.penalty = Some(p);
                    case.knobs.pen_inc = inc;
                    case.knobs.pen_dec = dec;
                    case.knobs.elite = false;
                    case
                })
                .boxed()
        },
        penalty_test,
    )
    .shrink(300)
}

/// Generations after each of which the share of feasible ones is near a threshold.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThresholdCase {
    pub run: GaCase,
    /// For each generation: the share of feasible ones times 1000, the threshold's distance from
    /// it times 1000, whether it is the upper one, and a turn of the history.
    pub rounds: Vec<(u16, i8, bool, u8)>,
}

fn threshold_test(case: &ThresholdCase, obs: &mut Obs) -> Check {
    let ctx = context(&case.run);
    let inst = &case.run.inst;
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut limit = case.run.knobs.init + 20;
    while ctx.iteration.borrow().clone() == 0 && !ga.terminated() {
        ga.iterate(&ctx);
        ensure!(limit > 0, "no generation after {} steps", case.run.knobs.init + 20);
        limit -= 1;
    }
    let (mut changed, mut kept) = (0, 0);
    for &(share, delta, upper, turn) in &case.rounds {
        // Feasible ones spread by a fixed stride, then turned.
        let mut history: Vec<bool> = (0..100u16).map(|i| (i * 37) % 100 < share / 10).collect();
        history.rotate_left(turn as usize % 100);
        ga.population.feasible_history = history.clone();
        let count = history.iter().filter(|b| **b).count() as f64;
        {
            let mut c = ctx.config.borrow_mut();
            c.feasibility_proportion_target = count / 100.0 + delta as f64 / 1000.0 + if upper { -0.05 } else { 0.05 };
            c.penalty_capacity = c.penalty_capacity.max(1e-3).min(1e6);
        }
        let (target, before) = (ctx.config.borrow().feasibility_proportion_target, ctx.config.borrow().penalty_capacity);
        let generation = *ctx.iteration.borrow();
        ga.iterate(&ctx);
        ensure!(*ctx.iteration.borrow() == generation + 1, "one step made {} generations", *ctx.iteration.borrow() - generation);
        history.remove(0);
        history.push(ga.child.is_feasible());
        ensure!(ga.population.feasible_history == history, "feasibility history is not that of the last hundred individuals");
        let fraction = history.iter().filter(|b| **b).count() as f64 / 100.0;
        let after = ctx.config.borrow().penalty_capacity;
        let (low, high) = (target - 0.05, target + 0.05);
        if (fraction - low).abs() < 1e-9 || (fraction - high).abs() < 1e-9 {
            continue;
        }
        let factor = if fraction < low { case.run.knobs.pen_inc } else if fraction > high { case.run.knobs.pen_dec } else { 1.0 };
        let expected = (before * factor).min(1e7).max(1e-4);
        ensure!((after - expected).abs() <= 1e-9 * expected, "penalty went from {} to {} and not {}: {} of the last hundred feasible, target {}", before, after, expected, fraction * 100.0, target);
        for ind in ga.population.infeasible.population.iter() {
            check_evaluation(inst, Some(after), ind).map_err(|e| format!("infeasible individual after the penalty update: {}", e))?;
        }
        if factor != 1.0 { changed += 1 } else { kept += 1 }
    }
    obs.count("changed", changed);
    obs.count("unchanged", kept);
    if changed > 0 && kept > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn threshold_part() -> Part {
    part(
        "thresholds",
        "the share of feasible ones set near a threshold before every generation; non-trivial: penalties changed and kept",
        1_500,
        40_000,
        || {
            (ga_strategy(2, 9), vec((0u16..=1000, -12i8..=12, any::<bool>(), 0u8..100), 4..14))
                .prop_map(|(mut run, rounds)| {
                    let k = &mut run.knobs;
                    (k.pen_interval, k.elite, k.restart) = (1, false, 1_000_000);
                    k.max_iter = 1_000_000;
                    k.init = 1 + k.init % 4;
                    k.rr_gamma = k.rr_gamma.min(1.0);
                    ThresholdCase { run, rounds }
                })
                .boxed()
        },
        threshold_test,
    )
    .shrink(300)
}

// --- C24 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OptCase {
    inst: Inst,
    seed: u64,
}

fn run_default(inst: &Inst, seed: u64, initial: u64, generations: u64) -> (f64, usize) {
    let mut c = Config::default();
    c.deterministic = true;
    c.seed = seed;
    c.time_limit = 1_000_000;
    c.max_iterations = Some(generations);
    c.initial_individuals = initial;
    // Few generations: let the penalty follow quickly.
    c.penalty_update_interval = 1;
    let ctx = inst.context(c);
    let mut ga = GeneticAlgorithm::new(&ctx);
    while !ga.terminated() {
        ga.iterate(&ctx);
    }
    let h = ctx.search_history.borrow();
    let f = fleet(&ctx);
    (h.best_cost, f)
}

fn optimum_of(case: &OptCase, initial: u64, generations: u64, obs: &mut Obs) -> Check {
    let exact = exact(&case.inst);
    let (cost, fleet) = run_default(&case.inst, case.seed, initial, generations);
    match exact {
        None => {
            ensure!(cost == f64::INFINITY, "{} is reported though no feasible solution exists", cost);
            obs.class("no feasible solution exists");
        }
        Some((opt, fewest)) => {
            let tol = 1e-5 + 1e-9 * opt;
            // The optimum may need more vehicles than provided; the bound holds all the same.
            ensure!(cost >= opt - tol, "reported cost {} is below the optimum {}", cost, opt);
            ensure!(fewest <= fleet, "{} vehicles needed, {} provided", fewest, fleet);
            ensure!(cost < f64::INFINITY || initial < 100, "no feasible solution reported after {} generations, the optimum is {}", generations, opt);
            obs.count("solvable", 1);
            if cost <= opt + tol + 1e-4 {
                obs.count("optimal", 1);
            }
            if case.inst.customers() >= 4 {
                obs.nontrivial();
            }
        }
    }
    Ok(())
}

fn optimum_test(case: &OptCase, obs: &mut Obs) -> Check {
    optimum_of(case, 100, 60, obs)
}

fn optimum_aggregate(_n: u64, c: &BTreeMap<String, u64>) -> Check {
    let get = |k: &str| c.get(k).copied().unwrap_or(0);
    let (n, o) = (get("solvable"), get("optimal"));
    ensure!(n < 200 || o as f64 >= 0.995 * n as f64, "only {} of {} tiny instances were solved to optimality", o, n);
    Ok(())
}

fn optimum_part() -> Part {
    part(
        "optimum",
        "tiny instance x seed, 60 generations against the exact optimum; non-trivial: solvable with four or more customers",
        1_500,
        40_000,
        || (inst(SMALL.customers(1, 9).oversize(20)), 0u64..100_000).prop_map(|(inst, seed)| OptCase { inst, seed }).boxed(),
        optimum_test,
    )
    .aggregate(optimum_aggregate)
    .shrink(60)
}

fn defaults_test(case: &OptCase, obs: &mut Obs) -> Check {
    optimum_of(case, 100, 250, obs)
}

fn defaults_part() -> Part {
    part(
        "optimum-longer",
        "up to 11 customers, 250 generations against the exact optimum; non-trivial: solvable with four or more customers",
        200,
        6_000,
        || (inst(SMALL.customers(6, 11)), 0u64..100_000).prop_map(|(inst, seed)| OptCase { inst, seed }).boxed(),
        defaults_test,
    )
    .aggregate(optimum_aggregate)
    .shrink(40)
}

fn brief_test(case: &OptCase, obs: &mut Obs) -> Check {
    optimum_of(case, 4, 12, obs)
}

fn brief_aggregate(_n: u64, c: &BTreeMap<String, u64>) -> Check {
    let get = |k: &str| c.get(k).copied().unwrap_or(0);
    let (n, o) = (get("solvable"), get("optimal"));
    ensure!(n < 200 || o as f64 >= 0.83 * n as f64, "only {} of {} tiny instances were solved to optimality within 12 generations", o, n);
    Ok(())
}

fn brief_part() -> Part {
    part(
        "optimum-brief",
        "up to 11 customers, 4 initial individuals and 12 generations against the exact optimum; non-trivial: solvable with four or more customers",
        2_000,
        40_000,
        || (inst(SMALL.customers(6, 11)), 0u64..100_000).prop_map(|(inst, seed)| OptCase { inst, seed }).boxed(),
        brief_test,
    )
    .aggregate(brief_aggregate)
    .shrink(40)
}

/// Clusters on a circle around the depot, so far apart that no route of an optimal solution visits
/// two of them, each with exactly as much demand as its vehicles carry. With all distances from the
/// depot alike, each route costs at least twice the radius less the size of the clusters, and at
/// least the distance of two clusters more if it visits two; the optimum is that of every cluster by
/// itself, which is small enough to solve.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ClusterCase {
    /// Per cluster and vehicle the cuts of its load, and places for the customers.
    clusters: Vec<Vec<Vec<(u16, u16, u16)>>>,
    cap: u32,
    turn: u16,
    slack: bool,
    rounded: bool,
    precompute: bool,
    shuffle: u64,
    seed: u64,
}

const RADIUS: f64 = 100_000.0;
const CLUSTER: f64 = 200.0;

fn cluster_nodes(case: &ClusterCase) -> Vec<Vec<(f64, f64, f64)>> {
    let k = case.clusters.len();
    let mut all = Vec::new();
    for (i, vehicles) in case.clusters.iter().enumerate() {
        let angle = (i as f64 / k as f64 + case.turn as f64 / 65536.0) * std::f64::consts::TAU;
        let (cx, cy) = (RADIUS * angle.cos(), RADIUS * angle.sin());
        let mut nodes = Vec::new();
        for customers in vehicles {
            // The load of the vehicle in as many parts of at least one.
            let m = (customers.len() as u32).min(case.cap);
            let spare = case.cap - m;
            let mut cuts: Vec<u32> = customers.iter().take(m as usize - 1).map(|c| c.2 as u32 % (spare + 1)).collect();
            cuts.sort();
            cuts.push(spare);
            let mut last = 0;
            for (c, cut) in customers.iter().zip(cuts) {
                let (x, y) = (c.0 as f64 / 65535.0 * CLUSTER, c.1 as f64 / 65535.0 * CLUSTER);
                nodes.push(((cx + x).round(), (cy + y).round(), (cut - last + 1) as f64));
                last = cut;
            }
        }
        all.push(nodes);
    }
    all
}

fn clusters_test(case: &ClusterCase, obs: &mut Obs) -> Check {
    let groups = cluster_nodes(case);
    let vehicles: usize = case.clusters.iter().map(|c| c.len()).sum();
    // Not enough room to do with a vehicle less.
    let cap = case.cap as f64 + if case.slack { (case.cap as f64 / (2 * vehicles) as f64).floor() } else { 0.0 };
    let depot = (0.0, 0.0, 0.0);
    let instance = |nodes: Vec<(f64, f64, f64)>| Inst {
        nodes: std::iter::once(depot).chain(nodes).collect(),
        cap,
        rounded: case.rounded,
        precompute: case.precompute,
        matrix: None,
    };
    let mut opt = 0.0;
    for g in &groups {
        opt += exact(&instance(g.clone())).expect("every cluster has a solution").0;
    }
    let mut nodes: Vec<(f64, f64, f64)> = groups.concat();
    let mut d = case.shuffle;
    for i in (1..nodes.len()).rev() {
        d = crate::engine::splitmix(d);
        nodes.swap(i, d as usize % (i + 1));
    }
    let inst = instance(nodes);
    let (cost, _) = run_default(&inst, case.seed, 30, 120);
    let tol = 1e-4 + 1e-9 * opt;
    ensure!(cost >= opt - tol, "reported cost {} is below the optimum {}", cost, opt);
    obs.count("solvable", 1);
    obs.class_if(cost == f64::INFINITY, "no feasible solution found");
    if cost <= opt + tol + 1e-3 {
        obs.count("optimal", 1);
    }
    if groups.len() > 1 && vehicles > groups.len() {
        obs.nontrivial();
    }
    obs.class_if(inst.customers() >= 25, "twenty-five customers or more");
    obs.class_if(inst.customers() >= 40, "forty customers or more");
    Ok(())
}

fn clusters_aggregate(_n: u64, c: &BTreeMap<String, u64>) -> Check {
    let get = |k: &str| c.get(k).copied().unwrap_or(0);
    let (n, o) = (get("solvable"), get("optimal"));
    ensure!(n < 100 || o as f64 >= 0.93 * n as f64, "only {} of {} instances of far clusters were solved to optimality", o, n);
    Ok(())
}

fn clusters_part() -> Part {
    part(
        "clusters",
        "clusters far apart x seed, optimum known by construction; non-trivial: several clusters, one with several vehicles",
        300,
        8_000,
        || {
            let vehicle = vec((any::<u16>(), any::<u16>(), any::<u16>()), 1..4);
            (vec(vec(vehicle, 1..4), 1..11), 6u32..60, any::<u16>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<u64>(), 0u64..100_000)
                .prop_map(|(clusters, cap, turn, slack, rounded, precompute, shuffle, seed)| ClusterCase { clusters, cap, turn, slack, rounded, precompute, shuffle, seed })
                .boxed()
        },
        clusters_test,
    )
    .cpu(120)
    .aggregate(clusters_aggregate)
    .shrink(30)
}

// --- C25: the estimate the penalty starts from -----------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EstimateCase {
    inst: Inst,
    /// Powers of two that the coordinates (or the matrix) and the demands are multiplied by.
    far: i32,
    heavy: i32,
    other: f64,
    /// Limit of precomputation; that of the instance if none.
    #[serde(default)]
    limit: Option<u64>,
}

fn estimate_test(case: &EstimateCase, obs: &mut Obs) -> Check {
    let mut inst = case.inst.clone();
    let (far, heavy) = (2f64.powi(case.far), 2f64.powi(case.heavy));
    for n in inst.nodes.iter_mut() {
        *n = (n.0 * far, n.1 * far, n.2 * heavy);
    }
    inst.cap *= heavy;
    for d in inst.matrix.iter_mut().flatten().flatten() {
        *d *= far;
    }
    if inst.max_demand() == 0.0 {
        return Ok(());
    }
    // Right at the number of customers from which on distances are computed on demand.
    let ctx = match case.limit {
        Some(limit) => {
            let mut config = Config::default();
            config.deterministic = true;
            config.time_limit = 1_000_000;
            config.round_distances = inst.rounded;
            config.precompute_distance_size_limit = limit;
            inst.precompute = (inst.customers() as u64) < limit;
            obs.class_if(limit == inst.customers() as u64 || limit == inst.customers() as u64 + 1, "at the limit of precomputation");
            Box::new(Context::new(inst.parser(), config, std::time::Instant::now()))
        }
        None => inst.default_context(1),
    };
    let longest = (0..inst.dim()).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| inst.dist(i, j)).fold(0.0, f64::max);
    let stored = ctx.matrix_provider.distance.max().is_some();
    ensure!(stored == (inst.precompute || inst.matrix.is_some()), "largest distance known: {}, distances stored: {}", stored, !stored);
    let ratio = longest / inst.max_demand();
    let want = if stored { ratio.max(1e-4).min(1e4) } else { 100.0 };
    // The largest distance is the largest up to the tolerance of all comparisons.
    let slack = 1e-9 * want + if stored { 1e-6 / inst.max_demand() } else { 0.0 };
    let is = |p: f64| (p - want).abs() <= slack;
    let first = ctx.config.borrow().penalty_capacity;
    ensure!(is(first), "the penalty starts at {}, the largest distance is {} and the largest demand {}", first, longest, inst.max_demand());
    ctx.config.borrow_mut().penalty_capacity = case.other;
    ctx.reset_penalty();
    let again = ctx.config.borrow().penalty_capacity;
    ensure!(again == first, "the penalty starts at {} and is set back to {}", first, again);
    obs.class_if(stored && ratio < 1e-4, "at the lower bound");
    obs.class_if(stored && ratio > 1e4, "at the upper bound");
    obs.class_if(!stored, "distances on demand");
    if stored && ratio >= 1e-4 && ratio <= 1e4 {
        obs.nontrivial();
    }
    Ok(())
}

fn estimate_part() -> Part {
    part(
        "estimate",
        "instances of all scales; non-trivial: the distances are stored and the estimate is within its bounds",
        10_000,
        200_000,
        || {
            (inst(SMALL.customers(1, 12).oversize(8)), -12i32..20, -12i32..20, penalty())
                .prop_flat_map(|(inst, far, heavy, other)| {
                    let n = inst.customers() as u64;
                    let limit = proptest::option::weighted(0.5, prop_oneof![n - 1..n + 3, 0u64..20]);
                    (Just((inst, far, heavy, other)), limit)
                })
                .prop_map(|((inst, far, heavy, other), limit)| EstimateCase { inst, far, heavy, other, limit })
                .boxed()
        },
        estimate_test,
    )
}

//! C13 ruin and recreate, C14 annealing.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use hybridcvrp::solver::improvement::*;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::Random;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", parts: vec![rounds_part(), rounds_large(), rounds_huge(), search_part(), search_large()] },
        Prop { id: "C14", parts: vec![accept_part(), cooling_part(), timed_part(), step_part(), step_large(), keeps_best_part(), keeps_best_large()] },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RrCase {
    inst: Inst,
    start: RawRoutes,
    slots: usize,
    penalty: f64,
    cavg: usize,
    lmax: usize,
    seed: u64,
    rounds: usize,
}

fn rr_strategy(min: usize, max: usize, rounds: usize) -> BoxedStrategy<RrCase> {
    (
        inst(SMALL.customers(min, max).oversize(12)),
        raw_routes(max),
        slots(1, 12, max),
        penalty(),
        prop_oneof![3 => Just(10usize), 3 => 1usize..6, 1 => Just(0usize), 1 => Just(40usize)],
        prop_oneof![3 => Just(10usize), 3 => 1usize..6, 1 => Just(0usize), 1 => Just(40usize)],
        0u64..100_000,
        1usize..rounds,
    )
        .prop_map(|(inst, start, slots, penalty, cavg, lmax, seed, rounds)| RrCase { inst, start, slots, penalty, cavg, lmax, seed, rounds })
        .boxed()
}

fn context(case: &RrCase) -> Box<Context> {
    let mut c = hybridcvrp::config::Config::default();
    c.deterministic = true;
    c.seed = case.seed;
    c.time_limit = 1_000_000;
    c.average_ruin_cardinality = case.cavg;
    c.max_ruin_string_length = case.lmax;
    let ctx = case.inst.context(c);
    ctx.config.borrow_mut().penalty_capacity = case.penalty;
    ctx
}

fn start(case: &RrCase, fleet: usize) -> Vec<Vec<usize>> {
    let mut routes = case.start.routes(case.inst.customers(), case.slots.min(fleet).max(1));
    routes.resize(fleet, vec![]);
    routes
}

fn routes_of(sol: &RuinRecreateSolution) -> Vec<Vec<usize>> {
    sol.routes.iter().map(|r| r.nodes.clone()).collect()
}

/// Stored lengths and overloads against a recomputation; `slack` covers the noise that summing
/// many small changes leaves behind.
fn check_books(inst: &Inst, sol: &RuinRecreateSolution, slack: f64) -> Check {
    for (i, r) in sol.routes.iter().enumerate() {
        let d = route_dist(inst, &r.nodes);
        let o = load(inst, &r.nodes) - inst.cap;
        ensure!((r.distance - d).abs() <= slack, "route {} {:?} has stored length {} and real length {}", i, r.nodes, r.distance, d);
        ensure!((r.overload - o).abs() <= slack, "route {} {:?} has stored overload {} and real overload {}", i, r.nodes, r.overload, o);
    }
    Ok(())
}

fn check_whole(inst: &Inst, penalty: f64, fleet: usize, sol: &RuinRecreateSolution, slack: f64) -> Check {
    let routes = routes_of(sol);
    complete(&routes, inst.customers())?;
    ensure!(routes.len() == fleet, "{} routes in a fleet of {}", routes.len(), fleet);
    ensure!(sol.unassigned.is_empty(), "customers {:?} are still unassigned", sol.unassigned);
    check_books(inst, sol, slack)?;
    for (r, nodes) in routes.iter().enumerate() {
        for (i, &c) in nodes.iter().enumerate() {
            let l = &sol.locations[c];
            ensure!(l.route_index == r && l.node_index == i, "customer {} is located at {}/{}, really at {}/{}", c, l.route_index, l.node_index, r, i);
        }
    }
    let real = total_cost(inst, penalty, &routes);
    ensure!((sol.cost - real).abs() <= slack * (1.0 + penalty), "stored cost {} is really {}: {:?}", sol.cost, real, routes);
    let naive = evaluate(inst, penalty, &routes);
    let border: f64 = naive.overload.iter().map(|o| o.max(0.0)).sum();
    ensure!((border - EPS).abs() < slack * 10.0 || sol.is_feasible() == naive.feasible, "feasible flag {} is wrong for {:?}", sol.is_feasible(), routes);
    Ok(())
}

fn slack_of(inst: &Inst) -> f64 {
    1e-6 + 1e-10 * scale(inst, 1.0)
}

/// Number of maximal runs of removed positions.
fn runs(removed: &[bool]) -> usize {
    let mut k = 0;
    for i in 0..removed.len() {
        if removed[i] && (i == 0 || !removed[i - 1]) {
            k += 1;
        }
    }
    k
}

struct Ruined {
    removed: Vec<usize>,
    touched: Vec<usize>,
}

fn check_ruin(case: &RrCase, before: &[Vec<usize>], sol: &RuinRecreateSolution, obs: &mut Obs) -> Result<Ruined, String> {
    let n = case.inst.customers();
    let after = routes_of(sol);
    ensure!(before.len() == after.len(), "ruin changed the number of routes from {} to {}", before.len(), after.len());
    let mut removed = vec![];
    let mut touched = vec![];
    for (r, (b, a)) in before.iter().zip(&after).enumerate() {
        if b == a {
            continue;
        }
        touched.push(r);
        // What stays keeps its order: `a` is `b` without the removed customers.
        let gone: Vec<bool> = b.iter().map(|c| !a.contains(c)).collect();
        let kept: Vec<usize> = b.iter().zip(&gone).filter(|(_, g)| !**g).map(|(c, _)| *c).collect();
        ensure!(&kept == a, "ruin turned route {:?} into {:?}", b, a);
        let k = gone.iter().filter(|g| **g).count();
        ensure!(k <= case.lmax.max(1), "ruin removed {} customers from {:?} (left {:?}), longest string is {}", k, b, a, case.lmax);
        ensure!(runs(&gone) <= 2, "ruin removed more than one (split) string from {:?}: left {:?}", b, a);
        obs.class_if(runs(&gone) == 2, "split string");
        obs.class_if(k >= 2 && runs(&gone) == 1, "string of two or more");
        obs.class_if(a.is_empty(), "route emptied");
        removed.extend(b.iter().zip(&gone).filter(|(_, g)| **g).map(|(c, _)| *c));
    }
    let mut un = sol.unassigned.clone();
    un.sort();
    removed.sort();
    ensure!(un == removed, "removed customers are {:?}, unassigned are {:?}", removed, un);
    ensure!(n < 2 || !removed.is_empty(), "nothing was ruined in {:?}", before);
    let mut ruined: Vec<usize> = sol.ruined_routes.iter().copied().collect();
    ruined.sort();
    ensure!(ruined == touched, "ruined routes are {:?}, marked are {:?}", touched, ruined);
    obs.class_if(touched.len() >= 2, "two or more routes ruined");
    Ok(Ruined { removed, touched })
}

/// Is there an order in which the removed customers were put back, each into the best eligible
/// place? The final routes give the place of every customer, so the state after inserting a set
/// of customers does not depend on the order: search over sets.
fn check_recreate(case: &RrCase, before: &[Vec<usize>], ruined: &Ruined, after: &[Vec<usize>], obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let k = ruined.removed.len();
    let removed = &ruined.removed;
    // Untouched customers keep their order.
    for (r, (b, a)) in before.iter().zip(after).enumerate() {
        let kept: Vec<usize> = a.iter().copied().filter(|c| !removed.contains(c)).collect();
        ensure!(&kept == b, "recreate disturbed route {}: {:?} became {:?}", r, b, a);
    }
    if k > 11 {
        obs.class("too many removed customers to check the order");
        return Ok(());
    }
    let bit = |c: usize| removed.iter().position(|&x| x == c);
    let home: Vec<usize> = removed.iter().map(|c| after.iter().position(|r| r.contains(c)).unwrap_or(usize::MAX)).collect();
    ensure!(home.iter().all(|&h| h != usize::MAX), "customer lost in recreate: removed {:?}, routes {:?}", removed, after);
    let d = |a: usize, b: usize| inst.dist(a, b);
    let tol = 1e-5 + 1e-9 * scale(inst, case.penalty);
    let mut reach = vec![false; 1 << k];
    reach[0] = true;
    let mut why = String::new();
    let mut best_popcount = 0;
    for set in 0..(1usize << k) - 1 {
        if !reach[set] {
            continue;
        }
        let state: Vec<Vec<usize>> = after
            .iter()
            .map(|r| r.iter().copied().filter(|&c| bit(c).map_or(true, |b| set >> b & 1 == 1)).collect())
            .collect();
        let over: Vec<f64> = state.iter().map(|r| load(inst, r) - inst.cap).collect();
        let mut eligible = vec![false; state.len()];
        for &r in &ruined.touched {
            eligible[r] = true;
        }
        for b in 0..k {
            if set >> b & 1 == 1 {
                eligible[home[b]] = true;
            }
        }
        let delta = |r: usize, i: usize, c: usize| {
            let p = if i == 0 { 0 } else { state[r][i - 1] };
            let q = if i == state[r].len() { 0 } else { state[r][i] };
            d(p, c) + d(c, q) - d(p, q)
        };
        for b in 0..k {
            if set >> b & 1 == 1 {
                continue;
            }
            let c = removed[b];
            let q = inst.demand(c);
            let r = home[b];
            let target = &after[r];
            let at = target.iter().position(|&x| x == c).unwrap();
            let i = target[..at].iter().filter(|&&x| bit(x).map_or(true, |y| set >> y & 1 == 1)).count();
            let actual = delta(r, i, c);
            let fits = |x: usize| over[x] + q <= 1e-7;
            let may = |x: usize| over[x] + q <= 1e-5;
            let mut best = f64::INFINITY;
            for x in 0..state.len() {
                if eligible[x] && fits(x) {
                    for j in 0..=state[x].len() {
                        best = best.min(delta(x, j, c));
                    }
                }
            }
            let mut ok = false;
            if eligible[r] && may(r) && actual <= best + tol {
                ok = true;
                obs.class_if(best < f64::INFINITY, "into a ruined route with room");
            }
            let any_eligible = best < f64::INFINITY;
            if !ok && !any_eligible {
                let mut least = f64::INFINITY;
                for x in 0..state.len() {
                    let pen = case.penalty * (over[x] + q).max(0.0);
                    for j in 0..=state[x].len() {
                        least = least.min(delta(x, j, c) + pen);
                    }
                }
                let mine = actual + case.penalty * (over[r] + q).max(0.0);
                ok = mine <= least + tol;
                if !ok && set.count_ones() >= best_popcount {
                    best_popcount = set.count_ones();
                    why = format!("customer {} into route {} at {} costs {}, the least is {} (state {:?}, ruined {:?})", c, r, i, mine, least, state, ruined.touched);
                }
                obs.class_if(ok, "least penalised place anywhere");
            } else if !ok && set.count_ones() >= best_popcount {
                best_popcount = set.count_ones();
                why = format!("customer {} into route {} at {} costs {}, the best place in a ruined route with room costs {} (state {:?}, ruined {:?})", c, r, i, actual, best, state, ruined.touched);
            }
            if ok {
                reach[set | 1 << b] = true;
            }
        }
    }
    ensure!(reach[(1 << k) - 1], "no order of putting {:?} back into {:?} explains {:?}; for one: {}", removed, before, after, why);
    Ok(())
}

fn rounds_test(case: &RrCase, obs: &mut Obs) -> Check {
    let ctx = context(case);
    let fleet = fleet(&ctx);
    let routes = start(case, fleet);
    let ind = individual(&ctx, &routes);
    let ruin = AdjacentStringRemoval::new(&ctx);
    let recreate = GreedyBlink::default();
    let mut sol = RuinRecreateSolution::new(&ctx);
    sol.load(&ind);
    let all: Vec<usize> = (0..fleet).collect();
    sol.evaluate(&ctx, all.iter());
    let slack = slack_of(&case.inst);
    check_whole(&case.inst, case.penalty, fleet, &sol, slack)?;
    for round in 0..case.rounds {
        let before = routes_of(&sol);
        ruin.run(&ctx, &mut sol);
        let gone = check_ruin(case, &before, &sol, obs).map_err(|e| format!("round {}: {}", round, e))?;
        check_books(&case.inst, &sol, slack * (2 + round) as f64).map_err(|e| format!("round {} after ruin: {}", round, e))?;
        let mid = routes_of(&sol);
        recreate.run(&ctx, &mut sol);
        ensure!(sol.ruined_routes.is_empty(), "ruined routes still marked after recreate");
        check_recreate(case, &mid, &gone, &routes_of(&sol), obs).map_err(|e| format!("round {}: {}", round, e))?;
        check_whole(&case.inst, case.penalty, fleet, &sol, slack * (2 + round) as f64).map_err(|e| format!("round {}: {}", round, e))?;
        if gone.removed.len() >= 2 {
            obs.nontrivial();
        }
        obs.class_if(routes_of(&sol) != before, "solution changed");
        obs.class_if(sol.routes.iter().any(|r| r.overload > EPS), "overloaded solution");
        obs.count("rounds", 1);
    }
    Ok(())
}

fn rounds_part() -> Part {
    part("rounds", "instance x start x ruin sizes x rounds of ruin and recreate, each judged by itself; non-trivial: a round removed two or more customers", 8_000, 250_000, || rr_strategy(1, 12, 12), rounds_test)
}

fn rounds_large() -> Part {
    part("rounds-large", "as rounds with up to 70 customers", 1_500, 50_000, || rr_strategy(20, 70, 10), rounds_test).shrink(600)
}

fn rounds_huge() -> Part {
    part("rounds-huge", "as rounds with 120 to 320 customers", 100, 4_000, || rr_strategy(120, 320, 6), rounds_test).cpu(120).shrink(60)
}

// Whole searches through the public interface, reusing one search object.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SearchCase {
    rr: RrCase,
    second: RawRoutes,
    temp: f64,
    iterations: usize,
    update_penalty: bool,
}

fn search_strategy(max: usize) -> BoxedStrategy<SearchCase> {
    searches(1, max)
}

fn searches(min: usize, max: usize) -> BoxedStrategy<SearchCase> {
    (
        rr_strategy(min, max, 2),
        raw_routes(max),
        prop_oneof![2 => Just(0.0), 2 => Just(10.0), 1 => Just(0.5), 1 => Just(1e6)],
        prop_oneof![4 => 1usize..80, 1 => 990usize..2100],
        any::<bool>(),
    )
        .prop_map(|(rr, second, temp, iterations, update_penalty)| SearchCase { rr, second, temp, iterations, update_penalty })
        .boxed()
}

fn search_test(case: &SearchCase, obs: &mut Obs) -> Check {
    let ctx = context(&case.rr);
    let fleet = fleet(&ctx);
    let inst = &case.rr.inst;
    let mut rr = RuinRecreate::new(&ctx);
    rr.set_acceptance(IterationSchedule::new(case.temp, case.iterations).into());
    rr.update_penalty = case.update_penalty;
    let slack = slack_of(inst) * (2 + case.iterations) as f64;
    for (k, raw) in [&case.rr.start, &case.second].iter().enumerate() {
        let mut routes = raw.routes(inst.customers(), case.rr.slots.min(fleet).max(1));
        routes.resize(fleet, vec![]);
        let mut ind = individual(&ctx, &routes);
        rr.load(&ctx, &mut ind);
        let pen = ctx.config.borrow().penalty_capacity;
        let loaded = ("loaded", &rr.solution);
        check_whole(inst, pen, fleet, loaded.1, slack).map_err(|e| format!("search {}: {}: {}", k, loaded.0, e))?;
        let mut calls = 0;
        while !rr.complete() {
            rr.search();
            calls += 1;
            let pen = ctx.config.borrow().penalty_capacity;
            check_whole(inst, pen, fleet, &rr.solution, slack).map_err(|e| format!("search {} accepted solution: {}", k, e))?;
            check_whole(inst, pen, fleet, &rr.current_solution, slack).map_err(|e| format!("search {} working solution: {}", k, e))?;
            ensure!(routes_of(&rr.solution) == routes_of(&rr.current_solution), "search {}: working solution {:?} is not the accepted one {:?}", k, routes_of(&rr.current_solution), routes_of(&rr.solution));
            if let Some(best) = rr.best_solution.as_ref() {
                check_whole(inst, pen, fleet, best, slack).map_err(|e| format!("search {} best solution: {}", k, e))?;
            }
            ensure!(calls <= case.iterations, "search {} does not complete after {} calls for {} iterations", k, calls, case.iterations);
        }
        let expected = (case.iterations + 999) / 1000;
        ensure!(calls == expected, "{} iterations took {} calls of up to 1000 iterations each", case.iterations, calls);
        let pen = ctx.config.borrow().penalty_capacity;
        if routes_of(&rr.solution) != routes {
            obs.nontrivial();
        }
        obs.class_if(pen != case.rr.penalty, "penalty changed");
        rr.get_solution(&mut ind);
        check_shape(inst, fleet, &ind)?;
        check_evaluation(inst, Some(pen), &ind)?;
        rr.get_best_solution(&mut ind);
        check_shape(inst, fleet, &ind)?;
        check_evaluation(inst, Some(pen), &ind)?;
        ensure!((ind.penalized_cost() - rr.best_cost()).abs() <= slack * (1.0 + pen), "best cost {} of a solution of cost {}", rr.best_cost(), ind.penalized_cost());
    }
    let history = ctx.search_history.borrow();
    let mut last = f64::INFINITY;
    for e in history.entries().iter() {
        ensure!(e.solution.cost < last, "reported costs rise from {} to {}", last, e.solution.cost);
        last = e.solution.cost;
    }
    obs.class_if(last < f64::INFINITY, "incumbent reported");
    Ok(())
}

fn search_large() -> Part {
    part("search-large", "as search with 20 to 200 customers", 60, 1_500, || searches(20, 200), search_test).cpu(120).shrink(60)
}

fn search_part() -> Part {
    part("search", "two whole searches on one search object, penalty updates on or off; non-trivial: the search ended in other routes", 3_000, 80_000, || search_strategy(14), search_test).shrink(400)
}

// --- C14 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AcceptCase {
    temp: f64,
    iterations: usize,
    at: usize,
    old: f64,
    /// Difference in units of the temperature.
    ratio: f64,
    seed: u64,
    timed: bool,
}

fn reference_temp(start: f64, t: f64) -> f64 {
    ((-2.0 * t).exp() - t * (-2.0f64).exp()) * start
}

fn accept_strategy() -> BoxedStrategy<AcceptCase> {
    (
        prop_oneof![1 => Just(0.0), 1 => Just(1.0), 4 => (1u32..10_000).prop_map(|x| x as f64 / 10.0)],
        1usize..500,
        0usize..1000,
        (0u32..1_000_000).prop_map(|x| x as f64 / 8.0),
        (-30i32..60).prop_map(|x| x as f64 / 10.0),
        any::<u64>(),
        any::<bool>(),
    )
        .prop_map(|(temp, iterations, at, old, ratio, seed, timed)| AcceptCase { temp, iterations, at: at % iterations, old, ratio, seed, timed })
        .boxed()
}

fn accept_test(case: &AcceptCase, obs: &mut Obs) -> Check {
    let random = Random::from_seed(case.seed);
    let (schedule, temp): (AcceptanceCriterion, f64) = if case.timed {
        (TimeSchedule::new(case.temp, Duration::from_secs(1000)).into(), case.temp)
    } else {
        let mut s = IterationSchedule::new(case.temp, case.iterations);
        for _ in 0..case.at {
            Acceptance::update(&mut s);
        }
        (s.into(), reference_temp(case.temp, case.at as f64 / case.iterations as f64))
    };
    let unit = if temp > 1e-3 { temp } else { 1.0 };
    let delta = case.ratio * unit;
    let new = case.old + delta;
    const N: usize = 400;
    let accepted = (0..N).filter(|_| schedule.accept(new, case.old, &random)).count();
    if temp <= 1e-3 {
        if delta.abs() > 1e-3 * 40.0 {
            let want = if delta < 0.0 { N } else { 0 };
            ensure!(accepted == want, "at temperature {} a change of {} was accepted {} times of {}", temp, delta, accepted, N);
            obs.class("frozen");
        }
        return Ok(());
    }
    obs.nontrivial();
    if delta < -1e-5 {
        ensure!(accepted == N, "an improvement of {} was accepted only {} times of {} at temperature {}", -delta, accepted, N, temp);
        obs.class("improvement");
    } else if delta > 1e-5 {
        // new < old - T ln U  <=>  U < exp(-delta/T)
        let p = (-delta / temp).exp();
        let mean = p * N as f64;
        let bound = 7.5 * (p * (1.0 - p) * N as f64).sqrt() + 8.0;
        ensure!((accepted as f64 - mean).abs() <= bound, "a change of {} at temperature {} was accepted {} times of {}, expected {:.1}", delta, temp, accepted, N, mean);
        obs.class("worsening");
        obs.count("expected acceptances of worsening", mean.round() as u64);
        obs.count("acceptances of worsening", accepted as u64);
        obs.count("trials of worsening", N as u64);
    }
    Ok(())
}

fn accept_aggregate(_n: u64, c: &BTreeMap<String, u64>) -> Check {
    let get = |k: &str| c.get(k).copied().unwrap_or(0) as f64;
    let (e, a, n) = (get("expected acceptances of worsening"), get("acceptances of worsening"), get("trials of worsening"));
    // Each trial's variance is at most 1/4, rounding of the expectation adds at most half per case.
    ensure!((e - a).abs() <= 8.0 * (0.25 * n).sqrt() + n / 400.0, "{} acceptances of worsening candidates in all, expected {}", a, e);
    Ok(())
}

fn accept_part() -> Part {
    part("accept", "temperature x progress x cost change, 400 decisions each; non-trivial: temperature above zero", 20_000, 400_000, accept_strategy, accept_test).aggregate(accept_aggregate)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CoolCase {
    temp: f64,
    iterations: usize,
    reset_at: usize,
}

fn cooling_test(case: &CoolCase, obs: &mut Obs) -> Check {
    let mut s = IterationSchedule::new(case.temp, case.iterations);
    let n = case.iterations;
    for pass in 0..3 {
        ensure!(s.temp() == case.temp, "pass {} starts at temperature {} instead of {}", pass, s.temp(), case.temp);
        ensure!(n == 0 || !Acceptance::completed(&s), "pass {} of {} iterations is complete before it starts", pass, n);
        let upto = if pass == 0 { case.reset_at.min(n) } else { n };
        let mut last = s.temp();
        for i in 1..=upto {
            Acceptance::update(&mut s);
            let want = reference_temp(case.temp, i as f64 / n as f64);
            ensure!((s.temp() - want).abs() <= 1e-9 * (1.0 + case.temp), "temperature {} after {} of {} iterations, expected {}", s.temp(), i, n, want);
            ensure!(s.temp() <= last + 1e-9 * (1.0 + case.temp), "temperature rises from {} to {} at iteration {}", last, s.temp(), i);
            ensure!(s.temp() >= -1e-9 * (1.0 + case.temp), "temperature {} below zero", s.temp());
            ensure!(Acceptance::completed(&s) == (i >= n), "after {} of {} iterations completed is {}", i, n, Acceptance::completed(&s));
            last = s.temp();
        }
        if upto > 1 {
            obs.nontrivial();
        }
        obs.class_if(pass == 0 && upto < n && upto > 0, "reset half way");
        Acceptance::reset(&mut s);
    }
    Ok(())
}

fn cooling_part() -> Part {
    part(
        "cooling",
        "iteration schedule stepped to the end three times with resets; non-trivial: two or more iterations",
        10_000,
        200_000,
        || (prop_oneof![1 => Just(0.0), 3 => (0u32..100_000).prop_map(|x| x as f64 / 100.0)], 1usize..1500, 0usize..1500).prop_map(|(temp, iterations, reset_at)| CoolCase { temp, iterations, reset_at }).boxed(),
        cooling_test,
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TimedCase {
    temp: f64,
    micros: u64,
    rate: usize,
    steps: usize,
    to_end: bool,
    pause: u64,
}

fn timed_test(case: &TimedCase, obs: &mut Obs) -> Check {
    let total = case.micros as f64 / 1e6;
    let before_new = Instant::now();
    let mut s = TimeSchedule::new(case.temp, Duration::from_micros(case.micros));
    s.set_update_rate(case.rate);
    let mut began = (before_new, Instant::now());
    let lo = |t: f64| reference_temp(case.temp, t);
    let tol = 1e-9 * (1.0 + case.temp);
    for pass in 0..2 {
        ensure!(s.temp() == case.temp, "pass {} starts at temperature {} instead of {}", pass, s.temp(), case.temp);
        ensure!(!Acceptance::completed(&s), "pass {} is complete before it starts", pass);
        ensure!(s.iterations == 0, "pass {} starts with {} iterations", pass, s.iterations);
        // Just after a reset nothing has elapsed.
        let max_elapsed = began.0.elapsed().as_secs_f64() / total;
        let e = s.elapsed();
        let max_after = began.0.elapsed().as_secs_f64() / total;
        ensure!(e <= max_after && e >= 0.0, "pass {} has elapsed {} (at most {})", pass, e, max_elapsed);
        let mut step = 0;
        loop {
            if case.pause > 0 {
                std::thread::sleep(Duration::from_micros(case.pause));
            }
            let was = s.temp();
            let t0 = began.1.elapsed().as_secs_f64() / total;
            Acceptance::update(&mut s);
            let t1 = began.0.elapsed().as_secs_f64() / total;
            step += 1;
            ensure!(s.iterations == step, "{} iterations counted after {}", s.iterations, step);
            if step % case.rate == 0 {
                ensure!(s.temp() <= lo(t0) + tol && s.temp() >= lo(t1) - tol, "temperature {} at elapsed {}..{}, expected {}..{}", s.temp(), t0, t1, lo(t1), lo(t0));
                if t0 > 1.0 {
                    ensure!(Acceptance::completed(&s), "not complete at elapsed {}", t0);
                }
                if t1 < 1.0 {
                    ensure!(!Acceptance::completed(&s), "complete at elapsed {}", t1);
                }
                obs.nontrivial();
            } else {
                ensure!(s.temp() == was, "temperature changed between updates");
                ensure!(!Acceptance::completed(&s), "completed between updates");
            }
            if Acceptance::completed(&s) {
                obs.class("run to the end");
                break;
            }
            if !case.to_end && step >= case.steps {
                obs.class("reset half way");
                break;
            }
        }
        let a = Instant::now();
        Acceptance::reset(&mut s);
        began = (a, Instant::now());
    }
    ensure!(s.temp() == case.temp && !Acceptance::completed(&s), "reset after the end leaves temperature {} and completed {}", s.temp(), Acceptance::completed(&s));
    Ok(())
}

fn timed_part() -> Part {
    part(
        "time-schedule",
        "time-based schedule run twice with a reset between, temperature judged against the clock readings around it; non-trivial: the temperature was updated",
        3_000,
        40_000,
        || {
            (prop_oneof![1 => Just(0.0), 4 => (1u32..1000).prop_map(|x| x as f64)], 200u64..3000, prop_oneof![1 => Just(1usize), 1 => 2usize..9, 1 => Just(100usize)], 0usize..300, any::<bool>(), prop_oneof![2 => Just(0u64), 1 => 1u64..50])
                .prop_map(|(temp, micros, rate, steps, to_end, pause)| TimedCase { temp, micros, rate, steps, to_end, pause })
                .boxed()
        },
        timed_test,
    )
    .shrink(60)
}

/// One iteration per call, with the candidate worked out beforehand on copies.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StepCase {
    rr: RrCase,
    temps: Vec<f64>,
}

fn step_test(case: &StepCase, obs: &mut Obs) -> Check {
    let ctx = context(&case.rr);
    let fleet = fleet(&ctx);
    let inst = &case.rr.inst;
    let pen = case.rr.penalty;
    let routes = start(&case.rr, fleet);
    let mut ind = individual(&ctx, &routes);
    let mut rr = RuinRecreate::new(&ctx);
    // An earlier solution in the search object must not matter.
    let mut other = individual(&ctx, &{
        let mut r: Vec<Vec<usize>> = (1..=inst.customers()).map(|c| vec![c]).collect();
        while r.len() > fleet {
            let c = r.pop().unwrap();
            r[0].extend(c);
        }
        r.resize(fleet, vec![]);
        r
    });
    rr.set_acceptance(IterationSchedule::new(0.0, 1).into());
    if case.rr.seed % 2 == 0 {
        rr.load(&ctx, &mut other);
        rr.search();
        obs.class("reused search object");
    }
    rr.load(&ctx, &mut ind);
    let tol = slack_of(inst) * (10.0 + pen);
    let given = total_cost(inst, pen, &routes);
    let mut least = given;
    let mut saw = (false, false);
    for (k, &temp) in case.temps.iter().enumerate() {
        rr.set_acceptance(IterationSchedule::new(temp, 1).into());
        let before = routes_of(&rr.solution);
        let old = total_cost(inst, pen, &before);
        // The candidate the next iteration will look at.
        let mut copy = rr.current_solution.clone();
        ensure!(routes_of(&copy) == before, "step {}: the search starts from {:?} and not from the accepted {:?}", k, routes_of(&copy), before);
        let position = || {
            ctx.random.reset();
            (0..k * 37).for_each(|_| {
                ctx.random.real();
            });
        };
        position();
        rr.ruin.run(&ctx, &mut copy);
        rr.recreate.run(&ctx, &mut copy);
        let candidate = routes_of(&copy);
        position();
        let new = total_cost(inst, pen, &candidate);
        rr.search();
        let after = routes_of(&rr.solution);
        let now = total_cost(inst, pen, &after);
        ensure!(after == before || after == candidate, "step {}: accepted {:?} is neither the old solution {:?} nor the candidate {:?}", k, after, before, candidate);
        if new < old - tol - 1e-5 {
            ensure!(after == candidate, "step {} at temperature {}: an improvement from {} to {} was not accepted", k, temp, old, new);
            obs.class("improvement accepted");
            saw.0 = true;
        }
        if temp == 0.0 {
            ensure!(now <= old + tol, "step {} at temperature zero: cost rises from {} to {}", k, old, now);
            if new > old + tol + 1e-5 {
                obs.class("worsening rejected at temperature zero");
                saw.1 = true;
            }
        } else if temp >= 1e9 && candidate != before {
            // Accepted unless the uniform number is within about 1e-3 of one.
            obs.count("hot trials", 1);
            obs.count("hot accepted", (after == candidate) as u64);
        } else if new > old + tol && after == candidate {
            obs.class("worsening accepted");
        }
        least = least.min(now);
        let best = rr.best_solution.as_ref().map_or(f64::INFINITY, |b| total_cost(inst, pen, &routes_of(b)));
        ensure!(best <= least + tol + 1e-5, "step {}: the best kept costs {}, a solution accepted before costs {}", k, best, least);
        ensure!((rr.best_cost() - best).abs() <= tol, "step {}: best cost {} of a solution costing {}", k, rr.best_cost(), best);
    }
    rr.get_best_solution(&mut ind);
    ensure!(ind.penalized_cost() <= given + tol, "the search returns {} for a solution of cost {}", ind.penalized_cost(), given);
    ensure!(ind.penalized_cost() <= least + tol + 1e-5, "the search returns {}, it accepted a solution of cost {}", ind.penalized_cost(), least);
    if saw.0 && saw.1 {
        obs.nontrivial();
    }
    Ok(())
}

fn step_aggregate(_n: u64, c: &BTreeMap<String, u64>) -> Check {
    let n = c.get("hot trials").copied().unwrap_or(0);
    let a = c.get("hot accepted").copied().unwrap_or(0);
    ensure!(n < 100 || a as f64 >= 0.97 * n as f64, "at a very high temperature only {} of {} candidates were accepted", a, n);
    Ok(())
}

fn step_part() -> Part {
    part(
        "steps",
        "single iterations of the search at chosen temperatures, the candidate worked out beforehand on copies; non-trivial: an improvement was accepted and a worsening turned down",
        6_000,
        150_000,
        || {
            (rr_strategy(2, 14, 2), proptest::collection::vec(prop_oneof![5 => Just(0.0), 1 => Just(5.0), 1 => Just(1e12)], 1..25))
                .prop_map(|(rr, temps)| StepCase { rr, temps })
                .boxed()
        },
        step_test,
    )
    .aggregate(step_aggregate)
}

fn keeps_best_test(case: &SearchCase, obs: &mut Obs) -> Check {
    let ctx = context(&case.rr);
    let fleet = fleet(&ctx);
    let inst = &case.rr.inst;
    let pen = case.rr.penalty;
    let mut rr = RuinRecreate::new(&ctx);
    rr.set_acceptance(IterationSchedule::new(case.temp, case.iterations).into());
    let tol = slack_of(inst) * (10 + case.iterations) as f64 * (1.0 + pen) + 1e-5;
    for raw in [&case.rr.start, &case.second].iter() {
        let mut routes = raw.routes(inst.customers(), case.rr.slots.min(fleet).max(1));
        routes.resize(fleet, vec![]);
        let mut ind = individual(&ctx, &routes);
        let given = ind.penalized_cost();
        rr.load(&ctx, &mut ind);
        while !rr.complete() {
            rr.search();
        }
        let end = total_cost(inst, pen, &routes_of(&rr.solution));
        rr.get_best_solution(&mut ind);
        ensure!(ind.penalized_cost() <= given + tol, "the search returns {} for a solution of cost {}", ind.penalized_cost(), given);
        ensure!(ind.penalized_cost() <= end + tol, "the search returns {} but ended in a solution of cost {}", ind.penalized_cost(), end);
        if case.temp == 0.0 {
            ensure!(end <= given + tol, "at temperature zero the search went from {} to {}", given, end);
        }
        if ind.penalized_cost() < given - tol {
            obs.nontrivial();
        }
        // Every feasible solution it kept as best has been reported.
        if ind.is_feasible() && ind.penalized_cost() < given - tol {
            let h = ctx.search_history.borrow();
            ensure!(h.best_cost <= ind.penalized_cost() + tol, "best feasible solution {} found by the search is not reported ({})", ind.penalized_cost(), h.best_cost);
            obs.class("improved feasible best");
        }
    }
    Ok(())
}

fn keeps_best_large() -> Part {
    part("keeps-best-large", "as keeps-best with 20 to 200 customers", 60, 1_500, || searches(20, 200), keeps_best_test).cpu(120).shrink(60)
}

fn step_large() -> Part {
    part("steps-large", "as steps with 20 to 200 customers", 60, 1_500, || {
        (rr_strategy(20, 200, 2), proptest::collection::vec(prop_oneof![5 => Just(0.0), 1 => Just(5.0), 1 => Just(1e12)], 1..25)).prop_map(|(rr, temps)| StepCase { rr, temps }).boxed()
    }, step_test)
    .cpu(120)
    .shrink(60)
}

fn keeps_best_part() -> Part {
    part("keeps-best", "two whole searches at constant penalty; non-trivial: the solution given was improved", 3_000, 60_000, || search_strategy(14), keeps_best_test).shrink(400)
}

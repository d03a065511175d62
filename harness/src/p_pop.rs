//! C16: the population after every insertion and removal, against a model of what it should hold.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::p_ga::{drive, ga_strategy, long_strategy, GaCase};
use hybridcvrp::solver::genetic::{Individual, Population, SubPopulation};
use hybridcvrp::solver::Context;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C16", parts: vec![history_part(), history_large(), history_huge(), history_full(), parents_part(), run_part(), run_long()] }]
}

/// Costs this close count as equal for the order.
const TIE: f64 = 2e-6;

// --- Definitions -------------------------------------------------------------------------------

/// Broken pairs distance as the property of C15 defines it.
fn distance(a: &[Vec<usize>], b: &[Vec<usize>], n: usize) -> i64 {
    let links = |routes: &[Vec<usize>]| {
        let mut l = vec![(0usize, 0usize); n + 1];
        for r in routes {
            for (i, &c) in r.iter().enumerate() {
                l[c] = (if i == 0 { 0 } else { r[i - 1] }, if i + 1 == r.len() { 0 } else { r[i + 1] });
            }
        }
        l
    };
    let (a, b) = (links(a), links(b));
    let mut d = 0;
    for c in 1..=n {
        d += (a[c].1 != b[c].1 && a[c].1 != b[c].0) as i64;
        d += (a[c].0 == 0 && b[c].0 != 0 && b[c].1 != 0) as i64;
    }
    d
}

/// The solution that was in the population first is the one asked.
pub fn between(x: &Individual, y: &Individual, n: usize) -> i64 {
    if x.number < y.number {
        distance(&x.phenotype, &y.phenotype, n)
    } else {
        distance(&y.phenotype, &x.phenotype, n)
    }
}

struct Rules {
    n: usize,
    min: usize,
    max: usize,
    elites: usize,
    closest: usize,
}

impl Rules {
    fn new(ctx: &Context) -> Self {
        let c = ctx.config.borrow();
        Rules {
            n: ctx.problem.num_customers(),
            min: c.min_population_size as usize,
            max: (c.min_population_size + c.population_lambda) as usize,
            elites: c.num_elites as usize,
            closest: c.num_diversity_closest as usize,
        }
    }
}

fn check_structure(rules: &Rules, sub: &SubPopulation, feasible: bool) -> Check {
    let p = &sub.population;
    ensure!(p.len() < rules.max.max(rules.min + 1), "{} individuals, allowed are fewer than {}", p.len(), rules.max);
    for (i, ind) in p.iter().enumerate() {
        ensure!(ind.is_feasible() == feasible, "individual {} in the wrong sub-population: {:?}", ind.number, ind.phenotype);
        if i > 0 {
            ensure!(p[i - 1].penalized_cost() <= ind.penalized_cost() + TIE, "not ordered by cost: {} before {}", p[i - 1].penalized_cost(), ind.penalized_cost());
        }
        for other in &p[..i] {
            ensure!(other.number != ind.number, "individual {} is held twice", ind.number);
            ensure!(between(other, ind, rules.n) != 0, "individuals {} and {} are clones: {:?} {:?}", other.number, ind.number, other.phenotype, ind.phenotype);
        }
    }
    Ok(())
}

/// Biased fitness is the cost rank plus the weighted diversity rank. Ties in diversity are free.
fn check_fitness(rules: &Rules, sub: &SubPopulation) -> Check {
    let p = &sub.population;
    if p.is_empty() {
        return Ok(());
    }
    if p.len() == 1 {
        ensure!(p[0].fitness == 0.0, "fitness {} of the only individual", p[0].fitness);
        return Ok(());
    }
    let scale = p.len() as f64 - 1.0;
    if p.len() <= rules.elites {
        for (i, ind) in p.iter().enumerate() {
            ensure!((ind.fitness - i as f64 / scale).abs() < 1e-9, "fitness {} of the elite at rank {} of {}", ind.fitness, i, p.len());
        }
        return Ok(());
    }
    let weight = 1.0 - rules.elites as f64 / p.len() as f64;
    let mut ranked: Vec<(i64, f64, usize)> = Vec::new();
    for (i, ind) in p.iter().enumerate() {
        let mut d: Vec<i64> = p.iter().filter(|o| o.number != ind.number).map(|o| between(ind, o, rules.n)).collect();
        d.sort();
        let k = rules.closest.min(d.len());
        let average = d[..k].iter().sum::<i64>() as f64 / k as f64;
        let rank = (ind.fitness - i as f64 / scale) / weight * scale;
        ensure!((rank - rank.round()).abs() < 1e-6, "fitness {} of individual {} at rank {} of {} is no weighted sum of ranks", ind.fitness, ind.number, i, p.len());
        ranked.push((rank.round() as i64, average, i));
    }
    ranked.sort_by(|a, b| a.0.cmp(&b.0));
    for (i, r) in ranked.iter().enumerate() {
        ensure!(r.0 == i as i64, "diversity ranks are {:?}", ranked.iter().map(|r| r.0).collect::<Vec<_>>());
        ensure!(i == 0 || ranked[i - 1].1 >= r.1 - 1e-9, "individual at cost rank {} with average distance {} ranks behind one with {}", r.2, r.1, ranked[i - 1].1);
    }
    Ok(())
}

// --- Histories of insertions and removals --------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    New(RawRoutes),
    /// The solution inserted as the k-th, again.
    Again(u8),
    /// The same with routes in another order and some reversed.
    Mirror(u8, u16),
    /// The same with two customers exchanged.
    Tweak(u8, u8, u8),
    /// Remove the member at this position.
    Remove(u8),
    /// Remove the worst by cost down to this many.
    Keep(u8),
    /// The penalty changes, as between generations.
    Penalty(f64),
    /// A cut to one less.
    Select,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HistoryCase {
    inst: Inst,
    knobs: Knobs,
    penalty: f64,
    first: RawRoutes,
    ops: Vec<(Op, bool)>,
}

fn ops(max: usize, len: usize) -> BoxedStrategy<Vec<(Op, bool)>> {
    let op = prop_oneof![
        10 => raw_routes(max).prop_map(Op::New),
        2 => any::<u8>().prop_map(Op::Again),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(k, m)| Op::Mirror(k, m)),
        8 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(k, a, b)| Op::Tweak(k, a, b)),
        1 => any::<u8>().prop_map(Op::Remove),
        1 => any::<u8>().prop_map(Op::Keep),
        1 => penalty().prop_map(Op::Penalty),
        1 => Just(Op::Select),
    ];
    vec((op, any::<bool>()), 1..len).boxed()
}

fn history_strategy(min: usize, max: usize, len: usize) -> BoxedStrategy<HistoryCase> {
    (inst(SMALL.customers(min, max).oversize(20)), knobs(), penalty(), raw_routes(max), ops(max, len), 0u32..3)
        .prop_map(|(mut inst, knobs, penalty, first, ops, roomy)| {
            // Random routes are mostly infeasible in a tight instance.
            if roomy > 0 {
                inst.cap = inst.cap.max(inst.total_demand() * if roomy == 1 { 0.5 } else { 1.0 });
            }
            HistoryCase { inst, knobs, penalty, first, ops }
        })
        .boxed()
}

fn summary(sub: &SubPopulation) -> Vec<(u64, f64)> {
    sub.population.iter().map(|i| (i.number, i.penalized_cost())).collect()
}

fn is_sub_multiset(part: &[(u64, f64)], whole: &[(u64, f64)]) -> bool {
    part.iter().all(|p| whole.contains(p))
}

/// One step that removes a member, by the rule: a clone if there is one, else the worst fitness, never the best.
fn check_selected(rules: &Rules, before: &[Individual], sub: &SubPopulation) -> Check {
    let kept: Vec<u64> = sub.population.iter().map(|i| i.number).collect();
    let gone: Vec<usize> = (0..before.len()).filter(|&i| !kept.contains(&before[i].number)).collect();
    ensure!(gone.len() == 1 && kept.len() + 1 == before.len(), "one selection removed {} of {}", gone.len(), before.len());
    ensure!(gone[0] != 0, "the best individual was removed");
    let clone = |i: usize| (0..before.len()).any(|j| j != i && between(&before[i], &before[j], rules.n) == 0);
    let clones = (1..before.len()).any(clone);
    ensure!(!clones || clone(gone[0]), "a clone stays, individual {} goes", before[gone[0]].number);
    for i in 1..before.len() {
        if clone(i) == clone(gone[0]) {
            ensure!(before[i].fitness <= before[gone[0]].fitness + 1e-9, "individual at rank {} with fitness {} stays, one at rank {} with {} goes", i, before[i].fitness, gone[0], before[gone[0]].fitness);
        }
    }
    Ok(())
}

fn history_test(case: &HistoryCase, obs: &mut Obs) -> Check {
    let ctx = case.inst.context(case.knobs.config());
    ctx.config.borrow_mut().penalty_capacity = case.penalty;
    let rules = Rules::new(&ctx);
    let n = case.inst.customers();
    let slots = fleet(&ctx);
    let mut pop = Population::new(&ctx);
    ensure!(pop.size() == 0 && pop.feasible_history.len() == 100, "a new population holds {} individuals and a history of {}", pop.size(), pop.feasible_history.len());
    // The same sub-populations without the cut: cut by single selections, each one checked.
    let lambda = ctx.config.borrow().population_lambda;
    ctx.config.borrow_mut().population_lambda = lambda + 1000;
    let mut slow = [SubPopulation::new(&ctx), SubPopulation::new(&ctx)];
    ctx.config.borrow_mut().population_lambda = lambda;
    let mut pool: Vec<Vec<Vec<usize>>> = vec![case.first.routes(n, slots)];
    let mut history = pop.feasible_history.clone();
    let mut inserted = 0u64;
    let mut cuts = 0;
    let mut rejected = 0;

    for (step, (op, record)) in case.ops.iter().enumerate() {
        let result: Check = (|| {
            let routes = match op {
                Op::New(raw) => Some(raw.routes(n, slots)),
                Op::Again(k) => Some(pool[*k as usize % pool.len()].clone()),
                Op::Mirror(k, mask) => {
                    let mut r = pool[*k as usize % pool.len()].clone();
                    let turn = *mask as usize % r.len();
                    r.rotate_left(turn);
                    for (i, route) in r.iter_mut().enumerate() {
                        if mask >> (i % 16) & 1 == 1 {
                            route.reverse();
                        }
                    }
                    Some(r)
                }
                Op::Tweak(k, a, b) => {
                    let mut r = pool[*k as usize % pool.len()].clone();
                    let (a, b) = (1 + *a as usize % n, 1 + *b as usize % n);
                    for c in r.iter_mut().flatten() {
                        *c = if *c == a { b } else if *c == b { a } else { *c };
                    }
                    Some(r)
                }
                _ => None,
            };
            if let Some(routes) = routes {
                pool.push(routes.clone());
                let new = individual(&ctx, &routes);
                let feasible = new.is_feasible();
                let other = if feasible { summary(&pop.infeasible) } else { summary(&pop.feasible) };
                let sub = if feasible { &pop.feasible } else { &pop.infeasible };
                let before = summary(sub);
                let best = sub.population.first().cloned();
                let forward = sub.population.iter().any(|m| distance(&m.phenotype, &routes, n) == 0);
                let backward = sub.population.iter().any(|m| distance(&routes, &m.phenotype, n) == 0);
                pop.add_individual(&ctx, new.clone(), *record);
                let number = inserted;
                inserted += 1;
                ensure!(pop.total_individuals_count == inserted, "{} insertions counted as {}", inserted, pop.total_individuals_count);
                if *record {
                    history.remove(0);
                    history.push(feasible);
                }
                let untouched = if feasible { summary(&pop.infeasible) } else { summary(&pop.feasible) };
                ensure!(other == untouched, "insertion of a {} individual changed the other sub-population", if feasible { "feasible" } else { "infeasible" });
                let sub = if feasible { &pop.feasible } else { &pop.infeasible };
                let after = summary(sub);
                let mut wanted = before.clone();
                if forward {
                    ensure!(after == before, "a clone changed the sub-population from {:?} to {:?}", before, after);
                    rejected += 1;
                } else if backward && after == before {
                    rejected += 1;
                } else {
                    wanted.push((number, new.penalized_cost()));
                    ensure!(is_sub_multiset(&after, &wanted), "the sub-population holds {:?} after {} joined {:?}", after, number, before);
                    if wanted.len() >= rules.max {
                        ensure!(after.len() == rules.min.min(wanted.len()), "{} members left after the cut, the minimum is {}", after.len(), rules.min);
                        cuts += 1;
                    } else {
                        ensure!(after.len() == wanted.len(), "{} of {} members left without a cut", after.len(), wanted.len());
                    }
                }
                if let Some(best) = best {
                    let first = sub.population.first().map(|i| i.penalized_cost());
                    ensure!(first.map_or(false, |c| c <= best.penalized_cost() + TIE), "the best of cost {} is gone, the best is now {:?}", best.penalized_cost(), first);
                    let lost = !sub.population.iter().any(|i| i.number == best.number);
                    ensure!(!lost || new.penalized_cost() < best.penalized_cost() + TIE, "the best individual {} was removed", best.number);
                }
                // The slow twin of this sub-population.
                let twin = &mut slow[feasible as usize];
                let mut copy = new.clone();
                copy.number = number;
                twin.add_individual(&ctx, copy);
                if twin.population.len() >= rules.max {
                    while twin.population.len() > rules.min {
                        check_fitness(&rules, twin)?;
                        let before = twin.population.clone();
                        twin.natural_selection(&ctx);
                        check_selected(&rules, &before, twin)?;
                    }
                }
                ensure!(summary(twin) == after, "single selections leave {:?}, the cut left {:?}", summary(twin), after);
            } else {
                for feasible in [false, true] {
                    let sub = if feasible { &mut pop.feasible } else { &mut pop.infeasible };
                    for sub in [sub, &mut slow[feasible as usize]] {
                        match op {
                            Op::Remove(k) if !sub.population.is_empty() => {
                                let index = *k as usize % sub.population.len();
                                let mut wanted = summary(sub);
                                wanted.remove(index);
                                sub.remove_individual(&ctx, index);
                                ensure!(summary(sub) == wanted, "removing {} left {:?} instead of {:?}", index, summary(sub), wanted);
                            }
                            Op::Keep(k) if !sub.population.is_empty() => {
                                let keep = 1 + *k as usize % sub.population.len();
                                let mut wanted = summary(sub);
                                wanted.truncate(keep);
                                sub.clear_worst(&ctx, keep);
                                ensure!(summary(sub) == wanted, "keeping {} left {:?} instead of {:?}", keep, summary(sub), wanted);
                            }
                            Op::Select if sub.population.len() > 1 => {
                                let before = sub.population.clone();
                                sub.natural_selection(&ctx);
                                check_selected(&rules, &before, sub)?;
                            }
                            _ => {}
                        }
                    }
                }
                if let Op::Penalty(p) = op {
                    ctx.config.borrow_mut().penalty_capacity = *p;
                    for sub in [&mut pop.infeasible, &mut slow[0]] {
                        for ind in sub.population.iter_mut() {
                            ind.evaluate(&ctx);
                        }
                        sub.population.sort_by(|a, b| a.penalized_cost().partial_cmp(&b.penalized_cost()).unwrap());
                        // Ranks follow at the next insertion or removal.
                        if !sub.population.is_empty() {
                            let last = sub.population.len() - 1;
                            sub.remove_individual(&ctx, last);
                        }
                    }
                }
            }
            for (sub, feasible) in [(&pop.feasible, true), (&pop.infeasible, false)] {
                check_structure(&rules, sub, feasible)?;
                check_fitness(&rules, sub)?;
                ensure!(sub.size() == sub.population.len(), "size {} of {}", sub.size(), sub.population.len());
                let best = sub.get_best().map(|b| b.number);
                ensure!(best == sub.population.first().map(|b| b.number), "best is {:?}", best);
            }
            ensure!(pop.size() == pop.feasible.size() + pop.infeasible.size(), "size {}", pop.size());
            ensure!(pop.feasible_history == history, "the feasibility history is {:?}", pop.feasible_history);
            let share = history.iter().filter(|b| **b).count() as f64 / 100.0;
            ensure!((pop.history_fraction() - share).abs() < 1e-12, "feasible share {} instead of {}", pop.history_fraction(), share);
            Ok(())
        })();
        result.map_err(|e| format!("step {} ({:?}): {}", step, op, e))?;
    }
    if pop.size() >= 2 && inserted >= 3 {
        obs.nontrivial();
    }
    obs.class_if(cuts > 0, "sub-population cut");
    obs.class_if(rejected > 0, "clone rejected");
    obs.class_if(pop.feasible.size() > 1 && pop.infeasible.size() > 1, "both sub-populations in use");
    obs.class_if(pop.feasible.size().max(pop.infeasible.size()) > rules.elites, "more members than elites");
    obs.class_if(pop.feasible.size().max(pop.infeasible.size()) > rules.closest + 1, "more members than the closest counted");
    obs.count("insertions", inserted);
    obs.count("cuts", cuts);
    obs.count("clones rejected", rejected);
    Ok(())
}

fn history_part() -> Part {
    part("history", "three or more insertions leave two or more members", 1500, 40_000, || history_strategy(3, 9, 40), history_test)
}

fn history_large() -> Part {
    part("history-large", "three or more insertions leave two or more members", 200, 4000, || history_strategy(10, 30, 150), history_test)
}

// --- Parents -----------------------------------------------------------------------------------

fn history_huge() -> Part {
    part("history-huge", "three or more insertions leave two or more members", 5, 120, || history_strategy(120, 300, 40), history_test).cpu(150).shrink(40)
}

/// Sub-populations of the usual sizes, filled up to the cut.
fn history_full() -> Part {
    part(
        "history-full",
        "three or more insertions leave two or more members",
        12,
        400,
        || {
            (history_strategy(8, 20, 60), 10u64..90, 10u64..60, 0u64..40, vec((raw_routes(20), any::<u8>(), any::<u8>(), any::<u8>(), 0u8..5), 70..260))
                .prop_map(|(mut case, min_pop, lambda, elites, more)| {
                    (case.knobs.min_pop, case.knobs.lambda, case.knobs.elites) = (min_pop, lambda, elites);
                    case.ops.retain(|(op, _)| !matches!(op, Op::Keep(_) | Op::Remove(_)));
                    case.ops.truncate(20);
                    for (k, (raw, a, b, c, kind)) in more.into_iter().enumerate() {
                        case.ops.push((if kind < 3 { Op::New(raw) } else { Op::Tweak(a, b, c) }, k % 2 == 0));
                    }
                    case
                })
                .boxed()
        },
        history_test,
    )
    .cpu(200)
    .shrink(60)
}

fn parents_test(case: &HistoryCase, obs: &mut Obs) -> Check {
    let ctx = case.inst.context(case.knobs.config());
    ctx.config.borrow_mut().penalty_capacity = case.penalty;
    let n = case.inst.customers();
    let slots = fleet(&ctx);
    let mut pop = Population::new(&ctx);
    pop.add_individual(&ctx, individual(&ctx, &case.first.routes(n, slots)), true);
    for (op, record) in &case.ops {
        if let Op::New(raw) = op {
            pop.add_individual(&ctx, individual(&ctx, &raw.routes(n, slots)), *record);
        }
    }
    // Members by kind and number; the fitness each competes with.
    let key = |i: &Individual| (i.is_feasible(), i.number);
    let members: BTreeMap<(bool, u64), f64> =
        pop.feasible.population.iter().chain(pop.infeasible.population.iter()).map(|i| (key(i), i.fitness)).collect();
    let mut wins: BTreeMap<(bool, u64), u64> = BTreeMap::new();
    const DRAWS: u64 = 3000;
    for _ in 0..DRAWS {
        let parent = pop.get_parent(&ctx);
        ensure!(members.contains_key(&key(parent)), "parent {:?} is no member", key(parent));
        *wins.entry(key(parent)).or_insert(0) += 1;
    }
    // The winner of k uniform draws is no better than fitness f with the chance that all k are worse.
    let k = ctx.config.borrow().tournament_size as i32;
    let size = members.len() as f64;
    let mut levels: Vec<f64> = members.values().copied().collect();
    levels.sort_by(|a, b| a.partial_cmp(b).unwrap());
    levels.dedup();
    for level in &levels {
        let worse = members.values().filter(|f| *f > level).count() as f64 / size;
        let expected = worse.powi(k);
        let seen = wins.iter().filter(|(i, _)| members[i] > *level).map(|(_, w)| *w).sum::<u64>() as f64;
        let mean = expected * DRAWS as f64;
        let slack = 6.5 * (mean * (1.0 - expected)).sqrt() + 8.0;
        ensure!((seen - mean).abs() <= slack, "winners worse than fitness {}: {} of {}, expected {:.1} for a tournament of {} among {:?}", level, seen, DRAWS, mean, k, members);
        // Among equals every one is as likely.
        let equals: Vec<_> = members.iter().filter(|(_, f)| *f == level).map(|(i, _)| *i).collect();
        let at_least = members.values().filter(|f| *f >= level).count() as f64 / size;
        let each = (at_least.powi(k) - expected) / equals.len() as f64;
        for i in &equals {
            let got = wins.get(i).copied().unwrap_or(0) as f64;
            let mean = each * DRAWS as f64;
            let slack = 6.5 * (mean * (1.0 - each)).sqrt() + 8.0;
            ensure!((got - mean).abs() <= slack, "individual {:?} of fitness {} won {} of {}, expected {:.1} (tournament of {}, {} members)", i, level, got, DRAWS, mean, k, members.len());
        }
    }
    if levels.len() >= 2 && k >= 2 {
        obs.nontrivial();
    }
    obs.class_if(pop.feasible.size() > 0 && pop.infeasible.size() > 0, "both sub-populations compete");
    obs.class(&format!("tournament of {}", k));
    Ok(())
}

fn parents_part() -> Part {
    part("parents", "two or more members of different fitness in a tournament of two or more", 300, 5000, || history_strategy(3, 9, 25), parents_test)
}

// --- Whole runs --------------------------------------------------------------------------------

fn run_test(case: &GaCase, obs: &mut Obs) -> Check {
    let mut rules: Option<Rules> = None;
    let mut stale = false;
    let mut last_best: Option<f64> = None;
    let mut restarted = false;
    let (_, ga) = drive(case, |ctx, ga, step| {
        let rules = rules.get_or_insert_with(|| Rules::new(ctx));
        let pop = &ga.population;
        check_structure(rules, &pop.feasible, true)?;
        check_fitness(rules, &pop.feasible)?;
        // After a change of the penalty the ranks of the infeasible wait for the next insertion.
        // So do those of nearly equal cost, which an update may put in another order.
        let tied = pop.infeasible.population.windows(2).any(|w| (w[0].penalized_cost() - w[1].penalized_cost()).abs() <= TIE);
        stale |= step.penalty_before != step.penalty_after || step.generation && tied;
        check_structure(rules, &pop.infeasible, false)?;
        if !stale {
            check_fitness(rules, &pop.infeasible)?;
        }
        if step.restarted {
            last_best = None;
            restarted = true;
        }
        let best = pop.feasible.get_best().map(|b| b.penalized_cost());
        if let Some(before) = last_best {
            ensure!(best.map_or(false, |b| b <= before + TIE), "the best feasible cost went from {} to {:?}", before, best);
        }
        last_best = best;
        ensure!(pop.feasible_history.len() == 100, "history of {}", pop.feasible_history.len());
        Ok(())
    })?;
    if ga.population.size() >= 3 {
        obs.nontrivial();
    }
    obs.class_if(stale, "penalty changed");
    obs.class_if(restarted, "population restarted");
    obs.class_if(ga.population.feasible.size() > 0 && ga.population.infeasible.size() > 0, "both sub-populations in use");
    Ok(())
}

fn run_part() -> Part {
    part("run", "three or more individuals in the population at the end", 150, 4000, || ga_strategy(3, 12), run_test)
}

fn run_long() -> Part {
    part("run-long", "three or more individuals in the population at the end", 6, 150, || long_strategy(3, 10), run_test).cpu(150).shrink(40)
}

//! C29: elite education, mutation by ruin and recreate, and repair take place as configured.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::p_ga::{context, ga_strategy, long_strategy, GaCase};
use hybridcvrp::solver::genetic::GeneticAlgorithm;
use hybridcvrp::solver::improvement::{Acceptance, AcceptanceCriterion, AdjacentStringRemoval, Ruin, RuinRecreateSolution, TemperatureAcceptance};
use hybridcvrp::solver::{Context, Metaheuristic};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C29", parts: vec![schedule_part(), schedule_large(), schedule_long(), schedule_huge(), timed_part()] }]
}

/// The solver's own ruin, counted.
struct Counting {
    inner: AdjacentStringRemoval,
    rounds: Rc<Cell<u64>>,
    /// Total overload of what the latest round started from.
    overload: Rc<Cell<f64>>,
}

fn overload_of(ctx: &Context, solution: &RuinRecreateSolution) -> f64 {
    let load = |nodes: &[usize]| nodes.iter().map(|&c| ctx.problem.nodes[c].demand).sum::<f64>();
    solution.routes.iter().map(|r| (load(&r.nodes) - ctx.problem.vehicle.cap).max(0.0)).sum()
}

impl Ruin for Counting {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        self.rounds.set(self.rounds.get() + 1);
        self.overload.set(overload_of(ctx, solution));
        self.inner.run(ctx, solution)
    }
}

fn counted(ctx: &Context) -> (Box<GeneticAlgorithm>, Rc<Cell<u64>>, Rc<Cell<f64>>) {
    let mut ga = Box::new(GeneticAlgorithm::new(ctx));
    let rounds = Rc::new(Cell::new(0));
    let overload = Rc::new(Cell::new(0.0));
    ga.rr.ruin = Box::new(Counting { inner: AdjacentStringRemoval::new(ctx), rounds: rounds.clone(), overload: overload.clone() });
    (ga, rounds, overload)
}

fn temperature(ga: &GeneticAlgorithm) -> f64 {
    match &ga.rr.acceptance {
        AcceptanceCriterion::Iteration(s) => s.temp(),
        AcceptanceCriterion::Time(s) => s.temp(),
    }
}

fn strategy(min: usize, max: usize) -> BoxedStrategy<GaCase> {
    (ga_strategy(min, max), 0u64..40, prop_oneof![2 => Just(1000u64), 3 => 1u64..6], any::<u8>(), 0u32..200)
        .prop_map(|(mut case, max_iter, restart, more, gamma)| {
            let k = &mut case.knobs;
            k.init = k.init.min(6);
            if case.inst.customers() <= 15 {
                k.max_iter = max_iter;
            }
            k.restart = restart;
            if more % 3 == 0 {
                k.elite = true;
                // Thousands of rounds, over which the penalty changes.
                if case.inst.customers() <= 15 && more % 2 == 0 {
                    k.elite_gamma = gamma as f64 * 1.7;
                }
            }
            if more % 4 == 1 {
                k.rr = true;
                k.rr_prob = 0.5;
            }
            case
        })
        .boxed()
}

fn schedule_test(case: &GaCase, obs: &mut Obs) -> Check {
    let k = &case.knobs;
    let n = case.inst.customers();
    let estimate = case.inst.context(k.config()).config.borrow().penalty_capacity;
    let ctx = context(case);
    let (mut ga, rounds, overload) = counted(&ctx);
    let elite = k.elite && n > k.elite_limit;
    let elite_rounds = (k.elite_gamma * n as f64).round() as u64;
    let mutation_rounds = (k.rr_gamma * n as f64).round() as u64;
    let one_education = |done: u64, what: &str| -> Check {
        if !k.rr || k.rr_prob == 0.0 {
            ensure!(done == 0, "{}: {} rounds of ruin and recreate, which is off", what, done);
        } else if k.rr_prob == 1.0 {
            ensure!(done == mutation_rounds, "{}: {} rounds of ruin and recreate instead of {}", what, done, mutation_rounds);
        } else {
            ensure!(done == 0 || done == mutation_rounds, "{}: {} rounds of ruin and recreate instead of none or {}", what, done, mutation_rounds);
        }
        Ok(())
    };
    // Since the last (re)start.
    let mut steps = 0u64;
    let mut elite_done = 0u64;
    let mut starts = 0u64;
    let mut total = 0usize;
    while !ga.terminated() {
        total += 1;
        ensure!(total < 20_000, "still running after {} steps", total);
        let before = rounds.get();
        let (generations, initialized, members) = (ga.iterations, ga.num_initialized, ga.population.total_individuals_count);
        let penalty_before = ctx.config.borrow().penalty_capacity;
        ga.iterate(&ctx);
        if ga.terminated() {
            break;
        }
        let done = rounds.get() - before;
        let penalty = ctx.config.borrow().penalty_capacity;
        let education = ga.iterations > generations || ga.num_initialized > initialized;
        if steps == 0 {
            if elite {
                one_education(done, "before elite education")?;
                ensure!(temperature(&ga) == k.elite_start, "elite education starts at temperature {} instead of {}", temperature(&ga), k.elite_start);
            } else {
                ensure!(done == 0, "{} rounds of ruin and recreate in the first step", done);
            }
        } else if ga.num_initialized == 0 && ga.iterations == generations {
            elite_done += done;
            // A step of elite education is a thousand rounds, the last one with an update of the penalty.
            if done > 0 {
                let close = |x: f64| (penalty - x).abs() <= 1e-9 * x;
                if done == 1000 {
                    ensure!(close(penalty_before * k.pen_inc) || close(penalty_before * k.pen_dec), "penalty {} before and {} after a thousand rounds of elite education", penalty_before, penalty);
                    // Down where the search stands at a feasible solution, up where it does not: at the
                    // start of the thousandth round, or at its end.
                    let stands = [overload.get(), overload_of(&ctx, &ga.rr.solution)];
                    let down = stands.iter().any(|&o| o < 1e-4);
                    let up = stands.iter().any(|&o| o > 1e-7);
                    ensure!(
                        down && close(penalty_before * k.pen_dec) || up && close(penalty_before * k.pen_inc),
                        "penalty {} before and {} after a thousand rounds of elite education, which stands at an overload of {:?}",
                        penalty_before,
                        penalty,
                        stands
                    );
                    obs.class_if(down && !up, "penalty lowered in elite education");
                    obs.class_if(up && !down, "penalty raised in elite education");
                    obs.class("penalty updated in elite education");
                } else {
                    ensure!(done < 1000 && penalty == penalty_before, "penalty {} before and {} after {} rounds of elite education", penalty_before, penalty, done);
                }
            }
            ensure!(elite, "{} rounds of ruin and recreate before the first individual", done);
            ensure!(elite_done <= elite_rounds, "{} rounds of elite education instead of {}", elite_done, elite_rounds);
        }
        if initialized == 0 && ga.num_initialized == 1 {
            starts += 1;
            if elite {
                ensure!(elite_done == elite_rounds, "{} rounds of elite education instead of {}", elite_done, elite_rounds);
                // Restarts included; nothing changes the penalty while individuals are built.
                ensure!(penalty == estimate, "penalty {} after elite education, estimated {}", penalty, estimate);
                ensure!(members >= 1, "the population has nothing from elite education");
            }
        }
        if education {
            one_education(done, "education")?;
            if k.ls {
                // The local search was last run with the penalty of the moment, or on a repair.
                let with = ga.ls.penalty_capacity;
                let is = |x: f64| (with - x).abs() <= 1e-9 * x;
                let tried = is(10.0 * penalty_before);
                ensure!(tried || is(penalty_before), "local search with penalty {} where the penalty is {}", with, penalty_before);
                ensure!(k.repair > 0.0 || !tried, "repair is off and took place");
                if ga.iterations > generations {
                    let infeasible = !ga.child.is_feasible();
                    // A mutated child may have been judged under another penalty, but feasibility has none.
                    ensure!(infeasible || !tried, "a feasible child was repaired");
                    ensure!(!infeasible || k.repair < 1.0 || tried, "an infeasible child was not repaired");
                    if infeasible {
                        obs.count(&format!("infeasible at {}", k.repair), 1);
                        obs.count(&format!("repair tried at {}", k.repair), tried as u64);
                    }
                }
            }
            if k.rr && k.rr_prob == 0.5 && mutation_rounds > 0 {
                obs.count("educations with an even chance of ruin and recreate", 1);
                obs.count("of which with it", (done > 0) as u64);
            }
            if ga.population.total_individuals_count > 0 {
                let added = ga.population.total_individuals_count - members;
                ensure!(added == 1 || added == 2, "{} individuals were added at once", added);
                ensure!(k.repair > 0.0 && k.ls || added == 1, "a repaired individual, but repair is off");
                if !ga.child.is_feasible() && k.ls && ga.iterations > generations {
                    obs.count(&format!("infeasible children at {}", k.repair), 1);
                    obs.count(&format!("repaired children at {}", k.repair), added - 1);
                }
            }
        }
        if k.rr && ga.num_initialized > 0 {
            // Every mutation begins with the schedule set back.
            ga.rr.acceptance.reset();
            ensure!(temperature(&ga) == k.rr_start, "mutation starts at temperature {} instead of {}", temperature(&ga), k.rr_start);
            obs.class_if(elite, "start of mutation after elite education");
        }
        steps += 1;
        if ga.iterations > generations && ga.population.total_individuals_count == 0 {
            steps = 0;
            elite_done = 0;
        }
    }
    if starts > 0 && (elite || (k.rr && k.rr_prob > 0.0)) {
        obs.nontrivial();
    }
    obs.class_if(elite && starts > 0, "elite education");
    obs.class_if(elite && starts > 1, "elite education again after a restart");
    obs.class_if(elite && elite_rounds >= 1000, "elite education of a thousand rounds");
    obs.class_if(k.elite && !elite, "too small for elite education");
    Ok(())
}

fn schedule_aggregate(_n: u64, c: &BTreeMap<String, u64>) -> Check {
    let get = |name: &str| c.get(name).copied().unwrap_or(0) as f64;
    let (all, with) = (get("educations with an even chance of ruin and recreate"), get("of which with it"));
    // Seven standard deviations.
    ensure!((with - all / 2.0).abs() <= 3.5 * all.sqrt() + 1.0, "{} of {} educations with ruin and recreate at a probability of a half", with, all);
    for p in [0.25f64, 0.5, 0.75] {
        let (all, tried) = (get(&format!("infeasible at {}", p)), get(&format!("repair tried at {}", p)));
        ensure!((tried - p * all).abs() <= 7.0 * (all * p * (1.0 - p)).sqrt() + 1.0, "{} of {} infeasible children repaired at probability {}", tried, all, p);
    }
    // Repairs succeed as often whatever their probability.
    let always = get("repaired children at 1") / get("infeasible children at 1");
    for p in [0.25, 0.5, 0.75] {
        let (all, repaired) = (get(&format!("infeasible children at {}", p)), get(&format!("repaired children at {}", p)));
        if all * always > 3000.0 {
            let share = repaired / all / always;
            ensure!(share > p * 0.7 && share < p * 1.3 + 0.02, "repair at probability {}: {} of what it is at 1 ({} of {} children)", p, share, repaired, all);
        }
    }
    Ok(())
}

fn schedule_part() -> Part {
    part("schedule", "elite education or ruin and recreate is on, and a first individual was built", 5_000, 120_000, || strategy(1, 12), schedule_test).shrink(300).aggregate(schedule_aggregate)
}
fn schedule_long() -> Part {
    part("schedule-long", "as schedule over 100 to 700 generations", 60, 1_500, || long_strategy(2, 9), schedule_test).cpu(200).shrink(40)
}
fn schedule_huge() -> Part {
    part("schedule-huge", "as schedule with 100 to 300 customers", 30, 600, || strategy(100, 300), schedule_test).cpu(200).shrink(40)
}
fn schedule_large() -> Part {
    part("schedule-large", "elite education or ruin and recreate is on, and a first individual was built", 300, 6_000, || strategy(15, 60), schedule_test).cpu(200).shrink(60)
}

// --- Elite education by time -------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TimedCase {
    run: GaCase,
    limit: u64,
    millis: u64,
}

fn timed_test(case: &TimedCase, obs: &mut Obs) -> Check {
    let n = case.run.inst.customers();
    let mut config = case.run.knobs.config();
    config.elite_education = true;
    config.elite_education_problem_size_limit = n - 1;
    config.elite_education_time_based = true;
    let config_start = config.elite_education_start_temp;
    config.time_limit = case.limit;
    config.elite_education_time_fraction = case.millis as f64 / 1000.0 / case.limit as f64;
    let ctx = case.run.inst.context(config);
    let (mut ga, rounds, _) = counted(&ctx);
    // The schedule begins within the first step. A clock that starts before it runs at least as
    // long, however the machine is loaded.
    let start = Instant::now();
    ga.iterate(&ctx);
    let first = rounds.get();
    let share = Duration::from_millis(case.millis);
    // It may have cooled already as far as the time allows.
    let begun = temperature(&ga);
    let t = (start.elapsed().as_secs_f64() / share.as_secs_f64().max(1e-9)).min(1.0);
    let least = ((-2.0 * t).exp() - t * (-2f64).exp()) * config_start;
    ensure!(begun <= config_start && begun >= least - 1e-9, "elite education starts at temperature {} instead of {}", begun, config_start);
    while ga.num_initialized == 0 && !ga.terminated() {
        ensure!(start.elapsed() < share + Duration::from_secs(30), "elite education goes on after {:?}, its share is {:?}", start.elapsed(), share);
        ga.iterate(&ctx);
    }
    if ga.num_initialized == 1 {
        let took = start.elapsed();
        ensure!(took >= share, "elite education took {:?} and not {:?}", took, share);
        ensure!(rounds.get() > first, "no round of elite education in {:?}", took);
        obs.nontrivial();
    }
    Ok(())
}

fn timed_part() -> Part {
    part(
        "timed",
        "elite education ran to its end",
        60,
        1_500,
        || {
            (ga_strategy(1, 12), 2u64..10_000, 0u64..60)
                .prop_map(|(mut run, limit, millis)| {
                    run.knobs.max_iter = 5;
                    TimedCase { run, limit, millis }
                })
                .boxed()
        },
        timed_test,
    )
    .shrink(40)
    .cpu(100)
}

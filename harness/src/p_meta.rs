//! C27, C28: what a run must not depend on. Pairs of deterministic runs, compared step by step.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::p_det::{mix, mix_individual, mix_reports};
use crate::p_ga::{ga_strategy, long_strategy, GaCase};
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::GeneticAlgorithm;
use hybridcvrp::solver::{Context, Metaheuristic};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C27", parts: vec![idle_part(), idle_large(), idle_huge(), idle_long()] },
        Prop { id: "C28", parts: vec![frame_part(), frame_large(), frame_huge(), frame_long()] },
    ]
}

const STEPS: usize = 1000;

/// A number per step for the solutions the search holds, and the penalty of the moment.
fn course(ctx: &Context) -> (Vec<u64>, Vec<f64>) {
    let mut ga = Box::new(GeneticAlgorithm::new(ctx));
    let mut out = Vec::new();
    let mut penalties = Vec::new();
    while !ga.terminated() && out.len() < STEPS {
        ga.iterate(ctx);
        let mut h = ga.iterations;
        mix_individual(&mut h, &ga.child);
        for i in ga.population.feasible.population.iter().chain(&ga.population.infeasible.population) {
            mix_individual(&mut h, i);
        }
        mix_reports(&mut h, ctx);
        out.push(h);
        penalties.push(ctx.config.borrow().penalty_capacity);
    }
    (out, penalties)
}

fn set_penalty(ctx: &Context, penalty: Option<f64>) {
    if let Some(p) = penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
}

/// Neither run steps on the bounds of the penalty, where its unit shows.
fn free(p: f64) -> bool {
    p > 1e-3 && p < 1e6
}

fn compare(what: &str, a: &[u64], b: &[u64]) -> Check {
    let same = a.len().min(b.len());
    if let Some(step) = (0..same).find(|&i| a[i] != b[i]) {
        return Err(format!("{}: the runs part at step {} of {} and {}", what, step, a.len(), b.len()));
    }
    ensure!(a.len() == b.len(), "{}: one run has {} steps, the other {}", what, a.len(), b.len());
    Ok(())
}

// --- C27: settings without a part to act on ----------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IdleCase {
    run: GaCase,
    other: Knobs,
    kind: u8,
    outward: u64,
}

const IDLE: [&str; 7] = [
    "ruin and recreate off",
    "elite education off",
    "local search off",
    "linear split, no capacity factor",
    "outward settings",
    "capacity that never binds, no penalty",
    "another limit of generations",
];

fn idle_strategy(min: usize, max: usize) -> BoxedStrategy<IdleCase> {
    idle_of(ga_strategy(min, max))
}

fn idle_of(run: BoxedStrategy<GaCase>) -> BoxedStrategy<IdleCase> {
    (run, knobs(), any::<u8>(), any::<u64>(), any::<bool>())
        .prop_map(|(mut run, other, kind, outward, coin)| {
            let k = &mut run.knobs;
            match kind as usize % IDLE.len() {
                0 => {
                    k.elite = false;
                    if coin {
                        k.rr = false;
                    } else {
                        k.rr_prob = 0.0;
                    }
                }
                1 => {
                    if coin {
                        k.elite = false;
                    } else {
                        k.elite_limit = run.inst.customers() + (outward % 3) as usize;
                    }
                }
                2 => k.ls = false,
                3 => k.linear = true,
                5 => {
                    k.linear = false;
                    run.inst.cap = run.inst.total_demand().max(1.0) * [1.0, 1.5, 2.0][(outward % 3) as usize];
                }
                _ => {}
            }
            IdleCase { run, other, kind, outward }
        })
        .boxed()
}

/// The same configuration but for what cannot act.
fn change(case: &IdleCase, c: &mut Config) {
    let o = case.other.config();
    match case.kind as usize % IDLE.len() {
        0 => {
            c.average_ruin_cardinality = o.average_ruin_cardinality;
            c.max_ruin_string_length = o.max_ruin_string_length;
            c.rr_gamma = o.rr_gamma;
            c.rr_start_temp = o.rr_start_temp;
            c.rr_final_temp = 1.0 + (case.outward % 7) as f64;
        }
        1 => {
            c.elite_education_gamma = o.elite_education_gamma;
            c.elite_education_start_temp = o.elite_education_start_temp;
            c.elite_education_final_temp = (case.outward % 5) as f64;
            c.elite_education_time_based = case.outward % 2 == 0;
            c.elite_education_time_fraction = (case.outward % 11) as f64 / 10.0;
            if c.elite_education {
                c.elite_education_problem_size_limit += (case.outward % 100) as usize;
            } else {
                c.elite_education_problem_size_limit = o.elite_education_problem_size_limit;
            }
        }
        2 => {
            set_moves(c, case.other.moves);
            c.local_search_granularity = o.local_search_granularity;
        }
        3 => c.split_capacity_factor = o.split_capacity_factor,
        4 => {
            c.log_interval = 1 + case.outward % 50;
            c.bks = case.outward as f64 % 1000.0;
            c.solution_path = None;
            c.instance_path = "elsewhere".into();
            c.decompose_limit = case.outward % 20;
            c.decomposed_problem_min_size = o.decomposed_problem_min_size;
            c.time_limit += case.outward % 1_000_000;
        }
        5 => {
            c.penalty_update_interval = o.penalty_update_interval;
            c.penalty_inc_multiplier = o.penalty_inc_multiplier;
            c.penalty_dec_multiplier = o.penalty_dec_multiplier;
            c.repair_probability = o.repair_probability;
            c.feasibility_proportion_target = o.feasibility_proportion_target;
        }
        _ => c.max_iterations = Some(case.run.knobs.max_iter + 1 + case.outward % 9),
    }
}

fn idle_test(case: &IdleCase, obs: &mut Obs) -> Check {
    let what = IDLE[case.kind as usize % IDLE.len()];
    let ctx = case.run.inst.context(case.run.knobs.config());
    set_penalty(&ctx, case.run.penalty);
    let (a, _) = course(&ctx);
    let mut config = case.run.knobs.config();
    change(case, &mut config);
    let ctx = case.run.inst.context(config);
    set_penalty(&ctx, case.run.penalty.map(|p| if what.starts_with("capacity") { p * 8.0 } else { p }));
    let (b, _) = course(&ctx);
    if what == "another limit of generations" {
        // The last step of a run is the one that finds it ended.
        let end = if a.len() < STEPS { a.len() - 1 } else { a.len() };
        ensure!(b.len() >= end, "{}: the longer run has {} steps, the shorter one {}", what, b.len(), a.len());
        compare(what, &a[..end], &b[..end])?;
    } else {
        compare(what, &a, &b)?;
    }
    if a.len() > 4 {
        obs.nontrivial();
    }
    obs.class(what);
    obs.count("steps compared", a.len() as u64);
    Ok(())
}

fn idle_part() -> Part {
    part("idle", "more than four steps", 4000, 100_000, || idle_strategy(1, 10), idle_test).shrink(300)
}
fn idle_huge() -> Part {
    part("idle-huge", "more than four steps", 30, 600, || idle_strategy(100, 260), idle_test).cpu(200).shrink(30)
}
fn idle_long() -> Part {
    part("idle-long", "more than four steps", 60, 1_500, || idle_of(long_strategy(2, 9)), idle_test).cpu(200).shrink(40)
}
fn idle_large() -> Part {
    part("idle-large", "more than four steps", 250, 6_000, || idle_strategy(15, 60), idle_test).cpu(200).shrink(60)
}

// --- C28: form and unit of the data ------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FrameCase {
    run: GaCase,
    kind: u8,
    unit: i8,
}

const FRAME: [&str; 3] = ["demands in another unit", "explicit distances", "distances computed on demand"];

fn frame_strategy(min: usize, max: usize) -> BoxedStrategy<FrameCase> {
    frame_of(ga_strategy(min, max), min, max)
}

fn frame_of(run: BoxedStrategy<GaCase>, min: usize, max: usize) -> BoxedStrategy<FrameCase> {
    (run, any::<u8>(), -3i8..8, inst(SMALL.customers(min, max).integer().oversize(10)), penalty())
        .prop_map(|(mut run, kind, unit, inst, p)| {
            run.inst = inst;
            // All numbers exact, so that the two runs see the very same ones.
            run.inst.rounded = true;
            match kind as usize % FRAME.len() {
                0 => run.inst.precompute = true,
                1 => {
                    run.inst.matrix = None;
                    run.inst.precompute = true;
                }
                2 => {
                    run.inst.matrix = None;
                    run.inst.precompute = true;
                    run.knobs.elite = false;
                    // On demand there is no largest distance to estimate the penalty from.
                    run.penalty = Some(p.max(1e-4));
                }
                _ => {}
            }
            FrameCase { run, kind, unit }
        })
        .boxed()
}

fn frame_test(case: &FrameCase, obs: &mut Obs) -> Check {
    let what = FRAME[case.kind as usize % FRAME.len()];
    let mut other = case.run.inst.clone();
    let mut penalty = case.run.penalty;
    let unit = 2f64.powi(case.unit as i32);
    match case.kind as usize % FRAME.len() {
        0 => {
            for node in other.nodes.iter_mut() {
                node.2 *= unit;
            }
            other.cap *= unit;
            penalty = penalty.map(|p| p / unit);
        }
        1 => {
            let n = other.dim();
            other.matrix = Some((1..n).map(|i| (0..i).map(|j| case.run.inst.dist(i, j)).collect()).collect());
        }
        _ => other.precompute = false,
    }
    let ctx = case.run.inst.context(case.run.knobs.config());
    set_penalty(&ctx, case.run.penalty);
    let first = ctx.config.borrow().penalty_capacity;
    let (mut a, pa) = course(&ctx);
    let ctx = other.context(case.run.knobs.config());
    set_penalty(&ctx, penalty);
    let second = ctx.config.borrow().penalty_capacity;
    let (mut b, pb) = course(&ctx);
    if what == "demands in another unit" {
        // Up to where a bound of the penalty is met.
        let mut end = pa.iter().zip(&pb).position(|(&p, &q)| !free(p) || !free(q)).unwrap_or(a.len().max(b.len()));
        // Nor is the estimate of the penalty, which elite education goes back to.
        let longest = (0..other.dim()).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| other.dist(i, j)).fold(0.0, f64::max);
        let estimate = |inst: &Inst| longest / inst.max_demand();
        let estimated = |p: f64| p > 1e-3 && p < 9e3;
        if !free(first) || !free(second) || !estimated(estimate(&other)) || !estimated(estimate(&case.run.inst)) {
            end = 0;
        }
        a.truncate(end);
        b.truncate(end);
    }
    compare(what, &a, &b)?;
    if a.len() > 4 {
        obs.nontrivial();
        obs.class(what);
    }
    obs.count("steps compared", a.len() as u64);
    Ok(())
}

fn frame_part() -> Part {
    part("frame", "more than four steps were compared", 4000, 100_000, || frame_strategy(1, 10), frame_test).shrink(300)
}
fn frame_huge() -> Part {
    part("frame-huge", "more than four steps", 30, 600, || frame_strategy(100, 260), frame_test).cpu(200).shrink(30)
}
fn frame_long() -> Part {
    part("frame-long", "more than four steps", 60, 1_500, || frame_of(long_strategy(2, 9), 2, 9), frame_test).cpu(200).shrink(40)
}
fn frame_large() -> Part {
    part("frame-large", "more than four steps were compared", 250, 6_000, || frame_strategy(15, 60), frame_test).cpu(200).shrink(60)
}

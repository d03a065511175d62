//! C22: no valid input crashes the solver, hangs it or makes it touch foreign memory.
//! The same parts run a second time in a build under AddressSanitizer.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use crate::p_ga::check_report;
use hybridcvrp::models::Matrix;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm, Individual, Split};
use hybridcvrp::solver::improvement::{LocalSearch, RuinRecreate};
use hybridcvrp::solver::{Context, Metaheuristic, Solver};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C22", parts: vec![run_part(), crowd_part(), large_part(), components_part(), matrix_part(), program_part()] }]
}

/// Half of the cases in the slower build of the second stage.
const fn cases(n: usize) -> usize {
    if cfg!(vh_asan) {
        n / 2
    } else {
        n
    }
}

/// Unusual but valid instances.
pub fn edge(mut inst: Inst, kind: u8, raw: u64) -> Inst {
    let n = inst.customers();
    match kind {
        // Everything in one place.
        0 => {
            for i in 1..=n {
                inst.nodes[i].0 = inst.nodes[0].0;
                inst.nodes[i].1 = inst.nodes[0].1;
            }
            inst.matrix = None;
        }
        // Nothing to deliver.
        1 => inst.nodes.iter_mut().for_each(|c| c.2 = 0.0),
        // One customer has all of the demand.
        2 => {
            let one = 1 + (raw as usize) % n;
            (1..=n).for_each(|i| inst.nodes[i].2 = if i == one { inst.cap } else { 0.0 });
        }
        // No customer fits.
        3 => inst.cap = (inst.nodes.iter().map(|c| c.2).filter(|&q| q > 0.0).fold(f64::INFINITY, f64::min) / 2.0).min(1e6).max(1e-3),
        // Tiny distances.
        4 => {
            let f = [1e-3, 1e-6, 1e-8, 1e-12][raw as usize % 4];
            inst.nodes.iter_mut().for_each(|c| {
                c.0 *= f;
                c.1 *= f;
            });
            inst.rounded = raw / 4 % 4 == 0;
            inst.matrix = None;
        }
        // Enormous distances.
        5 => {
            inst.nodes.iter_mut().for_each(|c| {
                c.0 *= 1e6;
                c.1 *= 1e6;
            });
            inst.matrix = None;
        }
        // Two places.
        6 => {
            for i in 1..=n {
                let at = if (raw >> (i % 60)) & 1 == 0 { 0 } else { 1 };
                inst.nodes[i].0 = inst.nodes[at.min(i)].0;
                inst.nodes[i].1 = inst.nodes[at.min(i)].1;
            }
            inst.matrix = None;
        }
        // All distances zero, stated.
        7 => inst.matrix = Some((1..=n).map(|i| vec![0.0; i]).collect()),
        // Large and fractional demands.
        8 => {
            let f = [1e6, 1e-4, 1.0 / 3.0][raw as usize % 3];
            inst.nodes.iter_mut().for_each(|c| c.2 *= f);
            inst.cap *= f;
        }
        // Demands far above the capacity.
        9 => {
            let one = 1 + (raw as usize) % n;
            inst.nodes[one].2 = inst.cap * [1.5, 7.0, 300.0][raw as usize / 64 % 3];
        }
        // A single vehicle is enough.
        10 => inst.cap = inst.total_demand().max(1.0) * [1.0, 10.0, 1e6][raw as usize % 3],
        _ => {}
    }
    inst
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SafeCase {
    inst: Inst,
    knobs: Knobs,
    kind: u8,
    /// 0: step by step, 1: by the solver object after a move, 2: decomposed, 3: the same after a move.
    mode: u8,
    extra: u8,
    penalty: Option<f64>,
}

fn strategy(min: usize, max: usize) -> BoxedStrategy<SafeCase> {
    let size = prop_oneof![1 => Just(1usize), 1 => Just(2), 1 => Just(3), 9 => Just(0)];
    (inst(SMALL.customers(min, max).oversize(10)), knobs(), (0u8..16, any::<u64>()), size, 0u8..4, any::<u8>(), prop_oneof![3 => Just(None), 1 => penalty().prop_map(Some)])
        .prop_map(move |(mut inst, mut knobs, (kind, raw), size, mode, extra, penalty)| {
            if size > 0 && min == 1 {
                inst.nodes.truncate(1 + size);
                if let Some(m) = inst.matrix.as_mut() {
                    m.truncate(size);
                }
            }
            if inst.customers() > 15 {
                knobs.init = knobs.init.min(4);
                knobs.max_iter = knobs.max_iter.min(4);
                knobs.elite_gamma = knobs.elite_gamma.min(3.0);
            } else if extra % 8 == 0 {
                // Larger populations.
                knobs.init = 20 + knobs.init * 4;
                knobs.min_pop += 20;
                knobs.lambda += 10;
                knobs.max_iter *= 4;
            }
            if mode >= 2 {
                knobs.max_iter = knobs.max_iter.min(1);
                knobs.init = knobs.init.min(6);
                knobs.rr_gamma = knobs.rr_gamma.min(1.0);
            }
            // A fleet of a thousand vehicles makes the long searches of decomposed runs slow.
            let raw = if mode >= 2 && kind == 9 { raw % 128 } else { raw };
            SafeCase { inst: edge(inst, kind, raw), knobs, kind, mode, extra, penalty }
        })
        .boxed()
}

fn context(case: &SafeCase) -> Box<Context> {
    let mut c = case.knobs.config();
    if case.extra & 16 != 0 {
        c.elite_education_time_based = true;
        c.elite_education_time_fraction = 1e-8;
    }
    if case.extra & 224 == 0 {
        c.seed = u64::MAX - (case.extra as u64 & 3);
    }
    let ctx = case.inst.context(c);
    if let Some(p) = case.penalty {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    ctx
}

fn judge(case: &SafeCase, ctx: &Context, obs: &mut Obs) -> Check {
    let h = ctx.search_history.borrow();
    match h.last_entry() {
        Some(last) => {
            check_report(&case.inst, fleet(ctx), &last.solution.routes, last.solution.cost)?;
            obs.class("solution reported");
        }
        None => obs.class("no solution"),
    }
    let name = ["one place", "zero demands", "one demand", "nothing fits", "tiny distances", "enormous distances", "two places", "zero matrix", "odd demands", "far too large a demand", "one vehicle"];
    obs.class(name.get(case.kind as usize).copied().unwrap_or("ordinary"));
    obs.class_if(case.inst.customers() == 1, "one customer");
    obs.class_if(case.inst.customers() == 2, "two customers");
    obs.class_if(case.mode >= 2, "decomposed");
    obs.class_if(case.mode % 2 == 1, "context moved");
    if case.kind < 11 || case.inst.customers() <= 3 {
        obs.nontrivial();
    }
    Ok(())
}

fn run_test(case: &SafeCase, obs: &mut Obs) -> Check {
    let ctx = context(case);
    match case.mode {
        0 => {
            let mut ga = GeneticAlgorithm::new(&ctx);
            while !ga.terminated() {
                ga.iterate(&ctx);
            }
            judge(case, &ctx, obs)
        }
        1 => {
            // As the program does: the context moves after the algorithm was built. Its old place
            // is freed here, so that a look back at it is seen.
            let ga = GeneticAlgorithm::new(&ctx);
            let mut solver = Solver::new(*ctx, ga);
            solver.run();
            judge(case, &solver.ctx, obs)
        }
        2 => {
            let mut ga = DecomposedGeneticAlgorithm::new(&ctx);
            while !ga.terminated() {
                ga.iterate(&ctx);
            }
            judge(case, &ctx, obs)
        }
        _ => {
            let ga = DecomposedGeneticAlgorithm::new(&ctx);
            let mut solver = Solver::new(*ctx, ga);
            solver.run();
            judge(case, &solver.ctx, obs)
        }
    }
}

fn run_part() -> Part {
    part("runs", "an unusual instance, or three customers at most", cases(1500), cases(60_000), || strategy(1, 9), run_test).cpu(100).shrink(200)
}

/// Large populations of solutions whose costs differ by next to nothing.
fn crowd_part() -> Part {
    part(
        "crowd",
        "an unusual instance, or three customers at most",
        cases(1000),
        cases(30_000),
        || {
            (strategy(4, 14), 0u32..30, any::<u64>())
                .prop_map(|(mut c, f, raw)| {
                    c.inst.rounded = false;
                    c.inst.matrix = None;
                    let f = 10f64.powf(-1.0 - f as f64 / 4.0);
                    for node in c.inst.nodes.iter_mut() {
                        node.0 *= f;
                        node.1 *= f;
                    }
                    c.kind = 4;
                    c.mode %= 2;
                    c.knobs.init = 60;
                    c.knobs.min_pop = 40;
                    c.knobs.lambda = 20;
                    c.knobs.max_iter = 40;
                    c.knobs.pen_interval = 1 + raw % 4;
                    c.knobs.ls = raw % 3 == 0;
                    c.knobs.rr = raw % 5 == 0;
                    c
                })
                .boxed()
        },
        run_test,
    )
    .cpu(100)
    .shrink(100)
}

fn large_part() -> Part {
    part(
        "large",
        "an unusual instance, or three customers at most",
        cases(40),
        cases(1600),
        || {
            strategy(30, 240)
                .prop_map(|mut c| {
                    c.mode %= 2;
                    c
                })
                .boxed()
        },
        run_test,
    )
    .cpu(300)
    .shrink(60)
}

// --- Components ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PartsCase {
    safe: SafeCase,
    raws: Vec<RawRoutes>,
    penalties: Vec<f64>,
}

/// Local search, ruin and recreate, and the splits, one after another on the same objects.
fn components_test(case: &PartsCase, obs: &mut Obs) -> Check {
    let inst = &case.safe.inst;
    let n = inst.customers();
    let first = context(&case.safe);
    let slots = fleet(&first);
    let mut ls = LocalSearch::new(&first, 1.0);
    let mut split = Split::new(&first);
    let mut rr = RuinRecreate::new(&first);
    // What the components are given later is another object with the same content.
    let ctx = context(&case.safe);
    let moved = case.safe.mode % 2 == 1;
    let ctx = if moved {
        drop(first);
        ctx
    } else {
        first
    };
    for (k, raw) in case.raws.iter().enumerate() {
        ctx.config.borrow_mut().penalty_capacity = case.penalties[k % case.penalties.len()].max(1e-4);
        let mut ind: Individual = match k % 3 {
            0 => individual(&ctx, &raw.routes(n, slots)),
            1 => Individual::new_random(&ctx, k as u64),
            _ => {
                let mut ind = Individual::new(raw.tour(n), 0);
                split.run(&ctx, &mut ind, slots as u64);
                ind.evaluate(&ctx);
                ind
            }
        };
        if k % 3 == 1 {
            split.run(&ctx, &mut ind, ctx.vehicle_lower_bound().max(1));
            ind.evaluate(&ctx);
        }
        complete(&ind.phenotype, n)?;
        if ind.phenotype.len() != slots {
            let r = ind.phenotype.len().max(slots);
            ind.phenotype.resize(r, Vec::new());
            if r > slots {
                continue;
            }
            ind.evaluate(&ctx);
        }
        if raw.spread % 3 != 0 {
            ls.run(&ctx, &mut ind, 1.0 + (raw.spread % 4) as f64);
            check_shape(inst, slots, &ind)?;
        }
        if raw.spread % 5 != 0 {
            rr.setup_mutation(&ctx);
            rr.load(&ctx, &mut ind);
            for _ in 0..30 {
                if rr.complete() {
                    break;
                }
                rr.search();
            }
            rr.get_best_solution(&mut ind);
            ind.evaluate(&ctx);
            complete(&ind.phenotype, n)?;
        }
        obs.count("individuals", 1);
    }
    obs.class_if(moved, "context moved");
    obs.class_if(n <= 2, "two customers at most");
    obs.nontrivial();
    Ok(())
}

fn components_part() -> Part {
    part(
        "components",
        "always",
        cases(1500),
        cases(60_000),
        || {
            (prop_oneof![6 => strategy(1, 12), 1 => strategy(20, 60)], vec(raw_routes(20), 1..6), vec(penalty(), 1..4))
                .prop_map(|(safe, raws, penalties)| PartsCase { safe, raws, penalties })
                .boxed()
        },
        components_test,
    )
    .cpu(120)
    .shrink(300)
}

// --- Matrix ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MatrixCase {
    rows: usize,
    cols: usize,
    ops: Vec<(u8, u16, u16, u32)>,
}

/// The matrix against a table of rows. Returns whether anything was written.
fn matrix_model<T, F>(case: &MatrixCase, zero: T, value: F) -> Result<bool, String>
where
    T: Copy + PartialEq + PartialOrd + std::fmt::Debug,
    F: Fn(u32) -> T,
{
    let (rows, cols) = (case.rows, case.cols);
    let start = case.ops.first().map_or(0, |o| o.3);
    let filled = start % 3 == 0;
    let init = value(start);
    let mut m = if filled { Matrix::init(init, rows, cols) } else { Matrix::new(rows, cols) };
    let mut model = vec![vec![if filled { init } else { zero }; cols]; rows];
    let mut written = false;
    let check = |m: &Matrix<T>, model: &Vec<Vec<T>>| -> Check {
        ensure!(m.rows == rows && m.cols == cols, "size {}x{} instead of {}x{}", m.rows, m.cols, rows, cols);
        for i in 0..rows {
            for j in 0..cols {
                ensure!(m.get(i, j) == model[i][j], "entry {},{} is {:?} instead of {:?}", i, j, m.get(i, j), model[i][j]);
            }
            ensure!(m.slice(i, 0, cols) == &model[i][..], "row {} is {:?}", i, m.slice(i, 0, cols));
        }
        Ok(())
    };
    for &(op, a, b, x) in &case.ops {
        if rows * cols == 0 {
            check(&m.clone(), &model)?;
            continue;
        }
        let (i, j) = (a as usize % rows, b as usize % cols);
        match op % 6 {
            0 | 1 => {
                m.set(i, j, value(x));
                model[i][j] = value(x);
                written = true;
            }
            2 => {
                *m.get_mut(i, j) = value(x);
                model[i][j] = value(x);
                written = true;
            }
            3 => {
                let k = x as usize % (cols - j) + 1;
                m.slice_mut(i, j, k).reverse();
                model[i][j..j + k].reverse();
            }
            4 => {
                // A copy lives on its own.
                let mut other = m.clone();
                other.set(i, j, value(x));
                check(&m, &model)?;
                if x % 2 == 0 {
                    m = other;
                    model[i][j] = value(x);
                }
            }
            _ => {
                let max = m.get_max();
                let mut want = model[0][0];
                model.iter().flatten().for_each(|&v| want = if v > want { v } else { want });
                ensure!(max == want, "largest entry {:?} instead of {:?}", max, want);
                if rows == cols {
                    let mapping: Vec<usize> = (0..(x as usize % 5)).map(|k| (x as usize / 7 + k * a as usize) % rows).collect();
                    let sub = m.from_mapping(&mapping);
                    ensure!(sub.rows == mapping.len() && sub.cols == mapping.len(), "part of size {}x{}", sub.rows, sub.cols);
                    for (p, &u) in mapping.iter().enumerate() {
                        for (q, &v) in mapping.iter().enumerate() {
                            ensure!(sub.get(p, q) == model[u][v], "entry {},{} of the part", p, q);
                        }
                    }
                }
            }
        }
        check(&m, &model)?;
    }
    check(&m, &model)?;
    Ok(written)
}

fn matrix_part() -> Part {
    part(
        "matrix",
        "entries were written",
        cases(2000),
        cases(100_000),
        || {
            (0usize..9, 0usize..9, vec((any::<u8>(), any::<u16>(), any::<u16>(), any::<u32>()), 0..20), any::<bool>())
                .prop_map(|(rows, cols, ops, square)| MatrixCase { rows, cols: if square { rows } else { cols }, ops })
                .boxed()
        },
        |case: &MatrixCase, obs: &mut Obs| {
            let written = matrix_model(case, 0.0, |x| x as f64 / 8.0)? | matrix_model(case, 0usize, |x| x as usize)? | matrix_model(case, 0u8, |x| x as u8)?;
            if written {
                obs.nontrivial();
            }
            obs.class_if(case.rows * case.cols == 0, "no entries");
            Ok(())
        },
    )
}

// --- The program ---------------------------------------------------------------------------------------

fn program_test(case: &SafeCase, obs: &mut Obs) -> Check {
    if cfg!(vh_asan) {
        return Ok(());
    }
    let dir = crate::cli::Dir::new("safe");
    let mut config = case.knobs.config();
    config.round_distances = case.inst.rounded;
    config.precompute_distance_size_limit = if case.inst.precompute { 10_000 } else { 0 };
    config.decompose_limit = if case.mode >= 2 { 1 } else { 3000 };
    if case.mode >= 2 {
        config.max_iterations = Some(1);
    }
    dir.write("config.yml", &(serde_yaml::to_string(&config).map_err(|e| e.to_string())? + "\n"));
    dir.write("in.vrp", &crate::cli::cvrplib(&case.inst));
    let run = crate::cli::run(&dir.0, &["in.vrp".to_string(), "-o".to_string(), "out.sol".to_string()], &[], 170);
    ensure!(run.ok(), "the program ended with {:?}: {}", run.code, run.tail());
    ensure!(dir.path("out.sol").exists(), "no solution file");
    if case.kind < 11 || case.inst.customers() <= 3 {
        obs.nontrivial();
    }
    obs.class_if(case.mode >= 2, "decomposed");
    obs.class_if(case.inst.customers() == 1, "one customer");
    Ok(())
}

fn program_part() -> Part {
    let n = if cfg!(vh_asan) { 1 } else { 150 };
    let t = if cfg!(vh_asan) { 1 } else { 4000 };
    part("program", "an unusual instance, or three customers at most", n, t, || strategy(1, 9), program_test).cpu(200).shrink(60)
}

//! C18: a deterministic run is a function of instance, configuration and seed.

use crate::cli;
use crate::engine::{part, splitmix, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::p_ga::{context, ga_strategy, long_strategy, GaCase};
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Decomposition, GeneticAlgorithm, Individual};
use hybridcvrp::solver::improvement::{Acceptance, IterationSchedule, LocalSearch, RuinRecreate};
use hybridcvrp::solver::{Context, Metaheuristic};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C18", parts: vec![twice_part(), twice_large(), twice_huge(), twice_long(), stages_part(), decomposed_part(), processes_part()] }]
}

/// Instances full of ties, where the order of looking at things decides.
fn tied(mut inst: Inst, ties: u8) -> Inst {
    if ties % 4 != 0 {
        inst.rounded = true;
        for node in inst.nodes.iter_mut() {
            node.0 = (node.0.abs() % 4.0).floor();
            node.1 = (node.1.abs() % 4.0).floor();
        }
        if ties % 4 == 2 {
            inst.matrix = None;
            for node in inst.nodes.iter_mut().skip(1) {
                node.2 = 1.0;
            }
            inst.cap = inst.cap.max(2.0).min(4.0);
        }
    }
    inst
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DetCase {
    run: GaCase,
    /// What else happens between the two runs.
    other_seed: u64,
    other_steps: u8,
}

fn det_strategy(min: usize, max: usize) -> BoxedStrategy<DetCase> {
    det_of(ga_strategy(min, max))
}

fn det_of(run: BoxedStrategy<GaCase>) -> BoxedStrategy<DetCase> {
    (run, any::<u8>(), prop_oneof![6 => Just(None), 1 => Just(Some(u64::MAX)), 1 => (0u64..2000).prop_map(|d| Some(u64::MAX - d))], any::<u64>(), any::<u8>())
        .prop_map(|(mut run, ties, seed, other_seed, other_steps)| {
            run.inst = tied(run.inst, ties);
            if let Some(seed) = seed {
                run.knobs.seed = seed;
            }
            DetCase { run, other_seed, other_steps }
        })
        .boxed()
}

pub fn mix(h: &mut u64, x: u64) {
    *h = splitmix(*h ^ x);
}

pub fn mix_individual(h: &mut u64, i: &Individual) {
    mix(h, i.number);
    mix(h, i.penalized_cost().to_bits());
    mix(h, i.fitness.to_bits());
    for r in &i.phenotype {
        mix(h, r.len() as u64);
        for &c in r {
            mix(h, c as u64);
        }
    }
    for &c in &i.genotype {
        mix(h, c as u64);
    }
}

pub fn mix_reports(h: &mut u64, ctx: &Context) {
    let history = ctx.search_history.borrow();
    for e in history.entries() {
        mix(h, e.solution.cost.to_bits());
        for r in &e.solution.routes {
            mix(h, r.len() as u64);
            for &c in r {
                mix(h, c as u64);
            }
        }
    }
    for m in &history.messages {
        for b in m.message.bytes() {
            mix(h, b as u64);
        }
    }
}

/// A number per step for everything the search holds.
fn trace(case: &GaCase, max_steps: usize) -> (Vec<u64>, String) {
    let ctx = context(case);
    let mut ga = Box::new(GeneticAlgorithm::new(&ctx));
    let mut out = Vec::new();
    while !ga.terminated() && out.len() < max_steps {
        ga.iterate(&ctx);
        let mut h = ga.iterations;
        mix_individual(&mut h, &ga.child);
        for i in ga.population.feasible.population.iter().chain(&ga.population.infeasible.population) {
            mix_individual(&mut h, i);
        }
        mix(&mut h, ctx.config.borrow().penalty_capacity.to_bits());
        mix_reports(&mut h, &ctx);
        out.push(h);
    }
    let costs: Vec<f64> = ctx.search_history.borrow().entries().iter().map(|e| e.solution.cost).collect();
    (out, format!("costs reported {:?}, {} individuals, generation {}", costs, ga.population.size(), ga.iterations))
}

fn twice_test(case: &DetCase, obs: &mut Obs) -> Check {
    const STEPS: usize = 1000;
    let (a, a_end) = trace(&case.run, STEPS);
    // Something else in between.
    let mut other = case.run.clone();
    other.knobs.seed = case.other_seed;
    trace(&other, case.other_steps as usize % 20);
    let (b, b_end) = trace(&case.run, STEPS);
    if let Some(step) = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]) {
        return Err(format!("the runs part at step {} of {}: {} / {}", step, a.len(), a_end, b_end));
    }
    ensure!(a.len() == b.len(), "one run has {} steps, the other {}", a.len(), b.len());
    if a.len() > 4 {
        obs.nontrivial();
    }
    obs.class_if(case.run.knobs.elite && case.run.inst.customers() > case.run.knobs.elite_limit, "elite education");
    obs.class_if(case.run.knobs.rr && case.run.knobs.rr_prob > 0.0, "ruin and recreate");
    obs.class_if(case.run.knobs.seed > u64::MAX - 3000, "seed near the largest");
    obs.count("steps compared", a.len() as u64);
    Ok(())
}

fn twice_part() -> Part {
    part("twice", "more than four steps", 250, 8000, || det_strategy(1, 12), twice_test)
}

fn twice_huge() -> Part {
    part("twice-huge", "more than four steps", 8, 160, || det_strategy(100, 260), twice_test).cpu(200).shrink(30)
}

fn twice_long() -> Part {
    part("twice-long", "more than four steps", 25, 600, || det_of(long_strategy(2, 10)), twice_test).cpu(200).shrink(40)
}

fn twice_large() -> Part {
    part("twice-large", "more than four steps", 40, 800, || det_strategy(25, 90), twice_test).cpu(200).shrink(60)
}

// --- Single stages -----------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StageCase {
    run: DetCase,
    raw: RawRoutes,
    stage: u8,
}

fn stage_strategy(min: usize, max: usize) -> BoxedStrategy<StageCase> {
    (det_strategy(min, max), raw_routes(max), any::<u8>()).prop_map(|(run, raw, stage)| StageCase { run, raw, stage }).boxed()
}

fn stage(case: &StageCase) -> u64 {
    let ctx = context(&case.run.run);
    let n = case.run.run.inst.customers();
    let mut ind = individual(&ctx, &case.raw.routes(n, fleet(&ctx)));
    let mut h = 0;
    match case.stage % 3 {
        0 => {
            let mut ls = LocalSearch::new(&ctx, 1.0);
            for factor in [1.0, 10.0, 1.0] {
                ls.run(&ctx, &mut ind, factor);
                mix_individual(&mut h, &ind);
            }
        }
        1 => {
            let mut rr = RuinRecreate::new(&ctx);
            rr.set_acceptance(IterationSchedule::new(10.0, 40).into());
            for _ in 0..3 {
                rr.acceptance.reset();
                rr.load(&ctx, &mut ind);
                while !rr.complete() {
                    rr.search();
                    mix(&mut h, rr.current_solution.cost.to_bits());
                }
                rr.get_best_solution(&mut ind);
                mix_individual(&mut h, &ind);
            }
        }
        _ => {
            let mut d = Decomposition::new(&mut ind, &ctx);
            mix_individual(&mut h, &d.solution);
            for &c in &d.mapping {
                mix(&mut h, c as u64);
            }
            d.run();
            mix_individual(&mut h, &d.solution);
            d.finish(&ctx);
            mix_individual(&mut h, &ind);
        }
    }
    mix(&mut h, ctx.random.real().to_bits());
    mix_reports(&mut h, &ctx);
    h
}

fn stages_test(case: &StageCase, obs: &mut Obs) -> Check {
    let a = stage(case);
    let b = stage(case);
    let name = ["local search", "ruin and recreate", "decomposition"][case.stage as usize % 3];
    ensure!(a == b, "{} gives different results for the same seed", name);
    obs.nontrivial();
    obs.class(name);
    Ok(())
}

fn stages_part() -> Part {
    part("stages", "always", 250, 8000, || stage_strategy(2, 14), stages_test).cpu(120)
}

fn decomposed_test(case: &DetCase, obs: &mut Obs) -> Check {
    let run = || {
        let ctx = context(&case.run);
        ctx.config.borrow_mut().max_iterations = Some(1 + case.run.knobs.max_iter % 2);
        let mut dga = DecomposedGeneticAlgorithm::new(&ctx);
        let mut hashes = Vec::new();
        while !dga.terminated() && hashes.len() < 6 {
            dga.iterate(&ctx);
            let mut h = 0;
            mix_reports(&mut h, &ctx);
            mix(&mut h, ctx.random.rng.borrow_mut().u64(..));
            hashes.push(h);
        }
        let reports = ctx.search_history.borrow().entries().len();
        (hashes, reports)
    };
    let a = run();
    let b = run();
    ensure!(a == b, "two decomposed runs part: {:?} / {:?}", a, b);
    if a.1 > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn decomposed_part() -> Part {
    part("decomposed", "a feasible solution was reported", 16, 400, || det_strategy(2, 9), decomposed_test).cpu(200).shrink(30)
}

// --- Processes ---------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProcessCase {
    run: GaCase,
    decompose: bool,
    padding: u16,
}

/// Everything in the log that is not time.
fn timeless(log: &str) -> Vec<String> {
    log.lines()
        .filter_map(|l| {
            if let Some(p) = l.find("New best") {
                Some(l[p..].to_string())
            } else {
                l.find("| Iter:").map(|p| l[p..].to_string())
            }
        })
        .collect()
}

fn processes_test(case: &ProcessCase, obs: &mut Obs) -> Check {
    let mut config = case.run.knobs.config();
    if case.decompose {
        config.decompose_limit = 1;
        config.max_iterations = Some(1);
    }
    config.round_distances = case.run.inst.rounded;
    config.precompute_distance_size_limit = if case.run.inst.precompute { 10_000 } else { 0 };
    config.solution_path = Some("out.sol".into());
    let mut yaml = serde_yaml::to_string(&config).map_err(|e| e.to_string())?;
    yaml.push('\n');
    let text = cli::cvrplib(&case.run.inst);
    let mut results = Vec::new();
    for i in 0..2 {
        // Another directory, another environment, another start.
        let dir = cli::Dir::new(if i == 0 { "det" } else { "det-with-a-longer-name" });
        dir.write("config.yml", &yaml);
        dir.write("in.vrp", &text);
        let env = vec![("RUST_LOG".to_string(), "debug".to_string()), ("PADDING".to_string(), "x".repeat(i * case.padding as usize % 5000))];
        let args: Vec<String> = ["in.vrp", "-t", "100000", "-o", "out.sol", "-r", if case.run.inst.rounded { "true" } else { "false" }].iter().map(|s| s.to_string()).collect();
        let run = cli::run(&dir.0, &args, &env, 120);
        ensure!(run.ok(), "the program ended with {:?}: {}", run.code, run.tail());
        let sol = std::fs::read_to_string(dir.path("out.sol")).unwrap_or_else(|e| format!("no file: {}", e));
        results.push((timeless(&run.stderr), sol));
    }
    ensure!(!results[0].0.is_empty() || results[0].1.is_empty(), "the log shows nothing of the run");
    for (i, (a, b)) in results[0].0.iter().zip(&results[1].0).enumerate() {
        ensure!(a == b, "line {} of the logs: {} / {}", i, a, b);
    }
    ensure!(results[0].0.len() == results[1].0.len(), "logs of {} and {} lines", results[0].0.len(), results[1].0.len());
    ensure!(results[0].1 == results[1].1, "solution files differ: {} / {}", results[0].1, results[1].1);
    if results[0].1.contains("Cost") {
        obs.nontrivial();
    }
    obs.class_if(case.decompose, "decomposed");
    obs.count("log lines compared", results[0].0.len() as u64);
    Ok(())
}

fn process_strategy() -> BoxedStrategy<ProcessCase> {
    (det_strategy(2, 40), 0u32..8, any::<u16>())
        .prop_map(|(case, decompose, padding)| {
            let decompose = decompose == 0 && case.run.inst.customers() <= 10;
            ProcessCase { run: case.run, decompose, padding }
        })
        .boxed()
}

fn processes_part() -> Part {
    part("processes", "a solution file with a solution in it", 60, 1500, process_strategy, processes_test).cpu(200).shrink(30)
}

//! C30: the build for the DIMACS challenge, and its script.

use crate::cli;
use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use crate::p_cli::{cost_line_fits, read_solution};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C30", parts: vec![output_part(), script_part()] }]
}

fn program() -> String {
    std::env::var("VH_BIN_DIMACS").expect("VH_BIN_DIMACS names the program built for the challenge")
}

/// The solutions on the standard output, in order, as the text of each.
fn printed(out: &str) -> Result<Vec<String>, String> {
    let mut all = Vec::new();
    let mut now = String::new();
    for l in out.lines() {
        if l.starts_with("Route") {
            now.push_str(l);
            now.push('\n');
        } else if l.starts_with("Cost") {
            now.push_str(l);
            now.push('\n');
            all.push(std::mem::take(&mut now));
        } else {
            ensure!(now.is_empty(), "line {:?} within a solution", l);
        }
    }
    ensure!(now.is_empty(), "the output ends within a solution: {:?}", now);
    Ok(all)
}

fn reports(log: &str) -> Vec<f64> {
    log.lines().filter_map(|l| l.split("New best: ").nth(1)).map(|c| c.trim().parse().unwrap_or(f64::NAN)).collect()
}

/// Every printed solution is whole, valid and the one the log tells of; the last one is in the file.
fn check_output(inst: &Inst, run: &cli::Run, file: &str, obs: &mut Obs) -> Check {
    let solutions = printed(&run.stdout)?;
    let costs = reports(&run.stderr);
    ensure!(solutions.len() == costs.len(), "{} solutions on the standard output, {} new best ones in the log", solutions.len(), costs.len());
    let mut before = f64::INFINITY;
    for (text, &cost) in solutions.iter().zip(&costs) {
        let (routes, line) = read_solution(text)?;
        check_feasible(inst, &routes).map_err(|e| format!("printed solution {:?}: {}", text, e))?;
        let real: f64 = routes.iter().map(|r| route_dist(inst, r)).sum();
        ensure!(close(real, cost), "the printed routes cost {}, the log says {}", real, cost);
        ensure!(cost_line_fits(&line, real), "cost {} is printed as {:?}", real, line);
        ensure!(real < before, "{} is printed after {}", real, before);
        before = real;
    }
    match solutions.last() {
        None => ensure!(file.is_empty(), "nothing was printed, the file holds {:?}", file),
        Some(last) => ensure!(file == last, "the file holds {:?}, the last solution printed is {:?}", file, last),
    }
    if solutions.len() > 1 {
        obs.nontrivial();
    }
    obs.class_if(solutions.len() > 3, "more than three solutions");
    obs.class_if(solutions.is_empty(), "no solution");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OutputCase {
    inst: Inst,
    knobs: Knobs,
    decompose: bool,
}

fn output_test(case: &OutputCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let dir = cli::Dir::new("dimacs");
    let mut config = case.knobs.config();
    if case.decompose {
        config.decompose_limit = 1;
        config.decomposed_problem_min_size = 2 + case.knobs.seed % 6;
        config.max_iterations = Some(config.max_iterations.unwrap_or(0).min(1));
    }
    config.round_distances = inst.rounded;
    config.precompute_distance_size_limit = if inst.precompute { 10_000 } else { 0 };
    config.solution_path = Some("s.sol".to_string());
    dir.write("config.yml", &(serde_yaml::to_string(&config).map_err(|e| e.to_string())? + "\n"));
    dir.write("in.vrp", &cli::cvrplib(inst));
    let run = cli::run_program(&program(), &dir.0, &["in.vrp".to_string()], &[], 120);
    ensure!(run.ok(), "the program ended with {:?}: {}", run.code, run.tail());
    let file = std::fs::read_to_string(dir.path("s.sol")).map_err(|e| format!("no solution file: {}", e))?;
    obs.class_if(case.decompose, "decomposed");
    check_output(inst, &run, &file, obs)
}

fn output_part() -> Part {
    part(
        "output",
        "two or more solutions were printed",
        120,
        3000,
        || {
            (inst(SMALL.customers(2, 30).oversize(12)), knobs(), 0u32..5)
                .prop_map(|(inst, mut knobs, decompose)| {
                    let decompose = decompose == 0 && inst.customers() <= 10;
                    knobs.init = knobs.init.min(6);
                    OutputCase { inst, knobs, decompose }
                })
                .boxed()
        },
        output_test,
    )
    .cpu(200)
    .shrink(60)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ScriptCase {
    inst: Inst,
    rounded: bool,
    file_rounded: Option<bool>,
    /// Ends by the time given to the script, or by its generations.
    by_time: bool,
    /// How many of the three arguments are given.
    given: u8,
}

fn script_test(case: &ScriptCase, obs: &mut Obs) -> Check {
    let dir = cli::Dir::new("script");
    std::os::unix::fs::symlink(program(), dir.path("hybridcvrp")).map_err(|e| e.to_string())?;
    std::fs::copy("/repo/HGSRR-DIMACS.sh", dir.path("HGSRR-DIMACS.sh")).map_err(|e| format!("no script: {}", e))?;
    let mut file = String::from("deterministic: true\ninitial_individuals: 6\nmin_population_size: 4\npopulation_lambda: 4\nelite_education: false\nsolution_path: s.sol\ntime_limit: 50000\n");
    if !case.by_time {
        file.push_str("max_iterations: 12\n");
    }
    if let Some(r) = case.file_rounded {
        file.push_str(&format!("round_distances: {}\n", r));
    }
    dir.write("config.yml", &file);
    dir.write("in.vrp", &cli::cvrplib(&case.inst));
    let limit = if case.by_time { "1" } else { "30000" };
    let args: Vec<String> = ["HGSRR-DIMACS.sh", "in.vrp", if case.rounded { "1" } else { "0" }, limit].iter().take(1 + case.given as usize).map(|a| a.to_string()).collect();
    let run = cli::run_program("/bin/bash", &dir.0, &args, &[], 90);
    if case.given < 3 {
        ensure!(run.code.map_or(false, |c| c != 0), "with {:?} the script ended with {:?}", args, run.code);
        ensure!(!dir.path("s.sol").exists(), "with {:?} the solver ran", args);
        obs.class("arguments missing");
        return Ok(());
    }
    ensure!(run.ok(), "the script {:?} ended with {:?}: {}", args, run.code, run.tail());
    if case.by_time {
        ensure!(run.wall > 0.9, "given one second, the run ended after {}", run.wall);
        obs.class("ended by time");
    }
    let mut inst = case.inst.clone();
    inst.rounded = case.rounded;
    let text = std::fs::read_to_string(dir.path("s.sol")).map_err(|e| format!("no solution file: {}", e))?;
    ensure!(!text.is_empty(), "no solution");
    obs.class(if case.rounded { "rounded" } else { "not rounded" });
    check_output(&inst, &run, &text, obs)?;
    // The optimum is nearly always reached at once; what matters is the rounding.
    let cost = reports(&run.stderr).last().copied().unwrap_or(0.0);
    if case.rounded || cost.fract() != 0.0 {
        obs.nontrivial();
    }
    Ok(())
}

fn script_part() -> Part {
    part(
        "script",
        "the run took place and its cost shows the rounding",
        40,
        600,
        || {
            let opt = prop_oneof![Just(None), Just(Some(true)), Just(Some(false))];
            (inst(SMALL.customers(2, 10)), any::<bool>(), opt, 0u32..8, prop_oneof![1 => 0u8..3, 5 => Just(3u8)])
                .prop_map(|(mut inst, rounded, file_rounded, by_time, given)| {
                    inst.cap = inst.cap.max(inst.total_demand());
                    ScriptCase { inst, rounded, file_rounded, by_time: by_time == 0, given }
                })
                .boxed()
        },
        script_test,
    )
    .cpu(200)
    .shrink(40)
}

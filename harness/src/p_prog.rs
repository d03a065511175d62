//! C36: what the log and the console say about the search is so.

use crate::cli;
use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use crate::p_ga::{drive, ga_strategy, long_strategy, GaCase};
use crate::p_pop::between;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Individual, SubPopulation};
use hybridcvrp::solver::{Context, Metaheuristic};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Mutex, Once};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C36", parts: vec![lines_part(), large_part(), long_part(), decomposed_part(), program_part()] }]
}

// --- a logger that keeps what it is told ----------------------------------------------------------

struct Keep(Mutex<Vec<(log::Level, String)>>);

impl log::Log for Keep {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        if let Ok(mut kept) = self.0.lock() {
            kept.push((record.level(), format!("{}", record.args())));
        }
    }
    fn flush(&self) {}
}

static KEEP: Keep = Keep(Mutex::new(Vec::new()));

fn listen() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        log::set_logger(&KEEP).expect("one logger");
    });
    log::set_max_level(log::LevelFilter::Debug);
    heard();
}

/// What was logged since the last call.
fn heard() -> Vec<(log::Level, String)> {
    KEEP.0.lock().map(|mut k| std::mem::take(&mut *k)).unwrap_or_default()
}

/// The costs in the lines on new best solutions.
fn bests(lines: &[(log::Level, String)]) -> Result<Vec<f64>, String> {
    let of = |l: &str| l.split("New best: ").nth(1).map(|c| c.trim().parse::<f64>().map_err(|_| format!("no cost in {:?}", l)));
    lines.iter().filter_map(|(_, l)| of(l)).collect()
}

/// The numbers of a line on the progress, in order; None if it is another line.
fn numbers(line: &str) -> Option<Vec<f64>> {
    if !line.contains("Iter:") {
        return None;
    }
    let is_number = |w: &&str| *w == "NaN" || *w == "inf" || *w == "-inf" || w.starts_with(|c: char| c.is_ascii_digit() || c == '-');
    Some(line.split(|c: char| c.is_whitespace() || c == '|').filter(is_number).filter_map(|w| w.parse().ok()).collect())
}

// --- the line on the progress -----------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LogCase {
    ga: GaCase,
    interval: u64,
}

fn shown(what: &str, got: f64, want: f64) -> Check {
    let fits = got == want || (got - want).abs() <= 0.0051 + 1e-9 * want.abs();
    ensure!(fits, "{} is {}, the log says {}", what, want, got);
    Ok(())
}

/// Best and average cost and diversity of the best; the last is None when there are not two to compare.
fn figures(ctx: &Context, sub: &SubPopulation, n: usize) -> (f64, f64, Option<f64>) {
    let all: &[Individual] = &sub.population;
    let count = all.len().min(ctx.config.borrow().min_population_size as usize);
    if count == 0 {
        return (0.0, -1.0, Some(-1.0 / n as f64));
    }
    let average = all[..count].iter().map(|i| i.penalized_cost()).sum::<f64>() / count as f64;
    if all.len() < 2 {
        return (all[0].penalized_cost(), average, None);
    }
    let mut total = 0.0;
    for (k, i) in all[..count].iter().enumerate() {
        let mut d: Vec<i64> = all.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, o)| between(i, o, n)).collect();
        d.sort_unstable();
        let closest = count.min(d.len());
        total += d[..closest].iter().sum::<i64>() as f64 / closest as f64;
    }
    (all[0].penalized_cost(), average, Some(total / count as f64 / n as f64))
}

/// The messages of the history so far, in the order of time.
fn check_messages(ctx: &Context, wanted: &[String]) -> Check {
    let history = ctx.search_history.borrow();
    let got: Vec<&String> = history.messages.iter().map(|m| &m.message).collect();
    ensure!(got.len() == wanted.len() && got.iter().zip(wanted).all(|(a, b)| *a == b), "the messages of the history are {:?} and not {:?}", got, wanted);
    if got.len() > 1 {
        let last = &history.messages[got.len() - 2..];
        ensure!(last[0].timestamp <= last[1].timestamp && last[1].timestamp <= ctx.elapsed(), "messages at {:?} and {:?}, now {:?}", last[0].timestamp, last[1].timestamp, ctx.elapsed());
    }
    Ok(())
}

fn lines_test(case: &LogCase, obs: &mut Obs) -> Check {
    listen();
    let n = case.ga.inst.customers();
    // Iteration from which on the next line is due.
    let mut due = 0;
    let (mut lines, mut compared, mut infeasible, mut long) = (0u64, 0u64, 0u64, 0u64);
    let mut before = 0;
    let mut messages = Vec::new();
    // The state before the first step of the search of an elite is not known from outside: it shows in the line itself.
    let elite = case.ga.knobs.elite && n > case.ga.knobs.elite_limit;
    let mut elite_due = elite;
    drive(&case.ga, |ctx, ga, step| {
        if step.index == 0 {
            ctx.config.borrow_mut().log_interval = case.interval;
        }
        let heard = heard();
        // New best solutions are in the log as they are in the history.
        let entries = ctx.search_history.borrow().entries().iter().map(|e| e.solution.cost).collect::<Vec<f64>>();
        ensure!(bests(&heard)? == entries[before..], "new best solutions {:?}, the log says {:?}", &entries[before..], heard);
        messages.extend(entries[before..].iter().map(|cost| format!("New best: {:.2}", cost)));
        if step.restarted {
            messages.push("Resetting".to_string());
        }
        check_messages(ctx, &messages)?;
        before = entries.len();
        let progress: Vec<Vec<f64>> = heard.iter().filter_map(|(_, l)| numbers(l)).collect();
        ensure!(progress.len() <= 1, "{} lines at once: {:?}", progress.len(), heard);
        let size = ga.population.size();
        if step.generation {
            let is_due = step.iterations_before >= due;
            ensure!(is_due == (progress.len() == 1), "a line was due at {}, in generation {} there are {:?}", due, step.iterations_before, heard);
        } else if progress.len() == 1 {
            ensure!(elite_due && size >= 1 && step.built == 0, "a line without a generation: {:?}", heard);
            elite_due = false;
        }
        if let Some(got) = progress.first() {
            due += case.interval;
            lines += 1;
            ensure!(got.len() == 13, "{} numbers in a line on the progress: {:?}", got.len(), heard);
            ensure!(got[0] >= 0.0 && got[0] <= ctx.elapsed_as_secs_f64() + 0.0051, "{} s have passed, the log says {}", ctx.elapsed_as_secs_f64(), got[0]);
            shown("the generation", got[1], step.iterations_before as f64)?;
            shown("the penalty", got[12], step.penalty_after)?;
            if !step.restarted {
                compared += 1;
                shown("the number of generations since the best", got[2], (step.iterations_before - ga.best_iteration) as f64)?;
                for (k, (name, sub)) in [("feasible", &ga.population.feasible), ("infeasible", &ga.population.infeasible)].into_iter().enumerate() {
                    let (best, average, diversity) = figures(ctx, sub, n);
                    shown(&format!("the number of {} individuals", name), got[3 + 3 * k], sub.population.len() as f64)?;
                    shown(&format!("the best {} cost", name), got[4 + 3 * k], best)?;
                    shown(&format!("the average {} cost", name), got[5 + 3 * k], average)?;
                    if let Some(d) = diversity {
                        shown(&format!("the diversity of the {}", name), got[9 + k], d)?;
                        obs.count("diversities", (d > 0.0) as u64);
                    }
                }
                let h = &ga.population.feasible_history;
                if !h.is_empty() {
                    shown("the feasible share", got[11], h.iter().filter(|x| **x).count() as f64 / h.len() as f64)?;
                }
                infeasible += !ga.population.infeasible.population.is_empty() as u64;
                long += (ga.population.feasible.population.len() > case.ga.knobs.min_pop as usize) as u64;
            }
        }
        if step.restarted {
            due = step.iterations_before;
            elite_due = elite;
            obs.class("restart");
        }
        Ok(())
    })?;
    if compared > 0 {
        obs.nontrivial();
    }
    obs.count("lines", lines);
    obs.class_if(infeasible > 0, "infeasible individuals");
    obs.class_if(long > 0, "more than the minimum of individuals");
    obs.class_if(compared > 2, "several lines");
    obs.class_if(elite, "elite education");
    Ok(())
}

fn log_strategy(min: usize, max: usize) -> BoxedStrategy<LogCase> {
    (ga_strategy(min, max), prop_oneof![3 => 1u64..4, 1 => Just(1u64), 1 => 4u64..12]).prop_map(|(ga, interval)| LogCase { ga, interval }).boxed()
}

fn lines_part() -> Part {
    part("lines", "a line on the progress was compared with the populations", 200, 4000, || log_strategy(1, 14), lines_test)
}

fn large_part() -> Part {
    part("lines-large", "a line on the progress was compared with the populations", 30, 600, || log_strategy(20, 40), lines_test)
}

fn long_part() -> Part {
    part("lines-long", "a line on the progress was compared with the populations", 20, 400, || {
        (long_strategy(2, 9), prop_oneof![1 => Just(100u64), 2 => 10u64..130]).prop_map(|(ga, interval)| LogCase { ga, interval }).boxed()
    }, lines_test)
    .cpu(150)
    .shrink(40)
}

// --- a decomposed run -------------------------------------------------------------------------------

fn decomposed_test(case: &GaCase, obs: &mut Obs) -> Check {
    listen();
    let ctx = case.inst.context(case.knobs.config());
    let rounds = 1 + case.knobs.max_iter % 2;
    ctx.config.borrow_mut().max_iterations = Some(rounds);
    let mut dga = DecomposedGeneticAlgorithm::new(&ctx);
    let mut before = 0;
    let mut messages = Vec::new();
    for _ in 0..rounds + 3 {
        if dga.terminated() {
            break;
        }
        dga.iterate(&ctx);
        let entries = ctx.search_history.borrow().entries().iter().map(|e| e.solution.cost).collect::<Vec<f64>>();
        let heard = heard();
        ensure!(bests(&heard)? == entries[before..], "new best solutions {:?}, the log says {:?}", &entries[before..], bests(&heard)?);
        messages.extend(entries[before..].iter().map(|cost| format!("New best: {:.2}", cost)));
        check_messages(&ctx, &messages)?;
        before = entries.len();
    }
    if before > 0 {
        obs.nontrivial();
    }
    Ok(())
}

fn decomposed_part() -> Part {
    part(
        "decomposed",
        "a solution was reported",
        40,
        800,
        || {
            ga_strategy(2, 10)
                .prop_map(|mut case| {
                    case.knobs.init = case.knobs.init.min(3);
                    case.knobs.restart = 6;
                    case.knobs.max_iter = 1 + case.knobs.max_iter % 3;
                    case
                })
                .boxed()
        },
        decomposed_test,
    )
    .cpu(200)
    .shrink(40)
}

// --- the program ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConsoleCase {
    ga: GaCase,
    /// What the environment asks for: nothing, or a level of detail.
    level: u8,
}

fn program_test(case: &ConsoleCase, obs: &mut Obs) -> Check {
    let inst = &case.ga.inst;
    let dir = cli::Dir::new("log");
    let mut config = case.ga.knobs.config();
    config.round_distances = inst.rounded;
    config.precompute_distance_size_limit = if inst.precompute { 10_000 } else { 0 };
    config.log_interval = 1;
    dir.write("config.yml", &(serde_yaml::to_string(&config).map_err(|e| e.to_string())? + "\n"));
    dir.write("in.vrp", &cli::cvrplib(inst));
    let level = ["", "info", "debug", "error", "off"][case.level as usize % 5];
    let env: Vec<(String, String)> = if level.is_empty() { vec![] } else { vec![("RUST_LOG".into(), level.into())] };
    let run = cli::run(&dir.0, &["in.vrp".into(), "-o".into(), "out.sol".into()], &env, 120);
    ensure!(run.ok(), "the program ended with {:?}: {}", run.code, run.tail());
    let lines: Vec<(log::Level, String)> = run.stderr.lines().map(|l| (log::Level::Info, l.to_string())).collect();
    let progress = lines.iter().filter(|l| numbers(&l.1).is_some()).count();
    let reported = bests(&lines)?;
    let quiet = level == "error" || level == "off";
    if quiet {
        ensure!(run.stderr.is_empty() && run.stdout.is_empty(), "asked for {:?}, it says {:?} {:?}", level, run.stderr, run.stdout);
    } else {
        ensure!(run.stdout.is_empty(), "it writes {:?}", run.stdout);
        ensure!((progress > 0) == (level == "debug"), "{} lines on the progress at level {:?}", progress, level);
        ensure!(reported.windows(2).all(|w| w[1] < w[0]), "reported {:?}", reported);
        let text = std::fs::read_to_string(dir.path("out.sol")).map_err(|e| e.to_string())?;
        match reported.last() {
            None => ensure!(text.trim().is_empty(), "nothing was reported, the file holds {:?}", text),
            Some(cost) => {
                let (routes, _) = crate::p_cli::read_solution(&text)?;
                let real: f64 = routes.iter().map(|r| route_dist(inst, r)).sum();
                ensure!(close(real, *cost), "the solution costs {}, the last line says {}", real, cost);
            }
        }
    }
    if !reported.is_empty() {
        obs.nontrivial();
    }
    obs.class(match level {
        "" => "no level asked",
        "debug" => "debug",
        "info" => "info",
        _ => "silent",
    });
    Ok(())
}

fn program_part() -> Part {
    part(
        "program",
        "a solution was reported on the console",
        60,
        1200,
        || {
            (ga_strategy(2, 20), any::<u8>())
                .prop_map(|(mut ga, level)| {
                    ga.knobs.init = ga.knobs.init.clamp(1, 6);
                    ga.knobs.max_iter = ga.knobs.max_iter.max(1);
                    ConsoleCase { ga, level }
                })
                .boxed()
        },
        program_test,
    )
    .cpu(200)
    .shrink(40)
}

//! C34 what is damaged or incomplete is refused.

use crate::cli;
use crate::engine::{part, splitmix, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::p_cli::{parse, text_strategy, write_instance, Dice, TextCase};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C34", parts: vec![damaged_part(), edits_part(), program_part()] }]
}

/// What a line of an instance file is for.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Header,
    Title,
    Coord,
    Demand,
    Weights,
    Other,
}

fn words(line: &str) -> Vec<&str> {
    line.split(|c: char| c == ' ' || c == '\t' || c == ':' || c == '\r').filter(|w| !w.is_empty()).collect()
}

/// The lines something is read from; the file is whole.
fn kinds(lines: &[String], explicit: bool) -> Vec<Kind> {
    let mut section = Kind::Other;
    lines
        .iter()
        .map(|l| {
            let w = words(l);
            match w.first().copied() {
                None => Kind::Other,
                Some("DIMENSION") | Some("CAPACITY") | Some("EDGE_WEIGHT_TYPE") => Kind::Header,
                Some("EDGE_WEIGHT_FORMAT") if explicit => Kind::Header,
                Some("NODE_COORD_SECTION") => {
                    section = Kind::Coord;
                    Kind::Title
                }
                Some("DEMAND_SECTION") => {
                    section = Kind::Demand;
                    Kind::Title
                }
                Some("EDGE_WEIGHT_SECTION") if explicit => {
                    section = Kind::Weights;
                    Kind::Title
                }
                Some(w) if w.parse::<f64>().is_ok() => section,
                Some(_) => {
                    section = Kind::Other;
                    Kind::Other
                }
            }
        })
        .collect()
}

const NO_NUMBERS: [&str; 24] = ["nan", "NaN", "inf", "-inf", "infinity", "1e999", "-1e400", "+inf", "x", "1,5", "--3", "12abc", "0x10", "1.2.3", "ten", "1e", "$4", "1/2", "+-1", "(3)", "1'000", "0b1", "*", "4-"];

/// One way of damaging the file; what was done, or nothing when it does not apply.
fn damage(text: &str, inst: &Inst, seed: u64) -> Option<(String, &'static str)> {
    let end = if text.contains("\r\n") { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = text.split(end).map(String::from).collect();
    let kind = kinds(&lines, inst.matrix.is_some());
    let mut d = Dice(seed);
    let at = |d: &mut Dice, wanted: &[Kind]| -> Option<usize> {
        let all: Vec<usize> = (0..lines.len()).filter(|&i| wanted.contains(&kind[i])).collect();
        if all.is_empty() {
            None
        } else {
            Some(all[d.roll(all.len() as u64) as usize])
        }
    };
    let data = [Kind::Coord, Kind::Demand, Kind::Weights];
    let what = match d.roll(10) {
        8 => {
            // Another depot than the first node, or one more.
            let i = (0..lines.len()).find(|&i| words(&lines[i]).first() == Some(&"DEPOT_SECTION"))?;
            let other = 2 + d.roll(inst.dim() as u64 - 1);
            if d.roll(2) == 0 {
                lines[i + 1] = other.to_string();
            } else {
                lines.insert(i + 2, other.to_string());
            }
            "another depot"
        }
        0 | 1 => {
            // The file breaks off before the last line that is needed.
            let needed = (0..lines.len()).rev().find(|&i| kind[i] != Kind::Other)?;
            let cut = if d.roll(2) == 0 { needed } else { d.roll(needed as u64 + 1) as usize };
            lines.truncate(cut);
            "broken off"
        }
        2 => {
            let i = at(&mut d, &[Kind::Header, Kind::Title, Kind::Coord, Kind::Demand, Kind::Weights])?;
            lines.remove(i);
            if matches!(kind[i], Kind::Header | Kind::Title) { "header missing" } else { "line missing" }
        }
        3 => {
            // A line twice.
            let i = at(&mut d, &data)?;
            let l = lines[i].clone();
            lines.insert(i, l);
            "line twice"
        }
        4 => {
            // A dimension that does not fit.
            let i = at(&mut d, &[Kind::Header]).and_then(|_| (0..lines.len()).find(|&i| kind[i] == Kind::Header && words(&lines[i])[0] == "DIMENSION"))?;
            let n = inst.dim() as i64;
            let wrong = [n - 1, n + 1, n + 2, n + 1000, 2 * n, n / 2, n - 2, 0][d.roll(8) as usize];
            if wrong == n || wrong < 2 && wrong != 0 {
                return None;
            }
            lines[i] = format!("DIMENSION : {}", wrong);
            "wrong dimension"
        }
        5 | 6 => {
            // Something else in place of a number.
            let mut wanted = data.to_vec();
            wanted.push(Kind::Header);
            let i = at(&mut d, &wanted)?;
            let mut w: Vec<String> = words(&lines[i]).into_iter().map(String::from).collect();
            let k = match kind[i] {
                Kind::Header if w[0] == "DIMENSION" || w[0] == "CAPACITY" => 1,
                Kind::Header => return None,
                Kind::Coord => 1 + d.roll(2) as usize,
                Kind::Demand => 1,
                _ => d.roll(w.len() as u64) as usize,
            };
            w[k] = NO_NUMBERS[d.roll(NO_NUMBERS.len() as u64) as usize].to_string();
            lines[i] = w.join(" ");
            "no number"
        }
        7 => {
            // An entry less.
            let mut wanted = data.to_vec();
            wanted.push(Kind::Header);
            let i = at(&mut d, &wanted)?;
            let mut w: Vec<String> = words(&lines[i]).into_iter().map(String::from).collect();
            let k = d.roll(w.len() as u64) as usize;
            w.remove(if kind[i] == Kind::Header { w.len() - 1 } else { k });
            lines[i] = w.join(" ");
            "entry missing"
        }
        _ => {
            // A distance too many.
            let i = at(&mut d, &[Kind::Weights])?;
            lines[i].push_str(" 17");
            "distance too many"
        }
    };
    Some((lines.join(end), what))
}

fn refused(text: &str, what: &str) -> Check {
    let dir = cli::Dir::new("broken");
    let path = dir.write("in.vrp", text);
    if let Ok(p) = catch_unwind(AssertUnwindSafe(|| parse(&path, true))) {
        return Err(format!("{}: a damaged file was read as {:?} with matrix {:?}: {:?}", what, p.problem, p.matrix, text));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DamageCase {
    text: TextCase,
    damage: u64,
}

fn damaged_test(case: &DamageCase, obs: &mut Obs) -> Check {
    let text = write_instance(&case.text);
    let mut seed = case.damage;
    let (broken, what) = loop {
        if let Some(b) = damage(&text, &case.text.inst, seed) {
            break b;
        }
        seed = splitmix(seed);
    };
    obs.nontrivial();
    obs.class(what);
    obs.class_if(case.text.inst.matrix.is_some(), "explicit distances");
    refused(&broken, what)
}

fn damage_strategy(max: usize) -> BoxedStrategy<DamageCase> {
    (text_strategy(max), any::<u64>()).prop_map(|(text, damage)| DamageCase { text, damage }).boxed()
}

fn damaged_part() -> Part {
    part("damaged", "always", 3000, 60_000, || damage_strategy(10), damaged_test)
}

// Edits of single characters and lines, judged by a reader that takes the rules by the letter.

enum Verdict {
    Whole(Box<(usize, f64, Vec<(f64, f64, f64)>, Option<Vec<Vec<f64>>>)>),
    Broken(&'static str),
    /// Neither clearly one nor the other.
    Open,
}

fn judge(text: &str) -> Verdict {
    let lines: Vec<Vec<&str>> = text.lines().map(|l| l.split(|c: char| c == ' ' || c == '\t' || c == ':').filter(|w| !w.is_empty()).collect()).collect();
    let numeric = |w: &str| w.parse::<f64>().map_or(false, |x| x.is_finite());
    // Keys may not come twice, and a header has one value.
    let find = |key: &str| -> Vec<usize> { (0..lines.len()).filter(|&i| lines[i].first() == Some(&key)).collect() };
    let header = |key: &str| -> Result<&str, Verdict> {
        match find(key)[..] {
            [] => Err(Verdict::Broken("header missing")),
            [i] if lines[i].len() == 2 => Ok(lines[i][1]),
            [i] if lines[i].len() == 1 => Err(Verdict::Broken("value missing")),
            _ => Err(Verdict::Open),
        }
    };
    let inner = || -> Result<Verdict, Verdict> {
        let n = header("DIMENSION")?.parse::<usize>().map_err(|_| Verdict::Broken("no dimension"))?;
        if n < 2 {
            return Err(Verdict::Open);
        }
        let cap = header("CAPACITY")?;
        if !numeric(cap) {
            return Err(Verdict::Broken("no capacity"));
        }
        let explicit = match header("EDGE_WEIGHT_TYPE")? {
            "EUC_2D" => false,
            "EXPLICIT" => true,
            _ => return Err(Verdict::Broken("type")),
        };
        if explicit && header("EDGE_WEIGHT_FORMAT")? != "LOWER_ROW" {
            return Err(Verdict::Broken("format"));
        }
        let rows = |key: &str, width: usize| -> Result<Vec<Vec<f64>>, Verdict> {
            let at = match find(key)[..] {
                [] => return Err(Verdict::Broken("section missing")),
                [i] => i,
                _ => return Err(Verdict::Open),
            };
            let mut rows = Vec::new();
            for (k, l) in lines[at + 1..].iter().enumerate() {
                if !l.first().map_or(false, |w| w.parse::<f64>().is_ok()) {
                    break;
                }
                if l.len() < width {
                    return Err(Verdict::Broken("entry missing"));
                }
                // Numbers of nodes out of order, or entries too many: open.
                if l.len() > width || l[0].parse::<usize>() != Ok(k + 1) {
                    return Err(Verdict::Open);
                }
                let values: Result<Vec<f64>, _> = l.iter().map(|w| w.parse::<f64>()).collect();
                match values {
                    Err(_) => return Err(Verdict::Broken("no number")),
                    Ok(v) if v.iter().all(|x| x.is_finite()) => rows.push(v),
                    Ok(_) => return Err(Verdict::Broken("no number")),
                }
            }
            if rows.len() != n {
                return Err(Verdict::Broken("lines"));
            }
            Ok(rows)
        };
        // Nothing is said of what else may stand in place of the depot.
        let depot = find("DEPOT_SECTION");
        for &i in &depot {
            let listed: Vec<&&str> = lines[i + 1..].iter().flatten().take_while(|w| numeric(w) && **w != "-1").collect();
            if depot.len() > 1 || listed.len() > 1 || listed.iter().any(|w| **w != "1") {
                return Err(Verdict::Open);
            }
        }
        let coords = rows("NODE_COORD_SECTION", 3);
        let demands = rows("DEMAND_SECTION", 2);
        let matrix = if explicit {
            let at = match find("EDGE_WEIGHT_SECTION")[..] {
                [] => return Err(Verdict::Broken("section missing")),
                [i] => i,
                _ => return Err(Verdict::Open),
            };
            let all: Vec<&str> = lines[at + 1..].iter().flatten().copied().take_while(|w| w.parse::<f64>().is_ok()).collect();
            if all.iter().any(|w| !numeric(w)) {
                return Err(Verdict::Broken("no number"));
            }
            if all.len() != n * (n - 1) / 2 {
                return Err(Verdict::Broken("distances"));
            }
            let mut next = all.into_iter().map(|w| w.parse::<f64>().unwrap());
            Some((1..n).map(|i| (0..i).map(|_| next.next().unwrap()).collect()).collect())
        } else {
            None
        };
        // Open in one section leaves nothing to say of the whole, unless another is broken for certain.
        let (coords, demands) = match (coords, demands) {
            (Err(Verdict::Broken(b)), _) | (_, Err(Verdict::Broken(b))) => return Err(Verdict::Broken(b)),
            (Ok(c), Ok(d)) => (c, d),
            _ => return Err(Verdict::Open),
        };
        let nodes = (0..n).map(|i| (coords[i][1], coords[i][2], demands[i][1])).collect();
        Ok(Verdict::Whole(Box::new((n, cap.parse().unwrap(), nodes, matrix))))
    };
    inner().unwrap_or_else(|v| v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EditCase {
    text: TextCase,
    edits: Vec<(u8, u16, u16)>,
}

fn edit(text: &str, edits: &[(u8, u16, u16)]) -> String {
    const INSERTS: [&str; 16] = ["\n", " ", "-", "1", ".", "e", ":", "\t", "x", "\r", "0", "9", "EOF\n", "DEMAND_SECTION\n", "CAPACITY : 9\n", "2 3 4\n"];
    let mut s: Vec<char> = text.chars().collect();
    for &(kind, a, b) in edits {
        if s.is_empty() {
            break;
        }
        let i = a as usize % s.len();
        match kind % 6 {
            0 => {
                s.remove(i);
            }
            1 | 2 => {
                let new: Vec<char> = INSERTS[b as usize % INSERTS.len()].chars().collect();
                s.splice(i..i, new);
            }
            3 => {
                let j = (i + 1 + b as usize % 12).min(s.len());
                s.drain(i..j);
            }
            4 => s.truncate(i + 1),
            _ => {
                // Two lines change places.
                let text: String = s.iter().collect();
                let mut lines: Vec<&str> = text.split('\n').collect();
                let (i, j) = (a as usize % lines.len(), b as usize % lines.len());
                lines.swap(i, j);
                s = lines.join("\n").chars().collect();
            }
        }
    }
    s.into_iter().collect()
}

fn edits_test(case: &EditCase, obs: &mut Obs) -> Check {
    let text = edit(&write_instance(&case.text), &case.edits);
    match judge(&text) {
        Verdict::Open => obs.class("open"),
        Verdict::Broken(why) => {
            obs.nontrivial();
            obs.class("broken");
            refused(&text, why)?;
        }
        Verdict::Whole(want) => {
            obs.nontrivial();
            obs.class("whole");
            let (n, cap, nodes, matrix) = *want;
            let dir = cli::Dir::new("whole");
            let path = dir.write("in.vrp", &text);
            let parser = match catch_unwind(AssertUnwindSafe(|| parse(&path, true))) {
                Ok(p) => p,
                Err(_) => return Err(format!("a whole file was refused: {:?}", text)),
            };
            let problem = parser.problem.ok_or("no problem was read")?;
            ensure!(problem.dim() == n, "{} nodes read, {} stated in {:?}", problem.dim(), n, text);
            ensure!(problem.vehicle.cap == cap, "capacity {} read, {} stated in {:?}", problem.vehicle.cap, cap, text);
            for (i, (node, want)) in problem.nodes.iter().zip(&nodes).enumerate() {
                ensure!((node.coord.lng, node.coord.lat, node.demand) == *want, "node {} read as {:?}, stated as {:?} in {:?}", i + 1, node, want, text);
            }
            ensure!(parser.matrix == matrix, "matrix read as {:?}, stated as {:?} in {:?}", parser.matrix, matrix, text);
        }
    }
    Ok(())
}

fn edits_part() -> Part {
    part(
        "edits",
        "the file is clearly whole or clearly broken by the letter of the rules",
        4000,
        80_000,
        || (text_strategy(6), proptest::collection::vec((any::<u8>(), any::<u16>(), any::<u16>()), 1..4)).prop_map(|(text, edits)| EditCase { text, edits }).boxed(),
        edits_test,
    )
}

// The program as a whole.

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProgramCase {
    text: TextCase,
    damage: u64,
    pick: u8,
}

const BEFORE: &str = "Route #1: 2 1\nCost 17\n";

fn program_test(case: &ProgramCase, obs: &mut Obs) -> Check {
    let dir = cli::Dir::new("refused");
    let mut text = case.text.clone();
    text.inst.cap = text.inst.cap.max(text.inst.total_demand());
    let whole = write_instance(&text);
    dir.write("config.yml", "deterministic: true\nmax_iterations: 3\ninitial_individuals: 4\nmin_population_size: 3\npopulation_lambda: 4\ntime_limit: 20\n");
    dir.write("output.sol", BEFORE);
    dir.write("in.vrp", &whole);
    let list = |args: &[&str]| args.iter().map(|a| a.to_string()).collect::<Vec<_>>();
    let mut what = "damaged instance";
    let args = match case.pick % 6 {
        0 | 1 => {
            let mut seed = case.damage;
            let (broken, how) = loop {
                if let Some(b) = damage(&whole, &text.inst, seed) {
                    break b;
                }
                seed = splitmix(seed);
            };
            what = how;
            dir.write("in.vrp", &broken);
            list(&["in.vrp"])
        }
        2 => {
            what = "no such file";
            list(&[["none.vrp", "in.vr", "in.vrp/in.vrp", "sub/in.vrp", ""][case.damage as usize % 5]])
        }
        3 => {
            what = "folder";
            std::fs::create_dir_all(dir.path("sub")).map_err(|e| e.to_string())?;
            list(&[["sub", ".", "sub/", "./sub"][case.damage as usize % 4]])
        }
        4 => {
            what = "arguments";
            let wrong: [&[&str]; 24] = [
                &[],
                &["in.vrp", "in.vrp"],
                &["in.vrp", "-z"],
                &["in.vrp", "--unknown"],
                &["in.vrp", "-t", "soon"],
                &["in.vrp", "-t", "1.5"],
                &["in.vrp", "-t=-5"],
                &["in.vrp", "-t", ""],
                &["in.vrp", "-t"],
                &["in.vrp", "-i", "many"],
                &["in.vrp", "-i", "3.0"],
                &["in.vrp", "-i=-1"],
                &["in.vrp", "-i"],
                &["in.vrp", "-r", "yes"],
                &["in.vrp", "-r", "1"],
                &["in.vrp", "-r", "True"],
                &["in.vrp", "-r"],
                &["in.vrp", "-r", ""],
                &["in.vrp", "-o"],
                &["-t", "5"],
                &["in.vrp", "-t", "5s"],
                &["in.vrp", "-i", "99999999999999999999999"],
                &["in.vrp", "-t", "5", "-t", "x"],
                &["-r", "true"],
            ];
            list(wrong[case.damage as usize % wrong.len()])
        }
        _ => {
            what = "cannot be written";
            std::fs::create_dir_all(dir.path("sub")).map_err(|e| e.to_string())?;
            list(&["in.vrp", "-o", ["none/out.sol", "sub", "in.vrp/out.sol", "."][case.damage as usize % 4]])
        }
    };
    let run = cli::run(&dir.0, &args, &[], 90);
    ensure!(run.code.is_some(), "{}: {:?} did not end within 90 seconds (its time limit is 20)", what, args);
    ensure!(!run.ok(), "{}: {:?} ended without an error: {}; the output holds {:?}; the file {:?}", what, args, run.tail(), std::fs::read_to_string(dir.path("output.sol")), std::fs::read_to_string(dir.path("in.vrp")));
    let after = std::fs::read_to_string(dir.path("output.sol")).unwrap_or_default();
    ensure!(after == BEFORE, "{}: {:?} ended with an error, yet the solution file was changed to {:?}", what, args, after);
    ensure!(!run.stderr.trim().is_empty(), "{}: {:?} ended with {:?} and no word", what, args, run.code);
    ensure!(!run.stderr.contains("New best:") || what == "cannot be written", "{}: {:?} found a solution", what, args);
    obs.nontrivial();
    obs.class(what);
    Ok(())
}

fn program_part() -> Part {
    part(
        "program",
        "always",
        150,
        3000,
        || (text_strategy(8), any::<u64>(), any::<u8>()).prop_map(|(text, damage, pick)| ProgramCase { text, damage, pick }).boxed(),
        program_test,
    )
    .cpu(200)
    .shrink(40)
}

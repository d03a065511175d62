//! C03 the solution file, C04 instance files, C20 the layers of the configuration.

use crate::cli;
use crate::engine::{part, splitmix, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use hybridcvrp::config::Config;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::{write_solution_file, ProblemParser};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_yaml::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C03", parts: vec![file_part(), file_huge(), program_file_part(), program_file_huge()] },
        Prop { id: "C04", parts: vec![read_part(), read_huge(), refuse_part(), shipped_part()] },
        Prop { id: "C20", parts: vec![layers_part(), wrong_part(), arguments_part()] },
    ]
}

// --- C03 -------------------------------------------------------------------------------------

/// Reads a CVRPLIB solution: routes in order of their numbers and the cost line.
pub fn read_solution(text: &str) -> Result<(Vec<Vec<usize>>, String), String> {
    ensure!(text.ends_with('\n'), "no line end at the end of {:?}", text);
    let lines: Vec<&str> = text.lines().collect();
    let (last, rest) = lines.split_last().ok_or("empty file")?;
    let cost = last.strip_prefix("Cost ").ok_or(format!("last line {:?}", last))?;
    let mut routes = Vec::new();
    for (i, l) in rest.iter().enumerate() {
        let head = format!("Route #{}: ", i + 1);
        let stops = l.strip_prefix(&head).ok_or(format!("line {} is {:?}, should start with {:?}", i + 1, l, head))?;
        let mut route = Vec::new();
        for s in stops.split(' ') {
            route.push(s.parse::<usize>().map_err(|_| format!("stop {:?} in line {:?}", s, l))?);
        }
        routes.push(route);
    }
    Ok((routes, cost.to_string()))
}

/// The cost line may go either way if the cost is on the edge of rounding.
pub fn cost_line_fits(line: &str, cost: f64) -> bool {
    let noise = 1e-9 * cost.abs().max(1.0);
    [cost, cost - noise, cost + noise].iter().any(|c| format!("{}", c.round() as u64) == line)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    inst: Inst,
    raws: Vec<RawRoutes>,
    old: u16,
    path: u8,
}

fn file_test(case: &FileCase, obs: &mut Obs) -> Check {
    let dir = cli::Dir::new("file");
    let ctx = case.inst.default_context(1);
    let n = case.inst.customers();
    let path = dir.path("out.sol");
    // Whatever was there before: nothing, something short, something longer than any solution.
    let old = match case.old % 4 {
        0 => None,
        1 => Some("x".to_string()),
        _ => Some("Route #1: 1 2 3\n".repeat(10 + case.old as usize % 300)),
    };
    if let Some(old) = &old {
        dir.write("out.sol", old);
    }
    let configured = case.path % 5 != 0;
    ctx.config.borrow_mut().solution_path = if configured { Some(path.to_string_lossy().to_string()) } else { None };
    let mut last: Option<Vec<Vec<usize>>> = None;
    for raw in &case.raws {
        let routes = raw.routes(n, fleet(&ctx));
        let ind = individual(&ctx, &routes);
        ctx.search_history.borrow_mut().add(&ctx, &ind);
        last = Some(routes);
    }
    write_solution_file(&ctx);
    let got = std::fs::read_to_string(&path).ok();
    let others = std::fs::read_dir(&dir.0).unwrap().filter(|e| e.as_ref().unwrap().file_name() != "out.sol").count();
    ensure!(others == 0, "other files were written");
    if !configured {
        ensure!(got == old, "no path is configured, yet the file holds {:?}", got);
        obs.class("no path configured");
        return Ok(());
    }
    let got = got.ok_or("no file was written")?;
    match last {
        None => {
            ensure!(got.is_empty(), "no solution was found, the file holds {:?}", got);
            obs.class("no solution");
        }
        Some(routes) => {
            let cost = ctx.search_history.borrow().last_entry().unwrap().solution.cost;
            let (read, line) = read_solution(&got)?;
            let wanted: Vec<Vec<usize>> = routes.into_iter().filter(|r| !r.is_empty()).collect();
            ensure!(read == wanted, "the file holds {:?}, the solution is {:?}", read, wanted);
            ensure!(format!("{}", cost.round() as u64) == line, "cost {} is written as {:?}", cost, line);
            obs.nontrivial();
            obs.class_if(old.is_some(), "file existed");
            obs.class_if(cost.fract() != 0.0, "cost with a fraction");
        }
    }
    // Writing again changes nothing.
    write_solution_file(&ctx);
    ensure!(std::fs::read_to_string(&path).ok() == Some(got), "writing twice differs");
    Ok(())
}

fn file_huge() -> Part {
    part(
        "file-huge",
        "a solution was written",
        60,
        1_500,
        || {
            (inst(SMALL.customers(100, 1200)), vec(raw_routes(1200), 1..3), any::<u16>(), any::<u8>())
                .prop_map(|(mut inst, raws, old, path)| {
                    // Hundreds of routes now and then.
                    if path % 2 == 0 {
                        inst.cap = inst.max_demand().max(inst.total_demand() / (20.0 + old as f64 % 400.0)).ceil().max(1.0);
                    }
                    FileCase { inst, raws, old, path }
                })
                .boxed()
        },
        file_test,
    )
    .shrink(60)
}

fn file_part() -> Part {
    part(
        "file",
        "a solution was written",
        1500,
        40_000,
        || {
            (inst(SMALL.customers(1, 20)), vec(raw_routes(20), 0..4), any::<u16>(), any::<u8>())
                .prop_map(|(inst, raws, old, path)| FileCase { inst, raws, old, path })
                .boxed()
        },
        file_test,
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProgramCase {
    inst: Inst,
    knobs: Knobs,
    decompose: bool,
    old: u16,
    where_to: u8,
}

fn program_file_test(case: &ProgramCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let dir = cli::Dir::new("prog");
    let mut config = case.knobs.config();
    if case.decompose {
        config.decompose_limit = 1;
        config.max_iterations = Some(config.max_iterations.unwrap_or(0).min(1));
    }
    config.round_distances = inst.rounded;
    config.precompute_distance_size_limit = if inst.precompute { 10_000 } else { 0 };
    let by_argument = case.where_to % 2 == 0;
    let name = ["out.sol", "deep/er/result.txt", "with space.sol"][case.where_to as usize % 3];
    std::fs::create_dir_all(dir.path("deep/er")).unwrap();
    config.solution_path = if by_argument { None } else { Some(name.to_string()) };
    dir.write("config.yml", &(serde_yaml::to_string(&config).map_err(|e| e.to_string())? + "\n"));
    dir.write("in.vrp", &cli::cvrplib(inst));
    if case.old % 2 == 0 {
        dir.write(name, &"Route #1: 7 7 7\nCost 3\n".repeat(1 + case.old as usize % 500));
    }
    let mut args = vec!["in.vrp".to_string()];
    if by_argument {
        args.extend(["-o".to_string(), name.to_string()]);
    }
    let run = cli::run(&dir.0, &args, &[], 120);
    ensure!(run.ok(), "the program ended with {:?}: {}", run.code, run.tail());
    let got = std::fs::read_to_string(dir.path(name)).map_err(|e| format!("no solution file: {}", e))?;
    let reported: Vec<f64> = run.stderr.lines().filter_map(|l| l.split("New best: ").nth(1)).map(|c| c.trim().parse().unwrap_or(f64::NAN)).collect();
    match reported.last() {
        None => {
            ensure!(got.is_empty(), "no solution was reported, the file holds {:?}", got);
            obs.class("no solution");
        }
        Some(&cost) => {
            let (routes, line) = read_solution(&got)?;
            check_feasible(inst, &routes)?;
            let real: f64 = routes.iter().map(|r| route_dist(inst, r)).sum();
            ensure!(close(real, cost), "the routes in the file cost {}, the last report says {}", real, cost);
            ensure!(cost_line_fits(&line, real), "cost {} is written as {:?}", real, line);
            obs.nontrivial();
            obs.class_if(reported.len() > 1, "more than one report");
        }
    }
    obs.class_if(case.decompose, "decomposed");
    obs.class(if by_argument { "path as an argument" } else { "path in the configuration file" });
    Ok(())
}

fn program_file_part() -> Part {
    part(
        "program",
        "a solution was written",
        100,
        2500,
        || {
            (inst(SMALL.customers(2, 25).oversize(12)), knobs(), 0u32..10, any::<u16>(), any::<u8>())
                .prop_map(|(inst, mut knobs, decompose, old, where_to)| {
                    let decompose = decompose == 0 && inst.customers() <= 10;
                    knobs.init = knobs.init.min(6);
                    ProgramCase { inst, knobs, decompose, old, where_to }
                })
                .boxed()
        },
        program_file_test,
    )
    .cpu(200)
    .shrink(40)
}

fn program_file_huge() -> Part {
    part(
        "program-huge",
        "a solution was written",
        5,
        120,
        || {
            (inst(SMALL.customers(100, 220)), knobs(), any::<u16>(), any::<u8>())
                .prop_map(|(inst, mut knobs, old, where_to)| {
                    knobs.init = knobs.init.min(3);
                    knobs.max_iter = knobs.max_iter.min(3);
                    knobs.elite_gamma = knobs.elite_gamma.min(2.0);
                    knobs.rr_gamma = knobs.rr_gamma.min(1.0);
                    ProgramCase { inst, knobs, decompose: false, old, where_to }
                })
                .boxed()
        },
        program_file_test,
    )
    .cpu(250)
    .shrink(20)
}

// --- C04 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase {
    pub inst: Inst,
    pub style: u64,
    pub order: Vec<u16>,
    pub comment: u8,
    pub wrong: u8,
}

/// A stream of small choices.
pub struct Dice(pub u64);
impl Dice {
    pub fn roll(&mut self, n: u64) -> u64 {
        self.0 = splitmix(self.0);
        (self.0 >> 11) % n
    }
    /// Blanks of some kind.
    fn gap(&mut self) -> &'static str {
        ["\t", "  ", " \t ", " ", " ", " "][self.roll(6) as usize]
    }
    fn edge(&mut self) -> &'static str {
        ["", "", "", " ", "\t", "   "][self.roll(6) as usize]
    }
    fn colon(&mut self) -> &'static str {
        [" : ", ": ", ":", " :", "\t:\t", "   :  "][self.roll(6) as usize]
    }
    /// A way of writing exactly this number.
    fn number(&mut self, x: f64) -> String {
        let plain = format!("{}", x);
        let text = match self.roll(12) {
            0 => format!("{:e}", x),
            1 => format!("{:E}", x),
            2 if x.fract() == 0.0 => format!("{:.1}", x),
            3 if x.fract() == 0.0 => format!("{:.5}", x),
            4 if x.fract() == 0.0 => format!("{}.", x),
            5 if x >= 0.0 => format!("+{}", x),
            6 if x >= 0.0 => format!("00{}", x),
            7 if plain.starts_with("0.") => plain[1..].to_string(),
            8 => format!("{}e0", plain),
            9 if x.fract() == 0.0 && x.abs() < 1e6 => format!("{}e-2", x * 100.0),
            _ => plain.clone(),
        };
        // Only if it really is the same number.
        if text.parse::<f64>() == Ok(x) {
            text
        } else {
            plain
        }
    }
}

const COMMENTS: [&str; 9] = [
    "(Uchoa et al, Min no of trucks: 25, Optimal value: 27591)",
    "DIMENSION : 3 CAPACITY : 7",
    "",
    "Christofides, Mingozzi & Toth: \"no comment\"",
    "NODE_COORD_SECTION DEMAND_SECTION 1 2 3",
    "Größe: 100 km – Île",
    "EDGE_WEIGHT_TYPE : EXPLICIT EOF",
    ":::: 1 2 3",
    "Régnier, Zürich",
];

/// The instance as a file, written in the style of the case.
pub fn write_instance(case: &TextCase) -> String {
    let inst = &case.inst;
    let mut d = Dice(case.style);
    let n = inst.dim();
    // Most files are consistent in style; some mix everything.
    let plain_numbers = d.roll(3) == 0;
    let mut num = |d: &mut Dice, x: f64| if plain_numbers { format!("{}", x) } else { d.number(x) };
    let mut headers: Vec<(String, String)> = vec![
        ("NAME".into(), format!("gen-n{}-k{}", n, d.roll(9))),
        ("COMMENT".into(), COMMENTS[case.comment as usize % COMMENTS.len()].into()),
        ("TYPE".into(), "CVRP".into()),
        ("DIMENSION".into(), n.to_string()),
        ("CAPACITY".into(), num(&mut d, inst.cap)),
    ];
    if inst.matrix.is_some() {
        headers.push(("EDGE_WEIGHT_TYPE".into(), "EXPLICIT".into()));
        headers.push(("EDGE_WEIGHT_FORMAT".into(), "LOWER_ROW".into()));
    } else {
        headers.push(("EDGE_WEIGHT_TYPE".into(), "EUC_2D".into()));
        if d.roll(6) == 0 {
            // Without meaning for a coordinate-based file.
            headers.push(("EDGE_WEIGHT_FORMAT".into(), "FUNCTION".into()));
        }
    }
    if d.roll(3) == 0 {
        headers.push(("NODE_COORD_TYPE".into(), "TWOD_COORDS".into()));
        headers.push(("VEHICLES".into(), "7".into()));
    }
    if d.roll(4) == 0 {
        headers.push(("COMMENT".into(), COMMENTS[(case.comment as usize / 8) % COMMENTS.len()].into()));
    }
    let mut blocks: Vec<Vec<String>> = headers.iter().map(|(k, v)| vec![format!("{}{}{}{}{}", d.edge(), k, d.colon(), v, d.edge())]).collect();
    let header_count = blocks.len();
    let mut sections: Vec<Vec<String>> = Vec::new();
    let title = |d: &mut Dice, name: &str| format!("{}{}{}", d.edge(), name, ["", "", " ", "\t", " :"][d.roll(5) as usize]);
    let mut coords = vec![title(&mut d, "NODE_COORD_SECTION")];
    let mut demands = vec![title(&mut d, "DEMAND_SECTION")];
    for (i, node) in inst.nodes.iter().enumerate() {
        let (x, y, q) = (num(&mut d, node.0), num(&mut d, node.1), num(&mut d, node.2));
        coords.push(format!("{}{}{}{}{}{}{}", d.edge(), i + 1, d.gap(), x, d.gap(), y, d.edge()));
        demands.push(format!("{}{}{}{}{}", d.edge(), i + 1, d.gap(), q, d.edge()));
    }
    sections.push(coords);
    sections.push(demands);
    sections.push(vec![title(&mut d, "DEPOT_SECTION"), format!("{}1{}", d.edge(), d.edge()), "-1".into()]);
    if let Some(rows) = &inst.matrix {
        let mut lines = vec![title(&mut d, "EDGE_WEIGHT_SECTION")];
        for row in rows {
            let mut l = d.edge().to_string();
            for (j, x) in row.iter().enumerate() {
                if j > 0 {
                    l.push_str(d.gap());
                }
                l.push_str(&num(&mut d, *x));
            }
            lines.push(l);
        }
        if WRAPPED && d.roll(4) == 0 {
            // The same entries in lines of another length.
            let all: Vec<String> = lines[1..].iter().flat_map(|l| l.split_whitespace().map(String::from).collect::<Vec<_>>()).collect();
            let width = 1 + d.roll(12) as usize;
            lines.truncate(1);
            lines.extend(all.chunks(width).map(|c| c.join(" ")));
        }
        sections.push(lines);
    }
    // Order: as usual, headers shuffled, sections shuffled, or everything shuffled.
    let order = |k: usize| case.order[k % case.order.len()];
    let mode = d.roll(4);
    let mut keyed: Vec<((u32, u16, usize), Vec<String>)> = Vec::new();
    for (k, b) in blocks.drain(..).enumerate() {
        let key = if mode == 1 || mode == 3 { order(k) } else { 0 };
        keyed.push(((0, key, k), b));
    }
    for (k, s) in sections.into_iter().enumerate() {
        let class = if mode == 3 { 0 } else { 1 };
        let key = if mode == 2 || mode == 3 { order(header_count + k) } else { 0 };
        keyed.push(((class, key, header_count + k), s));
    }
    keyed.sort_by(|a, b| a.0.cmp(&b.0));
    let blank_lines = d.roll(4) == 0;
    let mut lines: Vec<String> = Vec::new();
    for (_, b) in keyed {
        lines.extend(b);
        if blank_lines {
            lines.push(d.edge().to_string());
        }
    }
    if d.roll(4) != 0 {
        lines.push("EOF".into());
    }
    let end = if d.roll(3) == 0 { "\r\n" } else { "\n" };
    let mut text = lines.join(end);
    if d.roll(4) != 0 {
        text.push_str(end);
        if d.roll(3) == 0 {
            text.push_str(end);
        }
    }
    text
}

const WRAPPED: bool = true;

pub fn parse(path: &std::path::Path, rounded: bool) -> ProblemParser {
    let mut config = Config::default();
    config.instance_path = path.to_string_lossy().to_string();
    config.round_distances = rounded;
    let mut parser = ProblemParser::new();
    parser.parse(&mut config);
    parser
}

/// What was read is exactly the instance.
fn check_read(inst: &Inst, parser: ProblemParser) -> Check {
    let problem = parser.problem.as_ref().ok_or("no problem was read")?;
    ensure!(problem.dim() == inst.dim(), "{} nodes read, {} stated", problem.dim(), inst.dim());
    ensure!(problem.vehicle.cap == inst.cap, "capacity {} read, {} stated", problem.vehicle.cap, inst.cap);
    for (i, node) in problem.nodes.iter().enumerate() {
        let want = inst.nodes[i];
        ensure!(node.id == i + 1, "node {} has number {}", i, node.id);
        ensure!(node.coord.lng == want.0 && node.coord.lat == want.1 && node.demand == want.2, "node {} read as {:?}, stated as {:?}", i + 1, node, want);
    }
    ensure!(parser.matrix.is_some() == inst.matrix.is_some(), "a matrix was {}", if parser.matrix.is_some() { "made up" } else { "lost" });
    if let (Some(got), Some(want)) = (&parser.matrix, &inst.matrix) {
        ensure!(got == want, "matrix read as {:?}, stated as {:?}", got, want);
    }
    let mut config = Config::default();
    config.round_distances = inst.rounded;
    config.deterministic = true;
    let ctx = Context::new(parser, config, Instant::now());
    let dim = inst.dim();
    let step = 1 + dim / 60;
    for i in (0..dim).step_by(step) {
        for j in (0..dim).step_by(step) {
            let (a, b) = (ctx.matrix_provider.distance.get(i, j), inst.dist(i, j));
            ensure!((a - b).abs() <= 1e-9 * b.abs().max(1.0) || inst.rounded && (inst.raw_dist(i, j).fract() - 0.5).abs() < 1e-6, "distance {}-{} is {}, should be {}", i + 1, j + 1, a, b);
        }
    }
    Ok(())
}

fn read_test(case: &TextCase, obs: &mut Obs) -> Check {
    let dir = cli::Dir::new("read");
    let text = write_instance(case);
    let path = dir.write("in.vrp", &text);
    if case.style % 3 == 0 && text.chars().all(|c| (c as u32) < 256) {
        // Comments need not be in UTF-8.
        let bytes: Vec<u8> = text.chars().map(|c| c as u32 as u8).collect();
        obs.class_if(bytes != text.as_bytes(), "Latin-1");
        std::fs::write(&path, bytes).map_err(|e| e.to_string())?;
    }
    check_read(&case.inst, parse(&path, case.inst.rounded)).map_err(|e| format!("{} in {:?}", e, text))?;
    obs.nontrivial();
    obs.class_if(case.inst.matrix.is_some(), "explicit distances");
    obs.class_if(text.contains('\r'), "Windows line ends");
    obs.class_if(text.contains('\t'), "tabs");
    obs.class_if(case.inst.nodes.iter().any(|n| n.2.fract() != 0.0), "fractional demands");
    Ok(())
}

pub fn text_strategy(max: usize) -> BoxedStrategy<TextCase> {
    (inst(SMALL.customers(2, max).oversize(10)), any::<u64>(), vec(any::<u16>(), 16), any::<u8>(), any::<u8>(), 0u32..4)
        .prop_map(|(mut inst, style, order, comment, wrong, expl)| {
            if expl == 0 && inst.matrix.is_none() {
                let rows = (1..inst.dim()).map(|i| (0..i).map(|j| (splitmix(style ^ (i * 1000 + j) as u64) % 9000) as f64 / if style % 2 == 0 { 1.0 } else { 16.0 }).collect()).collect();
                inst.matrix = Some(rows);
            }
            if style % 5 == 0 {
                inst.cap += 0.5;
            }
            TextCase { inst, style, order, comment, wrong }
        })
        .boxed()
}

fn read_part() -> Part {
    part("read", "always", 3000, 60_000, || text_strategy(14), read_test)
}

/// Files another rule would be needed for.
fn refuse_test(case: &TextCase, obs: &mut Obs) -> Check {
    let dir = cli::Dir::new("refuse");
    let text = write_instance(case);
    let explicit = case.inst.matrix.is_some();
    let types = ["CEIL_2D", "GEO", "ATT", "EUC_3D", "MAN_2D", "MAX_2D", "XRAY1", "SPECIAL", "euc_2d", "EUC_2DX", "UC_2D", "FLOOR_2D", "EXPLICITLY", "0"];
    let formats = ["FULL_MATRIX", "UPPER_ROW", "LOWER_DIAG_ROW", "UPPER_DIAG_ROW", "LOWER_COL", "UPPER_COL", "FUNCTION", "lower_row", "LOWER_ROWS"];
    let w = case.wrong as usize;
    let (from, to) = if explicit && w % 2 == 0 {
        ("LOWER_ROW", formats[(w / 2) % formats.len()])
    } else {
        (if explicit { "EXPLICIT" } else { "EUC_2D" }, types[(w / 2) % types.len()])
    };
    // Only the header, not a comment that mentions it.
    let mut done = 0;
    let wrong: Vec<String> = text
        .split('\n')
        .map(|l| {
            let key = if from == "LOWER_ROW" { "EDGE_WEIGHT_FORMAT" } else { "EDGE_WEIGHT_TYPE" };
            if l.trim_start().starts_with(key) {
                done += 1;
                l.replace(from, to)
            } else {
                l.to_string()
            }
        })
        .collect();
    ensure!(done == 1, "generator: {} header lines in {:?}", done, text);
    let path = dir.write("in.vrp", &wrong.join("\n"));
    let result = catch_unwind(AssertUnwindSafe(|| parse(&path, true)));
    if let Ok(p) = result {
        return Err(format!("a file of {} was read as {:?} with matrix {:?}", to, p.problem, p.matrix));
    }
    obs.nontrivial();
    obs.class(to);
    Ok(())
}

fn read_huge() -> Part {
    part("read-huge", "always", 40, 1_000, || text_strategy(1500), read_test).shrink(60).cpu(60)
}

fn refuse_part() -> Part {
    part("refuse", "always", 500, 8000, || text_strategy(8), refuse_test)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ShippedCase {
    pick: u16,
}

/// A reader of its own for the instances that come with the solver.
fn shipped_test(case: &ShippedCase, obs: &mut Obs) -> Check {
    let mut files: Vec<std::path::PathBuf> = std::fs::read_dir("/repo/instances").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.retain(|f| std::fs::metadata(f).map_or(false, |m| m.len() < 300_000));
    files.sort();
    if files.is_empty() {
        return Ok(());
    }
    let file = &files[case.pick as usize % files.len()];
    let text = String::from_utf8_lossy(&std::fs::read(file).map_err(|e| e.to_string())?).to_string();
    let words: Vec<Vec<&str>> = text.lines().map(|l| l.split(|c: char| c.is_whitespace() || c == ':').filter(|w| !w.is_empty()).collect()).collect();
    let header = |key: &str| words.iter().find(|w| w.first() == Some(&key)).and_then(|w| w.get(1)).copied();
    let n: usize = header("DIMENSION").and_then(|d| d.parse().ok()).ok_or("no dimension")?;
    let section = |key: &str| -> Vec<f64> {
        let at = match words.iter().position(|w| w.first() == Some(&key)) {
            Some(at) => at,
            None => return Vec::new(),
        };
        words[at + 1..].iter().take_while(|w| w.first().map_or(true, |w| w.parse::<f64>().is_ok())).flatten().filter_map(|w| w.parse().ok()).collect()
    };
    let coords = section("NODE_COORD_SECTION");
    let demands = section("DEMAND_SECTION");
    let weights = section("EDGE_WEIGHT_SECTION");
    ensure!(coords.len() == 3 * n && demands.len() == 2 * n, "cannot read {}: {} coordinates, {} demands", file.display(), coords.len(), demands.len());
    let matrix = match header("EDGE_WEIGHT_TYPE") {
        Some("EXPLICIT") => {
            let mut at = 0;
            Some((1..n).map(|i| { at += i; weights[at - i..at].to_vec() }).collect())
        }
        _ => None,
    };
    let inst = Inst {
        nodes: (0..n).map(|i| (coords[3 * i + 1], coords[3 * i + 2], demands[2 * i + 1])).collect(),
        cap: header("CAPACITY").and_then(|c| c.parse().ok()).ok_or("no capacity")?,
        rounded: case.pick % 2 == 0,
        precompute: true,
        matrix,
    };
    check_read(&inst, parse(file, inst.rounded)).map_err(|e| format!("{}: {}", file.display(), e))?;
    obs.nontrivial();
    obs.class_if(inst.matrix.is_some(), "explicit distances");
    Ok(())
}

fn shipped_part() -> Part {
    part("shipped", "the repository has instances", 60, 400, || any::<u16>().prop_map(|pick| ShippedCase { pick }).boxed(), shipped_test)
}

// --- C20 -------------------------------------------------------------------------------------

/// The defaults: name, kind and value.
const DEFAULTS: &str = "\
instance_path str ''
solution_path ostr 'output.sol'
time_limit int 60
bks real .inf
max_iterations oint ~
max_iterations_without_improvement int 20000
num_vehicles int 1000000
log_interval int 100
precompute_distance_size_limit int 2000
round_distances bool true
decompose_limit int 3000
decomposed_problem_min_size int 200
deterministic bool false
seed int 1
min_population_size int 25
initial_individuals int 100
population_lambda int 40
num_elites int 4
num_diversity_closest int 5
feasibility_proportion_target real 0.2
tournament_size int 2
repair_probability real 0.5
split_capacity_factor real 1.5
linear_split bool true
local_search_granularity int 20
dynamic_granularity bool false
granularity_min int 10
ls_enabled bool true
relocate_single bool true
relocate_double bool true
relocate_double_reverse bool false
swap_one_with_one bool true
swap_two_with_one bool true
swap_two_with_two bool true
two_opt_intra_reverse bool true
two_opt_inter_reverse bool true
two_opt_inter bool true
swap_star bool true
penalty_capacity real 100.0
penalty_update_interval int 10
penalty_inc_multiplier real 1.2
penalty_dec_multiplier real 0.85
average_ruin_cardinality int 10
max_ruin_string_length int 10
rr_mutation bool true
rr_probability real 1.0
rr_gamma real 1.0
rr_final_temp real 1.0
rr_start_temp real 10.0
rr_diversify bool true
elite_education bool false
elite_education_problem_size_limit int 1
elite_education_gamma real 1000.0
elite_education_final_temp real 1.0
elite_education_start_temp real 50.0
elite_education_time_based bool false
elite_education_time_fraction real 0.02";

fn defaults() -> Vec<(&'static str, &'static str, Value)> {
    DEFAULTS
        .lines()
        .map(|l| {
            let mut w = l.splitn(3, ' ');
            let (k, t, v) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap());
            (k, t, serde_yaml::from_str(v).unwrap())
        })
        .collect()
}

fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(_), Value::Number(_)) => match (a.as_u64(), b.as_u64()) {
            (Some(x), Some(y)) => x == y,
            _ => a.as_f64() == b.as_f64(),
        },
        _ => a == b,
    }
}

fn check_config(config: &Config, want: &[(&'static str, &'static str, Value)]) -> Check {
    let got = serde_yaml::to_value(config).map_err(|e| e.to_string())?;
    let map = got.as_mapping().ok_or("configuration is no mapping")?;
    for (key, _, value) in want {
        let g = map.get(&Value::from(*key)).ok_or(format!("the configuration has no {}", key))?;
        ensure!(same_value(g, value), "{} is {:?}, should be {:?}", key, g, value);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LayerCase {
    /// Key and raw value for each entry of each file.
    files: Vec<Vec<(u16, u64)>>,
    style: u64,
    wrong: (u16, u8),
}

/// A value of the kind and the way it is written.
fn yaml_value(kind: &str, raw: u64, d: &mut Dice) -> (Value, String) {
    match kind {
        "bool" => {
            let b = raw % 2 == 0;
            (Value::from(b), if b { "true" } else { "false" }.to_string())
        }
        "int" | "oint" => {
            if kind == "oint" && raw % 4 == 0 {
                return (Value::Null, ["~", "null", ""][d.roll(3) as usize].to_string());
            }
            let x = match raw % 5 {
                0 => raw >> 1,
                1 => 0,
                _ => raw % 100_000,
            };
            (Value::from(x), x.to_string())
        }
        "real" => {
            let x = match raw % 4 {
                0 => (raw % 1000) as f64,
                1 => (raw % 100_000) as f64 / 1000.0,
                2 => 0.0,
                _ => (raw % 777) as f64 * 1e-7,
            };
            let text = if x.fract() == 0.0 && d.roll(2) == 0 { format!("{}", x as u64) } else { format!("{:?}", x) };
            (Value::from(x), text)
        }
        _ => {
            if kind == "ostr" && raw % 4 == 0 {
                return (Value::Null, "null".to_string());
            }
            let s = ["a.sol", "some/where/out.sol", "with space.sol", "ünï.sol", "x", "-", "C:\\x.sol", "true", "12"][(raw % 9) as usize];
            let text = if ["true", "12", "-", "C:\\x.sol"].contains(&s) || d.roll(2) == 0 { format!("'{}'", s) } else { s.to_string() };
            (Value::from(s), text)
        }
    }
}

const UNKNOWN: [&str; 9] = ["ruin_alpha: 0.01", "blink_probability: 0.5", "unknown_key: [1, 2, 3]", "Seed: 77", "time_limit2: 5", "nested:\n  time_limit: 3\n  seed: 9", "penalty: {capacity: 3}", "7: 8", "time limit: 4"];

fn yaml_file(entries: &[(u16, u64)], want: &mut [(&'static str, &'static str, Value)], d: &mut Dice) -> (String, usize) {
    let mut lines: Vec<String> = Vec::new();
    let mut used: Vec<usize> = Vec::new();
    for &(k, raw) in entries {
        let k = k as usize % (want.len() + 12);
        if k >= want.len() {
            let u = UNKNOWN[(raw % UNKNOWN.len() as u64) as usize];
            if !lines.iter().any(|l| l == u) {
                lines.push(u.to_string());
            }
            continue;
        }
        if used.contains(&k) {
            continue;
        }
        used.push(k);
        let (value, text) = yaml_value(want[k].1, raw, d);
        lines.push(format!("{}:{}{}{}", want[k].0, ["  ", " "][d.roll(2) as usize], text, ["", "", " # comment: 3", "  "][d.roll(4) as usize]));
        want[k].2 = value;
        if d.roll(5) == 0 {
            lines.push(["", "# seed: 99", "####"][d.roll(3) as usize].to_string());
        }
    }
    if used.is_empty() && !lines.iter().any(|l| l.contains(": ")) {
        lines.push("unused: 1".into());
    }
    let mut text = lines.join("\n");
    if d.roll(4) == 0 {
        text = format!("---\n{}", text);
    }
    text.push('\n');
    (text, used.len())
}

fn layers_test(case: &LayerCase, obs: &mut Obs) -> Check {
    let dir = cli::Dir::new("conf");
    let mut d = Dice(case.style);
    let mut want = defaults();
    check_config(&Config::default(), &want).map_err(|e| format!("default: {}", e))?;
    // Every field is in the table.
    let all = serde_yaml::to_value(Config::default()).map_err(|e| e.to_string())?;
    let known = all.as_mapping().map_or(0, |m| m.iter().filter(|(k, _)| want.iter().any(|w| Some(w.0) == k.as_str())).count());
    ensure!(known == want.len(), "{} of {} fields known", known, want.len());
    let mut config = Config::default();
    let mut keys = 0;
    for (i, entries) in case.files.iter().enumerate() {
        let (text, used) = yaml_file(entries, &mut want, &mut d);
        keys += used;
        let path = dir.write(&format!("c{}.yml", i), &text);
        if i == 0 {
            config = Config::load_yaml_file(&path.to_string_lossy());
        } else if d.roll(2) == 0 {
            config.update_from_yaml_file(&path.to_string_lossy());
        } else {
            config.update(&serde_yaml::from_str(&text).map_err(|e| format!("generator: {} in {:?}", e, text))?);
        }
        check_config(&config, &want).map_err(|e| format!("after file {}: {} from {:?}", i, e, text))?;
    }
    if keys >= 2 {
        obs.nontrivial();
    }
    obs.class_if(case.files.len() > 1, "more than one file");
    obs.count("keys given", keys as u64);
    config.reset();
    check_config(&config, &defaults()).map_err(|e| format!("after reset: {}", e))
}

fn layer_strategy() -> BoxedStrategy<LayerCase> {
    (vec(vec((any::<u16>(), any::<u64>()), 0..12), 1..4), any::<u64>(), (any::<u16>(), any::<u8>())).prop_map(|(files, style, wrong)| LayerCase { files, style, wrong }).boxed()
}

fn layers_part() -> Part {
    part("layers", "two or more known keys are given", 1500, 40_000, layer_strategy, layers_test)
}

fn wrong_test(case: &LayerCase, obs: &mut Obs) -> Check {
    let dir = cli::Dir::new("wrong");
    let mut d = Dice(case.style);
    let mut want = defaults();
    let pick = case.wrong.0 as usize % want.len();
    let (key, kind, _) = want[pick].clone();
    let bad: &[&str] = match kind {
        "bool" => &["1", "0", "maybe", "'true'", "[true]", "~", "0.0", "{a: 1}"],
        "int" => &["-1", "1.5", "true", "'5'", "five", "~", "[1]", "{a: 1}", "99999999999999999999999"],
        "oint" => &["-1", "1.5", "true", "'5'", "five", "[1]", "{a: 1}"],
        "real" => &["true", "'1.5'", "much", "~", "[1.0]", "{a: 1}"],
        "str" => &["5", "true", "~", "[a]", "{a: 1}"],
        _ => &["5", "true", "[a]", "{a: 1}"],
    };
    let text = if case.wrong.1 % 5 == 0 {
        ["- 1\n- 2\n", "just text\n", "42\n", "[time_limit, 5]\n", "true\n"][case.wrong.0 as usize % 5].to_string()
    } else {
        // Right entries around the wrong one.
        let mut entries = case.files[0].clone();
        entries.retain(|e| e.0 as usize % (want.len() + 12) != pick);
        let (text, _) = yaml_file(&entries, &mut want, &mut d);
        format!("{}{}: {}\n", text, key, bad[case.wrong.1 as usize % bad.len()])
    };
    let path = dir.write("config.yml", &text);
    let result = catch_unwind(AssertUnwindSafe(|| Config::load_yaml_file(&path.to_string_lossy())));
    ensure!(result.is_err(), "{:?} was taken, {} is {:?}", text, key, serde_yaml::to_value(result.ok()).ok().and_then(|v| v.get(key).cloned()));
    obs.nontrivial();
    obs.class(kind);
    Ok(())
}

fn wrong_part() -> Part {
    part("wrong", "always", 1000, 20_000, layer_strategy, wrong_test)
}

// Arguments, as the program itself acts on them.

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArgCase {
    inst: Inst,
    /// In the file: rounding, limits, path.
    file: (Option<bool>, Option<bool>, Option<u8>, Option<bool>),
    /// On the command line.
    args: (Option<bool>, Option<bool>, Option<u8>, Option<bool>),
    order: u8,
    long_file: bool,
}

fn arguments_test(case: &ArgCase, obs: &mut Obs) -> Check {
    const GENERATIONS: u64 = 24;
    let dir = cli::Dir::new("args");
    let mut file = format!("deterministic: true\nmax_iterations: {}\nlog_interval: 1\ninitial_individuals: 4\nmin_population_size: 3\npopulation_lambda: 4\n", GENERATIONS);
    let limit = |short: bool| if short { 0u64 } else { 50_000 };
    let path = |first: bool| if first { "a.sol" } else { "b.sol" };
    if let Some(r) = case.file.0 {
        file.push_str(&format!("round_distances: {}\n", r));
    }
    if let Some(t) = case.file.1 {
        file.push_str(&format!("time_limit: {}\n", limit(t)));
    }
    if let Some(i) = case.file.2 {
        file.push_str(&format!("max_iterations_without_improvement: {}\n", i % 6));
    }
    if let Some(o) = case.file.3 {
        file.push_str(&format!("solution_path: {}\n", path(o)));
    }
    dir.write("config.yml", &file);
    dir.write("in.vrp", &cli::cvrplib(&case.inst));
    let mut groups: Vec<Vec<String>> = vec![vec!["in.vrp".into()]];
    if let Some(r) = case.args.0 {
        groups.push(vec!["-r".into(), r.to_string()]);
    }
    if let Some(t) = case.args.1 {
        groups.push(vec!["-t".into(), limit(t).to_string()]);
    }
    if let Some(i) = case.args.2 {
        groups.push(vec!["-i".into(), (i % 6).to_string()]);
    }
    if let Some(o) = case.args.3 {
        groups.push(vec!["-o".into(), path(!o).to_string()]);
    }
    let turn = case.order as usize % groups.len();
    groups.rotate_left(turn);
    let args: Vec<String> = groups.into_iter().flatten().collect();
    let run = cli::run(&dir.0, &args, &[("RUST_LOG".into(), "debug".into())], 120);
    ensure!(run.ok(), "{:?} ended with {:?}: {}", args, run.code, run.tail());

    // What should hold.
    let rounded = case.args.0.or(case.file.0).unwrap_or(true);
    let at_once = case.args.1.or(case.file.1).unwrap_or(false);
    let restart = case.args.2.or(case.file.2).map(|i| i as u64 % 6);
    let out = case.args.3.map(|o| path(!o)).or(case.file.3.map(path)).unwrap_or("output.sol");

    let given = format!("arguments {:?}, file {:?}", args, file);
    let mut solutions: Vec<String> = std::fs::read_dir(&dir.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).filter(|f| f.ends_with(".sol")).collect();
    solutions.sort();
    ensure!(solutions == [out.to_string()], "{:?} was written instead of {} with {}", solutions, out, given);
    let text = std::fs::read_to_string(dir.path(out)).map_err(|e| e.to_string())?;
    // One generation per line: its number and those since the last improvement.
    let generations: Vec<(u64, u64)> = run
        .stderr
        .lines()
        .filter_map(|l| l.split("| Iter:").nth(1))
        .map(|l| {
            let mut w = l.split_whitespace().map(|w| w.parse::<u64>().unwrap_or(u64::MAX));
            (w.next().unwrap_or(u64::MAX), w.next().unwrap_or(u64::MAX))
        })
        .collect();
    if at_once {
        ensure!(text.is_empty() && generations.is_empty(), "no time was given, yet {} generations ran with {}", generations.len(), given);
        obs.class("no time");
    } else {
        ensure!(generations.len() as u64 == GENERATIONS, "{} of {} generations ran with {}", generations.len(), GENERATIONS, given);
        let (routes, line) = read_solution(&text)?;
        let mut inst = case.inst.clone();
        inst.rounded = rounded;
        check_feasible(&inst, &routes)?;
        let real: f64 = routes.iter().map(|r| route_dist(&inst, r)).sum();
        let reported = run.stderr.lines().filter_map(|l| l.split("New best: ").nth(1)).last().and_then(|c| c.trim().parse::<f64>().ok()).ok_or("no report in the log")?;
        ensure!(close(real, reported), "{} rounding the routes cost {}, reported is {} with {}", if rounded { "with" } else { "without" }, real, reported, given);
        ensure!(cost_line_fits(&line, real), "cost {} is written as {}", real, line);
        // The population restarts when more than the limit have passed; the generation that notices is the last of its row.
        // After a restart the count also goes back with the best of the new population, which need not be reported.
        let mut since = 0;
        let mut restarted = false;
        for &(_, s) in &generations {
            ensure!(s <= restart.map_or(u64::MAX, |r| r + 1), "{} generations without improvement and no restart with {}", s, given);
            if let Some(r) = restart {
                restarted |= since > r;
                ensure!(s > 0 || since == 0 || restarted || improved(&run.stderr), "a restart after {} generations with {}", since, given);
            }
            since = s;
        }
        let longest = generations.iter().map(|g| g.1).max().unwrap_or(0);
        match restart {
            None => obs.class("no restart"),
            Some(r) => {
                obs.class_if(longest == r + 1, "restarted");
            }
        }
        let mut other = inst.clone();
        other.rounded = !rounded;
        let theirs: f64 = routes.iter().map(|r| route_dist(&other, r)).sum();
        if (theirs - real).abs() > 1e-3 {
            obs.class("rounding visible");
            obs.nontrivial();
        }
    }
    obs.class_if(case.args.0.is_some() && case.args.0 != case.file.0, "argument for rounding against the file");
    obs.class_if(case.file.0.is_some() && case.args.0.is_none(), "rounding by the file alone");
    obs.class_if(case.file.1.is_some() && case.args.1.is_none(), "time limit by the file alone");
    obs.class_if(case.file.3.is_some() && case.args.3.is_none(), "path by the file alone");
    Ok(())
}

/// More than one report: an improvement may have reset the count.
fn improved(log: &str) -> bool {
    log.matches("New best: ").count() > 1
}

fn arguments_part() -> Part {
    part(
        "arguments",
        "the run takes place and its cost shows the rounding",
        150,
        4000,
        || {
            let opt = || prop_oneof![Just(None), Just(Some(true)), Just(Some(false))];
            let time = || prop_oneof![3 => Just(None), 2 => Just(Some(false)), 1 => Just(Some(true))];
            let count = || prop_oneof![1 => Just(None), 1 => (0u8..6).prop_map(Some)];
            (inst(SMALL.customers(2, 7)), (opt(), time(), count(), opt()), (opt(), time(), count(), opt()), any::<u8>(), any::<bool>())
                .prop_map(|(mut inst, file, args, order, long_file)| {
                    // Every solution within the capacity, so that one is always found.
                    inst.cap = inst.cap.max(inst.total_demand());
                    ArgCase { inst, file, args, order, long_file }
                })
                .boxed()
        },
        arguments_test,
    )
    .cpu(200)
    .shrink(60)
}

//! Generators: instances, configurations, solutions.

use crate::engine::splitmix;
use hybridcvrp::config::Config;
use hybridcvrp::models::{Coordinate, Node, Problem, ProblemBuilder, Vehicle};
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inst {
    /// (x, y, demand); the first node is the depot.
    pub nodes: Vec<(f64, f64, f64)>,
    pub cap: f64,
    pub rounded: bool,
    pub precompute: bool,
    /// Lower rows of an explicit matrix.
    pub matrix: Option<Vec<Vec<f64>>>,
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub min_customers: usize,
    pub max_customers: usize,
    pub explicit: bool,
    pub lazy: bool,
    /// One in `oversize` instances has a customer no vehicle can serve (0: never).
    pub oversize: u32,
    pub fractional: bool,
    pub tiny: bool,
}

pub const SMALL: Shape =
    Shape { min_customers: 2, max_customers: 12, explicit: true, lazy: true, oversize: 0, fractional: true, tiny: true };

impl Shape {
    pub const fn customers(mut self, min: usize, max: usize) -> Self {
        self.min_customers = min;
        self.max_customers = max;
        self
    }
    pub const fn oversize(mut self, one_in: u32) -> Self {
        self.oversize = one_in;
        self
    }
    pub const fn integer(mut self) -> Self {
        self.fractional = false;
        self.tiny = false;
        self
    }
    pub const fn no_explicit(mut self) -> Self {
        self.explicit = false;
        self
    }
    pub const fn no_tiny(mut self) -> Self {
        self.tiny = false;
        self
    }
}

pub fn inst(shape: Shape) -> BoxedStrategy<Inst> {
    let n = (shape.min_customers + 1)..=(shape.max_customers + 1);
    (
        vec((0u32..1001, 0u32..1001, 0u32..1000), n),
        0u32..9,   // geometry
        0u32..8,   // demands
        0u32..1000, // capacity
        any::<bool>(),
        prop_oneof![3 => Just(true), 1 => Just(false)],
        0u32..100, // explicit
        0u32..1000,
        any::<u64>(),
    )
        .prop_map(move |(raw, geo, dem, capr, rounded, precompute, expl, over, pool)| {
            let n = raw.len();
            let geo = match geo {
                3 | 6 if !shape.fractional => 1,
                5 if !shape.tiny => 2,
                g => g,
            };
            let coord = |x: u32, y: u32| -> (f64, f64) {
                let (a, b) = (x as f64, y as f64);
                match geo {
                    0 => ((x % 5) as f64, (y % 5) as f64),
                    1 => ((x % 101) as f64, (y % 101) as f64),
                    2 => (a, b),
                    3 => (a / 7.0, b / 7.0),
                    4 => (a * 997.0, b * 991.0),
                    5 => (a / 1000.0, b / 1000.0),
                    6 => ((x % 41) as f64 * 0.5 - 10.0, (y % 41) as f64 * 0.5 - 10.0),
                    7 => ((x % 101) as f64 - 50.0, 0.0),
                    _ => ((x % 21) as f64 - 10.0, (y % 21) as f64 - 10.0),
                }
            };
            let mut nodes: Vec<(f64, f64, f64)> = Vec::with_capacity(n);
            for (i, &(x, y, q)) in raw.iter().enumerate() {
                let (cx, cy) = coord(x, y);
                let d = match dem {
                    0 => 1.0,
                    1 => 1.0 + (q % 10) as f64,
                    2 => 1.0 + (q % 100) as f64,
                    3 if shape.fractional => 0.25 * (1 + q % 40) as f64,
                    4 => (q % 4) as f64,
                    5 => 6.0 + (q % 5) as f64,
                    // Kilograms: far above one another and above the distances.
                    7 => if q % 3 == 0 { 1000.0 * (1 + q % 50) as f64 } else { 1.0 + (q * 47) as f64 },
                    _ => 1.0 + (q % 20) as f64,
                };
                nodes.push((cx, cy, if i == 0 { 0.0 } else { d }));
            }
            // The depot sits in the middle now and then, so that angles go all the way round.
            if geo == 7 || geo == 8 {
                nodes[0].0 = 0.0;
                nodes[0].1 = 0.0;
            }
            let total: f64 = nodes.iter().map(|n| n.2).sum();
            let max = nodes.iter().map(|n| n.2).fold(0.0, f64::max);
            let vehicles = 1 + (capr as usize) % (n - 1).max(1).min(if capr % 3 == 0 { 64 } else { 6 });
            let mut cap = (total / vehicles as f64).ceil().max(max).max(1.0);
            if dem == 5 && capr % 2 == 0 {
                // Demands above half or a third of the capacity: bin packing bites.
                cap = max.max(10.0) + (capr % 2) as f64;
            }
            if shape.oversize > 0 && over % shape.oversize == 0 {
                cap = (max * 0.75).floor().max(1.0);
            }
            if shape.fractional && capr % 11 == 3 {
                // Room that no customer can fill.
                cap += 0.375;
            }
            let matrix = if shape.explicit && expl < 15 {
                let rows = (1..n)
                    .map(|i| {
                        (0..i)
                            .map(|j| {
                                let r = splitmix(pool ^ ((i as u64) << 20) ^ j as u64);
                                match expl % 4 {
                                    0 => (r % 4) as f64,
                                    1 => (r % 1000) as f64,
                                    2 if shape.fractional => (r % 4000) as f64 / 8.0,
                                    _ => {
                                        let (a, b) = (nodes[i], nodes[j]);
                                        (a.0 - b.0).abs() + (a.1 - b.1).abs()
                                    }
                                }
                            })
                            .collect()
                    })
                    .collect();
                Some(rows)
            } else {
                None
            };
            Inst { nodes, cap, rounded, precompute: precompute || !shape.lazy, matrix }
        })
        .boxed()
}

impl Inst {
    pub fn dim(&self) -> usize {
        self.nodes.len()
    }
    pub fn customers(&self) -> usize {
        self.nodes.len() - 1
    }
    pub fn demand(&self, i: usize) -> f64 {
        self.nodes[i].2
    }
    pub fn total_demand(&self) -> f64 {
        self.nodes.iter().map(|n| n.2).sum()
    }
    pub fn max_demand(&self) -> f64 {
        self.nodes.iter().map(|n| n.2).fold(0.0, f64::max)
    }
    /// Reference distance before rounding.
    pub fn raw_dist(&self, i: usize, j: usize) -> f64 {
        if i == j {
            return 0.0;
        }
        match &self.matrix {
            Some(rows) => {
                let (a, b) = if i > j { (i, j) } else { (j, i) };
                rows[a - 1][b]
            }
            None => {
                let (a, b) = (self.nodes[i], self.nodes[j]);
                let (dx, dy) = (a.0 - b.0, a.1 - b.1);
                (dx * dx + dy * dy).sqrt()
            }
        }
    }
    /// Reference distance.
    pub fn dist(&self, i: usize, j: usize) -> f64 {
        let d = self.raw_dist(i, j);
        if self.rounded {
            d.round()
        } else {
            d
        }
    }
    pub fn problem(&self) -> Problem {
        let nodes = self
            .nodes
            .iter()
            .enumerate()
            .map(|(i, n)| Node { id: i + 1, coord: Coordinate { lng: n.0, lat: n.1 }, demand: n.2 })
            .collect();
        ProblemBuilder::new(nodes, Vehicle { id: 0, cap: self.cap }).build()
    }
    pub fn parser(&self) -> ProblemParser {
        let mut parser = ProblemParser::new();
        parser.problem = Some(self.problem());
        parser.matrix = self.matrix.clone();
        parser
    }
    /// Context under `config`; boxed because the search keeps references to it.
    pub fn context(&self, config: Config) -> Box<Context> {
        let mut config = config;
        config.round_distances = self.rounded;
        config.precompute_distance_size_limit = if self.precompute { 1_000_000 } else { 0 };
        Box::new(Context::new(self.parser(), config, Instant::now()))
    }
    pub fn default_context(&self, seed: u64) -> Box<Context> {
        let mut c = Config::default();
        c.deterministic = true;
        c.seed = seed;
        c.time_limit = 1_000_000;
        self.context(c)
    }
}

/// Knobs of a run. Every field maps to one documented configuration parameter.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Knobs {
    pub seed: u64,
    pub min_pop: u64,
    pub init: u64,
    pub lambda: u64,
    pub elites: u64,
    pub closest: u64,
    pub target: f64,
    pub tournament: u64,
    pub repair: f64,
    pub split_factor: f64,
    pub linear: bool,
    pub granularity: u64,
    pub ls: bool,
    /// Bits: the nine moves in declaration order, then SWAP*.
    pub moves: u32,
    pub pen_interval: u64,
    pub pen_inc: f64,
    pub pen_dec: f64,
    pub ruin_avg: usize,
    pub string_max: usize,
    pub rr: bool,
    pub rr_prob: f64,
    pub rr_gamma: f64,
    pub rr_start: f64,
    pub elite: bool,
    pub elite_limit: usize,
    pub elite_gamma: f64,
    pub elite_start: f64,
    pub restart: u64,
    pub max_iter: u64,
    pub sub_size: u64,
}

impl Knobs {
    pub fn config(&self) -> Config {
        let mut c = Config::default();
        c.deterministic = true;
        c.seed = self.seed;
        c.time_limit = 1_000_000;
        c.max_iterations = Some(self.max_iter);
        c.max_iterations_without_improvement = self.restart;
        c.min_population_size = self.min_pop;
        c.initial_individuals = self.init;
        c.population_lambda = self.lambda;
        c.num_elites = self.elites;
        c.num_diversity_closest = self.closest;
        c.feasibility_proportion_target = self.target;
        c.tournament_size = self.tournament;
        c.repair_probability = self.repair;
        c.split_capacity_factor = self.split_factor;
        c.linear_split = self.linear;
        c.local_search_granularity = self.granularity;
        c.ls_enabled = self.ls;
        set_moves(&mut c, self.moves);
        c.penalty_update_interval = self.pen_interval;
        c.penalty_inc_multiplier = self.pen_inc;
        c.penalty_dec_multiplier = self.pen_dec;
        c.average_ruin_cardinality = self.ruin_avg;
        c.max_ruin_string_length = self.string_max;
        c.rr_mutation = self.rr;
        c.rr_probability = self.rr_prob;
        c.rr_gamma = self.rr_gamma;
        c.rr_start_temp = self.rr_start;
        c.elite_education = self.elite;
        c.elite_education_problem_size_limit = self.elite_limit;
        c.elite_education_gamma = self.elite_gamma;
        c.elite_education_start_temp = self.elite_start;
        c.decomposed_problem_min_size = self.sub_size;
        c
    }
}

pub fn set_moves(c: &mut Config, bits: u32) {
    c.relocate_single = bits & 1 != 0;
    c.relocate_double = bits & 2 != 0;
    c.relocate_double_reverse = bits & 4 != 0;
    c.swap_one_with_one = bits & 8 != 0;
    c.swap_two_with_one = bits & 16 != 0;
    c.swap_two_with_two = bits & 32 != 0;
    c.two_opt_intra_reverse = bits & 64 != 0;
    c.two_opt_inter_reverse = bits & 128 != 0;
    c.two_opt_inter = bits & 256 != 0;
    c.swap_star = bits & 512 != 0;
}

pub const ALL_MOVES: u32 = 1023;
pub const DEFAULT_MOVES: u32 = 1023 & !4;

pub fn moves() -> BoxedStrategy<u32> {
    prop_oneof![4 => Just(DEFAULT_MOVES), 2 => Just(ALL_MOVES), 1 => Just(DEFAULT_MOVES & !512), 3 => 0u32..1024].boxed()
}

pub fn granularity() -> BoxedStrategy<u64> {
    prop_oneof![4 => Just(20u64), 3 => 1u64..8, 1 => 8u64..60, 1 => Just(250u64), 1 => Just(0u64)].boxed()
}

pub fn knobs() -> BoxedStrategy<Knobs> {
    let population = (
        any::<u64>().prop_map(|s| if s % 16 == 0 { s } else { s % 1000 }),
        1u64..12,
        1u64..14,
        1u64..12,
        0u64..8,
        1u64..8,
        0u32..11,
        1u64..5,
        0u32..5,
    );
    let split_ls = (0u32..7, prop_oneof![2 => Just(true), 1 => Just(false)], granularity(), prop_oneof![9 => Just(true), 1 => Just(false)], moves());
    let penalty = (1u64..8, 0u32..6, 0u32..6);
    let rr = (0usize..14, 0usize..12, prop_oneof![3 => Just(true), 1 => Just(false)], 0u32..4, 0u32..9, 0u32..6);
    let elite = (prop_oneof![1 => Just(true), 2 => Just(false)], 0usize..8, 0u32..20, 0u32..5);
    let stop = (prop_oneof![3 => Just(1000u64), 2 => 0u64..12], 0u64..14, prop_oneof![1 => 1u64..12, 1 => Just(200u64)]);
    (population, split_ls, penalty, rr, elite, stop)
        .prop_map(|(p, s, n, r, e, t)| Knobs {
            seed: p.0,
            min_pop: p.1,
            init: p.2,
            lambda: p.3,
            elites: p.4,
            closest: p.5,
            target: p.6 as f64 / 10.0,
            tournament: p.7,
            repair: p.8 as f64 / 4.0,
            split_factor: [1.5, 1.5, 1.0, 1.1, 2.0, 5.0, 100.0][s.0 as usize],
            linear: s.1,
            granularity: s.2,
            ls: s.3,
            moves: s.4,
            pen_interval: n.0,
            pen_inc: [1.2, 1.2, 1.5, 10.0, 1.0, 1.05][n.1 as usize],
            pen_dec: [0.85, 0.85, 0.5, 0.1, 1.0, 0.95][n.2 as usize],
            ruin_avg: r.0,
            string_max: r.1,
            rr: r.2,
            rr_prob: [1.0, 1.0, 0.5, 0.0][r.3 as usize],
            rr_gamma: r.4 as f64 / 2.0,
            rr_start: [0.0, 1.0, 10.0, 10.0, 100.0, 0.1][r.5 as usize],
            elite: e.0,
            elite_limit: e.1,
            elite_gamma: e.2 as f64,
            elite_start: [50.0, 50.0, 1.0, 0.0, 1000.0][e.3 as usize],
            restart: t.0,
            max_iter: t.1,
            sub_size: t.2,
        })
        .boxed()
}

/// Raw material for a set of routes: a sort key and a route choice per customer.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawRoutes {
    pub keys: Vec<(u16, u16)>,
    pub spread: u16,
}

pub fn raw_routes(max_customers: usize) -> BoxedStrategy<RawRoutes> {
    (vec((any::<u16>(), any::<u16>()), max_customers), any::<u16>()).prop_map(|(keys, spread)| RawRoutes { keys, spread }).boxed()
}

/// Numbers of routes: usually a few, and for many customers sometimes many.
pub fn slots(min: usize, end: usize, customers: usize) -> BoxedStrategy<usize> {
    if customers / 2 > end {
        prop_oneof![3 => min..end, 1 => end..customers / 2].boxed()
    } else {
        (min..end).boxed()
    }
}

impl RawRoutes {
    /// Distributes customers 1..=n over at most `slots` routes (some may stay empty).
    pub fn routes(&self, n: usize, slots: usize) -> Vec<Vec<usize>> {
        let mut order: Vec<usize> = (1..=n).collect();
        order.sort_by_key(|&c| (self.keys[(c - 1) % self.keys.len()].0, c));
        let used = 1 + self.spread as usize % slots;
        let offset = (self.spread as usize / 64) % slots;
        let mut routes = vec![Vec::new(); slots];
        for c in order {
            let r = self.keys[(c - 1) % self.keys.len()].1 as usize % used;
            routes[(r + offset) % slots].push(c);
        }
        routes
    }
    pub fn tour(&self, n: usize) -> Vec<usize> {
        let mut order: Vec<usize> = (1..=n).collect();
        order.sort_by_key(|&c| (self.keys[(c - 1) % self.keys.len()].0, c));
        order
    }
}

/// An evaluated individual with exactly these routes.
pub fn individual(ctx: &Context, routes: &[Vec<usize>]) -> Individual {
    let mut ind = Individual::new(routes.iter().flatten().copied().collect(), 0);
    ind.phenotype = routes.to_vec();
    ind.evaluate(ctx);
    ind
}

pub fn fleet(ctx: &Context) -> usize {
    ctx.config.borrow().num_vehicles as usize
}

/// Penalty values worth trying, relative to the instance's scale.
pub fn penalty() -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.0001),
        1 => Just(0.0),
        2 => Just(1.0),
        3 => (1u32..200).prop_map(|p| p as f64 / 4.0),
        2 => (100u32..10_000).prop_map(|p| p as f64),
        1 => Just(1e5),
    ]
    .boxed()
}

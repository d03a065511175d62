//! Reference computations, written from the problem statement and not from the code.

use crate::engine::Check;
use crate::ensure;
use crate::inst::Inst;
use hybridcvrp::solver::genetic::Individual;

/// Feasibility tolerance of the code under test (documented epsilon of its float comparison).
pub const EPS: f64 = 1e-6;

pub fn close(a: f64, b: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= 1e-6 + 1e-9 * a.abs().max(b.abs())
}

/// Equality up to the rounding noise of sums whose terms have magnitude `scale`.
pub fn close_at(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-6 + 1e-9 * a.abs().max(b.abs()).max(scale)
}

pub struct Naive {
    pub dist: Vec<f64>,
    pub overload: Vec<f64>,
    pub cost: Vec<f64>,
    pub total: f64,
    pub total_dist: f64,
    pub feasible: bool,
    pub pred: Vec<usize>,
    pub succ: Vec<usize>,
}

pub fn route_dist(inst: &Inst, route: &[usize]) -> f64 {
    let mut d = 0.0;
    let mut prev = 0;
    for &c in route {
        d += inst.dist(prev, c);
        prev = c;
    }
    d + inst.dist(prev, 0)
}

pub fn load(inst: &Inst, route: &[usize]) -> f64 {
    route.iter().map(|&c| inst.demand(c)).sum()
}

pub fn route_cost(inst: &Inst, penalty: f64, route: &[usize]) -> f64 {
    route_dist(inst, route) + penalty * (load(inst, route) - inst.cap).max(0.0)
}

pub fn total_cost(inst: &Inst, penalty: f64, routes: &[Vec<usize>]) -> f64 {
    routes.iter().map(|r| route_cost(inst, penalty, r)).sum()
}

pub fn evaluate(inst: &Inst, penalty: f64, routes: &[Vec<usize>]) -> Naive {
    let n = inst.dim();
    let mut out = Naive {
        dist: vec![],
        overload: vec![],
        cost: vec![],
        total: 0.0,
        total_dist: 0.0,
        feasible: true,
        pred: vec![usize::MAX; n],
        succ: vec![usize::MAX; n],
    };
    for r in routes {
        let d = route_dist(inst, r);
        let o = load(inst, r) - inst.cap;
        let c = d + penalty * o.max(0.0);
        out.total += c;
        out.total_dist += d;
        if o > EPS {
            out.feasible = false;
        }
        out.dist.push(d);
        out.overload.push(o);
        out.cost.push(c);
        for (i, &c) in r.iter().enumerate() {
            out.pred[c] = if i == 0 { 0 } else { r[i - 1] };
            out.succ[c] = if i + 1 == r.len() { 0 } else { r[i + 1] };
        }
    }
    out
}

/// Every customer 1..=n exactly once and nothing else.
pub fn complete(routes: &[Vec<usize>], n: usize) -> Check {
    let mut seen = vec![0; n + 1];
    for r in routes {
        for &c in r {
            ensure!(c >= 1 && c <= n, "route visits {} which is not a customer (1..={}): {:?}", c, n, routes);
            seen[c] += 1;
        }
    }
    for c in 1..=n {
        ensure!(seen[c] == 1, "customer {} visited {} times in {:?}", c, seen[c], routes);
    }
    Ok(())
}

/// Compares an individual's stored evaluation with a recomputation under `penalty`.
/// With `penalty` None only what does not depend on it is compared.
pub fn check_evaluation(inst: &Inst, penalty: Option<f64>, ind: &Individual) -> Check {
    let naive = evaluate(inst, penalty.unwrap_or(0.0), &ind.phenotype);
    let ev = &ind.evaluation;
    ensure!(ev.routes.len() == ind.phenotype.len(), "evaluation holds {} routes of {}", ev.routes.len(), ind.phenotype.len());
    for i in 0..ind.phenotype.len() {
        ensure!(close_at(ev.routes[i].distance, naive.dist[i], naive.total_dist), "route {} length {} is really {}: {:?}", i, ev.routes[i].distance, naive.dist[i], ind.phenotype);
        ensure!(close(ev.routes[i].overload, naive.overload[i]), "route {} overload {} is really {}: {:?}", i, ev.routes[i].overload, naive.overload[i], ind.phenotype);
        if penalty.is_some() {
            ensure!(close_at(ev.routes[i].penalized_cost, naive.cost[i], naive.total), "route {} cost {} is really {}: {:?}", i, ev.routes[i].penalized_cost, naive.cost[i], ind.phenotype);
        }
    }
    let borderline = naive.overload.iter().any(|&o| (o - EPS).abs() < 1e-9);
    ensure!(borderline || ev.is_feasible() == naive.feasible, "feasible flag {} is really {}: {:?}", ev.is_feasible(), naive.feasible, ind.phenotype);
    if let Some(_) = penalty {
        ensure!(close(ev.penalized_cost, naive.total), "penalised cost {} is really {}: {:?}", ev.penalized_cost, naive.total, ind.phenotype);
    } else if naive.feasible {
        ensure!(close(ev.penalized_cost, naive.total_dist), "cost {} of a feasible solution is really {}: {:?}", ev.penalized_cost, naive.total_dist, ind.phenotype);
    }
    for c in 1..inst.dim() {
        ensure!(ind.predecessor(c) == naive.pred[c], "predecessor of {} is {}, really {}: {:?}", c, ind.predecessor(c), naive.pred[c], ind.phenotype);
        ensure!(ind.successor(c) == naive.succ[c], "successor of {} is {}, really {}: {:?}", c, ind.successor(c), naive.succ[c], ind.phenotype);
    }
    Ok(())
}

/// Complete solution, padded to the fleet, giant tour = concatenated routes.
pub fn check_shape(inst: &Inst, fleet: usize, ind: &Individual) -> Check {
    complete(&ind.phenotype, inst.customers())?;
    ensure!(ind.phenotype.len() == fleet, "{} routes in a fleet of {}", ind.phenotype.len(), fleet);
    let flat: Vec<usize> = ind.phenotype.iter().flatten().copied().collect();
    ensure!(ind.genotype == flat, "giant tour {:?} is not the concatenation of {:?}", ind.genotype, ind.phenotype);
    Ok(())
}

/// Valid CVRP solution.
pub fn check_feasible(inst: &Inst, routes: &[Vec<usize>]) -> Check {
    complete(routes, inst.customers())?;
    for r in routes {
        let l = load(inst, r);
        ensure!(l <= inst.cap + 2.0 * EPS, "route {:?} loads {} over capacity {}", r, l, inst.cap);
    }
    Ok(())
}

/// Minimum penalised cost of cutting `tour` into at most `max_routes` segments, each with load at
/// most `limit`; None if impossible.
pub fn best_split(inst: &Inst, penalty: f64, tour: &[usize], max_routes: usize, limit: f64) -> Option<f64> {
    let n = tour.len();
    let inf = f64::INFINITY;
    let mut cur = vec![inf; n + 1];
    cur[0] = 0.0;
    let mut best = inf;
    let mut seg = vec![vec![inf; n + 1]; n + 1];
    for i in 0..n {
        for j in i + 1..=n {
            let r = &tour[i..j];
            if load(inst, r) <= limit {
                seg[i][j] = route_cost(inst, penalty, r);
            }
        }
    }
    for _ in 0..max_routes.min(n) {
        let mut next = vec![inf; n + 1];
        for i in 0..n {
            if cur[i] < inf {
                for j in i + 1..=n {
                    let c = cur[i] + seg[i][j];
                    if c < next[j] {
                        next[j] = c;
                    }
                }
            }
        }
        best = best.min(next[n]);
        cur = next;
    }
    if best < inf {
        Some(best)
    } else {
        None
    }
}

/// Exact optimum over feasible solutions by dynamic programming over subsets (n <= 12).
/// Returns (cost, fewest vehicles); None if some customer fits no vehicle.
pub fn exact(inst: &Inst) -> Option<(f64, usize)> {
    let n = inst.customers();
    let full = 1usize << n;
    let inf = f64::INFINITY;
    let mut loads = vec![0.0; full];
    for s in 1..full {
        let b = s.trailing_zeros() as usize;
        loads[s] = loads[s & (s - 1)] + inst.demand(b + 1);
    }
    let ok = |s: usize| loads[s] <= inst.cap + EPS / 2.0;
    // Held-Karp per subset.
    let mut path = vec![inf; full * n];
    let mut tour = vec![inf; full];
    for s in 1..full {
        if !ok(s) {
            continue;
        }
        for last in 0..n {
            if s >> last & 1 == 0 {
                continue;
            }
            let rest = s & !(1 << last);
            let v = if rest == 0 {
                inst.dist(0, last + 1)
            } else {
                let mut v = inf;
                for p in 0..n {
                    if rest >> p & 1 == 1 {
                        v = f64::min(v, path[rest * n + p] + inst.dist(p + 1, last + 1));
                    }
                }
                v
            };
            path[s * n + last] = v;
            tour[s] = tour[s].min(v + inst.dist(last + 1, 0));
        }
    }
    let mut best = vec![inf; full];
    let mut count = vec![usize::MAX; full];
    best[0] = 0.0;
    count[0] = 0;
    for s in 1..full {
        let low = s & s.wrapping_neg();
        let rest = s & !low;
        let mut sub = rest;
        loop {
            let t = sub | low;
            if tour[t] < inf {
                let r = s & !t;
                if best[r] < inf {
                    best[s] = best[s].min(best[r] + tour[t]);
                    count[s] = count[s].min(count[r] + 1);
                }
            }
            if sub == 0 {
                break;
            }
            sub = (sub - 1) & rest;
        }
    }
    if best[full - 1] < inf {
        Some((best[full - 1], count[full - 1]))
    } else {
        None
    }
}

/// Scale of the numbers in a penalised cost, for tolerances.
pub fn scale(inst: &Inst, penalty: f64) -> f64 {
    let mut m: f64 = 0.0;
    for i in 0..inst.dim() {
        for j in 0..i {
            m = m.max(inst.dist(i, j));
        }
    }
    m * inst.dim() as f64 * 2.0 + penalty * (inst.total_demand() + inst.cap)
}

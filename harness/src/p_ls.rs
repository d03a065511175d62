//! C09 moves, C10 SWAP*, C11 local search contract, C12 local optimality.

use crate::engine::{part, Check, Obs, Part, Prop};
use crate::ensure;
use crate::inst::*;
use crate::oracle::*;
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::improvement::{
    LinkNode, LinkRoute, LocalSearch, Move, RelocateDouble, RelocateDoubleReverse, RelocateSingle, SwapOneWithOne, SwapStar, SwapTwoWithOne,
    SwapTwoWithTwo, TwoOptInter, TwoOptInterReverse, TwoOptIntraReverse,
};
use hybridcvrp::solver::Context;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", parts: vec![moves_small(), moves_large(), moves_huge()] },
        Prop { id: "C10", parts: vec![swap_star_small(), swap_star_large(), swap_star_huge()] },
        Prop { id: "C11", parts: vec![search_small(), search_large(), search_huge(), search_scaled(), search_memory()] },
        Prop { id: "C12", parts: vec![optimum_small(), optimum_large(), optimum_huge(), enabled()] },
    ]
}

type Routes = Vec<Vec<usize>>;

/// Where a customer is inserted or a tail attached: after a customer, or after the depot at the
/// start of a route.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum After {
    Customer(usize),
    Start(usize),
}

const NAMES: [&str; 9] =
    ["RelocateSingle", "RelocateDouble", "RelocateDoubleReverse", "SwapOneWithOne", "SwapTwoWithOne", "SwapTwoWithTwo", "TwoOptIntraReverse", "TwoOptInterReverse", "TwoOptInter"];
/// Moves tried with `v` at the start of a route that has customers.
const DEPOT: [usize; 5] = [0, 1, 2, 7, 8];
/// Moves tried with `v` at the start of an empty route.
const EMPTY: [usize; 4] = [0, 1, 2, 8];

fn the_move(m: usize) -> Box<dyn Move> {
    match m {
        0 => Box::new(RelocateSingle),
        1 => Box::new(RelocateDouble),
        2 => Box::new(RelocateDoubleReverse),
        3 => Box::new(SwapOneWithOne),
        4 => Box::new(SwapTwoWithOne),
        5 => Box::new(SwapTwoWithTwo),
        6 => Box::new(TwoOptIntraReverse),
        7 => Box::new(TwoOptInterReverse),
        _ => Box::new(TwoOptInter),
    }
}

fn locate(routes: &Routes, c: usize) -> (usize, usize) {
    for (r, route) in routes.iter().enumerate() {
        if let Some(i) = route.iter().position(|&x| x == c) {
            return (r, i);
        }
    }
    panic!("customer {} is in no route", c)
}

/// The documented rearrangement, on plain lists; None where the move does not apply.
pub fn reference_move(routes: &Routes, m: usize, u: usize, v: After) -> Option<Routes> {
    let (ru, iu) = locate(routes, u);
    let x = routes[ru].get(iu + 1).copied();
    let (rv, after) = match v {
        After::Customer(v) => {
            let (r, i) = locate(routes, v);
            (r, i as isize)
        }
        After::Start(r) => (r, -1),
    };
    let vn = match v {
        After::Customer(v) => Some(v),
        After::Start(_) => None,
    };
    let y = routes[rv].get((after + 1) as usize).copied();
    let mut out = routes.clone();
    let insert_after = |out: &mut Routes, what: &[usize]| {
        let at = match vn {
            Some(v) => out[rv].iter().position(|&c| c == v).unwrap() + 1,
            None => 0,
        };
        for (k, &c) in what.iter().enumerate() {
            out[rv].insert(at + k, c);
        }
    };
    match m {
        0 => {
            if y == Some(u) || vn == Some(u) {
                return None;
            }
            out[ru].remove(iu);
            insert_after(&mut out, &[u]);
        }
        1 | 2 => {
            let x = x?;
            if y == Some(u) || vn == Some(u) || vn == Some(x) {
                return None;
            }
            out[ru].drain(iu..iu + 2);
            insert_after(&mut out, &if m == 1 { [u, x] } else { [x, u] });
        }
        3 => {
            let v = vn?;
            if y == Some(u) || x == Some(v) || u == v {
                return None;
            }
            out[ru][iu] = v;
            out[rv][after as usize] = u;
        }
        4 => {
            let v = vn?;
            let x = x?;
            if v == u || v == x || y == Some(u) || routes[ru].get(iu + 2) == Some(&v) {
                return None;
            }
            if ru == rv {
                let iv = after as usize;
                let r = &routes[ru];
                let mut n = Vec::new();
                let mut i = 0;
                while i < r.len() {
                    if i == iu {
                        n.push(v);
                        i += 2;
                    } else if i == iv {
                        n.push(u);
                        n.push(x);
                        i += 1;
                    } else {
                        n.push(r[i]);
                        i += 1;
                    }
                }
                out[ru] = n;
            } else {
                out[ru].splice(iu..iu + 2, [v]);
                out[rv].splice(after as usize..after as usize + 1, [u, x]);
            }
        }
        5 => {
            let v = vn?;
            let x = x?;
            let y = y?;
            let iv = after as usize;
            if ru == rv && (iv as isize - iu as isize).abs() <= 2 {
                return None;
            }
            out[ru][iu] = v;
            out[ru][iu + 1] = y;
            out[rv][iv] = u;
            out[rv][iv + 1] = x;
        }
        6 => {
            let v = vn?;
            let iv = after as usize;
            if ru != rv || iu >= iv || x == Some(v) {
                return None;
            }
            out[ru][iu + 1..=iv].reverse();
        }
        7 => {
            if ru == rv {
                return None;
            }
            let k = (after + 1) as usize;
            let mut a: Vec<usize> = routes[ru][..=iu].to_vec();
            a.extend(routes[rv][..k].iter().rev());
            let mut b: Vec<usize> = routes[ru][iu + 1..].iter().rev().copied().collect();
            b.extend(&routes[rv][k..]);
            out[ru] = a;
            out[rv] = b;
        }
        _ => {
            if ru == rv {
                return None;
            }
            let k = (after + 1) as usize;
            let mut a: Vec<usize> = routes[ru][..=iu].to_vec();
            a.extend(&routes[rv][k..]);
            let mut b: Vec<usize> = routes[rv][..k].to_vec();
            b.extend(&routes[ru][iu + 1..]);
            out[ru] = a;
            out[rv] = b;
        }
    }
    Some(out)
}

fn node(ls: &LocalSearch, c: usize) -> *mut LinkNode {
    assert!(c < ls.nodes.len());
    unsafe { ls.nodes.as_ptr().add(c) as *mut LinkNode }
}
fn start(ls: &LocalSearch, r: usize) -> *mut LinkNode {
    assert!(r < ls.start_depots.len());
    unsafe { ls.start_depots.as_ptr().add(r) as *mut LinkNode }
}
fn route_ptr(ls: &LocalSearch, r: usize) -> *mut LinkRoute {
    assert!(r < ls.routes.len());
    unsafe { ls.routes.as_ptr().add(r) as *mut LinkRoute }
}
fn at(ls: &LocalSearch, v: After) -> *mut LinkNode {
    match v {
        After::Customer(c) => node(ls, c),
        After::Start(r) => start(ls, r),
    }
}

fn carry_out(ls: &mut LocalSearch, m: usize, u: usize, v: After) {
    ls.move_count += 1;
    let (u, v) = (node(ls, u), at(ls, v));
    unsafe { the_move(m).perform(ls, u, v) }
}
fn exchange(ls: &mut LocalSearch, r1: usize, r2: usize) -> bool {
    let (r1, r2) = (route_ptr(ls, r1), route_ptr(ls, r2));
    unsafe { SwapStar::run(ls, r1, r2) }
}

/// The routes as linked, with every link checked in both directions.
pub fn read_routes(inst: &Inst, ls: &LocalSearch) -> Result<Routes, String> {
    let n = inst.customers();
    let mut out = Vec::new();
    for r in 0..ls.routes.len() {
        let end = &ls.end_depots[r] as *const LinkNode;
        let mut prev = start(ls, r) as *const LinkNode;
        let mut route = Vec::new();
        unsafe {
            ensure!((*prev).predecessor.is_null(), "start depot of route {} has a predecessor", r);
            loop {
                let next = (*prev).successor as *const LinkNode;
                ensure!(!next.is_null(), "route {} ends after {:?} without its depot", r, route);
                if next == end {
                    break;
                }
                let c = (*next).number;
                ensure!(c >= 1 && c <= n && next == node(ls, c) as *const LinkNode, "route {} reaches a foreign node {} after {:?}", r, c, route);
                ensure!((*next).predecessor as *const LinkNode == prev, "customer {} does not point back to its predecessor in route {}", c, r);
                route.push(c);
                ensure!(route.len() <= n, "route {} is cyclic: {:?}", r, route);
                prev = next;
            }
            ensure!((*end).predecessor as *const LinkNode == prev, "end depot of route {} does not point back", r);
            ensure!((*end).successor.is_null(), "end depot of route {} has a successor", r);
        }
        out.push(route);
    }
    complete(&out, n)?;
    Ok(out)
}

fn sector_of(ctx: &Context, route: &[usize]) -> Option<(i32, i32)> {
    let m = 65536;
    let mut s: Option<(i32, i32)> = None;
    for &c in route {
        let a = ctx.problem.get_angle(c);
        s = Some(match s {
            None => (a, a),
            Some((b, e)) => {
                if (a - b).rem_euclid(m) <= (e - b).rem_euclid(m) {
                    (b, e)
                } else if (a - e).rem_euclid(m) <= (b - a).rem_euclid(m) {
                    (b, a)
                } else {
                    (a, e)
                }
            }
        });
    }
    s
}

/// All cached data equal a recomputation; returns the routes.
pub fn check_state(inst: &Inst, ctx: &Context, ls: &LocalSearch) -> Result<Routes, String> {
    let routes = read_routes(inst, ls)?;
    let s = scale(inst, ls.penalty_capacity);
    for (r, route) in routes.iter().enumerate() {
        let lr = &ls.routes[r];
        ensure!(lr.index == r && lr.start_depot == start(ls, r) && lr.end_depot as *const LinkNode == &ls.end_depots[r], "route {} lost its depots", r);
        let mut d = 0.0;
        let mut l = 0.0;
        let mut prev = 0;
        let first = &ls.start_depots[r];
        ensure!(first.position == 0 && first.route == route_ptr(ls, r), "start depot of route {} misplaced", r);
        ensure!(first.cum_distance == 0.0 && first.cum_load == 0.0, "start depot of route {} carries {} {}", r, first.cum_distance, first.cum_load);
        for (i, &c) in route.iter().enumerate() {
            d += inst.dist(prev, c);
            l += inst.demand(c);
            prev = c;
            let nd = &ls.nodes[c];
            ensure!(nd.route == route_ptr(ls, r), "customer {} points to another route than {}: {:?}", c, r, routes);
            ensure!(nd.position == i + 1, "customer {} at position {} instead of {}", c, nd.position, i + 1);
            ensure!(close_at(nd.cum_distance, d, s) && close_at(nd.cum_load, l, s), "customer {} cumulates {} {} instead of {} {}", c, nd.cum_distance, nd.cum_load, d, l);
        }
        d += inst.dist(prev, 0);
        let last = &ls.end_depots[r];
        ensure!(last.route == route_ptr(ls, r) && last.position == route.len() + 1, "end depot of route {} misplaced", r);
        ensure!(close_at(last.cum_distance, d, s) && close_at(last.cum_load, l, s), "end depot of route {} cumulates {} {}", r, last.cum_distance, last.cum_load);
        ensure!(lr.num_customers == route.len() && lr.is_empty() == route.is_empty(), "route {} counts {} customers of {}", r, lr.num_customers, route.len());
        ensure!(close_at(lr.distance, d, s) && close_at(lr.load, l, s) && close_at(lr.overload, l - inst.cap, s), "route {} holds length {} load {} overload {}, really {} {} {}", r, lr.distance, lr.load, lr.overload, d, l, l - inst.cap);
        ensure!(close_at(lr.cost, d + ls.penalty_capacity * (l - inst.cap).max(0.0), s), "route {} costs {}, really {}", r, lr.cost, d + ls.penalty_capacity * (l - inst.cap).max(0.0));
        ensure!(ls.empty_routes.contains(&r) == route.is_empty(), "route {} {:?} wrong in the set of empty routes", r, route);
        if let Some((b, e)) = sector_of(ctx, route) {
            ensure!((lr.sector.start, lr.sector.end) == (b, e), "route {} {:?} has sector {}..{} instead of {}..{}", r, route, lr.sector.start, lr.sector.end, b, e);
        }
    }
    ensure!(ls.empty_routes.iter().all(|&r| r < routes.len()), "set of empty routes {:?}", ls.empty_routes);
    Ok(routes)
}

// --- C09 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WalkCase {
    inst: Inst,
    start: RawRoutes,
    slots: usize,
    penalty: f64,
    /// move, u, v, kind of v
    ops: Vec<(u8, u16, u16, u8)>,
    probe: bool,
}

fn walk_strategy(min: usize, max: usize, ops: usize, probe: bool) -> BoxedStrategy<WalkCase> {
    (inst(SMALL.customers(min, max)), raw_routes(max), slots(1, 9, max), penalty(), vec((0u8..10, any::<u16>(), any::<u16>(), any::<u8>()), 1..ops))
        .prop_map(move |(inst, start, slots, penalty, ops)| WalkCase { inst, start, slots, penalty, ops, probe })
        .boxed()
}

fn padded(raw: &RawRoutes, n: usize, slots: usize, fleet: usize) -> Routes {
    let mut r = raw.routes(n, slots.min(fleet).max(1));
    r.resize(fleet, Vec::new());
    r
}

/// The places a move is ever tried on.
fn places(routes: &Routes, m: usize, u: usize) -> Vec<After> {
    let mut out: Vec<After> = routes.iter().flatten().filter(|&&v| v != u).map(|&v| After::Customer(v)).collect();
    for (r, route) in routes.iter().enumerate() {
        if (!route.is_empty() && DEPOT.contains(&m)) || (route.is_empty() && EMPTY.contains(&m)) {
            out.push(After::Start(r));
        }
    }
    out
}

fn check_delta(inst: &Inst, ls: &LocalSearch, routes: &Routes, m: usize, u: usize, v: After) -> Result<(f64, Option<Routes>), String> {
    let pen = ls.penalty_capacity;
    let s = scale(inst, pen);
    let mv = the_move(m);
    let delta = unsafe { mv.delta(ls, node(ls, u), at(ls, v)) };
    let reference = reference_move(routes, m, u, v);
    match &reference {
        Some(after) => {
            let touched: f64 = routes.iter().zip(after).filter(|(a, b)| a != b).map(|(a, b)| route_cost(inst, pen, b) - route_cost(inst, pen, a)).sum();
            ensure!(close_at(delta, touched, s), "{} of {} after {:?} in {:?} predicts {}, really {}", NAMES[m], u, v, routes, delta, touched);
        }
        None => {
            ensure!(delta == 0.0, "{} of {} after {:?} in {:?} does not apply but predicts {}", NAMES[m], u, v, routes, delta);
        }
    }
    Ok((delta, reference))
}

fn walk_test(case: &WalkCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let ctx = inst.default_context(1);
    ctx.config.borrow_mut().penalty_capacity = case.penalty;
    let n = inst.customers();
    let mut routes = padded(&case.start, n, case.slots, fleet(&ctx));
    let ind = individual(&ctx, &routes);
    let mut ls = LocalSearch::new(&ctx, 1.0);
    ls.reset();
    ls.load_individual(&ind);
    ensure!(check_state(inst, &ctx, &ls)? == routes, "loading {:?} gives {:?}", routes, read_routes(inst, &ls)?);
    let mut done = 0;
    for &(m, u, v, kind) in &case.ops {
        if case.probe {
            for m in 0..9 {
                for u in 1..=n {
                    for v in places(&routes, m, u) {
                        check_delta(inst, &ls, &routes, m, u, v)?;
                    }
                }
            }
        }
        if m == 9 {
            // SWAP* in between, so that the caches of one serve the other.
            let full: Vec<usize> = (0..routes.len()).filter(|&r| !routes[r].is_empty()).collect();
            if full.len() < 2 {
                continue;
            }
            let i = u as usize % (full.len() - 1);
            let j = i + 1 + v as usize % (full.len() - 1 - i);
            exchange(&mut ls, full[i], full[j]);
            routes = check_state(inst, &ctx, &ls)?;
            continue;
        }
        let m = m as usize;
        let u = 1 + u as usize % n;
        let all = places(&routes, m, u);
        if all.is_empty() {
            continue;
        }
        let starts: Vec<After> = all.iter().copied().filter(|p| matches!(p, After::Start(_))).collect();
        let v = if kind % 4 == 0 && !starts.is_empty() { starts[v as usize % starts.len()] } else { all[v as usize % all.len()] };
        let (delta, reference) = check_delta(inst, &ls, &routes, m, u, v)?;
        obs.class(NAMES[m]);
        if delta == 0.0 {
            continue;
        }
        let want = match reference {
            Some(r) => r,
            None => return Err(format!("{} of {} after {:?} in {:?} does not apply", NAMES[m], u, v, routes)),
        };
        carry_out(&mut ls, m, u, v);
        let got = check_state(inst, &ctx, &ls).map_err(|e| format!("after {} of {} after {:?} in {:?}: {}", NAMES[m], u, v, routes, e))?;
        ensure!(got == want, "{} of {} after {:?} in {:?} gives {:?} instead of {:?}", NAMES[m], u, v, routes, got, want);
        obs.class(&format!("{} done", NAMES[m]));
        obs.class_if(matches!(v, After::Start(r) if routes[r].is_empty()), "into an empty route");
        obs.class_if(matches!(v, After::Start(r) if !routes[r].is_empty()), "at the start of a route");
        obs.class_if(matches!(v, After::Customer(c) if locate(&routes, c).0 == locate(&routes, u).0), "within a route");
        routes = got;
        done += 1;
    }
    if done >= 2 {
        obs.nontrivial();
    }
    Ok(())
}

fn moves_small() -> Part {
    part(
        "walk",
        "random walks of up to 8 moves over all nine neighbourhoods and SWAP*, every (move, u, v) probed before each step; non-trivial: two or more moves carried out",
        12_000,
        400_000,
        || walk_strategy(2, 8, 8, true),
        walk_test,
    )
}
fn moves_large() -> Part {
    part("long-walk", "walks of up to 60 moves on up to 30 customers; non-trivial: two or more moves carried out", 6_000, 200_000, || walk_strategy(8, 30, 60, false), walk_test)
}

fn moves_huge() -> Part {
    part("huge", "walks of up to 40 moves on 100 to 320 customers; non-trivial: two or more moves carried out", 100, 4_000, || walk_strategy(100, 320, 40, false), walk_test).cpu(120).shrink(60)
}

// --- C10 -------------------------------------------------------------------------------------

struct Exchange {
    /// Least cost when borderline filtered pairs are left out / let in.
    strict: f64,
    lenient: f64,
}

fn swap_star_reference(inst: &Inst, pen: f64, r1: &[usize], r2: &[usize], noise: f64) -> Exchange {
    let overload = |l: f64| (l - inst.cap).max(0.0);
    let removal = |r: &[usize], i: usize| {
        let p = if i == 0 { 0 } else { r[i - 1] };
        let s = if i + 1 == r.len() { 0 } else { r[i + 1] };
        inst.dist(p, s) - inst.dist(p, r[i]) - inst.dist(r[i], s)
    };
    let insertion = |r: &[usize], c: usize| {
        let mut best = f64::INFINITY;
        for i in 0..=r.len() {
            let p = if i == 0 { 0 } else { r[i - 1] };
            let s = if i == r.len() { 0 } else { r[i] };
            best = best.min(inst.dist(p, c) + inst.dist(c, s) - inst.dist(p, s));
        }
        best
    };
    let without = |r: &[usize], i: usize| {
        let mut v = r.to_vec();
        v.remove(i);
        v
    };
    let (l1, l2) = (load(inst, r1), load(inst, r2));
    let old = overload(l1) + overload(l2);
    let mut out = Exchange { strict: f64::INFINITY, lenient: f64::INFINITY };
    for (i, &u) in r1.iter().enumerate() {
        for (j, &v) in r2.iter().enumerate() {
            let (du, dv) = (inst.demand(u), inst.demand(v));
            let dp = pen * (overload(l1 - du + dv) + overload(l2 + du - dv) - old);
            let f = removal(r1, i) + removal(r2, j) + dp;
            if f >= EPS + noise {
                continue;
            }
            let cost = f + insertion(&without(r2, j), u) + insertion(&without(r1, i), v);
            out.lenient = out.lenient.min(cost);
            if f < EPS - noise {
                out.strict = out.strict.min(cost);
            }
        }
    }
    for (a, b, la, lb) in [(r1, r2, l1, l2), (r2, r1, l2, l1)] {
        for (i, &u) in a.iter().enumerate() {
            let du = inst.demand(u);
            let cost = removal(a, i) + insertion(b, u) + pen * (overload(la - du) + overload(lb + du) - old);
            out.strict = out.strict.min(cost);
            out.lenient = out.lenient.min(cost);
        }
    }
    out
}

fn noise_of(inst: &Inst, pen: f64) -> f64 {
    1e-9 + 1e-11 * scale(inst, pen)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExchangeCase {
    inst: Inst,
    start: RawRoutes,
    again: RawRoutes,
    slots: usize,
    penalty: f64,
    /// kind, r1 / u, r2 / v
    ops: Vec<(u8, u16, u16)>,
}

fn exchange_strategy(min: usize, max: usize, ops: usize) -> BoxedStrategy<ExchangeCase> {
    (inst(SMALL.customers(min, max)), raw_routes(max), raw_routes(max), slots(2, 7, max), penalty(), vec((0u8..16, any::<u16>(), any::<u16>()), 1..ops))
        .prop_map(|(inst, start, again, slots, penalty, ops)| ExchangeCase { inst, start, again, slots, penalty, ops })
        .boxed()
}

fn exchange_test(case: &ExchangeCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let ctx = inst.default_context(1);
    ctx.config.borrow_mut().penalty_capacity = case.penalty;
    let n = inst.customers();
    let fleet = fleet(&ctx);
    let mut routes = padded(&case.start, n, case.slots, fleet);
    let mut ls = LocalSearch::new(&ctx, 1.0);
    let pen = ls.penalty_capacity;
    let noise = noise_of(inst, pen);
    ls.reset();
    ls.load_individual(&individual(&ctx, &routes));
    for &(kind, a, b) in &case.ops {
        if kind == 15 {
            // A new search on the same object.
            routes = padded(if a % 2 == 0 { &case.start } else { &case.again }, n, case.slots, fleet);
            ls.reset();
            ls.load_individual(&individual(&ctx, &routes));
            continue;
        }
        if kind >= 11 {
            // An ordinary move in between.
            let m = (kind as usize - 11) * 2;
            let u = 1 + a as usize % n;
            let all = places(&routes, m, u);
            if all.is_empty() {
                continue;
            }
            let v = all[b as usize % all.len()];
            let delta = unsafe { the_move(m).delta(&ls, node(&ls, u), at(&ls, v)) };
            if delta != 0.0 && reference_move(&routes, m, u, v).is_some() {
                carry_out(&mut ls, m, u, v);
                routes = read_routes(inst, &ls)?;
            }
            continue;
        }
        let full: Vec<usize> = (0..routes.len()).filter(|&r| !routes[r].is_empty()).collect();
        if full.len() < 2 {
            continue;
        }
        let i = a as usize % full.len();
        let j = (i + 1 + b as usize % (full.len() - 1)) % full.len();
        let (r1, r2) = (full[i], full[j]);
        let best = swap_star_reference(inst, pen, &routes[r1], &routes[r2], noise);
        let improved = exchange(&mut ls, r1, r2);
        let after = check_state(inst, &ctx, &ls)?;
        for r in 0..routes.len() {
            ensure!(r == r1 || r == r2 || after[r] == routes[r], "SWAP* of routes {} and {} changed route {}: {:?} to {:?}", r1, r2, r, routes, after);
        }
        let change: f64 = [r1, r2].iter().map(|&r| route_cost(inst, pen, &after[r]) - route_cost(inst, pen, &routes[r])).sum();
        if improved {
            ensure!(best.lenient < -EPS + 2.0 * noise, "SWAP* of {:?} and {:?} claims a gain, best exchange costs {}", routes[r1], routes[r2], best.lenient);
            ensure!(change >= best.lenient - noise && change <= best.strict + 4e-6 + noise, "SWAP* of {:?} and {:?} changes the cost by {} (to {:?} {:?}), the best exchange by {}", routes[r1], routes[r2], change, after[r1], after[r2], best.strict);
            obs.class("exchange carried out");
            obs.nontrivial();
        } else {
            ensure!(after == routes, "SWAP* without gain changed {:?} to {:?}", routes, after);
            ensure!(best.strict > -5e-6 - noise, "SWAP* of {:?} and {:?} finds nothing, the best exchange gains {}", routes[r1], routes[r2], -best.strict);
            obs.class("nothing to gain");
        }
        routes = after;
    }
    Ok(())
}

fn swap_star_small() -> Part {
    part("exchange", "sequences of SWAP* calls, ordinary moves and reloads on one search object, against brute force over all filtered exchanges and relocations; non-trivial: an exchange was carried out", 60_000, 1_500_000, || exchange_strategy(2, 9, 12), exchange_test)
}
fn swap_star_large() -> Part {
    part("exchange-large", "as exchange with up to 30 customers and 40 calls", 8_000, 200_000, || exchange_strategy(8, 30, 40), exchange_test)
}

fn swap_star_huge() -> Part {
    part("exchange-huge", "as exchange with 60 to 140 customers", 40, 1_500, || exchange_strategy(60, 140, 12), exchange_test).cpu(120).shrink(60)
}

// --- C11 -------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SearchCase {
    inst: Inst,
    starts: Vec<(RawRoutes, usize)>,
    penalty: f64,
    mult: f64,
    moves: u32,
    granularity: u64,
    seed: u64,
}

fn search_strategy(min: usize, max: usize) -> BoxedStrategy<SearchCase> {
    (
        inst(SMALL.customers(min, max).oversize(15)),
        vec((raw_routes(max), slots(1, 9, max)), 1..4),
        penalty(),
        prop_oneof![3 => Just(1.0f64), 1 => Just(10.0)],
        moves(),
        granularity(),
        0u64..100_000,
    )
        .prop_map(|(inst, starts, penalty, mult, moves, granularity, seed)| SearchCase { inst, starts, penalty, mult, moves, granularity, seed })
        .boxed()
}

fn search_context(case: &SearchCase) -> Box<Context> {
    let mut c = hybridcvrp::config::Config::default();
    c.deterministic = true;
    c.seed = case.seed;
    c.time_limit = 1_000_000;
    set_moves(&mut c, case.moves);
    c.local_search_granularity = case.granularity;
    let ctx = case.inst.context(c);
    ctx.config.borrow_mut().penalty_capacity = case.penalty;
    ctx
}

fn search_test(case: &SearchCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let ctx = search_context(case);
    let n = inst.customers();
    let fleet = fleet(&ctx);
    let mut ls = LocalSearch::new(&ctx, 1.0);
    for (raw, slots) in &case.starts {
        let routes = padded(raw, n, *slots, fleet);
        let mut ind = individual(&ctx, &routes);
        ls.run(&ctx, &mut ind, case.mult);
        check_shape(inst, fleet, &ind)?;
        check_evaluation(inst, Some(case.penalty), &ind)?;
        let pen = case.penalty * case.mult;
        let (before, after) = (total_cost(inst, pen, &routes), total_cost(inst, pen, &ind.phenotype));
        ensure!(after <= before + 1e-6 + 1e-11 * scale(inst, pen), "local search worsens {:?} ({}) to {:?} ({})", routes, before, ind.phenotype, after);
        check_state(inst, &ctx, &ls)?;
        obs.class_if(after < before - 1e-6, "improved");
        obs.class_if(case.granularity as usize > n.saturating_sub(1).min(200), "granularity above list length");
        if after < before - 1e-6 {
            obs.nontrivial();
        }
    }
    Ok(())
}

fn search_small() -> Part {
    part("run", "up to 3 searches on one object, any subset of moves, granularity 0 to 250; non-trivial: the search improved a solution", 16_000, 500_000, || search_strategy(1, 10), search_test).cpu(20)
}
fn search_large() -> Part {
    part("run-large", "as run with up to 40 customers", 2_000, 60_000, || search_strategy(10, 40), search_test).cpu(30)
}
fn search_huge() -> Part {
    part("run-huge", "as run with 100 to 320 customers", 40, 1_500, || search_strategy(100, 320), search_test).cpu(150).shrink(40)
}
fn scaled_strategy() -> BoxedStrategy<SearchCase> {
    // The decomposition multiplies the penalty by a million before it searches.
    (search_strategy(3, 20), prop_oneof![Just(1e6f64), Just(1e7), Just(1e8), Just(1e10)])
        .prop_map(|(mut c, factor)| {
            c.penalty = c.penalty.max(1.0).min(1e4) * factor;
            c
        })
        .boxed()
}
fn search_scaled() -> Part {
    part("run-scaled", "as run with the penalties of the decomposed search (a million times larger)", 4_000, 120_000, scaled_strategy, search_test).cpu(30)
}

/// A fresh search object with the same random choices does exactly what a used one does.
fn memory_test(case: &SearchCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let n = inst.customers();
    let ctx = search_context(case);
    let fleet = fleet(&ctx);
    let mut used = LocalSearch::new(&ctx, 1.0);
    let (last, earlier) = case.starts.split_last().unwrap();
    for (i, (raw, slots)) in earlier.iter().enumerate() {
        let mut ind = individual(&ctx, &padded(raw, n, *slots, fleet));
        ctx.config.borrow_mut().penalty_capacity = case.penalty * (1 + i) as f64 * 3.0;
        used.run(&ctx, &mut ind, 1.0);
    }
    let again = search_context(case);
    let twin = search_context(case);
    let mut fresh = LocalSearch::new(&twin, 1.0);
    fresh.customers = used.customers.clone();
    fresh.correlation = used.correlation.clone();
    fresh.empty_routes = used.empty_routes.clone();
    let routes = padded(&last.0, n, last.1, fleet);
    let mut a = individual(&again, &routes);
    let mut b = individual(&twin, &routes);
    used.run(&again, &mut a, case.mult);
    fresh.run(&twin, &mut b, case.mult);
    ensure!(a.phenotype == b.phenotype && a.penalized_cost() == b.penalized_cost(), "a used search object turns {:?} into {:?} ({}), a fresh one into {:?} ({})", routes, a.phenotype, a.penalized_cost(), b.phenotype, b.penalized_cost());
    if !earlier.is_empty() && a.phenotype != routes {
        obs.nontrivial();
    }
    Ok(())
}
fn search_memory() -> Part {
    part("memory", "a search object after up to 2 other searches against a fresh one given the same random state; non-trivial: there were earlier searches and the last one changed the solution", 12_000, 300_000, || search_strategy(2, 14), memory_test).cpu(20)
}

// --- C12 -------------------------------------------------------------------------------------

fn check_local_optimum(case: &SearchCase, ctx: &Context, ls: &LocalSearch, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let n = inst.customers();
    let routes = check_state(inst, ctx, ls)?;
    let pen = ls.penalty_capacity;
    let s = scale(inst, pen);
    let tol = 2e-6 + 1e-11 * s;
    let enabled: Vec<usize> = (0..9).filter(|m| case.moves >> m & 1 == 1).collect();
    let gain = |m: usize, u: usize, v: After| -> f64 {
        match reference_move(&routes, m, u, v) {
            None => 0.0,
            Some(after) => routes.iter().zip(&after).filter(|(a, b)| a != b).map(|(a, b)| route_cost(inst, pen, a) - route_cost(inst, pen, b)).sum(),
        }
    };
    let width = (case.granularity as usize).min(n.saturating_sub(1)).min(200);
    for u in 1..=n {
        // Distances tie, so the nearest are known as a set only up to the distance of the last one.
        let mut near: Vec<(f64, usize)> = (1..=n).filter(|&v| v != u).map(|v| (inst.dist(u, v), v)).collect();
        near.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let limit = if width == 0 { f64::NEG_INFINITY } else { near[width - 1].0 };
        let all_at_limit = near.len() == width || (width > 0 && near[width].0 > limit + 1e-9);
        for &(d, v) in &near {
            if width == 0 || d > limit + 1e-9 || (!all_at_limit && d > limit - 1e-9) {
                break;
            }
            for &m in &enabled {
                let g = gain(m, u, After::Customer(v));
                ensure!(g <= tol, "the search stopped at {:?} (penalty {}), but {} of {} and {} gains {}", routes, pen, NAMES[m], u, v, g);
            }
            let (rv, iv) = locate(&routes, v);
            if iv == 0 {
                for &m in enabled.iter().filter(|m| DEPOT.contains(m)) {
                    let g = gain(m, u, After::Start(rv));
                    ensure!(g <= tol, "the search stopped at {:?} (penalty {}), but {} of {} before {} at the start of its route gains {}", routes, pen, NAMES[m], u, v, g);
                }
            }
        }
        if let Some(e) = routes.iter().position(|r| r.is_empty()) {
            for &m in enabled.iter().filter(|m| EMPTY.contains(m)) {
                let g = gain(m, u, After::Start(e));
                ensure!(g <= tol, "the search stopped at {:?} (penalty {}), but {} of {} into an empty route gains {}", routes, pen, NAMES[m], u, g);
            }
            obs.class("an empty route is left");
        }
    }
    if case.moves & 512 != 0 {
        let noise = noise_of(inst, pen);
        let sectors: Vec<Option<(i32, i32)>> = routes.iter().map(|r| sector_of(ctx, r)).collect();
        for i in 0..routes.len() {
            for j in i + 1..routes.len() {
                if let (Some(a), Some(b)) = (sectors[i], sectors[j]) {
                    let m = 65536;
                    let overlap = (b.0 - a.0).rem_euclid(m) <= (a.1 - a.0).rem_euclid(m) || (a.0 - b.0).rem_euclid(m) <= (b.1 - b.0).rem_euclid(m);
                    if overlap {
                        obs.class("pair of routes with overlapping sectors");
                        let best = swap_star_reference(inst, pen, &routes[i], &routes[j], noise);
                        ensure!(best.strict > -5e-6 - noise, "the search stopped at {:?} (penalty {}), but SWAP* of routes {} and {} gains {}", routes, pen, i, j, -best.strict);
                    }
                }
            }
        }
    }
    Ok(())
}

fn optimum_test(case: &SearchCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let ctx = search_context(case);
    let n = inst.customers();
    let fleet = fleet(&ctx);
    let mut ls = LocalSearch::new(&ctx, 1.0);
    for (raw, slots) in &case.starts {
        let routes = padded(raw, n, *slots, fleet);
        let mut ind = individual(&ctx, &routes);
        ls.run(&ctx, &mut ind, case.mult);
        check_local_optimum(case, &ctx, &ls, obs)?;
        // Searching on from the result, under another penalty: most rounds find little.
        let first: Individual = ind.clone();
        ctx.config.borrow_mut().penalty_capacity = case.penalty * 0.5 + 0.01;
        ls.run(&ctx, &mut ind, 1.0);
        check_local_optimum(case, &ctx, &ls, obs)?;
        ctx.config.borrow_mut().penalty_capacity = case.penalty;
        if first.phenotype != routes && first.num_nonempty_routes() >= 2 {
            obs.nontrivial();
        }
    }
    Ok(())
}

fn optimum_small() -> Part {
    part("optimum", "result of the search against all enabled moves on plain lists; non-trivial: the search changed the solution and ended with two or more routes", 12_000, 400_000, || search_strategy(2, 10), optimum_test).cpu(30)
}
fn optimum_large() -> Part {
    part("optimum-large", "as optimum with up to 30 customers", 1_200, 40_000, || search_strategy(10, 30), optimum_test).cpu(30)
}

fn optimum_huge() -> Part {
    part("optimum-huge", "as optimum with 60 to 300 customers", 30, 1_000, || search_strategy(60, 300), optimum_test).cpu(150).shrink(40)
}

fn enabled_strategy() -> BoxedStrategy<SearchCase> {
    let subset = prop_oneof![1 => Just(0u32), 4 => (0u32..10).prop_map(|m| 1 << m), 3 => (0u32..10).prop_map(|m| ALL_MOVES & !(1 << m)), 3 => (0u32..10, 0u32..10).prop_map(|(a, b)| 1 << a | 1 << b), 2 => 0u32..1024];
    let width = prop_oneof![2 => Just(20u64), 3 => 0u64..4];
    (search_strategy(1, 6), subset, width)
        .prop_map(|(mut c, moves, granularity)| {
            c.moves = moves;
            c.granularity = granularity;
            c
        })
        .boxed()
}

/// Every solution one improving step away: moves switched on, between granular neighbours.
fn steps(case: &SearchCase, pen: f64, noise: f64, routes: &Routes) -> Vec<(Routes, f64)> {
    let inst = &case.inst;
    let n = inst.customers();
    let width = (case.granularity as usize).min(n.saturating_sub(1)).min(200);
    let mut out = Vec::new();
    let gain = |after: &Routes| -> f64 { routes.iter().zip(after).filter(|(a, b)| a != b).map(|(a, b)| route_cost(inst, pen, a) - route_cost(inst, pen, b)).sum() };
    let near = |u: usize, v: usize| {
        let mut all: Vec<f64> = (1..=n).filter(|&w| w != u).map(|w| inst.dist(u, w)).collect();
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        width > 0 && inst.dist(u, v) <= all[width - 1] + 1e-9
    };
    for m in (0..9).filter(|m| case.moves >> m & 1 == 1) {
        for u in 1..=n {
            for v in places(routes, m, u) {
                let allowed = match v {
                    After::Customer(v) => near(u, v),
                    After::Start(r) => match routes[r].first() {
                        Some(&first) => first != u && near(u, first),
                        None => true,
                    },
                };
                if !allowed {
                    continue;
                }
                if let Some(after) = reference_move(routes, m, u, v) {
                    let g = gain(&after);
                    if g > -noise {
                        out.push((after, g));
                    }
                }
            }
        }
    }
    if case.moves & 512 != 0 {
        // Exchanges between two routes, anywhere in the other one, and relocations into it.
        for a in 0..routes.len() {
            for b in 0..routes.len() {
                if a == b || routes[a].is_empty() || routes[b].is_empty() {
                    continue;
                }
                for i in 0..routes[a].len() {
                    let mut ra = routes[a].clone();
                    let u = ra.remove(i);
                    for k in 0..=routes[b].len() {
                        let mut rb = routes[b].clone();
                        rb.insert(k, u);
                        let mut after = routes.clone();
                        after[a] = ra.clone();
                        after[b] = rb;
                        let g = gain(&after);
                        if g > -noise {
                            out.push((after, g));
                        }
                    }
                    if a < b {
                        for j in 0..routes[b].len() {
                            let mut rb = routes[b].clone();
                            let v = rb.remove(j);
                            for k in 0..=rb.len() {
                                for l in 0..=ra.len() {
                                    let mut after = routes.clone();
                                    after[a] = ra.clone();
                                    after[a].insert(l, v);
                                    after[b] = rb.clone();
                                    after[b].insert(k, u);
                                    let g = gain(&after);
                                    if g > -noise {
                                        out.push((after, g));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

/// What the search does is explained by improving steps it is allowed to make.
fn enabled_test(case: &SearchCase, obs: &mut Obs) -> Check {
    let inst = &case.inst;
    let ctx = search_context(case);
    let n = inst.customers();
    let fleet = fleet(&ctx);
    let mut ls = LocalSearch::new(&ctx, 1.0);
    let canonical = |routes: &Routes| {
        let mut r: Routes = routes.iter().filter(|r| !r.is_empty()).cloned().collect();
        r.sort();
        r
    };
    for (raw, slots) in &case.starts {
        let routes = padded(raw, n, *slots, fleet);
        let mut ind = individual(&ctx, &routes);
        ls.run(&ctx, &mut ind, case.mult);
        let pen = ls.penalty_capacity;
        let noise = noise_of(inst, pen);
        let goal = canonical(&ind.phenotype);
        let target = total_cost(inst, pen, &ind.phenotype);
        let start = canonical(&routes);
        let mut seen = std::collections::HashSet::new();
        let mut open = vec![start.clone()];
        seen.insert(start.clone());
        let mut found = start == goal;
        let mut second = false;
        while !found {
            let r = match open.pop() {
                Some(r) => r,
                None => break,
            };
            let mut r = r;
            r.resize(fleet.max(r.len()), Vec::new());
            let mut next = steps(case, pen, noise, &r);
            next.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
            for (after, _) in next {
                let c = canonical(&after);
                if c == goal {
                    found = true;
                    break;
                }
                if total_cost(inst, pen, &after) >= target - 16.0 * noise && seen.insert(c.clone()) {
                    open.push(c);
                }
            }
            second = true;
        }
        let names: Vec<&str> = (0..10).filter(|m| case.moves >> m & 1 == 1).map(|m| if m < 9 { NAMES[m] } else { "SWAP*" }).collect();
        ensure!(found, "the search turns {:?} into {:?} (penalty {}, granularity {}), which no improving steps of {:?} between granular neighbours do", routes, ind.phenotype, pen, case.granularity, names);
        obs.class_if(start != goal, "changed");
        obs.class_if(names.is_empty(), "no move at all");
        obs.class_if(case.granularity < n as u64 - 1, "not all are neighbours");
        if names.len() == 1 {
            obs.class(names[0]);
            obs.class_if(start != goal, &format!("{} alone changed it", names[0]));
        }
        if second && start != goal && names.len() < 10 {
            obs.nontrivial();
        }
    }
    Ok(())
}

fn enabled() -> Part {
    part("enabled", "up to 6 customers, few or nearly all moves switched on, granularity 0 to 3 or all: the result is reached from the start by improving steps of the reference moves that are switched on, between granular neighbours; non-trivial: the search changed the solution with a move switched off", 10_000, 300_000, enabled_strategy, enabled_test).cpu(60)
}

#[allow(dead_code)]
pub fn ls_of(ctx: &Context, ind: &Individual) -> LocalSearch {
    let mut ls = LocalSearch::new(ctx, 1.0);
    ls.load_individual(ind);
    ls
}

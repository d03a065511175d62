//! C32: the random choices all parts of the search draw on.

use crate::engine::{part, splitmix, Check, Obs, Part, Prop};
use crate::ensure;
use hybridcvrp::utils::Random;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C32", parts: vec![fair_part(), stream_part()] }]
}

/// Chernoff: less likely than e^-40 if true.
pub fn likely(successes: u64, trials: u64, p: f64) -> bool {
    if p > 1.0 - 1e-12 {
        return successes == trials;
    }
    let q = successes as f64 / trials as f64;
    let term = |q: f64, p: f64| if q > 0.0 { q * (q / p).ln() } else { 0.0 };
    trials as f64 * (term(q, p) + term(1.0 - q, 1.0 - p)) < 40.0
}

pub fn even<T: std::fmt::Debug + Ord>(what: &str, seen: &BTreeMap<T, u64>, outcomes: usize, draws: u64) -> Check {
    ensure!(seen.len() <= outcomes, "{}: {} different outcomes, {} are possible: {:?}", what, seen.len(), outcomes, seen);
    for (o, &k) in seen {
        ensure!(likely(k, draws, 1.0 / outcomes as f64), "{}: {:?} came {} times out of {}, {:.1} are expected", what, o, k, draws, draws as f64 / outcomes as f64);
    }
    ensure!(seen.len() == outcomes || likely(0, draws, 1.0 / outcomes as f64), "{}: only {:?} came up in {} draws", what, seen.keys(), draws);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FairCase {
    seed: Option<u64>,
    lower: usize,
    span: usize,
    size: usize,
    sample: usize,
}

fn fair_test(case: &FairCase, obs: &mut Obs) -> Check {
    const DRAWS: u64 = 4000;
    let random = match case.seed {
        Some(s) => Random::from_seed(s),
        None => Random::new(),
    };
    let upper = case.lower + case.span;
    let mut seen = BTreeMap::new();
    for _ in 0..DRAWS {
        let v = random.range_usize(case.lower, upper);
        ensure!(v >= case.lower && v < upper, "{} drawn from {}..{}", v, case.lower, upper);
        // In thirteen classes where there are many values.
        let class = if case.span <= 40 { v } else { (v - case.lower) * 13 / case.span };
        *seen.entry(class).or_insert(0) += 1;
    }
    if case.span <= 40 {
        even("range", &seen, case.span, DRAWS)?;
    } else {
        for (class, &k) in &seen {
            let lowest = (0..case.span).position(|v| v * 13 / case.span == *class).unwrap();
            let beyond = (lowest..case.span).position(|v| v * 13 / case.span > *class).map_or(case.span, |p| lowest + p);
            let p = (beyond - lowest) as f64 / case.span as f64;
            ensure!(likely(k, DRAWS, p), "range: class {} of {}..{} came {} times out of {}", class, case.lower, upper, k, DRAWS);
        }
        ensure!(seen.len() == 13, "range: only classes {:?} of {}..{} came up", seen.keys(), case.lower, upper);
    }
    let mut tenths = BTreeMap::new();
    for _ in 0..DRAWS {
        let v = random.real();
        ensure!((0.0..1.0).contains(&v), "{} as a real number", v);
        *tenths.entry((v * 10.0) as usize).or_insert(0) += 1;
    }
    even("real", &tenths, 10, DRAWS)?;
    let items: Vec<usize> = (0..case.size).map(|i| 100 + 7 * i).collect();
    let factorial = |n: usize| (1..=n).product::<usize>();
    let mut orders = BTreeMap::new();
    for _ in 0..DRAWS {
        let mut v = items.clone();
        random.shuffle(&mut v);
        let mut sorted = v.clone();
        sorted.sort();
        ensure!(sorted == items, "shuffling {:?} gave {:?}", items, v);
        *orders.entry(v).or_insert(0) += 1;
    }
    even("shuffle", &orders, factorial(case.size), DRAWS)?;
    let mut samples = BTreeMap::new();
    for _ in 0..DRAWS {
        let v = random.sample_from_vec(items.clone(), case.sample);
        ensure!(v.len() == case.sample, "{} sampled, {} wanted", v.len(), case.sample);
        let mut sorted = v.clone();
        sorted.sort();
        sorted.dedup();
        ensure!(sorted.len() == v.len() && v.iter().all(|x| items.contains(x)), "{:?} sampled from {:?}", v, items);
        *samples.entry(v).or_insert(0) += 1;
    }
    even("sample", &samples, factorial(case.size) / factorial(case.size - case.sample), DRAWS)?;
    if case.span > 1 && case.size > 1 && case.sample > 0 {
        obs.nontrivial();
    }
    obs.class(if case.seed.is_some() { "seeded" } else { "not seeded" });
    Ok(())
}

fn fair_part() -> Part {
    part(
        "fair",
        "seed x range x list, 4000 draws of each kind; non-trivial: there is something to choose",
        300,
        10_000,
        || {
            let seed = prop_oneof![1 => Just(None), 2 => any::<u64>().prop_map(Some), 2 => (0u64..1000).prop_map(Some), 1 => Just(Some(u64::MAX))];
            (seed, 0usize..50, prop_oneof![3 => 1usize..41, 1 => 41usize..2000], 1usize..6, any::<u16>())
                .prop_map(|(seed, lower, span, size, sample)| FairCase { seed, lower, span, size, sample: sample as usize % (size + 1) })
                .boxed()
        },
        fair_test,
    )
    .shrink(200)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StreamCase {
    seed: u64,
    other: u64,
    ops: Vec<u8>,
    reset_at: usize,
}

/// One draw of some kind, as a number.
fn draw(random: &Random, op: u8) -> u64 {
    match op % 4 {
        0 => random.real().to_bits(),
        1 => random.range_usize(op as usize, op as usize + 1000) as u64,
        2 => {
            let mut v: Vec<u64> = (0..12).collect();
            random.shuffle(&mut v);
            v.iter().fold(0, |h, x| splitmix(h ^ x))
        }
        _ => random.sample_from_vec((0..20u64).collect(), 6).iter().fold(1, |h, x| splitmix(h ^ x)),
    }
}

fn stream_test(case: &StreamCase, obs: &mut Obs) -> Check {
    let a = Random::from_seed(case.seed);
    let b = Random::from_seed(case.seed);
    let first: Vec<u64> = case.ops.iter().map(|&o| draw(&a, o)).collect();
    let second: Vec<u64> = case.ops.iter().map(|&o| draw(&b, o)).collect();
    ensure!(first == second, "two generators with seed {} differ", case.seed);
    // Reset begins the stream again, from anywhere in it.
    let c = Random::from_seed(case.seed);
    for &o in case.ops.iter().take(case.reset_at) {
        draw(&c, o);
    }
    c.reset();
    let third: Vec<u64> = case.ops.iter().map(|&o| draw(&c, o)).collect();
    ensure!(first == third, "reset after {} draws does not begin the stream of seed {} again", case.reset_at, case.seed);
    let hash = |r: &Random, x: u64| {
        let mut h = r.random_state().build_hasher();
        x.hash(&mut h);
        h.finish()
    };
    for x in 0..20u64 {
        ensure!(hash(&a, x) == hash(&b, x) && hash(&a, x) == hash(&a, x), "hash tables with seed {} are not in the same order", case.seed);
    }
    if case.other != case.seed && case.ops.len() >= 4 {
        let d = Random::from_seed(case.other);
        let fourth: Vec<u64> = case.ops.iter().map(|&o| draw(&d, o)).collect();
        ensure!(first != fourth, "seeds {} and {} give the same stream", case.seed, case.other);
        // Nor do generators without a seed repeat themselves.
        let streams: Vec<Vec<u64>> = (0..2)
            .map(|_| {
                let r = Random::new();
                let s = case.ops.iter().map(|&o| draw(&r, o)).collect::<Vec<_>>();
                r.reset();
                s
            })
            .collect();
        ensure!(streams[0] != streams[1], "two generators without a seed give the same stream");
        obs.nontrivial();
    }
    obs.class_if(case.reset_at < case.ops.len(), "reset in the middle");
    Ok(())
}

fn stream_part() -> Part {
    part(
        "stream",
        "two seeds x draws x reset; non-trivial: the seeds differ",
        4_000,
        200_000,
        || {
            let seed = || prop_oneof![2 => any::<u64>(), 3 => 0u64..1000, 1 => Just(u64::MAX)];
            (seed(), seed(), proptest::collection::vec(any::<u8>(), 4..40), 0usize..50)
                .prop_map(|(seed, other, ops, reset_at)| StreamCase { seed, other, ops, reset_at })
                .boxed()
        },
        stream_test,
    )
}

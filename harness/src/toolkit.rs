//! Sampling and shuffling, activation functions, cost functions, regularization, kernels.
use crate::util::*;
use rm::learning::toolkit::activ_fn::{self, ActivationFunc};
use rm::learning::toolkit::cost_fn::{CostFunc, CrossEntropyError, MeanSqError};
use rm::learning::toolkit::kernel::{self, Kernel, KernelArith};
use rm::learning::toolkit::rand_utils::{fisher_yates, in_place_fisher_yates, reservoir_sample};
use rm::learning::toolkit::regularization::Regularization;
use rm::linalg::{BaseMatrix, Matrix, Vector};
use rusty_machine as rm;
use std::cell::Cell;
use std::rc::Rc;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[
    ("R01", r01), ("R02", r02), ("R03", r03), ("R04", r04), ("A01", a01), ("A02", a02), ("C01", c01), ("C02", c02), ("K01", k01), ("K02", k02),
];

// ------------------------------------------------------------ sampling

fn size(c: &mut Case) -> usize {
    match c.rng.below(10) {
        0 => c.rng.below(3),
        1..=4 => c.rng.below(20),
        5..=7 => c.rng.range(20, 400),
        8 => c.rng.range(400, 5000),
        _ => *c.rng.pick(&[63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4096, 4097, 8191, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 70000]),
    }
}

fn check_reservoir(pool: &[u64], k: usize) -> Verdict {
    let n = pool.len();
    let before = pool.to_vec();
    let s = reservoir_sample(pool, k);
    ensure!(s.len() == k, "asked for {} of {}, got {}", k, n, s.len());
    ensure!(pool == &before[..], "the pool was changed");
    // ids are unique: a repeated or foreign id is a repeated or foreign element
    let mut hit = vec![false; n];
    for &x in &s {
        let at = (x >> 20) as usize;
        ensure!(at < n && pool[at] == x, "sample of {} of {} holds {:#x}, which is not in the pool", k, n, x);
        ensure!(!hit[at], "pool element {} drawn twice ({} of {})", at, k, n);
        hit[at] = true;
    }
    if k == n { ensure!(hit.iter().all(|h| *h), "a sample of the whole pool misses elements"); }
    Ok(())
}
fn ids(n: usize, tag: u64) -> Vec<u64> { (0..n as u64).map(|i| i << 20 | (tag & 0xFFFFF)).collect() }

#[derive(Clone, Copy, PartialEq, Debug)]
struct Fat { id: u32, pad: [u64; 9], tail: u8 }
/// Larger than a cache line, a page of a small stack frame and most thresholds on an item's size.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Huge { pad: [u64; 300], id: u16 }
fn huge(n: usize) -> Vec<Huge> { (0..n).map(|i| Huge { pad: [i as u64 * 5; 300], id: i as u16 }).collect() }

fn r01(cx: &mut Ctx) {
    cx.rule("Pools of uniquely tagged elements, all sizes 0..40 with every sample size, then random and power-of-two sizes up to 70000, several element types, ordinary and extreme random words; an execution counts when 0 < sample < pool, identified by (pool, sample size, draws).");
    cx.group("every small size", 41, 41, |c| {
        let n = c.index as usize;
        for k in 0..=n {
            for rep in 0..6 {
                c.reseed(k as u64 * 10 + rep);
                check_reservoir(&ids(n, c.seed), k)?;
                c.count("samples", 1);
                if k > 0 && k < n { c.seen(hash_usizes(&[n, k, rep as usize])); }
            }
        }
        // and each pool size up to 2050, for two sample sizes
        for m in (0..49).map(|i| 41 + n * 49 + i) { for k in [c.rng.below(m + 1), *c.rng.pick(&[1, m / 2, m - 1, m])].iter() { let salt = c.rng.u64(); check_reservoir(&ids(m, salt), *k)?; c.count("samples", 1); } }
        c.sample(|| format!("pool of {} tagged elements, every sample size 0..={}, six streams each", n, n));
        Ok(())
    });
    cx.group("random sizes", 700, 12000, |c| {
        let n = size(c);
        let k = match c.rng.below(6) { 0 => n, 1 => 0, 2 => n.min(1), 3 => n - n.min(1), _ => c.rng.below(n + 1) };
        rand::verif::set_extreme(*c.rng.pick(&[0, 0, 3, 20]));
        let tag = c.rng.u64();
        let d0 = rand::verif::draws();
        check_reservoir(&ids(n, tag), k)?;
        c.count("samples", 1);
        c.count("random words drawn by the code", rand::verif::draws() - d0);
        if k > 0 && k < n { c.seen(hash_usizes(&[n, k, c.index as usize])); }
        c.sample(|| format!("{} of {} elements, {} random words", k, n, rand::verif::draws() - d0));
        Ok(())
    });
    cx.group("repeated elements", 300, 4000, |c| {
        let n = c.rng.below(60);
        let pool: Vec<u8> = (0..n).map(|_| c.rng.below(5) as u8).collect();
        let k = c.rng.below(n + 1);
        let s = reservoir_sample(&pool, k);
        ensure!(s.len() == k, "asked for {}, got {}", k, s.len());
        for v in 0..5u8 {
            let (a, b) = (s.iter().filter(|x| **x == v).count(), pool.iter().filter(|x| **x == v).count());
            ensure!(a <= b, "{} occurs {} times in the sample and {} in the pool", v, a, b);
        }
        ensure!(s.iter().all(|v| *v < 5), "foreign value in {:?}", s);
        c.count("samples", 1);
        if k > 0 && k < n { c.seen(hash_usizes(&[k, n, c.index as usize])); }
        Ok(())
    });
    cx.group("element types", 60, 400, |c| {
        let n = c.rng.range(1, 80);
        let k = c.rng.below(n + 1);
        let fat: Vec<Fat> = (0..n).map(|i| Fat { id: i as u32, pad: [i as u64 * 7; 9], tail: i as u8 }).collect();
        let s = reservoir_sample(&fat, k);
        ensure!(s.len() == k && s.iter().all(|x| fat[x.id as usize] == *x), "sampled structs differ from the pool's");
        let h = huge(n);
        let s = reservoir_sample(&h, k);
        ensure!(s.len() == k && s.iter().all(|x| (x.id as usize) < n && h[x.id as usize] == *x), "sampled large structs differ from the pool's");
        let set: std::collections::HashSet<_> = s.iter().map(|x| x.id).collect();
        ensure!(set.len() == k, "large structs drawn twice");
        let words: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
        let refs: Vec<&str> = words.iter().map(|w| &w[..]).collect();
        let s = reservoir_sample(&refs, k);
        let set: std::collections::HashSet<_> = s.iter().collect();
        ensure!(set.len() == k && s.iter().all(|w| refs.contains(w)), "sampled references differ from the pool's");
        let units = vec![(); n];
        ensure!(reservoir_sample(&units, k).len() == k, "zero-sized elements");
        let fl: Vec<f64> = (0..n).map(|i| if i == 0 { f64::NAN } else { i as f64 }).collect();
        let s = reservoir_sample(&fl, k);
        ensure!(s.len() == k && s.iter().filter(|x| x.is_nan()).count() <= 1, "floats");
        c.count("samples", 4);
        if k > 0 && k < n { c.seen(hash_usizes(&[n, k, 77])); }
        Ok(())
    });
    cx.group("sample larger than the pool", 60, 300, |c| {
        let n = c.rng.below(30);
        let k = n + 1 + c.rng.below(30);
        ensure!(guard(|| reservoir_sample(&ids(n, 1), k)).is_err(), "{} of {} elements did not panic", k, n);
        c.count("rejected", 1);
        Ok(())
    });
}

/// Calls whose result nothing but a fault would repeat: draws that leave their input as it was, twice the same draw, the
/// same draws on two threads.
const DRAWS: [(&str, fn() -> Vec<u32>); 3] = [
    ("20 of 80", || reservoir_sample(&(0..80).collect::<Vec<u32>>(), 20)),
    ("copying shuffle of 40", || fisher_yates(&(0..40).collect::<Vec<u32>>())),
    ("in-place shuffle of 40", || { let mut v: Vec<u32> = (0..40).collect(); in_place_fisher_yates(&mut v); v }),
];
/// What a process of its own draws first.
pub fn draw(what: &str) { for d in &DRAWS { if d.0 == what { println!("{:?} {:?}", (d.1)(), (d.1)()); } } }
fn coincidences(c: &mut Case, what: &str, draw: fn() -> Vec<u32>, untouched: &[u32]) -> Verdict {
    let calls = if c.thorough { 300_000 } else { 30_000 };
    let mut seen = std::collections::HashMap::new();
    for t in 0..calls {
        let v = draw();
        ensure!(v != untouched, "{}: call {} changes nothing", what, t);
        ensure!(!v.iter().rev().eq(untouched.iter()), "{}: call {} reverses its input", what, t);
        if let Some(s) = seen.insert(hash_usizes(&v.iter().map(|x| *x as usize).collect::<Vec<_>>()), t) { return Err(format!("{}: calls {} and {} give the same result", what, s, t)); }
    }
    c.count("calls compared", calls);
    if !cfg!(miri) {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut said: Vec<Vec<u8>> = vec![];
        for _ in 0..4 {
            let o = match std::process::Command::new(&exe).arg("draw").arg(what).output() { Ok(o) => o, Err(_) => break };
            if !o.status.success() || o.stdout.is_empty() { break; }
            ensure!(!said.contains(&o.stdout), "{}: two processes draw the same: {}", what, String::from_utf8_lossy(&o.stdout));
            said.push(o.stdout);
            c.count("draws of other processes", 1);
        }
    }
    for round in 0..10 {
        let seeds: Vec<u64> = (0..6).map(|_| c.rng.u64()).collect();
        let threads: Vec<_> = seeds.iter().map(|s| { let s = *s; std::thread::spawn(move || { rand::verif::seed_thread_rng(s as _); (0..4).map(|_| draw()).collect::<Vec<_>>() }) }).collect();
        for (i, t) in threads.into_iter().enumerate() {
            for v in t.join().map_err(|_| format!("{}: a call on another thread panics", what))? {
                if let Some(s) = seen.insert(hash_usizes(&v.iter().map(|x| *x as usize).collect::<Vec<_>>()), calls + i as u64) { return Err(format!("{}: thread {} of round {} repeats what {} drew", what, i, round, if s < calls { format!("call {}", s) } else { format!("thread {}", s - calls) })); }
                c.count("calls on other threads", 1);
            }
        }
    }
    c.seen(hash_str(what));
    Ok(())
}

fn subset_rank(s: &[usize], n: usize) -> u64 { let _ = n; s.iter().fold(0, |m, x| m | 1 << x) }

fn r02(cx: &mut Ctx) {
    cx.rule("Repeated sampling; tallies over all subsets of small pools, over the elements and adjacent pairs of larger pools, and over pairs of consecutive samples, each compared with the exact expectation by a chi-square or binomial score; alarm beyond 7 standard deviations. Non-trivial: each tally with at least two cells.");
    let small: Vec<(usize, usize)> = vec![(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 2), (5, 3), (6, 1), (6, 3), (7, 2), (7, 6), (8, 4), (9, 3)];
    cx.group("all subsets", small.len() as u64, small.len() as u64, |c| {
        let (n, k) = small[c.index as usize];
        let trials = if c.thorough { 10_000_000 } else { 1_000_000 };
        let pool: Vec<usize> = (0..n).collect();
        let mut tally = std::collections::BTreeMap::new();
        for m in 0u64..1 << n { if m.count_ones() as usize == k { tally.insert(m, 0u64); } }
        for _ in 0..trials {
            let r = subset_rank(&reservoir_sample(&pool, k), n);
            match tally.get_mut(&r) { Some(t) => *t += 1, None => return Err(format!("{} of {} gave the set {:b}", k, n, r)) }
        }
        let v: Vec<u64> = tally.values().cloned().collect();
        let z = chi2_uniform_z(&v);
        c.count("samples", trials);
        c.seen(hash_usizes(&[n, k]));
        c.sample(|| format!("{} of {}: {} subsets over {} samples, score {:.2}", k, n, v.len(), trials, z));
        ensure!(z < Z_ALARM, "{} of {}: subsets are not equally likely (score {:.1}, tallies {:?})", k, n, z, v);
        Ok(())
    });
    let large: Vec<(usize, usize)> = vec![(20, 1), (20, 10), (33, 32), (50, 7), (64, 8), (100, 10), (100, 90), (257, 20), (300, 150), (600, 300), (1000, 500), (1000, 30), (1024, 64), (2000, 1), (5000, 100), (20000, 500), (70000, 1000)];
    cx.group("elements of large pools", large.len() as u64, large.len() as u64, |c| {
        let (n, k) = large[c.index as usize];
        let trials = (if c.thorough { 40_000_000 } else { 3_000_000 } / n).max(30);
        let pool: Vec<u32> = (0..n as u32).collect();
        let mut hits = vec![0u64; n];
        let mut first = vec![0u64; n]; // which element sits at the first place of the sample: uniform over ... itself only in distribution of sets
        let (mut pairs, mut m) = (0u64, vec![false; n]);
        for _ in 0..trials {
            let s = reservoir_sample(&pool, k);
            ensure!(s.len() == k, "wrong size");
            for &x in &s { ensure!((x as usize) < n && !m[x as usize], "bad element {}", x); m[x as usize] = true; hits[x as usize] += 1; }
            first[s[0] as usize] += 1;
            for i in 0..n - 1 { if m[i] && m[i + 1] { pairs += 1; } }
            for &x in &s { m[x as usize] = false; }
        }
        let (nf, kf, t) = (n as f64, k as f64, trials as f64);
        let p = kf / nf;
        // exact: Var = t p (1-p), pairwise correlation -1/(n-1) => (n-1)/n * sum of squared scores ~ chi2(n-1)
        let scale = (nf - 1.0) / nf;
        let x: f64 = hits.iter().map(|h| (*h as f64 - t * p).powi(2) / (t * p * (1.0 - p))).sum::<f64>() * scale;
        let kk = nf - 1.0;
        let z = ((x / kk).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * kk))) / (2.0 / (9.0 * kk)).sqrt();
        c.count("samples", trials as u64);
        c.seen(hash_usizes(&[n, k]));
        // the sparse regime (fewer than ~5 hits per element) is only tested in aggregate below
        if t * p * (1.0 - p) > 5.0 { ensure!(z < Z_ALARM, "{} of {}: elements are not equally likely (score {:.1})", k, n, z); }
        for parts in [2usize, 3, 8, 10] {
            let mut obs = vec![0f64; parts];
            let mut sz = vec![0f64; parts];
            for i in 0..n { obs[i * parts / n] += hits[i] as f64; sz[i * parts / n] += 1.0; }
            for b in 0..parts {
                let q = sz[b] / nf;
                let var = t * kf * q * (1.0 - q) * (nf - kf) / (nf - 1.0);
                let z = (obs[b] - t * kf * q) / var.sqrt();
                ensure!(z.abs() < Z_ALARM, "{} of {}: part {} of {} is drawn {} times instead of {:.0} (score {:.1})", k, n, b, parts, obs[b], t * kf * q, z);
            }
        }
        // individual ends of the pool
        for i in [0, k - 1, k.min(n - 1), n - 1] {
            let z = binom_z(hits[i], trials as u64, p);
            if t * p > 10.0 && t * (1.0 - p) > 10.0 { ensure!(z.abs() < Z_ALARM, "{} of {}: element {} is drawn {} times instead of {:.0}", k, n, i, hits[i], t * p); }
        }
        if k > 1 {
            let q = kf * (kf - 1.0) / (nf * (nf - 1.0));
            let e = t * (nf - 1.0) * q;
            // conservative variance: adjacent pairs overlap in at most two others
            let z = (pairs as f64 - e) / (3.0 * e + 1.0).sqrt();
            ensure!(z.abs() < Z_ALARM, "{} of {}: adjacent elements are drawn together {} times instead of {:.0} (score {:.1})", k, n, pairs, e, z);
        }
        c.sample(|| format!("{} of {}: {} samples, element score {:.2}, adjacent pairs {}", k, n, trials, z, pairs));
        Ok(())
    });
    cx.group("other sizes", 40, 400, |c| {
        // any size, any sample size, several element types: elements, and pairs at every distance
        let wide = c.rng.chance(0.15);
        let n = if wide { c.rng.logu(3.5, 5.6) as usize } else { c.rng.size(2, 150, 3000) };
        let k = match c.rng.below(4) { 0 => 1, 1 => n - 1, 2 => (n / 2).max(1), _ => c.rng.range(1, n - 1) };
        let kind = if wide { c.rng.below(2) } else { c.rng.below(4) };
        let n = if kind == 3 { n.min(60) } else { n };
        let k = k.min(n - 1).max(1);
        let trials = (if c.thorough { 4_000_000 } else { 1_000_000 } / n / if kind == 3 { 20 } else { 1 }).max(if wide { 6 } else { 150 }) as u64;
        let h = huge(if kind == 3 { n } else { 0 });
        let (a, b, d): (Vec<u32>, Vec<Fat>, Vec<(u16, u8)>) = ((0..n as u32).collect(), (0..n).map(|i| Fat { id: i as u32, pad: [1; 9], tail: 0 }).collect(), (0..n).map(|i| (i as u16, 1)).collect());
        let mut hits = vec![0u64; n];
        let mut far = vec![0u64; n];
        let mut m = vec![false; n];
        for _ in 0..trials {
            let s: Vec<usize> = match kind { 0 => reservoir_sample(&a, k).iter().map(|x| *x as usize).collect(), 1 => reservoir_sample(&b, k).iter().map(|x| x.id as usize).collect(), 3 => reservoir_sample(&h, k).iter().map(|x| x.id as usize).collect(), _ => reservoir_sample(&d, k).iter().map(|x| x.0 as usize).collect() };
            for &x in &s { ensure!(x < n && !m[x], "bad element {}", x); m[x] = true; hits[x] += 1; }
            if n <= 150 { for i in 0..n { if m[i] { for j in i + 1..n { far[j - i] += m[j] as u64; } } } }
            for &x in &s { m[x] = false; }
        }
        let (nf, kf, t) = (n as f64, k as f64, trials as f64);
        let p = kf / nf;
        let kk = nf - 1.0;
        let x: f64 = hits.iter().map(|h| (*h as f64 - t * p).powi(2) / (t * p * (1.0 - p))).sum::<f64>() * (nf - 1.0) / nf;
        let z = ((x / kk).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * kk))) / (2.0 / (9.0 * kk)).sqrt();
        c.count("samples", trials);
        c.seen(hash_usizes(&[n, k, kind]));
        c.sample(|| format!("{} of {}, element type {}: {} samples, element score {:.2}", k, n, kind, trials, z));
        if t * p * (1.0 - p) > 5.0 && n > 2 { ensure!(z < Z_ALARM + 1.0, "{} of {}: elements are not equally likely (score {:.1})", k, n, z); }
        // every single element
        for i in 0..n { if t * p > 20.0 && t * (1.0 - p) > 20.0 { let z = binom_z(hits[i], trials, p); ensure!(z.abs() < Z_ALARM + 1.0, "{} of {}: element {} is drawn {} times in {}, expected {:.0}", k, n, i, hits[i], trials, t * p); } }
        // tenths of the pool, and its ends
        let mut share = |a: usize, b: usize| -> Verdict {
            let (o, q) = (hits[a..b].iter().sum::<u64>() as f64, (b - a) as f64 / nf);
            let (e, v) = (t * kf * q, t * kf * q * (1.0 - q) * (nf - kf) / (nf - 1.0));
            ensure!(v < 20.0 || ((o - e) / v.sqrt()).abs() < Z_ALARM, "{} of {}: the elements {}..{} are drawn {} times instead of {:.0}", k, n, a, b, o, e);
            Ok(())
        };
        if n >= 20 { for b in 0..10 { share(b * n / 10, (b + 1) * n / 10)?; } share(n - n / 20, n)?; share(n - n / 100 - 1, n)?; if n > 65536 { share(65536, n)?; } }
        let halves: u64 = hits[..n / 2].iter().sum();
        let q = (n / 2) as f64 / nf;
        let zh = (halves as f64 - t * kf * q) / (t * kf * q * (1.0 - q) * (nf - kf) / (nf - 1.0)).sqrt();
        ensure!(zh.abs() < Z_ALARM, "{} of {}: the first half is drawn {} times instead of {:.0} (score {:.1})", k, n, halves, t * kf * q, zh);
        if n <= 150 && k > 1 {
            let q = kf * (kf - 1.0) / (nf * (nf - 1.0));
            for d in 1..n {
                let e = t * (nf - d as f64) * q;
                if e < 30.0 { continue; }
                // variance: overlapping pairs share one element, so at most 3 e (1 - ..)
                let z = (far[d] as f64 - e) / (3.0 * e).sqrt();
                ensure!(z.abs() < Z_ALARM, "{} of {}: elements {} places apart are drawn together {} times instead of {:.0} (score {:.1})", k, n, d, far[d], e, z);
            }
        }
        Ok(())
    });
    cx.group("coincidences", 1, 4, |c| coincidences(c, DRAWS[0].0, DRAWS[0].1, &(0..20).collect::<Vec<u32>>()));
    cx.group("consecutive samples", 4, 4, |c| {
        let n = [3usize, 5, 6, 8][c.index as usize];
        let trials = if c.thorough { 2_000_000 } else { 200_000 };
        let pool: Vec<usize> = (0..n).collect();
        let mut tally = vec![0u64; n * n];
        let mut prev = reservoir_sample(&pool, 1)[0];
        // overlapping pairs are avoided so that the tally is multinomial
        for i in 0..trials { let x = reservoir_sample(&pool, 1)[0]; if i % 2 == 0 { tally[prev * n + x] += 1; } prev = x; }
        let z = chi2_uniform_z(&tally);
        c.count("samples", trials);
        c.seen(n as u64);
        ensure!(z < Z_ALARM, "successive single draws from {} elements are dependent (score {:.1})", n, z);
        // interleaving draws from other pools changes nothing
        let mut tally = vec![0u64; n];
        for i in 0..trials / 2 { let _ = reservoir_sample(&pool[..(i as usize % n) + 1], 1); tally[reservoir_sample(&pool, 1)[0]] += 1; }
        let z = chi2_uniform_z(&tally);
        ensure!(z < Z_ALARM, "draws are biased when other samples are taken in between (score {:.1})", z);
        Ok(())
    });
}

fn is_perm(v: &[u64], n: usize) -> Verdict {
    ensure!(v.len() == n, "{} elements became {}", n, v.len());
    let mut hit = vec![false; n];
    for &x in v {
        ensure!((x as usize) < n && !hit[x as usize], "element {} is foreign or repeated after shuffling {}", x, n);
        hit[x as usize] = true;
    }
    Ok(())
}

struct Tok { id: u64, live: Rc<Cell<i64>> }
impl Drop for Tok { fn drop(&mut self) { self.live.set(self.live.get() - 1); } }

fn r03(cx: &mut Ctx) {
    cx.rule("Arrays of uniquely numbered elements, all lengths 0..300 and then lengths up to 70000, copied and in-place shuffles, owned, zero-sized and large element types, ordinary and extreme random words; an execution counts when the length is at least 2, identified by length and stream.");
    cx.group("every length", 301, 301, |c| {
        let n = c.index as usize;
        for rep in 0..3u64 {
            c.reseed(rep);
            rand::verif::set_extreme(if rep == 2 { 3 } else { 0 });
            let a: Vec<u64> = (0..n as u64).collect();
            let b = fisher_yates(&a);
            is_perm(&b, n)?;
            ensure!(a.iter().enumerate().all(|(i, x)| *x == i as u64), "the source array was changed");
            let mut d = a.clone();
            in_place_fisher_yates(&mut d);
            is_perm(&d, n)?;
            c.count("shuffles", 2);
            if n >= 2 { c.seen(hash_usizes(&[n, rep as usize])); }
        }
        // and each length up to 3310 once
        let first = 301 + c.index as usize * 10;
        for n in first..first + 10 {
            let mut d: Vec<u32> = (0..n as u32).collect();
            is_perm(&fisher_yates(&d).iter().map(|x| *x as u64).collect::<Vec<_>>(), n)?;
            in_place_fisher_yates(&mut d);
            is_perm(&d.iter().map(|x| *x as u64).collect::<Vec<_>>(), n)?;
            c.count("shuffles", 2);
        }
        Ok(())
    });
    cx.group("random lengths", 400, 6000, |c| {
        let n = size(c);
        rand::verif::set_extreme(*c.rng.pick(&[0, 0, 3, 30]));
        let a: Vec<u64> = (0..n as u64).collect();
        is_perm(&fisher_yates(&a), n)?;
        // shuffling part of an array leaves the rest alone
        let lo = c.rng.below(n + 1);
        let hi = c.rng.range(lo, n);
        let mut d = a.clone();
        in_place_fisher_yates(&mut d[lo..hi]);
        is_perm(&d, n)?;
        ensure!(d[..lo] == a[..lo] && d[hi..] == a[hi..], "elements outside the shuffled part {}..{} of {} moved", lo, hi, n);
        c.count("shuffles", 2);
        if n >= 2 { c.seen(hash_usizes(&[n, lo, hi, c.index as usize])); }
        c.sample(|| format!("length {}, part {}..{}", n, lo, hi));
        Ok(())
    });
    cx.group("element types", 120, 1500, |c| {
        let n = c.rng.below(120);
        let live = Rc::new(Cell::new(n as i64));
        let mut v: Vec<Tok> = (0..n).map(|i| Tok { id: i as u64, live: live.clone() }).collect();
        in_place_fisher_yates(&mut v);
        ensure!(live.get() == n as i64, "{} owned elements were dropped by a shuffle", n as i64 - live.get());
        is_perm(&v.iter().map(|t| t.id).collect::<Vec<_>>(), n)?;
        drop(v);
        ensure!(live.get() == 0, "owned elements dropped twice or leaked");
        let fat: Vec<Fat> = (0..n).map(|i| Fat { id: i as u32, pad: [i as u64 * 3; 9], tail: i as u8 }).collect();
        let s = fisher_yates(&fat);
        ensure!(s.iter().all(|x| fat[x.id as usize] == *x), "copied structs were torn");
        is_perm(&s.iter().map(|x| x.id as u64).collect::<Vec<_>>(), n)?;
        let mut units = vec![(); n];
        in_place_fisher_yates(&mut units);
        ensure!(fisher_yates(&units).len() == n, "zero-sized elements");
        let mut h = huge(n);
        let s = fisher_yates(&h);
        ensure!(s.iter().all(|x| (x.id as usize) < n && h[x.id as usize] == *x), "copied large structs were torn");
        is_perm(&s.iter().map(|x| x.id as u64).collect::<Vec<_>>(), n)?;
        in_place_fisher_yates(&mut h);
        ensure!(h.iter().all(|x| x.pad.iter().all(|p| *p == x.id as u64 * 5)), "large structs were torn in place");
        is_perm(&h.iter().map(|x| x.id as u64).collect::<Vec<_>>(), n)?;
        let bools: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
        let s = fisher_yates(&bools);
        ensure!(s.len() == n && s.iter().filter(|b| **b).count() == bools.iter().filter(|b| **b).count(), "booleans changed");
        c.count("shuffles", 5);
        if n >= 2 { c.seen(hash_usizes(&[n, 5, c.index as usize])); }
        Ok(())
    });
}

fn r04(cx: &mut Ctx) {
    cx.rule("Repeated shuffles of both kinds; tallies over all permutations of short arrays, over (place, element) for longer ones, over the parity, fixed points, ascents and kept neighbours, and over consecutive shuffles, against exact expectations; alarm beyond 7 standard deviations. Non-trivial: each tally with at least two cells.");
    fn shuf(kind: u64, a: &[u16]) -> Vec<u16> { if kind == 0 { fisher_yates(a) } else { let mut v = a.to_vec(); in_place_fisher_yates(&mut v); v } }
    cx.group("all permutations", 10, 10, |c| {
        let (kind, n) = (c.index % 2, 2 + (c.index / 2) as usize);
        let trials = if c.thorough { 20_000_000 } else { 2_000_000 };
        let a: Vec<u16> = (0..n as u16).collect();
        let f: usize = (1..=n).product();
        let mut tally = vec![0u64; f];
        for _ in 0..trials {
            let p = shuf(kind, &a);
            ensure!(p.len() == n, "length");
            let mut r = 0;
            for i in 0..n { r = r * (n - i) + p[i + 1..].iter().filter(|x| **x < p[i]).count(); }
            ensure!(r < f, "{:?} is not a permutation", p);
            tally[r] += 1;
        }
        let z = chi2_uniform_z(&tally);
        c.count("shuffles", trials);
        c.seen(hash_usizes(&[kind as usize, n]));
        c.sample(|| format!("{} shuffle of {}: {} permutations over {} shuffles, score {:.2}", if kind == 0 { "copying" } else { "in-place" }, n, f, trials, z));
        ensure!(z < Z_ALARM, "{} shuffle of {}: permutations are not equally likely (score {:.1}) {:?}", if kind == 0 { "copying" } else { "in-place" }, n, z, &tally[..tally.len().min(24)]);
        Ok(())
    });
    let lens = [7usize, 8, 10, 16, 17, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2000, 4096, 5000, 10000, 20000, 40000];
    cx.group("places and elements", 2 * lens.len() as u64, 2 * lens.len() as u64, |c| {
        let (kind, n) = (c.index % 2, lens[(c.index / 2) as usize]);
        let trials = (if c.thorough { 40_000_000 } else if n <= 64 { 8_000_000 } else { 2_000_000 } / n).max(40);
        let a: Vec<u16> = (0..n as u16).collect();
        let parts = n.min(if trials < 400 { 8 } else { 50 });
        let bucket = |x: usize| x * parts / n;
        let mut sz = vec![0f64; parts];
        for i in 0..n { sz[bucket(i)] += 1.0; }
        let mut cell = vec![0f64; parts * parts];
        let (mut fixed, mut kept, mut asc, mut corner) = (0u64, 0u64, 0u64, [0u64; 4]);
        let mut odd = 0u64;
        let mut seen = vec![false; n];
        for _ in 0..trials {
            let p = shuf(kind, &a);
            ensure!(p.len() == n, "length");
            for (i, &x) in p.iter().enumerate() {
                let x = x as usize;
                ensure!(x < n, "foreign element");
                cell[bucket(i) * parts + bucket(x)] += 1.0;
                if x == i { fixed += 1; }
                if i > 0 { let y = p[i - 1] as usize; if x == y + 1 { kept += 1; } if x > y { asc += 1; } }
            }
            for (k, (i, x)) in [(0, 0), (0, n - 1), (n - 1, 0), (n - 1, n - 1)].iter().enumerate() { if p[*i] as usize == *x { corner[k] += 1; } }
            for s in seen.iter_mut() { *s = false; }
            let mut cycles = 0;
            for i in 0..n { if !seen[i] { cycles += 1; let mut j = i; while !seen[j] { seen[j] = true; j = p[j] as usize; } } }
            if (n - cycles) % 2 == 1 { odd += 1; }
        }
        let (t, nf) = (trials as f64, n as f64);
        // exact covariance of a random permutation's indicator table: (n/(n-1)) factor, chi2((parts-1)^2)
        let mut x = 0.0;
        for i in 0..parts { for j in 0..parts { let e = t * sz[i] * sz[j] / nf; x += (cell[i * parts + j] - e).powi(2) / e; } }
        x *= (nf - 1.0) / nf;
        let k = ((parts - 1) * (parts - 1)) as f64;
        let z = ((x / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt();
        let what = if kind == 0 { "copying" } else { "in-place" };
        c.count("shuffles", trials as u64);
        c.seen(hash_usizes(&[kind as usize, n]));
        c.sample(|| format!("{} shuffle of {}: {} shuffles, place/element score {:.2}, fixed points {}, odd {}", what, n, trials, z, fixed, odd));
        ensure!(z < Z_ALARM, "{} shuffle of {}: elements do not reach all places equally (score {:.1})", what, n, z);
        // single cells catch a concentrated bias that the table average hides
        for i in 0..parts { for j in 0..parts {
            let q = sz[i] * sz[j] / nf; let e = t * q; let s = (cell[i * parts + j] - e) / e.sqrt();
            if e > 30.0 { ensure!(s.abs() < 8.0, "{} shuffle of {}: places {}/{} receive elements {}/{} {} times instead of {:.0}", what, n, i, parts, j, parts, cell[i * parts + j], e); }
        } }
        let pz = |obs: f64, mean: f64, var: f64| (obs - mean) / var.sqrt();
        ensure!(pz(fixed as f64, t, t).abs() < Z_ALARM, "{} shuffle of {}: {} fixed points in {} shuffles", what, n, fixed, trials);
        let km = t * (nf - 1.0) / nf;
        ensure!(pz(kept as f64, km, km * 1.2).abs() < Z_ALARM, "{} shuffle of {}: {} neighbours kept together instead of {:.0}", what, n, kept, km);
        ensure!(pz(asc as f64, t * (nf - 1.0) / 2.0, t * (nf + 1.0) / 12.0).abs() < Z_ALARM, "{} shuffle of {}: {} ascents instead of {:.0}", what, n, asc, t * (nf - 1.0) / 2.0);
        ensure!(pz(odd as f64, t / 2.0, t / 4.0).abs() < Z_ALARM, "{} shuffle of {}: {} odd permutations of {}", what, n, odd, trials);
        for q in corner.iter() { let e = t / nf; if e > 20.0 { ensure!(pz(*q as f64, e, e).abs() < Z_ALARM, "{} shuffle of {}: ends are kept or swapped {} times instead of {:.0}", what, n, q, e); } }
        Ok(())
    });
    cx.group("other lengths", 40, 400, |c| {
        // any length, several element types: halves and quarters of places and elements, ends, parity, neighbours
        let wide = c.rng.chance(0.15);
        let n = if wide { c.rng.logu(3.7, 5.5) as usize } else { c.rng.size(2, 300, 5000) };
        let kind = if wide { *c.rng.pick(&[0, 5, 2]) } else { c.rng.below(10) };
        let n = if kind >= 8 { n.min(256) } else if kind >= 6 { n.min(60) } else { n };
        let trials = (if c.thorough { 3_000_000 } else { 800_000 } / n / if kind == 6 || kind == 7 { 20 } else { 1 }).max(if wide { 8 } else { 100 });
        let big = huge(if kind == 6 || kind == 7 { n } else { 0 });
        let copy = |p: &[usize]| -> Vec<usize> {
            match kind {
                0 => fisher_yates(&p.iter().map(|i| *i as u32).collect::<Vec<_>>()).iter().map(|x| *x as usize).collect(),
                1 => fisher_yates(&p.iter().map(|i| Fat { id: *i as u32, pad: [3; 9], tail: 1 }).collect::<Vec<_>>()).iter().map(|x| x.id as usize).collect(),
                2 => { let mut v: Vec<Box<usize>> = p.iter().map(|i| Box::new(*i)).collect(); in_place_fisher_yates(&mut v); v.iter().map(|x| **x).collect() }
                3 => { let mut v: Vec<Fat> = p.iter().map(|i| Fat { id: *i as u32, pad: [3; 9], tail: 1 }).collect(); in_place_fisher_yates(&mut v); v.iter().map(|x| x.id as usize).collect() }
                4 => { let mut v: Vec<u16> = p.iter().map(|i| *i as u16).collect(); in_place_fisher_yates(&mut v); v.iter().map(|x| *x as usize).collect() }
                5 => fisher_yates(p),
                6 => { let mut v = big.clone(); in_place_fisher_yates(&mut v); v.iter().map(|x| x.id as usize).collect() }
                8 => fisher_yates(&p.iter().map(|i| *i as u8).collect::<Vec<_>>()).iter().map(|x| *x as usize).collect(),
                9 => { let mut v: Vec<i8> = p.iter().map(|i| *i as u8 as i8).collect(); in_place_fisher_yates(&mut v); v.iter().map(|x| *x as u8 as usize).collect() }
                _ => fisher_yates(&big).iter().map(|x| x.id as usize).collect(),
            }
        };
        let parts = n.min(6);
        let mut sz = vec![0f64; parts];
        for i in 0..n { sz[i * parts / n] += 1.0; }
        let mut cell = vec![0f64; parts * parts];
        let (mut odd, mut kept, mut asc) = (0u64, 0u64, 0u64);
        let base: Vec<usize> = (0..n).collect();
        let (mut still, mut mirror) = (vec![0u64; n], vec![0u64; n]);
        let mut seen = vec![false; n];
        for _ in 0..trials {
            let p = copy(&base);
            ensure!(p.len() == n, "length");
            for (i, &x) in p.iter().enumerate() {
                ensure!(x < n, "foreign element");
                cell[(i * parts / n) * parts + x * parts / n] += 1.0;
                if x == i { still[i] += 1; }
                if x + i + 1 == n { mirror[i] += 1; }
                if i > 0 { if x == p[i - 1] + 1 { kept += 1; } if x > p[i - 1] { asc += 1; } }
            }
            seen.iter_mut().for_each(|s| *s = false);
            let mut cycles = 0;
            for i in 0..n { if !seen[i] { cycles += 1; let mut j = i; while !seen[j] { seen[j] = true; j = p[j]; } } }
            if (n - cycles) % 2 == 1 { odd += 1; }
        }
        let (t, nf) = (trials as f64, n as f64);
        c.count("shuffles", trials as u64);
        c.seen(hash_usizes(&[kind, n]));
        c.sample(|| format!("element type {}, length {}: {} shuffles, odd {}, neighbours kept {}", kind, n, trials, odd, kept));
        // every single place: how often its element stays, and how often it goes to the opposite place
        for i in 0..n { for (k, w) in [(still[i], "stays"), (mirror[i], "goes to the opposite place")].iter() {
            let (k, e) = (*k as f64, t / nf);
            ensure!(k == e || poisson_bound(k, e) > 1e-14, "type {}, length {}: element {} {} in {} of {} shuffles, expected {:.1}", kind, n, i, w, k, t, e);
        } }
        for i in 0..parts { for j in 0..parts {
            let e = t * sz[i] * sz[j] / nf;
            // hypergeometric variance per shuffle
            let v = t * sz[i] * sz[j] / nf * (nf - sz[i]) * (nf - sz[j]) / (nf * (nf - 1.0));
            let z = (cell[i * parts + j] - e) / v.sqrt();
            if v > 20.0 { ensure!(z.abs() < Z_ALARM, "type {}, length {}: part {} of the places receives part {} of the elements {} times instead of {:.0} (score {:.1})", kind, n, i, j, cell[i * parts + j], e, z); }
        } }
        let km = t * (nf - 1.0) / nf;
        let pz = |obs: f64, mean: f64, var: f64| (obs - mean) / var.sqrt();
        if km > 40.0 { ensure!(pz(kept as f64, km, km * 1.3).abs() < Z_ALARM, "type {}, length {}: {} neighbours kept together instead of {:.0}", kind, n, kept, km); }
        ensure!(pz(asc as f64, t * (nf - 1.0) / 2.0, t * (nf + 1.0) / 12.0).abs() < Z_ALARM, "type {}, length {}: {} ascents instead of {:.0}", kind, n, asc, t * (nf - 1.0) / 2.0);
        ensure!(pz(odd as f64, t / 2.0, t / 4.0).abs() < Z_ALARM, "type {}, length {}: {} odd permutations of {}", kind, n, odd, trials);
        Ok(())
    });
    // long arrays, where the first and last steps of the shuffle decide: which of the outermost elements come to lie where
    // on the outermost places, tallied over many shuffles
    cx.group("ends of long arrays", 4, 40, |c| {
        let kind = c.index % 2;
        let n = *c.rng.pick(&[160usize, 530, 1030, 1030, 1030, 2060]) + c.rng.below(30);
        let trials = if c.thorough { 300_000_000 } else { 100_000_000 } / n;
        let a: Vec<u16> = (0..n as u16).collect();
        const E: usize = 6;
        let near = |x: usize| if x < E { Some(x) } else if x + E >= n { Some(2 * E + x - n) } else { None };
        let mut cell = [[0u64; 2 * E]; 2 * E];
        let (mut before, mut next) = ([0u64; 2 * E], [0u64; 2 * E]);
        let ends: Vec<usize> = (0..E).chain(n - E..n).collect();
        for _ in 0..trials {
            let p = shuf(kind, &a);
            ensure!(p.len() == n, "length");
            for (i, &at) in ends.iter().enumerate() {
                if let Some(x) = near(p[at] as usize) { cell[i][x] += 1; }
                // the order of two places side by side, and whether they hold elements side by side
                let (q, r) = (p[at] as usize, p[if at + 1 < n { at + 1 } else { at - 1 }] as usize);
                if q < r { before[i] += 1; }
                if q + 1 == r || r + 1 == q { next[i] += 1; }
            }
        }
        c.count("shuffles", trials as u64);
        c.seen(hash_usizes(&[kind as usize, n, c.index as usize]));
        let what = if kind == 0 { "copying" } else { "in-place" };
        let e = trials as f64 / n as f64;
        for i in 0..2 * E { for x in 0..2 * E {
            let k = cell[i][x] as f64;
            ensure!(k == e || poisson_bound(k, e) > 1e-12, "{} shuffle of {}: element {} lies on place {} in {} of {} shuffles, expected {:.1}", what, n, ends[x], ends[i], k, trials, e);
        } }
        let all: Vec<u64> = cell.iter().flatten().cloned().collect();
        let sum = all.iter().sum::<u64>() as f64;
        let se = e * (4 * E * E) as f64;
        ensure!(((sum - se) / se.sqrt()).abs() < Z_ALARM, "{} shuffle of {}: the outermost elements stay outermost {} times, expected {:.0}", what, n, sum, se);
        for i in 0..2 * E {
            ensure!(binom_z(before[i], trials as u64, 0.5).abs() < Z_ALARM, "{} shuffle of {}: place {} holds the smaller element {} times in {} shuffles", what, n, ends[i], before[i], trials);
            let w = 2.0 * e;
            ensure!(next[i] as f64 == w || poisson_bound(next[i] as f64, w) > 1e-12, "{} shuffle of {}: places by {} hold neighbours {} times in {} shuffles, expected {:.1}", what, n, ends[i], next[i], trials, w);
        }
        Ok(())
    });
    cx.group("coincidences", 2, 8, |c| {
        let d = &DRAWS[1 + (c.index % 2) as usize];
        coincidences(c, d.0, d.1, &(0..40).collect::<Vec<u32>>())
    });
    cx.group("consecutive shuffles", 2, 2, |c| {
        let trials = if c.thorough { 1_000_000 } else { 150_000 };
        let a: Vec<u16> = (0..3).collect();
        let mut tally = vec![0u64; 36];
        let rank = |p: &[u16]| p[0] as usize * 2 + (p[1] > p[2]) as usize;
        for _ in 0..trials { let p = shuf(c.index, &a); let q = shuf(c.index, &a); tally[rank(&p) * 6 + rank(&q)] += 1; }
        let z = chi2_uniform_z(&tally);
        c.count("shuffles", 2 * trials);
        c.seen(c.index);
        ensure!(z < Z_ALARM, "successive shuffles are dependent (score {:.1})", z);
        // a shuffle of an already shuffled array
        let mut v: Vec<u16> = (0..4).collect();
        let mut tally = vec![0u64; 16];
        for _ in 0..trials { let w = v.clone(); v = shuf(c.index, &v); for i in 0..4 { tally[i * 4 + w.iter().position(|x| *x == v[i]).unwrap()] += 1; } }
        let z = chi2_uniform_z(&tally); // sum over a permutation table: conservative (variance below Poisson)
        ensure!(z < Z_ALARM, "reshuffling is biased (score {:.1})", z);
        Ok(())
    });
}

// ------------------------------------------------------------ activation functions

fn activation_points(c: &mut Case, n: usize) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, 1.0 + 3e-9, -1.0, 0.5, 0.5, -0.5, 2.0, -2.0, 1e-300, -1e-300, 1e-16, -1e-16, 5e-324, 36.0, 37.0, -36.0, 19.0, 20.0, 22.0, -19.0, -20.0, -22.0, 500.0, -500.0, 700.0, -700.0, 709.0, -709.0, 745.0, -745.0, 1e3, -1e3, 1e10, -1e10, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY];
    for _ in 0..n {
        v.push(match c.rng.below(6) {
            4 => *c.rng.pick(&[1.0, 0.5, 0.1, 0.25, 0.01]) * (c.rng.below(201) as f64 - 100.0),
            5 => { let x = f64::from_bits(c.rng.u64()); if x.is_finite() { x } else { 3.0 } }
            0 => c.rng.normal(), 1 => c.rng.uniform(-40.0, 40.0), 2 => c.rng.sign() * c.rng.logu(-12.0, 3.0), _ => c.rng.uniform(-750.0, 750.0) });
        // the same point again, and one very near it, right afterwards
        if c.rng.chance(0.05) { let x = v[v.len() - 1]; if x.is_finite() { let e = c.rng.logu(-15.0, -6.0); v.push(x * (1.0 + e)); v.push(x); } }
    }
    v
}

fn a01(cx: &mut Ctx) {
    cx.rule("Points over the whole line (uniform, normal, log-spaced magnitudes, saturation and overflow boundaries, infinities, NaN) given to each activation function; values compared with references evaluated in a numerically different way, plus order, range and symmetry along sorted sweeps. Non-trivial: finite point, identified by its bits.");
    fn sig(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let e = x.exp(); e / (1.0 + e) } }
    fn th(x: f64) -> f64 { let a = x.abs(); let e = (-2.0 * a).exp_m1(); x.signum() * (-e / (e + 2.0)) }
    cx.group("values", 60, 1200, |c| {
        for x in activation_points(c, 300) {
            let s = activ_fn::Sigmoid::func(x);
            ensure!(close(s, sig(x), 1e-13, 1e-300), "sigmoid({:e}) = {:e}, expected {:e}", x, s, sig(x));
            let l = activ_fn::Linear::func(x);
            ensure!(l == x, "linear({:e}) = {:e}", x, l);
            let e = activ_fn::Exp::func(x);
            ensure!(close(e, x.exp(), 1e-13, 1e-320), "exp({:e}) = {:e}, expected {:e}", x, e, x.exp());
            let t = activ_fn::Tanh::func(x);
            ensure!(close(t, if x == 0.0 { 0.0 } else { th(x) }, 1e-13, 1e-320), "tanh({:e}) = {:e}, expected {:e}", x, t, th(x));
            ensure!(s >= 0.0 && s <= 1.0 && e >= 0.0 && t.abs() <= 1.0, "out of range at {:e}: {} {} {}", x, s, e, t);
            ensure!(close(activ_fn::Sigmoid::func(-x), 1.0 - s, 1e-9, 3e-16), "sigmoid(-x) is not 1 - sigmoid(x) at {:e}", x);
            ensure!(close(activ_fn::Tanh::func(-x), -t, 1e-14, 0.0), "tanh is not odd at {:e}", x);
            c.count("points", 1);
            if x.is_finite() { c.seen(x.to_bits()); }
        }
        Ok(())
    });
    cx.group("order", 20, 400, |c| {
        let mut v = activation_points(c, 400);
        if c.index % 2 == 0 { let a = c.rng.uniform(-30.0, 30.0); let h = c.rng.logu(-6.0, -1.0); v = (0..600).map(|i| a + i as f64 * h).collect(); }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for w in v.windows(2) {
            let fs: [(&str, fn(f64) -> f64); 4] = [("sigmoid", activ_fn::Sigmoid::func), ("linear", activ_fn::Linear::func), ("exp", activ_fn::Exp::func), ("tanh", activ_fn::Tanh::func)];
            for (n, f) in fs.iter() {
                let (a, b) = (f(w[0]), f(w[1]));
                ensure!(a <= b || close(a, b, 4e-16, 0.0), "{} decreases from {:e} at {:e} to {:e} at {:e}", n, a, w[0], b, w[1]);
            }
            c.count("ordered pairs", 1);
            c.seen(hash_f64s(w));
        }
        Ok(())
    });
    cx.group("not a number", 1, 1, |c| {
        let n = f64::NAN;
        ensure!(activ_fn::Sigmoid::func(n).is_nan() && activ_fn::Linear::func(n).is_nan() && activ_fn::Exp::func(n).is_nan() && activ_fn::Tanh::func(n).is_nan(), "NaN was swallowed");
        c.count("points", 4);
        Ok(())
    });
}

fn activation_contract<F: ActivationFunc>(c: &mut Case, name: &str, dref: fn(f64) -> f64, lo: f64, hi: f64) -> Verdict {
    for x in activation_points(c, 250) {
        if !x.is_finite() { continue; }
        let (y, g) = (F::func(x), F::func_grad(x));
        let d = dref(x);
        // where the value itself tells small from nothing (towards 0), so does the gradient
        let abs = if lo == 0.0 && x < 0.0 && x > -300.0 { 1e-200 } else { 6e-16 };
        ensure!(close(g, d, 1e-9, abs), "{}: gradient at {:e} is {:e}, the derivative is {:e}", name, x, g, d);
        let go = F::func_grad_from_output(y);
        ensure!(close(go, g, 1e-9, abs), "{}: gradient from the output at {:e} is {:e}, at the point {:e}", name, x, go, g);
        if y.is_finite() && d > 0.0 && x.abs() < 600.0 {
            let xi = F::func_inv(y);
            // one rounding of y moves the inverse by eps*|y|/f'
            let tol = 1e-13 + 1e-12 * x.abs() + 8.0 * f64::EPSILON * y.abs().max(f64::MIN_POSITIVE) / d + if y.abs() > 0.5 && hi == 1.0 { 8.0 * f64::EPSILON / d } else { 0.0 };
            if tol < 0.5 { ensure!((xi - x).abs() <= tol, "{}: inverse of {:e} is {:e}, expected {:e}", name, y, xi, x); c.count("inverted", 1); }
        }
        // the derivative as a limit, where rounding permits
        if x.abs() < 15.0 {
            let h = 1e-4 * (1.0 + x.abs());
            let num = (8.0 * (F::func(x + h) - F::func(x - h)) - (F::func(x + 2.0 * h) - F::func(x - 2.0 * h))) / (12.0 * h);
            ensure!(close(num, g, 1e-6, 1e-9 * (1.0 + y.abs())), "{}: difference quotient at {:e} is {:e}, gradient {:e}", name, x, num, g);
            c.count("difference quotients", 1);
        }
        c.count("points", 1);
        c.seen(mix(hash_str(name)) ^ x.to_bits());
    }
    for _ in 0..120 {
        let y = if hi.is_infinite() && lo.is_infinite() { c.rng.sign() * c.rng.logu(-10.0, 10.0) }
            else if hi.is_infinite() { c.rng.logu(-300.0, 300.0) }
            else { match c.rng.below(3) { 0 => lo + (hi - lo) * c.rng.unit().max(1e-12), 1 => lo + c.rng.logu(-12.0, -0.4), _ => hi - c.rng.logu(-12.0, -0.4) } };
        if !(y > lo && y < hi) { continue; }
        let x = F::func_inv(y);
        let back = F::func(x);
        ensure!(x.is_finite() && close(back, y, 1e-11, 1e-14_f64.min(y.abs())), "{}: value at the inverse of {:e} ({:e}) is {:e}", name, y, x, back);
        ensure!(close(F::func_grad_from_output(y), dref(x), 1e-6, 1e-11), "{}: gradient from output {:e} is {:e}, derivative there {:e}", name, y, F::func_grad_from_output(y), dref(x));
        c.count("outputs", 1);
        c.seen(y.to_bits() ^ 0x55);
    }
    if lo == 0.0 {
        for _ in 0..60 {
            let y = c.rng.logu(-290.0, -1.0);
            let (g, want) = (F::func_grad_from_output(y), if hi == 1.0 { y * (1.0 - y) } else { y });
            ensure!(close(g, want, 1e-9, 0.0), "{}: gradient from output {:e} is {:e}, expected {:e}", name, y, g, want);
            c.count("small outputs", 1);
        }
    }
    if lo.is_finite() { let b = F::func_inv(lo); ensure!(b == f64::NEG_INFINITY, "{}: inverse at the lower bound is {}", name, b); ensure!(!F::func_inv(lo - 0.25).is_finite(), "{}: a value below the range has a finite inverse", name); }
    if hi.is_finite() { let b = F::func_inv(hi); ensure!(b == f64::INFINITY, "{}: inverse at the upper bound is {}", name, b); ensure!(!F::func_inv(hi + 0.25).is_finite(), "{}: a value above the range has a finite inverse", name); }
    c.sample(|| format!("{}: 250 random points and the boundary points, 120 outputs", name));
    Ok(())
}

fn a02(cx: &mut Ctx) {
    cx.rule("Points over the line and outputs over each range (close to the bounds too): gradient against the closed-form derivative and a five-point difference quotient, gradient from the output against the gradient, inverse against the point. Non-trivial: finite point or output, identified by its bits.");
    fn dsig(x: f64) -> f64 { let e = (-x.abs()).exp(); e / ((1.0 + e) * (1.0 + e)) }
    fn one(_: f64) -> f64 { 1.0 }
    fn dexp(x: f64) -> f64 { x.exp() }
    fn dtanh(x: f64) -> f64 { let e = (-2.0 * x.abs()).exp(); 4.0 * e / ((1.0 + e) * (1.0 + e)) }
    cx.group("sigmoid", 25, 500, |c| activation_contract::<activ_fn::Sigmoid>(c, "sigmoid", dsig, 0.0, 1.0));
    cx.group("linear", 10, 200, |c| activation_contract::<activ_fn::Linear>(c, "linear", one, f64::NEG_INFINITY, f64::INFINITY));
    cx.group("exp", 25, 500, |c| activation_contract::<activ_fn::Exp>(c, "exp", dexp, 0.0, f64::INFINITY));
    cx.group("tanh", 25, 500, |c| activation_contract::<activ_fn::Tanh>(c, "tanh", dtanh, -1.0, 1.0));
}

// ------------------------------------------------------------ cost functions

fn c01(cx: &mut Ctx) {
    cx.rule("Random output/target tables and vectors of 1..40 rows and 1..12 columns at several magnitudes: cost against a compensated recount, gradient against the closed form and against difference quotients of rows x cost in random directions. Non-trivial: outputs differ from targets, identified by the data.");
    fn ksum<I: Iterator<Item = f64>>(it: I) -> f64 { let (mut s, mut e) = (0.0, 0.0); for x in it { let t: f64 = s + x; e += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s }; s = t; } s + e }
    fn check<C: CostFunc<Matrix<f64>> + CostFunc<Vector<f64>>>(c: &mut Case, name: &str, ce: bool) -> Verdict {
        let (r, k) = (c.rng.size(1, 40, 4000), c.rng.size(1, 12, 60));
        let (r, k) = if c.rng.chance(0.04) { (c.rng.range(1, 4), c.rng.range(61, 1200)) } else { (r, k) };
        let n = r * k;
        let s = match c.rng.below(10) { 0 => c.rng.logu(-60.0, 60.0), 1 | 2 => c.rng.logu(-9.0, 9.0), _ => c.rng.logu(-3.0, 3.0) };
        // outputs that equal their target of 0 or 1 (what a saturated sigmoid gives) and outputs within rounding of it
        let (exact, brink) = (ce && c.rng.chance(0.2), ce && c.rng.chance(0.15));
        let (o, t): (Vec<f64>, Vec<f64>) = if ce {
            let edge = c.rng.bool();
            ((0..n).map(|_| if brink && c.rng.chance(0.3) { if c.rng.bool() { c.rng.logu(-300.0, -9.0) } else { 1.0 - c.rng.logu(-15.9, -9.0) } } else if edge && c.rng.chance(0.3) { if c.rng.bool() { c.rng.logu(-12.0, -1.0) } else { 1.0 - c.rng.logu(-10.0, -1.0) } } else { c.rng.uniform(0.01, 0.99) }).collect(),
             (0..n).map(|_| match c.rng.below(3) { 0 => 0.0, 1 => 1.0, _ => c.rng.unit() }).collect())
        } else { (c.rng.normals(n, s), c.rng.normals(n, s)) };
        let mut o = o;
        let mut hits = 0;
        if exact { for i in 0..n { if (t[i] == 0.0 || t[i] == 1.0) && c.rng.chance(0.4) { o[i] = t[i]; hits += 1; } } }
        let (om, tm) = (Matrix::new(r, k, o.clone()), Matrix::new(r, k, t.clone()));
        let (ov, tv) = (Vector::new(o.clone()), Vector::new(t.clone()));
        let terms: Vec<f64> = (0..n).map(|i| if ce { -(if t[i] == 0.0 { 0.0 } else { t[i] * o[i].ln() } + if t[i] == 1.0 { 0.0 } else { (1.0 - t[i]) * (1.0 - o[i]).ln() }) } else { (o[i] - t[i]) * (o[i] - t[i]) / 2.0 }).collect();
        let total = ksum(terms.iter().cloned());
        let cm = <C as CostFunc<Matrix<f64>>>::cost(&om, &tm);
        let cv = <C as CostFunc<Vector<f64>>>::cost(&ov, &tv);
        // forming 1 - output rounds: each logarithm may be off by about 2e-16
        let slack = if ce { 4e-16 * n as f64 } else { 1e-300 };
        ensure!(close(cm, total / r as f64, 1e-11, slack / r as f64), "{}: cost of {}x{} table is {:e}, expected {:e}", name, r, k, cm, total / r as f64);
        ensure!(close(cv, total / n as f64, 1e-11, slack / n as f64), "{}: cost of {} outputs is {:e}, expected {:e}", name, n, cv, total / n as f64);
        ensure!(cm >= 0.0, "{}: negative cost {:e}", name, cm);
        let gm = <C as CostFunc<Matrix<f64>>>::grad_cost(&om, &tm);
        let gv = <C as CostFunc<Vector<f64>>>::grad_cost(&ov, &tv);
        ensure!(gm.rows() == r && gm.cols() == k && gv.size() == n, "{}: gradient has the wrong shape", name);
        for i in 0..n {
            let (inv, dir) = (if t[i] == 1.0 { 0.0 } else { (1.0 - t[i]) / (1.0 - o[i]) }, if t[i] == 0.0 { 0.0 } else { t[i] / o[i] });
            let g = if ce { inv - dir } else { o[i] - t[i] };
            let mag = if ce { inv + dir } else { 0.0 };
            for (w, x) in [("table", gm.data()[i]), ("vector", gv[i])].iter() {
                // (o(1-o) formed in another order is good to eps/(1-o) near 1)
                let rel = 1e-10 + if ce && o[i] < 1.0 { 8.0 * f64::EPSILON / (1.0 - o[i]) } else { 0.0 };
                ensure!(close(*x, g, rel, 1e-12 * mag), "{}: {} gradient entry {} at output {:e}, target {:e} is {:e}, expected {:e}", name, w, i, o[i], t[i], x, g);
            }
        }
        // the gradient is the derivative of the summed (rows x mean) cost
        let j = c.rng.below(n);
        if hits > 0 { c.count("outputs equal to their target", hits); }
        if ce && (o[j] < 1e-12 || 1.0 - o[j] < 1e-9) { c.seen(hash_f64s(&o) ^ hash_f64s(&t)); return Ok(()); }
        let h = if ce { 1e-3 * o[j].min(1.0 - o[j]) } else { 1e-3 * (o[j].abs() + s) };
        let at = |d: f64| { let mut o2 = o.clone(); o2[j] += d; <C as CostFunc<Matrix<f64>>>::cost(&Matrix::new(r, k, o2), &tm) * r as f64 };
        let num = (8.0 * (at(h) - at(-h)) - (at(2.0 * h) - at(-2.0 * h))) / (12.0 * h);
        // (moving an output by h is exact to one rounding of the output)
        ensure!(close(num, gm.data()[j], 1e-6 + 2e-15 * o[j].abs() / h, 1e-9 * total / h + 1e-9 + if ce { 3e-15 / h } else { 0.0 }), "{}: difference quotient {:e}, gradient {:e}", name, num, gm.data()[j]);
        // no difference, no cost
        if !ce { let z = <C as CostFunc<Matrix<f64>>>::cost(&om, &om); ensure!(z == 0.0, "{}: cost of a perfect output is {:e}", name, z); }
        c.count("gradient entries", 2 * n as u64);
        c.seen(hash_f64s(&o) ^ hash_f64s(&t));
        c.sample(|| format!("{} {}x{}: cost {:e}", name, r, k, cm));
        Ok(())
    }
    cx.group("mean squared error", 500, 12000, |c| check::<MeanSqError>(c, "mean squared error", false));
    cx.group("cross entropy", 500, 12000, |c| check::<CrossEntropyError>(c, "cross entropy", true));
    cx.group("shapes", 60, 400, |c| {
        let (r, k) = (c.rng.range(1, 6), c.rng.range(1, 6));
        let a = Matrix::new(r, k, c.rng.uniforms(r * k, 0.1, 0.9));
        let b = Matrix::new(r + 1, k, c.rng.uniforms((r + 1) * k, 0.1, 0.9));
        ensure!(guard(|| MeanSqError::cost(&a, &b)).is_err() && guard(|| CrossEntropyError::cost(&a, &b)).is_err()
            && guard(|| MeanSqError::grad_cost(&a, &b)).is_err() && guard(|| CrossEntropyError::grad_cost(&a, &b)).is_err(), "outputs and targets of different shapes were accepted");
        c.count("rejected", 4);
        Ok(())
    });
}

// ------------------------------------------------------------ regularization

fn c02(cx: &mut Ctx) {
    cx.rule("Random weight tables (whole and as part of a larger one), strengths and kinds, f64 and f32: penalty against a recount, gradient against its difference quotient in every coordinate away from 0. Non-trivial: a non-zero weight and strength, identified by the data.");
    cx.group("penalties", 600, 12000, |c| {
        let (r, k) = if c.rng.chance(0.08) { (c.rng.size(1, 90, 600), c.rng.size(1, 90, 600)) } else { (c.rng.range(1, 8), c.rng.range(1, 8)) };
        let (pr, pk) = (c.rng.below(3), c.rng.below(3));
        let wide = c.rng.chance(0.15);
        let mut w = if c.rng.chance(0.3) { c.rng.ints((r + pr) * (k + pk), -3, 3) } else { let s = if wide { c.rng.logu(-100.0, 100.0) } else { c.rng.logu(-2.0, 2.0) }; c.rng.normals((r + pr) * (k + pk), s) };
        if c.rng.chance(0.05) { for x in &mut w { *x = 0.0; } }
        // single entries far smaller than the rest, down to the smallest numbers there are
        if c.rng.chance(0.1) { for x in &mut w { if c.rng.chance(0.2) { *x = c.rng.sign() * if c.rng.bool() { c.rng.logu(-323.0, -200.0).max(5e-324) } else { c.rng.logu(-30.0, -3.0) }; } } }
        let whole = Matrix::new(r + pr, k + pk, w);
        let (r0, c0) = (c.rng.below(pr + 1), c.rng.below(pk + 1));
        let part = whole.sub_slice([r0, c0], r, k);
        let v: Vec<f64> = part.iter().cloned().collect();
        let (x, y) = (c.rng.logu(-3.0, 2.0), c.rng.logu(-3.0, 2.0));
        let n = r as f64;
        let l1: f64 = v.iter().map(|a| a.abs()).sum::<f64>() / (2.0 * n);
        let sq: f64 = v.iter().map(|a| a * a).sum::<f64>();
        let (l2, l2_root) = (sq / (2.0 * n), sq.sqrt() / (2.0 * n));
        let kinds: [(&str, Regularization<f64>, f64, f64); 4] = [("L1", Regularization::L1(x), x, 0.0), ("L2", Regularization::L2(x), 0.0, x),
            ("elastic net", Regularization::ElasticNet(x, y), x, y), ("none", Regularization::None, 0.0, 0.0)];
        for (name, reg, a, b) in kinds.iter() {
            let cost = reg.reg_cost(part);
            let want = a * l1 + b * l2;
            let root = a * l1 + b * l2_root;
            if !close(cost, want, 1e-11, 1e-300) {
                // recorded defect: the L2 penalty uses the norm where its gradient belongs to the squared norm
                if *b != 0.0 && close(cost, root, 1e-11, 1e-300) { c.finding("l2-cost-not-squared", format!("{} penalty of {:?} is {:e}; the antiderivative of its gradient is {:e}", name, v, cost, want)); }
                else { return Err(format!("{}: penalty of {:?} with {} {} is {:e}, expected {:e}", name, v, a, b, cost, want)); }
            }
            let g = reg.reg_grad(part);
            ensure!(g.rows() == r && g.cols() == k, "{}: gradient shape {}x{} for {}x{} weights", name, g.rows(), g.cols(), r, k);
            for i in 0..v.len() {
                let gi = g.data()[i];
                let l2p = b * v[i] / n;
                let l1p = a / (2.0 * n);
                if v[i] == 0.0 { ensure!((gi - l2p).abs() <= l1p * (1.0 + 1e-12) + 1e-320, "{}: {:e} is no subgradient at 0", name, gi); }
                else { ensure!(close(gi, l2p + l1p * v[i].signum(), 1e-11, 1e-13 * l1p + 1e-320), "{}: gradient at weight {:e} is {:e}, expected {:e}", name, v[i], gi, l2p + l1p * v[i].signum()); }
            }
            c.count("gradient entries", v.len() as u64);
        }
        if wide { c.seen(hash_f64s(&v) ^ x.to_bits()); return Ok(()); }
        // single precision takes the same path
        let p32 = Matrix::new(r, k, v.iter().map(|a| *a as f32).collect::<Vec<_>>());
        let q = Regularization::L1(x as f32).reg_cost(p32.as_slice());
        ensure!((q as f64 - x * l1).abs() <= 1e-4 * (x * l1).abs() + 1e-30, "f32 L1 penalty {} expected {}", q, x * l1);
        let g = Regularization::ElasticNet(x as f32, y as f32).reg_grad(p32.as_slice());
        for i in 0..v.len() { if v[i].abs() > 1e-6 { let e = y * v[i] / n + x / (2.0 * n) * v[i].signum(); ensure!((g.data()[i] as f64 - e).abs() <= 1e-4 * (y * v[i].abs() / n + x / (2.0 * n)), "f32 gradient {} expected {}", g.data()[i], e); } }
        if v.iter().any(|a| *a != 0.0) { c.seen(hash_f64s(&v) ^ x.to_bits()); }
        c.sample(|| format!("{}x{} weights inside {}x{}, strengths {:e} {:e}", r, k, r + pr, k + pk, x, y));
        Ok(())
    });
}

// ------------------------------------------------------------ kernels

struct Ref { name: &'static str, ker: Box<dyn Kernel>, f: Box<dyn Fn(&[f64], &[f64]) -> f64>, psd: bool, stationary: bool, strict_len: bool, par: String }

fn some_kernel(c: &mut Case, pick: usize, scale: f64) -> Ref {
    fn dot(a: &[f64], b: &[f64]) -> f64 { let (mut s, mut e) = (0.0, 0.0); for (x, y) in a.iter().zip(b) { let p = x * y; e += x.mul_add(*y, -p); let t: f64 = s + p; e += if s.abs() >= p.abs() { (s - t) + p } else { (p - t) + s }; s = t; } s + e }
    fn d2(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum() }
    let ls = c.rng.logu(-0.5, 1.0) * scale;
    let ampl = c.rng.logu(-1.0, 1.0);
    let cc = if c.rng.chance(0.3) { 0.0 } else { c.rng.uniform(0.0, 3.0) };
    let al = c.rng.logu(-1.0, 0.5);
    let def = c.rng.chance(0.15);
    match pick {
        0 => { let (k, cc) = if def { (kernel::Linear::default(), 0.0) } else { (kernel::Linear::new(cc), cc) };
            Ref { name: "linear", ker: Box::new(k), f: Box::new(move |a, b| dot(a, b) + cc), psd: true, stationary: false, strict_len: false, par: format!("c={}", cc) } }
        1 => { let d = c.rng.range(1, 3) as f64; let (k, al, cc, d) = if def { (kernel::Polynomial::default(), 1.0, 0.0, 1.0) } else { (kernel::Polynomial::new(al, cc, d), al, cc, d) };
            Ref { name: "polynomial", ker: Box::new(k), f: Box::new(move |a, b| { let t = al * dot(a, b) + cc; (0..d as usize).fold(1.0, |p, _| p * t) }), psd: true, stationary: false, strict_len: false, par: format!("alpha={} c={} d={}", al, cc, d) } }
        2 => { let (k, ls, ampl) = if def { (kernel::SquaredExp::default(), 1.0, 1.0) } else { (kernel::SquaredExp::new(ls, ampl), ls, ampl) };
            Ref { name: "squared exponential", ker: Box::new(k), f: Box::new(move |a, b| ampl * (-0.5 * d2(a, b) / (ls * ls)).exp()), psd: true, stationary: true, strict_len: true, par: format!("ls={} ampl={}", ls, ampl) } }
        3 => { let (k, ls, ampl) = if def { (kernel::Exponential::default(), 1.0, 1.0) } else { (kernel::Exponential::new(ls, ampl), ls, ampl) };
            Ref { name: "exponential", ker: Box::new(k), f: Box::new(move |a, b| ampl * (-0.5 * d2(a, b).sqrt() / (ls * ls)).exp()), psd: true, stationary: true, strict_len: true, par: format!("ls={} ampl={}", ls, ampl) } }
        4 => { let (k, al, cc) = if def { (kernel::HyperTan::default(), 1.0, 0.0) } else { (kernel::HyperTan::new(al, cc), al, cc) };
            Ref { name: "hyperbolic tangent", ker: Box::new(k), f: Box::new(move |a, b| (al * dot(a, b) + cc).tanh()), psd: false, stationary: false, strict_len: false, par: format!("alpha={} c={}", al, cc) } }
        5 => { let (k, cc) = if def { (kernel::Multiquadric::default(), 0.0) } else { (kernel::Multiquadric::new(cc), cc) };
            Ref { name: "multiquadric", ker: Box::new(k), f: Box::new(move |a, b| (d2(a, b) + cc * cc).sqrt()), psd: false, stationary: true, strict_len: true, par: format!("c={}", cc) } }
        _ => { let (k, al, ls) = if def { (kernel::RationalQuadratic::default(), 1.0, 1.0) } else { (kernel::RationalQuadratic::new(al, ls), al, ls) };
            Ref { name: "rational quadratic", ker: Box::new(k), f: Box::new(move |a, b| (-al * (0.5 * d2(a, b) / (al * ls * ls)).ln_1p()).exp()), psd: true, stationary: true, strict_len: true, par: format!("alpha={} ls={}", al, ls) } }
    }
}
struct Dyn(Box<dyn Kernel>);
impl Kernel for Dyn { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { self.0.kernel(a, b) } }

struct Fixed(f64);
impl Kernel for Fixed { fn kernel(&self, _: &[f64], _: &[f64]) -> f64 { self.0 } }

fn k01(cx: &mut Ctx) {
    cx.rule("Every kernel with random and default parameters on random vector pairs (lengths 0..40, equal, opposite, orthogonal, near-duplicate), and sums, products and nested combinations of kernels, against independently evaluated closed forms. Non-trivial: different vectors, identified by data and parameters.");
    cx.group("closed forms", 2100, 42000, |c| {
        let n = match c.rng.below(5) { 0 => c.rng.below(3), 1 => c.rng.size(7, 40, 3000), _ => c.rng.range(1, 9) };
        let s = if c.rng.chance(0.2) { c.rng.logu(-9.0, 9.0) } else { c.rng.logu(-2.0, 1.0) };
        let a = c.rng.normals(n, s);
        let b = match c.rng.below(6) { 0 => a.clone(), 1 => a.iter().map(|x| -x).collect(), 2 => a.iter().map(|x| x * (1.0 + 1e-7)).collect(), 3 => vec![0.0; n], _ => c.rng.normals(n, s) };
        let k = some_kernel(c, (c.index % 7) as usize, s * (n.max(1) as f64).sqrt());
        let (got, want) = (k.ker.kernel(&a, &b), (k.f)(&a, &b));
        let mag = a.iter().zip(&b).map(|(x, y)| (x * y).abs()).sum::<f64>() + 1.0;
        ensure!(close(got, want, 1e-9, 1e-11 * mag * if k.name == "polynomial" { mag * mag * 40.0 } else { 1.0 }), "{} kernel ({}) of {:?} and {:?} is {:e}, expected {:e}", k.name, k.par, a, b, got, want);
        c.count("evaluations of a kernel", 1);
        if a != b { c.seen(hash_f64s(&a) ^ mix(hash_f64s(&b)) ^ hash_str(&k.par)); }
        c.sample(|| format!("{} ({}) on {} coordinates = {:e}", k.name, k.par, n, got));
        Ok(())
    });
    cx.group("combinations", 700, 14000, |c| {
        let n = c.rng.range(1, 8);
        let (a, b) = (c.rng.normals(n, 1.0), c.rng.normals(n, 1.0));
        let pick: Vec<usize> = (0..3).map(|_| c.rng.below(7)).collect();
        let ks: Vec<Ref> = pick.iter().map(|p| some_kernel(c, *p, 2.0)).collect();
        let v: Vec<f64> = ks.iter().map(|k| k.ker.kernel(&a, &b)).collect();
        let mut it = ks.into_iter();
        let (x, y, z) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        let names = format!("{} {} {}", x.name, y.name, z.name);
        let (got, want) = match c.rng.below(5) {
            0 => ((KernelArith(Dyn(x.ker)) + KernelArith(Dyn(y.ker))).kernel(&a, &b), v[0] + v[1]),
            1 => ((KernelArith(Dyn(x.ker)) * KernelArith(Dyn(y.ker))).kernel(&a, &b), v[0] * v[1]),
            2 => ((KernelArith(KernelArith(Dyn(x.ker)) + KernelArith(Dyn(y.ker))) * KernelArith(Dyn(z.ker))).kernel(&a, &b), (v[0] + v[1]) * v[2]),
            3 => ((KernelArith(Dyn(x.ker)) + KernelArith(KernelArith(Dyn(y.ker)) * KernelArith(Dyn(z.ker)))).kernel(&a, &b), v[0] + v[1] * v[2]),
            _ => ((KernelArith(KernelArith(Dyn(x.ker)) * KernelArith(Dyn(y.ker))) * KernelArith(Dyn(z.ker))).kernel(&a, &b), v[0] * v[1] * v[2]),
        };
        ensure!(close(got, want, 1e-12, 1e-14 * (v.iter().fold(1.0, |m: f64, q| m * (1.0 + q.abs())))), "combination of {} is {:e}, expected {:e}", names, got, want);
        c.count("combinations", 1);
        c.seen(hash_f64s(&v));
        // kernels of the user's own, of any size
        let f: Vec<f64> = (0..3).map(|_| if c.rng.chance(0.1) { 0.0 } else { c.rng.sign() * c.rng.logu(-100.0, 100.0) }).collect();
        let (sum, prod) = ((KernelArith(Fixed(f[0])) + KernelArith(Fixed(f[1]))).kernel(&a, &b), (KernelArith(Fixed(f[0])) * KernelArith(Fixed(f[1]))).kernel(&a, &b));
        let all = (KernelArith(KernelArith(Fixed(f[0])) + KernelArith(Fixed(f[1]))) * KernelArith(Fixed(f[2]))).kernel(&a, &b);
        ensure!(close(sum, f[0] + f[1], 1e-15, 0.0) && close(prod, f[0] * f[1], 1e-15, 0.0) && close(all, (f[0] + f[1]) * f[2], 1e-15, 0.0), "kernels worth {:?}: sum {:e}, product {:e}, product of the sum with the third {:e}", f, sum, prod, all);
        Ok(())
    });
    // points on a grid, so that products and distances are exact, with parameters at the ends of what they may be
    cx.group("far and near", 1400, 28000, |c| {
        let n = if c.rng.chance(0.03) { c.rng.range(40, 20_000) } else { c.rng.range(1, 8) };
        let pick = (c.index % 7) as usize;
        let u = if pick == 5 { 2f64.powi(c.rng.range(0, 960) as i32 - 480) } else { 2f64.powi(c.rng.range(0, 120) as i32 - 60) };
        let (a, b): (Vec<f64>, Vec<f64>) = (c.rng.ints(n, -9, 9).iter().map(|v| v * u).collect(), c.rng.ints(n, -9, 9).iter().map(|v| v * u).collect());
        let dot: f64 = a.iter().zip(&b).map(|(x, y)| (x / u) * (y / u)).sum::<f64>() * u * u;
        let d2: f64 = a.iter().zip(&b).map(|(x, y)| (x / u - y / u) * (x / u - y / u)).sum::<f64>();
        let dist = d2.sqrt() * u;
        let d2 = d2 * u * u;
        let ampl = c.rng.logu(-30.0, 30.0);
        let (name, got, want, rel, par) = match pick {
            0 => { let k = if c.rng.bool() { 0.0 } else { c.rng.logu(-3.0, 3.0) * dot.abs().max(1e-30) }; ("linear", kernel::Linear::new(k).kernel(&a, &b), dot + k, 1e-15, format!("c={:e}", k)) }
            1 => {
                // a base between 1e-4 and 1e4, to any power that stays in range, whole or halved
                let t = c.rng.logu(-4.0, 4.0);
                let (al, cc) = if dot > 0.0 && c.rng.bool() { (t / dot, 0.0) } else { (0.0, t) };
                let half = c.rng.below(120);
                let t = al * dot + cc;
                let mut w = if half % 2 == 1 { t.sqrt() } else { 1.0 };
                for _ in 0..half / 2 { w *= t; }
                if w < 1e-290 || w > 1e290 { return Ok(()); }
                ("polynomial", kernel::Polynomial::new(al, cc, half as f64 / 2.0).kernel(&a, &b), w, 2e-15 * (half + 2) as f64, format!("alpha={:e} c={:e} d={}", al, cc, half as f64 / 2.0))
            }
            2 | 3 => {
                let e = c.rng.logu(-12.0, 2.84).min(690.0 - ampl.ln().abs());
                let q = if pick == 2 { d2 } else { dist };
                let ls = if q > 0.0 { (q / (2.0 * e)).sqrt() } else { c.rng.logu(-3.0, 3.0) };
                let w = ampl * (-(q / ls / ls) / 2.0).exp();
                if pick == 2 { ("squared exponential", kernel::SquaredExp::new(ls, ampl).kernel(&a, &b), w, 4e-15 * (2.0 + e), format!("ls={:e} ampl={:e}", ls, ampl)) }
                else { ("exponential", kernel::Exponential::new(ls, ampl).kernel(&a, &b), w, 4e-15 * (2.0 + e), format!("ls={:e} ampl={:e}", ls, ampl)) }
            }
            4 => { let t = c.rng.sign() * c.rng.logu(-200.0, 2.0); let (al, cc) = if dot != 0.0 && c.rng.bool() { (t / dot, 0.0) } else { (0.0, t) };
                ("hyperbolic tangent", kernel::HyperTan::new(al, cc).kernel(&a, &b), { let t = al * dot + cc; let q = (2.0 * t.abs()).exp_m1(); t.signum() * if t.abs() < 1e-9 { t.abs() } else if q.is_infinite() { 1.0 } else { q / (q + 2.0) } }, 4e-15, format!("alpha={:e} c={:e}", al, cc)) }
            5 => { let k = if c.rng.chance(0.4) { 0.0 } else { c.rng.logu(-140.0, 140.0) }; let m = k.max(dist);
                ("multiquadric", kernel::Multiquadric::new(k).kernel(&a, &b), if m == 0.0 { 0.0 } else { m * ((k / m) * (k / m) + (dist / m) * (dist / m)).sqrt() }, 4e-15, format!("c={:e}", k)) }
            _ => { let al = c.rng.logu(-3.0, 6.0); let q = c.rng.logu(-8.0, 2.0).min(600.0 / al);
                let ls = if d2 > 0.0 { (d2 / (2.0 * al * q)).sqrt() } else { c.rng.logu(-3.0, 3.0) };
                let x = d2 / ls / ls / al / 2.0;
                ("rational quadratic", kernel::RationalQuadratic::new(al, ls).kernel(&a, &b), (-al * x.ln_1p()).exp(), 4e-15 * (2.0 + al), format!("alpha={:e} ls={:e}", al, ls)) }
        };
        ensure!(close(got, want, rel, 0.0), "{} kernel ({}) of {} coordinates with product {:e} and distance {:e} is {:e}, expected {:e}", name, par, n, dot, dist, got, want);
        c.count("evaluations of a kernel", 1);
        if d2 > 0.0 { c.seen(hash_f64s(&a) ^ mix(hash_f64s(&b)) ^ hash_str(&par)); }
        Ok(())
    });
}

fn k02(cx: &mut Ctx) {
    cx.rule("Point sets of 2..12 points under every kernel: symmetry bit for bit up to rounding, largest value at coincidence and translation invariance of the distance-based kernels, non-negative quadratic forms (exact factorisation with a rounding margin) of the positive-definite kernels and of their sums and products, rejection of unequal lengths. Non-trivial: at least two distinct points, identified by the data.");
    cx.group("gram", 420, 8000, |c| {
        let (m, n) = (c.rng.range(2, 12), c.rng.range(1, 6));
        let s = c.rng.logu(-1.0, 0.5);
        let pts: Vec<Vec<f64>> = (0..m).map(|_| if c.rng.chance(0.1) { c.rng.ints(n, -1, 1) } else { c.rng.normals(n, s) }).collect();
        let k = some_kernel(c, (c.index % 7) as usize, s * (n as f64).sqrt());
        let k2 = some_kernel(c, (c.index / 7 % 7) as usize, s * (n as f64).sqrt());
        let mode = c.rng.below(3);
        let (name, psd, stat) = (if mode == 0 { format!("{} ({})", k.name, k.par) } else { format!("{} ({}) {} {} ({})", k.name, k.par, ["", "+", "x"][mode], k2.name, k2.par) },
            if mode == 0 { k.psd } else { k.psd && k2.psd }, if mode == 0 { k.stationary } else { k.stationary && k2.stationary });
        let peak = (k.stationary && k.name != "multiquadric") && (mode == 0 || (k2.stationary && k2.name != "multiquadric"));
        let ker: Box<dyn Kernel> = match mode { 0 => k.ker, 1 => Box::new(KernelArith(Dyn(k.ker)) + KernelArith(Dyn(k2.ker))), _ => Box::new(KernelArith(Dyn(k.ker)) * KernelArith(Dyn(k2.ker))) };
        let mut g = vec![vec![0.0; m]; m];
        for i in 0..m { for j in 0..m { g[i][j] = ker.kernel(&pts[i], &pts[j]); ensure!(g[i][j].is_finite(), "{}: not finite", name); } }
        let big = g.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
        for i in 0..m { for j in 0..m {
            ensure!((g[i][j] - g[j][i]).abs() <= 1e-12 * big, "{}: k(x,y)={:e}, k(y,x)={:e}", name, g[i][j], g[j][i]);
            if peak { ensure!(g[i][j] <= g[i][i] * (1.0 + 1e-12) && g[i][j] >= 0.0, "{}: value {:e} at a distance, {:e} at coincidence", name, g[i][j], g[i][i]); }
        } }
        if stat {
            let t = c.rng.ints(n, -3, 3);
            let (p, q): (Vec<f64>, Vec<f64>) = (pts[0].iter().zip(&t).map(|(a, b)| a + b).collect(), pts[1].iter().zip(&t).map(|(a, b)| a + b).collect());
            ensure!(close(ker.kernel(&p, &q), g[0][1], 1e-6, 1e-7 * big), "{}: changes under translation", name);
        }
        if psd && big > 0.0 {
            // Cholesky of G + margin I must not break down
            let margin = 1e-9 * big * m as f64;
            let mut l = g.clone();
            for j in 0..m {
                let d = l[j][j] + margin - (0..j).map(|q| l[j][q] * l[j][q]).sum::<f64>();
                ensure!(d > 0.0, "{}: a quadratic form over {} points is negative ({:e})", name, m, d);
                let d = d.sqrt();
                l[j][j] = d;
                for i in j + 1..m { let v = (l[i][j] - (0..j).map(|q| l[i][q] * l[j][q]).sum::<f64>()) / d; l[i][j] = v; }
            }
            c.count("quadratic forms", 1);
        }
        c.count("pairs", (m * m) as u64);
        c.seen(pts.iter().fold(0, |h, p| mix(h ^ hash_f64s(p))));
        c.sample(|| format!("{} over {} points in {} dimensions", name, m, n));
        Ok(())
    });
    cx.group("unequal lengths", 140, 1400, |c| {
        let k = some_kernel(c, (c.index % 7) as usize, 1.0);
        let n = c.rng.range(1, 6);
        let (a, b) = (c.rng.normals(n, 1.0), c.rng.normals(n + c.rng.clone().range(1, 3), 1.0));
        if k.strict_len { ensure!(guard(|| k.ker.kernel(&a, &b)).is_err() && guard(|| k.ker.kernel(&b, &a)).is_err(), "{} kernel accepted vectors of lengths {} and {}", k.name, a.len(), b.len()); c.count("rejected", 2); }
        Ok(())
    });
}

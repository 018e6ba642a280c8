//! Clustering: k-means, DBSCAN, Gaussian mixtures.
use crate::util::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::{LearningResult, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};
use std::collections::BTreeMap;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("M01", m01), ("M02", m02), ("B01", b01), ("G01", g01)];

fn kind(e: &Error) -> String { format!("{:?}", e.kind()) }
fn d2(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum() }

pub struct Data { pub n: usize, pub d: usize, pub v: Vec<f64>, pub kind: &'static str }
impl Data {
    pub fn row(&self, i: usize) -> &[f64] { &self.v[i * self.d..(i + 1) * self.d] }
    pub fn matrix(&self) -> Matrix<f64> { Matrix::new(self.n, self.d, self.v.clone()) }
    fn scale(&self) -> f64 { self.v.iter().fold(0.0, |m: f64, x| m.max(x.abs())) }
}
fn data(c: &mut Case, n: usize) -> Data {
    let d = *c.rng.pick(&[1, 2, 2, 3, 5]);
    let r = &mut c.rng;
    let (v, kind): (Vec<f64>, _) = match r.below(6) {
        0 => (r.uniforms(n * d, -5.0, 5.0), "uniform"),
        1 => (r.ints(n * d, 0, 6), "grid"),
        2 => { let m = r.range(2, 6); let base = r.normals(m * d, 10.0); ((0..n).flat_map(|_| { let i = r.below(m); (0..d).map(|j| base[i * d + j] + r.normal()).collect::<Vec<_>>() }).collect(), "clusters") }
        3 => { let s = if r.bool() { r.logu(-1.0, 5.0) } else { r.logu(-7.0, 10.0) }; (r.normals(n * d, s), "scaled") }
        4 => { let off = r.normals(d, 100.0); ((0..n * d).map(|k| off[k % d] + r.normal()).collect(), "offset") }
        _ => { let m = r.range(2, 5); let base = r.ints(m * d, -9, 9); ((0..n).flat_map(|_| { let i = r.below(m); base[i * d..(i + 1) * d].to_vec() }).collect(), "copies") }
    };
    Data { n, d, v, kind }
}

// ------------------------------------------------------------ k-means

#[derive(Debug)]
struct Fixed(Matrix<f64>);
impl Initializer for Fixed {
    fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(self.0.clone()) }
}

/// Distances of a row to all centroids.
fn to_all(x: &[f64], cs: &[f64], d: usize) -> Vec<f64> { cs.chunks(d).map(|q| d2(x, q)).collect() }

fn check_prediction(p: &Data, cs: &[f64], labels: &[usize], what: &str) -> Result<usize, String> {
    let k = cs.len() / p.d;
    ensure_u(labels.len() == p.n, || format!("{}: {} labels for {} rows", what, labels.len(), p.n))?;
    let mut ties = 0;
    for i in 0..p.n {
        let ds = to_all(p.row(i), cs, p.d);
        let best = ds.iter().cloned().fold(f64::INFINITY, f64::min);
        ensure_u(labels[i] < k, || format!("{}: label {} of {}", what, labels[i], k))?;
        let tol = 1e-9 * best + 1e-12 * ds.iter().cloned().fold(0.0, f64::max);
        ensure_u(ds[labels[i]] <= best + tol, || format!("{}: row {:?} is labelled {} at squared distance {:e}, another centroid is at {:e}", what, p.row(i), labels[i], ds[labels[i]], best))?;
        ties += (ds.iter().filter(|x| **x <= best + tol).count() > 1) as usize;
    }
    Ok(ties)
}
fn ensure_u<F: FnOnce() -> String>(c: bool, f: F) -> Verdict { if c { Ok(()) } else { Err(f()) } }

fn inertia(p: &Data, cs: &[f64]) -> f64 { (0..p.n).map(|i| to_all(p.row(i), cs, p.d).into_iter().fold(f64::INFINITY, f64::min)).sum() }

/// One round: assignment given, means of the groups; a centroid without rows stays.
fn step(p: &Data, cs: &[f64], labels: &[usize]) -> (Vec<f64>, usize) {
    let k = cs.len() / p.d;
    let mut sum = vec![0.0; cs.len()];
    let mut cnt = vec![0usize; k];
    for i in 0..p.n { cnt[labels[i]] += 1; for j in 0..p.d { sum[labels[i] * p.d + j] += p.row(i)[j]; } }
    let mut out = cs.to_vec();
    for c in 0..k { if cnt[c] > 0 { for j in 0..p.d { out[c * p.d + j] = sum[c * p.d + j] / cnt[c] as f64; } } }
    (out, cnt.iter().filter(|x| **x == 0).count())
}

/// Trains with 0..=rounds iterations and follows the centroids round by round.
fn follow<I: Initializer, F: Fn() -> I>(c: &mut Case, p: &Data, k: usize, rounds: usize, make: F, salt: u64, what: &str) -> Verdict {
    let m = p.matrix();
    let scale = p.scale().max(1e-300);
    let mut prev: Option<(Vec<f64>, Vec<usize>, usize)> = None;
    let used = c.rng.chance(0.25);
    let mut costs: Vec<f64> = vec![0.0];
    let mut steady = false;
    for it in 0..=rounds {
        c.reseed(salt);
        let other = it % 2 == 1;
        let mut model = KMeansClassifier::new_specified(k, if other { it + 3 } else { it }, make());
        if other { model.set_iters(it); }
        ensure!(model.iters() == it && model.k() == k, "{}: reports k {} and {} iterations", what, model.k(), model.iters());
        if used {
            // trained on something else before
            let r = k + c.rng.below(20);
            let o = { let s = scale; c.rng.normals(r * p.d, s) };
            if let Err(e) = model.train(&Matrix::new(r, p.d, o)) { return Err(format!("{}: training on {} normal rows with k {} fails: {}", what, r, k, e)); }
            c.reseed(salt);
            c.count("trainings of a used model", 1);
        }
        if let Err(e) = model.train(&m) { return Err(format!("{}: training on {} {} rows with k {} fails: {}", what, p.n, p.kind, k, e)); }
        let cs = match *model.centroids() { Some(ref x) => x.clone(), None => return Err(format!("{}: no centroids after training", what)) };
        ensure!(cs.rows() == k && cs.cols() == p.d, "{}: centroids are {}x{}", what, cs.rows(), cs.cols());
        let cs = cs.into_vec();
        ensure!(cs.iter().all(|x| x.is_finite()), "{}: centroids of {} {} rows after {} iterations are {:?}", what, p.n, p.kind, it, cs);
        let labels = match model.predict(&m) { Ok(l) => l.into_vec(), Err(e) => return Err(format!("{}: prediction fails: {}", what, e)) };
        let ties = check_prediction(p, &cs, &labels, what)?;
        if let Some((ref pc, ref pl, pt)) = prev {
            let (want, empty) = step(p, pc, pl);
            // rounds end once the total squared distance changed by less than 1e-14
            let n = costs.len();
            if n >= 2 && (costs[n - 1] - costs[n - 2]).abs() < 1.01e-14 + 1e-12 * costs[n - 1] { steady = true; }
            let ended = steady && cs == *pc;
            costs.push(inertia(p, pc));
            let ok = all_close(&cs, &want, 1e-10, 1e-11 * scale) || ended;
            if ended { c.count("rounds after the end", 1); }
            if !ok && pt > 0 { c.count("rounds with tied rows not judged", 1); }
            else {
                ensure!(ok, "{}: {} {} rows, k {}: round {} leads to centroids {:?}, the means of the nearest rows are {:?}", what, p.n, p.kind, k, it, cs, want);
                c.count("rounds", 1);
                if empty > 0 { c.count("rounds with an empty cluster", 1); }
            }
            let (a, b) = (inertia(p, pc), inertia(p, &cs));
            ensure!(b <= a * (1.0 + 1e-9) + 1e-9 * scale * scale * p.n as f64 * 1e-3, "{}: {} {} rows, k {}: the total squared distance grew from {:e} to {:e} in round {}", what, p.n, p.kind, k, a, b, it);
        }
        prev = Some((cs, labels, ties));
    }
    Ok(())
}

fn m01(cx: &mut Ctx) {
    cx.rule("Data sets of six kinds with starting centroids injected through the initializer trait (or drawn by the built-in initializers on a replayed stream), trained with 0, 1, 2, … iterations; every round is compared with an independent assignment and mean. Non-trivial: k >= 2, identified by data and start.");
    cx.group("given start", 1500, 40_000, |c| {
        let many = c.rng.chance(0.01);
        let n = match c.rng.below(4) { _ if many => c.rng.range(280, 800), 0 => c.rng.range(2, 6), 1 | 2 => c.rng.range(5, 30), _ => c.rng.size(30, 80, 3000) };
        let p = data(c, n);
        let k = if many { c.count("more than 256 centroids", 1); c.rng.range(257, n) } else { c.rng.range(1, n.min(7)) };
        let mut start = vec![];
        for _ in 0..k {
            match c.rng.below(4) {
                0 => { let s = p.scale(); start.extend(c.rng.normals(p.d, s)); }
                1 => { let i = c.rng.below(n); start.extend_from_slice(p.row(i)); }
                2 => { let s = p.scale() * 3.0; start.extend(c.rng.uniforms(p.d, -s, s)); }
                _ => { let i = c.rng.below(n); let r = p.row(i).to_vec(); start.extend(r.iter().map(|x| x + 0.25)); }
            }
        }
        let st = Matrix::new(k, p.d, start.clone());
        let rounds = if many { 2 } else if n < 100 && c.rng.chance(0.3) { c.rng.range(7, 14) } else { c.rng.range(1, 7) };
        let mut model = KMeansClassifier::new_specified(k, 0, Fixed(st.clone()));
        model.train(&p.matrix()).map_err(|e| format!("training fails: {}", e))?;
        ensure!(model.centroids().as_ref().map(|m| m.data().to_vec()) == Some(start.clone()), "no iterations: the centroids are {:?}, the start was {:?}", model.centroids(), start);
        follow(c, &p, k, rounds, || Fixed(st.clone()), 1, "given start")?;
        if k >= 2 { c.seen(hash_f64s(&p.v) ^ hash_f64s(&start)); }
        c.sample(|| format!("{} {} rows of {} columns, k {}, {} rounds from {:?}", n, p.kind, p.d, k, rounds, start));
        // predictions of other rows
        let nq = c.rng.size(12, 12, 2000);
        let mut q = data(c, nq);
        // anywhere between the data and far from them
        if c.rng.bool() { let s = p.scale(); let f = c.rng.logu(0.0, 6.0); q = Data { n: nq, d: p.d, v: c.rng.normals(nq * p.d, s * f), kind: "far" }; }
        if q.d == p.d {
            let mut model = KMeansClassifier::new_specified(k, rounds, Fixed(st));
            model.train(&p.matrix()).map_err(|e| format!("training fails: {}", e))?;
            let cs = model.centroids().as_ref().unwrap().data().to_vec();
            let l = model.predict(&q.matrix()).map_err(|e| format!("prediction fails: {}", e))?.into_vec();
            check_prediction(&q, &cs, &l, "new rows")?;
            c.count("predictions of new rows", nq as u64);
        }
        Ok(())
    });
    cx.group("built-in start", 600, 12_000, |c| {
        let n = c.rng.range(3, 40);
        let mut p = data(c, n);
        if p.kind == "copies" || p.kind == "grid" { for x in p.v.iter_mut() { *x += c.rng.normal() * 0.1; } p.kind = "perturbed"; }
        let k = c.rng.range(1, n.min(6));
        let salt = c.index;
        match c.index % 3 {
            0 => follow(c, &p, k, 4, || Forgy, salt, "Forgy start")?,
            1 => follow(c, &p, k, 4, || RandomPartition, salt, "random-partition start")?,
            _ => follow(c, &p, k, 4, || KPlusPlus, salt, "k-means++ start")?,
        }
        if k >= 2 { c.seen(hash_f64s(&p.v) ^ k as u64); }
        Ok(())
    });
    cx.group("convergence", 300, 6000, |c| {
        // with the default number of iterations small data sets reach a fixed point
        let n = c.rng.range(3, 30);
        let p = data(c, n);
        if p.kind == "copies" { return Ok(()); }
        let distinct = (0..n).map(|i| p.row(i).iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<std::collections::BTreeSet<_>>().len();
        let k = c.rng.range(1, distinct.min(5));
        let mut model = KMeansClassifier::new(k);
        ensure!(model.iters() == 100 && model.k() == k, "defaults: k {} iterations {}", model.k(), model.iters());
        model.train(&p.matrix()).map_err(|e| format!("training fails: {}", e))?;
        let cs = model.centroids().as_ref().unwrap().data().to_vec();
        let l = model.predict(&p.matrix()).map_err(|e| format!("prediction fails: {}", e))?.into_vec();
        let ties = check_prediction(&p, &cs, &l, "converged")?;
        let (next, _) = step(&p, &cs, &l);
        if ties == 0 { let gain = inertia(&p, &cs) - inertia(&p, &next); ensure!(all_close(&cs, &next, 1e-9, 1e-9 * p.scale()) || gain < 1.1e-14, "after 100 iterations on {} {} rows, k {}, the centroids {:?} are not the means of their rows {:?}", n, p.kind, k, cs, next); c.count("fixed points", 1); }
        if k >= 2 { c.seen(hash_f64s(&p.v) ^ k as u64); }
        Ok(())
    });
}

/// Rows whose values identify them.
fn tagged(c: &mut Case, n: usize) -> Data {
    let d = c.rng.range(1, 3);
    let r = c.rng.perm(n);
    let v = (0..n).flat_map(|i| (0..d).map(|j| if j == 0 { r[i] as f64 * 1.5 } else { (i * 7 + j) as f64 }).collect::<Vec<_>>()).collect();
    Data { n, d, v, kind: "tagged" }
}
fn find(p: &Data, row: &[f64]) -> Option<usize> { (0..p.n).find(|i| p.row(*i) == row) }

fn m02(cx: &mut Ctx) {
    cx.rule("Initializers called directly and through training on uniquely tagged rows (and one-hot rows, whose means reveal the groups), ordinary and extreme random words; frequencies of Forgy rows and of k-means++ draws against exact probabilities. Non-trivial: 1 < k < rows, identified by data, k and stream.");
    cx.group("shape and membership", 3000, 60_000, |c| {
        let n = c.rng.size(1, 40, 1500);
        let k = c.rng.range(1, n.min(90));
        let p = tagged(c, n);
        if c.rng.chance(0.2) { rand::verif::set_extreme(c.rng.range(1, 4) as u32); }
        let m = p.matrix();
        let f = Forgy.init_centroids(k, &m).map_err(|e| format!("Forgy: {}", e));
        rand::verif::set_extreme(0);
        let f = f?;
        ensure!(f.rows() == k && f.cols() == p.d, "Forgy gives {}x{} for k {} of {} columns", f.rows(), f.cols(), k, p.d);
        let mut seen = vec![false; n];
        for r in f.data().chunks(p.d) {
            let i = match find(&p, r) { Some(i) => i, None => return Err(format!("Forgy: {:?} is not a row", r)) };
            ensure!(!seen[i], "Forgy: row {} chosen twice", i);
            seen[i] = true;
        }
        let f = KPlusPlus.init_centroids(k, &m).map_err(|e| format!("k-means++: {}", e))?;
        ensure!(f.rows() == k && f.cols() == p.d, "k-means++ gives {}x{} for k {} of {} columns", f.rows(), f.cols(), k, p.d);
        let mut seen = vec![false; n];
        for r in f.data().chunks(p.d) {
            let i = match find(&p, r) { Some(i) => i, None => return Err(format!("k-means++: {:?} is not a row", r)) };
            ensure!(!seen[i], "k-means++: row {} chosen twice", i);
            seen[i] = true;
        }
        // one-hot rows: the mean of a group is its indicator over its size
        let hot = Matrix::new(n, n, (0..n * n).map(|x| (x / n == x % n) as u8 as f64).collect::<Vec<_>>());
        let f = RandomPartition.init_centroids(k, &hot).map_err(|e| format!("random partition: {}", e))?;
        ensure!(f.rows() == k && f.cols() == n, "random partition gives {}x{} for k {} of {} columns", f.rows(), f.cols(), k, n);
        let mut owner = vec![0; n];
        for r in f.data().chunks(n) {
            let members: Vec<usize> = (0..n).filter(|j| r[*j] != 0.0).collect();
            ensure!(!members.is_empty(), "random partition: an empty group");
            for &j in &members { owner[j] += 1; ensure!(close(r[j], 1.0 / members.len() as f64, 1e-12, 0.0), "random partition: {:?} is not the mean of {} rows", r, members.len()); }
        }
        ensure!(owner.iter().all(|x| *x == 1), "random partition: rows belong to {:?} groups", owner);
        c.count("initialisations", 3);
        if k > 1 && k < n { c.seen(hash_f64s(&p.v) ^ mix(k as u64) ^ c.seed); }
        c.sample(|| format!("{} rows, k {}: Forgy, k-means++ and random partition", n, k));
        Ok(())
    });
    cx.group("extreme words", 400, 8000, |c| {
        // k-means++ must find a row for every random word, including the largest
        let n = c.rng.range(2, 30);
        let p = data(c, n);
        let distinct = (0..n).map(|i| p.row(i).iter().map(|x| (*x + 0.0).to_bits()).collect::<Vec<_>>()).collect::<std::collections::BTreeSet<_>>().len();
        if distinct < 2 { return Ok(()); }
        let k = c.rng.range(2, distinct);
        let ex = c.rng.range(1, 5);
        for e in 0..ex {
            c.reseed(e as u64);
            rand::verif::set_extreme(1 + e as u32);
            let f = guard(|| KPlusPlus.init_centroids(k, &p.matrix()));
            rand::verif::set_extreme(0);
            let f = match f { Ok(Ok(f)) => f, other => return Err(format!("k-means++ on {} {} rows ({} distinct), k {}: {:?}", n, p.kind, distinct, k, other)) };
            let mut rows: Vec<Vec<u64>> = vec![];
            for r in f.data().chunks(p.d) {
                ensure!(find(&p, r).is_some(), "k-means++: {:?} is not a row", r);
                rows.push(r.iter().map(|x| (*x + 0.0).to_bits()).collect());
            }
            rows.sort(); rows.dedup();
            ensure!(rows.len() == k, "k-means++ on {} {} rows ({} distinct): only {} different centroids of {}", n, p.kind, distinct, rows.len(), k);
            c.count("initialisations", 1);
        }
        c.seen(hash_f64s(&p.v) ^ k as u64);
        Ok(())
    });
    cx.group("forgy frequencies", 12, 60, |c| {
        let n = c.rng.range(2, 9);
        let k = c.rng.range(1, n);
        let p = tagged(c, n);
        let m = p.matrix();
        let trials = 20_000;
        let mut cnt = vec![0u64; n];
        for _ in 0..trials { for r in Forgy.init_centroids(k, &m).unwrap().data().chunks(p.d) { cnt[find(&p, r).unwrap()] += 1; } }
        if k < n { for i in 0..n { let z = binom_z(cnt[i], trials, k as f64 / n as f64); ensure!(z.abs() < Z_ALARM, "Forgy, k {} of {}: row {} chosen {} times of {}, z = {:.1}", k, n, i, cnt[i], trials, z); } }
        c.count("frequency trials", trials);
        c.seen(hash_usizes(&[n, k]));
        Ok(())
    });
    cx.group("k-means++ frequencies", 20, 120, |c| {
        let k = [2, 3, 4, 5, 6][c.index as usize % 5];
        let n = c.rng.range(k.max(3), if k < 4 { 6 } else { 7 }).max(k + (k > 3) as usize);
        let d = c.rng.range(1, 3);
        let mut v = c.rng.normals(n * d, 1.0);
        let wide = c.index % 3 == 2;
        for i in 0..n { v[i * d] += if wide { [0.0, 100.0, 400.0, 3.0, 110.0, 6.0, 420.0][i] } else { [0.0, 0.5, 2.0, 4.0, 4.5, 9.0, 13.0][i] }; }
        let p = Data { n, d, v, kind: "spread" };
        let m = p.matrix();
        let trials = 60_000u64;
        let mut cnt: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
        for _ in 0..trials {
            let f = KPlusPlus.init_centroids(k, &m).map_err(|e| format!("k-means++: {}", e))?;
            let key: Vec<usize> = f.data().chunks(d).map(|r| find(&p, r).unwrap_or(n)).collect();
            *cnt.entry(key).or_insert(0) += 1;
        }
        // exact probability of every sequence of draws
        let mut seqs: Vec<(Vec<usize>, f64)> = (0..n).map(|i| (vec![i], 1.0 / n as f64)).collect();
        for _ in 1..k {
            let mut next = vec![];
            for (s, pr) in seqs {
                let w: Vec<f64> = (0..n).map(|i| s.iter().map(|j| d2(p.row(i), p.row(*j))).fold(f64::INFINITY, f64::min)).collect();
                let sum: f64 = w.iter().sum();
                for i in 0..n { if w[i] > 0.0 { let mut t = s.clone(); t.push(i); next.push((t, pr * w[i] / sum)); } }
            }
            seqs = next;
        }
        let total: u64 = seqs.iter().map(|(s, _)| *cnt.get(s).unwrap_or(&0)).sum();
        ensure!(total == trials, "k-means++: {} of {} draws repeat a centroid", trials - total, trials);
        let (mut obs, mut exp) = (vec![], vec![]);
        let (mut ro, mut re) = (0, 0.0);
        for (s, pr) in &seqs { let e = pr * trials as f64; let o = *cnt.get(s).unwrap_or(&0); if e >= 20.0 { obs.push(o); exp.push(e); } else { ro += o; re += e; } }
        if re >= 20.0 { obs.push(ro); exp.push(re); }
        if obs.len() > 1 { let z = chi2_z(&obs, &exp); ensure!(z < Z_ALARM, "k-means++, k {}: draws of {:?} have frequencies {:?}, expected {:?}, z = {:.1}", k, p.v, obs, exp, z); }
        c.count("frequency trials", trials);
        c.seen(hash_f64s(&p.v));
        Ok(())
    });
    cx.group("k-means++ many near rows", 10, 60, |c| {
        // many rows of tiny weight together weigh as much as their sum
        let near = c.rng.range(100, 1200);
        let scale = c.rng.logu(-3.0, 3.0);
        let mut v: Vec<f64> = c.rng.normals(near, 1.0);
        let part = c.rng.logu(-2.3, -0.4);
        // one far row, so that the near ones have the given part of the weight
        let far = (2.0 * near as f64 * (1.0 - part) / part).sqrt();
        let at = c.rng.below(near + 1);
        v.insert(at, far);
        for x in v.iter_mut() { *x *= scale; }
        let p = Data { n: near + 1, d: 1, v, kind: "near" };
        let m = p.matrix();
        let (mut sum, mut var, mut got, trials) = (0.0, 0.0, 0u64, 6000);
        let mut halves = (0.0, 0.0, 0u64);
        let mid = near / 2;
        for _ in 0..trials {
            let f = KPlusPlus.init_centroids(2, &m).map_err(|e| format!("k-means++: {}", e))?;
            let (a, b) = match (find(&p, &f.data()[..1]), find(&p, &f.data()[1..])) { (Some(a), Some(b)) => (a, b), _ => return Err(format!("k-means++: {:?} are not rows", f)) };
            ensure!(a != b, "k-means++: row {} drawn twice", a);
            if a == at { continue; }
            let w: Vec<f64> = (0..p.n).map(|i| d2(p.row(i), p.row(a))).collect();
            let total: f64 = w.iter().sum();
            let pr = (total - w[at]) / total;
            sum += pr; var += pr * (1.0 - pr); got += (b != at) as u64;
            let low: f64 = (0..p.n).filter(|i| *i != at && *i < mid).map(|i| w[i]).sum::<f64>() / total;
            halves.0 += low; halves.1 += low * (1.0 - low); halves.2 += (b != at && b < mid) as u64;
        }
        let z = (got as f64 - sum) / var.sqrt();
        ensure!(z.abs() < Z_ALARM, "k-means++: {} rows near each other weigh {:.4} of all, one of them comes second {} times, expected {:.1} (z {:.1})", near, part, got, sum, z);
        let z = (halves.2 as f64 - halves.0) / halves.1.sqrt();
        ensure!(z.abs() < Z_ALARM, "k-means++: the first {} of {} rows come second {} times, expected {:.1} (z {:.1})", mid, p.n, halves.2, halves.0, z);
        c.count("frequency trials", trials);
        c.seen(hash_f64s(&p.v));
        Ok(())
    });
    cx.group("refusals", 400, 5000, |c| {
        let n = c.rng.range(1, 10);
        let p = data(c, n);
        let k = c.rng.range(1, 14);
        if k > n {
            for r in [KMeansClassifier::new_specified(k, 3, Forgy).train(&p.matrix()), KMeansClassifier::new_specified(k, 3, RandomPartition).train(&p.matrix()), KMeansClassifier::new(k).train(&p.matrix())].iter() {
                ensure!(matches!(r, Err(e) if kind(e) == "InvalidData"), "k {} of {} rows: {:?}", k, n, r);
                c.count("refusals", 1);
            }
        } else {
            let (r, w) = (k + c.rng.below(3), p.d + c.rng.below(3));
            let mut model = KMeansClassifier::new_specified(k, 2, Fixed(Matrix::new(r, w, c.rng.normals(r * w, 1.0))));
            ensure!(model.centroids().is_none(), "centroids before training");
            ensure!(matches!(model.predict(&p.matrix()), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained model predicts");
            match model.train(&p.matrix()) {
                Ok(()) => ensure!(r == k && w == p.d, "starting centroids {}x{} accepted for k {} and {} columns", r, w, k, p.d),
                Err(e) => { ensure!((r, w) != (k, p.d) && kind(&e) == "InvalidState", "{}x{} starting centroids for k {} and {} columns: {:?}", r, w, k, p.d, e); c.count("refusals", 1); ensure!(model.predict(&p.matrix()).is_err(), "refused training, yet predicting"); }
            }
            if n >= 2 {
                let mut v = p.v.clone();
                let at = c.rng.below(v.len());
                v[at] = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let bad = Matrix::new(n, p.d, v);
                let r = KMeansClassifier::new(2).train(&bad);
                ensure!(matches!(r, Err(ref e) if kind(e) == "InvalidData"), "k-means++ on data that is not finite: {:?}", r);
                c.count("refusals", 1);
            }
        }
        c.seen(hash_usizes(&[n, k]));
        Ok(())
    });
}

// ------------------------------------------------------------ DBSCAN

/// Data in which no distance is close to the radius without being exactly computable.
fn neighbour_data(c: &mut Case) -> (Data, f64, usize) {
    let n = match c.rng.below(4) { 0 => c.rng.range(1, 6), 1 | 2 => c.rng.range(5, 40), _ => if c.rng.chance(0.01) { c.rng.range(500, 1500) } else { c.rng.size(40, 120, 1500) } };
    let d = *c.rng.pick(&[1, 2, 2, 3]);
    let r = &mut c.rng;
    let (v, kind, eps): (Vec<f64>, &'static str, f64) = match r.below(7) {
        0 => { let e = *r.pick(&[1.0, 1.5, 2.0, 2.5, 5.0]); (r.ints(n * d, 0, 12), "grid", e) }
        1 => { // chain with gaps, in random order
            let mut x = 0.0;
            let mut rows: Vec<f64> = (0..n).map(|_| { x += if r.chance(0.15) { 3.0 } else { 1.0 }; x }).collect();
            r.shuffle(&mut rows);
            (rows.iter().flat_map(|x| (0..d).map(move |j| if j == 0 { *x } else { 0.0 })).collect(), "chain", *r.pick(&[1.5, 2.0, 3.5]))
        }
        2 => { let m = r.range(2, 5); let base = r.normals(m * d, 12.0); ((0..n).flat_map(|_| { let i = r.below(m); (0..d).map(|j| base[i * d + j] + r.normal()).collect::<Vec<_>>() }).collect(), "clusters", r.uniform(0.3, 2.5)) }
        3 => { // ring and centre
            ((0..n).flat_map(|i| { let a = i as f64 * 0.61; let rad = if i % 3 == 0 { 0.5 } else { 5.0 }; (0..d).map(|j| match j { 0 => rad * a.cos(), 1 => rad * a.sin(), _ => 0.0 }).collect::<Vec<_>>() }).collect(), "ring", r.uniform(0.2, 2.0))
        }
        4 => { let m = r.range(1, 4); let base = r.ints(m * d, -4, 4); ((0..n).flat_map(|_| { let i = r.below(m); base[i * d..(i + 1) * d].to_vec() }).collect(), "copies", *r.pick(&[0.5, 1.5, 3.0])) }
        5 => { let s = r.logu(-6.0, 6.0); (r.normals(n * d, s), "scaled", s * r.uniform(0.1, 1.5)) }
        _ => { // stars: a centre with a few satellites just inside the radius, satellites far from each other
            ((0..n).flat_map(|i| { let star = (i / 5) as f64 * 2.6; let k = i % 5; (0..d).map(|j| match (j, k) { (0, 1) => star + 0.9, (0, 2) => star - 0.9, (1, 3) => 0.9, (1, 4) => -0.9, (0, _) => star, _ => 0.0 }).collect::<Vec<_>>() }).collect(), "stars", 1.0)
        }
    };
    let mut p = Data { n, d, v, kind };
    if p.kind != "chain" && p.kind != "scaled" {
        let order = c.rng.perm(n);
        p.v = order.iter().flat_map(|i| p.row(*i).to_vec()).collect();
    }
    let mut eps = eps;
    if p.kind != "grid" && p.kind != "chain" && p.kind != "copies" {
        // move the radius away from every occurring distance
        'again: for _ in 0..50 {
            for i in 0..n { for j in 0..i { let x = d2(p.row(i), p.row(j)).sqrt(); if (x - eps).abs() < 1e-9 * eps { eps *= 1.0 + 1e-6; continue 'again; } } }
            break;
        }
    }
    if kind_exact(p.kind) && c.rng.chance(0.4) {
        // the same at another scale: a power of two keeps distances exact
        let f = 2f64.powi(c.rng.range(0, 80) as i32 - 40);
        for x in p.v.iter_mut() { *x *= f; }
        eps *= f;
    }
    let min_points = match c.rng.below(6) { 0 => 1, 1 => 2, 2 => 3, 3 => c.rng.range(4, 6), 4 => c.rng.range(0, 12), _ => c.rng.range(2, 4) };
    (p, eps, min_points)
}

fn kind_exact(k: &str) -> bool { k == "grid" || k == "chain" || k == "copies" }
/// Whether distances between values like x are free of rounding: small multiples of a power of two near the radius.
fn plain(x: f64, eps: f64) -> bool { let u = 2f64.powi(eps.log2().floor() as i32 - 8); let y = x / u; y == y.round() && y.abs() < 2e6 }

fn b01(cx: &mut Ctx) {
    cx.rule("Grids (with distances exactly at the radius), chains, rings, stars, clusters, copies and scaled clouds in random row order, radii and minimum counts 0..12 (also the defaults); labels are compared with the connected components of the core graph, predictions with the nearest row. Non-trivial: at least one cluster and either two clusters, a border row or noise; identified by data and parameters.");
    cx.group("labels", 4000, 100_000, |c| {
        let (p, eps, min_points) = neighbour_data(c);
        let n = p.n;
        let default = c.rng.chance(0.06);
        let (eps, min_points) = if default { (0.5, 5) } else { (eps, min_points) };
        // columns that are not small whole multiples of a power of two make distances inexact
        let exact = p.v.iter().chain(Some(&eps)).all(|x| plain(*x, eps));
        let mut model = if default { c.count("default parameters", 1); DBSCAN::default() } else { DBSCAN::new(eps, min_points) };
        let predictive = c.rng.bool();
        if predictive || c.rng.bool() { model.set_predictive(predictive); }
        let near = |i: usize, j: usize| d2(p.row(i), p.row(j)).sqrt() < eps;
        ensure!(model.clusters().is_none(), "clusters before training");
        if c.rng.chance(0.25) {
            // trained on something else before, sometimes on these very rows
            model.set_predictive(c.rng.bool());
            if c.rng.bool() { model.train(&p.matrix()).map_err(|e| format!("first training fails: {}", e))?; }
            else { let (r, w) = (c.rng.range(1, 40), c.rng.range(1, 4)); let o = c.rng.normals(r * w, 1.0); model.train(&Matrix::new(r, w, o)).map_err(|e| format!("first training fails: {}", e))?; }
            model.set_predictive(predictive);
            c.count("trainings of a used model", 1);
        }
        model.train(&p.matrix()).map_err(|e| format!("training fails: {}", e))?;
        let labels = match model.clusters() { Some(l) => l.data().to_vec(), None => return Err("no clusters after training".into()) };
        let ctx = format!("{} {} rows of {} columns, radius {:e}, minimum {}", n, p.kind, p.d, eps, min_points);
        ensure!(labels.len() == n, "{}: {} labels", ctx, labels.len());
        let core: Vec<bool> = (0..n).map(|i| (0..n).filter(|j| near(i, *j)).count() >= min_points).collect();
        // components of the core graph
        let mut comp = vec![usize::MAX; n];
        let mut m = 0;
        for s in 0..n {
            if !core[s] || comp[s] != usize::MAX { continue; }
            let mut stack = vec![s];
            comp[s] = m;
            while let Some(i) = stack.pop() { for j in 0..n { if core[j] && comp[j] == usize::MAX && near(i, j) { comp[j] = m; stack.push(j); } } }
            m += 1;
        }
        let mut of: BTreeMap<usize, usize> = BTreeMap::new(); // label -> component
        let (mut border, mut noise) = (0, 0);
        for i in 0..n {
            if core[i] {
                let l = match labels[i] { Some(l) => l, None => return Err(format!("{}: core row {:?} is labelled noise", ctx, p.row(i))) };
                ensure!(l < m, "{}: label {} although there are {} clusters", ctx, l, m);
                let q = *of.entry(l).or_insert(comp[i]);
                ensure!(q == comp[i], "{}: cluster {} holds rows of two density-connected components", ctx, l);
            }
        }
        ensure!(of.len() == m, "{}: {} labels for {} components: a component is split or two are merged", ctx, of.len(), m);
        for i in 0..n {
            if core[i] { continue; }
            let reach: Vec<usize> = (0..n).filter(|j| core[*j] && near(i, *j)).map(|j| comp[j]).collect();
            match labels[i] {
                None => { ensure!(reach.is_empty(), "{}: row {:?} is labelled noise, but lies within the radius of a core row", ctx, p.row(i)); noise += 1; }
                Some(l) => { ensure!(of.get(&l).map_or(false, |q| reach.contains(q)), "{}: row {:?} is in cluster {} but not within the radius of any of its core rows", ctx, p.row(i), l); border += 1; }
            }
        }
        c.count("core rows", core.iter().filter(|x| **x).count() as u64);
        c.count("border rows", border);
        c.count("noise rows", noise);
        c.count("clusters", m as u64);
        if m >= 1 && (m >= 2 || border + noise > 0) { c.seen(hash_f64s(&p.v) ^ eps.to_bits() ^ min_points as u64); }
        c.sample(|| format!("{}: {} clusters, {} border rows, {} noise rows", ctx, m, border, noise));
        // prediction
        let nq = 8;
        let mut q = vec![];
        for _ in 0..nq {
            let i = c.rng.below(n);
            match c.rng.below(5) {
                4 => { let j = c.rng.below(p.d); let s = c.rng.sign(); q.extend(p.row(i).iter().enumerate().map(|(a, x)| if a == j { x + s * eps } else { *x })) }
                0 => q.extend_from_slice(p.row(i)),
                1 => { let s = eps; let o = c.rng.normals(p.d, s); q.extend(p.row(i).iter().zip(&o).map(|(a, b)| a + b)); }
                2 => { let s = eps * 0.2; let o = c.rng.normals(p.d, s); q.extend(p.row(i).iter().zip(&o).map(|(a, b)| a + b)); }
                _ => { let s = eps * 10.0; let o = c.rng.normals(p.d, s); q.extend(p.row(i).iter().zip(&o).map(|(a, b)| a + b)); }
            }
        }
        let got = model.predict(&Matrix::new(nq, p.d, q.clone()));
        if !predictive { ensure!(matches!(got, Err(ref e) if kind(e) == "InvalidState"), "a model that is not predictive answers {:?}", got); return Ok(()); }
        let got = got.map_err(|e| format!("{}: prediction fails: {}", ctx, e))?;
        ensure!(got.size() == nq, "{}: {} answers for {} rows", ctx, got.size(), nq);
        for (x, l) in q.chunks(p.d).zip(got.data()) {
            let ds: Vec<f64> = (0..n).map(|i| d2(p.row(i), x).sqrt()).collect();
            let best = ds.iter().cloned().fold(f64::INFINITY, f64::min);
            let exact = exact && x.iter().all(|x| plain(*x, eps));
            if (best - eps).abs() < 1e-9 * eps && !(exact && best == eps) { continue; }
            if best == eps { c.count("predictions at the radius", 1); }
            if best >= eps { ensure!(l.is_none(), "{}: {:?} is {:e} from the nearest row and gets {:?}", ctx, x, best, l); c.count("predicted noise", 1); }
            else {
                ensure!((0..n).any(|i| ds[i] <= best + 1e-12 * eps && labels[i] == *l), "{}: {:?} gets {:?}, not the label of its nearest row", ctx, x, l);
                c.count("predicted labels", 1);
            }
        }
        Ok(())
    });
    cx.group("many clusters", 4, 30, |c| {
        // several hundred clusters of a few rows each, in random order
        let m = c.rng.range(258, if c.thorough { 2000 } else { 700 });
        let sizes: Vec<usize> = (0..m).map(|_| c.rng.range(1, 3)).collect();
        let mut at: Vec<(f64, usize)> = sizes.iter().enumerate().flat_map(|(q, s)| (0..*s).map(move |i| (q as f64 * 10.0 + i as f64, q))).collect();
        c.rng.shuffle(&mut at);
        let mut model = DBSCAN::new(1.5, 1);
        model.set_predictive(true);
        model.train(&Matrix::new(at.len(), 1, at.iter().map(|a| a.0).collect::<Vec<f64>>())).map_err(|e| format!("training fails: {}", e))?;
        let labels = model.clusters().ok_or("no clusters after training")?.data().to_vec();
        let mut of = vec![None; m];
        for (l, a) in labels.iter().zip(&at) {
            ensure!(l.map_or(false, |l| l < m), "{} clusters: row {} gets {:?}", m, a.0, l);
            let w = of[a.1].get_or_insert(*l);
            ensure!(*w == *l, "{} clusters: rows of one cluster get {:?} and {:?}", m, w, l);
        }
        let distinct: std::collections::HashSet<_> = of.iter().collect();
        ensure!(distinct.len() == m, "{} clusters get {} labels", m, distinct.len());
        let q: Vec<usize> = (0..40).map(|_| c.rng.below(m)).collect();
        let got = model.predict(&Matrix::new(40, 1, q.iter().map(|q| *q as f64 * 10.0 - 0.75).collect::<Vec<f64>>())).map_err(|e| format!("prediction fails: {}", e))?;
        for (q, l) in q.iter().zip(got.data()) { ensure!(of[*q] == Some(*l), "{} clusters: a row beside cluster {:?} is predicted {:?}", m, of[*q], l); }
        c.count("small clusters", m as u64);
        c.seen(hash_usizes(&sizes));
        Ok(())
    });
    cx.group("row order", 600, 12_000, |c| {
        // the partition of the core rows does not depend on the row order
        let (p, eps, min_points) = neighbour_data(c);
        let n = p.n;
        let mut a = DBSCAN::new(eps, min_points);
        a.train(&p.matrix()).map_err(|e| format!("{}", e))?;
        let order = c.rng.perm(n);
        let q = Data { n, d: p.d, v: order.iter().flat_map(|i| p.row(*i).to_vec()).collect(), kind: p.kind };
        let mut b = DBSCAN::new(eps, min_points);
        b.train(&q.matrix()).map_err(|e| format!("{}", e))?;
        let (la, lb) = (a.clusters().unwrap().data(), b.clusters().unwrap().data());
        let core: Vec<bool> = (0..n).map(|i| (0..n).filter(|j| d2(p.row(i), p.row(*j)).sqrt() < eps).count() >= min_points).collect();
        let mut map = BTreeMap::new();
        for (pos, &i) in order.iter().enumerate() {
            ensure!(la[i].is_some() == lb[pos].is_some(), "{} {} rows, radius {:e}, minimum {}: row {:?} is noise in one row order only", n, p.kind, eps, min_points, p.row(i));
            if core[i] { let w = *map.entry(la[i]).or_insert(lb[pos]); ensure!(w == lb[pos], "{} {} rows, radius {:e}, minimum {}: the clusters depend on the row order", n, p.kind, eps, min_points); }
        }
        c.count("orders", 1);
        c.seen(hash_f64s(&q.v));
        Ok(())
    });
    cx.group("large clusters", 3, 12, |c| {
        // however many rows a cluster has, in a thread with a small stack: a quarter of what threads are given by default
        let n = if c.thorough { c.rng.range(6000, 12_000) } else { c.rng.range(5000, 6000) };
        let kind = c.index % 3;
        let (parts, name) = match kind { 0 => (1, "a chain in order"), 1 => (c.rng.range(1, 4), "chains in random order"), _ => (c.rng.range(1, 3), "dense clusters") };
        let mut at: Vec<(f64, usize)> = (0..n).map(|i| { let q = i * parts / n; (if kind == 2 { c.rng.unit() } else { i as f64 } + q as f64 * 10.0, q) }).collect();
        if kind != 0 { c.rng.shuffle(&mut at); }
        let min_points = c.rng.range(1, 3);
        let x = Matrix::new(n, 1, at.iter().map(|a| a.0).collect::<Vec<f64>>());
        let run = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
            let mut m = DBSCAN::new(1.5, min_points);
            m.train(&x).map_err(|e| e.to_string())?;
            Ok(m.clusters().ok_or("no clusters after training")?.data().to_vec())
        }).map_err(|e| e.to_string())?.join();
        let labels: Vec<Option<usize>> = match run { Ok(r) => r.map_err(|e: String| e)?, Err(_) => return Err(format!("training on {} rows, {}, panics", n, name)) };
        ensure!(labels.len() == n, "{} labels for {} rows", labels.len(), n);
        let mut of = vec![None; parts];
        for (l, a) in labels.iter().zip(&at) {
            ensure!(l.map_or(false, |l| l < parts), "{} rows, {}: row {} gets {:?}", n, name, a.0, l);
            let w = of[a.1].get_or_insert(*l);
            ensure!(*w == *l, "{} rows, {}: rows of one component get {:?} and {:?}", n, name, w, l);
        }
        let distinct: std::collections::HashSet<_> = of.iter().collect();
        ensure!(distinct.len() == parts, "{} rows, {}: {} components, labels {:?}", n, name, parts, of);
        c.count("rows of large clusters", n as u64);
        c.seen(hash_usizes(&[n, kind as usize, parts, min_points]));
        c.sample(|| format!("{} rows, {}, {} components, minimum {}", n, name, parts, min_points));
        Ok(())
    });
}

// ------------------------------------------------------------ Gaussian mixtures

/// Gauss-Jordan inverse and determinant.
pub fn inv_det(a: &[f64], n: usize) -> Option<(Vec<f64>, f64)> {
    let mut m = a.to_vec();
    let mut inv: Vec<f64> = (0..n * n).map(|k| (k / n == k % n) as u8 as f64).collect();
    let mut det = 1.0;
    for i in 0..n {
        let p = (i..n).max_by(|x, y| m[x * n + i].abs().partial_cmp(&m[y * n + i].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        if m[p * n + i] == 0.0 || !m[p * n + i].is_finite() { return None; }
        if p != i { for j in 0..n { m.swap(p * n + j, i * n + j); inv.swap(p * n + j, i * n + j); } det = -det; }
        let d = m[i * n + i];
        det *= d;
        for j in 0..n { m[i * n + j] /= d; inv[i * n + j] /= d; }
        for r in 0..n { if r != i { let f = m[r * n + i]; if f != 0.0 { for j in 0..n { m[r * n + j] -= f * m[i * n + j]; inv[r * n + j] -= f * inv[i * n + j]; } } } }
    }
    Some((inv, det))
}
fn norm1(a: &[f64], n: usize) -> f64 { (0..n).map(|i| (0..n).map(|j| a[i * n + j].abs()).sum::<f64>()).fold(0.0, f64::max) }

struct Mix { w: Vec<f64>, mean: Vec<f64>, cov: Vec<Vec<f64>> }
fn state(g: &GaussianMixtureModel) -> Option<Mix> {
    Some(Mix { w: g.mixture_weights().data().to_vec(), mean: g.means()?.data().to_vec(), cov: g.covariances()?.iter().map(|m| m.data().to_vec()).collect() })
}
/// Memberships and the log likelihood (up to a constant); None if a covariance is too badly conditioned to judge.
fn memberships(p: &Data, s: &Mix) -> Option<(Vec<f64>, f64)> {
    let (k, d) = (s.w.len(), p.d);
    let mut parts = vec![];
    for j in 0..k {
        if s.cov[j].iter().any(|x| !x.is_finite()) { return None; }
        let (inv, det) = inv_det(&s.cov[j], d)?;
        // the linear algebra library refuses matrices with pivots below the machine epsilon as singular
        if !(det > 0.0) || norm1(&s.cov[j], d) * norm1(&inv, d) > 1e6 || norm1(&inv, d) > 1e12 { return None; }
        parts.push((inv, det));
    }
    let (mut out, mut ll) = (vec![], 0.0);
    for i in 0..p.n {
        let l: Vec<f64> = (0..k).map(|j| {
            let diff: Vec<f64> = (0..d).map(|a| p.row(i)[a] - s.mean[j * d + a]).collect();
            let q: f64 = (0..d).map(|a| (0..d).map(|b| diff[a] * parts[j].0[a * d + b] * diff[b]).sum::<f64>()).sum();
            s.w[j].ln() - 0.5 * q - 0.5 * parts[j].1.ln()
        }).collect();
        let top = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let sum: f64 = l.iter().map(|x| (x - top).exp()).sum();
        out.extend(l.iter().map(|x| (x - top).exp() / sum));
        ll += top + sum.ln();
    }
    Some((out, ll))
}
fn em(p: &Data, z: &[f64], k: usize, opt: &CovOption) -> Option<Mix> {
    let d = p.d;
    let mut s = Mix { w: vec![], mean: vec![], cov: vec![] };
    for j in 0..k {
        let w: f64 = (0..p.n).map(|i| z[i * k + j]).sum();
        if !(w > 1e-200) { return None; }
        s.w.push(w / p.n as f64);
        let mean: Vec<f64> = (0..d).map(|a| (0..p.n).map(|i| z[i * k + j] * p.row(i)[a]).sum::<f64>() / w).collect();
        let mut cov = vec![0.0; d * d];
        for a in 0..d { for b in 0..d {
            if matches!(opt, CovOption::Diagonal) && a != b { continue; }
            cov[a * d + b] = (0..p.n).map(|i| z[i * k + j] * (p.row(i)[a] - mean[a]) * (p.row(i)[b] - mean[b])).sum::<f64>() / w;
            if let CovOption::Regularized(e) = *opt { if a == b { cov[a * d + b] += e; } }
        } }
        s.mean.extend(mean);
        s.cov.push(cov);
    }
    Some(s)
}
fn check_mix(s: &Mix, d: usize, k: usize, opt: &CovOption, what: &str) -> Verdict {
    ensure!(s.w.len() == k && s.mean.len() == k * d && s.cov.len() == k && s.cov.iter().all(|c| c.len() == d * d), "{}: parameters have the wrong shape", what);
    ensure!(s.w.iter().all(|w| *w >= 0.0) && close(s.w.iter().sum::<f64>(), 1.0, 1e-9, 0.0), "{}: the weights {:?} are no probabilities", what, s.w);
    for c in &s.cov {
        for a in 0..d { for b in 0..d {
            ensure!(close(c[a * d + b], c[b * d + a], 1e-9, 1e-12 * norm1(c, d)), "{}: covariance {:?} is not symmetric", what, c);
            if matches!(opt, CovOption::Diagonal) && a != b { ensure!(c[a * d + b] == 0.0, "{}: covariance {:?} is not diagonal", what, c); }
        } ensure!(c[a * d + a] >= 0.0, "{}: negative variance in {:?}", what, c); }
    }
    Ok(())
}
fn mixture_data(c: &mut Case) -> Data {
    let n = c.rng.size(12, 60, 2000);
    let d = c.rng.range(1, 3);
    let m = c.rng.range(1, 3);
    let spread = c.rng.uniform(0.0, 6.0);
    let s = if c.rng.bool() { 1.0 } else { c.rng.logu(-2.0, 3.0) };
    let base = c.rng.normals(m * d, spread);
    let tilt = c.rng.normals(d * d, 0.5);
    let v: Vec<f64> = (0..n).flat_map(|i| {
        let e = c.rng.normals(d, 1.0);
        (0..d).map(|j| s * (base[(i % m) * d + j] + e[j] + (0..j).map(|b| tilt[j * d + b] * e[b]).sum::<f64>())).collect::<Vec<_>>()
    }).collect();
    Data { n, d, v, kind: "mixture" }
}
fn build(k: usize, w: &Option<Vec<f64>>, opt: CovOption, iters: usize) -> Result<GaussianMixtureModel, String> {
    let mut g = match w { None => GaussianMixtureModel::new(k), Some(w) => GaussianMixtureModel::with_weights(k, Vector::new(w.clone())).map_err(|e| format!("weights {:?} refused: {}", w, e))? };
    g.cov_option = opt;
    g.set_max_iters(iters);
    Ok(g)
}

/// Starting weights: none, of one size, of very different sizes, nearly adding up to 1.
fn given_weights(c: &mut Case, k: usize) -> Option<Vec<f64>> {
    let r = &mut c.rng;
    let mut w: Vec<f64> = match r.below(6) {
        0 | 1 => return None,
        2 | 3 => (0..k).map(|_| r.uniform(0.1, 3.0)).collect(),
        4 => (0..k).map(|_| r.logu(-12.0, 2.0)).collect(),
        _ => { let v: Vec<f64> = (0..k).map(|_| r.uniform(0.1, 1.0)).collect(); let t: f64 = v.iter().sum::<f64>() * (1.0 + r.sign() * r.logu(-6.0, -1.0)); v.iter().map(|x| x / t).collect() }
    };
    if k > 1 && r.chance(0.1) { let f = r.logu(-3.0, 6.0); for x in w.iter_mut() { *x *= f; } }
    Some(w)
}

fn g01(cx: &mut Ctx) {
    cx.rule("Random mixtures (1..3 columns, 12..60 rows, tilted and scaled), 1..4 components, all covariance options, given and default starting weights, trained with 0, 1, 2, … rounds on the same random stream; every round is compared with an independent EM step, predictions with normalised weighted densities, starting means with a uniform draw of rows. Non-trivial: at least one well-conditioned round with two or more components, identified by data.");
    cx.group("rounds", 1200, 30_000, |c| {
        let p = mixture_data(c);
        let (n, d) = (p.n, p.d);
        let k = c.rng.range(1, 4);
        let opt = match c.rng.below(4) { 0 | 1 => CovOption::Full, 2 => CovOption::Diagonal, _ => CovOption::Regularized(c.rng.logu(-3.0, 1.0) * p.scale().powi(2).max(1e-6)) };
        let w = given_weights(c, k);
        let what = format!("{} rows, {} columns, {} components, {:?}", n, d, k, opt);
        let m = p.matrix();
        let rounds = if n <= 60 && c.rng.chance(0.12) { c.rng.range(8, 40) } else { c.rng.range(2, 5) };
        let q = { let s = p.scale() * 1.5; Data { n: 10, d, v: c.rng.normals(10 * d, s), kind: "queries" } };
        let used = c.rng.chance(0.2);
        let mut prev: Option<Mix> = None;
        let mut prev_ll: Option<f64> = None;
        let mut steady = false;
        for it in 0..=rounds {
            c.reseed(5);
            let mut g = build(k, &w, opt, it)?;
            ensure!(g.means().is_none() && g.covariances().is_none(), "{}: parameters before training", what);
            { let total: f64 = w.as_ref().map_or(1.0, |w| w.iter().sum());
              let want: Vec<f64> = (0..k).map(|j| w.as_ref().map_or(1.0 / k as f64, |w| w[j] / total)).collect();
              ensure!(all_close(g.mixture_weights().data(), &want, 1e-12, 0.0), "{}: before training the weights are {:?}, given {:?}", what, g.mixture_weights(), w); }
            if used { let r = c.rng.range(8, 30); let o = c.rng.normals(r * d, 1.0); let _ = g.train(&Matrix::new(r, d, o)); c.reseed(5); c.count("trainings of a used model", 1); }
            if let Err(e) = g.train(&m) { if it == 0 { return Err(format!("{}: training fails: {}", what, e)); } if let Some(ref pm) = prev { ensure!(memberships(&p, pm).is_none(), "{}: training for {} rounds fails ({}) though the covariances {:?} are well-conditioned", what, it, e, pm.cov); } c.count("trainings ended by a singular covariance", 1); break; }
            let s = match state(&g) { Some(s) => s, None => return Err(format!("{}: no parameters after training", what)) };
            if it == 0 {
                let total: f64 = w.as_ref().map_or(1.0, |w| w.iter().sum());
                for j in 0..k { ensure!(close(s.w[j], w.as_ref().map_or(1.0 / k as f64, |w| w[j] / total), 1e-12, 0.0), "{}: starting weights {:?} from {:?}", what, s.w, w); }
                for r in s.mean.chunks(d) { ensure!(find(&p, r).is_some(), "{}: the starting mean {:?} is not a training row", what, r); }
                check_mix(&s, d, k, &opt, &what)?;
                if !matches!(opt, CovOption::Diagonal) {
                    let z = vec![1.0; n];
                    let mut one = em(&p, &z, 1, &CovOption::Full).unwrap().cov.remove(0);
                    for x in one.iter_mut() { *x *= n as f64 / (n - 1) as f64; }
                    if let CovOption::Regularized(e) = opt { for a in 0..d { one[a * d + a] += e; } }
                    for cv in &s.cov { ensure!(all_close(cv, &one, 1e-9, 1e-12 * norm1(&one, d)), "{}: starting covariance {:?}, the sample covariance is {:?}", what, cv, one); }
                }
            }
            if s.w.iter().chain(&s.mean).chain(s.cov.iter().flatten()).any(|x| !x.is_finite()) {
                if let Some(ref pm) = prev { ensure!(memberships(&p, pm).and_then(|(z, _)| em(&p, &z, k, &opt)).is_none(), "{}: round {} gives parameters that are not finite", what, it); }
                c.count("degenerate rounds not judged", 1);
                break;
            }
            check_mix(&s, d, k, &opt, &what)?;
            if let Some(ref pm) = prev {
                match memberships(&p, pm).and_then(|(z, ll)| em(&p, &z, k, &opt).map(|e| (e, ll))) {
                    Some((want, ll)) => {
                        let sc = p.scale();
                        // rounds end once the log likelihood stays what it was; the parameters are then left alone
                        if prev_ll.map_or(false, |l| (l - ll).abs() < 1e-12 * (1.0 + ll.abs())) { steady = true; }
                        let (rel, tol) = (1e-6, 1e-8);
                        let kept = steady && s.w == pm.w && s.mean == pm.mean && s.cov == pm.cov;
                        if kept { c.count("rounds after the end", 1); }
                        let ok = kept || all_close(&s.w, &want.w, rel, tol * 1e-6) && all_close(&s.mean, &want.mean, rel, tol * sc) && s.cov.iter().zip(&want.cov).all(|(a, b)| all_close(a, b, rel, tol * norm1(b, d).max(tol * sc * sc)));
                        ensure!(ok, "{}: round {} gives weights {:?} means {:?} covariances {:?}; an EM step gives {:?} {:?} {:?}", what, it, s.w, s.mean, s.cov, want.w, want.mean, want.cov);
                        c.count("rounds", 1);
                        if k >= 2 { c.seen(hash_f64s(&p.v) ^ it as u64); }
                        // the likelihood never falls (without regularization)
                        if let (Some(l), true) = (prev_ll, !matches!(opt, CovOption::Regularized(_)) && it >= 3) { ensure!(ll >= l - 1e-6 * (1.0 + l.abs()), "{}: the log likelihood falls from {:e} to {:e}", what, l, ll); }
                        prev_ll = Some(ll);
                    }
                    None => { c.count("degenerate rounds not judged", 1); break; }
                }
            }
            // predictions under these parameters
            for (rows, label) in [(&p, "training rows"), (&q, "new rows")] {
                if let Some((z, _)) = memberships(rows, &s) {
                    let got = match g.predict(&rows.matrix()) { Ok(x) => x, Err(e) => return Err(format!("{}: prediction fails: {}", what, e)) };
                    ensure!(got.rows() == rows.n && got.cols() == k, "{}: memberships are {}x{}", what, got.rows(), got.cols());
                    for i in 0..rows.n {
                        let r = &got.data()[i * k..(i + 1) * k];
                        ensure!(r.iter().all(|x| *x >= 0.0) && close(r.iter().sum(), 1.0, 1e-9, 0.0), "{}: memberships {:?} of {:?}", what, r, rows.row(i));
                        ensure!(all_close(r, &z[i * k..(i + 1) * k], 1e-6, 1e-15), "{} ({}): memberships of {:?} are {:?}, the weighted densities give {:?}", what, label, rows.row(i), r, &z[i * k..(i + 1) * k]);
                    }
                    c.count("memberships", rows.n as u64);
                }
            }
            if it == 1 { c.sample(|| format!("{}: after one round weights {:?} means {:?}", what, s.w, s.mean)); }
            prev = Some(s);
        }
        Ok(())
    });
    cx.group("starting means", 20, 200, |c| {
        // trained for no rounds, the means are rows drawn uniformly
        let k = c.rng.range(1, 4);
        let n = c.rng.range(k + 1, 9);
        let p = tagged(c, n);
        let m = p.matrix();
        let mut counts = vec![0u64; n];
        let draws = 3000;
        for s in 0..draws {
            c.reseed(s);
            let mut g = build(k, &None, CovOption::Diagonal, 0)?;
            g.train(&m).map_err(|e| format!("training fails: {}", e))?;
            let mut at: Vec<Option<usize>> = g.means().unwrap().data().chunks(p.d).map(|r| find(&p, r)).collect();
            at.sort();
            at.dedup();
            ensure!(at.len() == k.min(n), "{} rows, {} components: the starting means {:?} are not distinct rows", n, k, g.means());
            for r in g.means().unwrap().data().chunks(p.d) { match find(&p, r) { Some(i) => counts[i] += 1, None => return Err(format!("the starting mean {:?} is not a row", r)) } }
        }
        let z = chi2_uniform_z(&counts);
        ensure!(z.abs() < Z_ALARM || z < 0.0, "{} rows, {} components: the starting means are the rows {:?} times (z {:.1})", n, k, counts, z);
        c.seen(hash_f64s(&p.v) ^ k as u64);
        c.count("starting means", draws * k as u64);
        Ok(())
    });
    cx.group("far rows", 300, 5000, |c| {
        // memberships are probabilities however far a row is from every component
        let p = mixture_data(c);
        let k = c.rng.range(1, 3);
        let mut g = build(k, &None, CovOption::Full, 1)?;
        if g.train(&p.matrix()).is_err() { return Ok(()); }
        let s = state(&g).unwrap();
        let far = { let z = p.scale() * c.rng.logu(0.5, 3.0); Data { n: 6, d: p.d, v: c.rng.normals(6 * p.d, z), kind: "far" } };
        if let Some((z, _)) = memberships(&far, &s) {
            let got = g.predict(&far.matrix()).map_err(|e| format!("prediction fails: {}", e))?;
            for i in 0..6 {
                let r = &got.data()[i * k..(i + 1) * k];
                ensure!(r.iter().all(|x| *x >= 0.0) && close(r.iter().sum(), 1.0, 1e-9, 0.0), "{} components: the memberships of the far row {:?} are {:?}, not probabilities", k, far.row(i), r);
                let _ = &z;
                c.count("far rows", 1);
            }
            if k >= 2 { c.seen(hash_f64s(&far.v)); }
        }
        Ok(())
    });
    cx.group("weights of nothing", 200, 3000, |c| {
        // a component of weight 0 claims no row
        let p = mixture_data(c);
        let k = c.rng.range(2, 4);
        let mut w: Vec<f64> = c.rng.uniforms(k, 0.1, 2.0);
        let none = c.rng.below(k);
        w[none] = 0.0;
        let mut g = build(k, &Some(w.clone()), CovOption::Full, 0)?;
        if g.train(&p.matrix()).is_err() { return Ok(()); }
        let s = match state(&g) { Some(s) => s, None => return Err("no parameters after training".into()) };
        if let Some((z, _)) = memberships(&p, &s) {
            let got = g.predict(&p.matrix()).map_err(|e| format!("weights {:?}: prediction fails: {}", w, e))?;
            ensure!(all_close(got.data(), &z, 1e-6, 1e-15), "weights {:?}: memberships {:?}, the weighted densities give {:?}", w, got.data(), z);
            ensure!((0..p.n).all(|i| got.data()[i * k + none] == 0.0), "weights {:?}: the component of weight 0 claims rows: {:?}", w, got.data());
            c.count("components of weight 0", 1);
            c.seen(hash_f64s(&p.v));
        }
        Ok(())
    });
    cx.group("refusals", 300, 3000, |c| {
        let k = c.rng.range(1, 5);
        let m = c.rng.range(1, 6);
        let mut w: Vec<f64> = (0..m).map(|_| c.rng.uniform(0.01, 2.0)).collect();
        let neg = c.rng.chance(0.3);
        if neg { let i = c.rng.below(m); w[i] = -w[i]; }
        match GaussianMixtureModel::with_weights(k, Vector::new(w.clone())) {
            Ok(g) => { ensure!(m == k && !neg, "weights {:?} accepted for {} components", w, k); let t: f64 = w.iter().sum(); ensure!(g.mixture_weights().data().iter().zip(&w).all(|(a, b)| close(*a, b / t, 1e-12, 0.0)), "weights {:?} become {:?}", w, g.mixture_weights()); }
            Err(e) => { ensure!((m != k || neg) && kind(&e) == "InvalidParameters", "weights {:?} for {} components: {:?}", w, k, e); c.count("refusals", 1); }
        }
        let d = c.rng.range(1, 3);
        let mut g = GaussianMixtureModel::new(1);
        ensure!(matches!(g.predict(&Matrix::new(1, d, vec![1.0; d])), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained mixture predicts");
        let r = g.train(&Matrix::new(1, d, c.rng.normals(d, 1.0)));
        ensure!(matches!(r, Err(ref e) if kind(e) == "InvalidData"), "training on one row: {:?}", r);
        c.count("refusals", 2);
        let _ = ErrorKind::InvalidData;
        Ok(())
    });
}

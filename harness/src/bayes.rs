//! Naive Bayes: learned statistics recounted, decisions recomputed from the raw data.
use crate::util::*;
use rusty_machine::learning::naive_bayes::{Bernoulli, Distribution, Gaussian, Multinomial, NaiveBayes};
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::RefCell;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("Y01", y01), ("Y02", y02)];

fn mat(n: usize, d: usize, v: &[f64]) -> Matrix<f64> { Matrix::new(n, d, v.to_vec()) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum V { Gauss, Bern, Multi }

struct Data { n: usize, d: usize, k: usize, x: Vec<f64>, class: Vec<usize>, v: V, units: Vec<f64> }
impl Data {
    fn targets(&self) -> Matrix<f64> { one_hot(&self.class, self.k) }
    fn inputs(&self) -> Matrix<f64> { mat(self.n, self.d, &self.x) }
    fn rows_of(&self, c: usize) -> Vec<&[f64]> { (0..self.n).filter(|i| self.class[*i] == c).map(|i| &self.x[i * self.d..(i + 1) * self.d]).collect() }
    fn permuted(&self, p: &[usize]) -> Data { Data { n: self.n, d: self.d, k: self.k, v: self.v, units: self.units.clone(), x: p.iter().flat_map(|i| self.x[i * self.d..(i + 1) * self.d].to_vec()).collect(), class: p.iter().map(|i| self.class[*i]).collect() } }
}
fn one_hot(c: &[usize], k: usize) -> Matrix<f64> { Matrix::new(c.len(), k, c.iter().flat_map(|c| (0..k).map(|j| (j == *c) as u8 as f64).collect::<Vec<_>>()).collect::<Vec<_>>()) }
fn features(c: &mut Case, v: V, d: usize, shift: &[f64]) -> Vec<f64> {
    (0..d).map(|j| match v {
        V::Gauss => c.rng.normal() * (0.5 + shift[j].abs() * 0.2) + shift[j],
        V::Bern => c.rng.chance(1.0 / (1.0 + (-shift[j]).exp())) as u8 as f64,
        V::Multi => c.rng.below((shift[j].abs() * 4.0) as usize + 2) as f64,
    }).collect()
}
/// Classes present in any order, possibly some absent ones; every present class has at least `min` rows.
fn data(c: &mut Case, v: V) -> Data { let (k, d) = (c.rng.size(1, 5, 12), c.rng.size(1, 6, 60)); data_of(c, v, k, d, 900) }
fn data_of(c: &mut Case, v: V, k: usize, d: usize, big: usize) -> Data {
    let mut present: Vec<usize> = (0..k).collect();
    if k > 1 && c.rng.chance(0.25) { let drop = c.rng.below(k); present.remove(drop); }
    let min = if v == V::Gauss { 2 } else { 1 };
    let offset = if v == V::Gauss && c.rng.chance(0.2) { c.rng.sign() * c.rng.logu(0.0, 3.0) } else { 0.0 };
    let mut class = vec![];
    for p in &present { let m = if big > 900 && c.rng.bool() { big + c.rng.below(999) } else if big == 0 { c.rng.range(min, 4) } else { c.rng.size(min, 14, 900) }; class.extend(std::iter::repeat(*p).take(m)); }
    c.rng.shuffle(&mut class);
    let shifts: Vec<Vec<f64>> = (0..k).map(|_| c.rng.normals(d, 1.5)).collect();
    // columns of widely different units, and counts in the thousands
    let units: Vec<f64> = if v == V::Gauss && c.rng.chance(0.3) { { let w = if c.rng.chance(0.2) { 90.0 } else { 7.0 }; (0..d).map(|_| c.rng.logu(-w, w)).collect() } } else if v == V::Multi && c.rng.chance(0.1) { vec![1000.0; d] } else { vec![1.0; d] };
    let mut x = vec![];
    for q in &class { x.extend(features(c, v, d, &shifts[*q]).into_iter().zip(&units).map(|(v, u)| (v + offset) * u)); }
    // a column that is always, or never, set in one class
    if v != V::Gauss && c.rng.chance(if big > 900 { 0.8 } else { 0.3 }) { let (j, q, e) = (c.rng.below(d), *c.rng.pick(&present), c.rng.below(2) as f64); for i in 0..class.len() { if class[i] == q { x[i * d + j] = e; } } }
    Data { n: class.len(), d, k, x, class, v, units }
}

/// The statistics of a class by recount: (a, b) = (means, variances) or (log probabilities, nothing).
fn stats(t: &Data, cl: usize) -> Option<(Vec<f64>, Vec<f64>)> {
    let rows = t.rows_of(cl);
    if rows.is_empty() { return None; }
    let m = rows.len() as f64;
    let sum: Vec<f64> = (0..t.d).map(|j| rows.iter().map(|r| r[j]).sum()).collect();
    Some(match t.v {
        V::Gauss => {
            let mean: Vec<f64> = sum.iter().map(|s| s / m).collect();
            let var = (0..t.d).map(|j| rows.iter().map(|r| (r[j] - mean[j]).powi(2)).sum::<f64>() / (m - 1.0)).collect();
            (mean, var)
        }
        V::Bern => (sum.iter().map(|s| ((s + 1.0) / (m + 2.0)).ln()).collect(), vec![]),
        V::Multi => { let all: f64 = sum.iter().sum::<f64>() + t.d as f64; (sum.iter().map(|s| ((s + 1.0) / all).ln()).collect(), vec![]) }
    })
}
/// Log prior plus summed log likelihood of one row, by definition.
fn posterior(t: &Data, cl: usize, q: &[f64], known: &[Option<(Vec<f64>, Vec<f64>)>], counts: &[usize]) -> f64 {
    let (a, b) = match &known[cl] { Some(s) => s, None => return f64::NEG_INFINITY };
    let prior = (counts[cl] as f64 / t.n as f64).ln();
    prior + (0..t.d).map(|j| match t.v {
        V::Gauss => -0.5 * (2.0 * std::f64::consts::PI * b[j]).ln() - (q[j] - a[j]).powi(2) / (2.0 * b[j]),
        V::Bern => { let p = a[j].exp(); q[j] * p.ln() + (1.0 - q[j]) * (1.0 - p).ln() }
        V::Multi => q[j] * a[j],
    }).sum::<f64>()
}

enum Model { G(NaiveBayes<Gaussian>), B(NaiveBayes<Bernoulli>), M(NaiveBayes<Multinomial>) }
impl Model {
    fn new(v: V) -> Model { match v { V::Gauss => Model::G(NaiveBayes::new()), V::Bern => Model::B(NaiveBayes::new()), V::Multi => Model::M(NaiveBayes::new()) } }
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> { match *self { Model::G(ref mut m) => m.train(x, y), Model::B(ref mut m) => m.train(x, y), Model::M(ref mut m) => m.train(x, y) } }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { match *self { Model::G(ref m) => m.predict(x), Model::B(ref m) => m.predict(x), Model::M(ref m) => m.predict(x) } }
    fn log_probs(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> { match *self { Model::G(ref m) => m.get_log_probs(x), Model::B(ref m) => m.get_log_probs(x), Model::M(ref m) => m.get_log_probs(x) } }
    fn prior(&self) -> Option<Vec<f64>> { match *self { Model::G(ref m) => m.class_prior().cloned(), Model::B(ref m) => m.class_prior().cloned(), Model::M(ref m) => m.class_prior().cloned() } }
    fn count(&self) -> Option<usize> { match *self { Model::G(ref m) => m.cluster_count().cloned(), Model::B(ref m) => m.cluster_count().cloned(), Model::M(ref m) => m.cluster_count().cloned() } }
    fn tables(&self) -> Option<(Matrix<f64>, Option<Matrix<f64>>)> {
        match *self {
            Model::G(ref m) => m.distr().map(|d| (d.theta().clone(), Some(d.sigma().clone()))),
            Model::B(ref m) => m.distr().map(|d| (d.log_probs().clone(), None)),
            Model::M(ref m) => m.distr().map(|d| (d.log_probs().clone(), None)),
        }
    }
}
fn learned(t: &Data, m: &Model, what: &str) -> Verdict {
    ensure!(m.count() == Some(t.k), "{}: {:?} classes for {}", what, m.count(), t.k);
    let prior = m.prior().ok_or("no priors after training")?;
    let want: Vec<f64> = (0..t.k).map(|c| t.rows_of(c).len() as f64 / t.n as f64).collect();
    ensure!(all_close(&prior, &want, 1e-13, 0.0), "{}: priors {:?}, the shares are {:?}", what, prior, want);
    let (a, b) = m.tables().ok_or("no parameters after training")?;
    ensure!(a.rows() == t.k && a.cols() == t.d, "{}: a {} x {} table for {} classes of {} columns", what, a.rows(), a.cols(), t.k, t.d);
    for c in 0..t.k {
        let (wa, wb) = match stats(t, c) { Some(s) => s, None => continue };
        let got = &a.data()[c * t.d..(c + 1) * t.d];
        let size = |j: usize| if t.v == V::Gauss { (0..t.n).fold(0.0, |m: f64, i| m.max(t.x[i * t.d + j].abs())) } else { 1.0 };
        ensure!((0..t.d).all(|j| close(got[j], wa[j], 1e-10, 1e-12 * size(j))), "{}: class {} has {:?}, by recount {:?}", what, c, got, wa);
        if let Some(ref b) = b {
            ensure!(b.rows() == t.k && b.cols() == t.d, "{}: a {} x {} table of variances", what, b.rows(), b.cols());
            let got = &b.data()[c * t.d..(c + 1) * t.d];
            for j in 0..t.d { ensure!(close(got[j], wb[j], 1e-9, 1e-14 * wa[j] * wa[j]), "{}: class {} has variances {:?}, by recount {:?}", what, c, got, wb); }
        }
    }
    Ok(())
}
thread_local!(static LOG: RefCell<Vec<(usize, usize, Vec<Vec<f64>>)>> = RefCell::new(vec![]); static DIMS: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]););
/// A distribution of our own that records what it is given.
#[derive(Debug)]
struct Spy { seen: Vec<(usize, f64)>, classes: usize }
impl Distribution for Spy {
    fn from_model_params(class_count: usize, features: usize) -> Spy { DIMS.with(|d| d.borrow_mut().push((class_count, features))); Spy { seen: vec![], classes: class_count } }
    fn update_params(&mut self, data: &Matrix<f64>, class: usize) -> LearningResult<()> {
        self.seen.push((class, data.data().iter().sum()));
        LOG.with(|l| l.borrow_mut().push((class, data.rows(), data.data().chunks(data.cols().max(1)).map(|r| r.to_vec()).collect())));
        Ok(())
    }
    fn joint_log_lik(&self, data: &Matrix<f64>, class_prior: &[f64]) -> LearningResult<Matrix<f64>> {
        // row 0 of the answer shows the priors, the others favour class (first entry mod classes)
        let k = self.classes;
        Ok(Matrix::new(data.rows(), k, (0..data.rows()).flat_map(|r| (0..k).map(|c| if r == 0 { class_prior[c] } else { -((c as f64 - (data.data()[r * data.cols()] as usize % k) as f64).abs()) - 1.0 }).collect::<Vec<_>>()).collect::<Vec<_>>()))
    }
}

fn y01(cx: &mut Ctx) {
    cx.rule("Data of 1..5 classes (some absent; a group of up to 90), 1..6 columns in units from 1e-90 to 1e90, 1..14 rows a class (a group of up to 67000), in any order, for the three variants, trained once or after other data, and an own recording distribution; every learned number is recounted. Non-trivial: at least two classes present, identified by the data.");
    for (name, v) in [("Gaussian", V::Gauss), ("Bernoulli", V::Bern), ("multinomial", V::Multi)] {
        cx.group(name, 1500, 50_000, |c| {
            let t = data(c, v);
            let what = format!("{} {} rows, {} columns, {} classes", name, t.n, t.d, t.k);
            let mut m = Model::new(v);
            ensure!(m.prior().is_none() && m.tables().is_none() && m.count().is_none(), "{}: an untrained model has parameters", what);
            if c.rng.chance(0.3) { let o = data(c, v); m.train(&o.inputs(), &o.targets()).map_err(|e| e.to_string())?; learned(&o, &m, "first training")?; }
            m.train(&t.inputs(), &t.targets()).map_err(|e| format!("{}: {}", what, e))?;
            learned(&t, &m, &what)?;
            // row order
            let p = t.permuted(&c.rng.perm(t.n));
            let mut m2 = Model::new(v);
            m2.train(&p.inputs(), &p.targets()).map_err(|e| e.to_string())?;
            learned(&t, &m2, &format!("{}, permuted", what))?;
            c.count("classes", t.k as u64);
            if (0..t.k).filter(|k| !t.rows_of(*k).is_empty()).count() > 1 { c.seen(hash_f64s(&t.x) ^ hash_usizes(&t.class)); }
            c.sample(|| format!("{}: priors {:?}, first table {:?}", what, m.prior().unwrap(), &m.tables().unwrap().0.data()[..t.d]));
            Ok(())
        });
    }
    cx.group("many classes", 60, 1500, |c| {
        let v = *c.rng.pick(&[V::Gauss, V::Bern, V::Multi]);
        let (k, d) = (c.rng.range(13, 90), c.rng.range(1, 4));
        let t = data_of(c, v, k, d, 0);
        let mut m = Model::new(v);
        m.train(&t.inputs(), &t.targets()).map_err(|e| e.to_string())?;
        learned(&t, &m, &format!("{:?} {} rows, {} columns, {} classes", v, t.n, t.d, t.k))?;
        c.count("classes", t.k as u64);
        c.seen(hash_f64s(&t.x) ^ hash_usizes(&t.class));
        Ok(())
    });
    cx.group("many rows", 8, 120, |c| {
        let v = *c.rng.pick(&[V::Gauss, V::Bern, V::Multi]);
        let (k, d, big) = (c.rng.range(1, 3), c.rng.range(1, 2), *c.rng.pick(&[5000, 33_000, 66_000]));
        let t = data_of(c, v, k, d, big);
        let mut m = Model::new(v);
        m.train(&t.inputs(), &t.targets()).map_err(|e| e.to_string())?;
        learned(&t, &m, &format!("{:?} {} rows, {} columns, {} classes", v, t.n, t.d, t.k))?;
        c.count("rows of large data sets", t.n as u64);
        c.seen(hash_f64s(&t.x) ^ hash_usizes(&t.class));
        Ok(())
    });
    cx.group("grouping", 1000, 30_000, |c| {
        // an own distribution sees every class once, with exactly its rows
        let t = data(c, V::Gauss);
        LOG.with(|l| l.borrow_mut().clear());
        DIMS.with(|l| l.borrow_mut().clear());
        let mut m = NaiveBayes::<Spy>::new();
        m.train(&t.inputs(), &t.targets()).map_err(|e| e.to_string())?;
        let dims = DIMS.with(|d| d.borrow().clone());
        ensure!(dims == [(t.k, t.d)], "parameters were made for {:?}, the data has {} classes and {} columns", dims, t.k, t.d);
        let log = LOG.with(|l| l.borrow().clone());
        for cl in 0..t.k {
            let mut want: Vec<Vec<f64>> = t.rows_of(cl).into_iter().map(|r| r.to_vec()).collect();
            let calls: Vec<_> = log.iter().filter(|l| l.0 == cl).collect();
            ensure!(calls.len() == !want.is_empty() as usize, "class {} with {} rows was updated {} times", cl, want.len(), calls.len());
            if want.is_empty() { continue; }
            let mut got = calls[0].2.clone();
            let key = |a: &Vec<f64>, b: &Vec<f64>| a.partial_cmp(b).unwrap();
            want.sort_by(key);
            got.sort_by(key);
            ensure!(got == want, "class {} was given {:?}, its rows are {:?}", cl, got, want);
        }
        ensure!(log.iter().all(|l| l.0 < t.k), "classes {:?} of {}", log.iter().map(|l| l.0).collect::<Vec<_>>(), t.k);
        c.count("updates", log.len() as u64);
        if t.k > 1 { c.seen(hash_f64s(&t.x)); }
        Ok(())
    });
    cx.group("refusals", 500, 10_000, |c| {
        let t = data(c, V::Gauss);
        let mut m = Model::new(V::Gauss);
        m.train(&t.inputs(), &t.targets()).map_err(|e| e.to_string())?;
        let which = c.rng.below(3);
        let bad = match which {
            // no class named in one row
            0 => { let mut y = t.targets().data().clone(); let r = c.rng.below(t.n); for j in 0..t.k { y[r * t.k + j] = 0.0; } if c.rng.bool() { let j = c.rng.below(t.k); y[r * t.k + j] = c.rng.uniform(-1.0, 0.99); } m.train(&t.inputs(), &mat(t.n, t.k, &y)) }
            // one row in a class: no sample variance
            1 => { let k = t.k + 1; let mut cl = t.class.clone(); cl.push(t.k); let mut x = t.x.clone(); x.extend(c.rng.normals(t.d, 1.0)); m.train(&mat(t.n + 1, t.d, &x), &one_hot(&cl, k)) }
            // fewer or more targets than rows
            _ => { let mut cl = t.class.clone(); if c.rng.bool() && cl.len() > 1 { cl.pop(); } else { cl.push(0); } m.train(&t.inputs(), &one_hot(&cl, t.k)) }
        };
        ensure!(bad.is_err(), "training {} is accepted", ["without a class for one row", "with a single row in a class", "with another number of targets than rows"][which]);
        learned(&t, &m, "after a refused training")?;
        c.count("refusals", 1);
        c.seen(hash_f64s(&t.x));
        Ok(())
    });
}

fn y02(cx: &mut Ctx) {
    cx.rule("Trained models of the three variants (absent classes included) and query rows from and away from the training distribution; log probabilities and decisions recomputed from the raw training data. Non-trivial: at least two classes present and decided for, identified by data and queries.");
    for (name, v, size, quick, thorough) in [("Gaussian", V::Gauss, 0, 1500, 50_000), ("Bernoulli", V::Bern, 0, 1500, 50_000), ("multinomial", V::Multi, 0, 1500, 50_000),
        ("Gaussian, many classes", V::Gauss, 1, 25, 500), ("Bernoulli, many classes", V::Bern, 1, 25, 500), ("multinomial, many classes", V::Multi, 1, 25, 500),
        ("Bernoulli, many rows", V::Bern, 2, 10, 100), ("multinomial, many rows", V::Multi, 2, 10, 100)] {
        cx.group(name, quick, thorough, |c| {
            let t = match size { 0 => data(c, v), 1 => { let (k, d) = (c.rng.range(13, 60), c.rng.range(1, 4)); data_of(c, v, k, d, 0) } _ => { let (k, d, b) = (c.rng.range(1, 3), c.rng.range(1, 3), *c.rng.pick(&[1500, 9000, 40_000])); data_of(c, v, k, d, b) } };
            // no likelihood where a column of a class does not vary
            if v == V::Gauss && (0..t.k).any(|k| stats(&t, k).map_or(false, |s| s.0.iter().zip(&s.1).any(|(m, v)| *v <= 1e-9 * m * m || *v < 1e-250))) { return Ok(()); }
            let mut m = Model::new(v);
            m.train(&t.inputs(), &t.targets()).map_err(|e| e.to_string())?;
            let q = c.rng.range(1, 12);
            let mut x = vec![];
            for _ in 0..q {
                if c.rng.bool() { let i = c.rng.below(t.n); x.extend_from_slice(&t.x[i * t.d..(i + 1) * t.d]); }
                else { let s = c.rng.normals(t.d, 3.0); let f = features(c, v, t.d, &s); x.extend(f.into_iter().zip(&t.units).map(|(f, u)| f * u)); }
            }
            let what = format!("{} {} rows, {} columns, {} classes", name, t.n, t.d, t.k);
            let lp = m.log_probs(&mat(q, t.d, &x)).map_err(|e| format!("{}: {}", what, e))?;
            let out = m.predict(&mat(q, t.d, &x)).map_err(|e| format!("{}: {}", what, e))?;
            ensure!(lp.rows() == q && lp.cols() == t.k && out.rows() == q && out.cols() == t.k, "{}: answers of shape {} x {} and {} x {}", what, lp.rows(), lp.cols(), out.rows(), out.cols());
            let known: Vec<_> = (0..t.k).map(|k| stats(&t, k)).collect();
            let counts: Vec<usize> = (0..t.k).map(|k| t.rows_of(k).len()).collect();
            let mut decided = std::collections::HashSet::new();
            for r in 0..q {
                let row = &x[r * t.d..(r + 1) * t.d];
                let want: Vec<f64> = (0..t.k).map(|k| posterior(&t, k, row, &known, &counts)).collect();
                let got = &lp.data()[r * t.k..(r + 1) * t.k];
                let tol = |w: f64| 1e-8 * (1.0 + w.abs()) ;
                for k in 0..t.k { ensure!(got[k] == want[k] || (got[k] - want[k]).abs() <= tol(want[k]), "{}: log probabilities of {:?} are {:?}, by definition {:?}", what, row, got, want); }
                let hot = &out.data()[r * t.k..(r + 1) * t.k];
                let ones: Vec<usize> = (0..t.k).filter(|k| hot[*k] == 1.0).collect();
                ensure!(ones.len() == 1 && hot.iter().all(|v| *v == 0.0 || *v == 1.0), "{}: {:?} is answered {:?}", what, row, hot);
                let best = want.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                ensure!(best - want[ones[0]] <= 2.0 * tol(best), "{}: {:?} is answered with class {}, log posteriors {:?}", what, row, ones[0], want);
                decided.insert(ones[0]);
            }
            // columns permuted in training and query alike
            let p = c.rng.perm(t.d);
            let shuffle = |v: &[f64]| -> Vec<f64> { v.chunks(t.d).flat_map(|r| p.iter().map(|j| r[*j]).collect::<Vec<_>>()).collect() };
            let mut m2 = Model::new(v);
            m2.train(&mat(t.n, t.d, &shuffle(&t.x)), &t.targets()).map_err(|e| e.to_string())?;
            let lp2 = m2.log_probs(&mat(q, t.d, &shuffle(&x))).map_err(|e| e.to_string())?;
            ensure!(lp2.data().iter().zip(lp.data()).all(|(a, b)| a == b || (a - b).abs() <= 1e-8 * (1.0 + a.abs())), "{}: permuted columns give {:?}, not {:?}", what, lp2.data(), lp.data());
            c.count("rows decided", q as u64);
            if decided.len() > 1 { c.seen(hash_f64s(&t.x) ^ hash_f64s(&x)); }
            c.sample(|| format!("{}: {:?} -> {:?}", what, &x[..t.d], &lp.data()[..t.k]));
            Ok(())
        });
    }
    cx.group("own distribution", 500, 10_000, |c| {
        // decisions follow whatever the distribution reports
        let mut t = data(c, V::Gauss);
        // every class present
        for k in 0..t.k { t.class.push(k); t.x.extend(c.rng.normals(t.d, 1.0)); t.n += 1; }
        let mut m = NaiveBayes::<Spy>::new();
        m.train(&t.inputs(), &t.targets()).map_err(|e| e.to_string())?;
        let q = c.rng.range(2, 9);
        let x: Vec<f64> = c.rng.ints(q * t.d, 0, 40);
        let lp = m.get_log_probs(&mat(q, t.d, &x)).map_err(|e| e.to_string())?;
        let prior = m.class_prior().unwrap();
        ensure!(lp.data()[..t.k] == prior[..], "the distribution was given priors {:?}, the model has {:?}", &lp.data()[..t.k], prior);
        let out = m.predict(&mat(q, t.d, &x)).map_err(|e| e.to_string())?;
        for r in 1..q {
            let want = x[r * t.d] as usize % t.k;
            ensure!((0..t.k).all(|k| out.data()[r * t.k + k] == (k == want) as u8 as f64), "row {} is answered {:?}, class {} is the most likely", r, &out.data()[r * t.k..(r + 1) * t.k], want);
        }
        c.count("rows decided", q as u64);
        if t.k > 1 { c.seen(hash_f64s(&x)); }
        Ok(())
    });
    cx.group("untrained", 50, 500, |c| {
        let v = *c.rng.pick(&[V::Gauss, V::Bern, V::Multi]);
        let m = Model::new(v);
        let x = mat(2, 2, &[0.0, 1.0, 1.0, 0.0]);
        ensure!(m.predict(&x).is_err() && m.log_probs(&x).is_err(), "an untrained {:?} model answers", v);
        c.seen(c.index);
        Ok(())
    });
}

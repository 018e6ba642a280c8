//! Linear and kernel models: PCA, linear, logistic and generalised linear regression, Gaussian processes, SVM.
use crate::util::*;
use rusty_machine::learning::error::Error;
use rusty_machine::learning::glm::{Bernoulli, Criterion, GenLinearModel, Identity, LinkFunc, Log, Logit, Normal, Poisson};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::{BaseLogisticRegressor, LogisticRegressor};
use rusty_machine::learning::optim::grad_desc::GradientDesc;
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::{self, Kernel};
use rusty_machine::learning::{SupModel, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};
use std::cell::RefCell;
use std::rc::Rc;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("P01", p01), ("L01", l01), ("L02", l02), ("L03", l03), ("H01", h01), ("S01", s01)];

fn kind(e: &Error) -> String { format!("{:?}", e.kind()) }
fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }
fn mat(n: usize, d: usize, v: &[f64]) -> Matrix<f64> { Matrix::new(n, d, v.to_vec()) }
fn maxabs(v: &[f64]) -> f64 { v.iter().fold(0.0, |m: f64, x| m.max(x.abs())) }

// ------------------------------------------------------------ dense references

/// Eigenvalues (descending) of a symmetric matrix: cyclic two-sided Jacobi.
fn eigenvalues(a: &[f64], n: usize) -> Vec<f64> {
    let mut a = a.to_vec();
    for _ in 0..100 {
        let off: f64 = (0..n).map(|i| (0..n).filter(|j| *j != i).map(|j| a[i * n + j] * a[i * n + j]).sum::<f64>()).sum();
        let all: f64 = a.iter().map(|x| x * x).sum();
        if off <= 1e-30 * all { break; }
        for p in 0..n { for q in p + 1..n {
            if a[p * n + q] == 0.0 { continue; }
            let th = (a[q * n + q] - a[p * n + p]) / (2.0 * a[p * n + q]);
            let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
            let (c, s) = (1.0 / (t * t + 1.0).sqrt(), t / (t * t + 1.0).sqrt());
            for k in 0..n { let (x, y) = (a[k * n + p], a[k * n + q]); a[k * n + p] = c * x - s * y; a[k * n + q] = s * x + c * y; }
            for k in 0..n { let (x, y) = (a[p * n + k], a[q * n + k]); a[p * n + k] = c * x - s * y; a[q * n + k] = s * x + c * y; }
        } }
    }
    let mut e: Vec<f64> = (0..n).map(|i| a[i * n + i]).collect();
    e.sort_by(|x, y| y.partial_cmp(x).unwrap());
    e
}
/// Solves A X = B by elimination with complete row pivoting; None if singular.
fn solve(a: &[f64], n: usize, b: &[f64], m: usize) -> Option<Vec<f64>> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    for i in 0..n {
        let p = (i..n).max_by(|x, y| a[x * n + i].abs().partial_cmp(&a[y * n + i].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        if !(a[p * n + i].abs() > 0.0) || !a[p * n + i].is_finite() { return None; }
        if p != i { for j in 0..n { a.swap(p * n + j, i * n + j); } for j in 0..m { b.swap(p * m + j, i * m + j); } }
        for r in i + 1..n {
            let f = a[r * n + i] / a[i * n + i];
            if f != 0.0 { for j in i..n { a[r * n + j] -= f * a[i * n + j]; } for j in 0..m { b[r * m + j] -= f * b[i * m + j]; } }
        }
    }
    for i in (0..n).rev() {
        for j in 0..m {
            for k in i + 1..n { b[i * m + j] -= a[i * n + k] * b[k * m + j]; }
            b[i * m + j] /= a[i * n + i];
        }
    }
    Some(b)
}
fn eye(n: usize) -> Vec<f64> { (0..n * n).map(|k| (k / n == k % n) as u8 as f64).collect() }
/// Condition number in the 1-norm.
fn cond(a: &[f64], n: usize) -> f64 {
    let n1 = |m: &[f64]| (0..n).map(|j| (0..n).map(|i| m[i * n + j].abs()).sum::<f64>()).fold(0.0, f64::max);
    solve(a, n, &eye(n), n).map_or(f64::INFINITY, |i| n1(a) * n1(&i))
}
/// X^T diag(w) X of rows with a leading one.
fn gram(x: &[f64], n: usize, d: usize, w: Option<&[f64]>) -> Vec<f64> {
    let at = |i: usize, j: usize| if j == 0 { 1.0 } else { x[i * d + j - 1] };
    let p = d + 1;
    (0..p * p).map(|k| (0..n).map(|i| at(i, k / p) * at(i, k % p) * w.map_or(1.0, |w| w[i])).sum()).collect()
}
fn xt(x: &[f64], n: usize, d: usize, r: &[f64]) -> Vec<f64> {
    (0..d + 1).map(|j| (0..n).map(|i| r[i] * if j == 0 { 1.0 } else { x[i * d + j - 1] }).sum()).collect()
}
fn lin(x: &[f64], d: usize, b: &[f64]) -> Vec<f64> { x.chunks(d).map(|r| b[0] + dot(r, &b[1..])).collect() }

// ------------------------------------------------------------ PCA

fn pca_data(c: &mut Case) -> (usize, usize, Vec<f64>, &'static str) {
    let r = &mut c.rng;
    let (n, d) = match r.below(4) { 0 => (r.size(2, 6, 24), r.size(2, 12, 40)), 1 => { let k = r.size(2, 6, 30); (k, k) } _ => (r.size(4, 40, 2500), r.size(1, 7, 20)) };
    let s = r.logu(-2.0, 3.0);
    let (mut v, k): (Vec<f64>, _) = match r.below(5) {
        0 => (r.normals(n * d, s), "round"),
        1 => { let sc: Vec<f64> = (0..d).map(|_| r.logu(-2.0, 2.0)).collect(); ((0..n * d).map(|i| r.normal() * sc[i % d]).collect(), "stretched") }
        2 => { let q = r.range(1, d); let b = r.normals(q * d, s); ((0..n).flat_map(|_| { let z = r.normals(q, 1.0); (0..d).map(|j| (0..q).map(|k| z[k] * b[k * d + j]).sum::<f64>()).collect::<Vec<_>>() }).collect(), "rank deficient") }
        3 => (r.ints(n * d, -3, 3), "integers"),
        _ => { let mut v = r.normals(n * d, 1.0); let j = r.below(d); for i in 0..n { v[i * d + j] = 2.5; } (v, "constant column") }
    };
    if r.bool() { let off = r.normals(d, 20.0 * maxabs(&v)); for i in 0..n * d { v[i] += off[i % d]; } }
    (n, d, v, k)
}
fn p01(cx: &mut Ctx) {
    cx.rule("Tall, square and wide training data (2..40 rows, a few up to 2500, 1..12 columns; round, stretched, rank deficient, integer, with a constant column, shifted), with and without centring and every number of components; components, their order and predictions judged against the scatter matrix and an independent eigenvalue solver. Non-trivial: at least two columns with positive variance, identified by data and configuration.");
    cx.group("components", 3000, 80_000, |c| {
        let (n, d, v, kind_) = pca_data(c);
        let center = c.rng.bool();
        let full = n.min(d);
        let want = if c.rng.chance(0.3) { None } else if c.rng.chance(0.2) { Some(d) } else { Some(c.rng.range(1, d)) };
        let (mut model, center) = match want { Some(k) => (PCA::new(k, center), center), None => (PCA::default(), true) };
        let what = format!("{} {}x{} rows, components {:?}, centred {}", kind_, n, d, want, center);
        ensure!(matches!(model.components(), Err(ref e) if kind(e) == "UntrainedModel"), "components before training");
        if c.rng.chance(0.25) {
            // trained on something else before
            let (r, w) = (c.rng.range(2, 12), c.rng.range(1, 8));
            let o = c.rng.normals(r * w, 3.0);
            if model.train(&mat(r, w, &o)).is_ok() { c.count("trainings of a used model", 1); }
        }
        model.train(&mat(n, d, &v)).map_err(|e| format!("{}: {}", what, e))?;
        let comp = model.components().map_err(|e| format!("{}: {}", what, e))?;
        let k = want.unwrap_or(full).min(full);
        // components are columns, or rows when there are fewer training rows than columns
        let wide = n < d;
        let (er, ec) = if wide { (k, d) } else { (d, k) };
        ensure!(comp.rows() == er && comp.cols() == ec, "{}: components are {}x{}, not {}x{}", what, comp.rows(), comp.cols(), er, ec);
        let p: Vec<Vec<f64>> = (0..k).map(|i| (0..d).map(|j| if wide { comp[[i, j]] } else { comp[[j, i]] }).collect()).collect();
        let mean: Vec<f64> = (0..d).map(|j| if center { (0..n).map(|i| v[i * d + j]).sum::<f64>() / n as f64 } else { 0.0 }).collect();
        let x: Vec<f64> = (0..n * d).map(|i| v[i] - mean[i % d]).collect();
        let sc: Vec<f64> = (0..d * d).map(|e| (0..n).map(|i| x[i * d + e / d] * x[i * d + e % d]).sum()).collect();
        let trace: f64 = (0..d).map(|j| sc[j * d + j]).sum();
        // rounding of the centring itself
        let noise = (maxabs(&v) * 1e-14).powi(2) * n as f64 + maxabs(&v) * 1e-14 * trace.sqrt() * (n as f64).sqrt();
        let tol = 1e-8 * trace + noise * 10.0;
        for i in 0..k { for j in 0..=i {
            let e = if i == j { 1.0 } else { 0.0 };
            ensure!((dot(&p[i], &p[j]) - e).abs() < 1e-8, "{}: components {} and {} have product {:e}", what, i, j, dot(&p[i], &p[j]));
        } }
        let q = |a: &[f64], b: &[f64]| -> f64 { (0..d).map(|i| a[i] * dot(&sc[i * d..(i + 1) * d], b)).sum() };
        for i in 0..k { for j in 0..i { ensure!(q(&p[i], &p[j]).abs() <= tol, "{}: components {} and {} are correlated: {:e} of {:e}", what, i, j, q(&p[i], &p[j]), trace); } }
        let vars: Vec<f64> = p.iter().map(|a| q(a, a)).collect();
        for i in 1..k { ensure!(vars[i] <= vars[i - 1] + tol, "{}: variances {:?} do not decrease", what, vars); }
        let ev = eigenvalues(&sc, d);
        let (got, best) = (vars.iter().sum::<f64>(), ev[..k].iter().sum::<f64>());
        ensure!((got - best).abs() <= tol, "{}: {} components capture {:e}, the best capture {:e}", what, k, got, best);
        // predictions
        let m = c.rng.size(1, 6, 400);
        let s = maxabs(&v);
        let qs = c.rng.normals(m * d, s);
        for (rows, data) in [(n, &v), (m, &qs)] {
            let out = model.predict(&mat(rows, d, data)).map_err(|e| format!("{}: prediction: {}", what, e))?;
            ensure!(out.rows() == rows && out.cols() == k, "{}: prediction is {}x{}", what, out.rows(), out.cols());
            for r in 0..rows { for j in 0..k {
                let w: f64 = (0..d).map(|t| (data[r * d + t] - mean[t]) * p[j][t]).sum();
                ensure!(close(out[[r, j]], w, 1e-9, 1e-11 * (maxabs(data) + s) * d as f64), "{}: projection {} of {:?} is {:e}, not {:e}", what, j, &data[r * d..(r + 1) * d], out[[r, j]], w);
            } }
        }
        // centring removes a shift of all rows: a component set apart by its variance is the same up to its sign
        if center {
            let off = c.rng.normals(d, s);
            let vs: Vec<f64> = (0..n * d).map(|i| v[i] + off[i % d]).collect();
            let mut other = match want { Some(k) => PCA::new(k, true), None => PCA::default() };
            other.train(&mat(n, d, &vs)).map_err(|e| format!("{}: {}", what, e))?;
            let oc = other.components().map_err(|e| format!("{}", e))?;
            for i in 0..k {
                let apart = (0..d).filter(|j| *j != i).all(|j| (ev[i] - ev[j]).abs() > 1e-3 * trace + 1e6 * noise);
                if apart && trace > 0.0 {
                    let o: Vec<f64> = (0..d).map(|j| if wide { oc[[i, j]] } else { oc[[j, i]] }).collect();
                    ensure!((dot(&o, &p[i]).abs() - 1.0).abs() < 1e-5, "{}: component {} changes when all rows are shifted", what, i);
                    c.count("components compared after a shift", 1);
                }
            }
        }
        c.count(if wide { "wide data sets" } else { "tall or square data sets" }, 1);
        c.count("components", k as u64);
        if d >= 2 && ev[1] > tol { c.seen(hash_f64s(&v) ^ k as u64 ^ center as u64); }
        c.sample(|| format!("{}: variances {:?}", what, vars));
        Ok(())
    });
    cx.group("refusals", 300, 5000, |c| {
        let (n, d, v, _) = pca_data(c);
        let k = d + c.rng.range(1, 3);
        let r = PCA::new(k, c.rng.bool()).train(&mat(n, d, &v));
        ensure!(matches!(r, Err(ref e) if kind(e) == "InvalidData"), "{} components of {} columns: {:?}", k, d, r);
        let mut m = PCA::new(1, c.rng.bool());
        ensure!(matches!(m.predict(&mat(n, d, &v)), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained model predicts");
        m.train(&mat(n, d, &v)).map_err(|e| e.to_string())?;
        let w = if d > 1 && c.rng.bool() { d - 1 } else { d + 1 };
        let q = c.rng.normals(2 * w, 1.0);
        ensure!(matches!(m.predict(&mat(2, w, &q)), Err(ref e) if kind(e) == "InvalidData"), "{} columns predicted after training on {}", w, d);
        c.count("refusals", 3);
        Ok(())
    });
}

// ------------------------------------------------------------ linear regression

fn design(c: &mut Case) -> (usize, usize, Vec<f64>, &'static str) {
    let r = &mut c.rng;
    let d = r.size(1, 6, 20);
    let n = d + 1 + r.size(0, 40, if d < 8 { 4000 } else { 400 });
    match r.below(5) {
        3 => { let sc: Vec<f64> = (0..d).map(|_| r.logu(-2.0, 2.0)).collect(); let all = r.logu(-5.0, 7.0); (n, d, (0..n * d).map(|k| r.normal() * sc[k % d] * all).collect(), "small or large") }
        0 => (n, d, r.normals(n * d, 1.0), "normal"),
        1 => { let sc: Vec<f64> = (0..d).map(|_| r.logu(-2.0, 2.0)).collect(); (n, d, (0..n * d).map(|k| r.normal() * sc[k % d]).collect(), "scaled columns") }
        2 => { let off = r.normals(d, 5.0); (n, d, (0..n * d).map(|k| r.normal() + off[k % d]).collect(), "offset columns") }
        _ => (n, d, r.ints(n * d, -4, 4), "integers"),
    }
}
fn l01(cx: &mut Ctx) {
    cx.rule("Design matrices (1..6 columns, up to 47 rows, a few up to 4000; scaled, shifted, small and large, integer columns) with noisy, exactly linear and constant targets; solutions judged by the normal equations and an independent solver. Non-trivial: a well-conditioned system with more rows than parameters, identified by data.");
    cx.group("exact", 4000, 120_000, |c| {
        let (n, d, x, k) = design(c);
        let truth = c.rng.normals(d + 1, 3.0);
        let noise = *c.rng.pick(&[0.0, 0.1, 10.0]);
        let ts = if c.rng.bool() { 1.0 } else { c.rng.logu(-4.0, 4.0) };
        let y: Vec<f64> = lin(&x, d, &truth).iter().map(|v| ts * (v + noise * c.rng.normal())).collect();
        let g = gram(&x, n, d, None);
        let cn = cond(&g, d + 1);
        if cn > 1e9 { c.count("badly conditioned systems not judged", 1); return Ok(()); }
        let what = format!("{} rows of {} {} columns", n, d, k);
        let mut m = LinRegressor::default();
        ensure!(m.parameters().is_none() && matches!(m.predict(&mat(n, d, &x)), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained model has parameters or predicts");
        if c.rng.chance(0.25) {
            let w = c.rng.range(1, 4);
            let (o, t) = (c.rng.normals((w + 6) * w, 3.0), c.rng.normals(w + 6, 2.0));
            m.train(&mat(w + 6, w, &o), &Vector::new(t)).map_err(|e| format!("training before: {}", e))?;
            c.count("trainings of a used model", 1);
        }
        m.train(&mat(n, d, &x), &Vector::new(y.clone())).map_err(|e| format!("{}: {}", what, e))?;
        let b = match m.parameters() { Some(b) => b.data().to_vec(), None => return Err(format!("{}: no parameters after training", what)) };
        ensure!(b.len() == d + 1, "{}: {} parameters", what, b.len());
        let fit = lin(&x, d, &b);
        let res: Vec<f64> = y.iter().zip(&fit).map(|(a, b)| a - b).collect();
        let ynorm = dot(&y, &y).sqrt();
        // residuals orthogonal to every column
        for (j, s) in xt(&x, n, d, &res).iter().enumerate() {
            let cnorm = g[j * (d + 1) + j].sqrt();
            ensure!(s.abs() <= 1e-14 * cn.max(1e3) * cnorm * ynorm, "{}: residuals and column {} have product {:e} (norms {:e}, {:e}, condition {:e})", what, j, s, cnorm, ynorm, cn);
        }
        if let Some(want) = solve(&g, d + 1, &xt(&x, n, d, &y), 1) {
            let wf = lin(&x, d, &want);
            ensure!(all_close(&fit, &wf, 1e-14 * cn.max(1e4), 1e-14 * cn.max(1e4) * maxabs(&y)), "{}: fitted values {:?}, least squares gives {:?}", what, fit, wf);
        }
        // no nearby parameters are better
        let sse = dot(&res, &res);
        for _ in 0..3 {
            let h = c.rng.logu(-3.0, 0.0);
            let b2: Vec<f64> = b.iter().map(|v| v + h * c.rng.normal() * (v.abs() + 0.1)).collect();
            let r2: f64 = lin(&x, d, &b2).iter().zip(&y).map(|(a, b)| (a - b) * (a - b)).sum();
            ensure!(r2 >= sse * (1.0 - 1e-9) - 1e-20 * cn * ynorm * ynorm, "{}: parameters {:?} have squared error {:e}, {:?} have {:e}", what, b, sse, b2, r2);
        }
        let q = c.rng.normals(7 * d, 10.0);
        for (rows, data) in [(7, &q), (n, &x)] {
            let out = m.predict(&mat(rows, d, data)).map_err(|e| format!("{}: prediction: {}", what, e))?;
            let w = lin(data, d, &b);
            ensure!(all_close(out.data(), &w, 1e-10, 1e-12 * (maxabs(&w) + maxabs(&b) * maxabs(data))), "{}: prediction {:?}, intercept plus weighted inputs are {:?}", what, out, w);
        }
        // equivariance: rows permuted, targets scaled and shifted
        let perm = c.rng.perm(n);
        let (s, t) = (c.rng.sign() * c.rng.logu(-2.0, 2.0), c.rng.normal() * maxabs(&y));
        let xp: Vec<f64> = perm.iter().flat_map(|i| x[i * d..(i + 1) * d].to_vec()).collect();
        let yp: Vec<f64> = perm.iter().map(|i| s * y[*i] + t).collect();
        let mut m2 = LinRegressor::default();
        m2.train(&mat(n, d, &xp), &Vector::new(yp.clone())).map_err(|e| format!("{}: {}", what, e))?;
        let f2 = m2.predict(&mat(n, d, &x)).map_err(|e| e.to_string())?;
        let w: Vec<f64> = fit.iter().map(|v| s * v + t).collect();
        ensure!(all_close(f2.data(), &w, 1e-13 * cn.max(1e4), 1e-13 * cn.max(1e4) * maxabs(&yp)), "{}: the fit does not follow permuted rows and scaled, shifted targets", what);
        if n > d + 1 { c.seen(hash_f64s(&x) ^ hash_f64s(&y)); }
        c.count("systems", 1);
        c.sample(|| format!("{}: parameters {:?}, squared error {:e}", what, b, sse));
        Ok(())
    });
    cx.group("dependent columns", 500, 10_000, |c| {
        // integer columns, repeated, doubled, summed or constant: no unique solution, so a refusal, or a least-squares solution
        let d = c.rng.range(2, 6);
        let n = c.rng.range(2, 40);
        let mut x = c.rng.ints(n * d, -4, 4);
        let (a, b, o) = (c.rng.below(d), c.rng.below(d), c.rng.below(4));
        let to = c.rng.below(d);
        for i in 0..n { x[i * d + to] = match o { 0 => 0.0, 1 => 3.0, 2 if a != to => 2.0 * x[i * d + a], _ if a != to && b != to => x[i * d + a] + x[i * d + b], _ => 1.0 }; }
        let y = c.rng.ints(n, -9, 9);
        let mut m = LinRegressor::default();
        if c.rng.bool() { let w = c.rng.range(1, 4); let (o, t) = (c.rng.normals((w + 6) * w, 3.0), c.rng.normals(w + 6, 2.0)); m.train(&mat(w + 6, w, &o), &Vector::new(t)).map_err(|e| format!("training before: {}", e))?; }
        match guard(|| m.train(&mat(n, d, &x), &Vector::new(y.clone())).map(|_| m.parameters().map(|b| b.data().to_vec()))) {
            Ok(Err(_)) => c.count("singular systems refused", 1),
            Ok(Ok(Some(b))) => {
                ensure!(b.len() == d + 1, "{} parameters for {} columns", b.len(), d);
                // an answer of an all but singular solver may be large: its residuals are orthogonal up to that size
                let res: Vec<f64> = y.iter().zip(lin(&x, d, &b)).map(|(a, b)| a - b).collect();
                let size = maxabs(&b) * 4.0 * (n * (d + 1)) as f64;
                for (j, s) in xt(&x, n, d, &res).iter().enumerate() { ensure!(s.abs() <= 1e-11 * 4.0 * (n as f64 * 40.0 + size), "a singular system of {} rows is answered by {:?}: residuals and column {} have product {:e}", n, b, j, s); }
                c.count("singular systems answered", 1);
            }
            r => return Err(format!("training on dependent columns: {:?}", r.map(|r| r.map_err(|e| e.to_string())))),
        }
        c.seen(hash_f64s(&x) ^ hash_f64s(&y));
        Ok(())
    });
    cx.group("cost and gradient", 2000, 40_000, |c| {
        let (n, d, x, _) = design(c);
        let m = LinRegressor::default();
        // the cost is asked with complete inputs (the column of ones included)
        let y = c.rng.normals(n, 5.0);
        let b = c.rng.normals(d, 2.0);
        let (cost, grad) = m.compute_grad(&b, &mat(n, d, &x), &Vector::new(y.clone()));
        let r: Vec<f64> = x.chunks(d).zip(&y).map(|(row, t)| dot(row, &b) - t).collect();
        let w = dot(&r, &r) / (2.0 * n as f64);
        ensure!(close(cost, w, 1e-10, 0.0), "cost {:e}, half the mean squared error is {:e}", cost, w);
        let wg: Vec<f64> = (0..d).map(|j| (0..n).map(|i| x[i * d + j] * r[i]).sum::<f64>() / n as f64).collect();
        ensure!(all_close(&grad, &wg, 1e-9, 1e-11 * maxabs(&x) * maxabs(&r)), "gradient {:?}, the derivative is {:?}", grad, wg);
        c.seen(hash_f64s(&x) ^ hash_f64s(&b));
        c.count("gradients", 1);
        Ok(())
    });
    cx.group("by gradient descent", 800, 20_000, |c| {
        let d = c.rng.range(1, 3);
        let n = c.rng.size(d + 2, 30, 1500);
        let x = c.rng.uniforms(n * d, -1.2, 1.2);
        let truth = c.rng.normals(d + 1, 2.0);
        let y: Vec<f64> = lin(&x, d, &truth).iter().map(|v| v + 0.2 * c.rng.normal()).collect();
        let g: Vec<f64> = gram(&x, n, d, None).iter().map(|v| v / n as f64).collect();
        let ev = eigenvalues(&g, d + 1);
        let mut m = LinRegressor::default();
        m.train_with_optimization(&mat(n, d, &x), &Vector::new(y.clone()));
        let b = match m.parameters() { Some(b) => b.data().to_vec(), None => return Err("no parameters after training".into()) };
        ensure!(b.len() == d + 1, "{} parameters for {} columns", b.len(), d);
        let best = match solve(&g, d + 1, &xt(&x, n, d, &y).iter().map(|v| v / n as f64).collect::<Vec<_>>(), 1) { Some(b) => b, None => return Ok(()) };
        let sse = |b: &[f64]| lin(&x, d, b).iter().zip(&y).map(|(a, b)| (a - b) * (a - b)).sum::<f64>();
        let (s0, s1, sb) = (sse(&vec![0.0; d + 1]), sse(&b), sse(&best));
        // 100 steps of size 0.3 contract every eigendirection of the cost
        let rate = ev.iter().map(|l| (1.0 - 0.3 * l).abs()).fold(0.0, f64::max).powi(200);
        ensure!(s1 - sb <= rate * (s0 - sb) * (1.0 + 1e-6) + 1e-9 * (s0 + 1e-9), "gradient descent ends at squared error {:e}; it started from {:e}, the least is {:e} and the contraction {:e}", s1, s0, sb, rate);
        c.seen(hash_f64s(&x));
        c.count("descents", 1);
        Ok(())
    });
}

// ------------------------------------------------------------ logistic regression

/// Records what a model hands to its optimiser and answers with chosen parameters.
#[derive(Debug)]
struct Recorder { answer: Vec<f64>, probes: Vec<Vec<f64>>, log: RefCell<Vec<Rec>> }
#[derive(Debug, Clone)]
struct Rec { start: Vec<f64>, rows: usize, cols: usize, inputs: Vec<f64>, targets: Vec<f64>, grads: Vec<(f64, Vec<f64>)> }
impl<'a> OptimAlgorithm<BaseLogisticRegressor> for &'a Recorder {
    fn optimize(&self, model: &BaseLogisticRegressor, start: &[f64], inputs: &Matrix<f64>, targets: &Vector<f64>) -> Vec<f64> {
        let grads = self.probes.iter().map(|p| model.compute_grad(p, inputs, targets)).collect();
        self.log.borrow_mut().push(Rec { start: start.to_vec(), rows: inputs.rows(), cols: inputs.cols(), inputs: inputs.data().clone(), targets: targets.data().to_vec(), grads });
        self.answer.clone()
    }
}
fn sigmoid(z: f64) -> f64 { if z >= 0.0 { 1.0 / (1.0 + (-z).exp()) } else { z.exp() / (1.0 + z.exp()) } }
/// Mean of ln(1 + e^z) - y z, the cross entropy without forming the probability.
fn xent(x: &[f64], d: usize, b: &[f64], y: &[f64]) -> f64 {
    lin(x, d, b).iter().zip(y).map(|(z, y)| z.max(0.0) + (-z.abs()).exp().ln_1p() - y * z).sum::<f64>() / y.len() as f64
}
fn l02(cx: &mut Ctx) {
    cx.rule("Data sets (1..6 columns in units from 1e-4 to 1e7, up to 4000 rows) with 0/1 targets and parameter vectors keeping probabilities off the rounding limits; a recording optimiser captures what the model hands over, its cost and its gradient. Non-trivial: both classes present, identified by data.");
    cx.group("recorded", 3000, 80_000, |c| {
        let (n, d, mut x, k) = design(c);
        let top = maxabs(&x).max(1e-9);
        let s = c.rng.uniform(0.5, 3.0);
        for v in &mut x { *v *= s / top; }
        let y: Vec<f64> = (0..n).map(|_| c.rng.bool() as u8 as f64).collect();
        let mut probes: Vec<Vec<f64>> = (0..3).map(|_| { let s = if c.rng.chance(0.7) { c.rng.uniform(0.2, 3.0) } else { c.rng.uniform(3.0, 40.0) }; c.rng.normals(d + 1, s) }).collect();
        let mut answer = c.rng.normals(d + 1, 2.0);
        // columns in other units, parameters in the inverse ones
        let mut unit = vec![1.0; d + 1];
        if c.rng.chance(0.4) { for u in &mut unit[1..] { *u = c.rng.logu(-4.0, 7.0); } }
        for (k, v) in x.iter_mut().enumerate() { *v *= unit[1 + k % d]; }
        for p in probes.iter_mut().chain(std::iter::once(&mut answer)) { for j in 0..d + 1 { p[j] /= unit[j]; } }
        let rec = Recorder { answer: answer.clone(), probes: probes.clone(), log: RefCell::new(vec![]) };
        let mut m = LogisticRegressor::new(&rec);
        let what = format!("{} rows of {} {} columns", n, d, k);
        ensure!(m.parameters().is_none() && matches!(m.predict(&mat(n, d, &x)), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained model has parameters or predicts");
        m.train(&mat(n, d, &x), &Vector::new(y.clone())).map_err(|e| format!("{}: {}", what, e))?;
        let log = rec.log.borrow().clone();
        ensure!(log.len() == 1, "{}: the optimiser was called {} times", what, log.len());
        let r = &log[0];
        let full: Vec<f64> = x.chunks(d).flat_map(|r| std::iter::once(1.0).chain(r.iter().cloned()).collect::<Vec<_>>()).collect();
        ensure!(r.rows == n && r.cols == d + 1 && r.inputs == full && r.targets == y, "{}: the optimiser was handed other data", what);
        ensure!(r.start.len() == d + 1 && r.start.iter().all(|v| v.is_finite()), "{}: starting point {:?}", what, r.start);
        for (p, (cost, grad)) in probes.iter().zip(&r.grads) {
            let z = lin(&x, d, p);
            // the probability of a row beyond -36 or 36 rounds to one: the cost is not judged there
            let far = z.iter().zip(&y).map(|(z, y)| if *y == 0.0 { *z } else { z.abs() }).fold(0.0, f64::max);
            if far > 34.0 || maxabs(&z) > 600.0 { c.count("costs at the rounding limits not judged", 1); continue; }
            let want = xent(&x, d, p, &y);
            // 1 - p is known to 1e-16: its logarithm to 1e-16 e^z
            let err = z.iter().zip(&y).map(|(z, y)| if *y == 0.0 { 4e-16 * z.exp().min(1e16) } else { 4e-16 }).sum::<f64>() / n as f64;
            if maxabs(&z) > 20.0 { c.count("costs with probabilities below 1e-8 or above 1 - 1e-8", 1); }
            ensure!(close(*cost, want, 1e-6, 1e-12 + err), "{}: cost {:e} at {:?}, the mean cross entropy is {:e}", what, cost, p, want);
            let e: Vec<f64> = z.iter().zip(&y).map(|(z, y)| (sigmoid(*z) - y) / n as f64).collect();
            let wg = xt(&x, n, d, &e);
            ensure!(grad.len() == d + 1 && (0..d + 1).all(|j| close(grad[j], wg[j], 1e-9, 3e-11 * unit[j])), "{}: gradient {:?} at {:?}, the derivative is {:?}", what, grad, p, wg);
            // and it is the derivative of the cost numerically
            let j = c.rng.below(d + 1);
            let h = 1e-5 / unit[j];
            let (mut a, mut b) = (p.clone(), p.clone());
            a[j] += h; b[j] -= h;
            let num = (xent(&x, d, &a, &y) - xent(&x, d, &b, &y)) / (2.0 * h);
            ensure!(close(grad[j], num, 1e-4, 1e-7 * unit[j]), "{}: entry {} of the gradient is {:e}, differences of the cost give {:e}", what, j, grad[j], num);
            c.count("gradients", 1);
        }
        ensure!(m.parameters().map(|p| p.data().to_vec()) == Some(answer.clone()), "{}: parameters {:?}, the optimiser returned {:?}", what, m.parameters(), answer);
        let s = c.rng.logu(-1.0, 3.0);
        let m8 = c.rng.size(8, 8, 2000);
        let q: Vec<f64> = (0..m8 * d).map(|k| c.rng.normal() * s * unit[1 + k % d]).collect();
        let out = m.predict(&mat(m8, d, &q)).map_err(|e| e.to_string())?;
        let w: Vec<f64> = lin(&q, d, &answer).into_iter().map(sigmoid).collect();
        // the linear predictor is known to rounding, the probability with it
        let known: Vec<f64> = q.chunks(d).map(|r| 2e-15 * (d + 2) as f64 * (answer[0].abs() + r.iter().zip(&answer[1..]).map(|(a, b)| (a * b).abs()).sum::<f64>())).collect();
        ensure!(out.size() == m8 && (0..m8).all(|i| out[i] >= 0.0 && out[i] <= 1.0 && close(out[i], w[i], 1e-15 + known[i].min(1.0) * (1.0 - w[i] + known[i].min(1.0)), 1e-300)), "{}: probabilities {:?}, the sigmoid gives {:?}", what, out, w);
        // handed over again with a second training, from scratch
        m.train(&mat(n, d, &x), &Vector::new(y.clone())).map_err(|e| e.to_string())?;
        ensure!(rec.log.borrow()[1].start == r.start, "{}: a second training starts from {:?}, the first from {:?}", what, rec.log.borrow()[1].start, r.start);
        if y.iter().any(|v| *v == 0.0) && y.iter().any(|v| *v == 1.0) { c.seen(hash_f64s(&x) ^ hash_f64s(&y)); }
        Ok(())
    });
    cx.group("gradient descent", 1000, 20_000, |c| {
        let d = c.rng.range(1, 3);
        let n = c.rng.size(4, 30, 1500);
        let mut x = c.rng.normals(n * d, 1.0);
        let truth = c.rng.normals(d + 1, 1.5);
        let y: Vec<f64> = lin(&x, d, &truth).iter().map(|z| (c.rng.unit() < sigmoid(*z)) as u8 as f64).collect();
        if c.rng.chance(0.2) { let u = c.rng.logu(-4.0, 0.0); for v in &mut x { *v *= u; } }
        let iters = c.rng.range(1, 150);
        let a = c.rng.uniform(0.05, 0.6);
        let rec = Recorder { answer: vec![0.0; d + 1], probes: vec![], log: RefCell::new(vec![]) };
        LogisticRegressor::new(&rec).train(&mat(n, d, &x), &Vector::new(y.clone())).map_err(|e| e.to_string())?;
        let mut b = rec.log.borrow()[0].start.clone();
        let start = b.clone();
        for _ in 0..iters {
            let e: Vec<f64> = lin(&x, d, &b).iter().zip(&y).map(|(z, y)| (sigmoid(*z) - y) / n as f64).collect();
            for (v, g) in b.iter_mut().zip(xt(&x, n, d, &e)) { *v -= a * g; }
        }
        let perm = c.rng.perm(n);
        let xp: Vec<f64> = perm.iter().flat_map(|i| x[i * d..(i + 1) * d].to_vec()).collect();
        let yp: Vec<f64> = perm.iter().map(|i| y[*i]).collect();
        for (xs, ys, order) in [(&x, &y, "given"), (&xp, &yp, "permuted")] {
            let mut m = LogisticRegressor::new(GradientDesc::new(a, iters));
            if c.rng.chance(0.25) { let (o, t) = (c.rng.normals(8, 1.0), (0..4).map(|i| (i % 2) as f64).collect::<Vec<_>>()); m.train(&mat(4, 2, &o), &Vector::new(t)).map_err(|e| e.to_string())?; c.count("trainings of a used model", 1); }
            m.train(&mat(n, d, xs), &Vector::new(ys.clone())).map_err(|e| e.to_string())?;
            let got = m.parameters().unwrap().data().to_vec();
            ensure!(all_close(&got, &b, 1e-5, 1e-5), "{} row order: parameters {:?} after {} steps of {}, the log-likelihood's gradient leads to {:?}", order, got, iters, a, b);
        }
        ensure!(xent(&x, d, &b, &y) <= xent(&x, d, &start, &y) * (1.0 + 1e-9) || maxabs(&x) * a > 1.0, "descent increased the cost");
        c.seen(hash_f64s(&x));
        c.count("descents", 2);
        Ok(())
    });
    cx.group("default", 300, 5000, |c| {
        let d = c.rng.range(1, 3);
        let n = c.rng.range(6, 30);
        let x = c.rng.normals(n * d, 0.7);
        let y: Vec<f64> = (0..n).map(|i| (x[i * d] > 0.0) as u8 as f64).collect();
        let mut m = LogisticRegressor::default();
        m.train(&mat(n, d, &x), &Vector::new(y.clone())).map_err(|e| e.to_string())?;
        let b = m.parameters().unwrap().data().to_vec();
        let p = m.predict(&mat(n, d, &x)).map_err(|e| e.to_string())?;
        let w: Vec<f64> = lin(&x, d, &b).into_iter().map(sigmoid).collect();
        ensure!(all_close(p.data(), &w, 1e-9, 1e-12), "default model predicts {:?} for parameters {:?}", p, b);
        ensure!(xent(&x, d, &b, &y) <= xent(&x, d, &vec![0.5; d + 1], &y) + 1e-12, "default training ends at cost {:e}", xent(&x, d, &b, &y));
        c.seen(hash_f64s(&x));
        Ok(())
    });
}

// ------------------------------------------------------------ generalised linear models

fn score_check<C: Criterion + Copy>(c: &mut Case, fam: &str, crit: C, inv: fn(f64) -> f64, weight: fn(f64) -> f64, start: fn(f64) -> f64, x: &[f64], n: usize, d: usize, y: &[f64]) -> Verdict {
    // the reference: the same iteration in independent arithmetic decides whether eight rounds converge
    let what = format!("{} family, {} rows, {} columns", fam, n, d);
    let mut mu: Vec<f64> = y.iter().map(|v| start(*v)).collect();
    let mut z: Vec<f64> = mu.iter().map(|m| match fam { "poisson" => m.ln(), "normal" => *m, _ => (m/(1.0-m)).ln() }).collect();
    let mut b = vec![0.0; d + 1];
    let (mut step, mut worst) = (f64::INFINITY, 1.0f64);
    for _ in 0..8 {
        let w: Vec<f64> = mu.iter().map(|m| weight(*m)).collect();
        let g = gram(x, n, d, Some(&w));
        worst = worst.max(cond(&g, d + 1));
        let wz: Vec<f64> = z.iter().zip(&w).map(|(a, b)| a * b).collect();
        let nb = match solve(&g, d + 1, &xt(x, n, d, &wz), 1) { Some(b) => b, None => { c.count("singular fits not judged", 1); return Ok(()); } };
        step = nb.iter().zip(&b).map(|(a, b)| (a - b).abs()).sum();
        b = nb;
        let eta = lin(x, d, &b);
        mu = eta.iter().map(|e| inv(*e)).collect();
        z = (0..n).map(|i| eta[i] + (y[i] - mu[i]) / weight(mu[i])).collect();
        if !step.is_finite() || worst > 1e9 { break; }
        if step < 1e-10 { break; }
    }
    let mut model = GenLinearModel::new(crit);
    if c.rng.chance(0.25) {
        // trained on fewer rows of the same before
        let m = c.rng.range(d + 2, n);
        if guard(|| { let _ = model.train(&mat(m, d, &x[..m * d]), &Vector::new(y[..m].to_vec())); }).is_err() { model = GenLinearModel::new(crit); }
        c.count("trainings of a used model", 1);
    }
    let r = guard(|| model.train(&mat(n, d, x), &Vector::new(y.to_vec())).map(|_| model));
    if !(step < 1e-6 * (1.0 + maxabs(&b))) || worst > 1e8 || mu.iter().any(|m| weight(*m) < 1e-4) {
        c.count("fits without convergence not judged", 1);
        return match r { Ok(_) => Ok(()), Err(p) => Err(format!("{}: training panics: {}", what, p)) };
    }
    let m = match r { Ok(Ok(m)) => m, Ok(Err(e)) => return Err(format!("{}: training fails: {}", what, e)), Err(p) => return Err(format!("{}: training panics: {}", what, p)) };
    let fit = m.predict(&mat(n, d, x)).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(fit.size() == n, "{}: {} predictions", what, fit.size());
    let res: Vec<f64> = y.iter().zip(fit.data()).map(|(a, b)| a - b).collect();
    let g = gram(x, n, d, None);
    for (j, s) in xt(x, n, d, &res).iter().enumerate() {
        let cn = g[j * (d + 1) + j].sqrt();
        ensure!(s.abs() <= 1e-6 * cn * (1.0 + dot(y, y).sqrt()), "{}: the score of parameter {} is {:e} at the estimate", what, j, s);
    }
    let s = maxabs(x);
    let q = c.rng.normals(6 * d, s * 0.5);
    let out = m.predict(&mat(6, d, &q)).map_err(|e| format!("{}: {}", what, e))?;
    let eta = lin(&q, d, &b);
    for i in 0..6 { ensure!(close(out[i], inv(eta[i]), 1e-4 * (1.0 + maxabs(&eta)), 1e-7), "{}: the mean predicted at {:?} is {:e}, the maximum likelihood estimate gives {:e}", what, &q[i * d..(i + 1) * d], out[i], inv(eta[i])); }
    c.count(&format!("{} fits", fam), 1);
    c.seen(hash_f64s(x) ^ hash_f64s(y));
    c.sample(|| format!("{}: estimate {:?}", what, b));
    Ok(())
}
fn link<L: LinkFunc>(name: &str, u: f64, eta: f64, g: f64) -> Verdict {
    ensure!(close(L::func(u), eta, 1e-9, 1e-11), "{} link of {:e} is {:e}, not {:e}", name, u, L::func(u), eta);
    ensure!(close(L::func_inv(eta), u, 1e-9 * (1.0 + eta.abs()), 0.0), "inverse {} link of {:e} is {:e}, not {:e}", name, eta, L::func_inv(eta), u);
    ensure!(close(L::func_inv(L::func(u)), u, 1e-9, 1e-14), "{} link and its inverse take {:e} to {:e}", name, u, L::func_inv(L::func(u)));
    ensure!(close(L::func_grad(u), g, 1e-9, 0.0), "the derivative of the {} link at {:e} is {:e}, not {:e}", name, u, L::func_grad(u), g);
    Ok(())
}
/// A family of the harness: constant variance under a log link, with every default of the trait.
#[derive(Clone, Copy, Debug)]
struct LogNormalMean;
impl Criterion for LogNormalMean { type Link = Log; fn model_variance(&self, _: f64) -> f64 { 1.0 } }

fn weights_agree<C: Criterion>(name: &str, cr: &C, mu: &[f64], y: &[f64], var: fn(f64) -> f64, g: fn(f64) -> f64, f: fn(f64) -> f64) -> Verdict {
    let (w, yb) = (cr.compute_working_weight(mu), cr.compute_y_bar(y, mu));
    ensure!(w.len() == mu.len() && yb.len() == mu.len(), "{}: {} weights and {} adjustments for {} rows", name, w.len(), yb.len(), mu.len());
    for i in 0..mu.len() {
        ensure!(close(cr.model_variance(mu[i]), var(mu[i]), 1e-9, 1e-10), "{}: variance at {:e} is {:e}", name, mu[i], cr.model_variance(mu[i]));
        ensure!(close(cr.link_grad(mu[i]), g(mu[i]), 1e-9, 0.0), "{}: link derivative at {:e} is {:e}", name, mu[i], cr.link_grad(mu[i]));
        ensure!(close(w[i], 1.0 / (var(mu[i]) * g(mu[i]) * g(mu[i])), 1e-9, 1e-5), "{}: working weight at {:e} is {:e}", name, mu[i], w[i]);
        ensure!(close(yb[i], g(mu[i]) * (y[i] - mu[i]), 1e-9, 1e-15 * g(mu[i])), "{}: adjustment of {:e} at {:e} is {:e}", name, y[i], mu[i], yb[i]);
    }
    let lf = cr.apply_link_func(Vector::new(mu.to_vec()));
    ensure!(lf.size() == mu.len() && (0..mu.len()).all(|i| close(lf[i], f(mu[i]), 1e-9, 1e-11)), "{}: link of {:?} is {:?}", name, mu, lf);
    let li = cr.apply_link_inv(lf.clone());
    ensure!(all_close(li.data(), mu, 1e-9, 1e-12), "{}: inverse link of {:?} is {:?}", name, lf, li);
    Ok(())
}
fn l03(cx: &mut Ctx) {
    cx.rule("Normal, Bernoulli and Poisson data sets (1..3 columns, 8..60 rows, a few up to 3000; fresh or trained before) drawn around a true linear predictor; fits judged by the likelihood equations wherever an independent run of the iteration converges. Link functions and working quantities over the open domains. Non-trivial: a converged fit, identified by data.");
    cx.group("normal", 600, 15_000, |c| {
        let d = c.rng.range(1, 3); let n = c.rng.size(d + 3, 60, 3000);
        let s = c.rng.logu(-1.0, 1.0);
        let x = c.rng.normals(n * d, s);
        let t = c.rng.normals(d + 1, 1.0);
        let y: Vec<f64> = lin(&x, d, &t).iter().map(|e| e + c.rng.normal()).collect();
        score_check(c, "normal", Normal, |e| e, |_| 1.0, |y| y, &x, n, d, &y)
    });
    cx.group("bernoulli", 1500, 40_000, |c| {
        let d = c.rng.range(1, 3); let n = c.rng.size(8, 60, 3000);
        let x = c.rng.normals(n * d, 1.0);
        let t = c.rng.normals(d + 1, 0.7);
        let y: Vec<f64> = lin(&x, d, &t).iter().map(|e| (c.rng.unit() < sigmoid(*e)) as u8 as f64).collect();
        score_check(c, "bernoulli", Bernoulli, sigmoid, |m| { let v = m * (1.0 - m); if v < 1e-5 { 1e-5 } else { v } }, |y| (y+0.5)/2.0, &x, n, d, &y)
    });
    cx.group("fractions", 400, 10_000, |c| {
        // shares between 0 and 1 satisfy the same equations
        let d = c.rng.range(1, 3); let n = c.rng.size(8, 60, 3000);
        let x = c.rng.normals(n * d, 1.0);
        let t = c.rng.normals(d + 1, 0.7);
        let y: Vec<f64> = lin(&x, d, &t).iter().map(|e| { let m = c.rng.range(2, 8); (0..m).filter(|_| c.rng.unit() < sigmoid(*e)).count() as f64 / m as f64 }).collect();
        score_check(c, "bernoulli", Bernoulli, sigmoid, |m| { let v = m * (1.0 - m); if v < 1e-5 { 1e-5 } else { v } }, |y| (y+0.5)/2.0, &x, n, d, &y)
    });
    cx.group("poisson", 1500, 40_000, |c| {
        let d = c.rng.range(1, 3); let n = c.rng.size(8, 60, 3000);
        let x = c.rng.normals(n * d, 0.5);
        let mut t = c.rng.normals(d + 1, 0.5);
        t[0] += c.rng.uniform(0.0, 2.0);
        let y: Vec<f64> = lin(&x, d, &t).iter().map(|e| { let l = (-e.exp().min(30.0)).exp(); let (mut k, mut p) = (0, c.rng.unit()); while p > l { k += 1; p *= c.rng.unit(); } k as f64 }).collect();
        score_check(c, "poisson", Poisson, |e| e.exp(), |m| m, |y| y.max(1e-10), &x, n, d, &y)
    });
    cx.group("large counts", 800, 20_000, |c| {
        // hundreds to millions: the counts are near their means
        let d = c.rng.range(1, 3); let n = c.rng.size(8, 60, 3000);
        let s = c.rng.uniform(0.05, 0.6);
        let x = c.rng.normals(n * d, s);
        let mut t = c.rng.normals(d + 1, 0.7);
        t[0] = c.rng.uniform(3.0, 13.0);
        let y: Vec<f64> = lin(&x, d, &t).iter().map(|e| { let m = e.exp(); (m + m.sqrt() * c.rng.normal()).round().max(0.0) }).collect();
        score_check(c, "poisson", Poisson, |e| e.exp(), |m| m, |y| y.max(1e-10), &x, n, d, &y)
    });
    cx.group("links", 2000, 50_000, |c| {
        let e = c.rng.uniform(-12.0, 12.0);
        let u = sigmoid(e);
        link::<Logit>("logit", u, (u / (1.0 - u)).ln(), 1.0 / (u * (1.0 - u)))?;
        // far tails of the inverse links, where the link itself is at its limit
        let e = c.rng.uniform(-700.0, 700.0);
        let (a, b) = (Logit::func_inv(e), sigmoid(e));
        ensure!(close(a, b, 1e-13, 0.0) && a <= 1.0, "inverse logit link of {:e} is {:e}, not {:e}", e, a, b);
        ensure!(close(Log::func_inv(e), e.exp(), 1e-13, 0.0), "inverse log link of {:e} is {:e}, not {:e}", e, Log::func_inv(e), e.exp());
        let u = c.rng.logu(-300.0, 300.0);
        link::<Log>("log", u, u.ln(), 1.0 / u)?;
        let u = c.rng.logu(-290.0, -1.0);
        ensure!(close(Logit::func(u), u.ln() - (-u).ln_1p(), 1e-12, 0.0) && close(Logit::func_grad(u), 1.0 / (u * (1.0 - u)), 1e-12, 0.0), "logit link of {:e} is {:e}, its derivative {:e}", u, Logit::func(u), Logit::func_grad(u));
        let u = c.rng.logu(-6.0, 6.0);
        link::<Log>("log", u, u.ln(), 1.0 / u)?;
        let u = c.rng.sign() * c.rng.logu(-9.0, 9.0);
        link::<Identity>("identity", u, u, 1.0)?;
        ensure!(Logit::func_inv(800.0) == 1.0 && Logit::func_inv(-800.0) == 0.0, "the inverse logit link has limits {:e} and {:e}", Logit::func_inv(-800.0), Logit::func_inv(800.0));
        let n = c.rng.size(1, 9, 2500);
        let probs: Vec<f64> = c.rng.uniforms(n, 0.02, 0.98);
        let pos: Vec<f64> = (0..n).map(|_| c.rng.logu(-4.0, 5.0)).collect();
        let y01: Vec<f64> = (0..n).map(|_| c.rng.bool() as u8 as f64).collect();
        let yc = c.rng.ints(n, 0, 9);
        let lg = |u: f64| 1.0 / (u * (1.0 - u));
        weights_agree("bernoulli", &Bernoulli, &probs, &y01, |u| u * (1.0 - u), lg, |u| (u / (1.0 - u)).ln())?;
        weights_agree("poisson", &Poisson, &pos, &yc, |u| u, |u| 1.0 / u, f64::ln)?;
        weights_agree("normal", &Normal, &pos, &yc, |_| 1.0, |_| 1.0, |u| u)?;
        weights_agree("log link, constant variance", &LogNormalMean, &pos, &yc, |_| 1.0, |u| 1.0 / u, f64::ln)?;
        let (b, p) = (Bernoulli.initialize_mu(&y01), Poisson.initialize_mu(&yc));
        ensure!(b.iter().zip(&y01).all(|(m, y)| *m > 0.0 && *m < 1.0 && (m - y).abs() <= 0.5), "starting means {:?} for {:?}", b, y01);
        ensure!(p.iter().zip(&yc).all(|(m, y)| *m > 0.0 && (m - y).abs() <= 0.5), "starting means {:?} for {:?}", p, yc);
        ensure!(Normal.initialize_mu(&yc) == yc, "starting means {:?} for {:?}", Normal.initialize_mu(&yc), yc);
        c.seen(u.to_bits());
        c.count("link values", 3);
        Ok(())
    });
    cx.group("refusals", 200, 2000, |c| {
        let (n, d, x, _) = design(c);
        let m = if c.rng.bool() { n + 1 } else { n - 1 };
        let mut g = GenLinearModel::new(Poisson);
        ensure!(matches!(g.predict(&mat(n, d, &x)), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained model predicts");
        let r = g.train(&mat(n, d, &x), &Vector::new(vec![1.0; m]));
        ensure!(matches!(r, Err(ref e) if kind(e) == "InvalidData"), "{} rows with {} targets: {:?}", n, m, r);
        // no inverse: a column of zeros
        let z: Vec<f64> = (0..n).map(|i| i as f64 % 3.0).collect();
        let mut h = GenLinearModel::new(Normal);
        let r = guard(|| h.train(&Matrix::new(n, 1, vec![0.0; n]), &Vector::new(z)));
        ensure!(matches!(r, Ok(Err(_))), "a column of zeros: {:?}", r);
        c.count("refusals", 3);
        Ok(())
    });
}

// ------------------------------------------------------------ Gaussian processes

struct Dyn { ker: Box<dyn Kernel>, name: String }
impl Kernel for Dyn { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { self.ker.kernel(a, b) } }
fn some_kernel(c: &mut Case) -> Dyn {
    let (a, b, s) = (c.rng.uniform(0.3, 3.0), c.rng.uniform(0.3, 3.0), c.rng.uniform(0.1, 2.0));
    match c.rng.below(5) {
        0 => Dyn { ker: Box::new(kernel::SquaredExp::new(a, b)), name: format!("squared exponential {:.2} {:.2}", a, b) },
        1 => Dyn { ker: Box::new(kernel::Exponential::new(a, b)), name: format!("exponential {:.2} {:.2}", a, b) },
        2 => Dyn { ker: Box::new(kernel::Linear::new(s)), name: format!("linear {:.2}", s) },
        3 => Dyn { ker: Box::new(kernel::RationalQuadratic::new(a, b)), name: format!("rational quadratic {:.2} {:.2}", a, b) },
        _ => Dyn { ker: Box::new(kernel::Polynomial::new(1.0, s, 2.0)), name: format!("polynomial {:.2}", s) },
    }
}
#[derive(Debug, Clone)]
struct Affine(Vec<f64>);
impl MeanFunc for Affine { fn func(&self, x: Matrix<f64>) -> Vector<f64> { Vector::new(x.row_iter().map(|r| self.0[0] + dot(r.raw_slice(), &self.0[1..])).collect::<Vec<_>>()) } }

fn kmat<K: Kernel>(k: &K, a: &[f64], b: &[f64], d: usize) -> Vec<f64> { a.chunks(d).flat_map(|r| b.chunks(d).map(|s| k.kernel(r, s)).collect::<Vec<_>>()).collect() }
fn h01(cx: &mut Ctx) {
    cx.rule("1..25 training rows (random, repeated, gridded; 1..4 columns), five kernels, constant zero and affine mean functions, noise from 1e-6 to 10 (some from 1e-12 to 1e6); posterior mean and covariance compared with an independent dense solve. Non-trivial: at least two training rows, identified by data.");
    cx.group("posterior", 2500, 60_000, |c| {
        let d = c.rng.range(1, 4);
        let n = c.rng.size(1, 25, 160);
        let x = match c.rng.below(3) { 0 => c.rng.normals(n * d, 1.5), 1 => c.rng.ints(n * d, -2, 2), _ => c.rng.uniforms(n * d, -3.0, 3.0) };
        let k = some_kernel(c);
        let noise = if c.rng.chance(0.25) { c.rng.logu(-12.0, 6.0) } else { c.rng.logu(-6.0, 1.0) };
        let t = c.rng.normals(d + 1, 1.0);
        let y: Vec<f64> = x.chunks(d).map(|r| dot(r, &t[1..]).sin() * 3.0 + t[0] + 0.1 * c.rng.normal()).collect();
        let mean = if c.rng.bool() { Some(c.rng.normals(d + 1, 1.0)) } else { None };
        let what = format!("{} kernel, noise {:e}, {} rows, {} columns", k.name, noise, n, d);
        let kxx = kmat(&k, &x, &x, d);
        let a: Vec<f64> = kxx.iter().enumerate().map(|(i, v)| v + if i / n == i % n { noise } else { 0.0 }).collect();
        let cn = cond(&a, n);
        if cn > 1e9 { c.count("badly conditioned systems not judged", 1); return Ok(()); }
        let m = c.rng.size(1, 8, 150);
        let q = if c.rng.bool() { c.rng.normals(m * d, 1.5) } else { (0..m).flat_map(|_| { let i = c.rng.below(n); x[i * d..(i + 1) * d].to_vec() }).collect() };
        let mf = |v: &[f64]| -> Vec<f64> { match mean { None => vec![0.0; v.len() / d], Some(ref b) => lin(v, d, b) } };
        let resid: Vec<f64> = y.iter().zip(mf(&x)).map(|(a, b)| a - b).collect();
        let alpha = match solve(&a, n, &resid, 1) { Some(a) => a, None => return Ok(()) };
        let kqx = kmat(&k, &q, &x, d);
        let want: Vec<f64> = mf(&q).iter().enumerate().map(|(i, b)| b + dot(&kqx[i * n..(i + 1) * n], &alpha)).collect();
        // V = A^-1 K(x,q)
        let kxq: Vec<f64> = (0..n * m).map(|e| kqx[(e % m) * n + e / m]).collect();
        let v = solve(&a, n, &kxq, m).unwrap_or_default();
        let kqq = kmat(&k, &q, &q, d);
        let wc: Vec<f64> = (0..m * m).map(|e| kqq[e] - (0..n).map(|i| kqx[(e / m) * n + i] * v[i * m + e % m]).sum::<f64>()).collect();
        let (xm, ym, qm) = (mat(n, d, &x), Vector::new(y.clone()), mat(m, d, &q));
        let untrained = |r: Result<(), Error>| matches!(r, Err(ref e) if kind(e) == "UntrainedModel");
        let name = k.name.clone();
        // sometimes trained on far apart rows of the same width before
        let used = noise > 1e-3 && c.rng.chance(0.25);
        let (xb, yb) = { let r = c.rng.range(1, 5); (mat(r, d, &c.rng.normals(r * d, 2.0)), Vector::new(c.rng.normals(r, 1.0))) };
        let (p1, pm, pc) = match mean {
            None => { let mut g = GaussianProcess::new(k, ConstMean::default(), noise); ensure!(untrained(g.predict(&qm).map(|_| ())) && untrained(g.get_posterior(&qm).map(|_| ())), "an untrained process predicts"); if used { g.train(&xb, &yb).map_err(|e| e.to_string())?; } g.train(&xm, &ym).map_err(|e| format!("{}: {}", what, e))?; let p = g.predict(&qm).map_err(|e| e.to_string())?; let (a, b) = g.get_posterior(&qm).map_err(|e| e.to_string())?; (p, a, b) }
            Some(ref b) => { let mut g = GaussianProcess::new(k, Affine(b.clone()), noise); if used { g.train(&xb, &yb).map_err(|e| e.to_string())?; } g.train(&xm, &ym).map_err(|e| format!("{}: {}", what, e))?; let p = g.predict(&qm).map_err(|e| e.to_string())?; let (a, b) = g.get_posterior(&qm).map_err(|e| e.to_string())?; (p, a, b) }
        };
        let ks = maxabs(&kxx).max(maxabs(&kqq)).max(maxabs(&kqx));
        let tol = 2e-15 * cn.max(10.0) * n as f64;
        let at = tol * (maxabs(&want) + maxabs(&alpha) * maxabs(&kqx) * n as f64);
        ensure!(all_close(p1.data(), &want, 1e-12, at), "{}: mean {:?}, the conditional mean is {:?}", what, p1, want);
        ensure!(all_close(pm.data(), p1.data(), 1e-12, at), "{}: posterior mean {:?} but prediction {:?}", what, pm, p1);
        ensure!(pc.rows() == m && pc.cols() == m, "{}: posterior covariance is {}x{}", what, pc.rows(), pc.cols());
        let ct = tol * ks * 4.0 + 1e-13 * ks;
        ensure!(all_close(pc.data(), &wc, 1e-12, ct), "{}: covariance {:?}, the conditional covariance is {:?}", what, pc.data(), wc);
        for i in 0..m {
            for j in 0..i { ensure!(close(pc[[i, j]], pc[[j, i]], 1e-9, ct), "{}: the covariance is not symmetric", what); }
            ensure!(pc[[i, i]] <= kqq[i * m + i] + ct && pc[[i, i]] >= -ct, "{}: posterior variance {:e}, prior variance {:e}", what, pc[[i, i]], kqq[i * m + i]);
        }
        let least = eigenvalues(&(0..m * m).map(|e| 0.5 * (pc.data()[e] + pc.data()[(e % m) * m + e / m])).collect::<Vec<_>>(), m)[m - 1];
        ensure!(least >= -ct * m as f64, "{}: the covariance has eigenvalue {:e}", what, least);
        c.count("posteriors", 1);
        c.count(name.split(' ').next().unwrap(), 1);
        if n >= 2 { c.seen(hash_f64s(&x) ^ hash_f64s(&y)); }
        c.sample(|| format!("{}: mean {:?}", what, want));
        Ok(())
    });
    cx.group("interpolation", 400, 8000, |c| {
        let n = c.rng.range(2, 8);
        let ls = c.rng.uniform(0.3, 0.8);
        let x: Vec<f64> = (0..n).map(|i| i as f64 + c.rng.uniform(-0.1, 0.1)).collect();
        let y = c.rng.normals(n, 2.0);
        let mut g = GaussianProcess::new(kernel::SquaredExp::new(ls, 1.0), ConstMean::default(), 0.0);
        if c.rng.bool() { g.noise = 1e-10; }
        g.train(&mat(n, 1, &x), &Vector::new(y.clone())).map_err(|e| e.to_string())?;
        let p = g.predict(&mat(n, 1, &x)).map_err(|e| e.to_string())?;
        let ker = kernel::SquaredExp::new(ls, 1.0);
        let cn = cond(&kmat(&ker, &x, &x, 1), n);
        let it = 1e-14 * cn * n as f64 * maxabs(&y) + 2.0 * g.noise * cn * n as f64 * maxabs(&y);
        ensure!(all_close(p.data(), &y, 0.0, it.min(1e-5)), "without noise the mean {:?} misses the targets {:?}", p, y);
        // the default process
        let mut dg = GaussianProcess::default();
        ensure!(dg.noise == 0.0, "the default noise is {:e}", dg.noise);
        let far: Vec<f64> = (0..n).map(|i| 3.0 * i as f64).collect();
        dg.train(&mat(n, 1, &far), &Vector::new(y.clone())).map_err(|e| e.to_string())?;
        let p = dg.predict(&mat(n, 1, &far)).map_err(|e| e.to_string())?;
        ensure!(all_close(p.data(), &y, 1e-5, 1e-5), "the default process predicts {:?} at targets {:?}", p, y);
        let away = dg.predict(&mat(1, 1, &[1e4])).map_err(|e| e.to_string())?;
        ensure!(away[0].abs() < 1e-9, "far from all data the default process predicts {:e}, not its zero mean", away[0]);
        c.seen(hash_f64s(&x));
        c.count("interpolations", 2);
        Ok(())
    });
}

// ------------------------------------------------------------ support vector machine

/// The rows the current random stream draws.
fn stream_rows(n: usize, iters: usize) -> Vec<usize> {
    use rand::Rng;
    let mut rng = rand::thread_rng();
    (0..iters).map(|_| rng.gen_range(0, n)).collect()
}
/// A kernel that notes which training rows it was asked about.
struct Spy<K> { k: Rc<K>, rows: std::collections::HashMap<Vec<u64>, u32>, log: Rc<RefCell<Vec<(u32, u32)>>> }
impl<K: Kernel> Kernel for Spy<K> {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        let id = |v: &[f64]| self.rows.get(&v.iter().map(|e| e.to_bits()).collect::<Vec<_>>()).cloned().unwrap_or(u32::max_value());
        self.log.borrow_mut().push((id(a), id(b)));
        self.k.kernel(a, b)
    }
}
fn spy<K: Kernel>(k: K, x: &[f64], d: usize) -> (Spy<K>, Rc<K>, Rc<RefCell<Vec<(u32, u32)>>>) {
    let k = Rc::new(k);
    let log = Rc::new(RefCell::new(Vec::new()));
    let rows = x.chunks(d).enumerate().map(|(i, r)| (std::iter::once(1.0).chain(r.iter().cloned()).map(|e: f64| e.to_bits()).collect(), i as u32)).collect();
    (Spy { k: k.clone(), rows, log: log.clone() }, k, log)
}
/// The rows drawn, where the kernel calls of a training tell: n calls a step, all about one row.
fn drawn_rows(log: &[(u32, u32)], n: usize, iters: usize) -> Option<Vec<usize>> {
    if n < 2 || log.len() != n * iters { return None; }
    log.chunks(n).map(|b| {
        let first = b[0].0;
        let i = if b.iter().all(|p| p.0 == first) { first } else { let second = b[0].1; if b.iter().all(|p| p.1 == second) { second } else { return None } };
        if (i as usize) < n { Some(i as usize) } else { None }
    }).collect()
}
/// Pegasos on the rows given; None if a decision was too close to call.
fn pegasos(k: &dyn Kernel, x: &[f64], d: usize, y: &[f64], lambda: f64, rows: &[usize]) -> Option<Vec<f64>> {
    let n = y.len();
    let full: Vec<Vec<f64>> = x.chunks(d).map(|r| std::iter::once(1.0).chain(r.iter().cloned()).collect()).collect();
    let g: Vec<f64> = full.iter().flat_map(|a| full.iter().map(|b| k.kernel(a, b)).collect::<Vec<_>>()).collect();
    let mut alpha = vec![0.0; n];
    for (t, i) in rows.iter().enumerate().map(|(t, i)| (t + 1, *i)) {
        let terms: Vec<f64> = (0..n).map(|j| alpha[j] * y[j] * g[i * n + j] * y[i] / (lambda * t as f64)).collect();
        let s: f64 = terms.iter().sum();
        if (s - 1.0).abs() < 1e-9 * (1.0 + terms.iter().map(|v| v.abs()).sum::<f64>()) { return None; }
        if s < 1.0 { alpha[i] += 1.0; }
    }
    Some(alpha)
}
fn s01(cx: &mut Ctx) {
    cx.rule("Training sets of 1..30 rows with -1/1 targets (clusters, rings, random labels), six kernels, lambda from 1e-3 to 10 (some from 1e-12 to 1e6), 1..200 iterations; an independent Pegasos run on the rows drawn (as a recording kernel saw them) gives the expansion every prediction is judged by (margins within rounding of zero may fall either way). Non-trivial: queries of both signs, identified by data.");
    cx.group("lockstep", 3000, 80_000, |c| {
        let d = c.rng.range(1, 4);
        let n = c.rng.size(1, 30, 1200);
        let spread = c.rng.uniform(0.0, 3.0);
        let lab = c.rng.below(3);
        let y: Vec<f64> = (0..n).map(|_| c.rng.sign()).collect();
        let x: Vec<f64> = (0..n).flat_map(|i| (0..d).map(|_| c.rng.normal() + if lab > 0 { y[i] * spread } else { 0.0 }).collect::<Vec<_>>()).collect();
        let k = if c.rng.chance(0.15) { let (a, b) = (c.rng.uniform(0.1, 1.0), c.rng.uniform(-1.0, 1.0)); Dyn { ker: Box::new(kernel::HyperTan::new(a, b)), name: "hyperbolic tangent".into() } } else { some_kernel(c) };
        let lambda = if c.rng.chance(0.2) { c.rng.logu(-12.0, 6.0) } else { c.rng.logu(-3.0, 1.0) };
        let iters = if c.rng.bool() { c.rng.range(1, 20) } else { c.rng.size(20, 200, 3000) };
        let what = format!("{} kernel, lambda {:e}, {} iterations, {} rows, {} columns", k.name, lambda, iters, n, d);
        c.reseed(9);
        let rows = stream_rows(n, iters);
        let full: Vec<Vec<f64>> = x.chunks(d).map(|r| std::iter::once(1.0).chain(r.iter().cloned()).collect()).collect();
        let m = c.rng.size(1, 12, 1500);
        let q = c.rng.normals(m * d, 2.0);
        let qf: Vec<Vec<f64>> = q.chunks(d).map(|r| std::iter::once(1.0).chain(r.iter().cloned()).collect()).collect();
        let (spying, k, log) = spy(k, &x, d);
        let mut s = SVM::new(spying, lambda);
        s.optim_iters = iters;
        ensure!(matches!(s.predict(&mat(m, d, &q)), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained machine predicts");
        if c.rng.chance(0.25) { let r = c.rng.range(1, 6); let (o, t) = (c.rng.normals(r * d, 1.0), (0..r).map(|_| c.rng.sign()).collect::<Vec<_>>()); s.train(&mat(r, d, &o), &Vector::new(t)).map_err(|e| e.to_string())?; c.count("trainings of a used model", 1); }
        c.reseed(9);
        log.borrow_mut().clear();
        s.train(&mat(n, d, &x), &Vector::new(y.clone())).map_err(|e| format!("{}: {}", what, e))?;
        let seen_rows = drawn_rows(&log.borrow(), n, iters);
        log.borrow_mut().clear();
        let mut all = s.predict(&mat(m, d, &q)).map_err(|e| format!("{}: {}", what, e))?.into_vec();
        ensure!(all.len() == m, "{}: {} labels for {} rows", what, all.len(), m);
        all.extend(s.predict(&mat(n, d, &x)).map_err(|e| format!("{}: {}", what, e))?.into_vec());
        ensure!(all.iter().all(|v| *v == 1.0 || *v == -1.0), "{}: labels {:?}", what, all);
        // the rows the kernel was asked about are the rows drawn; where the calls do not tell, a draw of
        // gen_range(0, n) a step is what the loop makes
        if seen_rows.is_some() { c.count("trainings whose rows the kernel calls showed", 1); }
        let alpha = match pegasos(&*k, &x, d, &y, lambda, seen_rows.as_ref().unwrap_or(&rows)) { Some(a) => a, None => { c.count("runs with a decision too close to call", 1); return Ok(()); } };
        let margin: Vec<(f64, f64)> = qf.iter().chain(&full).map(|r| { let t: Vec<f64> = (0..n).map(|j| alpha[j] * y[j] * k.kernel(r, &full[j])).collect(); (t.iter().sum(), t.iter().map(|v| v.abs()).sum()) }).collect();
        let mut judged = 0;
        for (i, (f, t)) in margin.iter().enumerate() {
            if f.abs() <= 1e-9 * t { continue; }
            judged += 1;
            ensure!(all[i] == f.signum(), "{}: row {:?} is labelled {}, the expansion has value {:e}", what, if i < m { &q[i * d..(i + 1) * d] } else { &x[(i - m) * d..(i - m + 1) * d] }, all[i], f);
        }
        c.count("labels", judged);
        c.count("support vectors", alpha.iter().filter(|a| **a > 0.0).count() as u64);
        if margin.iter().any(|m| m.0 > 0.0) && margin.iter().any(|m| m.0 < 0.0) { c.seen(hash_f64s(&x) ^ hash_f64s(&y)); }
        c.sample(|| format!("{}: {} labels judged", what, judged));
        Ok(())
    });
    cx.group("rows drawn", 60, 800, |c| {
        let n = if c.rng.chance(0.75) { c.rng.range(2, 24) } else { c.rng.range(25, 150) };
        let iters = if n < 25 { c.rng.range(150, 400) * n } else { 40 * n };
        let x = c.rng.normals(n, 1.0);
        let y: Vec<f64> = (0..n).map(|_| c.rng.sign()).collect();
        let (spying, _, log) = spy(kernel::SquaredExp::new(1.0, 1.0), &x, 1);
        let mut s = SVM::new(spying, 0.1);
        s.optim_iters = iters;
        s.train(&mat(n, 1, &x), &Vector::new(y)).map_err(|e| e.to_string())?;
        let rows = match drawn_rows(&log.borrow(), n, iters) { Some(r) => r, None => { c.count("trainings whose kernel calls do not tell the rows", 1); return Ok(()) } };
        let count = |k: usize, f: &dyn Fn(usize) -> usize| { let mut v = vec![0u64; k]; for i in 0..iters { v[f(i)] += 1; } v };
        let z = chi2_uniform_z(&count(n, &|i| rows[i]));
        ensure!(z < Z_ALARM, "{} draws among {} rows are not even: z = {:.1}", iters, n, z);
        let each = iters as f64 / n as f64;
        for (i, k) in count(n, &|i| rows[i]).into_iter().enumerate() { ensure!(poisson_bound(k as f64, each) > 1e-14, "row {} of {} is drawn {} times in {} iterations", i, n, k, iters); }
        let gaps = count(n, &|i| (rows[i] + n - rows[(i + iters - 1) % iters]) % n);
        let z = chi2_uniform_z(&gaps);
        ensure!(z < Z_ALARM, "successive draws among {} rows are not independent: z = {:.1}", n, z);
        c.count("rows drawn", iters as u64);
        c.seen(hash_usizes(&rows));
        Ok(())
    });
    cx.group("separable", 400, 6000, |c| {
        let d = c.rng.range(1, 3);
        let n = c.rng.range(4, 16);
        let mut dir = c.rng.normals(d, 1.0);
        let nn = dot(&dir, &dir).sqrt();
        for v in &mut dir { *v /= nn; }
        let y: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let x: Vec<f64> = (0..n).flat_map(|i| dir.iter().map(|v| y[i] * v * 2.0 + c.rng.uniform(-0.4, 0.4)).collect::<Vec<_>>()).collect();
        let gauss = c.rng.bool();
        let (xm, ym) = (mat(n, d, &x), Vector::new(y.clone()));
        let run = |gauss: bool| -> Result<Vec<f64>, Error> {
            if gauss { let mut s = SVM::default(); s.optim_iters = 1500; s.train(&xm, &ym)?; Ok(s.predict(&xm)?.into_vec()) }
            else { let mut s = SVM::new(kernel::Linear::new(0.0), 0.02); s.optim_iters = 1500; s.train(&xm, &ym)?; Ok(s.predict(&xm)?.into_vec()) }
        };
        let got = run(gauss).map_err(|e| e.to_string())?;
        ensure!(got == y, "well-separated classes are labelled {:?}, the targets are {:?} (rows {:?})", got, y, x);
        c.seen(hash_f64s(&x));
        c.count("separated sets", 1);
        Ok(())
    });
    cx.group("refusals", 200, 2000, |c| {
        let d = c.rng.range(2, 4);
        let n = c.rng.range(2, 9);
        let mut s = SVM::default();
        ensure!(s.optim_iters == 100, "the default machine runs {} iterations", s.optim_iters);
        let x = c.rng.normals(n * d, 1.0);
        let y: Vec<f64> = (0..n).map(|_| c.rng.sign()).collect();
        s.train(&mat(n, d, &x), &Vector::new(y)).map_err(|e| e.to_string())?;
        let w = if c.rng.bool() { d - 1 } else { d + 1 };
        let before = s.predict(&mat(n, d, &x)).map_err(|e| e.to_string())?;
        let q = c.rng.normals(2 * w, 1.0);
        let r = s.predict(&mat(2, w, &q));
        ensure!(matches!(r, Err(ref e) if kind(e) == "InvalidState"), "{} columns after training on {}: {:?}", w, d, r);
        ensure!(s.predict(&mat(n, d, &x)).map_err(|e| e.to_string())? == before, "a refusal changed the machine");
        c.count("refusals", 1);
        Ok(())
    });
}

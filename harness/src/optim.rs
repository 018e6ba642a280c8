//! Optimisers, watched through a model that records every question it is asked.
use crate::util::*;
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::RefCell;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("O01", o01), ("O02", o02), ("O03", o03), ("O04", o04), ("O05", o05)];

fn maxabs(v: &[f64]) -> f64 { v.iter().fold(0.0, |m: f64, x| m.max(x.abs())) }
fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }

#[derive(Clone, Debug)]
struct Query { at: Vec<f64>, rows: usize, inputs: Vec<f64>, targets: Vec<f64>, cost: f64, grad: Vec<f64> }

/// A cost with a gradient, and the record of every query.
struct Model<F: Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)> { f: F, log: RefCell<Vec<Query>> }
impl<F: Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)> Model<F> { fn new(f: F) -> Self { Model { f, log: RefCell::new(vec![]) } } }
impl<F: Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)> Optimizable for Model<F> {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, params: &[f64], inputs: &Matrix<f64>, targets: &Matrix<f64>) -> (f64, Vec<f64>) {
        let k = self.log.borrow().len();
        let (cost, grad) = (self.f)(params, inputs, targets, k);
        self.log.borrow_mut().push(Query { at: params.to_vec(), rows: inputs.rows(), inputs: inputs.data().clone(), targets: targets.data().clone(), cost, grad: grad.clone() });
        (cost, grad)
    }
}

/// Rows with identities: row i starts with i, its targets are determined by i.
fn tagged(c: &mut Case, n: usize) -> (Matrix<f64>, Matrix<f64>) {
    let (a, b) = (c.rng.range(1, 4), c.rng.range(1, 3));
    let x: Vec<f64> = (0..n).flat_map(|i| (0..a).map(|j| if j == 0 { i as f64 } else { c.rng.normal() }).collect::<Vec<_>>()).collect();
    let y: Vec<f64> = (0..n).flat_map(|i| (0..b).map(|j| 1000.0 + 10.0 * i as f64 + j as f64).collect::<Vec<_>>()).collect();
    (Matrix::new(n, a, x), Matrix::new(n, b, y))
}

/// What a workload's model answers: the kinds exercise the rule, its state and the stopping rule.
#[derive(Clone, Copy, Debug)]
enum Land { Tiny, Big, Bowl, Wavy, Noise, Flat, Linear, Plateau, Alternate }
fn land(c: &mut Case) -> Land { *c.rng.pick(&[Land::Tiny, Land::Big, Land::Bowl, Land::Wavy, Land::Noise, Land::Flat, Land::Linear, Land::Bowl, Land::Noise, Land::Plateau, Land::Alternate]) }
fn answer(l: Land, salt: u64, p: &[f64], id: f64, k: usize) -> (f64, Vec<f64>) {
    match l {
        Land::Bowl => (p.iter().enumerate().map(|(j, x)| 0.5 * (x - (j as f64) - 0.3 * id.sin()).powi(2)).sum::<f64>() + 1.0, p.iter().enumerate().map(|(j, x)| x - j as f64 - 0.3 * id.sin()).collect()),
        Land::Wavy => (p.iter().map(|x| (x * 1.3 + id).cos()).sum::<f64>() + 0.01 * k as f64, p.iter().enumerate().map(|(j, x)| (x * 1.3 + id + j as f64).sin() * 2.0).collect()),
        // arbitrary answers: the rule holds for whatever a model says
        Land::Noise => { let mut r = Rng::new(salt ^ mix(k as u64)); (r.normal() * 10.0, p.iter().map(|_| r.sign() * r.logu(-4.0, 2.0)).collect()) }
        Land::Big => { let mut r = Rng::new(salt ^ mix(k as u64)); let w = [9.0, 9.0, 60.0, 140.0][salt as usize % 4]; (r.normal() * r.logu(-3.0, 8.0), p.iter().map(|_| r.sign() * r.logu(-w, w)).collect()) }
        // costs next to zero that still change
        Land::Tiny => { let mut r = Rng::new(salt ^ mix(k as u64)); (10f64.powi(-10 - (salt % 7) as i32) * r.uniform(0.5, 2.0), p.iter().map(|_| r.sign() * r.logu(-9.0, 1.0)).collect()) }
        Land::Flat => (1.0, vec![0.0; p.len()]),
        Land::Linear => (p.iter().sum(), vec![1.0; p.len()]),
        // the cost stays while the gradient does not vanish
        Land::Plateau => (2.5, vec![0.5; p.len()]),
        // every other epoch (of `salt` questions) has the same cost
        Land::Alternate => (1.0 + ((k as u64 / salt) % 2) as f64, vec![-0.25; p.len()]),
    }
}

fn stochastic<A, R>(c: &mut Case, name: &str, alg: &A, iters: usize, rule: R) -> Verdict
    where A: OptimAlgorithm<Model<Box<dyn Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)>>>, R: Fn(&mut Vec<f64>, &mut [f64], &[f64]) {
    let n = if c.rng.chance(0.2) { 1 } else if c.rng.chance(0.002) { c.rng.range(2000, 5000) } else { c.rng.size(2, 14, 1500) };
    let dim = if n > 100 { c.rng.range(1, 4) } else { c.rng.size(1, 6, 200) };
    let (x, y) = tagged(c, n);
    let l = land(c);
    let salt = if let Land::Alternate = l { n as u64 } else { c.rng.u64() };
    let start = if c.rng.chance(0.2) { vec![0.0; dim] } else { c.rng.normals(dim, 2.0) };
    let model: Model<Box<dyn Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)>> = Model::new(Box::new(move |p, x, _, k| answer(l, salt, p, x.data()[0], k)));
    let what = format!("{}: {} epochs, {} rows, {} parameters, {:?}", name, iters, n, dim, l);
    if c.rng.chance(0.3) {
        // the same optimiser at work on something else before
        let (m, k) = (c.rng.range(1, 5), c.rng.range(1, 4));
        let (x, y) = tagged(c, m);
        let other: Model<Box<dyn Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)>> = Model::new(Box::new(move |p, x, _, k| answer(l, salt, p, x.data()[0], k)));
        let s = c.rng.normals(k, 2.0);
        alg.optimize(&other, &s, &x, &y);
        c.count("runs of a used optimiser", 1);
    }
    let out = alg.optimize(&model, &start, &x, &y);
    let log = model.log.borrow();
    ensure!(log.len() % n == 0 && log.len() <= n * iters, "{}: {} gradients of {} rows", what, log.len(), n);
    let epochs = log.len() / n;
    // coverage and pairing
    for (e, ep) in log.chunks(n).enumerate() {
        let mut seen = vec![false; n];
        for q in ep {
            ensure!(q.rows == 1 && q.inputs.len() == x.cols() && q.targets.len() == y.cols(), "{}: a gradient is asked for {} rows ({} inputs, {} targets)", what, q.rows, q.inputs.len(), q.targets.len());
            let i = q.inputs[0] as usize;
            ensure!(i < n && q.inputs[..] == x.data()[i * x.cols()..(i + 1) * x.cols()], "{}: epoch {} uses {:?}, which is no training row", what, e, q.inputs);
            ensure!(q.targets[..] == y.data()[i * y.cols()..(i + 1) * y.cols()], "{}: epoch {} pairs row {} with targets {:?}", what, e, i, q.targets);
            ensure!(!seen[i], "{}: epoch {} uses row {} twice", what, e, i);
            seen[i] = true;
        }
    }
    // the update rule along the whole trajectory
    let mut state = vec![0.0; dim];
    let mut p = start.clone();
    for (k, q) in log.iter().enumerate() {
        ensure!(all_close(&q.at, &p, 1e-9, 1e-11 * (1.0 + maxabs(&p))), "{}: step {} asks at {:?}, the update rule leads to {:?}", what, k, q.at, p);
        p = q.at.clone();
        rule(&mut p, &mut state, &q.grad);
    }
    ensure!(all_close(&out, &p, 1e-9, 1e-11 * (1.0 + maxabs(&p))), "{}: the result is {:?}, the last step leads to {:?}", what, out, p);
    // an end once the mean cost of an epoch no longer changes, and only then
    for e in 2..epochs {
        let same = log[(e - 2) * n..e * n].iter().all(|q| q.cost == log[0].cost);
        ensure!(!same, "{}: epoch {} is begun although all costs of the two epochs before are {:e}", what, e, log[0].cost);
    }
    let means: Vec<f64> = log.chunks(n).map(|e| e.iter().map(|q| q.cost).sum::<f64>() / n as f64).collect();
    if epochs < iters {
        ensure!(epochs >= 2, "{}: ends after {} epochs without two costs to compare", what, epochs);
        ensure!(close(means[epochs - 1], means[epochs - 2], 1e-12, 1e-19), "{}: ends after {} epochs although the cost went from {:e} to {:e}", what, epochs, means[epochs - 2], means[epochs - 1]);
        c.count("early ends", 1);
    }
    c.count("gradients", log.len() as u64);
    c.count("epochs", epochs as u64);
    if n >= 2 && epochs >= 2 && !matches!(l, Land::Flat) { c.seen(hash_f64s(&start) ^ salt); }
    c.sample(|| format!("{}: {} epochs run, result {:?}", what, epochs, out));
    Ok(())
}
/// Every visiting order is equally likely, in the first epoch and relative to the epoch before.
fn orders<A>(c: &mut Case, name: &str, make: &dyn Fn(usize) -> A) -> Verdict
    where A: OptimAlgorithm<Model<Box<dyn Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)>>> {
    let n = c.rng.range(2, 4);
    let fact = [1, 1, 2, 6, 24][n];
    let code = |v: &[usize]| -> usize { (0..n).fold(0, |h, i| h * (n - i) + v[i + 1..].iter().filter(|x| **x < v[i]).count()) };
    let (mut first, mut second, mut rel) = (vec![0u64; fact], vec![0u64; fact], vec![0u64; fact]);
    let trials = if c.thorough { 20_000 } else { 4_000 };
    let (x, y) = (Matrix::new(n, 1, (0..n).map(|i| i as f64).collect::<Vec<_>>()), Matrix::new(n, 1, vec![0.0; n]));
    c.reseed(77);
    let alg = make(2);
    for _ in 0..trials {
        let model: Model<Box<dyn Fn(&[f64], &Matrix<f64>, &Matrix<f64>, usize) -> (f64, Vec<f64>)>> = Model::new(Box::new(|p, _, _, k| (k as f64, vec![0.1; p.len()])));
        alg.optimize(&model, &[0.0], &x, &y);
        let ids: Vec<usize> = model.log.borrow().iter().map(|q| q.inputs[0] as usize).collect();
        ensure!(ids.len() == 2 * n, "{}: {} gradients in two epochs of {} rows", name, ids.len(), n);
        let (a, b) = (&ids[..n], &ids[n..]);
        let r: Vec<usize> = b.iter().map(|v| a.iter().position(|w| w == v).unwrap_or(0)).collect();
        first[code(a)] += 1; second[code(b)] += 1; rel[code(&r)] += 1;
    }
    for (h, w) in [(&first, "first epoch"), (&second, "second epoch"), (&rel, "second epoch relative to the first")] {
        let z = chi2_uniform_z(h);
        ensure!(z < Z_ALARM, "{}: orders of the {} occur {:?} times in {} trials of {} rows ({:.1} sigma)", name, w, h, trials, n, z);
    }
    c.count("orders observed", 2 * trials as u64);
    Ok(())
}
fn must_panic<R>(what: &str, f: impl FnOnce() -> R) -> Verdict { ensure!(guard(f).is_err(), "{} is accepted", what); Ok(()) }

fn o01(cx: &mut Ctx) {
    cx.rule("Recording models (bowls, waves, arbitrary answers, flat and linear costs, least squares) of 1..6 parameters (a few up to 300) with answers from 1e-9 to 1e9 (some 1e-140 to 1e140, some costs down to 1e-16); step sizes 1e-3..1, 0..60 iterations, a few up to 1200; every query is replayed against the rule. Non-trivial: at least three steps with changing costs, identified by start and answers.");
    cx.group("trajectories", 4000, 150_000, |c| {
        let dim = c.rng.size(1, 6, 300);
        let n = c.rng.size(1, 6, 1500);
        let (x, y) = tagged(c, n);
        let l = land(c);
        let salt = if let Land::Alternate = l { 1 } else { c.rng.u64() };
        let default = c.rng.chance(0.1);
        let (a, iters) = if default { (0.3, 100) } else { (c.rng.logu(-3.0, 0.0), c.rng.size(0, 60, 1200)) };
        let start = if c.rng.chance(0.3) { vec![0.0; dim] } else { c.rng.normals(dim, 3.0) };
        let model = Model::new(|p: &[f64], x: &Matrix<f64>, _: &Matrix<f64>, k| answer(l, salt, p, x.data()[0], k));
        let alg = if default { GradientDesc::default() } else { GradientDesc::new(a, iters) };
        let out = alg.optimize(&model, &start, &x, &y);
        let log = model.log.borrow();
        let what = format!("step {:e}, {} iterations, {:?}", a, iters, l);
        ensure!(log.len() <= iters, "{}: {} gradients", what, log.len());
        let mut p = start.clone();
        for (k, q) in log.iter().enumerate() {
            ensure!(q.inputs == *x.data() && q.targets == *y.data() && q.rows == n, "{}: step {} does not use the whole data", what, k);
            ensure!(all_close(&q.at, &p, 1e-9, 1e-11 * (1.0 + maxabs(&p))), "{}: step {} asks at {:?}, the rule leads to {:?}", what, k, q.at, p);
            // a changing cost must not end the descent, and it does not end before the last query
            p = q.at.iter().zip(&q.grad).map(|(v, g)| v - a * g).collect();
        }
        for k in 2..log.len() {
            ensure!(log[k - 1].cost != log[k - 2].cost, "{}: step {} follows two equal costs {:e}", what, k, log[k - 1].cost);
        }
        // (costs that differ by less than the stopping rule can tell may or may not end it)
        if log.len() == iters && (iters < 2 || !close(log[iters - 1].cost, log[iters - 2].cost, 1e-12, 1e-19)) {
            ensure!(all_close(&out, &p, 1e-9, 1e-11 * (1.0 + maxabs(&p))), "{}: the result is {:?}, the last step leads to {:?}", what, out, p);
        } else {
            ensure!(log.len() >= 2, "{}: ends after {} gradients without two costs to compare", what, log.len());
            let (q, r) = (&log[log.len() - 1], &log[log.len() - 2]);
            ensure!(close(q.cost, r.cost, 1e-12, 1e-19), "{}: ends although the cost went from {:e} to {:e}", what, r.cost, q.cost);
            ensure!(all_close(&out, &q.at, 1e-9, 1e-12) || all_close(&out, &p, 1e-9, 1e-12), "{}: the result {:?} is not the last point {:?}", what, out, q.at);
            c.count("early ends", 1);
        }
        c.count("gradients", log.len() as u64);
        if log.len() >= 3 && log[0].cost != log[1].cost { c.seen(hash_f64s(&start) ^ salt); }
        c.sample(|| format!("{}: {} steps from {:?} to {:?}", what, log.len(), start, out));
        Ok(())
    });
    cx.group("convex descent", 500, 10_000, |c| {
        // on a quadratic with a safe step size the end is where the eigenvalues say
        let dim = c.rng.range(1, 5);
        let ev: Vec<f64> = (0..dim).map(|_| c.rng.uniform(0.05, 2.0)).collect();
        let opt = c.rng.normals(dim, 2.0);
        let start = c.rng.normals(dim, 2.0);
        let (a, it) = (c.rng.uniform(0.05, 0.9), c.rng.range(1, 300));
        let (e2, o2) = (ev.clone(), opt.clone());
        let model = Model::new(move |p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>, _| ((0..dim).map(|j| 0.5 * e2[j] * (p[j] - o2[j]).powi(2)).sum(), (0..dim).map(|j| e2[j] * (p[j] - o2[j])).collect()));
        let out = GradientDesc::new(a, it).optimize(&model, &start, &Matrix::new(1, 1, vec![0.0]), &Matrix::new(1, 1, vec![0.0]));
        for j in 0..dim {
            let want = opt[j] + (start[j] - opt[j]) * (1.0 - a * ev[j]).powi(it as i32);
            ensure!(close(out[j], want, 1e-6, 1e-7), "{} steps of {:e} on curvature {:e} end at {:e}, not {:e}", it, a, ev[j], out[j], want);
        }
        c.seen(hash_f64s(&start));
        Ok(())
    });
    cx.group("parameters", 50, 500, |c| {
        let b = -c.rng.logu(-9.0, 2.0);
        must_panic("a step size of 0", || GradientDesc::new(0.0, 3))?;
        must_panic("a negative step size", || GradientDesc::new(b, 3))?;
        c.count("refusals", 2);
        Ok(())
    });
}
fn o02(cx: &mut Ctx) {
    cx.rule("Recording models over 1..14 identified rows (a few up to 5000), momentum and step size 1e-3..1, 0..12 epochs (a few up to 90); coverage, pairing, the momentum rule and the end of every run replayed from the record; visiting orders counted. Non-trivial: at least two rows and two epochs with changing gradients, identified by start and answers.");
    cx.group("trajectories", 3000, 100_000, |c| {
        let default = c.rng.chance(0.1);
        let (a, mu, it) = if default { (0.1, 0.1, 20) } else { (c.rng.logu(-3.0, 0.0), c.rng.logu(-3.0, 0.0), c.rng.size(0, 12, 90)) };
        let alg = if default { StochasticGD::default() } else { StochasticGD::new(a, mu, it) };
        stochastic(c, &format!("momentum {:e}, step {:e}", a, mu), &alg, it, |p, v, g| for j in 0..p.len() {
            let old = v[j];
            v[j] = mu * g[j] + a * old;
            p[j] -= (1.0 + a) * v[j] - a * old;
        })
    });
    cx.group("orders", 6, 20, |c| orders(c, "stochastic gradient descent", &|it| StochasticGD::new(0.1, 0.1, it)));
    cx.group("parameters", 50, 500, |c| {
        let b = -c.rng.logu(-9.0, 2.0);
        must_panic("a momentum of 0", || StochasticGD::new(0.0, 0.1, 3))?;
        must_panic("a step size of 0", || StochasticGD::new(0.1, 0.0, 3))?;
        must_panic("a negative step size", || StochasticGD::new(0.1, b, 3))?;
        must_panic("a negative momentum", || StochasticGD::new(b, 0.1, 3))?;
        c.count("refusals", 4);
        Ok(())
    });
}
fn o03(cx: &mut Ctx) {
    cx.rule("Recording models over 1..14 identified rows (a few up to 5000), step size 1e-3..3, tau 0..10, 0..12 epochs (a few up to 90); as for stochastic gradient descent. Non-trivial: at least two rows and two epochs with changing gradients.");
    cx.group("trajectories", 3000, 100_000, |c| {
        let default = c.rng.chance(0.05);
        let (a, tau, it) = if default { (1.0, 3.0, 100) } else { (c.rng.logu(-3.0, 0.5), c.rng.logu(-3.0, 1.0), c.rng.size(0, 12, 90)) };
        let alg = if default { AdaGrad::default() } else { AdaGrad::new(a, tau, it) };
        stochastic(c, &format!("step {:e}, tau {:e}", a, tau), &alg, it, |p, v, g| for j in 0..p.len() {
            v[j] += g[j] * g[j];
            p[j] -= a * g[j] / (tau + v[j].sqrt());
        })
    });
    cx.group("without tau", 200, 4000, |c| {
        // tau 0: defined wherever no gradient entry is 0
        let a = c.rng.logu(-2.0, 0.0);
        let it = c.rng.range(1, 6);
        let n = c.rng.range(1, 6);
        let (x, y) = tagged(c, n);
        let model = Model::new(|p: &[f64], x: &Matrix<f64>, _: &Matrix<f64>, k| (k as f64, p.iter().map(|v| v.sin() + 2.0 + 0.1 * x.data()[0]).collect()));
        let start = c.rng.normals(2, 1.0);
        let out = AdaGrad::new(a, 0.0, it).optimize(&model, &start, &x, &y);
        let (mut p, mut s) = (start.clone(), vec![0.0; 2]);
        for q in model.log.borrow().iter() { for j in 0..2 { s[j] += q.grad[j] * q.grad[j]; p[j] -= a * q.grad[j] / s[j].sqrt(); } }
        ensure!(all_close(&out, &p, 1e-9, 1e-9), "without tau the result is {:?}, the rule leads to {:?}", out, p);
        c.seen(hash_f64s(&start));
        Ok(())
    });
    cx.group("orders", 6, 20, |c| orders(c, "AdaGrad", &|it| AdaGrad::new(0.1, 0.1, it)));
    cx.group("parameters", 50, 500, |c| {
        let b = -c.rng.logu(-9.0, 2.0);
        must_panic("a step size of 0", || AdaGrad::new(0.0, 0.1, 3))?;
        must_panic("a negative step size", || AdaGrad::new(b, 0.1, 3))?;
        must_panic("a negative tau", || AdaGrad::new(0.1, b, 3))?;
        c.count("refusals", 3);
        Ok(())
    });
}
fn o04(cx: &mut Ctx) {
    cx.rule("Recording models over 1..14 identified rows (a few up to 5000), learning rate 1e-3..1, decay 1e-6..1-1e-6, epsilon 1e-40..1, 0..12 epochs (a few up to 90); as for stochastic gradient descent. Non-trivial: at least two rows and two epochs with changing gradients.");
    cx.group("trajectories", 3000, 100_000, |c| {
        let default = c.rng.chance(0.05);
        let (l, d, e, it) = if default { (0.01, 0.9, 1e-5, 50) } else { (c.rng.logu(-3.0, 0.0), match c.rng.below(8) { 0 => 1.0 - c.rng.logu(-6.0, -2.0), 1 => c.rng.logu(-6.0, -2.0), _ => c.rng.uniform(0.01, 0.99) }, if c.rng.chance(0.2) { c.rng.logu(-40.0, -8.0) } else { c.rng.logu(-8.0, 0.0) }, c.rng.size(0, 12, 90)) };
        let alg = if default { RMSProp::default() } else { RMSProp::new(l, d, e, it) };
        stochastic(c, &format!("rate {:e}, decay {:e}, epsilon {:e}", l, d, e), &alg, it, |p, v, g| for j in 0..p.len() {
            v[j] = d * v[j] + (1.0 - d) * g[j] * g[j];
            p[j] -= l * g[j] / (v[j] + e).sqrt();
        })
    });
    cx.group("orders", 6, 20, |c| orders(c, "RMSProp", &|it| RMSProp::new(0.1, 0.5, 0.1, it)));
    cx.group("parameters", 50, 500, |c| {
        let b = -c.rng.logu(-9.0, 2.0);
        must_panic("a learning rate of 0", || RMSProp::new(0.0, 0.5, 0.1, 3))?;
        must_panic("a decay of 0", || RMSProp::new(0.1, 0.0, 0.1, 3))?;
        must_panic("a decay of 1", || RMSProp::new(0.1, 1.0, 0.1, 3))?;
        must_panic("an epsilon of 0", || RMSProp::new(0.1, 0.5, 0.0, 3))?;
        must_panic("a negative epsilon", || RMSProp::new(0.1, 0.5, b, 3))?;
        c.count("refusals", 5);
        Ok(())
    });
}

fn o05(cx: &mut Ctx) {
    cx.rule("Convex quadratics (condition up to 1e4), Rosenbrock valleys, quartics, waves, rugged, kinked and misleading (wrong gradient, now and then or everywhere) costs, costs undefined in places and steep exponentials of 1..8 parameters (a few up to 60) from random starts and at minima, 0..500 iterations; every query is recorded. Non-trivial: the cost decreases, identified by start.");
    let unit = || (Matrix::new(1, 1, vec![0.0]), Matrix::new(1, 1, vec![0.0]));
    cx.group("never worse", 3000, 80_000, |c| {
        let dim = c.rng.size(2, 8, 60);
        let which = c.rng.below(12);
        let w: Vec<f64> = (0..dim).map(|_| c.rng.logu(-2.0, 2.0)).collect();
        let steep = c.rng.logu(0.0, 3.0);
        let o = c.rng.normals(dim, 1.0);
        let mut start = { let s = c.rng.uniform(0.1, 3.0); c.rng.normals(dim, s) };
        if which >= 10 { for v in &mut start { *v = v.abs() + 1e-3; } }
        let f = move |p: &[f64]| -> (f64, Vec<f64>) {
            match which {
                0 => (p.iter().zip(&w).zip(&o).map(|((x, w), o)| 0.5 * w * (x - o) * (x - o)).sum(), p.iter().zip(&w).zip(&o).map(|((x, w), o)| w * (x - o)).collect()),
                1 => { let mut g = vec![0.0; p.len()]; let mut s = 0.0; for i in 0..p.len() - 1 { let (a, b) = (p[i + 1] - p[i] * p[i], 1.0 - p[i]); s += 100.0 * a * a + b * b; g[i] += -400.0 * a * p[i] - 2.0 * b; g[i + 1] += 200.0 * a; } (s, g) }
                2 => (p.iter().zip(&o).map(|(x, o)| (x - o).powi(4)).sum(), p.iter().zip(&o).map(|(x, o)| 4.0 * (x - o).powi(3)).collect()),
                3 => (p.iter().zip(&w).map(|(x, w)| (x * w.min(5.0)).sin() + 0.05 * x * x).sum(), p.iter().zip(&w).map(|(x, w)| (x * w.min(5.0)).cos() * w.min(5.0) + 0.1 * x).collect()),
                // rugged, kinked, and slopes that mislead: line searches fail, often twice in a row
                5 => (p.iter().zip(&o).map(|(x, o)| (steep * (x - o)).sin() + (x - o).powi(2)).sum(), p.iter().zip(&o).map(|(x, o)| steep * (steep * (x - o)).cos() + 2.0 * (x - o)).collect()),
                6 => (p.iter().zip(&w).zip(&o).map(|((x, w), o)| w * (x - o).abs()).sum(), p.iter().zip(&w).zip(&o).map(|((x, w), o)| if x > o { *w } else { -w }).collect()),
                7 => (p.iter().zip(&o).map(|(x, o)| (steep * (x - o)).cos() + (x - o).abs()).sum(), p.iter().zip(&o).map(|(x, o)| steep * (steep * (x - o)).sin() - if x > o { 1.0 } else { -1.0 }).collect()),
                8 => (p.iter().zip(&o).map(|(x, o)| (x - o).powi(2) + (steep * x).sin() / steep).sum(), p.iter().zip(&o).map(|(x, o)| -2.0 * (x - o) * (1.0 + steep * o.cos())).collect()),
                // a slow valley in which one gradient in sixteen points the other way
                9 => { let mut g = vec![0.0; p.len()]; let mut s = 0.0; for i in 0..p.len() - 1 { let (a, b) = (p[i + 1] - p[i] * p[i], 1.0 - p[i]); s += 100.0 * a * a + b * b; g[i] += -400.0 * a * p[i] - 2.0 * b; g[i + 1] += 200.0 * a; } if mix(p[0].to_bits() ^ p[1].to_bits()) % 16 == 0 { for v in &mut g { *v = -*v; } } (s, g) }
                // not defined for values below zero: neither the cost nor the gradient, or the cost alone
                10 => (p.iter().map(|x| x - x.ln()).sum(), p.iter().map(|x| if *x > 0.0 { 1.0 - 1.0 / x } else { std::f64::NAN }).collect()),
                11 => (p.iter().map(|x| x - x.ln()).sum(), p.iter().map(|x| 1.0 - 1.0 / x).collect()),
                _ => (p.iter().zip(&o).map(|(x, o)| (x - o).exp() + (-2.0 * (x - o)).exp()).sum(), p.iter().zip(&o).map(|(x, o)| (x - o).exp() - 2.0 * (-2.0 * (x - o)).exp()).collect()),
            }
        };
        let iters = if c.rng.chance(0.2) { c.rng.range(100, 500) } else { c.rng.range(0, 120) };
        let f2 = f.clone();
        let model = Model::new(move |p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>, _| f2(p));
        let mut alg = ConjugateGD::default();
        alg.iters = iters;
        if c.rng.bool() { alg.max = if c.rng.bool() { c.rng.range(1, 25) } else { c.rng.range(0, 3) }; alg.rho = c.rng.uniform(0.001, 0.2); alg.sig = c.rng.uniform(0.25, 0.9); }
        let (x, y) = unit();
        let out = alg.optimize(&model, &start, &x, &y);
        let (f0, f1) = (f(&start).0, f(&out).0);
        ensure!(out.len() == dim && f1 <= f0 + 1e-12 * f0.abs(), "cost {} of {} parameters: {:e} at the start, {:e} at the result of {} iterations", which, dim, f0, f1, iters);
        let log = model.log.borrow();
        ensure!(log.len() <= 1 + iters * (alg.max + 1), "{} evaluations in {} iterations of at most {}", log.len(), iters, alg.max);
        ensure!(out == start || log.iter().any(|q| all_close(&q.at, &out, 1e-9, 1e-12)), "the result {:?} was never evaluated", out);
        ensure!(iters > 0 || out == start, "no iterations move the point");
        ensure!(log.iter().all(|q| q.inputs == [0.0] && q.targets == [0.0] && q.rows == 1), "other data than was given");
        c.count("evaluations", log.len() as u64);
        if f1 < f0 { c.seen(hash_f64s(&start)); c.count("decreases", 1); }
        c.sample(|| format!("cost {}: {:e} to {:e} in {} evaluations", which, f0, f1, log.len()));
        Ok(())
    });
    cx.group("quadratics", 1500, 40_000, |c| {
        let dim = c.rng.range(1, 6);
        // A = R^T D R by random plane rotations
        let top = c.rng.uniform(0.0, 3.0);
        let mut a: Vec<f64> = (0..dim * dim).map(|k| if k / dim == k % dim { c.rng.logu(0.0, top.max(0.01)) * 0.1 } else { 0.0 }).collect();
        for p in 0..dim { for q in p + 1..dim {
            let t = c.rng.uniform(0.0, 6.3); let (cs, sn) = (t.cos(), t.sin());
            for k in 0..dim { let (x, y) = (a[k * dim + p], a[k * dim + q]); a[k * dim + p] = cs * x - sn * y; a[k * dim + q] = sn * x + cs * y; }
            for k in 0..dim { let (x, y) = (a[p * dim + k], a[q * dim + k]); a[p * dim + k] = cs * x - sn * y; a[q * dim + k] = sn * x + cs * y; }
        } }
        let opt = c.rng.normals(dim, 3.0);
        let start = c.rng.normals(dim, 3.0);
        let (a2, o2) = (a.clone(), opt.clone());
        let f = move |p: &[f64]| -> (f64, Vec<f64>) { let d: Vec<f64> = p.iter().zip(&o2).map(|(x, o)| x - o).collect(); let g: Vec<f64> = (0..dim).map(|i| dot(&a2[i * dim..(i + 1) * dim], &d)).collect(); (0.5 * dot(&g, &d) + 2.0, g) };
        let f2 = f.clone();
        let model = Model::new(move |p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>, _| f2(p));
        let (x, y) = unit();
        let mut alg = ConjugateGD::default();
        alg.iters = 300;
        let out = alg.optimize(&model, &start, &x, &y);
        let (f0, f1) = (f(&start).0 - 2.0, f(&out).0 - 2.0);
        ensure!(f1 <= 1e-5 * f0 + 1e-10, "a quadratic of {} parameters is left at {:e} of {:e} above its minimum after {} evaluations", dim, f1, f0, model.log.borrow().len());
        c.seen(hash_f64s(&start));
        c.count("minimised", 1);
        Ok(())
    });
    cx.group("at the minimum", 300, 5000, |c| {
        let dim = c.rng.range(1, 6);
        let opt = c.rng.normals(dim, 3.0);
        let o2 = opt.clone();
        let model = Model::new(move |p: &[f64], _: &Matrix<f64>, _: &Matrix<f64>, _| (p.iter().zip(&o2).map(|(x, o)| (x - o) * (x - o)).sum(), p.iter().zip(&o2).map(|(x, o)| 2.0 * (x - o)).collect()));
        let (x, y) = unit();
        let out = ConjugateGD::default().optimize(&model, &opt, &x, &y);
        ensure!(out == opt, "starting at the minimum {:?} ends at {:?}", opt, out);
        c.seen(hash_f64s(&opt));
        Ok(())
    });
}

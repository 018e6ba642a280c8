//! Neural networks, watched through recording optimisers and an independent forward pass on dual numbers.
use crate::util::*;
use rusty_machine::learning::nnet::net_layer::{Linear, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, BaseNeuralNet, Criterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::grad_desc::GradientDesc;
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::toolkit::activ_fn::{self, ActivationFunc};
use rusty_machine::learning::toolkit::cost_fn::CostFunc;
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice};
use std::cell::RefCell;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("W01", w01), ("W02", w02), ("W03", w03)];

fn mat(n: usize, d: usize, v: &[f64]) -> Matrix<f64> { Matrix::new(n, d, v.to_vec()) }
fn maxabs(v: &[f64]) -> f64 { v.iter().fold(0.0, |m: f64, x| m.max(x.abs())) }

/// Value and derivative along one direction.
#[derive(Clone, Copy, Debug)]
struct Dual(f64, f64);
impl std::ops::Add for Dual { type Output = Dual; fn add(self, o: Dual) -> Dual { Dual(self.0 + o.0, self.1 + o.1) } }
impl std::ops::Mul for Dual { type Output = Dual; fn mul(self, o: Dual) -> Dual { Dual(self.0 * o.0, self.0 * o.1 + self.1 * o.0) } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Sigmoid, Tanh, Linear, Exp, Sinh }
/// An activation of our own: sinh(x/10).
#[derive(Clone, Copy, Debug)]
struct Sinh;
impl ActivationFunc for Sinh {
    fn func(x: f64) -> f64 { (x * 0.1).sinh() }
    fn func_grad(x: f64) -> f64 { 0.1 * (x * 0.1).cosh() }
    fn func_grad_from_output(y: f64) -> f64 { 0.1 * (1.0 + y * y).sqrt() }
    fn func_inv(x: f64) -> f64 { x.asinh() * 10.0 }
}
impl Act {
    fn at(self, x: Dual) -> Dual {
        match self {
            Act::Sigmoid => { let e = (-x.0.abs()).exp(); let v = if x.0 >= 0.0 { 1.0 / (1.0 + e) } else { e / (1.0 + e) }; Dual(v, x.1 * e / ((1.0 + e) * (1.0 + e))) }
            Act::Tanh => Dual(x.0.tanh(), x.1 / x.0.cosh().powi(2)),
            Act::Linear => x,
            Act::Exp => Dual(x.0.exp(), x.1 * x.0.exp()),
            Act::Sinh => Dual((x.0 * 0.1).sinh(), x.1 * 0.1 * (x.0 * 0.1).cosh()),
        }
    }
    fn layer(self) -> Box<dyn NetLayer> {
        match self { Act::Sigmoid => Box::new(activ_fn::Sigmoid), Act::Tanh => Box::new(activ_fn::Tanh), Act::Linear => Box::new(activ_fn::Linear), Act::Exp => Box::new(activ_fn::Exp), Act::Sinh => Box::new(Sinh) }
    }
}
/// A layer of our own with one weight per column: the network must treat it like any other.
#[derive(Debug, Clone)]
struct Scale { cols: usize, init: Vec<f64> }
impl NetLayer for Scale {
    fn forward(&self, input: &Matrix<f64>, params: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        let p: Vec<f64> = params.iter().cloned().collect();
        if input.cols() != p.len() { return Err(rusty_machine::learning::error::Error::new(rusty_machine::learning::error::ErrorKind::InvalidData, "width")); }
        Ok(Matrix::new(input.rows(), input.cols(), input.data().iter().enumerate().map(|(k, v)| v * p[k % p.len()]).collect::<Vec<_>>()))
    }
    fn back_input(&self, g: &Matrix<f64>, _: &Matrix<f64>, _: &Matrix<f64>, params: MatrixSlice<f64>) -> Matrix<f64> {
        let p: Vec<f64> = params.iter().cloned().collect();
        Matrix::new(g.rows(), g.cols(), g.data().iter().enumerate().map(|(k, v)| v * p[k % p.len()]).collect::<Vec<_>>())
    }
    fn back_params(&self, g: &Matrix<f64>, input: &Matrix<f64>, output: &Matrix<f64>, params: MatrixSlice<f64>) -> Matrix<f64> {
        // what a layer is handed belongs together
        let p: Vec<f64> = params.iter().cloned().collect();
        let ok = output.data().iter().zip(input.data()).enumerate().all(|(k, (o, i))| close(*o, i * p[k % p.len()], 1e-12, 0.0));
        let mut s = vec![if ok { 0.0 } else { f64::NAN }; p.len()];
        for (k, (a, b)) in g.data().iter().zip(input.data()).enumerate() { s[k % p.len()] += a * b; }
        Matrix::new(1, p.len(), s)
    }
    fn default_params(&self) -> Vec<f64> { self.init.clone() }
    fn param_shape(&self) -> (usize, usize) { (1, self.cols) }
}

#[derive(Clone, Debug)]
enum L { Lin(usize, usize, bool), A(Act), Scale(usize) }
impl L {
    fn shape(&self) -> (usize, usize) { match *self { L::Lin(i, o, b) => (i + b as usize, o), L::A(_) => (0, 0), L::Scale(n) => (1, n) } }
    fn num(&self) -> usize { let s = self.shape(); s.0 * s.1 }
    fn build(&self) -> Box<dyn NetLayer> {
        match *self {
            L::Lin(i, o, true) => Box::new(Linear::new(i, o)),
            L::Lin(i, o, false) => Box::new(Linear::without_bias(i, o)),
            L::A(a) => a.layer(),
            L::Scale(n) => Box::new(Scale { cols: n, init: (0..n).map(|k| 100.0 + k as f64).collect() }),
        }
    }
}
/// The network's function in our own arithmetic; None where the widths do not line up.
fn forward(net: &[L], w: &[Dual], x: &[f64]) -> Option<Vec<Dual>> {
    let mut v: Vec<Dual> = x.iter().map(|v| Dual(*v, 0.0)).collect();
    let mut at = 0;
    for l in net {
        let p = &w[at..at + l.num()];
        at += l.num();
        v = match *l {
            L::Lin(i, o, b) => {
                if v.len() != i { return None; }
                (0..o).map(|j| {
                    let mut s = if b { p[j] } else { Dual(0.0, 0.0) };
                    for k in 0..i { s = s + v[k] * p[(k + b as usize) * o + j]; }
                    s
                }).collect()
            }
            L::A(a) => v.into_iter().map(|x| a.at(x)).collect(),
            L::Scale(n) => { if v.len() != n { return None; } v.into_iter().zip(p).map(|(a, b)| a * *b).collect() }
        };
    }
    Some(v)
}
/// The largest value any layer sees or gives.
fn extent(net: &[L], w: &[f64], x: &[f64]) -> f64 { (0..net.len()).fold(maxabs(x), |m: f64, k| { let e = maxabs(&forward(&net[..k + 1], &plain(w), x).unwrap().iter().map(|v| v.0).collect::<Vec<_>>()); if e.is_nan() { f64::INFINITY } else { m.max(e) } }) }
fn plain(w: &[f64]) -> Vec<Dual> { w.iter().map(|v| Dual(*v, 0.0)).collect() }

/// A random architecture; `squash` ends it in a sigmoid.
fn architecture(c: &mut Case, squash: bool) -> (Vec<L>, usize) {
    // now and then dozens of narrow layers
    let deep = c.rng.chance(0.02);
    let depth = if deep { c.rng.range(10, 45) } else if c.rng.chance(0.05) { 1 } else { c.rng.size(1, 5, 9) };
    let first = c.rng.size(1, 6, 30);
    let mut cur = first;
    let mut net = vec![];
    let acts = [Act::Sigmoid, Act::Tanh, Act::Linear, Act::Exp, Act::Sinh];
    if c.rng.chance(0.1) { net.push(L::A(*c.rng.pick(&[Act::Sigmoid, Act::Tanh, Act::Sinh]))); }
    let mut exps = 0;
    for _ in 0..depth {
        let next = if deep { c.rng.range(1, 3) } else { c.rng.size(1, 6, 40) };
        net.push(L::Lin(cur, next, c.rng.chance(0.7)));
        cur = next;
        if c.rng.chance(0.15) { net.push(L::Scale(cur)); }
        for _ in 0..c.rng.range(0, 2) {
            let a = *c.rng.pick(&acts);
            if a == Act::Exp { exps += 1; if exps > 1 { continue; } }
            net.push(L::A(a));
        }
    }
    if squash { net.push(L::A(Act::Sigmoid)); }
    (net, first)
}
/// Inputs: scaled normal numbers, sparse rows, small integers, signed zeros and entries that saturate.
fn entries(c: &mut Case, n: usize) -> Vec<f64> {
    let s = c.rng.logu(-1.0, 0.5);
    let kind = c.rng.below(6);
    (0..n).map(|_| match kind {
        0 => if c.rng.chance(0.6) { 0.0 } else { c.rng.normal() * s },
        1 => c.rng.range(0, 4) as f64 - 2.0,
        2 => match c.rng.below(6) { 0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => c.rng.sign() * c.rng.logu(-300.0, -10.0), 4 => c.rng.sign() * c.rng.logu(0.0, 2.5), _ => c.rng.normal() },
        _ => c.rng.normal() * s,
    }).collect()
}
fn total(net: &[L]) -> usize { net.iter().map(|l| l.num()).sum() }

#[derive(Debug, Clone)]
struct Rec { start: Vec<f64>, inputs: Matrix<f64>, targets: Matrix<f64>, grads: Vec<(f64, Vec<f64>)> }
/// Records what training hands over and answers with chosen weights.
#[derive(Debug)]
struct Recorder { answer: RefCell<Vec<f64>>, probes: Vec<Vec<f64>>, log: RefCell<Vec<Rec>> }
fn recorder(answer: &[f64], probes: Vec<Vec<f64>>) -> Recorder { Recorder { answer: RefCell::new(answer.to_vec()), probes, log: RefCell::new(vec![]) } }
impl<'a, T: Criterion> OptimAlgorithm<BaseNeuralNet<T>> for &'a Recorder {
    fn optimize(&self, model: &BaseNeuralNet<T>, start: &[f64], inputs: &Matrix<f64>, targets: &Matrix<f64>) -> Vec<f64> {
        let grads = self.probes.iter().map(|p| Optimizable::compute_grad(model, p, inputs, targets)).collect();
        self.log.borrow_mut().push(Rec { start: start.to_vec(), inputs: inputs.clone(), targets: targets.clone(), grads });
        self.answer.borrow().clone()
    }
}
fn weights<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>>(n: &NeuralNet<T, A>, layers: usize) -> Vec<((usize, usize), Vec<f64>)> {
    (0..layers).map(|i| { let s = n.get_net_weights(i); ((s.rows(), s.cols()), s.iter().cloned().collect()) }).collect()
}
fn assemble<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>>(c: &mut Case, net: &[L], crit: T, alg: A) -> NeuralNet<T, A> {
    let mut n = NeuralNet::new(crit, alg);
    match c.rng.below(3) {
        0 => { n.add_layers(net.iter().map(|l| l.build())); }
        1 => { for l in net { n.add(l.build()); } }
        _ => { let k = c.rng.below(net.len() + 1); n.add_layers(net[..k].iter().map(|l| l.build()).collect::<Vec<_>>()); for l in &net[k..] { n.add(l.build()); } }
    }
    n
}
fn random_weights(c: &mut Case, net: &[L]) -> Vec<f64> {
    let s = c.rng.uniform(0.2, 1.2);
    let sparse = c.rng.chance(0.15);
    net.iter().flat_map(|l| { let fan = l.shape().0.max(1) as f64; c.rng.normals(l.num(), s / fan.sqrt()).into_iter().map(|w| if sparse && c.rng.bool() { 0.0 } else { w }).collect::<Vec<_>>() }).collect()
}

/// Sizes for the constructors; equal neighbours occur.
fn layer_sizes(c: &mut Case) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for _ in 0..c.rng.size(2, 6, 12) { let n = if !v.is_empty() && c.rng.chance(0.25) { v[v.len() - 1] } else { c.rng.size(1, 6, 40) }; v.push(n); }
    v
}

fn w01(cx: &mut Ctx) {
    cx.rule("Random architectures (1..5 linear layers of width 1..6, some of up to 45 layers, with and without bias, built-in and own activations, an own layer type), random weights put in through a recording optimiser, batches of 1..12 rows. Non-trivial: at least two layers with weights, identified by weights and batch.");
    cx.group("composition", 3000, 120_000, |c| {
        let (net, d) = architecture(c, false);
        let w = random_weights(c, &net);
        let rec = recorder(&w, vec![]);
        let mut n = assemble(c, &net, MSECriterion::default(), &rec);
        let dummy = Matrix::new(1, d, vec![0.0; d]);
        n.train(&dummy, &dummy).map_err(|e| e.to_string())?;
        let rows = c.rng.size(1, 12, 300);
        let x = entries(c, rows * d);
        let out = n.predict(&mat(rows, d, &x)).map_err(|e| format!("{:?}: {}", net, e))?;
        let width = forward(&net, &plain(&w), &x[..d]).unwrap().len();
        ensure!(out.rows() == rows && out.cols() == width, "{:?}: {} rows give {} x {}", net, rows, out.rows(), out.cols());
        for r in 0..rows {
            if extent(&net, &w, &x[r * d..(r + 1) * d]) > 1e6 { c.count("skipped: extreme", 1); continue; }
            let want: Vec<f64> = forward(&net, &plain(&w), &x[r * d..(r + 1) * d]).unwrap().iter().map(|v| v.0).collect();
            let got = &out.data()[r * width..(r + 1) * width];
            ensure!(all_close(got, &want, 1e-8, 1e-8), "{:?}: row {} gives {:?}, the composition is {:?}", net, r, got, want);
            let one = n.predict(&mat(1, d, &x[r * d..(r + 1) * d])).map_err(|e| e.to_string())?;
            ensure!(all_close(one.data(), got, 1e-10, 1e-12), "{:?}: row {} alone gives {:?}, in the batch {:?}", net, r, one.data(), got);
        }
        c.count("rows", rows as u64);
        if net.iter().filter(|l| l.num() > 0).count() >= 2 { c.seen(hash_f64s(&w) ^ hash_f64s(&x)); }
        c.sample(|| format!("{:?}: {:?} -> {:?}", net, &x[..d], &out.data()[..width]));
        Ok(())
    });
    cx.group("widths", 1000, 20_000, |c| {
        // one width is off: before the network, or between two layers
        let (mut net, d) = architecture(c, false);
        let off = c.rng.range(1, 3);
        let wrong_input = c.rng.bool();
        let mut din = d;
        if wrong_input { din = if c.rng.bool() && d > off { d - off } else { d + off }; if matches!(net[0], L::A(_)) { net.remove(0); } }
        else {
            let at: Vec<usize> = (1..net.len()).filter(|k| matches!(net[*k], L::Lin(..) | L::Scale(_)) && net[..*k].iter().any(|l| l.num() > 0)).collect();
            if at.is_empty() { return Ok(()); }
            let k = *c.rng.pick(&at);
            match net[k] { L::Lin(ref mut i, _, _) => *i += off, L::Scale(ref mut i) => *i += off, _ => {} }
        }
        let mut n = NeuralNet::new(MSECriterion::default(), GradientDesc::default());
        n.add_layers(net.iter().map(|l| l.build()));
        let rows = c.rng.range(1, 4);
        let r = n.predict(&mat(rows, din, &c.rng.normals(rows * din, 1.0)));
        ensure!(r.is_err(), "{:?} given {} columns answers {:?}", net, din, r);
        c.count("refusals", 1);
        if wrong_input {
            // and the network still answers what fits
            let good = n.predict(&mat(rows, d, &c.rng.normals(rows * d, 0.1))).map_err(|e| format!("{:?} refuses {} columns after a refusal: {}", net, d, e))?;
            ensure!(good.rows() == rows, "{} rows for {}", good.rows(), rows);
        }
        c.seen(hash_usizes(&net.iter().map(|l| l.shape().0 * 10 + l.shape().1).collect::<Vec<_>>()));
        Ok(())
    });
    cx.group("no layers", 100, 1000, |c| {
        let n = NeuralNet::new(BCECriterion::default(), GradientDesc::default());
        let (r, d) = (c.rng.range(1, 5), c.rng.range(1, 5));
        let x = mat(r, d, &c.rng.normals(r * d, 10.0));
        let out = n.predict(&x).map_err(|e| e.to_string())?;
        ensure!(out == x, "a network without layers maps {:?} to {:?}", x, out);
        c.seen(hash_f64s(x.data()));
        Ok(())
    });
    cx.group("perceptrons", 800, 20_000, |c| {
        // the constructors: linear layers with bias, each followed by the activation
        let sizes = layer_sizes(c);
        let which = c.rng.below(4);
        let act = [Act::Sigmoid, Act::Tanh, Act::Linear, Act::Sigmoid][which];
        let net: Vec<L> = sizes.windows(2).flat_map(|s| vec![L::Lin(s[0], s[1], true), L::A(act)]).collect();
        let rows = c.rng.range(1, 6);
        let x = c.rng.normals(rows * sizes[0], 2.0);
        let xm = mat(rows, sizes[0], &x);
        fn run<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>>(n: &NeuralNet<T, A>, x: &Matrix<f64>, k: usize) -> Result<(Matrix<f64>, Vec<((usize, usize), Vec<f64>)>), String> {
            Ok((n.predict(x).map_err(|e| e.to_string())?, weights(n, k)))
        }
        let (out, ws) = match which {
            0 => run(&NeuralNet::mlp(&sizes, BCECriterion::default(), GradientDesc::default(), activ_fn::Sigmoid), &xm, net.len())?,
            1 => run(&NeuralNet::mlp(&sizes, MSECriterion::default(), GradientDesc::default(), activ_fn::Tanh), &xm, net.len())?,
            2 => run(&NeuralNet::mlp(&sizes, MSECriterion::default(), GradientDesc::default(), activ_fn::Linear), &xm, net.len())?,
            _ => run(&NeuralNet::default(&sizes), &xm, net.len())?,
        };
        for (k, l) in net.iter().enumerate() { ensure!(ws[k].0 == l.shape() && ws[k].1.len() == l.num(), "layer {} of {:?} has weights {:?}", k, sizes, ws[k].0); }
        let w: Vec<f64> = ws.iter().flat_map(|v| v.1.clone()).collect();
        let o = sizes[sizes.len() - 1];
        for r in 0..rows {
            let want: Vec<f64> = forward(&net, &plain(&w), &x[r * sizes[0]..(r + 1) * sizes[0]]).unwrap().iter().map(|v| v.0).collect();
            ensure!(all_close(&out.data()[r * o..(r + 1) * o], &want, 1e-8, 1e-9), "perceptron {:?} with {:?}: row {} gives {:?}, not {:?}", sizes, act, r, &out.data()[r * o..(r + 1) * o], want);
        }
        c.count("rows", rows as u64);
        c.seen(hash_f64s(&w));
        Ok(())
    });
}

/// A criterion of our own: the sum over entries of (o - t)^4 / 4, averaged over rows; regularization by default none.
struct QuarticCost;
impl CostFunc<Matrix<f64>> for QuarticCost {
    fn cost(o: &Matrix<f64>, t: &Matrix<f64>) -> f64 { o.data().iter().zip(t.data()).map(|(a, b)| (a - b).powi(4) / 4.0).sum::<f64>() / o.rows() as f64 }
    fn grad_cost(o: &Matrix<f64>, t: &Matrix<f64>) -> Matrix<f64> { Matrix::new(o.rows(), o.cols(), o.data().iter().zip(t.data()).map(|(a, b)| (a - b).powi(3)).collect::<Vec<_>>()) }
}
#[derive(Debug)]
struct Quartic;
impl Criterion for Quartic { type Cost = QuarticCost; }

fn gradients<T: Criterion>(c: &mut Case, net: &[L], d: usize, crit: T, reg: Regularization<f64>, targets_unit: bool, cost: &dyn Fn(Dual, f64) -> Dual, name: &str) -> Verdict {
    let m = total(net);
    let probes: Vec<Vec<f64>> = (0..2).map(|_| random_weights(c, net)).collect();
    let answer = random_weights(c, net);
    let rec = recorder(&answer, probes.clone());
    let mut n = assemble(c, net, crit, &rec);
    let rows = c.rng.size(1, 8, 120);
    let x = if c.rng.chance(0.3) { (0..rows * d).map(|_| if c.rng.bool() { c.rng.range(0, 2) as f64 - 1.0 } else { c.rng.normal() }).collect() } else { c.rng.normals(rows * d, 1.0) };
    let width = forward(net, &plain(&answer), &x[..d]).unwrap().len();
    let y: Vec<f64> = if targets_unit { if c.rng.bool() { (0..rows * width).map(|_| c.rng.bool() as u8 as f64).collect() } else { c.rng.uniforms(rows * width, 0.0, 1.0) } } else { let s = if c.rng.chance(0.2) { c.rng.logu(2.0, 4.5) } else { 1.0 }; c.rng.normals(rows * width, s) };
    let what = format!("{} {:?}, {:?}, {} rows", name, reg, net, rows);
    n.train(&mat(rows, d, &x), &mat(rows, width, &y)).map_err(|e| format!("{}: {}", what, e))?;
    let log = rec.log.borrow();
    for (p, (got_cost, got)) in probes.iter().zip(&log[0].grads) {
        ensure!(got.len() == m, "{}: {} entries for {} weights", what, got.len(), m);
        // beyond this, outputs round to 0 or 1 and the criteria's own conditions end
        if x.chunks(d).any(|r| extent(net, p, r) > 8.0) { c.count("skipped: extreme", 1); continue; }
        let eval = |k: Option<usize>| -> Dual {
            let mut w = plain(p);
            if let Some(k) = k { w[k].1 = 1.0; }
            let mut s = Dual(0.0, 0.0);
            for r in 0..rows { for (o, t) in forward(net, &w, &x[r * d..(r + 1) * d]).unwrap().into_iter().zip(&y[r * width..(r + 1) * width]) { s = s + cost(o, *t); } }
            s
        };
        let flat = mat(m, 1, p);
        let want_cost = eval(None).0 / rows as f64 + reg.reg_cost(flat.as_slice());
        ensure!(close(*got_cost, want_cost, 1e-11, 1e-11), "{}: cost {:e}, by definition {:e}", what, got_cost, want_cost);
        let rg = |w: f64| -> f64 { let s = if w < 0.0 { -1.0 } else { 1.0 }; let mf = m as f64; match reg { Regularization::None => 0.0, Regularization::L1(a) => a * s / (2.0 * mf), Regularization::L2(a) => a * w / mf, Regularization::ElasticNet(a, b) => a * s / (2.0 * mf) + b * w / mf } };
        // of a large network some entries, as each takes a pass of its own
        let some: Vec<usize> = if m <= 400 { (0..m).collect() } else { (0..150).map(|_| c.rng.below(m)).chain([0, m - 1]).collect() };
        let want: Vec<f64> = some.iter().map(|k| eval(Some(*k)).1 + rg(p[*k])).collect();
        let scale = maxabs(&want).max(1e-3);
        for (k, w) in some.iter().zip(&want) {
            ensure!(close(got[*k], *w, 1e-6, 1e-7 * scale), "{}: gradient entry {} of {} is {:e}, the derivative is {:e}", what, k, m, got[*k], w);
        }
        c.count("gradient entries", some.len() as u64);
        if net.iter().filter(|l| l.num() > 0).count() >= 2 { c.seen(hash_f64s(p) ^ hash_f64s(&x)); }
        c.sample(|| format!("{}: cost {:e}, first entries {:?}", what, got_cost, &got[..m.min(4)]));
    }
    Ok(())
}
fn regularization(c: &mut Case) -> Regularization<f64> {
    match c.rng.below(5) { 0 => Regularization::L1(c.rng.uniform(0.1, 3.0)), 1 => Regularization::L2(c.rng.uniform(0.1, 3.0)), 2 => Regularization::ElasticNet(c.rng.uniform(0.1, 3.0), c.rng.uniform(0.1, 3.0)), _ => Regularization::None }
}
fn w02(cx: &mut Ctx) {
    cx.rule("The architectures of W01 with mean squared error, cross entropy and an own criterion, every regularization, 1..8 rows, two random weight vectors each; every gradient entry compared with a derivative propagated forwards on dual numbers. Non-trivial: at least two layers with weights, identified by weights and batch.");
    cx.group("squared error", 1200, 40_000, |c| {
        let (net, d) = architecture(c, false);
        let reg = regularization(c);
        let crit = if matches!(reg, Regularization::None) && c.rng.bool() { MSECriterion::default() } else { MSECriterion::new(reg) };
        gradients(c, &net, d, crit, reg, false, &|o, t| { let e = Dual(o.0 - t, o.1); Dual(0.5, 0.0) * e * e }, "squared error")
    });
    cx.group("cross entropy", 1200, 40_000, |c| {
        let (net, d) = architecture(c, true);
        let reg = regularization(c);
        let crit = if matches!(reg, Regularization::None) && c.rng.bool() { BCECriterion::default() } else { BCECriterion::new(reg) };
        gradients(c, &net, d, crit, reg, true, &|o, t| Dual(-t * o.0.ln() - (1.0 - t) * (1.0 - o.0).ln(), o.1 * (o.0 - t) / (o.0 * (1.0 - o.0))), "cross entropy")
    });
    cx.group("own criterion", 600, 20_000, |c| {
        let (net, d) = architecture(c, c.index % 2 == 0);
        gradients(c, &net, d, Quartic, Regularization::None, false, &|o, t| { let e = Dual(o.0 - t, o.1); Dual(0.25, 0.0) * e * e * e * e }, "quartic")
    });
}

fn w03(cx: &mut Ctx) {
    cx.rule("Random architectures trained 1..4 times with a recording optimiser answering uniquely numbered weights; split against unsplit gradient descent; initial weights of thousands of layers tested for mean, variance, shape of the distribution and independence. Non-trivial: at least two layers with weights, identified by the initial weights.");
    cx.group("histories", 2000, 60_000, |c| {
        let (net, _) = architecture(c, false);
        let m = total(&net);
        let rec = recorder(&[], vec![]);
        let mut n = assemble(c, &net, MSECriterion::default(), &rec);
        let check = |n: &NeuralNet<MSECriterion, &Recorder>, want: &[f64], when: &str| -> Verdict {
            let ws = weights(n, net.len());
            let mut at = 0;
            for (k, l) in net.iter().enumerate() {
                ensure!(ws[k].0 == l.shape(), "{:?}: layer {} has weights of shape {:?}", net, k, ws[k].0);
                ensure!(ws[k].1[..] == want[at..at + l.num()], "{:?}: {}, layer {} has weights {:?} instead of {:?}", net, when, k, ws[k].1, &want[at..at + l.num()]);
                at += l.num();
            }
            Ok(())
        };
        let mut cur: Vec<f64> = weights(&n, net.len()).into_iter().flat_map(|w| w.1).collect();
        ensure!(cur.len() == m && cur.iter().all(|v| v.is_finite()), "{:?}: initial weights {:?}", net, cur);
        // the own layer's initial weights are its own, in order
        let mut at = 0;
        for l in &net { if let L::Scale(k) = *l { ensure!((0..k).all(|j| cur[at + j] == 100.0 + j as f64), "{:?}: the initial weights of the own layer are {:?}", net, &cur[at..at + k]); } at += l.num(); }
        let init = cur.clone();
        let rounds = c.rng.range(1, 4);
        for r in 0..rounds {
            let answer: Vec<f64> = { let s = if c.rng.bool() { 1.0 } else { c.rng.sign() * c.rng.logu(-200.0, 200.0) }; (0..m).map(|k| s * (1000.0 * (r + 1) as f64 + k as f64)).collect() };
            *rec.answer.borrow_mut() = answer.clone();
            let (rows, d, o) = (c.rng.size(1, 5, 400), c.rng.size(1, 4, 20), c.rng.size(1, 4, 20));
            let (x, y) = (mat(rows, d, &c.rng.normals(rows * d, 1.0)), mat(rows, o, &c.rng.normals(rows * o, 1.0)));
            n.train(&x, &y).map_err(|e| e.to_string())?;
            let log = rec.log.borrow();
            ensure!(log.len() == r + 1, "{:?}: training {} called the optimiser {} times in total", net, r, log.len());
            let q = &log[r];
            ensure!(q.start == cur, "{:?}: training {} starts from {:?}, the weights are {:?}", net, r, q.start, cur);
            ensure!(q.inputs == x && q.targets == y, "{:?}: training {} hands over other data", net, r);
            check(&n, &answer, &format!("after training {}", r))?;
            cur = answer;
        }
        c.count("trainings", rounds as u64);
        if net.iter().filter(|l| l.num() > 0).count() >= 2 { c.seen(hash_f64s(&init)); }
        c.sample(|| format!("{:?}: {} weights, {} trainings", net, m, rounds));
        Ok(())
    });
    cx.group("perceptrons", 600, 10_000, |c| {
        // the constructors lay out one linear layer with bias per pair of sizes
        let sizes = layer_sizes(c);
        let net: Vec<L> = sizes.windows(2).flat_map(|s| vec![L::Lin(s[0], s[1], true), L::A(Act::Sigmoid)]).collect();
        fn shapes<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>>(n: &NeuralNet<T, A>, k: usize) -> Result<Vec<((usize, usize), Vec<f64>)>, String> { guard(|| weights(n, k)) }
        let which = c.rng.below(3);
        let rec = recorder(&[], vec![]);
        let ws = match which {
            0 => shapes(&NeuralNet::mlp(&sizes, BCECriterion::default(), GradientDesc::default(), activ_fn::Sigmoid), net.len()),
            1 => shapes(&NeuralNet::default(&sizes), net.len()),
            _ => {
                // the optimiser is handed all of them
                let mut n = NeuralNet::mlp(&sizes, MSECriterion::default(), &rec, activ_fn::Sigmoid);
                let w = shapes(&n, net.len());
                let answer: Vec<f64> = (0..total(&net)).map(|k| k as f64).collect();
                *rec.answer.borrow_mut() = answer.clone();
                let d = Matrix::new(1, 1, vec![0.0]);
                n.train(&d, &d).map_err(|e| e.to_string())?;
                let start = rec.log.borrow()[0].start.clone();
                if let Ok(ref w) = w { ensure!(w.iter().flat_map(|l| l.1.clone()).collect::<Vec<_>>() == start, "perceptron {:?}: training starts from {:?}", sizes, start); }
                let after: Vec<f64> = shapes(&n, net.len())?.into_iter().flat_map(|l| l.1).collect();
                ensure!(after == answer, "perceptron {:?}: the optimiser's weights are kept as {:?}", sizes, after);
                w
            }
        }.map_err(|e| format!("perceptron {:?}: no weights for {} layers: {}", sizes, net.len(), e))?;
        for (k, l) in net.iter().enumerate() { ensure!(ws[k].0 == l.shape() && ws[k].1.len() == l.num(), "layer {} of the perceptron {:?} has weights of shape {:?}", k, sizes, ws[k].0); }
        let flat: Vec<f64> = ws.into_iter().flat_map(|w| w.1).collect();
        ensure!(flat.iter().all(|w| w.is_finite() && *w != 0.0), "perceptron {:?}: initial weights {:?}", sizes, flat);
        c.count("perceptrons", 1);
        c.seen(hash_f64s(&flat));
        Ok(())
    });
    cx.group("continuing", 400, 10_000, |c| {
        // k steps and k more are 2k steps: compared with a replay of the rule from the same start
        let (net, d) = architecture(c, false);
        let rows = c.rng.range(1, 6);
        let x = mat(rows, d, &c.rng.normals(rows * d, 1.0));
        let w0 = random_weights(c, &net);
        let width = forward(&net, &plain(&w0), &x.data()[..d]).unwrap().len();
        let y = mat(rows, width, &c.rng.normals(rows * width, 1.0));
        struct Switch { start: Vec<f64>, gd: RefCell<Option<(f64, usize)>> }
        impl<'a, T: Criterion> OptimAlgorithm<BaseNeuralNet<T>> for &'a Switch {
            fn optimize(&self, m: &BaseNeuralNet<T>, s: &[f64], i: &Matrix<f64>, t: &Matrix<f64>) -> Vec<f64> { match *self.gd.borrow() {
                // (the crate's optimiser may stop early where the cost is flat)
                Some((a, k)) => { let mut p = s.to_vec(); for _ in 0..k { let g = Optimizable::compute_grad(m, &p, i, t).1; for (v, g) in p.iter_mut().zip(&g) { *v -= a * g; } } p }
                None => self.start.clone(),
            } }
        }
        let alg = Switch { start: w0.clone(), gd: RefCell::new(None) };
        let (k1, k2) = (c.rng.range(1, 6), c.rng.range(1, 6));
        let a = 0.01 / rows as f64;
        let mut got = vec![];
        for split in [false, true] {
            *alg.gd.borrow_mut() = None;
            let mut n = assemble(c, &net, MSECriterion::default(), &alg);
            n.train(&x, &y).map_err(|e| e.to_string())?;
            for k in if split { vec![k1, k2] } else { vec![k1 + k2] } {
                *alg.gd.borrow_mut() = Some((a, k));
                n.train(&x, &y).map_err(|e| e.to_string())?;
            }
            got.push(weights(&n, net.len()).into_iter().flat_map(|w| w.1).collect::<Vec<f64>>());
        }
        if !(maxabs(&got[0]) < 50.0) || got[0].iter().any(|v| v.is_nan()) { return Ok(()); }
        ensure!(all_close(&got[0], &got[1], 1e-9, 1e-10), "{:?}: {} and {} steps lead to {:?}, all at once to {:?}", net, k1, k2, got[1], got[0]);
        if got[0] != w0 { c.seen(hash_f64s(&w0)); }
        Ok(())
    });
    cx.group("initial weights", 24, 200, |c| {
        let (i, o, b) = if c.index % 12 == 11 { (c.rng.range(60, 260), c.rng.range(40, 260), c.rng.chance(0.7)) } else if c.index % 6 == 5 { (c.rng.range(13, 70), c.rng.range(1, 70), c.rng.chance(0.7)) } else { (c.rng.range(1, 12), c.rng.range(1, 12), c.rng.chance(0.7)) };
        let var = 2.0 / (i + b as usize + o) as f64;
        let per = (i + b as usize) * o;
        let nets = (20_000 / per + 2).max(6);
        let mut all: Vec<Vec<f64>> = vec![];
        for _ in 0..nets {
            let mut n = NeuralNet::new(MSECriterion::default(), GradientDesc::default());
            n.add(if b { Box::new(Linear::new(i, o)) } else { Box::new(Linear::without_bias(i, o)) }).add(Box::new(activ_fn::Sigmoid)).add(if b { Box::new(Linear::new(i, o)) } else { Box::new(Linear::without_bias(i, o)) });
            for k in [0, 2] { all.push(n.get_net_weights(k).iter().cloned().collect()); }
        }
        let flat: Vec<f64> = all.iter().flat_map(|v| v.iter().map(|x| x / var.sqrt())).collect();
        let k = flat.len() as f64;
        let what = format!("{} weights of layers {} x {} (bias {})", flat.len(), i, o, b);
        let mean = flat.iter().sum::<f64>() / k;
        ensure!((mean * k.sqrt()).abs() < Z_ALARM, "{}: mean {:e} standard deviations", what, mean);
        let v = flat.iter().map(|x| x * x).sum::<f64>() / k;
        ensure!(((v - 1.0) * (k / 2.0).sqrt()).abs() < Z_ALARM, "{}: variance {:.4} of the documented", what, v);
        // eight equally likely bins of the normal distribution
        let q = [-1.1503493803760079, -0.6744897501960817, -0.31863936396437514, 0.0, 0.31863936396437514, 0.6744897501960817, 1.1503493803760079];
        let mut bins = vec![0u64; 8];
        for x in &flat { bins[q.iter().filter(|t| x > *t).count()] += 1; }
        ensure!(chi2_uniform_z(&bins) < Z_ALARM, "{}: octile counts {:?}", what, bins);
        // independent: from one position to the next, between the layers of a net and from net to net
        let mut pairs = vec![("neighbouring weights", vec![]), ("layers", vec![]), ("nets", vec![])];
        for (k, l) in all.iter().enumerate() {
            for w in l.windows(2) { pairs[0].1.push((w[0], w[1])); }
            if k + 1 < all.len() { pairs[1 + k % 2].1.extend(l.iter().cloned().zip(all[k + 1].iter().cloned())); }
        }
        for (name, p) in &pairs {
            if p.len() < 100 { continue; }
            let r = p.iter().map(|(a, b)| a * b / var).sum::<f64>() / (p.len() as f64).sqrt();
            ensure!(r.abs() < Z_ALARM, "{}: {} are correlated (score {:.1})", what, name, r);
        }
        // every position has the spread, the bias row too
        for pos in 0..per {
            let s = all.iter().map(|l| l[pos] * l[pos] / var).sum::<f64>();
            let k = all.len() as f64;
            let z = ((s / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt();
            ensure!(z.abs() < Z_ALARM, "{}: the weight at {} has {:.3} times the documented variance", what, pos, s / k);
        }
        c.count("initial weights", flat.len() as u64);
        c.seen(hash_f64s(&all[0]));
        Ok(())
    });
}

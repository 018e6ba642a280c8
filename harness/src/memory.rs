//! Hostile call sequences for the undefined-behaviour tools. No verdict is made here: tools/memory.py runs these (and the
//! other monitors) natively, under AddressSanitizer, under Miri and under memcheck, and takes the tools' reports.
//! Every result is read in full, so that an uninitialised value has an effect.
use crate::util::*;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::analysis::score;
use rusty_machine::data::transforms::{MinMaxFitter, Normalizer, Shuffler, StandardizerFitter, TransformFitter, Transformer};
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::gmm::GaussianMixtureModel;
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::naive_bayes::{Multinomial, NaiveBayes};
use rusty_machine::learning::nnet::net_layer::{Linear, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, BaseNeuralNet, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::grad_desc::{GradientDesc, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn;
use rusty_machine::learning::toolkit::rand_utils;
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel, UnSupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix, MatrixSlice, Vector};

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("X01", x01)];

fn mat(n: usize, d: usize, v: &[f64]) -> Matrix<f64> { Matrix::new(n, d, v.to_vec()) }
/// Uses every value.
fn eat(v: &[f64]) -> u64 { let h = hash_f64s(v); if h == 0x1234_5678 { println!("{}", h); } h }
fn eatu(v: &[usize]) -> u64 { let h = hash_usizes(v); if h == 0x1234_5678 { println!("{}", h); } h }
fn tally<T>(c: &mut Case, r: Result<T, String>) -> Option<T> {
    match r { Ok(t) => { c.count("calls that returned", 1); Some(t) } Err(_) => { c.count("calls that panicked", 1); None } }
}
/// Miri is slow: it gets a part of each case.
fn some(c: &mut Case) -> bool { !cfg!(miri) || c.rng.chance(0.3) }
fn values(c: &mut Case, n: usize) -> Vec<f64> {
    let kind = c.rng.below(6);
    (0..n).map(|_| match kind {
        0 => c.rng.below(3) as f64,
        1 if c.rng.chance(0.2) => *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, 5e-324]),
        2 => 1.0,
        3 => c.rng.normal() * c.rng.logu(-150.0, 150.0),
        _ => c.rng.normal(),
    }).collect()
}

fn shuffles(c: &mut Case) -> Verdict {
    let n = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 17, 40]);
    rand::verif::set_extreme(c.rng.below(4) as _);
    let x: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(0x9e3779b97f4a7c15)).collect();
    macro_rules! each { ($t:ty, $conv:expr) => { if some(c) {
        let v: Vec<$t> = x.iter().map($conv).collect();
        if let Some(s) = tally(c, guard(|| rand_utils::fisher_yates(&v))) {
            // compared item by item, every byte
            let hits = s.iter().map(|a| v.iter().filter(|b| *b == a).count()).sum::<usize>();
            eatu(&[hits, s.len()]);
        }
        let mut w = v.clone();
        tally(c, guard(|| rand_utils::in_place_fisher_yates(&mut w)));
        eatu(&[w.iter().map(|a| v.iter().filter(|b| *b == a).count()).sum::<usize>()]);
        let k = c.rng.below(n + 3);
        if let Some(s) = tally(c, guard(|| rand_utils::reservoir_sample(&v, k))) { eatu(&[s.iter().map(|a| v.iter().filter(|b| *b == a).count()).sum::<usize>()]); }
    } } }
    each!(u8, |v| *v as u8);
    each!(u64, |v| *v);
    each!((u8, u64, bool), |v| (*v as u8, *v, *v & 1 == 1));
    each!([u32; 5], |v| [*v as u32; 5]);
    each!(char, |v| char::from((*v % 120) as u8));
    each!((), |_| ());
    each!(&u64, |v| v);
    rand::verif::set_extreme(0);
    c.sample(|| format!("shuffles and samples of {} items of 7 types", n));
    c.seen(c.seed);
    Ok(())
}

/// Every length up to 130 (one window of lengths per case) and some longer ones.
fn long_shuffles(c: &mut Case) -> Verdict {
    let i = c.index as usize;
    let sizes: Vec<usize> = if i < 16 { (i * 8..i * 8 + 8).collect() } else { vec![*c.rng.pick(&[128, 129, 130, 150, 200, 255, 256, 257, 300, 400]), c.rng.range(60, 500), if c.rng.chance(0.2) { *c.rng.pick(&[511, 512, 513, 1000, 1024, 1025]) } else { c.rng.range(30, 200) }] };
    for n in sizes {
        let v: Vec<u32> = (0..n as u32).map(|x| x.wrapping_mul(0x9e3779b9)).collect();
        if let Some(s) = tally(c, guard(|| rand_utils::fisher_yates(&v))) { eatu(&[s.iter().fold(0u64, |a, x| a + *x as u64) as usize, s.len()]); }
        let mut w = v.clone();
        tally(c, guard(|| rand_utils::in_place_fisher_yates(&mut w)));
        eatu(&[w.iter().fold(0u64, |a, x| a + *x as u64) as usize]);
        let k = *c.rng.pick(&[0, 1, n / 2, n, n + 1]);
        if let Some(s) = tally(c, guard(|| rand_utils::reservoir_sample(&v, k))) { eatu(&[s.iter().fold(0u64, |a, x| a + *x as u64) as usize, s.len()]); }
        // items with invalid bit patterns, and large items
        if c.rng.chance(0.3) {
            let b: Vec<(bool, char, [u16; 40])> = (0..n).map(|x| (x % 3 == 0, 'z', [x as u16; 40])).collect();
            if let Some(s) = tally(c, guard(|| rand_utils::fisher_yates(&b))) { eatu(&[s.iter().filter(|x| x.0 && x.1 == 'z').count(), s.iter().map(|x| x.2[39] as usize).sum()]); }
        }
        // items that own memory
        if c.rng.chance(0.3) {
            let mut b: Vec<Box<usize>> = (0..n).map(Box::new).collect();
            tally(c, guard(|| rand_utils::in_place_fisher_yates(&mut b)));
            eatu(&[b.iter().map(|x| **x).sum()]);
        }
    }
    c.seen(c.seed);
    Ok(())
}

/// The same calls on several threads at a time.
fn threads(c: &mut Case) -> Verdict {
    let seeds: Vec<u64> = (0..3).map(|_| c.rng.u64()).collect();
    let what = c.rng.below(6);
    let running: Vec<_> = seeds.into_iter().map(|seed| std::thread::spawn(move || {
        rand::verif::seed_thread_rng(seed as _);
        let mut r = Rng::new(seed);
        for _ in 0..2 {
            let (n, d) = (r.range(3, 9), r.range(1, 3));
            let x = r.normals(n * d, 1.0);
            let ids: Vec<u32> = (0..n as u32).collect();
            match what {
                0 => { let s = rand_utils::fisher_yates(&ids); let mut v = ids.clone(); rand_utils::in_place_fisher_yates(&mut v); let k = rand_utils::reservoir_sample(&ids, n / 2); eatu(&[s.len(), v.len(), k.len(), s[0] as usize, v[0] as usize]); }
                1 => { let mut m = KMeansClassifier::new(2); if m.train(&mat(n, d, &x)).is_ok() { if let Ok(p) = m.predict(&mat(n, d, &x)) { eatu(p.data()); } } }
                2 => { let mut m = DBSCAN::new(1.0, 2); let _ = m.train(&mat(n, d, &x)); if let Some(l) = m.clusters() { eatu(&l.data().iter().map(|v| v.unwrap_or(99)).collect::<Vec<_>>()); } let mut s = KDTree::default(); s.build(mat(n, d, &x)); if let Ok((i, v)) = s.search(&x[..d], 2) { eatu(&i); eat(&v); } let mut s = BallTree::default(); s.build(mat(n, d, &x)); if let Ok((i, v)) = s.search(&x[..d], 2) { eatu(&i); eat(&v); } }
                3 => { let mut m = NeuralNet::mlp(&[d, 3, 1], MSECriterion::default(), StochasticGD::new(0.9, 0.1, 2), activ_fn::Sigmoid); let _ = m.train(&mat(n, d, &x), &mat(n, 1, &x[..n])); if let Ok(p) = m.predict(&mat(n, d, &x)) { eat(p.data()); } }
                4 => { let mut m = SVM::default(); m.optim_iters = 5; let t: Vec<f64> = x[..n].iter().map(|v| v.signum()).collect(); let _ = m.train(&mat(n, d, &x), &Vector::new(t)); if let Ok(p) = m.predict(&mat(n, d, &x)) { eat(p.data()); } let mut m = PCA::default(); if m.train(&mat(n, d, &x)).is_ok() { if let Ok(p) = m.predict(&mat(n, d, &x)) { eat(p.data()); } } }
                _ => { if let Ok(p) = Shuffler::default().transform(mat(n, d, &x)) { eat(p.data()); } let mut m = GaussianMixtureModel::new(2); m.set_max_iters(1); let _ = m.train(&mat(n, d, &x)); let mut m = LinRegressor::default(); if m.train(&mat(n, d, &x), &Vector::new(x[..n].to_vec())).is_ok() { if let Ok(p) = m.predict(&mat(n, d, &x)) { eat(p.data()); } } }
            }
        }
    })).collect();
    for t in running { if t.join().is_ok() { c.count("threads that returned", 1); } else { c.count("threads that panicked", 1); } }
    c.sample(|| format!("three threads at a time, kind {}", what));
    c.seen(c.seed);
    Ok(())
}

fn search<S: KNearestSearch>(c: &mut Case, mut s: S) {
    for _ in 0..3 {
        let (n, d) = (c.rng.below(14), c.rng.range(0, 4));
        if c.rng.chance(0.9) {
            let v = values(c, n * d);
            if tally(c, guard(|| s.build(mat(n, d, &v)))).is_none() { continue; }
        }
        for _ in 0..4 {
            let len = if c.rng.chance(0.6) { d } else { c.rng.below(d + 3) };
            let p = values(c, len);
            let k = if c.rng.chance(0.6) { c.rng.range(0, n) } else { *c.rng.pick(&[0, 1, n, n + 1, n + 7]) };
            if let Some(Ok((i, x))) = tally(c, guard(|| s.search(&p, k))) { eatu(&i); eat(&x); }
        }
    }
}
fn classify<S: KNearestSearch>(c: &mut Case, mut m: KNNClassifier<S>) {
    for _ in 0..3 {
        let (n, d) = (c.rng.below(12), c.rng.range(0, 3));
        let v = values(c, n * d);
        let t: Vec<usize> = (0..if c.rng.chance(0.8) { n } else { c.rng.below(n + 3) }).map(|i| i % 3).collect();
        tally(c, guard(|| m.train(&mat(n, d, &v), &Vector::new(t)).is_ok()));
        let q = if c.rng.chance(0.7) { d } else { c.rng.below(5) };
        let v = values(c, 2 * q);
        if let Some(Ok(a)) = tally(c, guard(|| m.predict(&mat(2, q, &v)))) { eatu(a.data()); }
    }
}
fn neighbours(c: &mut Case) -> Verdict {
    let leaf = *c.rng.pick(&[0, 1, 2, 3, 30]);
    if some(c) { search(c, KDTree::new(leaf)); }
    if some(c) { search(c, BallTree::new(leaf)); }
    if some(c) { search(c, BruteForce::new()); }
    if some(c) { search(c, KDTree::default()); }
    let k = c.rng.below(6);
    if some(c) { classify(c, KNNClassifier::new_specified(k, KDTree::new(leaf))); }
    if some(c) { classify(c, KNNClassifier::new_specified(k, BallTree::new(leaf))); }
    if some(c) { classify(c, KNNClassifier::new_specified(k, BruteForce::new())); }
    c.sample(|| format!("KD, ball and brute-force searches with leafsize {}, classifiers with k = {}, data of 0..13 rows, rebuilt", leaf, k));
    c.seen(c.seed);
    Ok(())
}

/// A layer whose answers about its parameters need not agree with each other.
#[derive(Debug, Clone)]
struct Liar { shape: (usize, usize), count: usize, init: usize, back: (usize, usize), width: usize }
impl NetLayer for Liar {
    fn forward(&self, input: &Matrix<f64>, params: MatrixSlice<f64>) -> LearningResult<Matrix<f64>> {
        let s: f64 = params.iter().cloned().sum();
        Ok(Matrix::new(input.rows(), self.width, vec![s; input.rows() * self.width]))
    }
    fn back_input(&self, g: &Matrix<f64>, input: &Matrix<f64>, _: &Matrix<f64>, params: MatrixSlice<f64>) -> Matrix<f64> {
        let s: f64 = params.iter().cloned().sum();
        Matrix::new(input.rows(), input.cols(), vec![s + g.data().iter().sum::<f64>(); input.rows() * input.cols()])
    }
    fn back_params(&self, _: &Matrix<f64>, _: &Matrix<f64>, _: &Matrix<f64>, _: MatrixSlice<f64>) -> Matrix<f64> { Matrix::new(self.back.0, self.back.1, vec![0.5; self.back.0 * self.back.1]) }
    fn default_params(&self) -> Vec<f64> { vec![0.25; self.init] }
    fn param_shape(&self) -> (usize, usize) { self.shape }
    fn num_params(&self) -> usize { self.count }
}
/// An optimiser that asks for gradients at weights of any length and answers with any number of weights.
#[derive(Debug)]
struct Rogue { asks: Vec<isize>, answer: isize }
fn stretched(v: &[f64], by: isize) -> Vec<f64> { let n = (v.len() as isize + by).max(0) as usize; let mut o = v.to_vec(); o.resize(n, 0.125); o.shrink_to_fit(); o }
impl<M: Optimizable> OptimAlgorithm<M> for Rogue {
    fn optimize(&self, model: &M, start: &[f64], inputs: &M::Inputs, targets: &M::Targets) -> Vec<f64> {
        for a in &self.asks {
            let w = stretched(start, *a);
            if let Ok((cost, grad)) = guard(|| model.compute_grad(&w, inputs, targets)) { eat(&[cost]); eat(&grad); }
        }
        stretched(start, self.answer)
    }
}
fn networks(c: &mut Case) -> Verdict {
    let off = |c: &mut Case| if c.rng.chance(0.6) { 0 } else { c.rng.range(0, 8) as isize - 4 };
    let alg = Rogue { asks: (0..3).map(|_| off(c)).collect(), answer: off(c) };
    let reg = *c.rng.pick(&[Regularization::None, Regularization::L2(0.5), Regularization::ElasticNet(0.1, 0.2)]);
    let d = c.rng.range(1, 3);
    c.sample(|| format!("network on {} columns with {:?} trained by {:?}", d, reg, alg));
    let mut m = NeuralNet::new(MSECriterion::new(reg), alg);
    let mut w = d;
    for _ in 0..c.rng.below(4) {
        let out = c.rng.range(1, 3);
        let line_up = c.rng.chance(0.9);
        let input = if line_up { w } else { c.rng.range(1, 4) };
        match c.rng.below(4) {
            0 => { m.add(Box::new(Linear::new(input, out))); w = out; }
            1 => { m.add(Box::new(Linear::without_bias(input, out))); w = out; }
            2 => { m.add(Box::new(activ_fn::Tanh)); }
            _ => {
                let shape = (c.rng.below(4), c.rng.below(4));
                let n = shape.0 * shape.1;
                let jitter = |c: &mut Case| if c.rng.chance(0.6) { n } else { c.rng.below(n + 4) };
                let (count, init) = (jitter(c), jitter(c));
                let back = if c.rng.chance(0.6) { shape } else { (c.rng.below(4), c.rng.below(4)) };
                m.add(Box::new(Liar { shape, count, init, back, width: out }));
                w = out;
            }
        }
    }
    for _ in 0..2 {
        let n = c.rng.range(0, 4);
        let cols = if c.rng.chance(0.85) { d } else { c.rng.range(0, 4) };
        let x = values(c, n * cols);
        let (tn, tw) = if c.rng.chance(0.8) { (n, w) } else { (c.rng.below(5), c.rng.below(4)) };
        let y = values(c, tn * tw);
        tally(c, guard(|| m.train(&mat(n, cols, &x), &mat(tn, tw, &y)).is_ok()));
        if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(n, cols, &x)))) { eat(p.data()); }
        for i in 0..5 { if let Some(v) = tally(c, guard(|| m.get_net_weights(i).iter().cloned().collect::<Vec<f64>>())) { eat(&v); } }
    }
    // the library's own optimisers on networks that line up
    let h = c.rng.range(1, 3);
    let mut m = NeuralNet::mlp(&[d, h, 1], BCECriterion::new(reg), StochasticGD::new(0.5, 0.1, 2), activ_fn::Sigmoid);
    let n = c.rng.range(1, 3);
    let x = values(c, n * d);
    tally(c, guard(|| m.train(&mat(n, d, &x), &mat(n, 1, &vec![1.0; n])).is_ok()));
    if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(n, d, &x)))) { eat(p.data()); }
    // a layer that does not line up, trained by the library's optimiser
    let mut m = NeuralNet::new(MSECriterion::new(reg), GradientDesc::new(0.1, 2));
    m.add(Box::new(Linear::new(d, h))).add(Box::new(Linear::new(h + c.rng.below(2), 1)));
    tally(c, guard(|| m.train(&mat(n, d, &x), &mat(n, 1, &vec![1.0; n])).is_ok()));
    if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(n, d, &x)))) { eat(p.data()); }
    let _ = |m: &BaseNeuralNet<BCECriterion>| m.compute_grad(&[], &mat(0, 0, &[]), &mat(0, 0, &[]));
    c.seen(c.seed);
    Ok(())
}

fn components(c: &mut Case) -> Verdict {
    let mut m = if c.rng.chance(0.3) { PCA::default() } else { PCA::new(c.rng.range(0, 3), c.rng.bool()) };
    for _ in 0..4 {
        let (n, d) = (c.rng.below(6), c.rng.range(0, 5));
        let v = values(c, n * d);
        c.sample(|| format!("PCA training on {} x {}: {:?}", n, d, v));
        tally(c, guard(|| m.train(&mat(n, d, &v)).is_ok()));
        if let Ok(v) = m.components() { eat(v.data()); }
        for _ in 0..2 {
            let q = c.rng.range(0, 5);
            let v = values(c, 2 * q);
            if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(2, q, &v)))) { eat(p.data()); }
        }
    }
    c.seen(c.seed);
    Ok(())
}

/// Initial centroids of any shape.
#[derive(Debug)]
struct Start(usize, usize);
impl Initializer for Start {
    fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> { Ok(Matrix::new(self.0, self.1, vec![0.5; self.0 * self.1])) }
}
fn clusters(c: &mut Case) -> Verdict {
    fn run<I: Initializer>(c: &mut Case, mut m: KMeansClassifier<I>) {
        for _ in 0..2 {
            let (n, d) = (c.rng.below(9), c.rng.range(0, 3));
            let v = values(c, n * d);
            tally(c, guard(|| m.train(&mat(n, d, &v)).is_ok()));
            if let Some(ref v) = *m.centroids() { eat(v.data()); }
            let q = if c.rng.chance(0.8) { d } else { c.rng.below(5) };
            let v = values(c, 2 * q);
            if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(2, q, &v)))) { eatu(p.data()); }
        }
    }
    rand::verif::set_extreme(c.rng.below(4) as _);
    let k = c.rng.range(1, 4);
    if some(c) { run(c, KMeansClassifier::new_specified(k, 3, KPlusPlus)); }
    if some(c) { run(c, KMeansClassifier::new_specified(k, 3, RandomPartition)); }
    let shape = (if c.rng.bool() { k } else { c.rng.below(5) }, c.rng.below(4));
    c.sample(|| format!("k-means with k = {} from centroids of shape {:?}, and DBSCAN, retrained", k, shape));
    if some(c) { run(c, KMeansClassifier::new_specified(k, 3, Start(shape.0, shape.1))); }
    // the initialisers on their own, also with more centroids than rows
    let (n, d) = (c.rng.range(1, 6), c.rng.range(0, 3));
    let v = values(c, n * d);
    let k = c.rng.range(1, 7);
    if some(c) { for r in [tally(c, guard(|| KPlusPlus.init_centroids(k, &mat(n, d, &v)))), tally(c, guard(|| RandomPartition.init_centroids(k, &mat(n, d, &v)))), if k <= n { rand::verif::set_extreme(0); tally(c, guard(|| Forgy.init_centroids(k, &mat(n, d, &v)))) } else { None }] {
        if let Some(Ok(m)) = r { eat(m.data()); }
    } }
    rand::verif::set_extreme(0);
    let mut m = DBSCAN::new(c.rng.logu(-1.0, 1.0), c.rng.below(4));
    for _ in 0..4 {
        if !some(c) { continue; }
        m.set_predictive(c.rng.chance(0.8));
        let (n, d) = (c.rng.below(15), c.rng.range(0, 3));
        let v = values(c, n * d);
        tally(c, guard(|| m.train(&mat(n, d, &v)).is_ok()));
        if let Some(l) = m.clusters() { eatu(&l.data().iter().map(|v| v.unwrap_or(77)).collect::<Vec<_>>()); }
        let q = if c.rng.chance(0.8) { d } else { c.rng.below(5) };
        let v = values(c, 2 * q);
        if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(2, q, &v)))) { eatu(&p.data().iter().map(|v| v.unwrap_or(77)).collect::<Vec<_>>()); }
    }
    c.seen(c.seed);
    Ok(())
}

fn rest(c: &mut Case) -> Verdict {
    let (n, d) = (c.rng.below(8), c.rng.range(0, 3));
    let v = values(c, n * d);
    c.sample(|| format!("other models, transformers and scores on {} rows {:?}", n, v));
    let q = c.rng.below(4);
    let w = values(c, 2 * q);
    let tn = if c.rng.chance(0.8) { n } else { c.rng.below(9) };
    let t = values(c, tn);
    if some(c) {
        let mut m = GaussianMixtureModel::new(c.rng.range(1, 3));
        m.set_max_iters(2);
        tally(c, guard(|| m.train(&mat(n, d, &v)).is_ok()));
        if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(2, q, &w)))) { eat(p.data()); }
    }
    if some(c) {
        let mut m = LinRegressor::default();
        tally(c, guard(|| m.train(&mat(n, d, &v), &Vector::new(t.clone())).is_ok()));
        if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(2, q, &w)))) { eat(p.data()); }
    }
    if some(c) {
        let mut m = SVM::default();
        m.optim_iters = 5;
        tally(c, guard(|| m.train(&mat(n, d, &v), &Vector::new(t.clone())).is_ok()));
        if let Some(Ok(p)) = tally(c, guard(|| m.predict(&mat(2, q, &w)))) { eat(p.data()); }
    }
    if let Some(Ok(p)) = tally(c, guard(|| Shuffler::default().transform(mat(n, d, &v)))) { eat(p.data()); }
    if let Some(Ok(p)) = tally(c, guard(|| Normalizer::default().transform(mat(n, d, &v)))) { eat(p.data()); }
    if let Some(Ok(mut s)) = tally(c, guard(|| MinMaxFitter::default().fit(&mat(n, d, &v)))) { if let Some(Ok(p)) = tally(c, guard(|| s.transform(mat(2, q, &w)))) { eat(p.data()); } }
    if let Some(Ok(mut s)) = tally(c, guard(|| StandardizerFitter::default().fit(&mat(n, d, &v)))) { if let Some(Ok(p)) = tally(c, guard(|| s.transform(mat(2, q, &w)))) { eat(p.data()); } }
    let a: Vec<usize> = (0..n).map(|_| c.rng.below(4)).collect();
    let b: Vec<usize> = (0..if c.rng.chance(0.8) { n } else { c.rng.below(9) }).map(|_| c.rng.below(4)).collect();
    let labels = if c.rng.bool() { None } else { Some((0..c.rng.below(5)).map(|_| c.rng.below(5)).collect::<Vec<_>>()) };
    if let Some(m) = tally(c, guard(|| confusion_matrix(&a, &b, labels))) { eatu(m.data()); }
    if let Some(s) = tally(c, guard(|| score::accuracy(a.iter(), b.iter()))) { eat(&[s]); }
    let folds = c.rng.below(6);
    let mut m = NaiveBayes::<Multinomial>::new();
    if let Some(Ok(s)) = tally(c, guard(|| k_fold_validate(&mut m, &mat(n, d, &v), &mat(n, 1, &vec![1.0; n]), folds, score::neg_mean_squared_error))) { eat(&s); }
    c.seen(c.seed);
    Ok(())
}

fn x01(cx: &mut Ctx) {
    cx.rule("Hostile call sequences over every module with unchecked access: empty and mismatched shapes, NaN and infinities, retraining after failures, out-of-range k and indices, layers that lie about their parameters, optimisers that return any number of weights, extreme random words; every result read in full.");
    cx.group("shuffles", 300, 6000, shuffles);
    cx.group("long shuffles", 60, 1200, long_shuffles);
    cx.group("threads", 60, 1200, threads);
    cx.group("neighbours", 300, 6000, neighbours);
    cx.group("networks", 600, 12000, networks);
    cx.group("components", 400, 8000, components);
    cx.group("clusters", 300, 6000, clusters);
    cx.group("rest", 300, 6000, rest);
}

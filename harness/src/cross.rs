//! Guarantees every model shares: refusals, retraining, pure row-by-row prediction.
use crate::util::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::glm::{self, GenLinearModel};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{self, NaiveBayes};
use rusty_machine::learning::nnet::net_layer;
use rusty_machine::learning::nnet::{BCECriterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn;
use rusty_machine::learning::toolkit::kernel;
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::{LearningResult, SupModel, UnSupModel};
use rusty_machine::data::transforms::minmax::MinMaxScaler;
use rusty_machine::data::transforms::standardize::Standardizer;
use rusty_machine::data::transforms::{Invertible, MinMaxFitter, Normalizer, StandardizerFitter, TransformFitter, Transformer};
use rusty_machine::linalg::norm::Euclidean;
use rusty_machine::linalg::{BaseMatrix, Matrix, Vector};

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("E01", e01), ("E02", e02), ("E03", e03)];

fn mat(n: usize, d: usize, v: &[f64]) -> Matrix<f64> { Matrix::new(n, d, v.to_vec()) }

/// How a call ended.
#[derive(Clone, Debug, PartialEq)]
enum End { Ok, Err(String), Panic(String) }
fn end<T>(r: Result<LearningResult<T>, String>) -> (End, Option<T>) {
    match r {
        Ok(Ok(t)) => (End::Ok, Some(t)),
        Ok(Err(e)) => (End::Err(format!("{:?}", e.kind())), None),
        Err(p) => (End::Panic(p), None),
    }
}
impl End {
    fn same(&self, o: &End) -> bool { match (self, o) { (End::Panic(_), End::Panic(_)) => true, (a, b) => a == b } }
}

/// Rows and every kind of target a model may want.
#[derive(Clone, Debug)]
struct Data { n: usize, d: usize, x: Vec<f64>, y: Vec<f64>, class: Vec<usize>, k: usize }
impl Data {
    fn inputs(&self) -> Matrix<f64> { mat(self.n, self.d, &self.x) }
    fn labels(&self) -> Vector<usize> { Vector::new(self.class.iter().map(|c| c * 3 + 1).collect::<Vec<_>>()) }
    fn one_hot(&self) -> Matrix<f64> { Matrix::new(self.class.len(), self.k, self.class.iter().flat_map(|c| (0..self.k).map(|j| (j == *c) as u8 as f64).collect::<Vec<_>>()).collect::<Vec<_>>()) }
    fn real(&self) -> Vector<f64> { Vector::new(self.y.clone()) }
    fn binary(&self) -> Vector<f64> { Vector::new(self.class.iter().map(|c| (c % 2) as f64).collect::<Vec<_>>()) }
    fn signs(&self) -> Vector<f64> { Vector::new(self.class.iter().map(|c| (c % 2) as f64 * 2.0 - 1.0).collect::<Vec<_>>()) }
    fn counts(&self) -> Vector<f64> { Vector::new(self.y.iter().map(|y| y.abs().floor() + 1.0).collect::<Vec<_>>()) }
    /// The same rows with `by` targets more or fewer.
    fn retarget(&self, m: usize) -> Data {
        let mut t = self.clone();
        t.y = (0..m).map(|i| self.y[i % self.n]).collect();
        t.class = (0..m).map(|i| self.class[i % self.n]).collect();
        t
    }
}
fn rows(c: &mut Case, n: usize, d: usize) -> Vec<f64> {
    match c.rng.below(4) { 0 => c.rng.ints(n * d, 0, 3), 1 => c.rng.uniforms(n * d, 0.0, 1.0), _ => c.rng.normals(n * d, 1.0) }
}
fn data(c: &mut Case, n: usize, d: usize) -> Data {
    let k = c.rng.range(2, 3);
    let mut class: Vec<usize> = (0..n).map(|i| i % k).collect();
    c.rng.shuffle(&mut class);
    let mut x = rows(c, n, d);
    for i in 0..n { for j in 0..d { x[i * d + j] += class[i] as f64 * 0.7; } }
    let y = (0..n).map(|i| x[i * d] * 1.5 + 1.0 + c.rng.normal() * 0.3).collect();
    Data { n, d, x, y, class, k }
}

trait Model {
    fn train(&mut self, t: &Data) -> LearningResult<()>;
    /// One row of numbers per query row.
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>>;
    /// Everything the model lets one read.
    fn state(&self) -> Vec<f64> { vec![] }
    /// Other questions that need a trained model.
    fn others(&self, _x: &Matrix<f64>) -> Vec<(&'static str, LearningResult<Vec<f64>>)> { vec![] }
    /// A change of configuration between trainings.
    fn set(&mut self, _v: usize) {}
}
fn flat(v: Option<&Vector<f64>>) -> Vec<f64> { v.map(|v| v.data().clone()).unwrap_or_default() }
fn flatm(v: Option<&Matrix<f64>>) -> Vec<f64> { v.map(|v| { let mut o = vec![v.rows() as f64, v.cols() as f64]; o.extend(v.data()); o }).unwrap_or_default() }

struct Lin(LinRegressor, bool);
impl Model for Lin {
    fn train(&mut self, t: &Data) -> LearningResult<()> { if self.1 { self.0.train_with_optimization(&t.inputs(), &t.real()); Ok(()) } else { self.0.train(&t.inputs(), &t.real()) } }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.into_vec()) }
    fn state(&self) -> Vec<f64> { flat(self.0.parameters()) }
}
macro_rules! logistic { ($name:ident, $alg:ty) => {
    struct $name(LogisticRegressor<$alg>);
    impl Model for $name {
        fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs(), &t.binary()) }
        fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.into_vec()) }
        fn state(&self) -> Vec<f64> { flat(self.0.parameters()) }
    }
} }
logistic!(LogGd, GradientDesc);
logistic!(LogCg, ConjugateGD);
struct Glm<C: glm::Criterion>(GenLinearModel<C>, u8);
impl<C: glm::Criterion> Model for Glm<C> {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs(), &match self.1 { 0 => t.real(), 1 => t.binary(), _ => t.counts() }) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.into_vec()) }
}
/// A mean that differs from row to row.
struct Slope;
impl MeanFunc for Slope { fn func(&self, x: Matrix<f64>) -> Vector<f64> { Vector::new(x.row_iter().map(|r| 1.0 + r.raw_slice()[0] * 0.5).collect::<Vec<_>>()) } }
struct Gp<K: kernel::Kernel, M: MeanFunc>(GaussianProcess<K, M>);
impl<K: kernel::Kernel, M: MeanFunc> Model for Gp<K, M> {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs(), &t.real()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.into_vec()) }
    fn others(&self, x: &Matrix<f64>) -> Vec<(&'static str, LearningResult<Vec<f64>>)> {
        vec![("get_posterior", self.0.get_posterior(x).map(|(m, c)| { let mut m = m.into_vec(); m.extend(c.into_vec()); m }))]
    }
}
struct Svm<K: kernel::Kernel>(SVM<K>);
impl<K: kernel::Kernel> Model for Svm<K> {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs(), &t.signs()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.into_vec()) }
    fn set(&mut self, v: usize) { self.0.optim_iters = 20 + v; }
}
struct Knn<S: KNearestSearch>(KNNClassifier<S>);
impl<S: KNearestSearch> Model for Knn<S> {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs(), &t.labels()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.data().iter().map(|v| *v as f64).collect()) }
}
/// The search structure on its own.
struct Search<S: KNearestSearch>(S, usize);
impl<S: KNearestSearch> Model for Search<S> {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.build(t.inputs()); Ok(()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> {
        let mut out = vec![];
        for r in x.data().chunks(x.cols()) { let (i, d) = self.0.search(r, self.1)?; for (i, d) in i.iter().zip(&d) { out.push(*i as f64); out.push(*d); } }
        Ok(out)
    }
}
struct Km<I: Initializer>(KMeansClassifier<I>);
impl<I: Initializer> Model for Km<I> {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.data().iter().map(|v| *v as f64).collect()) }
    fn state(&self) -> Vec<f64> { flatm(self.0.centroids().as_ref()) }
    fn set(&mut self, v: usize) { self.0.set_iters(v); }
}
struct Db(DBSCAN);
impl Model for Db {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.data().iter().map(|v| v.map(|v| v as f64).unwrap_or(-1.0)).collect()) }
    fn state(&self) -> Vec<f64> { self.0.clusters().map(|v| v.data().iter().map(|v| v.map(|v| v as f64).unwrap_or(-1.0)).collect()).unwrap_or_default() }
    fn set(&mut self, v: usize) { self.0.set_predictive(v % 4 != 0); }
}
struct Gm(GaussianMixtureModel);
impl Model for Gm {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.into_vec()) }
    fn state(&self) -> Vec<f64> {
        let mut s = flatm(self.0.means());
        if let Some(c) = self.0.covariances() { for c in c { s.extend(flatm(Some(c))); } }
        if !s.is_empty() { s.extend(self.0.mixture_weights().data()); }
        s
    }
    fn set(&mut self, v: usize) { self.0.set_max_iters(v); }
}
struct Nb<D: naive_bayes::Distribution>(NaiveBayes<D>, fn(f64) -> f64, fn(&D) -> Vec<f64>);
impl<D: naive_bayes::Distribution> Nb<D> {
    fn map(&self, x: &Matrix<f64>) -> Matrix<f64> { mat(x.rows(), x.cols(), &x.data().iter().map(|v| (self.1)(*v)).collect::<Vec<_>>()) }
}
impl<D: naive_bayes::Distribution> Model for Nb<D> {
    fn train(&mut self, t: &Data) -> LearningResult<()> { let x = self.map(&t.inputs()); self.0.train(&x, &t.one_hot()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(&self.map(x)).map(|v| v.into_vec()) }
    fn others(&self, x: &Matrix<f64>) -> Vec<(&'static str, LearningResult<Vec<f64>>)> { vec![("get_log_probs", self.0.get_log_probs(&self.map(x)).map(|m| m.into_vec()))] }
    fn state(&self) -> Vec<f64> {
        let mut s = self.0.class_prior().cloned().unwrap_or_default();
        if let Some(d) = self.0.distr() { s.extend((self.2)(d)); }
        s.extend(self.0.cluster_count().map(|c| *c as f64));
        s
    }
}
struct Pc(PCA);
impl Model for Pc {
    fn train(&mut self, t: &Data) -> LearningResult<()> { self.0.train(&t.inputs()) }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { self.0.predict(x).map(|v| v.into_vec()) }
    fn state(&self) -> Vec<f64> { self.0.components().ok().map(|m| flatm(Some(m))).unwrap_or_default() }
    fn others(&self, _: &Matrix<f64>) -> Vec<(&'static str, LearningResult<Vec<f64>>)> { vec![("components", self.0.components().map(|m| m.data().clone()))] }
}
enum Nn { Bce(NeuralNet<BCECriterion, StochasticGD>), Mse(NeuralNet<MSECriterion, GradientDesc>), Ada(NeuralNet<MSECriterion, AdaGrad>), Rms(NeuralNet<BCECriterion, RMSProp>) }
struct Net(Nn, usize);
impl Model for Net {
    fn train(&mut self, t: &Data) -> LearningResult<()> {
        let y = Matrix::new(t.class.len(), self.1, t.class.iter().flat_map(|c| (0..self.1).map(|j| (j == *c) as u8 as f64).collect::<Vec<_>>()).collect::<Vec<_>>());
        match self.0 { Nn::Bce(ref mut m) => m.train(&t.inputs(), &y), Nn::Mse(ref mut m) => m.train(&t.inputs(), &y), Nn::Ada(ref mut m) => m.train(&t.inputs(), &y), Nn::Rms(ref mut m) => m.train(&t.inputs(), &y) }
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Vec<f64>> { match self.0 { Nn::Bce(ref m) => m.predict(x), Nn::Mse(ref m) => m.predict(x), Nn::Ada(ref m) => m.predict(x), Nn::Rms(ref m) => m.predict(x) }.map(|v| v.into_vec()) }
}

/// Model families. The same (family, configuration) always gives the same untrained model.
const FAMILIES: &[&str] = &["least squares", "least squares by gradient descent", "logistic", "logistic by conjugate gradient", "GLM normal", "GLM Bernoulli", "GLM Poisson", "Gaussian process", "SVM",
    "nearest neighbours kd-tree", "nearest neighbours ball tree", "nearest neighbours brute force", "kd-tree search", "ball tree search", "brute force search", "k-means Forgy", "k-means random partition", "k-means++", "DBSCAN",
    "mixture full", "mixture diagonal", "mixture regularized", "naive Bayes Gaussian", "naive Bayes Bernoulli", "naive Bayes multinomial", "PCA", "network"];
const NETWORK: usize = 26;
fn build(f: usize, conf: u64, d: usize) -> Box<dyn Model> {
    let mut r = Rng::new(conf ^ 0x5eed);
    let k = r.range(1, 4);
    let leaf = r.range(1, 6);
    let it = r.range(1, 12);
    match f {
        0 => Box::new(Lin(LinRegressor::default(), false)),
        1 => Box::new(Lin(LinRegressor::default(), true)),
        2 => Box::new(LogGd(LogisticRegressor::new(GradientDesc::new(0.1 + r.unit() * 0.3, it)))),
        3 => Box::new(LogCg(LogisticRegressor::new(ConjugateGD { iters: it, ..ConjugateGD::default() }))),
        4 => Box::new(Glm(GenLinearModel::new(glm::Normal), 0)),
        5 => Box::new(Glm(GenLinearModel::new(glm::Bernoulli), 1)),
        6 => Box::new(Glm(GenLinearModel::new(glm::Poisson), 2)),
        7 => match r.below(3) {
            0 => Box::new(Gp(GaussianProcess::new(kernel::SquaredExp::new(0.5 + r.unit(), 1.0), Slope, 0.05 + r.unit()))),
            1 => Box::new(Gp(GaussianProcess::new(kernel::RationalQuadratic::new(0.5 + r.unit(), 1.0), ConstMean::default(), 0.1))),
            _ => Box::new(Gp(GaussianProcess::new(kernel::Linear::new(1.0), ConstMean::default(), r.below(2) as f64 * 0.5))),
        },
        8 => match r.below(2) {
            0 => { let mut m = SVM::new(kernel::SquaredExp::new(0.5 + r.unit(), 1.0), 0.05 + r.unit()); m.optim_iters = it * 6; Box::new(Svm(m)) }
            _ => { let mut m = SVM::new(kernel::Linear::new(0.0), 0.1 + r.unit()); m.optim_iters = it * 6; Box::new(Svm(m)) }
        },
        9 => Box::new(Knn(KNNClassifier::new_specified(k, KDTree::new(leaf)))),
        10 => Box::new(Knn(KNNClassifier::new_specified(k, BallTree::new(leaf)))),
        11 => Box::new(Knn(KNNClassifier::new_specified(k, BruteForce::new()))),
        12 => Box::new(Search(KDTree::new(leaf), k)),
        13 => Box::new(Search(BallTree::new(leaf), k)),
        14 => Box::new(Search(BruteForce::new(), k)),
        15 => Box::new(Km(KMeansClassifier::new_specified(k, it, Forgy))),
        16 => Box::new(Km(KMeansClassifier::new_specified(k, it, RandomPartition))),
        17 => Box::new(Km(KMeansClassifier::new_specified(k, it, KPlusPlus))),
        18 => { let mut m = DBSCAN::new(0.3 + r.unit() * 2.0, r.range(1, 4)); m.set_predictive(true); Box::new(Db(m)) }
        19 | 20 | 21 => {
            let mut m = if r.bool() { GaussianMixtureModel::new(k) } else { GaussianMixtureModel::with_weights(k, Vector::new((0..k).map(|_| 0.2 + r.unit()).collect::<Vec<_>>())).unwrap() };
            m.cov_option = match f { 19 => CovOption::Full, 20 => CovOption::Diagonal, _ => CovOption::Regularized(0.05 + r.unit()) };
            m.set_max_iters(it);
            Box::new(Gm(m))
        }
        22 => Box::new(Nb(NaiveBayes::<naive_bayes::Gaussian>::new(), |v| v, |d| { let mut s = d.theta().data().clone(); s.extend(d.sigma().data()); s })),
        23 => Box::new(Nb(NaiveBayes::<naive_bayes::Bernoulli>::new(), |v| (v > 0.5) as u8 as f64, |d| d.log_probs().data().clone())),
        24 => Box::new(Nb(NaiveBayes::<naive_bayes::Multinomial>::new(), |v| (v.abs() * 2.0).floor(), |d| d.log_probs().data().clone())),
        25 => Box::new(Pc(if r.chance(0.3) { PCA::default() } else { PCA::new(r.range(1, 3), r.bool()) })),
        _ => {
            let out = r.range(1, 3);
            let h = r.range(1, 4);
            let reg = *r.pick(&[Regularization::None, Regularization::L2(0.1), Regularization::L1(0.05)]);
            Box::new(Net(match r.below(4) {
                0 => Nn::Bce(NeuralNet::mlp(&[d, h, out], BCECriterion::new(reg), StochasticGD::new(0.9, 0.1, it), activ_fn::Sigmoid)),
                1 => { let mut m = NeuralNet::new(MSECriterion::new(reg), GradientDesc::new(0.1, it)); m.add(Box::new(net_layer::Linear::new(d, h))).add(Box::new(activ_fn::Tanh)).add(Box::new(net_layer::Linear::without_bias(h, out))); Nn::Mse(m) }
                2 => Nn::Ada(NeuralNet::mlp(&[d, h, h, out], MSECriterion::new(reg), AdaGrad::new(0.1, 1.0, it), activ_fn::Linear)),
                _ => Nn::Rms(NeuralNet::mlp(&[d, out], BCECriterion::new(reg), RMSProp::new(0.01, 0.9, 1e-6, it), activ_fn::Sigmoid)),
            }, out))
        }
    }
}
fn train(m: &mut dyn Model, t: &Data) -> End { end(guard(|| m.train(t))).0 }
fn ask(m: &dyn Model, x: &Matrix<f64>) -> (End, Option<Vec<f64>>) { end(guard(|| m.predict(x))) }
fn bits(v: &Option<Vec<f64>>) -> Option<Vec<u64>> { v.as_ref().map(|v| v.iter().map(|x| if x.is_nan() { !0 } else { x.to_bits() }).collect()) }
/// Everything observable about a model: its parameters and what it answers.
#[derive(Debug)]
struct View { state: Vec<f64>, end: End, answer: Option<Vec<f64>>, others: Vec<(&'static str, End, Option<Vec<f64>>)> }
fn view(m: &dyn Model, x: &Matrix<f64>) -> View {
    let (e, a) = ask(m, x);
    // a panic in one of the other questions counts for all of them
    let others = match guard(|| m.others(x)) { Ok(o) => o.into_iter().map(|(n, r)| { let (e, a) = end(Ok(r)); (n, e, a) }).collect(), Err(p) => vec![("other", End::Panic(p), None)] };
    View { state: m.state(), end: e, answer: a, others }
}
impl View {
    fn same(&self, o: &View) -> bool {
        bits(&Some(self.state.clone())) == bits(&Some(o.state.clone())) && self.end.same(&o.end) && bits(&self.answer) == bits(&o.answer) && self.others.len() == o.others.len()
            && self.others.iter().zip(&o.others).all(|(a, b)| a.0 == b.0 && a.1.same(&b.1) && bits(&a.2) == bits(&b.2))
    }
}
/// Shapes on which the family can usually be trained.
fn fit_shape(c: &mut Case, f: usize) -> (usize, usize) {
    let d = c.rng.range(1, 4);
    match f { 25 => (c.rng.range(2, 9), d), _ => (c.rng.range(d + 5, 24), d) }
}
/// A trained model, its data, and its untrained twin; None when this training ends in an error.
fn trained(c: &mut Case, f: usize, conf: u64) -> Option<(Box<dyn Model>, Data)> {
    let (n, d) = fit_shape(c, f);
    let t = data(c, n, d);
    c.reseed(conf ^ 1);
    let mut m = build(f, conf, d);
    match train(&mut *m, &t) { End::Ok => Some((m, t)), _ => None }
}

fn e01(cx: &mut Ctx) {
    cx.rule("Every model family (27 variants) in random configurations: questions before training, after training with another column count (also with the same total size), trainings with too many or too few targets and with unusable data, each followed by a comparison of everything observable with what it was before; transformers on data of another width, networks whose layers do not line up, bare searches that cannot be answered. Non-trivial: a model that was refused something, identified by family, configuration and data.");
    for (f, name) in FAMILIES.iter().enumerate() {
        cx.group(name, 60, 2500, |c| {
            let conf = c.rng.u64();
            // before training
            let (n, d) = (c.rng.range(1, 6), c.rng.range(1, 4));
            let q = mat(n, d, &rows(c, n, d));
            if f != NETWORK {
                let m = build(f, conf, d);
                let v = view(&*m, &q);
                ensure!(v.end == End::Err("UntrainedModel".into()), "{}: an untrained model asked for predictions ends with {:?} {:?}", name, v.end, v.answer);
                for (w, e, a) in &v.others { ensure!(*e == End::Err("UntrainedModel".into()), "{}: an untrained model asked for {} ends with {:?} {:?}", name, w, e, a); }
                ensure!(v.state.is_empty(), "{}: an untrained model has parameters {:?}", name, v.state);
                c.count("untrained questions refused", 1 + v.others.len() as u64);
            }
            let (mut m, t) = match trained(c, f, conf) { Some(x) => x, None => { c.count("trainings that ended in an error", 1); return Ok(()); } };
            let q = c.rng.range(1, 6);
            let q = mat(q, t.d, &rows(c, q, t.d));
            let before = view(&*m, &q);
            // a mixture component may have become degenerate in the last step of the training
            if (f == 19 || f == 20) && before.end == End::Err("LinearAlgebra".into()) { c.count("degenerate mixtures", 1); return Ok(()); }
            ensure!(before.end == End::Ok, "{}: trained on {} x {}, predictions for {} rows end with {:?}", name, t.n, t.d, q.rows(), before.end);
            // another column count
            for _ in 0..3 {
                let (r, w) = match c.rng.below(4) {
                    0 if t.d > 1 => (c.rng.range(1, 4), t.d - 1),
                    1 => (c.rng.range(1, 4), t.d * 2),
                    2 if t.d > 1 => (t.d * c.rng.range(1, 3), 1),
                    _ => (c.rng.range(1, 4), t.d + 1),
                };
                let bad = mat(r, w, &rows(c, r, w));
                let v = view(&*m, &bad);
                ensure!(v.end != End::Ok, "{}: trained on {} columns, {} rows of {} columns get the answer {:?}", name, t.d, r, w, v.answer);
                for (what, e, a) in &v.others { ensure!(*what == "components" || *e != End::Ok, "{}: trained on {} columns, {} for {} columns gives {:?}", name, t.d, what, w, a); }
                c.count(if matches!(v.end, End::Panic(_)) { "widths refused by a panic" } else { "widths refused by an error" }, 1);
                ensure!(view(&*m, &q).same(&before), "{}: answers change after a refused question", name);
            }
            // unusable trainings
            let supervised = !matches!(f, 12..=21 | 25);
            for _ in 0..2 {
                let (bad, want, what) = match c.rng.below(3) {
                    0 | 1 if supervised => {
                        let k = if c.rng.bool() { t.n + c.rng.range(1, 3) } else { t.n - c.rng.range(1, t.n - 1) };
                        let what = format!("{} rows with {} targets", t.n, k);
                        (t.retarget(k), match f { 4..=6 | 8..=11 | 22..=24 | NETWORK => Some("InvalidData"), _ => None }, what)
                    }
                    _ => match f {
                        9..=11 | 15..=17 => {
                            let k = { let mut r = Rng::new(conf ^ 0x5eed); r.range(1, 4) };
                            if k == 1 { continue; }
                            (data(c, k - 1, t.d), Some("InvalidData"), format!("{} rows for k = {}", k - 1, k))
                        }
                        19..=21 => (data(c, 1, t.d), Some("InvalidData"), "one row".to_string()),
                        22 => { let mut b = data(c, t.n, t.d); b.class = vec![0; t.n]; b.class[0] = 1; (b, Some("InvalidData"), "a class of one row".to_string()) }
                        23 | 24 => { let mut b = data(c, t.n, t.d); b.class[0] = 99; (b, Some("InvalidState"), "a row without a class".to_string()) }
                        25 => {
                            // as many components as `build` asked for
                            let n = { let mut r = Rng::new(conf ^ 0x5eed); r.range(1, 4); r.range(1, 6); r.range(1, 12); if r.chance(0.3) { 0 } else { r.range(1, 3) } };
                            if n < 2 { continue; }
                            (data(c, t.n, n - 1), Some("InvalidData"), format!("{} columns for {} components", n - 1, n))
                        }
                        _ => continue,
                    },
                };
                let e = train(&mut *m, &bad);
                match want {
                    Some(k) => ensure!(e == End::Err(k.into()), "{}: training with {} ends with {:?} instead of {}", name, what, e, k),
                    None => ensure!(e != End::Ok, "{}: training with {} is accepted", name, what),
                }
                c.count(if matches!(e, End::Panic(_)) { "trainings refused by a panic" } else { "trainings refused by an error" }, 1);
                ensure!(view(&*m, &q).same(&before), "{}: the model differs after a refused training with {}", name, what);
            }
            // and it can still be trained
            let t2 = data(c, t.n, t.d);
            let mut fresh = build(f, conf, t.d);
            c.reseed(3);
            let e1 = if f == NETWORK { train(&mut *m, &t2) } else { train(&mut *fresh, &t2) };
            if f != NETWORK {
                c.reseed(3);
                let e2 = train(&mut *m, &t2);
                ensure!(e1.same(&e2) && (e1 != End::Ok || view(&*m, &q).same(&view(&*fresh, &q))), "{}: after refusals, training ends with {:?}, a fresh model's with {:?}", name, e2, e1);
            } else { ensure!(e1 == End::Ok, "{}: after refusals, training ends with {:?}", name, e1); }
            c.seen(hash_f64s(&t.x) ^ conf ^ f as u64);
            c.sample(|| format!("{}: trained on {} x {}, answers {:?}", name, t.n, t.d, before.answer));
            Ok(())
        });
    }
    cx.group("DBSCAN states", 200, 4000, |c| {
        let (n, d) = (c.rng.range(1, 20), c.rng.range(1, 3));
        let x = mat(n, d, &rows(c, n, d));
        let mut m = DBSCAN::new(0.2 + c.rng.unit(), c.rng.range(1, 4));
        // 0: not predictive, 1: predictive without rows to predict from, 2: with
        let (mut predictive, mut kept) = (false, false);
        for _ in 0..8 {
            match c.rng.below(3) {
                0 => { predictive = c.rng.bool(); m.set_predictive(predictive); }
                1 => { m.train(&x).map_err(|e| e.to_string())?; kept = predictive; }
                _ => {
                    let e = end(guard(|| m.predict(&x))).0;
                    let want = if !predictive { End::Err("InvalidState".into()) } else if !kept { End::Err("UntrainedModel".into()) } else { End::Ok };
                    ensure!(e == want, "predictive: {}, rows kept: {}: predicting ends with {:?}", predictive, kept, e);
                    c.count("state questions", 1);
                }
            }
        }
        c.seen(c.seed);
        Ok(())
    });
    cx.group("parameters", 200, 4000, |c| {
        // documented refusals of configurations
        let k = c.rng.range(1, 5);
        let mut w: Vec<f64> = (0..k).map(|_| c.rng.unit() + 0.1).collect();
        let r = GaussianMixtureModel::with_weights(k, Vector::new(w.clone())).map_err(|e| e.to_string())?;
        let s: f64 = w.iter().sum();
        ensure!(all_close(r.mixture_weights().data(), &w.iter().map(|v| v / s).collect::<Vec<_>>(), 1e-12, 0.0), "weights {:?} become {:?}", w, r.mixture_weights());
        let e = end(guard(|| GaussianMixtureModel::with_weights(k + 1, Vector::new(w.clone())))).0;
        ensure!(e == End::Err("InvalidParameters".into()), "{} weights for {} components: {:?}", k, k + 1, e);
        if k > 1 { let e = end(guard(|| GaussianMixtureModel::with_weights(k - 1, Vector::new(w.clone())))).0; ensure!(e == End::Err("InvalidParameters".into()), "{} weights for {} components: {:?}", k, k - 1, e); }
        let i = c.rng.below(k);
        w[i] = -c.rng.logu(-300.0, 2.0);
        let e = end(guard(|| GaussianMixtureModel::with_weights(k, Vector::new(w.clone())))).0;
        ensure!(e == End::Err("InvalidParameters".into()), "weights {:?}: {:?}", w, e);
        let eps = -c.rng.logu(-300.0, 2.0) * c.rng.below(2) as f64;
        ensure!(guard(|| DBSCAN::new(eps, 2)).is_err(), "DBSCAN accepts eps {:e}", eps);
        ensure!(guard(|| DBSCAN::new(-eps + 1e-300, 2)).is_ok(), "DBSCAN refuses eps {:e}", -eps + 1e-300);
        let bad = -c.rng.logu(-300.0, 2.0);
        for (what, r) in [
            ("gradient descent, step", guard(|| { GradientDesc::new(bad, 5); })), ("stochastic, step", guard(|| { StochasticGD::new(0.5, bad, 5); })), ("stochastic, momentum", guard(|| { StochasticGD::new(bad, 0.1, 5); })),
            ("AdaGrad, step", guard(|| { AdaGrad::new(bad, 1.0, 5); })), ("AdaGrad, offset", guard(|| { AdaGrad::new(0.1, bad, 5); })),
            ("RMSProp, rate", guard(|| { RMSProp::new(bad, 0.9, 1e-3, 5); })), ("RMSProp, decay", guard(|| { RMSProp::new(0.1, bad, 1e-3, 5); })),
        ] { ensure!(r.is_err(), "{} {:e} is accepted", what, bad); }
        c.count("unusable parameters refused", 11);
        c.seen(c.seed);
        Ok(())
    });
    cx.group("searches", 150, 3000, |c| {
        // searches that cannot be answered
        let (n, d) = (c.rng.size(1, 12, 60), c.rng.range(1, 4));
        let x = Matrix::new(n, d, c.rng.normals(n * d, 1.0));
        let leaf = c.rng.range(1, 8);
        unusable_searches(c, "kd-tree", KDTree::new(leaf), &x)?;
        unusable_searches(c, "ball tree", BallTree::new(leaf), &x)?;
        unusable_searches(c, "brute force", BruteForce::new(), &x)?;
        c.seen(c.seed);
        Ok(())
    });
    cx.group("transformers", 200, 4000, |c| {
        let (n, d) = (c.rng.range(2, 12), c.rng.range(1, 5));
        let x = mat(n, d, &c.rng.normals(n * d, 1.0));
        let w = if d > 1 && c.rng.bool() { c.rng.range(1, d - 1) } else { d + c.rng.range(1, 3) };
        let r = c.rng.range(1, 4);
        let wrong = mat(r, w, &c.rng.normals(r * w, 1.0));
        macro_rules! refusing { ($name:expr, $t:expr) => {
            let mut t = $t.map_err(|e| format!("{}: fitting fails: {}", $name, e))?;
            let good = t.transform(x.clone()).map_err(|e| format!("{}: {}", $name, e))?;
            let back = t.inv_transform(good.clone()).map_err(|e| format!("{}: {}", $name, e))?;
            for inverse in [false, true] {
                let e = if inverse { end(guard(|| t.inv_transform(wrong.clone()))) } else { end(guard(|| t.transform(wrong.clone()))) };
                ensure!(matches!(e.0, End::Panic(_)) || e.0 == End::Err("InvalidData".into()), "{}: {} columns after fitting {}, inverse {}: {:?} {:?}", $name, w, d, inverse, e.0, e.1);
                let (again, back2) = (t.transform(x.clone()), t.inv_transform(good.clone()));
                ensure!(matches!(again, Ok(ref m) if *m == good) && matches!(back2, Ok(ref m) if *m == back), "{}: after a refusal the same data give {:?} and {:?}, before {:?} and {:?}", $name, again, back2, good, back);
                c.count("transformer refusals", 1);
            }
        } }
        refusing!("min-max", MinMaxFitter::new(-1.0, 2.0).fit(&x) as LearningResult<MinMaxScaler<f64>>);
        refusing!("standardizer", StandardizerFitter::new(0.5, 2.0).fit(&x) as LearningResult<Standardizer<f64>>);
        // a row that is not finite has no direction; the normalizer goes on afterwards
        let mut t = Normalizer::<f64, _>::new(Euclidean);
        let good = t.transform(x.clone()).map_err(|e| e.to_string())?;
        let mut z = x.clone();
        let i = c.rng.below(n);
        let v = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        for j in 0..d { z[[i, j]] = v; }
        let e = end(guard(|| t.transform(z)));
        ensure!(matches!(e.0, End::Panic(_)) || e.0 == End::Err("InvalidData".into()), "normalizer: a row of {:?}: {:?} {:?}", v, e.0, e.1);
        let again = t.transform(x.clone());
        ensure!(matches!(again, Ok(ref m) if *m == good), "normalizer: after a refusal the same data give {:?}, before {:?}", again, good);
        c.count("transformer refusals", 1);
        c.seen(hash_f64s(x.data()));
        Ok(())
    });
    cx.group("networks", 200, 4000, |c| {
        let (i, h, o) = (c.rng.range(1, 4), c.rng.range(1, 4), c.rng.range(1, 3));
        let n = c.rng.range(1, 6);
        let mut net = NeuralNet::mlp(&[i, h, o], MSECriterion::default(), StochasticGD::default(), activ_fn::Sigmoid);
        let x = mat(n, i, &c.rng.normals(n * i, 1.0));
        let before = net.predict(&x).map_err(|e| e.to_string())?;
        let w = if i > 1 && c.rng.bool() { c.rng.range(1, i - 1) } else { i + c.rng.range(1, 3) };
        let wrong = mat(n, w, &c.rng.normals(n * w, 1.0));
        let e = end(guard(|| net.predict(&wrong)));
        ensure!(e.0 == End::Err("InvalidData".into()), "a network of {} inputs asked about {} columns: {:?} {:?}", i, w, e.0, e.1);
        // fewer or more targets than inputs
        let r = if n > 1 && c.rng.bool() { n - 1 } else { n + 1 };
        let y = mat(r, o, &c.rng.uniforms(r * o, 0.0, 1.0));
        let e = end(guard(|| net.train(&x, &y)));
        ensure!(e.0 == End::Err("InvalidData".into()), "{} inputs and {} targets: {:?}", n, r, e.0);
        let after = net.predict(&x);
        ensure!(matches!(after, Ok(ref m) if *m == before), "after refusals a network answers {:?}, before {:?}", after, before);
        // layers that do not line up
        let gap = h + c.rng.range(1, 3);
        let (a, b) = if c.rng.bool() { (h, gap) } else { (gap, h) };
        let mut net = NeuralNet::new(BCECriterion::default(), StochasticGD::default());
        net.add(Box::new(net_layer::Linear::new(i, a)));
        if c.rng.bool() { net.add(Box::new(activ_fn::Sigmoid)); }
        net.add(Box::new(net_layer::Linear::new(b, o)));
        let e = end(guard(|| net.predict(&x)));
        ensure!(e.0 == End::Err("InvalidParameters".into()), "layers of {} outputs and {} inputs: {:?} {:?}", a, b, e.0, e.1);
        c.count("network refusals", 3);
        c.seen(hash_f64s(x.data()));
        Ok(())
    });
    cx.group("errors", 60, 600, |c| {
        // an error keeps its kind and its message
        let text = format!("message {}", c.rng.u64());
        for k in 0..5 {
            let mk = || match k { 0 => ErrorKind::InvalidParameters, 1 => ErrorKind::InvalidData, 2 => ErrorKind::InvalidState, 3 => ErrorKind::UntrainedModel, _ => ErrorKind::LinearAlgebra };
            let e = Error::new(mk(), text.clone());
            ensure!(format!("{:?}", e.kind()) == format!("{:?}", mk()) && e.to_string() == text, "an error of kind {:?} with {:?} shows as {:?} {}", mk(), text, e.kind(), e);
        }
        let e = Error::new_untrained();
        ensure!(format!("{:?}", e.kind()) == "UntrainedModel", "new_untrained is {:?}", e.kind());
        let e: Error = rulinalg::error::Error::new(rulinalg::error::ErrorKind::DivByZero, "some failure").into();
        ensure!(format!("{:?}", e.kind()) == "LinearAlgebra" && e.to_string().contains("some failure"), "a linear algebra error shows as {:?} {}", e.kind(), e);
        c.count("error kinds", 7);
        c.seen(c.seed);
        Ok(())
    });
}

fn unusable_searches<S: KNearestSearch>(c: &mut Case, name: &str, mut s: S, x: &Matrix<f64>) -> Verdict {
    let (n, d) = (x.rows(), x.cols());
    let q = c.rng.normals(d, 1.0);
    let r = end(guard(|| s.search(&q, 1)));
    ensure!(r.0 == End::Err("UntrainedModel".into()), "{} search without data: {:?}", name, r.0);
    s.build(x.clone());
    let good = end(guard(|| s.search(&q, n.min(3))));
    ensure!(good.1.is_some(), "{} search for {} of {} rows: {:?}", name, n.min(3), n, good.0);
    let more = n + c.rng.range(1, 4);
    for (k, w) in [(0, d), (1, d + 1), (1, d - 1), (n, d + 2), (more, d)] {
        let q: Vec<f64> = c.rng.normals(w, 1.0);
        let r = end(guard(|| s.search(&q, k)));
        // a bare search may answer with all rows there are
        let all = k > n && w == d && matches!(r.1, Some((ref i, _)) if { let mut i = i.clone(); i.sort(); i == (0..n).collect::<Vec<_>>() });
        ensure!(r.1.is_none() || all, "{} search for {} of {} rows at a point of {} columns where the data have {}: {:?}", name, k, n, w, d, r.1);
        c.count("unusable searches refused", 1);
    }
    let again = end(guard(|| s.search(&q, n.min(3))));
    ensure!(again.1 == good.1, "{} search after refusals: {:?} instead of {:?}", name, again.1, good.1);
    Ok(())
}

fn e02(cx: &mut Ctx) {
    cx.rule("Histories of up to five trainings per model on data sets of different shapes (some unusable), with predictions, refused questions and configuration changes in between, for every family but networks; after each training everything observable is compared bit by bit with a fresh model of the same configuration trained only on the last data from the same random stream. Non-trivial: a second or later successful training, identified by family, configuration and data.");
    for (f, name) in FAMILIES.iter().enumerate() {
        if f == NETWORK { continue; }
        cx.group(name, 60, 2500, |c| {
            let conf = c.rng.u64();
            let mut m = build(f, conf, 2);
            let mut setting = None;
            let mut good = 0;
            let steps = c.rng.range(2, 5);
            for step in 0..steps {
                let (n, d) = if c.rng.chance(0.2) { (c.rng.range(1, 5), c.rng.range(1, 4)) } else if c.rng.chance(0.12) { let d = c.rng.range(5, 14); (c.rng.range(d, d + 30), d) } else { fit_shape(c, f) };
                let mut t = data(c, n, d);
                if c.rng.chance(if d > 4 { 0.5 } else { 0.15 }) {
                    // a column twice, constant, or all rows alike: singular for many models
                    let (a, b) = (c.rng.below(d), c.rng.below(d));
                    let how = c.rng.below(3);
                    for i in 0..n { t.x[i * d + a] = if how == 0 { 1.0 } else { t.x[i * d + b] }; }
                    if how == 2 { for i in 1..n { for j in 0..d { t.x[i * d + j] = t.x[j]; } } }
                }
                if c.rng.chance(0.1) { t.class[0] = 99; }
                if c.rng.chance(0.3) { let v = c.rng.range(1, 15); setting = Some(v); m.set(v); }
                let q = c.rng.range(1, 5);
                let q = mat(q, d, &rows(c, q, d));
                let before = view(&*m, &q);
                let salt = c.rng.u64();
                c.reseed(salt);
                let e1 = train(&mut *m, &t);
                let mut fresh = build(f, conf, 2);
                if let Some(v) = setting { fresh.set(v); }
                c.reseed(salt);
                let e2 = train(&mut *fresh, &t);
                ensure!(e1.same(&e2), "{}: training {} on {} x {} ends with {:?}, a fresh model's with {:?}", name, step, n, d, e1, e2);
                let (v1, v2) = (view(&*m, &q), view(&*fresh, &q));
                match e1 {
                    End::Ok => {
                        ensure!(v1.same(&v2), "{}: after training {} on {} x {} the model is {:?}, a fresh one {:?}", name, step, n, d, v1, v2);
                        if step > 0 { good += 1; }
                        c.count("trainings compared", 1);
                    }
                    End::Err(_) => {
                        ensure!(v1.same(&before) || v1.same(&v2), "{}: after the failed training {} on {} x {} the model is {:?}, neither as before ({:?}) nor as a fresh one ({:?})", name, step, n, d, v1, before, v2);
                        c.count("failed trainings compared", 1);
                    }
                    // what a panic leaves behind is not promised
                    End::Panic(_) => { c.count("trainings that panicked", 1); return Ok(()); }
                }
                if c.rng.chance(0.3) { let w = mat(1, d + 1, &rows(c, 1, d + 1)); ask(&*m, &w); }
            }
            if good > 0 { c.seen(c.seed); }
            c.sample(|| format!("{}: {} trainings, {} compared after an earlier one", name, steps, good));
            Ok(())
        });
    }
}

/// Answers compared: discrete ones exactly, others up to rounding.
fn alike(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x.is_nan() && y.is_nan()) || close(*x, *y, 1e-9, 1e-12)) }
fn e03(cx: &mut Ctx) {
    cx.rule("Every family (27 variants) trained once; batches of 0..12 query rows (new rows, training rows, repeated rows) asked as a whole, again, row by row, split in two and in another order. Non-trivial: a batch of two or more rows, identified by family, configuration and batch.");
    for (f, name) in FAMILIES.iter().enumerate() {
        cx.group(name, 80, 3500, |c| {
            let conf = c.rng.u64();
            let (m, t) = match trained(c, f, conf) { Some(x) => x, None => { c.count("trainings that ended in an error", 1); return Ok(()); } };
            let d = t.d;
            // small batches, and each size from 13 to 52 once
            let n = if c.index % 2 == 1 && c.index < 80 { 13 + c.index as usize / 2 } else { c.rng.size(1, 12, 2000) };
            let mut x = vec![];
            for i in 0..n {
                let row = match c.rng.below(4) {
                    0 => { let r = c.rng.below(t.n); t.x[r * d..(r + 1) * d].to_vec() }
                    1 if i > 0 => { let r = c.rng.below(i); x[r * d..(r + 1) * d].to_vec() }
                    2 => c.rng.normals(d, 8.0),
                    _ => rows(c, 1, d),
                };
                x.extend(row);
            }
            let state = m.state();
            let one = |x: &[f64]| -> Result<Vec<f64>, String> { let (e, a) = ask(&*m, &mat(x.len() / d, d, x)); a.ok_or(format!("{}: predicting {} rows ends with {:?}", name, x.len() / d, e)) };
            if (f == 19 || f == 20) && ask(&*m, &mat(n, d, &x)).0 == End::Err("LinearAlgebra".into()) { c.count("degenerate mixtures", 1); return Ok(()); }
            let all = one(&x)?;
            ensure!(all.len() % n == 0 && !all.is_empty(), "{}: {} numbers for {} rows", name, all.len(), n);
            let w = all.len() / n;
            ensure!(f >= 12 && f <= 14 || f >= 19 || w == 1, "{}: {} answers for {} rows", name, all.len(), n);
            for _ in 0..2 { let again = one(&x)?; ensure!(bits(&Some(again.clone())) == bits(&Some(all.clone())), "{}: the same question gets {:?}, then {:?}", name, all, again); }
            let mut single = vec![];
            for r in x.chunks(d) { single.extend(one(r)?); }
            ensure!(alike(&all, &single), "{}: together {:?}, row by row {:?}", name, all, single);
            let p = c.rng.perm(n);
            let px: Vec<f64> = p.iter().flat_map(|i| x[i * d..(i + 1) * d].to_vec()).collect();
            let want: Vec<f64> = p.iter().flat_map(|i| all[i * w..(i + 1) * w].to_vec()).collect();
            let got = one(&px)?;
            ensure!(alike(&got, &want), "{}: in the order {:?} {:?}, before {:?}", name, p, got, want);
            let s = c.rng.range(1, n);
            let mut parts = one(&x[..s * d])?;
            if s < n { parts.extend(one(&x[s * d..])?); }
            ensure!(alike(&parts, &all), "{}: split after {} rows {:?}, together {:?}", name, s, parts, all);
            // every row twice
            let dx: Vec<f64> = x.chunks(d).flat_map(|r| [r, r].concat()).collect();
            let want: Vec<f64> = all.chunks(w).flat_map(|r| [r, r].concat()).collect();
            ensure!(alike(&one(&dx)?, &want), "{}: doubled rows get other answers", name);
            ensure!(bits(&Some(m.state())) == bits(&Some(state)), "{}: predicting changes the model", name);
            // and in the end the same as in the beginning
            ensure!(bits(&Some(one(&x)?)) == bits(&Some(all.clone())), "{}: the same question gets another answer later", name);
            c.count("rows asked", (7 * n) as u64);
            if n > 1 { c.seen(hash_f64s(&x) ^ conf); }
            c.sample(|| format!("{}: {} x {} -> {:?}", name, n, d, all));
            Ok(())
        });
    }
}

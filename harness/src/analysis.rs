//! Cross-validation, scores and confusion matrices.
use crate::util::*;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::analysis::score::{accuracy, f1, neg_mean_squared_error, precision, recall, row_accuracy};
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::{LearningResult, SupModel};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use std::cell::RefCell;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("V01", v01), ("V02", v02), ("V03", v03)];

#[derive(Clone, Debug)]
enum Ev { Train(Matrix<f64>, Matrix<f64>), Predict(Matrix<f64>), Score(Matrix<f64>, Matrix<f64>) }
/// A model that logs what it is asked to do and fails on request.
struct Spy<'a> { log: &'a RefCell<Vec<Ev>>, fail_train: Option<usize>, fail_predict: Option<usize>, trained: usize, predicted: RefCell<usize> }
impl<'a> SupModel<Matrix<f64>, Matrix<f64>> for Spy<'a> {
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> {
        self.log.borrow_mut().push(Ev::Train(x.clone(), y.clone()));
        self.trained += 1;
        if self.fail_train == Some(self.trained - 1) { return Err(Error::new(ErrorKind::InvalidData, format!("training {}", self.trained - 1))); }
        Ok(())
    }
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        self.log.borrow_mut().push(Ev::Predict(x.clone()));
        *self.predicted.borrow_mut() += 1;
        let k = *self.predicted.borrow() - 1;
        if self.fail_predict == Some(k) { return Err(Error::new(ErrorKind::InvalidState, format!("prediction {}", k))); }
        // says which training answered: 1e6 * trainings + the identity of the row
        Ok(Matrix::new(x.rows(), 1, (0..x.rows()).map(|r| 1e6 * self.trained as f64 + x.data()[r * x.cols()]).collect::<Vec<_>>()))
    }
}
/// Row i of the inputs starts with i (further columns repeat it scaled), its target starts with -i.
fn tagged(c: &mut Case, n: usize) -> (Matrix<f64>, Matrix<f64>) {
    let (a, b) = (c.rng.range(1, 3), c.rng.range(1, 3));
    (Matrix::new(n, a, (0..n * a).map(|k| (k / a) as f64 + 1000.0 * (k % a) as f64).collect::<Vec<_>>()), Matrix::new(n, b, (0..n * b).map(|k| -((k / b) as f64) - 1000.0 * (k % b) as f64).collect::<Vec<_>>()))
}
/// The identities of the rows, which must be rows of `m` (or an error).
fn ids(part: &Matrix<f64>, whole: &Matrix<f64>, sign: f64, what: &str) -> Result<Vec<usize>, String> {
    let d = whole.cols();
    if part.cols() != d { return Err(format!("{}: {} columns instead of {}", what, part.cols(), d)); }
    part.data().chunks(d).map(|r| {
        let i = (r[0] * sign) as usize;
        if r[0] * sign < 0.0 || i >= whole.rows() || *r != whole.data()[i * d..(i + 1) * d] { return Err(format!("{}: {:?} is no row of the data", what, r)); }
        Ok(i)
    }).collect()
}
fn validate(c: &mut Case, n: usize, k: usize) -> Verdict {
    let (x, y) = tagged(c, n);
    let log = RefCell::new(vec![]);
    let fault = c.rng.below(6);
    let at = c.rng.below(k);
    let mut m = Spy { log: &log, fail_train: if fault == 0 { Some(at) } else { None }, fail_predict: if fault == 1 { Some(at) } else { None }, trained: 0, predicted: RefCell::new(0) };
    let calls = RefCell::new(0u64);
    let salt = c.rng.u64();
    let res = k_fold_validate(&mut m, &x, &y, k, |o, t| { log.borrow_mut().push(Ev::Score(o.clone(), t.clone())); *calls.borrow_mut() += 1; (mix(salt ^ *calls.borrow()) >> 12) as f64 });
    let log = log.into_inner();
    let what = format!("{} rows in {} folds", n, k);
    let folds = match fault { 0 | 1 => at + 1, _ => k };
    // train, predict, score, in this order, for each fold; nothing after a failure
    let mut tested = vec![0u32; n];
    let mut sizes = vec![];
    let mut pos = 0;
    for f in 0..folds {
        let w = format!("{}, fold {}", what, f);
        let (tx, ty) = match log.get(pos) { Some(Ev::Train(a, b)) => (a, b), o => return Err(format!("{}: expected a training, saw {:?}", w, o)) };
        pos += 1;
        let (ix, iy) = (ids(tx, &x, 1.0, &w)?, ids(ty, &y, -1.0, &w)?);
        ensure!(ix == iy, "{}: training pairs rows {:?} with targets {:?}", w, ix, iy);
        let failed = fault == 0 && f == at;
        let test = if failed { None } else {
            let px = match log.get(pos) { Some(Ev::Predict(a)) => a, o => return Err(format!("{}: expected a prediction, saw {:?}", w, o)) };
            pos += 1;
            Some(ids(px, &x, 1.0, &w)?)
        };
        let mut train_set = vec![false; n];
        for i in &ix { ensure!(!train_set[*i], "{}: row {} is in the training set twice", w, i); train_set[*i] = true; }
        if let Some(ref test) = test {
            for i in test {
                ensure!(!train_set[*i], "{}: row {} is tested by a model trained on it", w, i);
                tested[*i] += 1;
            }
            ensure!(ix.len() + test.len() == n, "{}: {} training and {} test rows", w, ix.len(), test.len());
            sizes.push(test.len());
        } else { sizes.push(n - ix.len()); }
        if failed || fault == 1 && f == at { continue; }
        let (so, st) = match log.get(pos) { Some(Ev::Score(a, b)) => (a, b), o => return Err(format!("{}: expected a score, saw {:?}", w, o)) };
        pos += 1;
        let test = test.unwrap();
        ensure!(so.data().len() == test.len() && so.data().iter().zip(&test).all(|(o, i)| *o == 1e6 * (f + 1) as f64 + *i as f64), "{}: the scored outputs {:?} are not the answers for {:?}", w, so.data(), test);
        let it = ids(st, &y, -1.0, &w)?;
        ensure!(it == test, "{}: outputs of rows {:?} are scored against the targets of {:?}", w, test, it);
    }
    ensure!(pos == log.len(), "{}: {:?} happens after the last fold", what, log[pos]);
    ensure!(sizes.iter().all(|s| *s == n / k || *s == n / k + 1), "{}: test sets of {:?} rows", what, sizes);
    if folds == k && fault > 1 {
        ensure!(tested.iter().all(|t| *t == 1), "{}: rows are tested {:?} times", what, tested);
        let got = res.map_err(|e| format!("{}: {}", what, e))?;
        let want: Vec<f64> = (0..k).map(|f| (mix(salt ^ (f as u64 + 1)) >> 12) as f64).collect();
        ensure!(got == want, "{}: scores {:?}, the folds gave {:?}", what, got, want);
    } else {
        let e = match res { Err(e) => e, Ok(v) => return Err(format!("{}: the failure in fold {} is swallowed, scores {:?}", what, at, v)) };
        let want = if fault == 0 { ("InvalidData", format!("training {}", at)) } else { ("InvalidState", format!("prediction {}", at)) };
        ensure!(format!("{:?}", e.kind()) == want.0 && format!("{}", e).contains(&want.1), "{}: the failure of {} is reported as {:?}", what, want.1, e);
        c.count("injected failures", 1);
    }
    c.count("folds", folds as u64);
    c.count("events", log.len() as u64);
    if k >= 2 && n >= 3 { c.seen(salt ^ hash_usizes(&[n, k])); }
    c.sample(|| format!("{}: test sets of {:?} rows, {} events, fault {}", what, sizes, log.len(), fault));
    Ok(())
}
fn v01(cx: &mut Ctx) {
    cx.rule("Every (rows, folds) up to 40 rows (60 thorough) and random larger ones, rows and targets with identities, a recording model that fails on request in a chosen fold, scores that identify the call; partition frequencies for small cases. Non-trivial: three or more rows, identified by case.");
    let top = if cx.thorough { 60 } else { 40 };
    let combos: Vec<(usize, usize)> = (2..=top).flat_map(|n| (2..=n).map(move |k| (n, k))).collect();
    let m = combos.len() as u64;
    cx.group("every size", m, m * 20, |c| { let (n, k) = combos[c.index as usize % combos.len()]; validate(c, n, k) });
    cx.group("large", 60, 1500, |c| { let n = if c.rng.chance(0.1) { c.rng.range(400, 3000) } else { c.rng.range(41, 400) }; let k = if n > 400 { c.rng.range(2, 12) } else if c.rng.chance(0.1) { n } else if c.rng.chance(0.2) { c.rng.range(41, n) } else { c.rng.range(2, 40) }; validate(c, n, k) });
    cx.group("uniform", 6, 30, |c| {
        let (n, k) = *c.rng.pick(&[(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (5, 3), (4, 4)]);
        let (x, y) = tagged(c, n);
        let mut counts = std::collections::BTreeMap::new();
        let trials = if c.thorough { 40_000 } else { 8_000 };
        for _ in 0..trials {
            let log = RefCell::new(vec![]);
            let mut m = Spy { log: &log, fail_train: None, fail_predict: None, trained: 0, predicted: RefCell::new(0) };
            k_fold_validate(&mut m, &x, &y, k, |_, _| 0.0).map_err(|e| e.to_string())?;
            let mut fold_of = vec![0; n];
            let mut f = 0;
            for e in log.borrow().iter() { if let Ev::Predict(p) = e { for i in ids(p, &x, 1.0, "uniform")? { fold_of[i] = f; } f += 1; } }
            *counts.entry(fold_of).or_insert(0u64) += 1;
        }
        // n! / (prod of fold sizes!) assignments
        let fact = |m: usize| (1..=m).product::<usize>();
        let total = (0..k).fold(fact(n), |a, f| a / fact(n / k + (f < n % k) as usize));
        let mut v: Vec<u64> = counts.values().cloned().collect();
        ensure!(v.len() <= total, "{} rows in {} folds: {} different assignments, there are {}", n, k, v.len(), total);
        v.resize(total, 0);
        let z = chi2_uniform_z(&v);
        ensure!(z < Z_ALARM, "{} rows in {} folds: assignments occur {:?} times (score {:.1})", n, k, counts, z);
        c.count("assignments observed", trials);
        c.seen(hash_usizes(&[n, k, c.index as usize]));
        Ok(())
    });
    cx.group("shuffled", 20, 300, |c| {
        // of larger data, the fold of a row tells nothing about its place or its neighbours
        let n = if c.rng.bool() { c.rng.range(60, 500) } else { c.rng.range(500, 9000) };
        let k = c.rng.range(2, 12);
        let (x, y) = tagged(c, n);
        let log = RefCell::new(vec![]);
        let mut m = Spy { log: &log, fail_train: None, fail_predict: None, trained: 0, predicted: RefCell::new(0) };
        k_fold_validate(&mut m, &x, &y, k, |_, _| 0.0).map_err(|e| e.to_string())?;
        let (mut fold, mut sizes) = (vec![0usize; n], vec![]);
        for e in log.borrow().iter() { if let Ev::Predict(p) = e { let rows = ids(p, &x, 1.0, "shuffled")?; for i in &rows { fold[*i] = sizes.len(); } sizes.push(rows.len()); } }
        let nf = n as f64;
        // rank correlation of the row number with the fold number
        let (mi, mf) = ((nf - 1.0) / 2.0, fold.iter().sum::<usize>() as f64 / nf);
        let (mut a, mut b, mut ab) = (0.0, 0.0, 0.0);
        for i in 0..n { let (u, v) = (i as f64 - mi, fold[i] as f64 - mf); a += u * u; b += v * v; ab += u * v; }
        let z = ab / (a * b).sqrt() * (nf - 1.0).sqrt();
        ensure!(z.abs() < Z_ALARM, "{} rows in {} folds: later rows are in later or earlier folds (score {:.1})", n, k, z);
        // rows at a distance in the same fold
        let p: f64 = sizes.iter().map(|s| *s as f64 * (*s as f64 - 1.0)).sum::<f64>() / (nf * (nf - 1.0));
        for lag in [1, 2, k, n / k] {
            let same = (0..n - lag).filter(|i| fold[*i] == fold[i + lag]).count() as f64;
            let t = (n - lag) as f64;
            // (pairs overlap and the sizes are fixed, which leaves the variance below twice the binomial one)
            let z = (same - t * p) / (2.0 * t * p * (1.0 - p) + 1.0).sqrt();
            ensure!(z.abs() < Z_ALARM, "{} rows in {} folds: {} of {} rows are in the fold of the row {} before (score {:.1})", n, k, same, t, lag, z);
        }
        c.count("rows whose folds were tested for chance", n as u64);
        c.seen(hash_usizes(&fold));
        Ok(())
    });
    cx.group("refusals", 60, 600, |c| {
        let n = c.rng.range(1, 9);
        let (x, y) = tagged(c, n);
        let (_, y2) = tagged(c, n + c.index as usize % 3 + 1);
        let log = RefCell::new(vec![]);
        let mut run = |k: usize, y: &Matrix<f64>| { let mut m = Spy { log: &log, fail_train: None, fail_predict: None, trained: 0, predicted: RefCell::new(0) }; guard(|| k_fold_validate(&mut m, &x, y, k, |_, _| 0.0)).map(|r| r.is_ok()) };
        ensure!(run(0, &y) != Ok(true) && run(1, &y) != Ok(true), "0 or 1 fold is accepted");
        ensure!(run(n + 1, &y) != Ok(true), "{} folds of {} rows are accepted", n + 1, n);
        if n >= 2 { ensure!(run(2, &y2) != Ok(true), "{} rows with {} targets are accepted", n, y2.rows()); }
        ensure!(log.borrow().is_empty(), "a refused validation trains the model");
        c.count("refusals", 4);
        c.seen(c.index);
        Ok(())
    });
}

/// Counts (true positives, false positives, false negatives).
fn table(o: &[u8], t: &[u8]) -> (f64, f64, f64) {
    let n = |a: u8, b: u8| o.iter().zip(t).filter(|(x, y)| **x == a && **y == b).count() as f64;
    (n(1, 1), n(1, 0), n(0, 1))
}
fn same(a: f64, b: f64) -> bool { close(a, b, 1e-13, 0.0) || a.is_nan() && b.is_nan() }
fn binary(o: &[u8], t: &[u8]) -> Verdict {
    let (tp, fp, fneg) = table(o, t);
    let eq = o.iter().zip(t).filter(|(a, b)| a == b).count() as f64;
    let (f32s, i64s): (Vec<Vec<f32>>, Vec<Vec<i64>>) = ([o, t].iter().map(|v| v.iter().map(|x| *x as f32).collect()).collect(), [o, t].iter().map(|v| v.iter().map(|x| *x as i64).collect()).collect());
    for (name, got, want) in [
        ("accuracy", accuracy(o.iter(), t.iter()), eq / o.len() as f64),
        ("precision", precision(o.iter(), t.iter()), tp / (tp + fp)),
        ("recall", recall(o.iter(), t.iter()), tp / (tp + fneg)),
        ("F1", f1(o.iter(), t.iter()), 2.0 * tp / (2.0 * tp + fp + fneg)),
        ("precision (f32)", precision(f32s[0].iter(), f32s[1].iter()), tp / (tp + fp)),
        ("recall (i64)", recall(i64s[0].iter(), i64s[1].iter()), tp / (tp + fneg)),
        ("F1 (f32)", f1(f32s[0].iter(), f32s[1].iter()), 2.0 * tp / (2.0 * tp + fp + fneg)),
        ("exchanged precision", precision(t.iter(), o.iter()), tp / (tp + fneg)),
        ("exchanged recall", recall(t.iter(), o.iter()), tp / (tp + fp)),
        ("exchanged F1", f1(t.iter(), o.iter()), 2.0 * tp / (2.0 * tp + fp + fneg)),
        ("exchanged accuracy", accuracy(t.iter(), o.iter()), eq / o.len() as f64),
    ] {
        if o.is_empty() && name.contains("accuracy") { continue; }
        ensure!(same(got, want), "{} of {:?} against {:?} is {:?}, by recount {:?}", name, o, t, got, want);
    }
    Ok(())
}
fn v02(cx: &mut Ctx) {
    cx.rule("All pairs of 0/1 sequences up to length 5 (7 thorough), random longer ones, label sequences of several types, matrices of random shape with equal, nearly equal and different rows; each score is recounted, exchanged and reordered. Non-trivial: both right and wrong answers, identified by the sequences.");
    let top = if cx.thorough { 7 } else { 5 };
    cx.group("all short sequences", top + 1, top + 1, |c| {
        let n = c.index as usize;
        for bits in 0..1u64 << (2 * n) {
            let o: Vec<u8> = (0..n).map(|k| (bits >> k & 1) as u8).collect();
            let t: Vec<u8> = (0..n).map(|k| (bits >> (n + k) & 1) as u8).collect();
            binary(&o, &t)?;
            c.count("pairs of sequences", 1);
            if o != t && o.iter().zip(&t).any(|(a, b)| a == b) { c.seen(bits ^ (n as u64) << 32); }
        }
        Ok(())
    });
    cx.group("binary", 1500, 50_000, |c| {
        let n = c.rng.size(1, 200, 200_000);
        let (p, q) = if c.rng.chance(0.25) { (c.rng.logu(-4.0, 0.0), c.rng.logu(-4.0, 0.0)) } else { (c.rng.unit(), c.rng.unit()) };
        let (p, q) = if c.rng.chance(0.2) { (1.0 - p, q) } else { (p, q) };
        let o: Vec<u8> = (0..n).map(|_| c.rng.chance(p) as u8).collect();
        let t: Vec<u8> = (0..n).map(|_| c.rng.chance(q) as u8).collect();
        binary(&o, &t)?;
        let perm = c.rng.perm(n);
        let (o2, t2): (Vec<u8>, Vec<u8>) = perm.iter().map(|i| (o[*i], t[*i])).unzip();
        binary(&o2, &t2)?;
        ensure!(same(f1(o.iter(), t.iter()), f1(o2.iter(), t2.iter())) && same(accuracy(o.iter(), t.iter()), accuracy(o2.iter(), t2.iter())), "reordering changes a score");
        c.count("pairs", n as u64);
        if o != t { c.seen(hash_usizes(&o.iter().chain(&t).map(|x| *x as usize).collect::<Vec<_>>())); }
        c.sample(|| format!("{} pairs: precision {:?}, recall {:?}, F1 {:?}", n, precision(o.iter(), t.iter()), recall(o.iter(), t.iter()), f1(o.iter(), t.iter())));
        Ok(())
    });
    cx.group("labels", 1000, 30_000, |c| {
        let n = c.rng.size(1, 60, 3000);
        let k = c.rng.range(1, 6) as i64;
        let o: Vec<f64> = c.rng.ints(n, -1, k);
        let t: Vec<f64> = c.rng.ints(n, -1, k);
        let want = o.iter().zip(&t).filter(|(a, b)| a == b).count() as f64 / n as f64;
        ensure!(same(accuracy(o.iter(), t.iter()), want), "accuracy of {:?} against {:?} is {}, by recount {}", o, t, accuracy(o.iter(), t.iter()), want);
        let (so, st): (Vec<String>, Vec<String>) = o.iter().zip(&t).map(|(a, b)| (format!("c{}", a), format!("c{}", b))).unzip();
        ensure!(same(accuracy(so.iter(), st.iter()), want) && same(accuracy(st.into_iter(), so.into_iter()), want), "accuracy of string labels differs from {}", want);
        // NaN equals nothing
        let nan = vec![f64::NAN; n];
        ensure!(accuracy(nan.iter(), nan.iter()) == 0.0, "NaN labels are counted as equal");
        c.seen(hash_f64s(&o) ^ hash_f64s(&t));
        Ok(())
    });
    cx.group("matrices", 1500, 50_000, |c| {
        let (n, d) = (c.rng.size(1, 30, 8000), c.rng.size(1, 5, 20));
        let (n, d) = if c.rng.chance(0.05) { (n.min(60), c.rng.range(20, 90)) } else { (n, d) };
        let t: Vec<f64> = if c.rng.bool() { c.rng.ints(n * d, 0, 2) } else { c.rng.normals(n * d, 1.0) };
        let mut o = t.clone();
        for r in 0..n { if c.rng.bool() { let j = c.rng.below(d); let e = *c.rng.pick(&[1.0, -1.0, 1e-9, 0.5]); o[r * d + j] += e; } }
        let rows = (0..n).filter(|r| (0..d).all(|j| o[r * d + j] == t[r * d + j])).count() as f64 / n as f64;
        let (om, tm) = (Matrix::new(n, d, o.clone()), Matrix::new(n, d, t.clone()));
        ensure!(same(row_accuracy(&om, &tm), rows) && same(row_accuracy(&tm, &om), rows), "row accuracy of {:?} against {:?} is {}, by recount {}", o, t, row_accuracy(&om, &tm), rows);
        let s = if c.rng.chance(0.2) { c.rng.logu(-140.0, 140.0) } else { 3.0 };
        let o2: Vec<f64> = t.iter().map(|v| v + c.rng.normal() * s).collect();
        let om2 = Matrix::new(n, d, o2.clone());
        let want = -(o2.iter().zip(&t).map(|(a, b)| (a - b) * (a - b)).sum::<f64>()) / n as f64;
        let got = neg_mean_squared_error(&om2, &tm);
        ensure!(close(got, want, 1e-12, 1e-300) && got <= 0.0, "negative mean squared error of {:?} against {:?} is {}, by recount {}", o2, t, got, want);
        ensure!(close(neg_mean_squared_error(&tm, &om2), want, 1e-12, 0.0), "exchanging the matrices changes the mean squared error");
        ensure!(neg_mean_squared_error(&tm, &tm) == 0.0, "equal matrices have an error");
        let perm = c.rng.perm(n);
        let pick = |v: &[f64]| Matrix::new(n, d, perm.iter().flat_map(|i| v[i * d..(i + 1) * d].to_vec()).collect::<Vec<_>>());
        ensure!(close(neg_mean_squared_error(&pick(&o2), &pick(&t)), want, 1e-12, 0.0) && same(row_accuracy(&pick(&o), &pick(&t)), rows), "reordering the rows changes a score");
        c.count("rows", n as u64);
        if rows > 0.0 && rows < 1.0 { c.seen(hash_f64s(&o)); }
        Ok(())
    });
    cx.group("millions", 2, 4, |c| {
        // more pairs than a 32-bit float counts exactly; the labels repeat with a period
        let mut n = (1usize << 24) * 8 / 5 + c.rng.below(1_000_000);
        let period = c.rng.range(6, 12);
        // more right than that, and an odd number of them
        let (mut o, mut t): (Vec<u8>, Vec<u8>) = (0..period).map(|_| if c.rng.chance(0.8) { (1, 1) } else { (0, 0) }).unzip();
        o[0] = 1; t[0] = 1; o[1] = 1; t[1] = 0; o[2] = 0; t[2] = c.rng.bool() as u8;
        while (0..period).filter(|i| o[*i] == t[*i]).map(|i| (n - i + period - 1) / period).sum::<usize>() % 2 == 0 { n += 1; }
        let full = |i: usize| (n - i + period - 1) / period;
        let (mut tp, mut fp, mut fne, mut eq) = (0u64, 0u64, 0u64, 0u64);
        for i in 0..period {
            let k = full(i) as u64;
            if o[i] == t[i] { eq += k; }
            match (o[i], t[i]) { (1, 1) => tp += k, (1, 0) => fp += k, (0, 1) => fne += k, _ => {} }
        }
        let (os, ts): (Vec<u8>, Vec<u8>) = (0..n).map(|i| (o[i % period], t[i % period])).unzip();
        for (name, got, want) in [("accuracy", accuracy(os.iter(), ts.iter()), eq as f64 / n as f64), ("precision", precision(os.iter(), ts.iter()), tp as f64 / (tp + fp) as f64), ("recall", recall(os.iter(), ts.iter()), tp as f64 / (tp + fne) as f64), ("F1", f1(os.iter(), ts.iter()), 2.0 * tp as f64 / (2 * tp + fp + fne) as f64)] {
            ensure!(close(got, want, 1e-12, 0.0), "{} of {} pairs is {}, by recount {}", name, n, got, want);
        }
        c.count("pairs", n as u64);
        c.seen(n as u64);
        Ok(())
    });
    cx.group("refusals", 100, 1000, |c| {
        let n = c.rng.range(1, 12);
        let o: Vec<i32> = (0..n).map(|_| c.rng.below(2) as i32).collect();
        let t: Vec<i32> = (0..n + 1 + c.rng.below(3)).map(|_| c.rng.below(2) as i32).collect();
        type F = fn(&[i32], &[i32]) -> f64;
        let fs: [(&str, F); 4] = [("accuracy", |a, b| accuracy(a.iter(), b.iter())), ("precision", |a, b| precision(a.iter(), b.iter())), ("recall", |a, b| recall(a.iter(), b.iter())), ("F1", |a, b| f1(a.iter(), b.iter()))];
        for (name, f) in fs {
            ensure!(guard(|| f(&o, &t)).is_err() && guard(|| f(&t, &o)).is_err(), "{} of {} against {} labels is answered", name, o.len(), t.len());
            if name == "accuracy" { continue; }
            let mut bad = o.clone();
            let k = c.rng.below(n);
            bad[k] = *c.rng.pick(&[2, -1, 7]);
            ensure!(guard(|| f(&bad, &o)).is_err() && guard(|| f(&o, &bad)).is_err(), "{} of labels {:?} against {:?} is answered", name, bad, o);
            c.count("refusals", 4);
        }
        c.seen(c.index);
        Ok(())
    });
}

fn v03(cx: &mut Ctx) {
    cx.rule("Random label sequences of four label types, with inferred labels and with given lists that permute, omit and add labels; every entry recounted. Non-trivial: a matrix with entries off the diagonal, identified by the sequences.");
    fn check<T: Ord + Eq + std::hash::Hash + Copy + std::fmt::Debug>(c: &mut Case, p: &[T], t: &[T], universe: &[T]) -> Verdict {
        let given: Option<Vec<T>> = match c.rng.below(4) {
            0 | 1 => None,
            2 => { let mut u = universe.to_vec(); c.rng.shuffle(&mut u); Some(u) }
            _ => { let mut u = universe.to_vec(); c.rng.shuffle(&mut u); let k = c.rng.below(u.len() + 1); u.truncate(k); Some(u) }
        };
        let labels = given.clone().unwrap_or_else(|| { let mut v: Vec<T> = p.iter().chain(t).cloned().collect(); v.sort(); v.dedup(); v });
        let m = confusion_matrix(p, t, given.clone());
        let k = labels.len();
        ensure!(m.rows() == k && m.cols() == k, "{} labels give a {} x {} matrix", k, m.rows(), m.cols());
        for i in 0..k { for j in 0..k {
            let want = p.iter().zip(t).filter(|(a, b)| **a == labels[j] && **b == labels[i]).count();
            ensure!(m.data()[i * k + j] == want, "predictions {:?}, targets {:?}, labels {:?}: entry ({}, {}) is {}, by recount {}", p, t, given, i, j, m.data()[i * k + j], want);
        } }
        if given.is_none() { ensure!(m.data().iter().sum::<usize>() == p.len(), "{} samples, entries sum to {}", p.len(), m.data().iter().sum::<usize>()); }
        // exchanging predictions and targets transposes
        let m2 = confusion_matrix(t, p, Some(labels.clone()));
        ensure!((0..k * k).all(|e| m2.data()[e] == m.data()[(e % k) * k + e / k]), "exchanging predictions and targets of {:?} and {:?} does not transpose", p, t);
        c.count("entries", (k * k) as u64);
        if (0..k * k).any(|e| e / k != e % k && m.data()[e] > 0) { c.seen(mix(k as u64) ^ hash_usizes(m.data()) ^ hash_usizes(&p.iter().map(|x| labels.iter().position(|l| l == x).unwrap_or(99)).collect::<Vec<_>>())); }
        c.sample(|| format!("{:?} against {:?} with labels {:?}: {:?}", p, t, given, m.data()));
        Ok(())
    }
    cx.group("counts", 3000, 100_000, |c| {
        let n = c.rng.size(0, 40, 800);
        let k = c.rng.range(1, 8);
        let mut universe: Vec<i64> = (0..k as i64).map(|x| x * x * x * 7 - 20).collect();
        if c.rng.chance(0.2) { universe = vec![i64::MIN, -1, 0, 1, i64::MAX]; }
        let p: Vec<i64> = (0..n).map(|_| *c.rng.pick(&universe)).collect();
        let t: Vec<i64> = if c.rng.chance(0.3) { p.clone() } else { (0..n).map(|_| *c.rng.pick(&universe)).collect() };
        universe.push(1_000_001);
        match c.rng.below(4) {
            0 => check(c, &p, &t, &universe),
            1 => { let f = |v: &[i64]| v.iter().map(|x| (x.rem_euclid(251)) as u8).collect::<Vec<_>>(); let mut u = f(&universe); u.sort(); u.dedup(); check(c, &f(&p), &f(&t), &u) }
            2 => { let f = |v: &[i64]| v.iter().map(|x| char::from_u32(97 + x.rem_euclid(20) as u32).unwrap()).collect::<Vec<_>>(); let mut u = f(&universe); u.sort(); u.dedup(); check(c, &f(&p), &f(&t), &u) }
            _ => { let f = |v: &[i64]| v.iter().map(|x| (x.rem_euclid(3) == 0, *x)).collect::<Vec<_>>(); check(c, &f(&p), &f(&t), &f(&universe)) }
        }
    });
    cx.group("many labels", 20, 400, |c| {
        let k = c.rng.range(100, 700);
        let n = c.rng.range(1, 4000);
        let step = c.rng.range(1, 1000);
        let p: Vec<usize> = (0..n).map(|_| c.rng.below(k) * step).collect();
        let t: Vec<usize> = (0..n).map(|i| if c.rng.bool() { p[i] } else { c.rng.below(k) * step }).collect();
        let given = if c.rng.bool() { let mut l: Vec<usize> = (0..k).map(|i| i * step).collect(); c.rng.shuffle(&mut l); l.truncate(c.rng.range(k / 2, k)); Some(l) } else { None };
        let labels = given.clone().unwrap_or_else(|| { let mut v: Vec<usize> = p.iter().chain(&t).cloned().collect(); v.sort(); v.dedup(); v });
        let at: std::collections::HashMap<usize, usize> = labels.iter().enumerate().map(|(i, l)| (*l, i)).collect();
        let k = labels.len();
        let mut want = vec![0usize; k * k];
        for (a, b) in p.iter().zip(&t) { if let (Some(a), Some(b)) = (at.get(a), at.get(b)) { want[b * k + a] += 1; } }
        let m = confusion_matrix(&p, &t, given.clone());
        ensure!(m.rows() == k && m.cols() == k, "{} labels give a {} x {} matrix", k, m.rows(), m.cols());
        for e in 0..k * k { ensure!(m.data()[e] == want[e], "{} samples of {} labels: {} are of class {} and predicted as {}, by recount {}", n, k, m.data()[e], e / k, e % k, want[e]); }
        c.count("entries", (k * k) as u64);
        c.seen(hash_usizes(&p) ^ hash_usizes(&t));
        Ok(())
    });
    cx.group("refusals", 100, 1000, |c| {
        let n = c.rng.range(1, 9);
        let p: Vec<usize> = (0..n).map(|_| c.rng.below(3)).collect();
        let mut t = p.clone();
        t.push(0);
        ensure!(guard(|| confusion_matrix(&p, &t, None)).is_err() && guard(|| confusion_matrix(&t, &p, None)).is_err(), "{} predictions for {} targets are counted", p.len(), t.len());
        let mut l = vec![0, 1, 2, 3];
        let d = c.rng.below(4);
        let at = c.rng.below(5);
        l.insert(at, d);
        ensure!(guard(|| confusion_matrix(&p, &p, Some(l.clone()))).is_err(), "labels {:?} are accepted", l);
        c.count("refusals", 3);
        c.seen(c.index);
        Ok(())
    });
}

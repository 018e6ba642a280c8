//! Nearest-neighbour search and classification.
use crate::util::*;
use rusty_machine::learning::error::Error;
fn kind(e: &Error) -> String { format!("{:?}", e.kind()) }
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rusty_machine::learning::SupModel;
use rusty_machine::linalg::{Matrix, Vector};
use std::collections::BTreeMap;

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("N01", n01), ("N02", n02)];

pub struct Points { pub n: usize, pub d: usize, pub v: Vec<f64>, pub kind: &'static str }
impl Points {
    fn row(&self, i: usize) -> &[f64] { &self.v[i * self.d..(i + 1) * self.d] }
    fn matrix(&self) -> Matrix<f64> { Matrix::new(self.n, self.d, self.v.clone()) }
}

fn points(c: &mut Case, n: usize) -> Points {
    let d = *c.rng.pick(&[1, 1, 2, 2, 2, 3, 3, 4, 6, 9]);
    let r = &mut c.rng;
    let (v, kind): (Vec<f64>, _) = match r.below(13) {
        0 | 1 => (r.uniforms(n * d, -5.0, 5.0), "uniform"),
        2 => (r.normals(n * d, 3.0), "normal"),
        3 => (r.ints(n * d, 0, 4), "grid"),
        4 => { let b = r.below(2) as i64 + 1; (r.ints(n * d, -b, b), "tiny grid") }
        5 => { // a few distinct rows, many copies
            let m = r.range(1, 4);
            let base = r.normals(m * d, 2.0);
            let mut v = vec![];
            for _ in 0..n { let i = r.below(m); v.extend_from_slice(&base[i * d..(i + 1) * d]); }
            (v, "copies")
        }
        6 => { // collinear
            let dir = r.normals(d, 1.0);
            let mut v = vec![];
            for _ in 0..n { let t = r.normal() * 4.0; v.extend(dir.iter().map(|x| x * t)); }
            (v, "line")
        }
        7 => { // columns of very different scale, some constant
            let s: Vec<f64> = (0..d).map(|_| if r.chance(0.3) { 0.0 } else { r.logu(-8.0, 8.0) }).collect();
            let off = r.normals(d, 10.0);
            (0..n * d).map(|k| off[k % d] + s[k % d] * r.normal()).collect::<Vec<_>>().into_iter().collect::<Vec<_>>().pipe("scaled")
        }
        8 => { // far-apart clusters
            let m = r.range(2, 5);
            let base = r.normals(m * d, 100.0);
            let mut v = vec![];
            for _ in 0..n { let i = r.below(m); for j in 0..d { v.push(base[i * d + j] + r.normal()); } }
            (v, "clusters")
        }
        9 => { // geometric spacing: unbalanced trees
            let mut v = vec![];
            for i in 0..n { for j in 0..d { v.push(if j == 0 { 2f64.powi((i % 60) as i32 - 20) } else { r.normal() }); } }
            (v, "geometric")
        }
        10 => { // neighbouring floats
            let base = r.normals(d, 1.0);
            let mut v = vec![];
            for _ in 0..n { for j in 0..d { v.push(f64::from_bits(base[j].to_bits() + r.below(3) as u64)); } }
            (v, "neighbouring floats")
        }
        11 => { // offset cloud
            let off = r.normals(d, 1e6);
            (0..n * d).map(|k| off[k % d] + r.normal()).collect::<Vec<_>>().pipe("offset")
        }
        _ => { // ring / sphere around the origin: equal distances from the centre
            let mut v = vec![];
            for _ in 0..n { let p = r.normals(d, 1.0); let l = p.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9); v.extend(p.iter().map(|x| x / l)); }
            (v, "sphere")
        }
    };
    Points { n, d, v, kind }
}
trait Pipe: Sized { fn pipe(self, k: &'static str) -> (Self, &'static str) { (self, k) } }
impl Pipe for Vec<f64> {}

fn query(c: &mut Case, p: &Points) -> Vec<f64> {
    let r = &mut c.rng;
    match r.below(6) {
        0 => p.row(r.below(p.n)).to_vec(),
        1 => { let (i, j) = (r.below(p.n), r.below(p.n)); p.row(i).iter().zip(p.row(j)).map(|(a, b)| (a + b) / 2.0).collect() }
        2 => { let i = r.below(p.n); let s = r.logu(-3.0, 1.0); (0..p.d).map(|k| p.row(i)[k] + s * r.normal()).collect() }
        3 => { let s = r.logu(0.0, 3.0); r.normals(p.d, s) }
        4 => vec![0.0; p.d],
        _ => { // column-wise mix of rows: inside the bounding box, away from the points
            (0..p.d).map(|k| p.row(r.below(p.n))[k]).collect()
        }
    }
}

fn dists(p: &Points, q: &[f64]) -> Vec<f64> {
    (0..p.n).map(|i| p.row(i).iter().zip(q).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt()).collect()
}

fn check_search(p: &Points, q: &[f64], k: usize, res: Result<(Vec<usize>, Vec<f64>), String>, what: &str) -> Verdict {
    let d = dists(p, q);
    let mut sorted = d.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let tol = 1e-12 * sorted[p.n - 1].max(1e-290);
    let (idx, ds) = match res { Ok(r) => r, Err(e) => return Err(format!("{} on {} {} rows, k {}: {}", what, p.n, p.kind, k, e)) };
    ensure!(idx.len() == k && ds.len() == k, "{} on {} {} rows ({} columns) returned {} of {} neighbours of {:?}", what, p.n, p.kind, p.d, idx.len(), k, q);
    let mut seen = vec![false; p.n];
    for j in 0..k {
        ensure!(idx[j] < p.n && !seen[idx[j]], "{} on {} {} rows, k {}: row {} is repeated or does not exist", what, p.n, p.kind, k, idx[j]);
        seen[idx[j]] = true;
        ensure!(close(ds[j], d[idx[j]], 1e-10, tol), "{} on {} {} rows, k {}: row {} is reported at {:e}, it is at {:e} from {:?}", what, p.n, p.kind, k, idx[j], ds[j], d[idx[j]], q);
        ensure!(j == 0 || ds[j] >= ds[j - 1], "{} on {} {} rows, k {}: distances are not ascending: {:?}", what, p.n, p.kind, k, ds);
        ensure!(close(ds[j], sorted[j], 1e-10, tol), "{} on {} {} rows ({} columns), k {}: neighbour {} of {:?} is at {:e}, the true one is at {:e}", what, p.n, p.kind, p.d, k, j + 1, q, ds[j], sorted[j]);
    }
    Ok(())
}
fn leafsize(c: &mut Case) -> usize { match c.rng.below(6) { 0 => 1, 1 => 2, 2 => 3, 3 => c.rng.range(4, 12), 4 => c.rng.range(13, 60), _ => 30 } }

fn build<S: KNearestSearch>(mut s: S, p: &Points) -> S { s.build(p.matrix()); s }

fn n01(cx: &mut Ctx) {
    cx.rule("Thirteen kinds of point sets (random, tied, duplicated, constant, scaled, clustered, geometric, ulp-close), 1..300 rows (a few up to 4000), leaf sizes 1..60, queries on, between, near and far from the points; every search of both trees and of the exhaustive search is compared with the harness's sorted distances. Non-trivial: more rows than the leaf size, identified by points and query.");
    cx.group("search", 4000, 120_000, |c| {
        let n = match c.rng.below(10) { 0 => c.rng.range(1, 3), 1..=5 => c.rng.range(2, 25), 6..=8 => c.rng.range(20, 90), _ => c.rng.size(90, 300, 4000) };
        let p = points(c, n);
        let leaf = leafsize(c);
        let (kd, ball, brute) = (build(KDTree::new(leaf), &p), build(BallTree::new(leaf), &p), build(BruteForce::new(), &p));
        let nq = 12;
        for qi in 0..nq {
            let q = query(c, &p);
            let k = match c.rng.below(5) { 0 => 1, 1 => n, 2 => c.rng.range(1, n.min(5)), _ => c.rng.range(1, n) };
            let e = |e: Error| format!("refused: {}", e);
            check_search(&p, &q, k, kd.search(&q, k).map_err(e), &format!("KD-tree (leaf size {})", leaf))?;
            check_search(&p, &q, k, ball.search(&q, k).map_err(e), &format!("ball tree (leaf size {})", leaf))?;
            check_search(&p, &q, k, brute.search(&q, k).map_err(e), "exhaustive search")?;
            c.count("searches", 3);
            if n > leaf { c.seen(hash_f64s(&p.v) ^ hash_f64s(&q) ^ k as u64); c.count("searches in a branched tree", 2); }
            if qi == 0 { c.sample(|| format!("{} {} rows of {} columns, leaf size {}, k {}: nearest of {:?}", n, p.kind, p.d, leaf, k, q)); }
        }
        Ok(())
    });
    cx.group("every k", 400, 6000, |c| {
        let n = c.rng.range(2, 40);
        let p = points(c, n);
        let leaf = leafsize(c);
        let (kd, ball, brute) = (build(KDTree::new(leaf), &p), build(BallTree::new(leaf), &p), build(BruteForce::default(), &p));
        for _ in 0..3 {
            let q = query(c, &p);
            for k in 1..=n {
                let e = |e: Error| format!("refused: {}", e);
                check_search(&p, &q, k, kd.search(&q, k).map_err(e), &format!("KD-tree (leaf size {})", leaf))?;
                check_search(&p, &q, k, ball.search(&q, k).map_err(e), &format!("ball tree (leaf size {})", leaf))?;
                check_search(&p, &q, k, brute.search(&q, k).map_err(e), "exhaustive search")?;
                c.count("searches", 3);
                if n > leaf { c.seen(hash_f64s(&p.v) ^ hash_f64s(&q) ^ k as u64); }
            }
        }
        Ok(())
    });
    cx.group("default trees and rebuilding", 300, 5000, |c| {
        let n = c.rng.range(31, 200);
        let (a, b) = (points(c, n), { let m = c.rng.range(2, 120); points(c, m) });
        let (mut kd, mut ball, mut brute) = (build(KDTree::default(), &a), build(BallTree::default(), &a), build(BruteForce::new(), &a));
        for p in [&a, &b, &a] {
            kd.build(p.matrix()); ball.build(p.matrix()); brute.build(p.matrix());
            for _ in 0..5 {
                let q = query(c, p);
                let k = c.rng.range(1, p.n);
                let e = |e: Error| format!("refused: {}", e);
                check_search(p, &q, k, kd.search(&q, k).map_err(e), "rebuilt KD-tree")?;
                check_search(p, &q, k, ball.search(&q, k).map_err(e), "rebuilt ball tree")?;
                check_search(p, &q, k, brute.search(&q, k).map_err(e), "rebuilt exhaustive search")?;
                c.count("searches", 3);
                c.seen(hash_f64s(&p.v) ^ hash_f64s(&q) ^ k as u64);
            }
        }
        Ok(())
    });
    cx.group("indivisible rows", 60, 400, |c| {
        // nothing to split: the tree still has to be built
        let n = c.rng.range(1, 120);
        let d = c.rng.range(1, 4);
        let row = match c.rng.below(4) { 0 => vec![0.0; d], 1 => c.rng.normals(d, 1e200), 2 => c.rng.normals(d, 1e-200), _ => c.rng.normals(d, 1.0) };
        let mut v = vec![];
        for _ in 0..n { v.extend_from_slice(&row); }
        if c.rng.bool() && n > 1 { v[0] += 1.0; }
        let p = Points { n, d, v, kind: "identical" };
        let leaf = *c.rng.pick(&[0, 1, 1, 2, 5, 30, 40]);
        let (kd, ball) = (build(KDTree::new(leaf), &p), build(BallTree::new(leaf), &p));
        let k = c.rng.range(1, n);
        let e = |e: Error| format!("refused: {}", e);
        check_search(&p, &row, k, kd.search(&row, k).map_err(e), &format!("KD-tree (leaf size {})", leaf))?;
        check_search(&p, &row, k, ball.search(&row, k).map_err(e), &format!("ball tree (leaf size {})", leaf))?;
        c.count("searches", 2);
        if n > 1 { c.seen(hash_f64s(&p.v) ^ leaf as u64); }
        Ok(())
    });
}

/// Can `label` be the vote's answer for some admissible choice of the k nearest rows?
fn admissible(d: &[f64], labels: &[usize], k: usize, tol: f64, label: usize) -> bool {
    let mut s = d.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let dk = s[k - 1];
    let (mut sure, mut amb) = (BTreeMap::new(), BTreeMap::new());
    let (mut n_sure, mut all) = (0, std::collections::BTreeSet::new());
    for (x, l) in d.iter().zip(labels) {
        if *x < dk - tol { *sure.entry(*l).or_insert(0usize) += 1; n_sure += 1; all.insert(*l); }
        else if *x <= dk + tol { *amb.entry(*l).or_insert(0usize) += 1; all.insert(*l); }
    }
    if !all.contains(&label) { return false; }
    let m = k - n_sure;
    let own = m.min(*amb.get(&label).unwrap_or(&0));
    let total = sure.get(&label).unwrap_or(&0) + own;
    let mut room = 0;
    for &j in &all {
        if j == label { continue; }
        let have = *sure.get(&j).unwrap_or(&0);
        let limit = if j < label { match total.checked_sub(1) { Some(t) => t, None => return false } } else { total };
        if have > limit { return false; }
        room += (limit - have).min(*amb.get(&j).unwrap_or(&0));
    }
    room >= m - own
}

fn check_classifier<S: KNearestSearch>(mut knn: KNNClassifier<S>, before: &Points, p: &Points, labels: &[usize], qs: &[Vec<f64>], k: usize, what: &str, exact: &mut u64) -> Verdict {
    if before.n > 0 { if let Err(e) = knn.train(&before.matrix(), &Vector::new((0..before.n).collect::<Vec<usize>>())) { return Err(format!("{}: training before refused: {}", what, e)); } }
    if let Err(e) = knn.train(&p.matrix(), &Vector::new(labels.to_vec())) { return Err(format!("{}: training refused: {}", what, e)); }
    let flat: Vec<f64> = qs.iter().flat_map(|q| q.iter().cloned()).collect();
    let got = match knn.predict(&Matrix::new(qs.len(), p.d, flat)) { Ok(g) => g, Err(e) => return Err(format!("{}: prediction refused: {}", what, e)) };
    ensure!(got.size() == qs.len(), "{}: {} answers for {} rows", what, got.size(), qs.len());
    for (q, l) in qs.iter().zip(got.data()) {
        let d = dists(p, q);
        let tol = 1e-10 * d.iter().cloned().fold(0.0, f64::max);
        ensure!(admissible(&d, labels, k, tol, *l), "{} on {} {} rows, k {}: {:?} is labelled {}, which is not the majority of its neighbours; distances {:?} labels {:?}", what, p.n, p.kind, k, q, l, &d[..d.len().min(12)], &labels[..d.len().min(12)]);
        if labels.iter().cloned().collect::<std::collections::BTreeSet<_>>().into_iter().filter(|x| admissible(&d, labels, k, tol, *x)).count() == 1 { *exact += 1; }
    }
    Ok(())
}

fn n02(cx: &mut Ctx) {
    cx.rule("The point sets of N01 with 1..5 labels (a few up to 40; also large and unordered numbers), every search structure, fresh or trained before, batches of queries; each answer must be the majority (smallest on ties) of an admissible neighbour set found exhaustively. Non-trivial: at least two labels, identified by points, labels and k.");
    cx.group("majority", 1500, 80_000, |c| {
        let n = match c.rng.below(4) { 0 => c.rng.range(1, 6), 1 | 2 => c.rng.range(3, 40), _ => c.rng.size(40, 120, 3000) };
        let p = points(c, n);
        let m = c.rng.size(1, 5, 40);
        let names: Vec<usize> = match c.rng.below(4) { 0 => (0..m).collect(), 1 => (0..m).map(|i| 90 - 2 * i).collect(), 2 => (0..m).map(|i| usize::max_value() - i * 7).collect(), _ => (0..m).map(|_| c.rng.below(1000)).collect() };
        let labels: Vec<usize> = (0..n).map(|i| if c.index % 3 == 0 { names[i % m] } else { *c.rng.pick(&names) }).collect();
        let k = match c.rng.below(4) { 0 => 1, 1 => n, 2 => c.rng.range(1, n.min(6)), _ => c.rng.range(1, n) };
        let qs: Vec<Vec<f64>> = (0..c.rng.size(1, 8, 150)).map(|_| query(c, &p)).collect();
        let leaf = leafsize(c);
        let before = if c.rng.chance(0.25) { let r = k + c.rng.below(10); c.count("trainings of a used model", 4); points(c, r) } else { Points { n: 0, d: 1, v: vec![], kind: "no" } };
        let mut exact = 0;
        check_classifier(KNNClassifier::new(k), &before, &p, &labels, &qs, k, "default classifier", &mut exact)?;
        check_classifier(KNNClassifier::new_specified(k, KDTree::new(leaf)), &before, &p, &labels, &qs, k, &format!("KD-tree classifier (leaf size {})", leaf), &mut exact)?;
        check_classifier(KNNClassifier::new_specified(k, BallTree::new(leaf)), &before, &p, &labels, &qs, k, &format!("ball-tree classifier (leaf size {})", leaf), &mut exact)?;
        check_classifier(KNNClassifier::new_specified(k, BruteForce::new()), &before, &p, &labels, &qs, k, "exhaustive classifier", &mut exact)?;
        if n >= 5 && k == 5 { check_classifier(KNNClassifier::default(), &before, &p, &labels, &qs, 5, "default k", &mut exact)?; }
        c.count("answers", 4 * qs.len() as u64);
        c.count("answers with one admissible label", exact);
        if labels.iter().any(|l| *l != labels[0]) { c.seen(hash_f64s(&p.v) ^ hash_usizes(&labels) ^ k as u64); }
        c.sample(|| format!("{} {} rows, labels {:?}…, k {}, {} queries", n, p.kind, &labels[..n.min(8)], k, qs.len()));
        Ok(())
    });
    cx.group("default k", 200, 2000, |c| {
        let n = c.rng.range(5, 60);
        let p = points(c, n);
        let labels: Vec<usize> = (0..n).map(|_| c.rng.below(3)).collect();
        let qs: Vec<Vec<f64>> = (0..4).map(|_| query(c, &p)).collect();
        let mut exact = 0;
        check_classifier(KNNClassifier::default(), &p, &p, &labels, &qs, 5, "classifier with the default of 5 neighbours", &mut exact)?;
        c.count("answers", 4);
        c.seen(hash_f64s(&p.v) ^ hash_usizes(&labels));
        Ok(())
    });
    cx.group("refusals", 200, 2000, |c| {
        let n = c.rng.range(1, 12);
        let p = points(c, n);
        let k = c.rng.range(1, 15);
        let m = c.rng.range(1, 15);
        let labels: Vec<usize> = (0..m).map(|_| c.rng.below(3)).collect();
        let mut knn = KNNClassifier::new(k);
        ensure!(matches!(knn.predict(&p.matrix()), Err(ref e) if kind(e) == "UntrainedModel"), "an untrained classifier predicts");
        match knn.train(&p.matrix(), &Vector::new(labels)) {
            Ok(()) => ensure!(m == n && k <= n, "{} rows, {} labels and k {} are accepted", n, m, k),
            Err(e) => {
                ensure!(m != n || k > n, "{} rows, {} labels and k {} are refused", n, m, k);
                ensure!(kind(&e) == "InvalidData", "wrong kind of error {:?}", e);
                ensure!(knn.predict(&p.matrix()).is_err(), "a classifier whose training was refused predicts");
                c.count("refusals", 2);
            }
        }
        Ok(())
    });
}

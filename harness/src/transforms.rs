//! Data transformations and built-in data sets.
use crate::util::*;
use rusty_machine::data::transforms::minmax::{MinMaxFitter, MinMaxScaler};
use rusty_machine::data::transforms::standardize::{Standardizer, StandardizerFitter};
use rusty_machine::data::transforms::{Invertible, Normalizer, Shuffler, TransformFitter, Transformer};
use rusty_machine::datasets::{iris, trees};
use rusty_machine::linalg::norm::{Euclidean, Lp};
use rusty_machine::linalg::{BaseMatrix, Matrix};
use rand::{SeedableRng, StdRng};

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("T01", t01), ("T02", t02), ("T03", t03), ("T04", t04), ("T05", t05), ("U01", u01)];

/// The two float types, seen from f64.
trait Num: rusty_machine_float::F {}
mod rusty_machine_float {
    pub trait F: Copy + std::fmt::Debug + PartialEq + 'static {
        const EPS: f64;
        const NAME: &'static str;
        const TOP: f64;
        fn of(x: f64) -> Self;
        fn f(self) -> f64;
    }
    impl F for f64 { const EPS: f64 = 2.3e-16; const NAME: &'static str = "f64"; const TOP: f64 = 100.0; fn of(x: f64) -> f64 { x } fn f(self) -> f64 { self } }
    impl F for f32 { const EPS: f64 = 1.2e-7; const NAME: &'static str = "f32"; const TOP: f64 = 12.0; fn of(x: f64) -> f32 { x as f32 } fn f(self) -> f64 { self as f64 } }
}
impl Num for f64 {}
impl Num for f32 {}
fn mat<T: Num>(n: usize, d: usize, v: &[T]) -> Matrix<T> { Matrix::new(n, d, v.to_vec()) }
fn wide<T: Num>(v: &[T]) -> Vec<f64> { v.iter().map(|x| x.f()).collect() }

/// Columns of very different scale and offset; entries repeat now and then.
fn table<T: Num>(c: &mut Case, n: usize, d: usize) -> Vec<T> {
    let mut cols: Vec<Vec<f64>> = vec![];
    for _ in 0..d {
        let scale = match c.rng.below(4) { 0 => c.rng.logu(-T::TOP, T::TOP), _ => c.rng.logu(-2.0, 2.0) };
        let offset = if c.rng.chance(0.3) { c.rng.sign() * c.rng.logu(-1.0, 3.0) * scale } else { 0.0 };
        let kind = c.rng.below(3);
        cols.push((0..n).map(|_| offset + scale * match kind { 0 => c.rng.normal(), 1 => c.rng.range(0, 4) as f64 - 2.0, _ => c.rng.unit() }).collect());
    }
    (0..n * d).map(|k| T::of(cols[k % d][k / d])).collect()
}
fn col<T: Num>(v: &[T], d: usize, j: usize) -> Vec<f64> { v.iter().skip(j).step_by(d).map(|x| x.f()).collect() }
fn min(v: &[f64]) -> f64 { v.iter().cloned().fold(f64::INFINITY, f64::min) }
fn max(v: &[f64]) -> f64 { v.iter().cloned().fold(f64::NEG_INFINITY, f64::max) }
fn mean(v: &[f64]) -> f64 { let m = v.iter().sum::<f64>() / v.len() as f64; m + v.iter().map(|x| x - m).sum::<f64>() / v.len() as f64 }
fn stdev(v: &[f64]) -> f64 { let m = mean(v); (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (v.len() - 1) as f64).sqrt() }
fn kind(e: &rusty_machine::learning::error::Error) -> String { format!("{:?}", e.kind()) }

/// rows and columns: small, some large; wide only where there are few rows
fn shape(c: &mut Case, usual: usize) -> (usize, usize) {
    let n = c.rng.size(2, usual, 5000);
    (n, if n > 400 { c.rng.range(1, 4) } else { c.rng.size(1, 6, 40) })
}
fn minmax<T: Num>(c: &mut Case, fit: &dyn Fn(f64, f64, bool, &Matrix<T>) -> Result<Box<dyn FnMut(Matrix<T>) -> Result<Matrix<T>, String>>, String>) -> Verdict {
    let (n, d) = shape(c, 20);
    let x: Vec<T> = table(c, n, d);
    let default = c.rng.chance(0.2);
    let (mut lo, mut hi) = if default { (0.0, 1.0) } else { (c.rng.normal() * 3.0, c.rng.normal() * 3.0) };
    if !default && c.rng.chance(0.1) { hi = lo + c.rng.logu(1.0, 4.0); }
    if !default && c.rng.chance(0.12) { let u = c.rng.logu(-0.3 * T::TOP, 0.3 * T::TOP); lo *= u; hi *= u; }
    if !default && c.rng.chance(0.7) && lo > hi { std::mem::swap(&mut lo, &mut hi); }
    let (lo, hi) = (T::of(lo).f(), T::of(hi).f());
    let ranges: Vec<(f64, f64)> = (0..d).map(|j| { let v = col(&x, d, j); (min(&v), max(&v)) }).collect();
    let what = format!("{} {} x {} onto [{:e}, {:e}]", T::NAME, n, d, lo, hi);
    let constant = ranges.iter().any(|r| r.0 == r.1);
    let r = fit(lo, hi, default, &mat(n, d, &x));
    if constant { ensure!(r.is_err(), "{}: a constant column is accepted", what); c.count("constant columns refused", 1); return Ok(()); }
    let mut t = r.map_err(|e| format!("{}: {}", what, e))?;
    // twice, to see a transformer that changes by being used
    for round in 0..2 {
        let out = t(mat(n, d, &x)).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(out.rows() == n && out.cols() == d, "{}: a {} x {} result", what, out.rows(), out.cols());
        let q = c.rng.range(1, 6);
        let y: Vec<T> = (0..q * d).map(|k| { let r = ranges[k % d]; T::of(r.0 + (r.1 - r.0) * c.rng.uniform(-2.0, 3.0)) }).collect();
        let other = t(mat(q, d, &y)).map_err(|e| format!("{}: other data: {}", what, e))?;
        for j in 0..d {
            let (a, b) = ranges[j];
            // rounding of the scale, of the product and of the sum
            let tol = 8.0 * T::EPS * ((hi - lo).abs() * (1.0 + a.abs().max(b.abs()) / (b - a)) + lo.abs() + hi.abs());
            let got = col(out.data(), d, j);
            let (first, last) = if hi >= lo { (min(&got), max(&got)) } else { (max(&got), min(&got)) };
            ensure!((first - lo).abs() <= tol && (last - hi).abs() <= tol, "{}: column {} of [{:e}, {:e}] is mapped onto [{:e}, {:e}] (round {})", what, j, a, b, first, last, round);
            for (which, v, got) in [("fitted", col(&x, d, j), got), ("other", col(&y, d, j), col(other.data(), d, j))] {
                for (v, g) in v.iter().zip(&got) {
                    let want = lo + (hi - lo) * ((v - a) / (b - a));
                    ensure!((g - want).abs() <= 4.0 * tol, "{}: {} data: {:e} in column {} of [{:e}, {:e}] is mapped to {:e}, not {:e}", what, which, v, j, a, b, g, want);
                }
            }
        }
        c.count("entries", ((n + q) * d) as u64);
        // another width is refused, and the transformer goes on working
        let w = if d > 1 && c.rng.bool() { d - 1 } else { d + 1 };
        ensure!(t(Matrix::new(2, w, vec![T::of(0.5); 2 * w])).is_err(), "{}: {} columns are accepted", what, w);
        if d != 1 { ensure!(t(Matrix::new(1, d * 2, vec![T::of(0.5); d * 2])).is_err(), "{}: {} columns are accepted", what, 2 * d); }
    }
    if n > 2 { c.seen(hash_f64s(&wide(&x))); }
    c.sample(|| format!("{}: ranges {:?}", what, ranges));
    Ok(())
}
fn t01(cx: &mut Ctx) {
    cx.rule("Matrices of 2..20 rows and 1..6 columns (a few up to 5000 rows or 40 columns) with scales 1e-100..1e100 (f64) or 1e-12..1e12 (f32), default, ordered, reversed and wide intervals; every entry of the fitted and of other data compared with the affine map. Non-trivial: three rows or more, identified by the data.");
    cx.group("f64", 1500, 60_000, |c| minmax::<f64>(c, &|lo, hi, default, x| {
        let f = if default { MinMaxFitter::default() } else { MinMaxFitter::new(lo, hi) };
        let mut t: MinMaxScaler<f64> = f.fit(x).map_err(|e| e.to_string())?;
        Ok(Box::new(move |m| t.transform(m).map_err(|e| e.to_string())))
    }));
    cx.group("f32", 1500, 60_000, |c| minmax::<f32>(c, &|lo, hi, default, x| {
        let f = if default { MinMaxFitter::default() } else { MinMaxFitter::new(lo as f32, hi as f32) };
        let mut t: MinMaxScaler<f32> = f.fit(x).map_err(|e| e.to_string())?;
        Ok(Box::new(move |m| t.transform(m).map_err(|e| e.to_string())))
    }));
    cx.group("refusals", 600, 10_000, |c| {
        let (n, d) = (c.rng.range(2, 8), c.rng.range(1, 4));
        let mut x = c.rng.normals(n * d, 1.0);
        let k = c.rng.below(n * d);
        let which = c.rng.below(6);
        let m = match which {
            0 => { x[k] = f64::NAN; mat(n, d, &x) }
            1 => { x[k] = f64::INFINITY; mat(n, d, &x) }
            2 => { x[k] = f64::NEG_INFINITY; mat(n, d, &x) }
            3 => { let v = c.rng.normal(); for r in 0..n { x[r * d + k % d] = v; } mat(n, d, &x) }
            4 => { for r in 0..n { x[r * d + k % d] = if r == 0 { 1.5e308 } else { -1.5e308 }; } mat(n, d, &x) }
            _ => mat(0, d, &[]),
        };
        let r = MinMaxFitter::new(0.0, 1.0).fit(&m);
        ensure!(r.is_err(), "fitting {} is accepted: {:?}", ["a NaN", "an infinity", "a negative infinity", "a constant column", "a range beyond the largest float", "no rows"][which], r);
        ensure!(kind(&r.unwrap_err()) == "InvalidData", "refused with another kind of error");
        c.count("refusals", 1);
        c.seen(c.index);
        Ok(())
    });
}

fn standard<T: Num>(c: &mut Case, fit: &dyn Fn(f64, f64, bool, &Matrix<T>) -> Result<Box<dyn FnMut(Matrix<T>) -> Result<Matrix<T>, String>>, String>) -> Verdict {
    let (n, d) = shape(c, 20);
    let x: Vec<T> = table(c, n, d);
    let default = c.rng.chance(0.2);
    let u = if c.rng.chance(0.12) { c.rng.logu(-0.3 * T::TOP, 0.3 * T::TOP) } else { 1.0 };
    let (m, s) = if default { (0.0, 1.0) } else { (u * c.rng.normal() * 3.0, u * c.rng.logu(-1.0, 1.0)) };
    let (m, s) = (T::of(m).f(), T::of(s).f());
    let st: Vec<(f64, f64, f64)> = (0..d).map(|j| { let v = col(&x, d, j); (mean(&v), stdev(&v), max(&v.iter().map(|x| x.abs()).collect::<Vec<_>>())) }).collect();
    let what = format!("{} {} x {} to mean {:e}, deviation {:e}", T::NAME, n, d, m, s);
    let mut t = fit(m, s, default, &mat(n, d, &x)).map_err(|e| format!("{}: {}", what, e))?;
    for round in 0..2 {
        let out = t(mat(n, d, &x)).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(out.rows() == n && out.cols() == d, "{}: a {} x {} result", what, out.rows(), out.cols());
        let q = c.rng.range(1, 6);
        let y: Vec<T> = (0..q * d).map(|k| T::of(st[k % d].0 + st[k % d].1 * c.rng.normal() * 4.0)).collect();
        let other = t(mat(q, d, &y)).map_err(|e| format!("{}: other data: {}", what, e))?;
        for j in 0..d {
            let (mj, sj, big) = st[j];
            // a column that does not vary, or only by rounding, has no deviation to speak of
            if sj <= 1e3 * T::EPS * big { c.count("constant columns", 1); continue; }
            let tol = 4.0 * (n as f64 + 4.0) * T::EPS * (s * (1.0 + big / sj) + m.abs());
            let got = col(out.data(), d, j);
            ensure!((mean(&got) - m).abs() <= tol, "{}: column {} (mean {:e}, deviation {:e}) gets mean {:e} (round {})", what, j, mj, sj, mean(&got), round);
            ensure!((stdev(&got) - s).abs() <= tol + s * 4.0 * n as f64 * T::EPS * big / sj, "{}: column {} (mean {:e}, deviation {:e}) gets deviation {:e}", what, j, mj, sj, stdev(&got));
            for (which, v, got) in [("fitted", col(&x, d, j), got), ("other", col(&y, d, j), col(other.data(), d, j))] {
                for (v, g) in v.iter().zip(&got) {
                    let z = (v - mj) / sj;
                    let want = m + s * z;
                    ensure!((g - want).abs() <= tol * (1.0 + z.abs()) * 2.0, "{}: {} data: {:e} in column {} (mean {:e}, deviation {:e}) is mapped to {:e}, not {:e}", what, which, v, j, mj, sj, g, want);
                }
            }
        }
        c.count("entries", ((n + q) * d) as u64);
        let w = if d > 1 && c.rng.bool() { d - 1 } else { d + 1 };
        ensure!(t(Matrix::new(2, w, vec![T::of(0.5); 2 * w])).is_err(), "{}: {} columns are accepted", what, w);
    }
    if n > 2 { c.seen(hash_f64s(&wide(&x))); }
    c.sample(|| format!("{}: columns (mean, deviation, size) {:?}", what, st));
    Ok(())
}
fn t02(cx: &mut Ctx) {
    cx.rule("Matrices of 2..20 rows and 1..6 columns (a few up to 5000 rows or 40 columns) with scales 1e-100..1e100 (f64) or 1e-12..1e12 (f32), default and random means and deviations; every entry of the fitted and of other data compared with the affine map. Non-trivial: three rows or more, identified by the data.");
    cx.group("f64", 1500, 60_000, |c| standard::<f64>(c, &|m, s, default, x| {
        let f = if default { StandardizerFitter::default() } else { StandardizerFitter::new(m, s) };
        let mut t: Standardizer<f64> = f.fit(x).map_err(|e| e.to_string())?;
        Ok(Box::new(move |m| t.transform(m).map_err(|e| e.to_string())))
    }));
    cx.group("f32", 1500, 60_000, |c| standard::<f32>(c, &|m, s, default, x| {
        let f = if default { StandardizerFitter::default() } else { StandardizerFitter::new(m as f32, s as f32) };
        let mut t: Standardizer<f32> = f.fit(x).map_err(|e| e.to_string())?;
        Ok(Box::new(move |m| t.transform(m).map_err(|e| e.to_string())))
    }));
    cx.group("refusals", 500, 10_000, |c| {
        let (n, d) = (c.rng.range(2, 8), c.rng.range(1, 4));
        let mut x = c.rng.normals(n * d, 1.0);
        let k = c.rng.below(n * d);
        let which = c.rng.below(5);
        let m = match which {
            0 => { x[k] = f64::NAN; mat(n, d, &x) }
            1 => { x[k] = f64::INFINITY; mat(n, d, &x) }
            2 => { x[k] = f64::NEG_INFINITY; mat(n, d, &x) }
            3 => mat(1, d, &x[..d]),
            _ => mat(0, d, &[]),
        };
        let r = StandardizerFitter::new(0.0, 1.0).fit(&m);
        ensure!(r.is_err(), "fitting {} is accepted: {:?}", ["a NaN", "an infinity", "a negative infinity", "one row", "no rows"][which], r);
        ensure!(kind(&r.unwrap_err()) == "InvalidData", "refused with another kind of error");
        c.count("refusals", 1);
        c.seen(c.index);
        Ok(())
    });
}

fn lp(v: &[f64], p: f64) -> f64 {
    if p.is_infinite() { return v.iter().fold(0.0, |m: f64, x| m.max(x.abs())); }
    let m = v.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    if m == 0.0 { return 0.0; }
    m * v.iter().map(|x| (x.abs() / m).powf(p)).sum::<f64>().powf(1.0 / p)
}
fn normal<T: Num>(c: &mut Case, p: f64, run: &mut dyn FnMut(Matrix<T>) -> Result<Matrix<T>, String>) -> Verdict {
    let (n, d) = (c.rng.size(1, 12, 3000), c.rng.size(1, 7, 60));
    // as large and as small as the powers in the norm allow
    let power = if p.is_infinite() { 1.0 } else { p };
    let (low, high) = if T::NAME == "f32" { (-26.0 / power, 34.0 / power) } else { (-260.0 / power, 285.0 / power) };
    let mut x: Vec<T> = vec![];
    for _ in 0..n {
        let zero = c.rng.chance(0.15);
        let s = match c.rng.below(8) { 0..=2 => c.rng.logu(low, high), 3 => c.rng.logu(high - 6.0 / power, high), 4 => c.rng.logu(low, low + 6.0 / power), _ => 1.0 };
        let mut row: Vec<f64> = (0..d).map(|_| if zero || c.rng.chance(0.2) { 0.0 } else { c.rng.normal() * s }).collect();
        // rows that have the norm one already, or nearly
        if c.rng.chance(0.12) { let (q, e) = (lp(&row, p), 1.0 + if c.rng.bool() { c.rng.sign() * c.rng.logu(-9.0, -3.0) } else { 0.0 }); if q > 0.0 { for v in &mut row { *v *= e / q; } } }
        x.extend(row.into_iter().map(T::of));
    }
    let what = format!("{} {} x {} in the {}-norm", T::NAME, n, d, p);
    let out = run(mat(n, d, &x)).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(out.rows() == n && out.cols() == d, "{}: a {} x {} result", what, out.rows(), out.cols());
    for r in 0..n {
        let (a, b) = (wide(&x[r * d..(r + 1) * d]), wide(&out.data()[r * d..(r + 1) * d]));
        let norm = lp(&a, p);
        if norm == 0.0 { ensure!(b.iter().all(|v| *v == 0.0), "{}: the zero row {} becomes {:?}", what, r, b); c.count("zero rows", 1); continue; }
        // (the root of a power loses as many bits as its logarithm is large)
        let tol = T::EPS * (20.0 + 4.0 * d as f64 + if p == 1.0 || p == 2.0 || p.is_infinite() { 0.0 } else { 3.0 * norm.ln().abs() });
        ensure!((lp(&b, p) - 1.0).abs() <= tol, "{}: row {:?} becomes {:?} of norm {}", what, a, b, lp(&b, p));
        for j in 0..d { ensure!((b[j] - a[j] / norm).abs() <= tol, "{}: row {:?} becomes {:?}, not its multiple by 1/{:e}", what, a, b, norm); }
    }
    // a row that is not finite
    let k = c.rng.below(n * d);
    let mut bad = x.clone();
    bad[k] = T::of(*c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    // (the maximum norm overlooks NaN where it compares entries)
    if !(p.is_infinite() && bad[k].f().is_nan()) {
        let r = run(mat(n, d, &bad));
        ensure!(r.is_err(), "{}: {:?} in row {} is accepted and gives {:?}", what, bad[k], k / d, r);
        c.count("refusals", 1);
        let again = run(mat(n, d, &x)).map_err(|e| format!("{}: after a refusal: {}", what, e))?;
        ensure!(again.data() == out.data(), "{}: another answer after a refusal", what);
    }
    c.count("rows", n as u64);
    if d > 1 && n > 1 { c.seen(hash_f64s(&wide(&x)) ^ p.to_bits()); }
    c.sample(|| format!("{}: {:?} -> {:?}", what, &x[..d], &out.data()[..d]));
    Ok(())
}
fn t03(cx: &mut Ctx) {
    cx.rule("Matrices of 1..12 rows and 1..7 columns (a few up to 3000 rows or 60 columns) with row scales from 1e-260 to 1e285 (f64) or 1e-26 to 1e34 (f32), divided by the power of the norm, zero rows and entries that are not finite, in the Euclidean, 1-, 2-, 3-, 1.5- and maximum norm. Non-trivial: at least two rows and columns, identified by data and norm.");
    cx.group("f64", 2000, 80_000, |c| {
        match c.rng.below(6) {
            0 => { let mut t = Normalizer::<f64, Euclidean>::default(); normal::<f64>(c, 2.0, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
            1 => { let mut t = Normalizer::new(Lp::Integer(1)); normal::<f64>(c, 1.0, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
            2 => { let mut t = Normalizer::new(Lp::Integer(3)); normal::<f64>(c, 3.0, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
            3 => { let mut t = Normalizer::new(Lp::Float(1.5)); normal::<f64>(c, 1.5, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
            4 => { let mut t = Normalizer::new(Lp::Infinity); normal::<f64>(c, f64::INFINITY, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
            _ => { let mut t = Normalizer::new(Euclidean); normal::<f64>(c, 2.0, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
        }
    });
    cx.group("f32", 1000, 40_000, |c| {
        match c.rng.below(3) {
            0 => { let mut t = Normalizer::<f32, Euclidean>::default(); normal::<f32>(c, 2.0, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
            1 => { let mut t = Normalizer::new(Lp::Integer(1)); normal::<f32>(c, 1.0, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
            _ => { let mut t = Normalizer::new(Lp::Infinity); normal::<f32>(c, f64::INFINITY, &mut |m| t.transform(m).map_err(|e| e.to_string())) }
        }
    });
}

fn t04(cx: &mut Ctx) {
    cx.rule("Matrices of 0..40 rows (a few up to 70 000) with identified rows and several item types, generators of three kinds; row multisets compared, orders counted. Non-trivial: at least two rows moved, identified by the order.");
    cx.group("rows", 2500, 100_000, |c| {
        let n = if c.rng.chance(0.1) { c.rng.range(0, 1) } else { c.rng.size(2, 40, 6000) };
        let d = if n <= 400 { c.rng.size(1, 5, 200) } else { c.rng.range(1, 5) };
        let dup = c.rng.chance(0.2);
        let x: Vec<u64> = (0..n * d).map(|k| { let r = k / d; (if dup { r / 3 } else { r }) as u64 * 1000 + (k % d) as u64 }).collect();
        let seed = [c.rng.u64() as usize, c.rng.u64() as usize];
        let salt = c.rng.u64();
        if c.rng.chance(0.05) { rand::verif::set_extreme(c.rng.range(1, 3) as u32); }
        let std = c.rng.bool();
        let mut run = || -> Result<Vec<u64>, String> {
            let m = Matrix::new(n, d, x.clone());
            if std { Shuffler::new(StdRng::from_seed(&seed)).transform(m).map(|m| m.into_vec()).map_err(|e| e.to_string()) }
            else { c.reseed(salt); Shuffler::default().transform(m).map(|m| m.into_vec()).map_err(|e| e.to_string()) }
        };
        let a = run()?;
        let b = run()?;
        rand::verif::set_extreme(0);
        ensure!(a.len() == x.len(), "{} rows of {} give {} entries", n, d, a.len());
        ensure!(a == b, "the same generator state gives two orders of {} rows", n);
        for r in a.chunks(d) { ensure!((0..d).all(|j| r[j] == r[0] + j as u64), "row {:?} is torn apart", r); }
        let (mut p, mut q): (Vec<u64>, Vec<u64>) = (a.iter().step_by(d).cloned().collect(), x.iter().step_by(d).cloned().collect());
        let order = p.clone();
        p.sort();
        q.sort();
        ensure!(p == q, "{} rows are shuffled to {:?}", n, order);
        // the same generator gives the same order whatever the entries are
        if std {
            let m = Matrix::new(n, d, (0..n * d).map(|k| format!("{}", x[k])).collect::<Vec<_>>());
            let s = Shuffler::new(StdRng::from_seed(&seed)).transform(m).map_err(|e| e.to_string())?.into_vec();
            ensure!(s.iter().zip(&a).all(|(s, a)| *s == a.to_string()), "the order depends on the entries");
        }
        c.count("rows", n as u64);
        if order.len() > 2 && order != q { c.seen(hash_usizes(&order.iter().map(|x| *x as usize).collect::<Vec<_>>())); }
        c.sample(|| format!("{} rows: {:?}", n, order));
        Ok(())
    });
    cx.group("histories", 300, 5000, |c| {
        // one shuffler used several times goes on with its generator
        let n = c.rng.range(2, 12);
        let seed = [c.rng.u64() as usize];
        let mut s = Shuffler::new(StdRng::from_seed(&seed));
        let mut t = Shuffler::new(StdRng::from_seed(&seed));
        let x: Vec<f64> = (0..n).map(|v| v as f64).collect();
        for _ in 0..4 {
            let (a, b) = (s.transform(mat(n, 1, &x)).map_err(|e| e.to_string())?, t.transform(mat(n, 1, &x)).map_err(|e| e.to_string())?);
            ensure!(a == b, "two shufflers in the same state differ");
            let mut v = a.into_vec();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            ensure!(v == x, "rows are lost");
        }
        let h = c.rng.u64();
        c.seen(h);
        Ok(())
    });
    cx.group("uniform", 9, 60, |c| {
        let n = 2 + c.index as usize % 4;
        let which = c.rng.below(2);
        let trials = if c.thorough { 120_000 } else { 24_000 };
        let fact = [1, 1, 2, 6, 24, 120][n];
        let mut counts = vec![0u64; fact];
        let mut first = Shuffler::new(StdRng::from_seed(&[c.rng.u64() as usize]));
        for _ in 0..trials {
            let m = Matrix::new(n, 1, (0..n).collect::<Vec<_>>());
            let o = if which == 0 { first.transform(m) } else { Shuffler::default().transform(m) }.map_err(|e| e.to_string())?.into_vec();
            counts[(0..n).fold(0, |h, i| h * (n - i) + o[i + 1..].iter().filter(|x| **x < o[i]).count())] += 1;
        }
        let z = chi2_uniform_z(&counts);
        ensure!(z < Z_ALARM, "orders of {} rows occur {:?} times (score {:.1})", n, counts, z);
        c.count("orders observed", trials);
        c.seen(c.index);
        Ok(())
    });
    cx.group("far positions", 4, 24, |c| {
        // large matrices: every row equally often in every eighth of the result
        let n = *c.rng.pick(&[270, 700, 1500, 5000, 70_000]);
        let trials = if c.thorough { 40_000_000 } else { 6_000_000 } / n as u64;
        let parts = 8;
        let (mut where_, mut ends) = (vec![0u64; parts * parts], vec![0u64; 2 * parts]);
        let part = |i: usize| i * parts / n;
        let mut s = Shuffler::new(StdRng::from_seed(&[c.rng.u64() as usize]));
        for _ in 0..trials {
            let o = s.transform(Matrix::new(n, 1, (0..n).collect::<Vec<_>>())).map_err(|e| e.to_string())?.into_vec();
            for p in (0..16).map(|_| c.rng.below(n)) { where_[part(o[p]) * parts + part(p)] += 1; }
            ends[part(o[0])] += 1;
            ends[parts + part(o[n - 1])] += 1;
        }
        let total = |i: usize| (0..n).filter(|x| part(*x) == i).count() as f64 / n as f64;
        let w: Vec<f64> = (0..parts * parts).map(|k| total(k / parts) * total(k % parts) * trials as f64 * 16.0).collect();
        let z = chi2_z(&where_, &w);
        ensure!(z < Z_ALARM, "{} rows: eighths come to lie in eighths {:?} times (score {:.1})", n, where_, z);
        for e in 0..2 {
            let w: Vec<f64> = (0..parts).map(|k| total(k) * trials as f64).collect();
            let z = chi2_z(&ends[e * parts..(e + 1) * parts], &w);
            ensure!(z < Z_ALARM, "{} rows: the {} row comes from the eighths {:?} times (score {:.1})", n, ["first", "last"][e], &ends[e * parts..(e + 1) * parts], z);
        }
        c.count("orders observed", trials);
        c.seen(n as u64 ^ 0x99);
        Ok(())
    });
    cx.group("positions", 4, 30, |c| {
        let n = c.rng.range(8, 40);
        // (of any width: the order is drawn without regard to the columns)
        let d = if c.rng.bool() { 1 } else { c.rng.size(2, 9, 200) };
        let d = if c.rng.chance(0.3) { c.rng.range(60, 200) } else { d };
        let trials = if c.thorough { 40_000 } else { 8_000 };
        let mut counts = vec![0u64; n * n];
        for _ in 0..trials {
            let o = Shuffler::default().transform(Matrix::new(n, d, (0..n * d).collect::<Vec<_>>())).map_err(|e| e.to_string())?.into_vec();
            for (p, r) in o.chunks(d).enumerate() { counts[r[0] / d * n + p] += 1; }
        }
        for i in 0..n {
            let z = chi2_uniform_z(&counts[i * n..(i + 1) * n]);
            ensure!(z < Z_ALARM, "row {} of {} lands on the positions {:?} times (score {:.1})", i, n, &counts[i * n..(i + 1) * n], z);
        }
        c.count("orders observed", trials);
        c.seen(n as u64 ^ 0x77);
        Ok(())
    });
}

fn round_trip<T: Num>(c: &mut Case, n: usize, d: usize, x: &[T], cond: &[f64], target: f64, what: &str, there: &mut dyn FnMut(Matrix<T>) -> Result<Matrix<T>, String>, back: &dyn Fn(Matrix<T>) -> Result<Matrix<T>, String>) -> Verdict {
    // x -> t -> x
    let mid = there(mat(n, d, x)).map_err(|e| format!("{}: {}", what, e))?;
    let end = back(mid).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(end.rows() == n && end.cols() == d, "{}: a {} x {} result", what, end.rows(), end.cols());
    for k in 0..n * d {
        if !cond[k % d].is_finite() { continue; }
        let (a, b) = (x[k].f(), end.data()[k].f());
        ensure!((a - b).abs() <= T::EPS * 32.0 * (a.abs() + cond[k % d]), "{}: {:e} in column {} comes back as {:e}", what, a, k % d, b);
    }
    // t -> x -> t
    let units: Vec<f64> = (0..d).map(|j| { let v = col(x, d, j); (max(&v) - min(&v)).max(1e-300) / target }).collect();
    let y: Vec<T> = (0..n * d).map(|_| T::of(target * c.rng.normal())).collect();
    let mid = back(mat(n, d, &y)).map_err(|e| format!("{}: {}", what, e))?;
    let m2 = wide(mid.data());
    let end = there(mid).map_err(|e| format!("{}: {}", what, e))?;
    for k in 0..n * d {
        if !cond[k % d].is_finite() { continue; }
        let (a, b) = (y[k].f(), end.data()[k].f());
        // what was lost in the data's units, in the target's
        let unit = units[k % d];
        ensure!((a - b).abs() <= T::EPS * 64.0 * (a.abs() + target + (m2[k].abs() + cond[k % d]) / unit), "{}: {:e} in column {} goes back to {:e} and forth to {:e}", what, a, k % d, m2[k], b);
    }
    let w = if d > 1 && c.rng.bool() { d - 1 } else { d + 1 };
    ensure!(back(Matrix::new(2, w, vec![T::of(0.5); 2 * w])).is_err(), "{}: the inverse accepts {} columns instead of {}", what, w, d);
    ensure!(back(Matrix::new(1, 2 * d + 1, vec![T::of(0.5); 2 * d + 1])).is_err(), "{}: the inverse accepts {} columns instead of {}", what, 2 * d + 1, d);
    c.count("entries", (2 * n * d) as u64);
    if n > 2 { c.seen(hash_f64s(&wide(x))); }
    c.sample(|| format!("{}: {:?} -> {:?}", what, &x[..d], &end.data()[..d]));
    Ok(())
}
fn t05(cx: &mut Ctx) {
    cx.rule("The matrices of T01 and T02 (up to 5000 rows); forth and back on the fitted data and on other rows, back and forth on targets, for both transformers and float types. Non-trivial: three rows or more, identified by the data.");
    macro_rules! trips { ($t:ty, $name:expr) => {
        cx.group(concat!("min-max ", $name), 1200, 50_000, |c| {
            let (n, d) = shape(c, 16);
            let x: Vec<$t> = table(c, n, d);
            let u = if c.rng.chance(0.12) { let top = 0.3 * <$t as rusty_machine_float::F>::TOP; c.rng.logu(-top, top) } else { 1.0 };
            let (lo, w) = (u * c.rng.normal(), u * c.rng.sign() * c.rng.logu(-1.0, 1.0));
            let mut t = match MinMaxFitter::new(lo as $t, (lo + w) as $t).fit(&mat(n, d, &x)) { Ok(t) => t, Err(_) => return Ok(()) };
            // a unit of the target is range / |w| of the data; the constant costs |lo| + w of them and the offset of the data
            let cond: Vec<f64> = (0..d).map(|j| { let v = col(&x, d, j); (max(&v) - min(&v)) * (1.0 + lo.abs() / w.abs()) + max(&v).abs().max(min(&v).abs()) }).collect();
            let what = format!("min-max {} {} x {} onto [{:e}, {:e}]", $name, n, d, lo, lo + w);
            let t2 = std::cell::RefCell::new(&mut t);
            round_trip::<$t>(c, n, d, &x, &cond, w.abs() + lo.abs(), &what, &mut |m| t2.borrow_mut().transform(m).map_err(|e| e.to_string()), &|m| t2.borrow().inv_transform(m).map_err(|e| e.to_string()))?;
            let y: Vec<$t> = (0..3 * d).map(|k| { let v = col(&x, d, k % d); (min(&v) + (max(&v) - min(&v)) * c.rng.uniform(-3.0, 4.0)) as $t }).collect();
            let back = t.transform(mat(3, d, &y)).and_then(|m| t.inv_transform(m)).map_err(|e| e.to_string())?;
            for k in 0..3 * d { ensure!((back.data()[k] as f64 - y[k] as f64).abs() <= <$t as rusty_machine_float::F>::EPS * 32.0 * (y[k].abs() as f64 + 4.0 * cond[k % d]), "{}: other data {:e} comes back as {:e}", what, y[k], back.data()[k]); }
            Ok(())
        });
        cx.group(concat!("standardise ", $name), 1200, 50_000, |c| {
            let (n, d) = shape(c, 16);
            let x: Vec<$t> = table(c, n, d);
            // (nothing keeps the target deviation from being negative: the map can be taken back all the same)
            let u = if c.rng.chance(0.12) { let top = 0.3 * <$t as rusty_machine_float::F>::TOP; c.rng.logu(-top, top) } else { 1.0 };
            let (m, s) = (u * c.rng.normal(), u * c.rng.logu(-1.0, 1.0) * if c.rng.chance(0.1) { -1.0 } else { 1.0 });
            let mut t = StandardizerFitter::new(m as $t, s as $t).fit(&mat(n, d, &x)).map_err(|e| e.to_string())?;
            let eps = <$t as rusty_machine_float::F>::EPS;
            let cond: Vec<f64> = (0..d).map(|j| { let v = col(&x, d, j); let big = max(&v).abs().max(min(&v).abs()); let sd = stdev(&v); if sd <= 1e3 * eps * big { f64::INFINITY } else { sd * (4.0 + m.abs() / s.abs()) + big } }).collect();
            let what = format!("standardise {} {} x {} to mean {:e}, deviation {:e}", $name, n, d, m, s);
            let t2 = std::cell::RefCell::new(&mut t);
            round_trip::<$t>(c, n, d, &x, &cond, s.abs() + m.abs(), &what, &mut |m| t2.borrow_mut().transform(m).map_err(|e| e.to_string()), &|m| t2.borrow().inv_transform(m).map_err(|e| e.to_string()))?;
            let y: Vec<$t> = (0..3 * d).map(|k| { let v = col(&x, d, k % d); (mean(&v) + stdev(&v) * c.rng.normal() * 4.0) as $t }).collect();
            let back = t.transform(mat(3, d, &y)).and_then(|m| t.inv_transform(m)).map_err(|e| e.to_string())?;
            for k in 0..3 * d { ensure!(!cond[k % d].is_finite() || (back.data()[k] as f64 - y[k] as f64).abs() <= eps * 32.0 * (y[k].abs() as f64 + 4.0 * cond[k % d]), "{}: other data {:e} comes back as {:e}", what, y[k], back.data()[k]); }
            Ok(())
        });
    } }
    trips!(f64, "f64");
    trips!(f32, "f32");
}

/// The published iris table (UCI), tenths of centimetres, in the published order.
const IRIS: [&str; 15] = [
    "51351402 49301402 47321302 46311502 50361402 54391704 46341403 50341502 44291402 49311501",
    "54371502 48341602 48301401 43301101 58401202 57441504 54391304 51351403 57381703 51381503",
    "54341702 51371504 46361002 51331705 48341902 50301602 50341604 52351502 52341402 47321602",
    "48311602 54341504 52411501 55421402 49311501 50321202 55351302 49311501 44301302 51341502",
    "50351303 45231303 44321302 50351606 51381904 48301403 51381602 46321402 53371502 50331402",
    "70324714 64324515 69314915 55234013 65284615 57284513 63334716 49243310 66294613 52273914",
    "50203510 59304215 60224010 61294714 56293613 67314414 56304515 58274110 62224515 56253911",
    "59324818 61284013 63254915 61284712 64294313 66304414 68284814 67305017 60294515 57263510",
    "55243811 55243710 58273912 60275116 54304515 60344516 67314715 63234413 56304113 55254013",
    "55264412 61304614 58264012 50233310 56274213 57304212 57294213 62294313 51253011 57284113",
    "63336025 58275119 71305921 63295618 65305822 76306621 49254517 73296318 67255818 72366125",
    "65325120 64275319 68305521 57255020 58285124 64325323 65305518 77386722 77266923 60225015",
    "69325723 56284920 77286720 63274918 67335721 72326018 62284818 61304918 64285621 72305816",
    "74286119 79386420 64285622 63285115 61265614 77306123 63345624 64315518 60304818 69315421",
    "67315624 69315123 58275119 68325923 67335725 67305223 63255019 65305220 62345423 59305118"];
/// The published trees table: girth (tenths of inches), height (feet), volume (tenths of cubic feet).
const TREES: [[u32; 31]; 3] = [
    [83, 86, 88, 105, 107, 108, 110, 110, 111, 112, 113, 114, 114, 117, 120, 129, 129, 133, 137, 138, 140, 142, 145, 160, 163, 173, 175, 179, 180, 180, 206],
    [70, 65, 63, 72, 81, 83, 66, 75, 80, 75, 79, 76, 76, 69, 75, 74, 85, 86, 71, 64, 78, 80, 74, 72, 77, 81, 82, 80, 80, 80, 87],
    [103, 103, 102, 164, 188, 197, 156, 182, 226, 199, 242, 210, 214, 213, 191, 222, 338, 274, 257, 249, 345, 317, 363, 383, 426, 554, 557, 583, 515, 510, 770]];
fn u01(cx: &mut Ctx) {
    cx.rule("Both tables in full, entry by entry, on repeated loads interleaved with changes to loaded copies. Non-trivial: every entry, identified by position and value.");
    cx.group("iris", 3, 30, |c| {
        let set = iris::load();
        ensure!(set.data().rows() == 150 && set.data().cols() == 4 && set.target().size() == 150, "{} x {} measurements, {} targets", set.data().rows(), set.data().cols(), set.target().size());
        let want: Vec<f64> = IRIS.iter().flat_map(|l| l.bytes().filter(|b| *b != b' ').collect::<Vec<_>>()).collect::<Vec<_>>().chunks(2).map(|p| ((p[0] - b'0') as f64 * 10.0 + (p[1] - b'0') as f64) / 10.0).collect();
        for k in 0..600 {
            ensure!((set.data().data()[k] - want[k]).abs() < 1e-12, "measurement {} of flower {} is {}, published {}", k % 4, k / 4, set.data().data()[k], want[k]);
            c.seen(k as u64 * 1000 + (want[k] * 10.0) as u64);
        }
        for k in 0..150 { ensure!(set.target()[k] == k / 50, "flower {} is of class {}", k, set.target()[k]); }
        // published class means
        for (cl, means) in [[5.006, 3.418, 1.464, 0.244], [5.936, 2.770, 4.260, 1.326], [6.588, 2.974, 5.552, 2.026]].iter().enumerate() {
            for j in 0..4 {
                let m = (0..150).filter(|k| set.target()[*k] == cl).map(|k| set.data().data()[k * 4 + j]).sum::<f64>() / 50.0;
                ensure!((m - means[j]).abs() < 1e-9, "class {} has mean {} in column {}, published {}", cl, m, j, means[j]);
            }
        }
        let mut copy = set.data().clone();
        copy *= 2.0;
        ensure!(iris::load().data() == set.data() && iris::load().target() == set.target(), "a second load differs");
        c.count("entries", 750);
        c.sample(|| format!("iris: first flower {:?}, last {:?}", &set.data().data()[..4], &set.data().data()[596..]));
        Ok(())
    });
    cx.group("trees", 3, 30, |c| {
        let set = trees::load();
        ensure!(set.data().rows() == 31 && set.data().cols() == 2 && set.target().size() == 31, "{} x {} measurements, {} targets", set.data().rows(), set.data().cols(), set.target().size());
        for k in 0..31 {
            let row = [set.data().data()[2 * k], set.data().data()[2 * k + 1], set.target()[k]];
            let want = [TREES[0][k] as f64 / 10.0, TREES[1][k] as f64, TREES[2][k] as f64 / 10.0];
            ensure!(all_close(&row, &want, 1e-12, 0.0), "tree {} is {:?}, published {:?}", k, row, want);
            c.seen(1 << 40 | (k as u64) << 20 | TREES[2][k] as u64);
        }
        ensure!(trees::load().data() == set.data() && trees::load().target() == set.target(), "a second load differs");
        c.count("entries", 93);
        c.sample(|| format!("trees: first {:?} {}", &set.data().data()[..2], set.target()[0]));
        Ok(())
    });
}

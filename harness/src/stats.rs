//! Distributions: densities and sampling.
use crate::util::*;
use rand::distributions::{IndependentSample, Sample};
use rand::{ChaChaRng, IsaacRng, Isaac64Rng, Rng as RandRng, SeedableRng, StdRng, XorShiftRng};
use rusty_machine::stats::dist::{consts, Distribution, Exponential, Gaussian};

pub const TABLE: &[(&str, fn(&mut Ctx))] = &[("D01", d01), ("D02", d02)];

/// Complementary error function: Taylor series near 0, continued fraction in the tails.
fn erfc(x: f64) -> f64 {
    if x < 0.0 { return 2.0 - erfc(-x); }
    if x < 2.5 {
        let (mut term, mut sum, mut n) = (x, x, 0.0);
        loop {
            n += 1.0;
            term *= -x * x / n;
            let d = term / (2.0 * n + 1.0);
            sum += d;
            if d.abs() < 1e-18 { break; }
        }
        1.0 - sum * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        let mut f = 0.0;
        for k in (1..=160).rev() { f = k as f64 / 2.0 / (x + f); }
        (-x * x).exp() / ((x + f) * std::f64::consts::PI.sqrt())
    }
}
fn phi(z: f64) -> f64 { 0.5 * erfc(-z / std::f64::consts::SQRT_2) }

struct Table { p: Vec<f64> }
impl Distribution<usize> for Table {
    fn pdf(&self, x: usize) -> f64 { self.p[x] }
    fn cdf(&self, x: usize) -> f64 { self.p[..=x].iter().sum() }
}

/// (distribution, mean, standard deviation, how it was made)
fn gaussian(c: &mut Case, wide: bool) -> (Gaussian, f64, f64, &'static str) {
    let s = match c.rng.below(if wide { 6 } else { 5 }) {
        0 => 1.0,
        1 => c.rng.uniform(0.01, 10.0),
        2 => c.rng.logu(-6.0, 6.0),
        3 => *c.rng.pick(&[0.1, 0.5, 2.0, 3.0, 10.0, 100.0, 1e-3]),
        4 => c.rng.logu(-20.0, 20.0),
        _ => if c.rng.chance(0.2) { c.rng.logu(-153.0, -140.0) } else { c.rng.logu(-140.0, 145.0) },
    };
    let m = match c.rng.below(5) {
        0 => 0.0,
        1 => c.rng.uniform(-10.0, 10.0),
        2 => s * c.rng.uniform(-50.0, 50.0),
        3 => s * *c.rng.pick(&[-1.0, 1.0, -0.25, 1000.0, -1000.0, 1e5, -1e5, 2e4]),
        _ => c.rng.sign() * c.rng.logu(-3.0, 3.0) * s,
    };
    let m = m.max(-1e5 * s).min(1e5 * s);
    match c.rng.below(8) {
        0 => (Gaussian::default(), 0.0, 1.0, "default"),
        1..=3 => (Gaussian::from_std_dev(m, s), m, s, "from_std_dev"),
        _ => (Gaussian::new(m, s * s), m, s, "new"),
    }
}
fn exponential(c: &mut Case, wide: bool) -> (Exponential, f64) {
    let l = match c.rng.below(if wide { 6 } else { 5 }) {
        0 => 1.0,
        1 => c.rng.uniform(0.01, 10.0),
        2 => c.rng.logu(-6.0, 6.0),
        3 => *c.rng.pick(&[0.1, 0.5, 2.0, 3.0, 10.0, 100.0, 1e-3]),
        4 => c.rng.logu(-20.0, 20.0),
        _ => c.rng.logu(-295.0, 295.0),
    };
    if c.rng.below(10) == 0 { (Exponential::default(), 1.0) } else { (Exponential::new(l), l) }
}

fn d01(cx: &mut Ctx) {
    cx.rule("Random and structured parameters (scales 1e-140..1e140, every constructor) with sorted sweeps of points through centre and tails; each point's density, log density and cumulative probability is compared with independent formulas and with the neighbouring point. Identified by the parameters; degenerate or constant sweeps do not count.");
    cx.group("constants", 1, 1, |c| {
        let tau = 2.0 * std::f64::consts::PI;
        ensure!(close(consts::SQRT_2_PI, tau.sqrt(), 1e-15, 0.0) && close(consts::LN_2_PI, tau.ln(), 1e-15, 0.0), "constants {:?}", (consts::SQRT_2_PI, consts::LN_2_PI));
        c.count("constants", 2);
        Ok(())
    });
    cx.group("gaussian", 12000, 60_000, |c| {
        let (g, m, s, how) = gaussian(c, true);
        let wide = c.rng.chance(0.2);
        let mut zs: Vec<f64> = (0..40).map(|i| if wide { (i as f64 - 20.0) * 2.0 } else { (i as f64 - 20.0) * 0.3 } + c.rng.uniform(-0.1, 0.1)).collect();
        zs.extend([0.0, 0.0, -1e-9, 1e-9, 1.0, -1.0, 38.0, -38.0, 0.67, 1e4, -1e4]);
        for _ in 0..10 { let z = c.rng.normal() * 2.0; zs.push(z); }
        let mut xs: Vec<f64> = zs.iter().map(|z| m + z * s).collect();
        xs.push(m);
        xs.extend([0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 10.0, 0.5, -0.5]);
        // a dense sweep somewhere
        let (z0, h) = (c.rng.uniform(-6.0, 6.0), c.rng.logu(-6.0, -2.0));
        xs.extend((0..20).map(|i| m + (z0 + i as f64 * h) * s));
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut last = 0.0;
        for &x in &xs {
            let z = (x - m) / s;
            let (p, lp, f) = (g.pdf(x), g.logpdf(x), g.cdf(x));
            let want_l = -0.5 * z * z - s.ln() - 0.5 * (2.0 * std::f64::consts::PI).ln();
            ensure!(close(lp, want_l, 1e-11, 1e-10), "{}(mean {:e}, sd {:e}): logpdf({:e}) = {:e}, expected {:e}", how, m, s, x, lp, want_l);
            let want = (-0.5 * z * z).exp() / (s * (2.0 * std::f64::consts::PI).sqrt());
            // (beyond 37 deviations the exponential is rounded to few bits)
            ensure!(p >= 0.0 && (close(p, want, 1e-11 * (1.0 + z * z), 1e-300) || z.abs() > 37.0 && p * s < 1e-295), "{}(mean {:e}, sd {:e}): pdf({:e}) = {:e}, expected {:e}", how, m, s, x, p, want);
            if p > 1e-290 && p < 1e290 && z.abs() < 37.0 { ensure!(close(p.ln(), lp, 1e-11, 1e-10), "{}(mean {:e}, sd {:e}): ln pdf({:e}) = {:e} but logpdf = {:e}", how, m, s, x, p.ln(), lp); }
            ensure!((f - phi(z)).abs() < 0.004, "{}(mean {:e}, sd {:e}): cdf({:e}) = {:e}, expected {:e}", how, m, s, x, f, phi(z));
            ensure!(f >= 0.0 && f <= 1.0 && f >= last - 1e-13 / (z.abs() + 1e-6), "{}(mean {:e}, sd {:e}): cdf({:e}) = {:e} after {:e}", how, m, s, x, f, last);
            last = f;
            c.count("points", 1);
        }
        for (x, want) in [(m - 1e6 * s, 0.0), (m + 1e6 * s, 1.0), (f64::NEG_INFINITY, 0.0), (f64::INFINITY, 1.0)] {
            ensure!((g.cdf(x) - want).abs() < 1e-9, "{}(mean {:e}, sd {:e}): cdf({:e}) = {:e}", how, m, s, x, g.cdf(x));
            ensure!(g.pdf(x) == 0.0, "{}(mean {:e}, sd {:e}): pdf({:e}) = {:e}", how, m, s, x, g.pdf(x));
        }
        let (a, b) = (Gaussian::new(m, s * s), Gaussian::from_std_dev(m, s));
        for &x in &xs {
            let z = (x - m) / s;
            ensure!((close(a.pdf(x), b.pdf(x), 1e-11 * (1.0 + z * z), 1e-300) || z.abs() > 37.0) && close(a.logpdf(x), b.logpdf(x), 1e-11, 1e-10) && close(a.cdf(x), b.cdf(x), 0.0, 1e-7),
                "variance {:e} and standard deviation {:e} give different densities at {:e}", s * s, s, x);
        }
        c.seen(hash_f64s(&[m, s, how.len() as f64]));
        c.sample(|| format!("Gaussian {} mean {:e} sd {:e}: {} sorted points from {:e} to {:e}", how, m, s, xs.len(), xs[0], xs[xs.len() - 1]));
        Ok(())
    });
    cx.group("exponential", 12000, 60_000, |c| {
        let (e, l) = exponential(c, true);
        ensure!(e.lambda() == l, "lambda() = {:e}, given {:e}", e.lambda(), l);
        let mut ts: Vec<f64> = (0..30).map(|i| i as f64 * 0.25 * c.rng.uniform(0.8, 1.2)).collect();
        ts.extend([0.0, 1e-300, 1e-17, 1e-8, 1.0, 30.0, 50.0, 200.0, 700.0, 1e4, 1e9]);
        for _ in 0..10 { let z = c.rng.normal().powi(2); ts.push(z); }
        let (t0, h) = (c.rng.uniform(0.0, 20.0), c.rng.logu(-6.0, -2.0));
        ts.extend((0..20).map(|i| t0 + i as f64 * h));
        let mut xs: Vec<f64> = ts.iter().map(|t| t / l).filter(|x| x.is_finite()).collect();
        if l > 1e-200 && l < 1e200 { xs.extend([1.0, 2.0, 3.0, 10.0, 0.5, 0.1]); }
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut last = 0.0;
        for &x in &xs {
            let t = x * l;
            let (p, lp, f) = (e.pdf(x), e.logpdf(x), e.cdf(x));
            ensure!(close(lp, l.ln() - t, 1e-12, 1e-11), "lambda {:e}: logpdf({:e}) = {:e}, expected {:e}", l, x, lp, l.ln() - t);
            ensure!(p >= 0.0 && (close(p, l * (-t).exp(), 1e-12 * (1.0 + t), 1e-300) || t > 690.0 && p / l < 1e-295), "lambda {:e}: pdf({:e}) = {:e}, expected {:e}", l, x, p, l * (-t).exp());
            if p > 1e-290 && p < 1e290 && t < 690.0 { ensure!(close(p.ln(), lp, 1e-11, 1e-10), "lambda {:e}: ln pdf({:e}) = {:e} but logpdf = {:e}", l, x, p.ln(), lp); }
            ensure!((f + (-t).exp_m1()).abs() < 1e-14, "lambda {:e}: cdf({:e}) = {:e}, expected {:e}", l, x, f, -(-t).exp_m1());
            ensure!(f >= 0.0 && f <= 1.0 && f >= last - 1e-15, "lambda {:e}: cdf({:e}) = {:e} after {:e}", l, x, f, last);
            last = f;
            c.count("points", 1);
        }
        ensure!(e.cdf(0.0) == 0.0 && e.cdf(f64::INFINITY) == 1.0 && e.pdf(f64::INFINITY) == 0.0, "lambda {:e}: limits {:?}", l, (e.cdf(0.0), e.cdf(f64::INFINITY)));
        for x in [-1.0 / l, -1e-9 / l, -700.0 / l] {
            let got = (guard(|| e.pdf(x)), guard(|| e.logpdf(x)), guard(|| e.cdf(x)));
            ensure!(got.0.is_err() && got.1.is_err() && got.2.is_err(), "lambda {:e}: the negative point {:e} is not refused: {:?}", l, x, got);
            c.count("refusals", 3);
        }
        c.seen(hash_f64s(&[l]));
        c.sample(|| format!("Exponential lambda {:e}: {} sorted points up to {:e}", l, xs.len(), xs[xs.len() - 1]));
        Ok(())
    });
    cx.group("default log density", 200, 2000, |c| {
        let n = c.rng.range(1, 8);
        let mut p: Vec<f64> = (0..n).map(|_| c.rng.logu(-12.0, 0.0)).collect();
        if n > 1 { p[0] = 0.0; }
        let t = Table { p: p.clone() };
        for i in 0..n {
            ensure!(close(t.logpdf(i), p[i].ln(), 1e-14, 0.0), "default logpdf of density {:e} is {:e}", p[i], t.logpdf(i));
            ensure!(t.cdf(i) >= 0.0, "cdf");
            c.count("points", 1);
        }
        c.seen(hash_f64s(&p));
        Ok(())
    });
}

enum Any { Xor(XorShiftRng), Isaac(IsaacRng), Isaac64(Isaac64Rng), ChaCha(ChaChaRng), Std(StdRng), Thread(rand::ThreadRng) }
impl RandRng for Any {
    fn next_u32(&mut self) -> u32 { match self { Any::Xor(r) => r.next_u32(), Any::Isaac(r) => r.next_u32(), Any::Isaac64(r) => r.next_u32(), Any::ChaCha(r) => r.next_u32(), Any::Std(r) => r.next_u32(), Any::Thread(r) => r.next_u32() } }
    fn next_u64(&mut self) -> u64 { match self { Any::Xor(r) => r.next_u64(), Any::Isaac(r) => r.next_u64(), Any::Isaac64(r) => r.next_u64(), Any::ChaCha(r) => r.next_u64(), Any::Std(r) => r.next_u64(), Any::Thread(r) => r.next_u64() } }
}
fn source(c: &mut Case) -> (Any, &'static str) {
    let s = [c.rng.u64() as u32 | 1, c.rng.u64() as u32, c.rng.u64() as u32, c.rng.u64() as u32];
    let l = [c.rng.u64(), c.rng.u64()];
    match c.rng.below(6) {
        0 => (Any::Xor(XorShiftRng::from_seed(s)), "xorshift"),
        1 => (Any::Isaac(IsaacRng::from_seed(&s)), "isaac"),
        2 => (Any::Isaac64(Isaac64Rng::from_seed(&l)), "isaac64"),
        3 => (Any::ChaCha(ChaChaRng::from_seed(&s)), "chacha"),
        4 => (Any::Std(StdRng::from_seed(&[l[0] as usize, l[1] as usize])), "std"),
        _ => { c.reseed(77); (Any::Thread(rand::thread_rng()), "thread") }
    }
}

/// Kolmogorov-Smirnov distance of values u against Uniform(0,1), times sqrt(n).
fn ks(mut u: Vec<f64>) -> f64 {
    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = u.len() as f64;
    let d = u.iter().enumerate().map(|(i, x)| (x - i as f64 / n).abs().max((x - (i + 1) as f64 / n).abs())).fold(0.0, f64::max);
    d * n.sqrt()
}
/// P(KS * sqrt(n) > 3.8) < 6e-13
const KS_ALARM: f64 = 3.8;

/// u must be independent Uniform(0,1) values.
fn judge(u: &[f64], what: &str) -> Verdict {
    for &x in u { ensure!(x >= 0.0 && x <= 1.0, "{}: a sample at cumulative probability {}", what, x); }
    let d = ks(u.to_vec());
    ensure!(d < KS_ALARM, "{}: {} samples do not follow the distribution, KS distance * sqrt(n) = {:.2}", what, u.len(), d);
    let n = u.len() as f64;
    for lag in [1usize, 2, 3] {
        if u.len() <= lag + 10 { continue; }
        let r: f64 = u.iter().zip(&u[lag..]).map(|(a, b)| (a - 0.5) * (b - 0.5)).sum::<f64>() * 12.0;
        let z = r / (n - lag as f64).sqrt();
        ensure!(z.abs() < Z_ALARM + 1.0, "{}: successive samples at lag {} are correlated, z = {:.1}", what, lag, z);
        let same = u.iter().zip(&u[lag..]).filter(|(a, b)| a == b).count();
        ensure!(same <= 3, "{}: {} of {} samples repeat the one {} before", what, same, u.len(), lag);
    }
    // continuous values do not repeat
    let mut v = u.to_vec();
    v.retain(|x| *x > 1e-3 && *x < 1.0 - 1e-3);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let twice = v.windows(2).filter(|w| w[0] == w[1]).count();
    ensure!(twice <= 5, "{}: {} of {} samples occur more than once", what, twice, u.len());
    // one half of the pairs ascend; triples: each order one sixth
    let m = u.len() / 3;
    if m > 60 {
        let mut k = [0u64; 6];
        for t in u.chunks(3).filter(|t| t.len() == 3) {
            let o = (t[0] < t[1]) as usize + 2 * ((t[1] < t[2]) as usize) + 4 * ((t[0] < t[2]) as usize);
            k[match o { 7 => 0, 0 => 1, 1 => 2, 5 => 3, 2 => 4, _ => 5 }] += 1;
        }
        let z = chi2_uniform_z(&k);
        ensure!(z < Z_ALARM, "{}: the orders of successive triples are not equally likely: {:?}, z = {:.1}", what, k, z);
    }
    Ok(())
}

/// Counts of many samples in equally likely bins, in ever thinner tails at both ends and in narrow slices around the middle.
/// `lo(x)`, `hi(x)`: probability of a value below and above x.
fn fine(xs: &mut dyn FnMut() -> (f64, f64), n: u64, what: &str) -> Result<String, String> {
    let bins = 500;
    let mut k = vec![0u64; bins];
    let mut tails = [[0u64; 24]; 2];
    let mut middle = [0u64; 12];
    for _ in 0..n {
        let (lo, hi) = xs();
        ensure!(lo >= 0.0 && hi >= 0.0 && lo <= 1.0 && hi <= 1.0, "{}: a sample at cumulative probability {} / {}", what, lo, hi);
        k[((lo * bins as f64) as usize).min(bins - 1)] += 1;
        for (side, q) in [lo, hi].iter().enumerate() {
            // tail t holds the samples of tail probability below 2^-(t+1)
            let t = if *q > 0.0 { (-q.log2()).floor() as usize } else { 24 };
            for t in 0..t.min(24) { tails[side][t] += 1; }
        }
        let off = (lo - 0.5).abs();
        if off < 0.25 { let t = if off > 0.0 { (-off.log2()).floor() as usize - 1 } else { 12 }; for t in 0..t.min(12) { middle[t] += 1; } }
    }
    let z = chi2_uniform_z(&k);
    ensure!(z < Z_ALARM, "{}: {} samples in {} equally likely bins, z = {:.1}", what, n, bins, z);
    for t in 0..24 {
        let e = n as f64 / 2f64.powi(t as i32 + 1);
        for side in 0..2 {
            let o = tails[side][t] as f64;
            ensure!(poisson_bound(o, e) > 1e-13, "{}: {} of {} samples lie in the {} tail of probability 2^-{}, expected {:.1}", what, o, n, ["lower", "upper"][side], t + 1, e);
        }
        if t < 12 {
            let o = middle[t] as f64;
            let e = n as f64 / 2f64.powi(t as i32 + 1);
            ensure!(poisson_bound(o, e) > 1e-13, "{}: {} of {} samples lie in the middle slice of probability 2^-{}, expected {:.1}", what, o, n, t + 1, e);
        }
    }
    Ok(format!("{}: {} samples, bins z {:.2}, tails {:?}", what, n, z, tails))
}

fn d02(cx: &mut Ctx) {
    cx.rule("Samples from distributions with random and structured parameters through both sampling interfaces and six generators, tested with Kolmogorov-Smirnov, lag correlation and triple orders; same-stream and interleaving equality. Identified by parameters and generator; at least 1000 samples, or at least 20 for the equality workloads.");
    cx.group("gaussian law", 600, 2400, |c| {
        let (mut g, m, s, how) = gaussian(c, false);
        let (mut r, name) = source(c);
        let n = if c.thorough { if c.index % 40 == 0 { 400_000 } else { 40_000 } } else if c.index % 24 == 0 { 60_000 } else { 6000 };
        let via = c.rng.bool();
        let xs: Vec<f64> = (0..n).map(|_| if via { g.sample(&mut r) } else { g.ind_sample(&mut r) }).collect();
        let zs: Vec<f64> = xs.iter().map(|x| (x - m) / s).collect();
        let what = format!("Gaussian {} mean {:e} sd {:e} ({})", how, m, s, name);
        judge(&zs.iter().map(|z| phi(*z)).collect::<Vec<_>>(), &what)?;
        let nf = n as f64;
        let z1 = zs.iter().sum::<f64>() / nf.sqrt();
        let z2 = (zs.iter().map(|z| z * z).sum::<f64>() - nf) / (2.0 * nf).sqrt();
        ensure!(z1.abs() < Z_ALARM && z2.abs() < Z_ALARM + 1.0, "{}: mean off by z = {:.1}, variance by z = {:.1}", what, z1, z2);
        c.count("samples", n);
        c.seen(hash_f64s(&[m, s, name.len() as f64, via as u8 as f64]));
        c.sample(|| format!("{}: {} samples, mean z {:.2}, variance z {:.2}", what, n, z1, z2));
        Ok(())
    });
    cx.group("exponential law", 600, 2400, |c| {
        let (mut e, l) = exponential(c, false);
        let (mut r, name) = source(c);
        let n = if c.thorough { if c.index % 40 == 0 { 400_000 } else { 40_000 } } else if c.index % 24 == 0 { 60_000 } else { 6000 };
        let via = c.rng.bool();
        let ts: Vec<f64> = (0..n).map(|_| l * if via { e.sample(&mut r) } else { e.ind_sample(&mut r) }).collect();
        let what = format!("Exponential lambda {:e} ({})", l, name);
        ensure!(ts.iter().all(|t| *t >= 0.0), "{}: a negative sample", what);
        judge(&ts.iter().map(|t| -(-t).exp_m1()).collect::<Vec<_>>(), &what)?;
        let z1 = (ts.iter().sum::<f64>() - n as f64) / (n as f64).sqrt();
        ensure!(z1.abs() < Z_ALARM + 1.0, "{}: mean off by z = {:.1}", what, z1);
        c.count("samples", n);
        c.seen(hash_f64s(&[l, name.len() as f64, via as u8 as f64]));
        c.sample(|| format!("{}: {} samples, mean z {:.2}", what, n, z1));
        Ok(())
    });
    cx.group("gaussian tails", 4, 24, |c| {
        let (g, m, s, how) = gaussian(c, false);
        let (mut r, name) = source(c);
        let n = if c.thorough { 20_000_000 } else { 2_000_000 };
        let what = format!("Gaussian {} mean {:e} sd {:e} ({})", how, m, s, name);
        let msg = fine(&mut || { let z = (g.ind_sample(&mut r) - m) / s; if z < 0.0 { let p = phi(z); (p, 1.0 - p) } else { let p = phi(-z); (1.0 - p, p) } }, n, &what)?;
        c.count("samples", n);
        c.seen(hash_f64s(&[m, s, name.len() as f64]));
        c.sample(|| msg);
        Ok(())
    });
    cx.group("exponential tails", 4, 24, |c| {
        let (e, l) = exponential(c, false);
        let (mut r, name) = source(c);
        let n = if c.thorough { 20_000_000 } else { 2_000_000 };
        let what = format!("Exponential lambda {:e} ({})", l, name);
        let msg = fine(&mut || { let t = l * e.ind_sample(&mut r); (-(-t).exp_m1(), (-t).exp()) }, n, &what)?;
        c.count("samples", n);
        c.seen(hash_f64s(&[l, name.len() as f64]));
        c.sample(|| msg);
        Ok(())
    });
    cx.group("gaussian extremes", 1, 8, |c| {
        let (mut g, m, s, how) = gaussian(c, false);
        let mut r = XorShiftRng::from_seed([c.rng.u64() as u32 | 1, c.rng.u64() as u32, c.rng.u64() as u32, c.rng.u64() as u32]);
        let n = if c.thorough { 100_000_000u64 } else { 25_000_000 };
        let at = [3.0, 3.5, 4.0, 4.25, 4.5, 4.75, 5.0, 5.25];
        let mut k = [[0u64; 8]; 2];
        let mut slices = [[0u64; 160]; 2];
        let via = c.rng.bool();
        for _ in 0..n {
            let z = ((if via { g.sample(&mut r) } else { g.ind_sample(&mut r) }) - m) / s;
            let a = z.abs();
            if a > 2.0 { slices[(z > 0.0) as usize][(((a - 2.0) / 0.025) as usize).min(159)] += 1; }
            if a > at[0] { for (i, t) in at.iter().enumerate() { if a > *t { k[(z > 0.0) as usize][i] += 1; } } }
        }
        for (i, t) in at.iter().enumerate() {
            let e = n as f64 * phi(-t);
            for (o, e, side) in [(k[0][i], e, "below"), (k[1][i], e, "above"), (k[0][i] + k[1][i], 2.0 * e, "beyond")] {
                ensure!(poisson_bound(o as f64, e) > 1e-11, "Gaussian {} mean {:e} sd {:e}: {} of {} samples lie {} {} standard deviations, expected {:.1}", how, m, s, o, n, side, t, e);
            }
        }
        for i in 0..159 {
            let (lo, hi) = (2.0 + i as f64 * 0.025, 2.0 + (i + 1) as f64 * 0.025);
            let e = n as f64 * (phi(-lo) - phi(-hi));
            for (o, e, side) in [(slices[0][i], e, "below"), (slices[1][i], e, "above"), (slices[0][i] + slices[1][i], 2.0 * e, "beyond")] {
                ensure!(poisson_bound(o as f64, e) > 1e-13, "Gaussian {} mean {:e} sd {:e}: {} of {} samples lie between {} and {} standard deviations {}, expected {:.1}", how, m, s, o, n, lo, hi, side, e);
            }
        }
        c.count("samples", n);
        c.seen(hash_f64s(&[m, s, how.len() as f64, c.seed as f64]));
        c.sample(|| format!("Gaussian {} mean {:e} sd {:e}: {} samples beyond {:?} deviations: {:?}", how, m, s, n, at, k));
        Ok(())
    });
    cx.group("exponential extremes", 1, 8, |c| {
        let (mut d, l) = exponential(c, false);
        let mut r = XorShiftRng::from_seed([c.rng.u64() as u32 | 1, c.rng.u64() as u32, c.rng.u64() as u32, c.rng.u64() as u32]);
        let n = if c.thorough { 100_000_000u64 } else { 25_000_000 };
        let (hi, lo) = ([6.0, 8.0, 10.0, 11.0, 12.0, 13.0, 13.5], [1e-2, 1e-3, 1e-4, 1e-5, 4e-6, 2e-6, 1.2e-6]);
        let mut k = [[0u64; 7]; 2];
        let mut slices = [0u64; 140];
        let via = c.rng.bool();
        for _ in 0..n {
            let t = l * if via { d.sample(&mut r) } else { d.ind_sample(&mut r) };
            if t > 3.0 { slices[(((t - 3.0) / 0.1) as usize).min(139)] += 1; }
            if t > hi[0] { for (i, h) in hi.iter().enumerate() { if t > *h { k[0][i] += 1; } } }
            if t < lo[0] { for (i, h) in lo.iter().enumerate() { if t < *h { k[1][i] += 1; } } }
        }
        for i in 0..7 {
            for (o, p, side, t) in [(k[0][i], (-hi[i]).exp(), "above", hi[i]), (k[1][i], -(-lo[i]).exp_m1(), "below", lo[i])] {
                let e = n as f64 * p;
                ensure!(poisson_bound(o as f64, e) > 1e-11, "Exponential lambda {:e}: {} of {} samples lie {} {} means, expected {:.1}", l, o, n, side, t, e);
            }
        }
        for i in 0..139 {
            let lo = 3.0 + i as f64 * 0.1;
            let e = n as f64 * ((-lo).exp() - (-lo - 0.1).exp());
            ensure!(poisson_bound(slices[i] as f64, e) > 1e-13, "Exponential lambda {:e}: {} of {} samples lie between {} and {} means, expected {:.1}", l, slices[i], n, lo, lo + 0.1, e);
        }
        c.count("samples", n);
        c.seen(hash_f64s(&[l, c.seed as f64]));
        c.sample(|| format!("Exponential lambda {:e}: {} samples above {:?} and below {:?} means: {:?}", l, n, hi, lo, k));
        Ok(())
    });
    cx.group("extreme words", 400, 4000, |c| {
        let (mut g, m, s, how) = gaussian(c, true);
        c.reseed(c.seed);
        let mut r = rand::thread_rng();
        for i in 0..30 {
            rand::verif::set_extreme(*c.rng.pick(&[0, 1, 1, 2, 3, 4]));
            let x = if i % 2 == 0 { g.sample(&mut r) } else { g.ind_sample(&mut r) };
            rand::verif::set_extreme(0);
            ensure!(x.is_finite() && (x - m).abs() < 60.0 * s, "Gaussian {} mean {:e} sd {:e}: sample {:e} from a stream with extreme words", how, m, s, x);
        }
        c.count("samples", 30);
        c.seen(hash_f64s(&[m, s, c.seed as f64]));
        Ok(())
    });
    cx.group("same stream, same values", 2000, 40_000, |c| {
        let seed = [c.rng.u64() as u32 | 1, c.rng.u64() as u32, c.rng.u64() as u32, c.rng.u64() as u32];
        let (g, m, s, _) = gaussian(c, true);
        let (e, l) = exponential(c, true);
        let n = c.rng.range(20, 60);
        let fresh = || XorShiftRng::from_seed(seed);
        let other: Vec<usize> = (0..n).map(|_| c.rng.below(4)).collect();
        let mut noise = XorShiftRng::from_seed([7, 8, 9, c.seed as u32]);
        // (a) immutable interface, alone; (b) mutable interface; (c) interleaved with draws from another generator
        let (mut ra, mut rb, mut rc) = (fresh(), fresh(), fresh());
        let (mut gb, mut gc) = (g, g);
        // objects of other parameters at work in between
        let (g2, e2) = (Gaussian::new(m + s, 2.0 * s * s), Exponential::new(3.0 * l));
        let _ = (gc.sample(&mut noise), gc.ind_sample(&mut noise));
        for i in 0..n {
            let a = g.ind_sample(&mut ra);
            let b = gb.sample(&mut rb);
            for _ in 0..other[i] { let _ = gc.sample(&mut noise); }
            if i % 3 == 1 { let _ = (g2.ind_sample(&mut noise), e2.ind_sample(&mut noise)); }
            let d = if i % 2 == 0 { gc.sample(&mut rc) } else { gc.ind_sample(&mut rc) };
            ensure!(a.is_finite(), "Gaussian mean {:e} sd {:e}: sample {}", m, s, a);
            ensure!(a == b && a == d, "Gaussian mean {:e} sd {:e}: draw {} gives {:e}, {:e} and {:e} on the same stream", m, s, i, a, b, d);
        }
        let (mut ra, mut rb, mut rc) = (fresh(), fresh(), fresh());
        let (mut eb, mut ec) = (e, e);
        let _ = (ec.sample(&mut noise), ec.ind_sample(&mut noise));
        for i in 0..n {
            let a = e.ind_sample(&mut ra);
            let b = eb.sample(&mut rb);
            for _ in 0..other[i] { let _ = ec.sample(&mut noise); }
            if i % 3 == 1 { let _ = (e2.ind_sample(&mut noise), g2.ind_sample(&mut noise)); }
            let d = if i % 2 == 0 { ec.sample(&mut rc) } else { ec.ind_sample(&mut rc) };
            ensure!(a.is_finite() && a >= 0.0, "Exponential {:e}: sample {}", l, a);
            ensure!(a == b && a == d, "Exponential {:e}: draw {} gives {:e}, {:e} and {:e} on the same stream", l, i, a, b, d);
        }
        c.count("samples", 6 * n as u64);
        c.seen(hash_f64s(&[m, s, l, c.seed as f64]));
        Ok(())
    });
    cx.group("degenerate", 50, 500, |c| {
        let m = c.rng.normal() * 10.0;
        let (mut r, _) = source(c);
        for g in [Gaussian::new(m, 0.0), Gaussian::from_std_dev(m, 0.0)] {
            for _ in 0..20 { let x = g.ind_sample(&mut r); ensure!(x == m, "a Gaussian of zero spread at {} gave {}", m, x); }
        }
        c.count("samples", 40);
        Ok(())
    });
}

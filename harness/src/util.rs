//! Case driver, verdicts, evidence and random inputs.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)); } };
}

/// splitmix64 / xoshiro256**: the harness's own generator, independent of the crate under test.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
pub fn hash_f64s(v: &[f64]) -> u64 { v.iter().fold(v.len() as u64, |h, x| mix(h ^ x.to_bits())) }
pub fn hash_usizes(v: &[usize]) -> u64 { v.iter().fold(v.len() as u64, |h, x| mix(h ^ *x as u64)) }
#[allow(dead_code)]
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut s = [0; 4];
        for x in &mut s { z = mix(z); *x = z; }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    /// 0 <= x < n
    pub fn below(&mut self, n: usize) -> usize { ((self.u64() as u128 * n as u128) >> 64) as usize }
    /// lo <= x <= hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// Mostly lo..hi, now and then up to `big`: code may behave otherwise beyond some size.
    pub fn size(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        if !self.chance(0.04) { return self.range(lo, hi); }
        let top = if self.bool() { big } else { hi + (big - hi) / 3 };
        self.range(hi, top)
    }
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.unit() }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn sign(&mut self) -> f64 { if self.bool() { 1.0 } else { -1.0 } }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * self.unit()).cos()
    }
    /// log-uniform magnitude in 10^lo .. 10^hi
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 { 10f64.powf(self.uniform(lo, hi)) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn perm(&mut self, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); self.shuffle(&mut v); v }
    pub fn normals(&mut self, n: usize, scale: f64) -> Vec<f64> { (0..n).map(|_| self.normal() * scale).collect() }
    pub fn uniforms(&mut self, n: usize, lo: f64, hi: f64) -> Vec<f64> { (0..n).map(|_| self.uniform(lo, hi)).collect() }
    /// small integers as floats: exact arithmetic, many ties and duplicates
    pub fn ints(&mut self, n: usize, lo: i64, hi: i64) -> Vec<f64> { (0..n).map(|_| lo as f64 + self.below((hi - lo + 1) as usize) as f64).collect() }
}

/// One execution of the code under test.
pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub seed: u64,
    pub thorough: bool,
    rec: &'a mut Record,
}
#[derive(Default)]
struct Record {
    /// whole cases, and single observations within them
    distinct: HashSet<u64>,
    observed: HashSet<u64>,
    case_hash: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    group_samples: u32,
    findings: Vec<(String, String)>,
}
#[allow(dead_code)]
impl<'a> Case<'a> {
    /// A non-trivial execution, identified by what was fed in and observed.
    pub fn seen(&mut self, h: u64) { self.rec.observed.insert(mix(h)); self.rec.case_hash = mix(self.rec.case_hash ^ mix(h)); }
    /// Counts observed events.
    pub fn count(&mut self, what: &str, n: u64) { *self.rec.counters.entry(what.to_string()).or_insert(0) += n; }
    /// Writes out an actual case for the evidence file.
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.rec.group_samples < 2 && self.rec.samples.len() < 14 {
            self.rec.group_samples += 1;
            let mut s = f();
            if s.len() > 700 { let mut k = 700; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push('…'); }
            self.rec.samples.push(s);
        }
    }
    /// A genuine defect recorded in KNOWN_FINDINGS under `sig`; a violation if it is not listed there.
    pub fn finding(&mut self, sig: &str, what: String) { self.rec.findings.push((sig.to_string(), what)); }
    /// Restarts the crate's thread_rng stream (same case, chosen salt).
    pub fn reseed(&mut self, salt: u64) { rand::verif::seed_thread_rng(mix(self.seed ^ mix(salt))); }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    evals: u64,
    groups: BTreeMap<String, u64>,
    rec: Record,
    violations: Vec<(String, u64, String)>,
    inconclusive: Vec<String>,
    only: Option<(String, u64)>,
    only_group: Option<String>,
    until: Option<std::time::Instant>,
    known: Vec<(String, String)>,
    rules: Vec<String>,
    scale: f64,
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);
static WORKER: AtomicU64 = AtomicU64::new(0);
static QUIET: AtomicBool = AtomicBool::new(true);
static CURRENT: Mutex<(String, u64)> = Mutex::new((String::new(), 0));
thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

fn cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
/// CPU seconds one case may use. Cases use a few seconds at the very most.
const CASE_CPU_LIMIT_S: u64 = 60;

/// Runs `f` and returns Err(panic message) if it panics.
pub fn guard<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Ctx {
    /// What makes a case of this property, and what makes it non-trivial.
    pub fn rule(&mut self, s: &str) { self.rules.push(s.to_string()); }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        ((n as f64 * self.scale).ceil() as u64).max(1)
    }
    /// Runs `n` executions of one workload; each is replayable from (seed, group, index).
    pub fn group<F: FnMut(&mut Case) -> Verdict>(&mut self, name: &str, quick: u64, thorough: u64, mut f: F) {
        if let Some(ref g) = self.only_group { if g != name { return; } }
        let n = self.n(quick, thorough);
        let mut bad = 0;
        self.rec.group_samples = 0;
        for i in 0..n {
            if let Some((ref g, k)) = self.only {
                if g != name || k != i { continue; }
            }
            if let Some(t) = self.until { if std::time::Instant::now() > t { break; } }
            let seed = mix(self.seed ^ mix(hash_str(&self.prop) ^ mix(hash_str(name) ^ mix(i))));
            {
                let mut c = CURRENT.lock().unwrap();
                if c.0 != name { c.0 = name.to_string(); }
                c.1 = i;
            }
            crumb(&self.prop, name, i);
            CASE_NO.fetch_add(1, Ordering::SeqCst);
            CASE_CPU.store(cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID), Ordering::SeqCst);
            rand::verif::seed_thread_rng(seed);
            rand::verif::set_extreme(0);
            let mut case = Case { rng: Rng::new(seed), index: i, seed, thorough: self.thorough, rec: &mut self.rec };
            let r = match guard(|| f(&mut case)) {
                Ok(r) => r,
                Err(p) => Err(format!("panicked: {}", p)),
            };
            self.evals += 1;
            if self.rec.case_hash != 0 { self.rec.distinct.insert(self.rec.case_hash); self.rec.case_hash = 0; }
            *self.groups.entry(name.to_string()).or_insert(0) += 1;
            let mut errs: Vec<String> = r.err().into_iter().collect();
            for (sig, what) in self.rec.findings.drain(..) {
                match self.known.iter().find(|k| k.0 == sig) {
                    Some(_) => { *self.rec.counters.entry(format!("known-finding:{}", sig)).or_insert(0) += 1; }
                    None => errs.push(format!("[{}] {}", sig, what)),
                }
            }
            for e in errs {
                bad += 1;
                self.violations.push((name.to_string(), i, e));
            }
            if bad >= 3 { break; }
        }
    }
    #[allow(dead_code)]
    pub fn inconclusive(&mut self, why: String) { self.inconclusive.push(why); }
}

/// Where the worker is, for a runner that has to explain a dead process.
fn crumb(prop: &str, group: &str, i: u64) {
    thread_local!(static F: RefCell<Option<std::fs::File>> = RefCell::new(std::env::var("MON_CRUMB").ok().and_then(|p| std::fs::File::create(p).ok()));
                  static LAST: RefCell<(String, u64)> = RefCell::new((String::new(), 0)););
    F.with(|f| if let Some(ref mut f) = *f.borrow_mut() {
        use std::os::unix::fs::FileExt;
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            if l.0 != group { l.0 = group.to_string(); }
            l.1 = i;
            let s = format!("{:<8}{:<60}{:<20}\n", prop, group, i);
            let _ = f.write_all_at(s.as_bytes(), 0);
        });
    });
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The open findings of KNOWN_FINDINGS: lines `open: property=<id> signature=<sig> <what fails>`.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(std::env::var("MON_KNOWN").unwrap_or_default()).unwrap_or_default();
    let head = format!("open: property={} signature=", prop);
    text.lines().filter_map(|l| l.strip_prefix(&head[..])).filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn drive(table: &[(&str, fn(&mut Ctx))]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    // `union FILE…`: how many different records the files of several processes hold together
    if args.get(1).map_or(false, |a| a == "union") {
        let mut all = HashSet::new();
        for f in &args[2..] { for b in std::fs::read(f).unwrap_or_default().chunks_exact(8) { let mut w = [0; 8]; w.copy_from_slice(b); all.insert(u64::from_le_bytes(w)); } }
        println!("{}", all.len());
        return 0;
    }
    let prop = match args.get(1) { Some(p) => p.clone(), None => { eprintln!("usage: monitors PROP [--tier t] [--seed n] [--only group:case]"); return 2; } };
    let f = match table.iter().find(|t| t.0 == prop) { Some(t) => t.1, None => { eprintln!("no monitor for {} in this build", prop); return 2; } };
    let tier = opt("--tier").unwrap_or_else(|| "quick".into());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = opt("--only").and_then(|s| s.rsplit_once(':').map(|(g, i)| (g.to_string(), i.parse().unwrap_or(0))));
    let out = opt("--out");
    let replays = opt("--replays").unwrap_or_else(|| ".".into());
    let scale = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only_group = opt("--group");
    // no new case is started after so many seconds
    let seconds: Option<f64> = opt("--seconds").and_then(|s| s.parse().ok());
    let verbose = args.iter().any(|a| a == "--verbose");
    if verbose { QUIET.store(false, Ordering::SeqCst); }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, at));
        if !QUIET.load(Ordering::SeqCst) { eprintln!("panic: {}{}", msg, at); }
    }));
    let start = std::time::Instant::now();
    let p2 = prop.clone();
    let (rp, sd, tr) = (replays.clone(), seed, tier.clone());
    let worker = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let mut clk: libc::clockid_t = 0;
        if !cfg!(miri) { unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) }; WORKER.store(clk as u32 as u64 | 1 << 40, Ordering::SeqCst); }
        let mut cx = Ctx {
            known: known_findings(&p2), prop: p2, thorough: tier == "thorough", seed, evals: 0, groups: BTreeMap::new(), rec: Record::default(),
            violations: vec![], inconclusive: vec![], only, only_group, until: seconds.map(|s| start + std::time::Duration::from_secs_f64(s)), rules: vec![], scale,
        };
        f(&mut cx);
        WORKER.store(0, Ordering::SeqCst);
        (cx, tier)
    }).unwrap();
    // A case that burns a minute of its own CPU time (not of wall-clock time) does not terminate.
    let p3 = prop.clone();
    if !cfg!(miri) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let w = WORKER.load(Ordering::SeqCst);
            if w == 0 { continue; }
            let no = CASE_NO.load(Ordering::SeqCst);
            let used = cpu_ns((w & 0xFFFF_FFFF) as u32 as libc::clockid_t).saturating_sub(CASE_CPU.load(Ordering::SeqCst));
            if used > CASE_CPU_LIMIT_S * 1_000_000_000 && no == CASE_NO.load(Ordering::SeqCst) && WORKER.load(Ordering::SeqCst) != 0 {
                let (g, i) = CURRENT.lock().unwrap().clone();
                let path = write_replay(&rp, &p3, &tr, sd, &g, i, &format!("no answer after {} s of CPU time", CASE_CPU_LIMIT_S));
                println!("VIOLATION property={} replay={}", p3, path);
                println!("  {}:{} does not terminate ({} s of CPU time)", g, i, CASE_CPU_LIMIT_S);
                std::process::exit(1);
            }
        });
    }
    let (cx, tier) = match worker.join() { Ok(x) => x, Err(_) => { eprintln!("harness error: {}", LAST_PANIC.with(|p| p.borrow().clone())); return 2; } };
    let wall = start.elapsed().as_secs_f64();
    let nontrivial = cx.rec.distinct.len();
    if let Some(h) = opt("--hashes") { let _ = std::fs::write(&h, cx.rec.distinct.iter().flat_map(|v| v.to_le_bytes().to_vec()).collect::<Vec<u8>>()); }
    if let Some(out) = out {
        let mut j = String::from("{\n");
        let _ = write!(j, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", esc(&prop), esc(&tier), cx.seed);
        let _ = write!(j, " \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"distinct_observations\": {},\n  \"rule\": {},\n", cx.evals, nontrivial, cx.rec.observed.len(), esc(&cx.rules.join(" ")));
        let _ = write!(j, "  \"executions_by_workload\": {{{}}},\n", cx.groups.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
        let _ = write!(j, "  \"observed\": {{{}}},\n", cx.rec.counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
        let _ = write!(j, "  \"samples\": [{}]\n }},\n", cx.rec.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n   "));
        let _ = write!(j, " \"assumptions\": [\"rulinalg and num are stand-ins (see DESIGN.md); rand 0.4.6 is the real crate with a seedable thread_rng\"],\n");
        let _ = write!(j, " \"wall_s\": {:.2}, \"violations\": {}\n}}\n", wall, cx.violations.len());
        if let Err(e) = std::fs::write(&out, j) { eprintln!("cannot write {}: {}", out, e); return 2; }
    }
    for (sig, what) in &cx.known {
        if cx.rec.counters.contains_key(&format!("known-finding:{}", sig)) { println!("KNOWN-FINDING: property={} {} ({})", prop, what, sig); }
    }
    if !cx.violations.is_empty() {
        for (k, (g, i, e)) in cx.violations.iter().enumerate() {
            if k >= 12 { println!("  … and {} more", cx.violations.len() - k); break; }
            let path = write_replay(&replays, &prop, &tier, cx.seed, g, *i, e);
            println!("VIOLATION property={} replay={}", prop, path);
            println!("  {}:{} {}", g, i, e);
        }
        return 1;
    }
    if !cx.inconclusive.is_empty() { for i in &cx.inconclusive { println!("INCONCLUSIVE property={} {}", prop, i); } return 3; }
    if cx.only.is_none() && cx.only_group.is_none() && seconds.is_none() && (cx.evals == 0 || nontrivial == 0) { println!("INCONCLUSIVE property={} nothing was observed", prop); return 3; }
    println!("HELD property={} on {} executions ({} distinct non-trivial) in {:.1} s; {}", prop, cx.evals, nontrivial, wall,
        cx.rec.counters.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
    0
}

fn write_replay(dir: &str, prop: &str, tier: &str, seed: u64, g: &str, i: u64, e: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}-{}.json", dir, prop, g.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), i);
    let s = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"workload\": {}, \"case\": {}, \"observed\": {},\n \"replay\": {}}}\n",
        esc(prop), esc(tier), seed, esc(g), i, esc(e), esc(&format!("cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {} --only '{}:{}'", seed, tier, prop, g, i)));
    let _ = std::fs::write(&path, s);
    path
}

// ---------------------------------------------------------------- numbers

/// |a-b| <= abs + rel*max(|a|,|b|); NaN is close to nothing.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool { a == b || (a - b).abs() <= abs + rel * a.abs().max(b.abs()) }
#[allow(dead_code)]
pub fn all_close(a: &[f64], b: &[f64], rel: f64, abs: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, rel, abs)) }

/// Chi-square statistic against equal expectations -> normal score (Wilson-Hilferty). Beyond +-7: p < 1e-11.
#[allow(dead_code)]
pub fn chi2_z(counts: &[u64], expect: &[f64]) -> f64 {
    let x: f64 = counts.iter().zip(expect).map(|(c, e)| (*c as f64 - e).powi(2) / e).sum();
    let k = (counts.len() - 1) as f64;
    ((x / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt()
}
#[allow(dead_code)]
pub fn chi2_uniform_z(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    chi2_z(counts, &vec![n as f64 / counts.len() as f64; counts.len()])
}
/// z-score of an observed count with success probability p in n trials.
#[allow(dead_code)]
pub fn binom_z(k: u64, n: u64, p: f64) -> f64 { (k as f64 - n as f64 * p) / (n as f64 * p * (1.0 - p)).sqrt() }
#[allow(dead_code)]
pub const Z_ALARM: f64 = 7.0;

/// Probability that a Poisson (or binomial) count of mean e is as extreme as k, or more (upper bound by Chernoff).
pub fn poisson_bound(k: f64, e: f64) -> f64 { if k == 0.0 { (-e).exp() } else { (k - e - k * (k / e).ln()).exp() } }

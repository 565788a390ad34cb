//! Property-based testing engine: a recorded stream of bounded choices drives every
//! generator, so that random generation, coverage-guided mutation, shrinking and replay
//! all work on the same representation.
use crate::json::J;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, y) in c.iter().enumerate() {
            x |= (*y as u64) << (8 * i);
        }
        h = (h ^ x).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h ^ (b.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)
}

/// The choice stream handed to generators. Value 0 is always the simplest choice.
pub struct Src {
    prefix: Vec<u64>,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    limit: usize,
}

impl Src {
    pub fn new(prefix: Vec<u64>, rng: Option<Rng>) -> Src {
        Src { prefix, rng, rec: Vec::new(), limit: 60_000 }
    }
    /// A value in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let i = self.rec.len();
        let v = if i >= self.limit {
            0
        } else if i < self.prefix.len() {
            let v = self.prefix[i];
            if v < n { v } else { v % n }
        } else if let Some(r) = &mut self.rng {
            r.below(n)
        } else {
            0
        };
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// Index drawn with the given weights; index 0 is the simple choice.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.draw(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    /// Geometric-like length: mostly small, bounded by `max`.
    pub fn len(&mut self, typical: usize, max: usize) -> usize {
        match self.weighted(&[60, 30, 9, 1]) {
            0 => self.below(typical.min(max) + 1),
            1 => self.below((typical * 2).min(max) + 1),
            2 => self.below((typical * 5).min(max) + 1),
            _ => self.below(max + 1),
        }
    }
    pub fn exhausted(&self) -> bool {
        self.rec.len() >= self.limit
    }
}

// ---------------------------------------------------------------- properties

pub enum Verdict {
    Ok,
    /// The case is outside the property's domain (counted, never a pass).
    Discard(&'static str),
    Fail(String),
}

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Replaces the case in the distinctness count where set.
    pub key: Option<u64>,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

pub trait Prop {
    type Case: Clone;
    const ID: &'static str;
    const RULE: &'static str;
    /// (quick, thorough) number of generated cases over all shards.
    const CASES: (u64, u64);
    fn gen(s: &mut Src) -> Self::Case;
    fn check(c: &Self::Case, o: &mut Obs) -> Verdict;
    fn to_json(c: &Self::Case) -> J;
    fn from_json(j: &J) -> Self::Case;
    fn setup() {}
    fn assumptions() -> Vec<String> {
        vec![]
    }
}

// ---------------------------------------------------------------- panics of the code under test

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs code under test; a panic becomes `Err`.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

#[macro_export]
macro_rules! sut_try {
    ($what:expr, $e:expr) => {
        match $crate::engine::sut(|| $e) {
            Ok(v) => v,
            Err(m) => return $crate::engine::Verdict::Fail(format!("{} {}", $what, m)),
        }
    };
}

// ---------------------------------------------------------------- coverage feedback

static COV: [AtomicUsize; 64] = [const { AtomicUsize::new(0) }; 64];
static NCOV: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    let n = NCOV.load(Ordering::SeqCst);
    if (b as usize) <= (a as usize) || n + 2 > COV.len() {
        return;
    }
    // Called once per object: ignore repeats of the same section.
    for i in (0..n).step_by(2) {
        if COV[i].load(Ordering::SeqCst) == a as usize {
            return;
        }
    }
    COV[n].store(a as usize, Ordering::SeqCst);
    COV[n + 1].store(b as usize, Ordering::SeqCst);
    NCOV.store(n + 2, Ordering::SeqCst);
}

fn regions() -> Vec<&'static mut [u8]> {
    let n = NCOV.load(Ordering::SeqCst);
    (0..n)
        .step_by(2)
        .map(|i| unsafe {
            let a = COV[i].load(Ordering::SeqCst);
            let b = COV[i + 1].load(Ordering::SeqCst);
            std::slice::from_raw_parts_mut(a as *mut u8, b - a)
        })
        .collect()
}

pub struct Cov {
    virgin: Vec<u8>,
    pub total: usize,
}
impl Cov {
    pub fn new() -> Cov {
        let t = regions().iter().map(|r| r.len()).sum();
        Cov { virgin: vec![0; t], total: t }
    }
    pub fn reset(&self) {
        for r in regions() {
            r.fill(0);
        }
    }
    /// True when this execution reached something new.
    pub fn take(&mut self) -> bool {
        let mut new = false;
        let mut base = 0;
        for r in regions() {
            let l = r.len();
            let mut i = 0;
            while i < l {
                if i + 8 <= l && r[i..i + 8] == [0u8; 8] {
                    i += 8;
                    continue;
                }
                let c = r[i];
                if c != 0 {
                    let bit = match c {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.virgin[base + i] & bit == 0 {
                        self.virgin[base + i] |= bit;
                        new = true;
                    }
                }
                i += 1;
            }
            base += l;
        }
        new
    }
    pub fn hit(&self) -> usize {
        self.virgin.iter().filter(|x| **x != 0).count()
    }
    pub fn bitmap(&self) -> Vec<u8> {
        self.virgin.iter().map(|x| (*x != 0) as u8).collect()
    }
}

// ---------------------------------------------------------------- running one case

pub enum Run {
    Ok(Obs),
    Discard(&'static str),
    Fail(String),
}

pub fn run_case<P: Prop>(c: &P::Case) -> Run {
    let mut o = Obs::default();
    match catch_unwind(AssertUnwindSafe(|| P::check(c, &mut o))) {
        Ok(Verdict::Ok) => Run::Ok(o),
        Ok(Verdict::Discard(r)) => Run::Discard(r),
        Ok(Verdict::Fail(m)) => Run::Fail(m),
        Err(_) => {
            // Not inside `sut`: the harness or its oracle broke, which is no verdict.
            eprintln!("harness error in {}: {}", P::ID, last_panic());
            eprintln!("case: {}", P::to_json(c).dump());
            std::process::exit(3);
        }
    }
}

pub fn gen_case<P: Prop>(s: &mut Src) -> P::Case {
    match catch_unwind(AssertUnwindSafe(|| P::gen(s))) {
        Ok(c) => c,
        Err(_) => {
            eprintln!("generator error in {}: {}", P::ID, last_panic());
            std::process::exit(3);
        }
    }
}

// ---------------------------------------------------------------- shrinking

/// Failures that take long to reproduce aren't shrunk to the end.
const SHRINK_SECS: u64 = 60;

pub fn shrink<P: Prop>(rec: Vec<u64>, budget: usize) -> (Vec<u64>, P::Case, String) {
    let mut left = budget;
    let start = std::time::Instant::now();
    let mut try_ = |cand: &[u64]| -> Option<(Vec<u64>, P::Case, String)> {
        // The first run tells whether the choices reproduce the failure.
        if left == 0 || (left < budget && start.elapsed().as_secs() >= SHRINK_SECS) {
            return None;
        }
        left -= 1;
        let mut s = Src::new(cand.to_vec(), None);
        let c = gen_case::<P>(&mut s);
        match run_case::<P>(&c) {
            Run::Fail(m) => Some((s.rec, c, m)),
            _ => None,
        }
    };
    let size = |r: &Vec<u64>| (r.len(), r.iter().fold(0u128, |a, x| a + *x as u128));
    let Some(mut best) = try_(&rec) else {
        // Not reproducible from its choices: report it as it is.
        let mut s = Src::new(rec.clone(), None);
        let c = gen_case::<P>(&mut s);
        return (rec, c, "not reproducible from its choices".into());
    };
    loop {
        let before = size(&best.0);
        // Drop trailing choices, then spans of decreasing length.
        let mut k = best.0.len();
        while k > 0 {
            let mut i = 0;
            while i + k <= best.0.len() {
                let mut c = best.0.clone();
                c.drain(i..i + k);
                if let Some(n) = try_(&c) {
                    if size(&n.0) < size(&best.0) {
                        best = n;
                        continue;
                    }
                }
                i += k.max(1);
            }
            k /= 2;
        }
        // Zero spans, then lower single values.
        let mut k = 8;
        while k > 0 {
            let mut i = 0;
            while i + k <= best.0.len() {
                if best.0[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.0.clone();
                    c[i..i + k].fill(0);
                    if let Some(n) = try_(&c) {
                        if size(&n.0) < size(&best.0) {
                            best = n;
                        }
                    }
                }
                i += k;
            }
            k /= 2;
        }
        let mut i = 0;
        while i < best.0.len() {
            let mut lo = 0u64;
            while i < best.0.len() && lo < best.0[i] {
                let mid = lo + (best.0[i] - lo) / 2;
                let mut c = best.0.clone();
                c[i] = mid;
                match try_(&c) {
                    Some(n) if size(&n.0) < size(&best.0) => best = n,
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if size(&best.0) >= before {
            break;
        }
    }
    best
}

// ---------------------------------------------------------------- the search loop of one shard

pub struct ShardResult {
    pub evals: u64,
    pub discards: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<J>,
    pub corpus: usize,
    pub cov: Vec<u8>,
    pub fail: Option<(Vec<u64>, J, String)>,
}

fn mutate(r: &mut Rng, corpus: &[Vec<u64>]) -> (Vec<u64>, bool) {
    // Prefer recent entries half of the time.
    let pick = |r: &mut Rng| {
        let n = corpus.len() as u64;
        let i = if r.below(2) == 0 { n - 1 - r.below(n.min(16)) } else { r.below(n) };
        corpus[i as usize].clone()
    };
    let mut c = pick(r);
    let n = 1 + r.below(4);
    for _ in 0..n {
        if c.is_empty() {
            break;
        }
        let l = c.len() as u64;
        let i = r.below(l) as usize;
        match r.below(8) {
            0 | 1 => c[i] = r.below(256),
            2 => c[i] = r.next() >> r.below(64),
            3 => {
                let k = (1 + r.below(8)).min(l - i as u64) as usize;
                c.drain(i..i + k);
            }
            4 => {
                let k = (1 + r.below(24)).min(l - i as u64) as usize;
                let d: Vec<u64> = c[i..i + k].to_vec();
                let j = r.below(l) as usize;
                for (o, x) in d.into_iter().enumerate() {
                    c.insert(j + o, x);
                }
            }
            5 => {
                let d = pick(r);
                if !d.is_empty() {
                    let j = r.below(d.len() as u64) as usize;
                    c.truncate(i);
                    c.extend_from_slice(&d[j..]);
                }
            }
            6 => c.truncate(i),
            _ => {
                let k = 1 + r.below(4) as usize;
                for _ in 0..k {
                    c.insert(i, r.below(64));
                }
            }
        }
    }
    c.truncate(20_000);
    (c, true)
}

pub fn search<P: Prop>(seed: u64, cases: u64, crash_file: &str) -> ShardResult {
    let mut res = ShardResult {
        evals: 0,
        discards: BTreeMap::new(),
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        corpus: 0,
        cov: vec![],
        fail: None,
    };
    let mut rng = Rng::new(seed);
    let mut cov = Cov::new();
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut cf = std::fs::File::create(crash_file).expect("crash file");
    // The other shards stop once one of them has a failure.
    let stop = std::path::Path::new(crash_file).with_file_name("stop");
    for i in 0..cases {
        if stop.exists() {
            break;
        }
        let fresh = corpus.is_empty() || cov.total == 0 || rng.below(100) < 45;
        let prefix = if fresh { vec![] } else { mutate(&mut rng, &corpus).0 };
        let sub = Rng::new(rng.next());
        let mut s = Src::new(prefix, Some(sub));
        let c = gen_case::<P>(&mut s);
        write_crash(&mut cf, &s.rec);
        cov.reset();
        let r = run_case::<P>(&c);
        let new = cov.take();
        res.evals += 1;
        match r {
            Run::Ok(o) => {
                for l in o.labels {
                    *res.labels.entry(l.to_string()).or_insert(0) += 1;
                }
                if o.nontrivial {
                    let key = o.key.unwrap_or_else(|| hash(P::to_json(&c).dump().as_bytes()));
                    let isnew = res.nontrivial.insert(key);
                    if isnew && (res.samples.len() < 2 || (res.samples.len() < 6 && i % (cases / 5 + 1) < 40)) {
                        let d = P::to_json(&c);
                        if d.dump().len() < 1500 {
                            res.samples.push(d);
                        }
                    }
                }
                if new && s.rec.len() < 20_000 {
                    corpus.push(s.rec);
                }
            }
            Run::Discard(d) => *res.discards.entry(d.to_string()).or_insert(0) += 1,
            Run::Fail(m) => {
                let _ = std::fs::write(&stop, "");
                let (rec, c2, m2) = shrink::<P>(s.rec.clone(), 6000);
                if m2.starts_with("not reproducible") {
                    // Keep the original evidence.
                    res.fail = Some((s.rec, P::to_json(&c), format!("{m} (did not reproduce when replayed)")));
                } else {
                    res.fail = Some((rec, P::to_json(&c2), m2));
                }
                break;
            }
        }
    }
    res.corpus = corpus.len();
    res.cov = cov.bitmap();
    res
}

fn write_crash(f: &mut std::fs::File, rec: &[u64]) {
    use std::os::unix::fs::FileExt;
    let mut b = Vec::with_capacity(8 * (rec.len() + 1));
    b.extend_from_slice(&(rec.len() as u64).to_le_bytes());
    for x in rec {
        b.extend_from_slice(&x.to_le_bytes());
    }
    let _ = f.write_all_at(&b, 0);
    let _ = f.flush();
}

pub fn read_crash(p: &str) -> Option<Vec<u64>> {
    let b = std::fs::read(p).ok()?;
    let g = |i: usize| -> Option<u64> { Some(u64::from_le_bytes(b.get(8 * i..8 * i + 8)?.try_into().ok()?)) };
    let n = g(0)? as usize;
    (1..=n).map(g).collect()
}

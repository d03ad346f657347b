//! Shared machinery: deterministic random numbers, case accounting, event construction.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use cres::distance::{Distance, EuclWithScaledPt};
pub use cres::event::{Event, EventBuilder, Weights};
pub use cres::four_vector::FourVector;
pub use noisy_float::prelude::*;
pub use particle_id::ParticleID;

pub const MULTI: bool = cfg!(feature = "multiweight");

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static CURRENT: Mutex<String> = Mutex::new(String::new());

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(0x1234567));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub cases: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub failures: Vec<String>,
    pub deadline: Instant,
    pub distinct: std::collections::HashSet<u64>,
    pub known: Vec<String>,
    seen_known: std::collections::HashSet<String>,
}

pub fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, budget: f64) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let msg = format!("{info}");
            *LAST_PANIC.lock().unwrap() = msg;
        }));
        std::thread::spawn(|| {
            let mut last = 0;
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = PROGRESS.load(Ordering::Relaxed);
                if now != last {
                    last = now;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(150) {
                    let cur = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                    println!("STUCK {}", jesc(&format!("no answer within 150 s (deadlock or endless loop) in case: {cur}")));
                    std::process::exit(3);
                }
            }
        });
        Ctx {
            seed,
            thorough,
            rng: Rng::new(seed),
            cases: 0,
            nontrivial: 0,
            samples: vec![],
            failures: vec![],
            deadline: Instant::now() + Duration::from_secs_f64(budget),
            distinct: Default::default(),
            known: vec![],
            seen_known: Default::default(),
        }
    }

    /// Repeat the cases of a property with new random numbers: at most `most` times, and no new
    /// round once four budgets are spent.
    pub fn rounds(&mut self, budget: f64, most: usize, f: &dyn Fn(&mut Ctx)) {
        let start = Instant::now();
        for i in 0..most {
            let left = 4. * budget - start.elapsed().as_secs_f64();
            if i > 0 && (left < 0.25 * budget || self.failures.len() >= 2) {
                break;
            }
            self.deadline = Instant::now() + Duration::from_secs_f64(budget.min(left.max(0.)));
            f(self);
        }
    }

    /// more cases wanted?
    pub fn more(&self) -> bool {
        self.failures.len() < 2 && Instant::now() < self.deadline
    }

    /// number of repetitions, scaled up in the thorough tier
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough { quick * 12 } else { quick }
    }

    /// Run one case; `desc` describes the input completely enough to replay it.
    /// Ok(true): non-trivial case, Ok(false): trivial.
    pub fn case<F: FnOnce() -> Result<bool, String>>(&mut self, desc: &str, f: F) -> bool {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        *CURRENT.lock().unwrap() = desc.chars().take(4000).collect();
        LAST_PANIC.lock().unwrap().clear();
        self.cases += 1;
        let res = catch_unwind(AssertUnwindSafe(f));
        let bad = match res {
            Ok(Ok(nontriv)) => {
                if nontriv && self.distinct.insert(hash(desc)) {
                    self.nontrivial += 1;
                    if self.samples.len() < 3 {
                        self.samples.push(desc.chars().take(600).collect());
                    }
                }
                None
            }
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panic: {}", LAST_PANIC.lock().unwrap())),
        };
        match bad {
            None => true,
            Some(e) => {
                self.failures.push(format!("{e}\n  case: {desc}"));
                false
            }
        }
    }

    pub fn finish(self) {
        println!("CASES {} {}", self.cases, self.nontrivial);
        for s in &self.samples {
            println!("SAMPLE {}", jesc(s));
        }
        for k in &self.known {
            println!("KNOWN {}", jesc(k));
        }
        for f in &self.failures {
            println!("FAILURE {}", jesc(f));
        }
        println!("DONE");
    }

    /// a failure listed as a known finding
    pub fn known(&mut self, id: &str, what: &str) {
        if self.seen_known.insert(id.to_string()) {
            self.known.push(format!("{id} {what}"));
        }
    }
}

pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn fv(p: [f64; 4]) -> FourVector {
    [n64(p[0]), n64(p[1]), n64(p[2]), n64(p[3])].into()
}

/// what an event is made of
#[derive(Clone, Debug, Default)]
pub struct Raw {
    pub id: usize,
    pub w: Vec<f64>,
    pub parts: Vec<(i32, [f64; 4])>,
}

impl Raw {
    pub fn event(&self) -> Event {
        let mut b = EventBuilder::new();
        for &(id, p) in &self.parts {
            b.add_outgoing(ParticleID::new(id), fv(p));
        }
        if MULTI {
            for &w in &self.w {
                b.add_weight(n64(w));
            }
        } else {
            b.add_weight(n64(self.w[0]));
        }
        let mut e = b.build();
        e.id = self.id;
        e
    }
}

pub fn weights_of(e: &Event) -> Vec<f64> {
    e.weights.read().iter().map(|w| f64::from(*w)).collect()
}

pub fn mkweights(w: &[f64]) -> Weights {
    // through an event, as the constructor only takes a single weight
    Raw { id: 0, w: w.to_vec(), parts: vec![] }.event().weights.into_inner()
}

pub fn wvec(w: &Weights) -> Vec<f64> {
    w.iter().map(|w| f64::from(*w)).collect()
}

/// momentum with small integer components (ties and exact distances are frequent)
pub fn int_mom(r: &mut Rng, s: i64) -> [f64; 4] {
    let p: Vec<f64> = (0..3).map(|_| r.range(-s, s) as f64).collect();
    let e = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
    [e, p[0], p[1], p[2]]
}

pub fn real_mom(r: &mut Rng) -> [f64; 4] {
    let p: Vec<f64> = (0..3).map(|_| 200. * (r.f() - 0.5)).collect();
    let m = if r.chance(0.5) { 0. } else { 10. * r.f() };
    let e = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + m * m).sqrt();
    [e, p[0], p[1], p[2]]
}

/// a weight: integers, zeros, widely spread reals
pub fn weight(r: &mut Rng, style: usize) -> f64 {
    match style {
        0 => r.range(-4, 4) as f64,
        1 => r.range(-8, 8) as f64 / 4.,
        2 => 3. * (r.f() - 0.4),
        3 => -(r.range(0, 3) as f64),
        4 => (r.f() - 0.3) * 10f64.powi(r.range(-6, 6) as i32),
        _ => r.range(0, 5) as f64,
    }
}

pub fn sample(r: &mut Rng, n: usize, nw: usize, style: usize, ints: bool) -> Vec<Raw> {
    let types = [1, -1, 11, 22, 21, 6];
    let nt = 1 + r.below(3);
    let maxp = 1 + r.below(4);
    (0..n)
        .map(|i| {
            let np = 1 + r.below(maxp);
            Raw {
                id: i,
                w: (0..nw).map(|_| weight(r, style)).collect(),
                parts: (0..np)
                    .map(|_| {
                        (
                            types[r.below(nt)],
                            if ints { int_mom(r, 3) } else { real_mom(r) },
                        )
                    })
                    .collect(),
            }
        })
        .collect()
}

pub fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if c { Ok(()) } else { Err(msg()) }
}

pub fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-10 * scale.abs() + 1e-280
}

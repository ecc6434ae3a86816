//! Bounded conformance search on the real public API: case generation, panic capture, statistics.
use rand::{rngs::StdRng, Rng, SeedableRng};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Failure {
    pub index: u64,
    pub case: String,
    pub message: String,
}
pub struct Ctx {
    pub rng: StdRng,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    pub index: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub known: Vec<(String, String)>, // key of a listed finding -> first case
    pub known_keys: HashSet<String>,
    pub start: Instant,
    pub budget_s: f64,
    pub rule: String,
}
pub type Out = Result<bool, String>;

impl Ctx {
    pub fn new(seed: u64, thorough: bool, only: Option<u64>, budget_s: f64) -> Self {
        Ctx {
            rng: StdRng::seed_from_u64(seed ^ 0x6a75_6e6f),
            seed,
            thorough,
            only,
            index: 0,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            failure: None,
            known: vec![],
            known_keys: HashSet::new(),
            start: Instant::now(),
            budget_s,
            rule: String::new(),
        }
    }
    /// Number of random cases: `q` in the quick tier, `20 q` in the thorough one.
    pub fn n(&self, q: usize) -> usize {
        if self.thorough {
            q * 20
        } else {
            q
        }
    }
    pub fn done(&self) -> bool {
        self.failure.is_some() || (self.only.is_none() && self.start.elapsed().as_secs_f64() > self.budget_s)
    }
    /// Evaluate one case. `f` returns Ok(nontrivial) or Err(what is wrong); a panic is an error.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Out) {
        let index = self.index;
        self.index += 1;
        if self.failure.is_some() || self.only.map_or(false, |o| o != index) {
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.evaluations += 1;
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                Err(format!("panicked: {m}"))
            }
        };
        let d = desc();
        match r {
            Ok(nontrivial) => {
                if nontrivial {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    d.hash(&mut h);
                    self.distinct.insert(h.finish());
                }
                if self.samples.len() < 3 && (self.evaluations % 97 == 1) {
                    self.samples.push(trunc(&d));
                }
            }
            Err(m) => {
                // a listed finding is reported as such and does not hide other failures
                if let Some(k) = m.strip_prefix("KNOWN:").and_then(|r| r.split(':').next()) {
                    if self.known_keys.contains(k) {
                        if !self.known.iter().any(|(x, _)| x == k) {
                            self.known.push((k.to_string(), trunc(&d)));
                        }
                        return;
                    }
                }
                self.failure = Some(Failure { index, case: d, message: m });
            }
        }
    }
    pub fn u(&mut self, lo: u64, hi: u64) -> u64 {
        self.rng.gen_range(lo..=hi)
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        self.rng.gen_range(lo..=hi)
    }
    pub fn b(&mut self, p: f64) -> bool {
        self.rng.gen_bool(p)
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.rng.gen_range(0..xs.len())]
    }
}
pub fn trunc(s: &str) -> String {
    if s.len() > 600 {
        let mut i = 600;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}…", &s[..i])
    } else {
        s.to_string()
    }
}
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * 1f64.max(a.abs()).max(b.abs())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

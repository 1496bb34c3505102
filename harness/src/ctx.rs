//! What a case may use: its random source, its counters, its verdict.

use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// A short stable name of what was violated.
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ck {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::ctx::Fail {
                sig: $sig.to_string(),
                msg: format!($($arg)*),
            });
        }
    };
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    /// The number of this case, and its random source.
    pub case: u64,
    pub rng: Rng,
    input: String,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    dump: Option<String>,
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, tier: Tier) -> Ctx {
        Ctx {
            prop,
            seed,
            tier,
            case: 0,
            rng: Rng::new(0),
            input: String::new(),
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            dump: std::env::var("VH_DUMP").ok(),
        }
    }
    pub fn begin(&mut self, case: u64) {
        self.case = case;
        self.rng = Rng::for_case(self.seed, self.prop, case);
        self.input.clear();
    }
    /// Remember the input of this case (for the replay file).
    pub fn set_input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        if let Some(p) = &self.dump {
            let _ = std::fs::write(p, &self.input);
        }
    }
    pub fn input(&self) -> &str {
        &self.input
    }
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Record that this case was a non-trivial one with this identity.
    pub fn nontrivial(&mut self, id: u64) {
        // Bounded: what is counted is a lower bound.
        if self.distinct.len() < 400_000 {
            self.distinct.insert(id);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 4 {
            let mut t: String = s.chars().take(600).collect();
            if t.len() < s.len() {
                t.push('…');
            }
            self.samples.push(t);
        }
    }
    pub fn counters(&self) -> &BTreeMap<String, u64> {
        &self.counters
    }
    pub fn maxima(&self) -> &BTreeMap<String, u64> {
        &self.maxima
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

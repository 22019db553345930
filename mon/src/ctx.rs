//! Per-worker state: counters, distinct cases, samples.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub interp: bool,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx {
            rng: Rng::new(0),
            seed,
            index: 0,
            thorough,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            evals: 0,
            interp: cfg!(miri),
        }
    }
    pub fn begin(&mut self, prop: u64, index: u64) {
        self.index = index;
        self.rng = Rng::new(mix(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(prop) ^ mix(index ^ 0x5555)));
    }
    pub fn n(&mut self, name: &str, k: u64) {
        match self.counters.get_mut(name) {
            Some(c) => *c += k,
            None => {
                self.counters.insert(name.to_string(), k);
            }
        }
    }
    pub fn max(&mut self, name: &str, k: u64) {
        let e = self.counters.entry(name.to_string()).or_insert(0);
        if k > *e {
            *e = k
        }
    }
    /// one evaluation of the property on a non-trivial case identified by h
    pub fn case(&mut self, h: u64) {
        self.evals += 1;
        if self.distinct.len() < 400_000 {
            self.distinct.insert(h);
        }
    }
    /// one evaluation on a trivial case
    pub fn trivial(&mut self) {
        self.evals += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 400 {
                let mut e = 400;
                while !s.is_char_boundary(e) {
                    e -= 1
                }
                s.truncate(e);
            }
            self.samples.push(s);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        if i >= 120 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", c));
    }
    s
}

/// First place where two byte strings differ.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| hex(&v[n.saturating_sub(4)..v.len().min(n + 24)]);
    format!("lengths {} and {}, first difference at {}: ..{} and ..{}", a.len(), b.len(), n, cut(a), cut(b))
}

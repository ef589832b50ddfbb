//! One simulated run: its choices, its history, what it covered and what it found.

use std::collections::{BTreeMap, HashSet};

use crate::tape::Tape;

#[derive(Clone, Debug)]
pub struct Viol {
    pub what: String,
}

pub type Run = Result<(), Viol>;

pub struct Cx {
    pub t: Tape,
    pub prop: &'static str,
    pub thorough: bool,
    /// How often things happened, by name. `fault: ..` are the injected faults.
    pub n: BTreeMap<String, u64>,
    /// Hash of everything that happened: one value is one execution.
    pub trace: u64,
    /// Hash of the order in which parties acted, and what faults hit them.
    pub order: u64,
    pub shapes: HashSet<u64>,
    /// Simulated nanoseconds.
    pub now: u64,
    pub log: Option<Vec<String>>,
    pub nontrivial: bool,
}

fn mix(h: u64, x: u64) -> u64 {
    let mut z = h ^ x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 32)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Cx {
    pub fn new(t: Tape, prop: &'static str, thorough: bool, log: bool) -> Self {
        Cx {
            t,
            prop,
            thorough,
            n: BTreeMap::new(),
            trace: 1,
            order: 1,
            shapes: HashSet::new(),
            now: 0,
            log: log.then(Vec::new),
            nontrivial: false,
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.n.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.n.insert(k.to_string(), n);
            }
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.add(&format!("fault: {k}"), 1);
        self.nontrivial = true;
        self.order = mix(self.order, hash_bytes(k.as_bytes()));
    }
    /// Something happened, in this order.
    pub fn step(&mut self, who: u64, what: &str) {
        self.order = mix(mix(self.order, who), hash_bytes(what.as_bytes()));
    }
    pub fn mark(&mut self, x: u64) {
        self.trace = mix(self.trace, x);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.mark(hash_bytes(b));
    }
    /// A distinct shape of description that was exercised.
    pub fn shape(&mut self, x: u64) {
        self.shapes.insert(x);
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        let now = self.now;
        if let Some(l) = &mut self.log {
            let t = f();
            l.push(format!("[{:>12.6}] {t}", now as f64 / 1e9));
        }
    }
    pub fn logging(&self) -> bool {
        self.log.is_some()
    }
    pub fn fail<T>(&mut self, what: impl Into<String>) -> Result<T, Viol> {
        let what = what.into();
        self.say(|| format!("VIOLATION {what}"));
        Err(Viol { what })
    }
}

/// Cuts a text for a message.
pub fn clip(t: &str, n: usize) -> String {
    if t.chars().count() <= n {
        t.to_string()
    } else {
        t.chars().take(n).chain("…".chars()).collect()
    }
}

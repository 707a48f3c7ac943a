//! Monitor framework for the crypto library: episodes, verdicts, report.
use std::collections::{BTreeMap, HashSet};

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub episode: u64,
    pub trace: Vec<String>,
}

pub struct Mon {
    pub rng: Rng,
    pub episode: u64,
    pub thorough: bool,
    pub evals: u64,
    pub cases: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub trace: Vec<String>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hash_words(w: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in w {
        h = (h ^ b).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    h
}

impl Mon {
    pub fn new() -> Self {
        Self {
            rng: Rng::new(0),
            episode: 0,
            thorough: false,
            evals: 0,
            cases: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            trace: vec![],
            samples: vec![],
            violations: vec![],
        }
    }
    pub fn count(&mut self, key: &str) {
        if let Some(c) = self.counters.get_mut(key) {
            *c += 1;
        } else {
            self.counters.insert(key.to_string(), 1);
        }
    }
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 1_000_000 {
            self.distinct.insert(h);
        }
    }
    /// One driven operation.
    pub fn case(&mut self) {
        self.cases += 1;
    }
    /// Description of the current input, kept for the replay file.
    pub fn step(&mut self, s: String) {
        if self.trace.len() >= 64 {
            self.trace.remove(0);
        }
        self.trace.push(s);
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        if self.violations.len() > 20 || self.violations.iter().any(|v| v.sig == sig) {
            return;
        }
        self.violations.push(Violation {
            sig: sig.to_string(),
            msg,
            episode: self.episode,
            trace: self.trace.clone(),
        });
    }
    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            self.fail(sig, msg());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, got: T, want: T) -> bool {
        self.evals += 1;
        if got != want {
            self.fail(sig, format!("observed {got:?}, expected {want:?}"));
            return false;
        }
        true
    }
    /// The documented panic of an operation, observed on native only (a panic
    /// ends a wasm instance).
    pub fn panics<R>(&mut self, sig: &str, f: impl FnOnce() -> R) {
        #[cfg(not(target_family = "wasm"))]
        {
            self.evals += 1;
            QUIET.with(|q| q.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            QUIET.with(|q| q.set(false));
            if r.is_ok() {
                self.fail(sig, "the operation returned instead of panicking".into());
            }
        }
        #[cfg(target_family = "wasm")]
        let _ = (sig, f);
    }
}

thread_local! {
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Mon),
    pub quick: u64,
    pub thorough: u64,
    /// Episodes also run as wasm32.
    pub wquick: u64,
    pub wthorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn episode_seed(seed: u64, prop: &str, ep: u64) -> u64 {
    let mut r = Rng::new(
        seed.wrapping_mul(0x9E3779B97F4A7C15)
            ^ hash_str(prop)
            ^ ep.wrapping_mul(0xD1B54A32D192ED03),
    );
    r.next()
}

pub fn begin(m: &mut Mon, p: &Prop, seed: u64, ep: u64) {
    m.episode = ep;
    m.rng = Rng::new(episode_seed(seed, p.id, ep));
    m.trace.clear();
}

pub fn end(m: &mut Mon) {
    if m.samples.len() < 2 && !m.trace.is_empty() {
        let t: Vec<_> = m.trace.iter().take(4).map(|s| s.chars().take(160).collect::<String>()).collect();
        let s = format!("episode {}: {}", m.episode, t.join(" ; "));
        m.samples.push(s);
    }
}

/// Line format read back by the native driver.
pub fn report(m: &Mon) -> String {
    let mut o = format!("evals\t{}\ncases\t{}\ndistinct\t{}\n", m.evals, m.cases, m.distinct.len());
    for (k, v) in &m.counters {
        o.push_str(&format!("count\t{k}\t{v}\n"));
    }
    let clean = |s: &str| s.replace(['\t', '\n', '\r'], " ");
    for v in &m.violations {
        o.push_str(&format!("viol\t{}\t{}\t{}\t{}\n", v.episode, clean(&v.sig), clean(&v.msg), clean(&v.trace.join(" | "))));
    }
    o
}

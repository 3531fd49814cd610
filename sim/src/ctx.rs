//! One simulated execution: every decision, every source of entropy, the clock, the event
//! log, and the fault and reach counters.
//!
//! A decision is *named*. Its value is a pure function of (run seed, name), unless the
//! replay file overrides that name. Naming decisions instead of drawing them from one
//! stream keeps them independent: forcing one of them to its simplest value (0) leaves
//! every other one as it was, which is what makes minimisation work.
use std::collections::BTreeMap;
use std::fmt::Write as _;

use rand_chacha::ChaCha12Rng;
use rand_core::SeedableRng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub message: String,
}

/// Why a run stopped early.
#[derive(Debug)]
pub enum Stop {
    Violation(Violation),
}
pub type Res<T = ()> = Result<T, Stop>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub run: u64,
    pub seed: u64,
    pub hash: u64,
    pub state_hash: u64,
    pub violation: Option<Violation>,
    pub known: Vec<String>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub checks: u64,
    pub events: u64,
    pub sim_us: u64,
    /// Decisions that did not take their simplest value.
    pub trace: BTreeMap<String, u64>,
    pub decisions: u64,
    pub log: Vec<String>,
}

pub struct Ctx {
    pub seed: u64,
    overrides: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    pub trace: BTreeMap<String, u64>,
    pub decisions: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub known: Vec<String>,
    pub checks: u64,
    pub events: u64,
    pub now_us: u64,
    hash: u64,
    state_hash: u64,
    pub log: Vec<String>,
    pub keep_log: bool,
    /// 0 = quick, 1 = thorough
    pub thorough: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn keyed(seed: u64, label: &str, n: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(n + 64);
    let mut ctr = 0u64;
    while out.len() < n {
        let h = blake2b_simd::Params::new()
            .hash_length(64)
            .personal(b"orchard-sim-ctx_")
            .to_state()
            .update(&seed.to_le_bytes())
            .update(&ctr.to_le_bytes())
            .update(label.as_bytes())
            .finalize();
        out.extend_from_slice(h.as_bytes());
        ctr += 1;
    }
    out.truncate(n);
    out
}

impl Ctx {
    pub fn new(seed: u64, overrides: BTreeMap<String, u64>, thorough: bool) -> Self {
        Ctx {
            seed,
            overrides,
            counts: BTreeMap::new(),
            trace: BTreeMap::new(),
            decisions: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            known: vec![],
            checks: 0,
            events: 0,
            now_us: 0,
            hash: 0xcbf29ce484222325,
            state_hash: 0,
            log: vec![],
            keep_log: false,
            thorough,
        }
    }

    fn name(&mut self, label: &str) -> String {
        let c = self.counts.entry(label.to_string()).or_insert(0);
        let k = if *c == 0 { label.to_string() } else { format!("{label}#{c}") };
        *c += 1;
        k
    }

    /// A decision among `n` alternatives; alternative 0 is the simplest.
    pub fn pick(&mut self, label: &str, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let key = self.name(label);
        self.decisions += 1;
        let v = match self.overrides.get(&key) {
            Some(v) => *v % n as u64,
            None => {
                let b = keyed(self.seed, &key, 8);
                u64::from_le_bytes(b.try_into().unwrap()) % n as u64
            }
        };
        if v != 0 {
            self.trace.insert(key, v);
        }
        v as usize
    }

    /// True with probability num/den. False is the simplest value.
    pub fn chance(&mut self, label: &str, num: usize, den: usize) -> bool {
        // Alternatives 1..=num mean "yes".
        let v = self.pick(label, den);
        v >= 1 && v <= num
    }

    /// A value in lo..=hi; lo is the simplest.
    pub fn range(&mut self, label: &str, lo: usize, hi: usize) -> usize {
        lo + self.pick(label, hi - lo + 1)
    }

    /// Material that is not worth minimising (key bytes, memos).
    pub fn bytes<const N: usize>(&mut self, label: &str) -> [u8; N] {
        let key = self.name(&format!("bytes:{label}"));
        keyed(self.seed, &key, N).try_into().unwrap()
    }
    pub fn u64(&mut self, label: &str) -> u64 {
        u64::from_le_bytes(self.bytes::<8>(label))
    }

    /// The entropy source of a party.
    pub fn rng(&mut self, label: &str) -> ChaCha12Rng {
        ChaCha12Rng::from_seed(self.bytes::<32>(&format!("rng:{label}")))
    }

    /// A permutation of 0..n (identity is the simplest).
    pub fn permutation(&mut self, label: &str, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let k = self.pick(&format!("{label}.{i}"), rest.len());
            out.push(rest.remove(k));
        }
        out
    }

    /// A seeded thread schedule for halo2's pool.
    pub fn schedule_threads(&mut self, label: &str) -> usize {
        let threads = [1, 2, 3, 4, 7, 8, 16][self.pick(&format!("{label}.threads"), 7)];
        let s = self.u64(&format!("{label}.schedule"));
        if self.pick(&format!("{label}.inorder"), 4) == 0 {
            maybe_rayon::sim::inorder(threads);
        } else {
            maybe_rayon::sim::schedule(s, threads);
            self.fault("sched.reordered_pool");
        }
        threads
    }

    pub fn fault(&mut self, kind: &str) {
        *self.faults.entry(kind.to_string()).or_insert(0) += 1;
    }
    pub fn probe(&mut self, kind: &str) {
        *self.probes.entry(kind.to_string()).or_insert(0) += 1;
    }

    /// Appends to the event log (which identifies the execution).
    pub fn log(&mut self, line: impl AsRef<str>) {
        let line = line.as_ref();
        self.events += 1;
        for b in line.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = mix(self.hash ^ self.now_us);
        if self.keep_log && self.log.len() < 4000 {
            let mut s = String::new();
            let _ = write!(s, "[{:>10}us] {}", self.now_us, line);
            self.log.push(s);
        }
    }
    /// Folds raw bytes into the execution's identity without a readable line.
    pub fn log_bytes(&mut self, tag: &str, b: &[u8]) {
        let h = blake2b_simd::Params::new().hash_length(8).hash(b);
        self.log(format!("{tag} {} bytes #{}", b.len(), hex::encode(h.as_bytes())));
    }
    /// Identity of the shape this run reached, ignoring keys and randomness.
    pub fn state(&mut self, s: &str) {
        for b in s.bytes() {
            self.state_hash = (self.state_hash ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }

    pub fn violation<T>(&mut self, class: &str, message: impl Into<String>) -> Res<T> {
        let message = message.into();
        self.log(format!("VIOLATED {class}: {message}"));
        Err(Stop::Violation(Violation { class: class.into(), message }))
    }

    /// The oracle: `cond` must hold.
    pub fn check(&mut self, cond: bool, class: &str, message: impl FnOnce() -> String) -> Res {
        self.checks += 1;
        if cond {
            Ok(())
        } else {
            self.violation(class, message())
        }
    }
    pub fn check_eq<A: PartialEq + std::fmt::Debug>(&mut self, got: A, want: A, class: &str, what: &str) -> Res {
        self.checks += 1;
        if got == want {
            Ok(())
        } else {
            self.violation(class, format!("{what}: got {got:?}, want {want:?}"))
        }
    }

    pub fn into_outcome(self, run: u64, violation: Option<Violation>) -> Outcome {
        Outcome {
            run,
            seed: self.seed,
            hash: self.hash,
            state_hash: self.state_hash,
            violation,
            known: self.known,
            faults: self.faults,
            probes: self.probes,
            checks: self.checks,
            events: self.events,
            sim_us: self.now_us,
            trace: self.trace,
            decisions: self.decisions,
            log: self.log,
        }
    }
}

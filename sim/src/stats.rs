//! Measurements of a batch of runs.

use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub sim_us: u64,
    pub events: u64,
    pub counters: HashMap<&'static str, u64>,
    pub scen: BTreeMap<String, u64>,
    pub traces: HashSet<u64>,
    pub states: HashSet<u64>,
    pub states_capped: bool,
    pub panics_ignored: u64,
    pub determinism_checked: u64,
    pub determinism_bad: u64,
}

pub const STATE_CAP: usize = 1_500_000;

impl Stats {
    pub fn bump(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }

    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counters.entry(k).or_insert(0) += n;
        }
    }

    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }

    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else {
            self.states_capped = true;
        }
    }

    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.sim_us += o.sim_us;
        self.events += o.events;
        for (k, v) in o.counters {
            if k.starts_with("max:") {
                self.max(k, v);
            } else {
                self.add(k, v);
            }
        }
        for (k, v) in o.scen {
            *self.scen.entry(k).or_insert(0) += v;
        }
        self.traces.extend(o.traces);
        for s in o.states {
            if self.states.len() < STATE_CAP * 4 {
                self.states.insert(s);
            } else {
                self.states_capped = true;
            }
        }
        self.states_capped |= o.states_capped;
        self.panics_ignored += o.panics_ignored;
        self.determinism_checked += o.determinism_checked;
        self.determinism_bad += o.determinism_bad;
    }
}

/// Outcome of one run.
#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: u8,
    pub class: String,
    pub msg: String,
    pub t: u64,
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub trace: u64,
    pub sim_us: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub fates: BTreeMap<(u32, u32), crate::plan::Fate>,
    /// A panic inside the library which the selected property does not count as a violation.
    pub panic: Option<String>,
}

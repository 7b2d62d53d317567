//! What one simulated run is and gives.

use crate::kernel::Parts;
use crate::hist::{Ev, Rec};
use crate::tape::Record;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    /// The property broken; "*" for a panic or a task that never yields, which break every
    /// property whose workload meets them.
    pub property: &'static str,
    /// Names the kind of failure; shrinking keeps it.
    pub class: &'static str,
    pub text: String,
}

#[derive(Default)]
pub struct RunOut {
    pub violations: Vec<Violation>,
    pub record: Record,
    pub hist: Vec<Rec>,
    pub hash: u64,
    pub counts: BTreeMap<&'static str, u64>,
    /// Rare conditions this run reached.
    pub probes: BTreeMap<&'static str, u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub nontrivial: bool,
}

impl RunOut {
    pub fn take(&mut self, p: Parts) {
        self.hist = p.hist;
        self.hash = p.hash;
        self.record = p.record;
        self.counts = p.counts;
        self.sim_ns = p.sim_ns;
        self.steps = p.steps;
        self.switches = p.switches;
        self.preemptions = p.preemptions;
        let mut bad = Vec::new();
        for r in &self.hist {
            match &r.ev {
                Ev::Panic { text, .. } if text.starts_with(crate::kernel::HARNESS) => bad.push(Violation { property: "*", class: "harness", text: text.clone() }),
                Ev::Panic { text, .. } => bad.push(Violation { property: "*", class: "panic", text: format!("the code under test panicked: {}", text) }),
                Ev::Spin { text, .. } => bad.push(Violation { property: "*", class: "spin", text: text.clone() }),
                _ => {}
            }
        }
        self.violations.extend(bad);
    }

    pub fn fail(&mut self, property: &'static str, class: &'static str, text: impl Into<String>) {
        self.violations.push(Violation { property, class, text: text.into() });
    }

    pub fn probe(&mut self, what: &'static str) {
        *self.probes.entry(what).or_default() += 1;
    }
}

/// What a run should concentrate on.
#[derive(Clone, Debug)]
pub struct Focus {
    pub property: String,
    pub thorough: bool,
    /// Overrides the drawn verbosity.
    pub verbose: Option<bool>,
}

impl Focus {
    pub fn is(&self, ids: &[&str]) -> bool {
        ids.iter().any(|i| *i == self.property)
    }
}

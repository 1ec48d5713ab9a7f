use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// short and stable: what kind of thing went wrong
    pub class: String,
    pub detail: String,
}

/// What one simulated run did
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    /// the scenario does not meet the preconditions of the property
    pub skip: Option<String>,
    pub violation: Option<Violation>,
    /// logical time: simulated I/O operations, session steps and compiles
    pub steps: u64,
    /// faults that actually took effect, by kind
    pub faults: BTreeMap<String, u64>,
    /// sometimes-assertions and other counters
    pub probes: BTreeMap<String, u64>,
    /// hash of what happened (interleaving of operations, faults and results)
    pub state: u64,
    pub nontrivial: bool,
    pub scenario: Option<Value>,
}
impl Report {
    pub fn violate(&mut self, class: &str, detail: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some(Violation { class: class.into(), detail: detail.into() });
        }
    }
    pub fn skip(&mut self, why: &str) {
        if self.skip.is_none() {
            self.skip = Some(why.into());
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn probe_n(&mut self, k: &str, n: u64) {
        *self.probes.entry(k.to_string()).or_default() += n;
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_default() += 1;
    }
    pub fn mix(&mut self, s: &str) {
        self.state = crate::util::mix(self.state ^ crate::util::hash_str(s));
    }
}

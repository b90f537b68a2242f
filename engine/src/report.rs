//! What a check found and covered.
use crate::asm::Fault;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String, // stable identification (config/op/...)
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub evals: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub viols: Vec<Viol>,
    pub notes: BTreeSet<String>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub capped: bool,
}

impl Report {
    pub fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.viols.extend(o.viols);
        self.notes.extend(o.notes);
        if self.samples.len() < 12 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
        for (k, v) in o.counters {
            let max = k.starts_with("max_");
            let e = self.counters.entry(k).or_default();
            *e = if max { (*e).max(v) } else { *e + v };
        }
        self.capped |= o.capped;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn viol(&mut self, key: impl Into<String>, text: impl Into<String>) {
        if self.viols.len() < 40 {
            self.viols.push(Viol { key: key.into(), text: text.into() });
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
    /// A fault raised while executing the code: engine limits become notes, everything else a violation.
    pub fn fault(&mut self, key: &str, f: &Fault, text: impl FnOnce() -> String) {
        match f {
            Fault::Engine(e) => {
                let mut e = e.clone();
                e.truncate(300);
                self.notes.insert(format!("{}: not explored: {e}", key.split('|').next().unwrap_or(key)));
                self.add("not_explored", 1);
            }
            _ => self.viol(key.to_string(), format!("{}\n{}", fault_text(f), text())),
        }
    }
}

pub fn fault_text(f: &Fault) -> String {
    match f {
        Fault::Ub(s) => format!("undefined behaviour: {s}"),
        Fault::Contract(s) => format!("inline assembly contract violated: {s}"),
        Fault::Mem(s) => format!("bad memory access: {s}"),
        Fault::Hang(s) => format!("does not terminate: {s}"),
        Fault::Engine(s) => format!("not modelled: {s}"),
    }
}

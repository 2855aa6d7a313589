//! Online monitor for the stream of checked proof steps handed to proof processors.
use std::collections::{BTreeMap, HashMap, HashSet};

use varisat::Lit;
use varisat_checker::{CheckedProofStep, CheckedSamplingMode, CheckerData, ProofProcessor};

use crate::rup::check_hints;
use crate::util::{from_lits, from_var};

struct Live {
    lits: Vec<i32>,
    irredundant: bool,
}

/// One recorded step, for comparisons between runs.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub kind: &'static str,
    pub id: u64,
    pub lits: Vec<i32>,
}

#[derive(Default)]
pub struct EventMonitor {
    live: HashMap<u64, Live>,
    last_id: Option<u64>,
    last_input: Option<u64>,
    assumptions: Vec<i32>,
    user: HashMap<i32, i32>,
    /// Which variables have a name.
    owners: HashMap<i32, Vec<i32>>,
    hidden: HashSet<i32>,
    /// Variables known by their own number because no name was given.
    implicit: HashSet<i32>,
    counts: BTreeMap<&'static str, u64>,
    error: Option<String>,
    pub unsat: bool,
    pub record: bool,
    pub steps: Vec<Step>,
    /// Fail at this step, to test fault reporting.
    pub fail_at: Option<u64>,
    pub seen: u64,
    val: HashMap<i32, bool>,
}

impl EventMonitor {
    pub fn new() -> EventMonitor {
        EventMonitor::default()
    }

    pub fn recording() -> EventMonitor {
        EventMonitor { record: true, ..EventMonitor::default() }
    }

    pub fn error(&self) -> Option<String> {
        self.error.clone()
    }

    pub fn counts(&self) -> impl Iterator<Item = (&'static str, u64)> + '_ {
        self.counts.iter().map(|(k, v)| (*k, *v))
    }

    pub fn finish(&mut self) -> Result<(), String> {
        match &self.error {
            Some(e) => Err(format!("event stream: {}", e)),
            None => Ok(()),
        }
    }

    /// The largest id of an input clause seen.
    pub fn last_input(&self) -> Option<u64> {
        self.last_input
    }

    pub fn live_clauses(&self) -> Vec<(u64, Vec<i32>, bool)> {
        let mut v: Vec<_> = self.live.iter().map(|(id, l)| (*id, l.lits.clone(), l.irredundant)).collect();
        v.sort();
        v
    }

    fn fresh(&mut self, id: u64) -> Result<(), String> {
        if let Some(last) = self.last_id {
            if id <= last {
                return Err(format!("clause id {} is not larger than the previous id {}", id, last));
            }
        }
        self.last_id = Some(id);
        Ok(())
    }

    fn canonical(&self, c: &[Lit], taut_ok: bool) -> Result<Vec<i32>, String> {
        for w in c.windows(2) {
            if w[0] >= w[1] {
                return Err(format!("literals {:?} are not sorted and free of duplicates", c));
            }
            if !taut_ok && w[0].var() == w[1].var() {
                return Err(format!("literals {:?} contain a variable twice", c));
            }
        }
        Ok(from_lits(c))
    }

    fn hints(&mut self, clause: &[i32], ids: &[u64], irredundant_only: bool, not: Option<u64>) -> Result<(), String> {
        let mut hints = vec![];
        for id in ids {
            if Some(*id) == not {
                return Err(format!("clause {} is justified by itself", id));
            }
            match self.live.get(id) {
                Some(l) => {
                    if irredundant_only && !l.irredundant {
                        return Err(format!("hint {} is a redundant clause", id));
                    }
                    hints.push(&l.lits[..])
                }
                None => return Err(format!("hint id {} of {:?} is not a live clause", id, clause)),
            }
        }
        *self.counts.entry("hint_clauses").or_insert(0) += ids.len() as u64;
        check_hints(clause, hints.into_iter(), &mut self.val)
            .map_err(|e| format!("{:?} with hints {:?}: {}", clause, ids, e))
    }

    fn known(&self, id: u64, lits: &[i32]) -> Result<bool, String> {
        match self.live.get(&id) {
            Some(l) if l.lits == lits => Ok(l.irredundant),
            Some(l) => Err(format!("clause id {} is {:?}, but the step says {:?}", id, l.lits, lits)),
            None => Err(format!("clause id {} is not live (literals {:?})", id, lits)),
        }
    }

    fn set_name(&mut self, var: i32, name: Option<i32>) -> Option<i32> {
        let old = match name {
            Some(name) => self.user.insert(var, name),
            None => self.user.remove(&var),
        };
        if let Some(owners) = old.and_then(|old| self.owners.get_mut(&old)) {
            owners.retain(|o| *o != var);
        }
        if let Some(name) = name {
            self.owners.entry(name).or_insert_with(Vec::new).push(var);
        }
        old
    }

    /// A variable used without a name goes by its own number.
    fn used(&mut self, c: &[i32], data: CheckerData) {
        for l in c {
            let v = l.abs();
            if data.user_from_proof_var(crate::util::to_var(v)) == Some(crate::util::to_var(v)) {
                // deleted and used again
                self.hidden.remove(&v);
            }
            if !self.hidden.contains(&v) && !self.user.contains_key(&v) {
                self.set_name(v, Some(v));
                self.implicit.insert(v);
            }
        }
    }

    fn push(&mut self, kind: &'static str, id: u64, lits: &[i32]) {
        *self.counts.entry(kind).or_insert(0) += 1;
        if self.record {
            self.steps.push(Step { kind, id, lits: lits.to_vec() });
        }
    }

    fn step(&mut self, step: &CheckedProofStep, data: CheckerData) -> Result<(), String> {
        match step {
            CheckedProofStep::UserVar { var, user_var } => {
                let v = from_var(*var);
                match user_var {
                    None => {
                        self.push("hide_events", 0, &[v]);
                        if self.hidden.contains(&v) {
                            return Err(format!("variable {} is hidden twice", v));
                        }
                        self.set_name(v, None);
                        self.implicit.remove(&v);
                        self.hidden.insert(v);
                    }
                    Some(u) => {
                        let name = from_var(u.user_var);
                        self.push(
                            match (&u.sampling_mode, u.new_var) {
                                (CheckedSamplingMode::Sample, true) => "new_sample_events",
                                (CheckedSamplingMode::Sample, false) => "sample_events",
                                (CheckedSamplingMode::Witness, true) => "observe_events",
                                (CheckedSamplingMode::Witness, false) => "witness_events",
                            },
                            0,
                            &[v, name],
                        );
                        if let Some(other) = self.owners.get(&name).and_then(|o| o.iter().find(|o| **o != v)) {
                            return Err(format!("user variable {} names both {} and {}", name, other, v));
                        }
                        if u.new_var {
                            self.hidden.remove(&v);
                            let implicit = self.implicit.remove(&v) && name == v;
                            if self.set_name(v, Some(name)).is_some() && !implicit {
                                return Err(format!("variable {} gets a second user name {}", v, name));
                            }
                        } else if self.user.get(&v) != Some(&name) {
                            return Err(format!(
                                "mode change of {} names user variable {} instead of {:?}",
                                v,
                                name,
                                self.user.get(&v)
                            ));
                        }
                        if data.user_from_proof_var(*var) != Some(u.user_var) {
                            return Err(format!("user_from_proof_var({}) differs from the step", v));
                        }
                    }
                }
            }
            CheckedProofStep::AddClause { id, clause } => {
                let c = self.canonical(clause, false)?;
                self.push("add_events", *id, &c);
                self.used(&c, data);
                self.fresh(*id)?;
                self.last_input = Some(*id);
                for l in &c {
                    if self.hidden.contains(&l.abs()) {
                        return Err(format!("added clause {:?} contains the hidden variable {}", c, l.abs()));
                    }
                }
                if c.is_empty() {
                    self.unsat = true;
                }
                self.live.insert(*id, Live { lits: c, irredundant: true });
            }
            CheckedProofStep::DuplicatedClause { id, same_as_id, clause } => {
                let c = self.canonical(clause, false)?;
                self.push("duplicate_events", *id, &c);
                self.used(&c, data);
                self.fresh(*id)?;
                self.last_input = Some(*id);
                if !self.known(*same_as_id, &c)? {
                    return Err(format!("input clause {:?} is a copy of a clause that stays redundant", c));
                }
            }
            CheckedProofStep::TautologicalClause { id, clause } => {
                let c = self.canonical(clause, true)?;
                self.push("tautology_events", *id, &c);
                self.used(&c, data);
                self.fresh(*id)?;
                self.last_input = Some(*id);
                if !crate::rup::is_taut(&c) {
                    return Err(format!("{:?} is reported as a tautology", c));
                }
            }
            CheckedProofStep::AtClause { id, redundant, clause, propagations } => {
                let c = self.canonical(clause, false)?;
                self.push(if c.is_empty() { "empty_events" } else { "at_events" }, *id, &c);
                self.fresh(*id)?;
                self.hints(&c, propagations, false, Some(*id))?;
                if c.is_empty() {
                    self.unsat = true;
                }
                self.live.insert(*id, Live { lits: c, irredundant: !redundant });
            }
            CheckedProofStep::DeleteClause { id, clause } => {
                let c = self.canonical(clause, false)?;
                self.push("delete_events", *id, &c);
                if self.known(*id, &c)? {
                    return Err(format!("irredundant clause {} {:?} is deleted without justification", id, c));
                }
                self.live.remove(id);
            }
            CheckedProofStep::DeleteAtClause { id, keep_as_redundant, clause, propagations } => {
                let c = self.canonical(clause, false)?;
                self.push("delete_at_events", *id, &c);
                if !self.known(*id, &c)? {
                    return Err(format!("justified deletion of the redundant clause {} {:?}", id, c));
                }
                self.hints(&c, propagations, true, Some(*id))?;
                if *keep_as_redundant {
                    self.live.get_mut(id).unwrap().irredundant = false;
                } else {
                    self.live.remove(id);
                }
            }
            CheckedProofStep::DeleteRatClause { id, keep_as_redundant, clause, pivot, .. } => {
                let c = self.canonical(clause, false)?;
                self.push("delete_rat_events", *id, &c);
                self.known(*id, &c)?;
                let p = crate::util::from_lit(*pivot);
                if !c.contains(&p) {
                    return Err(format!("pivot {} is not in the clause {:?}", p, c));
                }
                if data.user_from_proof_var(pivot.var()).is_some() {
                    return Err(format!("pivot {} of a deleted clause is not hidden", p));
                }
                // nothing is lost when the formula already contains the empty clause
                let contradictory = self.live.values().any(|l| l.irredundant && l.lits.is_empty());
                for (other, l) in &self.live {
                    if other != id && l.irredundant && l.lits.contains(&-p) && !contradictory {
                        return Err(format!("deleted clause {:?} still resolves with clause {} {:?}", c, other, l.lits));
                    }
                }
                if *keep_as_redundant {
                    self.live.get_mut(id).unwrap().irredundant = false;
                } else {
                    self.live.remove(id);
                }
            }
            CheckedProofStep::MakeIrredundant { id, clause } => {
                let c = self.canonical(clause, false)?;
                self.push("irredundant_events", *id, &c);
                if self.known(*id, &c)? {
                    return Err(format!("clause {} {:?} is already irredundant", id, c));
                }
                self.live.get_mut(id).unwrap().irredundant = true;
            }
            CheckedProofStep::Model { assignment } => {
                let m = from_lits(assignment);
                self.push("model_events", 0, &m);
                let set: HashSet<i32> = m.iter().cloned().collect();
                for l in &set {
                    if set.contains(&-l) {
                        return Err(format!("model assigns {} both ways", l.abs()));
                    }
                }
                for a in &self.assumptions {
                    if !set.contains(a) {
                        return Err(format!("model does not contain assumption {}", a));
                    }
                }
                if self.unsat {
                    return Err("model after unsatisfiability was derived".into());
                }
                for (id, l) in &self.live {
                    if l.lits.len() == 1 {
                        if set.contains(&-l.lits[0]) {
                            return Err(format!("model falsifies unit clause {} {:?}", id, l.lits));
                        }
                    } else if !l.lits.iter().any(|x| set.contains(x)) {
                        return Err(format!("model does not satisfy clause {} {:?}", id, l.lits));
                    }
                }
            }
            CheckedProofStep::Assumptions { assumptions } => {
                let a = self.canonical(assumptions, true)?;
                self.push("assume_events", 0, &a);
                self.used(&a, data);
                self.assumptions = a;
            }
            CheckedProofStep::FailedAssumptions { failed_core, propagations } => {
                let c = self.canonical(failed_core, true)?;
                self.push("failed_events", 0, &c);
                for l in &c {
                    if !self.assumptions.contains(l) {
                        return Err(format!("failed core {:?} contains {} which is not assumed", c, l));
                    }
                }
                if crate::rup::is_taut(&c) {
                    if !propagations.is_empty() {
                        return Err("contradictory core with hints".into());
                    }
                } else {
                    let neg: Vec<i32> = c.iter().map(|l| -l).collect();
                    self.hints(&neg, propagations, false, None)?;
                }
            }
        }
        Ok(())
    }
}

impl ProofProcessor for EventMonitor {
    fn process_step(&mut self, step: &CheckedProofStep, data: CheckerData) -> Result<(), anyhow::Error> {
        self.seen += 1;
        if Some(self.seen) == self.fail_at {
            return Err(anyhow::anyhow!("injected processor fault"));
        }
        if self.error.is_none() {
            if let Err(e) = self.step(step, data) {
                self.error = Some(format!("step {}: {}", self.seen, e));
            }
        }
        Ok(())
    }
}

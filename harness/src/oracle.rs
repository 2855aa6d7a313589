//! Verdicts that do not depend on the solver under test.
use std::collections::HashSet;

use varisat::{ProofFormat, Solver};

use crate::event::EventMonitor;
use crate::refsat::{self, Clause};
use crate::rup;
use crate::util::*;

/// Satisfiability of a formula with assumptions. Small formulas are decided by the reference
/// procedure. Otherwise a fresh solver has to produce a model or a refutation, which are checked
/// by an evaluator and an independent unit propagation checker.
pub fn decide(clauses: &[Clause], assumptions: &[i32]) -> Result<bool, String> {
    let n = refsat::max_var(clauses).max(assumptions.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0));
    if n <= 60 || clauses.len() < 200 {
        if let Ok(r) = refsat::solve_limited(clauses, n, assumptions, 300_000) {
            return Ok(r.is_some());
        }
    }
    let mut all: Vec<Clause> = clauses.to_vec();
    all.extend(assumptions.iter().map(|&l| vec![l]));
    certified(&all)
}

/// Like `decide`, always by certificate.
pub fn certified(clauses: &[Clause]) -> Result<bool, String> {
    let sink = Sink::default();
    let mut solver = Solver::new();
    solver.write_proof(sink.clone(), ProofFormat::Drat);
    solver.add_formula(&to_formula(clauses));
    let sat = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
    if sat {
        let m = from_lits(&solver.model().ok_or("no model after a satisfiable result")?);
        check_assignment(&m, clauses)?;
        return Ok(true);
    }
    let closed = solver.close_proof().is_ok();
    drop(solver);
    let proof = sink.take();
    match refuted(clauses, &proof) {
        Ok(_) if closed => Ok(false),
        Ok(_) => without_drat(clauses, "the proof could not be closed"),
        Err(e) => without_drat(clauses, &e),
    }
}

/// Decides a formula for which no valid DRAT refutation could be had. A broken proof does not
/// mean that the verdict is wrong.
pub fn without_drat(clauses: &[Clause], why: &str) -> Result<bool, String> {
    let n = refsat::max_var(clauses);
    if let Ok(r) = refsat::solve_limited(clauses, n, &[], 3_000_000) {
        return Ok(r.is_some());
    }
    match refuted_by_events(clauses) {
        Ok(()) => Ok(false),
        Err(e) => Err(format!("unsatisfiable verdict that nothing supports: {}; {}", why, e)),
    }
}

/// Lets a fresh solver report its derivation step by step, every step is checked by the monitor.
fn refuted_by_events(clauses: &[Clause]) -> Result<(), String> {
    let mut monitor = EventMonitor::recording();
    {
        let mut solver = Solver::new();
        solver.add_proof_processor(&mut monitor);
        solver.add_formula(&to_formula(clauses));
        if solver.solve().map_err(|e| format!("solve returned an error: {}", e))? {
            return Err("satisfiable with a proof processor".into());
        }
        solver.close_proof().map_err(|e| format!("close_proof: {}", e))?;
    }
    monitor.finish()?;
    if !monitor.unsat {
        return Err("no derivation of the empty clause was reported".into());
    }
    let mut given: HashSet<Clause> = HashSet::new();
    for c in clauses {
        given.insert(rup::canon(c));
    }
    for s in &monitor.steps {
        if s.kind == "add_events" && !given.contains(&rup::canon(&s.lits)) {
            return Err(format!("the derivation starts from {:?} which is not an input clause", s.lits));
        }
    }
    Ok(())
}

pub fn refuted(clauses: &[Clause], drat: &[u8]) -> Result<usize, String> {
    let steps = rup::parse_drat_text(drat)?;
    let (n, empty) = rup::check_drat(clauses, &steps)?;
    if !empty {
        return Err("the proof does not derive the empty clause".into());
    }
    Ok(n)
}

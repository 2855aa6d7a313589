//! C01-C05, C17, C21: solver behaviour against reference oracles.
use varisat::{ExtendFormula, ProofFormat, Solver};

use crate::fw::{CaseResult, Check, Cx, Tier};
use crate::gen;
use crate::history::{self, Mode, Op};
use crate::oracle;
use crate::refsat::{self, Clause};
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "exploration",
            rule: "a formula counts when solving it took at least one decision or conflict (the proof is not empty) or it has at least 3 clauses; distinct by clause list",
            assumptions: &["the reference procedure and the refutation checker of the harness are correct"],
            quick_cases: 40000,
            required: &["sat", "unsat", "refutation_steps", "hard_sat|hard_unsat"],
            threads: 8,
            case: c01,
        },
        Check {
            id: "C02",
            level: "exploration",
            rule: "a history counts when it reported at least one model; distinct by the sequence of calls",
            assumptions: &["the reference procedure of the harness is correct"],
            quick_cases: 400000,
            required: &["sat", "unsat", "large_models"],
            threads: 8,
            case: c02,
        },
        Check {
            id: "C03",
            level: "exploration",
            rule: "a history counts when it solved at least twice with clauses present; distinct by the sequence of calls",
            assumptions: &["the reference procedure and the refutation checker of the harness are correct"],
            quick_cases: 500000,
            required: &["sat", "unsat", "unsat_assumptions", "solves", "deep_solves"],
            threads: 8,
            case: c03,
        },
        Check {
            id: "C04",
            level: "exploration",
            rule: "a history counts when it reported at least one non-empty failed core; distinct by the sequence of calls",
            assumptions: &["the reference procedure and the refutation checker of the harness are correct"],
            quick_cases: 500000,
            required: &["unsat_assumptions", "sat", "deep_unsat_assumptions"],
            threads: 8,
            case: c04,
        },
        Check {
            id: "C05",
            level: "exploration",
            rule: "a history counts when it hid or observed a variable and solved; distinct by the sequence of calls",
            assumptions: &["the reference procedure of the harness is correct"],
            quick_cases: 600000,
            required: &["hides", "recycled_names", "observed_internal", "sat", "unsat"],
            threads: 8,
            case: c05,
        },
    ]
}

pub fn load(cx: &mut Cx, solver: &mut Solver, clauses: &[Clause]) -> Result<&'static str, String> {
    match cx.rng.below(5) {
        0 => {
            for c in clauses {
                solver.add_clause(&to_lits(c));
            }
            Ok("clauses")
        }
        1 => {
            solver.add_formula(&to_formula(clauses));
            Ok("formula")
        }
        2 => {
            let at = cx.rng.below(clauses.len() + 1);
            solver.add_formula(&to_formula(&clauses[..at]));
            for c in &clauses[at..] {
                solver.add_clause(&to_lits(c));
            }
            Ok("mixed")
        }
        3 => {
            let text = dimacs(clauses);
            solver.add_dimacs_cnf(&text[..]).map_err(|e| format!("add_dimacs_cnf: {}", e))?;
            Ok("dimacs")
        }
        _ => {
            let text = dimacs_text(clauses, None);
            let max = *cx.rng.pick(&[1usize, 3, 17, 4096]);
            let r = Choppy { data: &text, pos: 0, rng: crate::rng::Rng::new(cx.rng.next()), max, interrupts: false };
            solver.add_dimacs_cnf(r).map_err(|e| format!("add_dimacs_cnf: {}", e))?;
            Ok("dimacs-chunked")
        }
    }
}

pub fn config(cx: &mut Cx) -> gen::Cfg {
    match cx.rng.below(3) {
        0 => gen::Cfg::default(),
        1 => gen::config(&mut cx.rng),
        _ => gen::aggressive(&mut cx.rng),
    }
}

fn c01(cx: &mut Cx) -> CaseResult {
    let scale = if cx.tier == Tier::Thorough { cx.rng.below(5) } else { cx.rng.below(2) };
    let big = cx.rng.chance(1, 12);
    let large = !big && cx.rng.chance(1, 150);
    let f = if large {
        gen::large(&mut cx.rng)
    } else if big {
        gen::hard(&mut cx.rng, scale)
    } else {
        gen::small(&mut cx.rng)
    };
    let cfg = config(cx);
    let certify = big || large || cx.rng.chance(1, 4);
    let sink = Sink::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
    if certify {
        solver.write_proof(sink.clone(), ProofFormat::Drat);
    }
    let route = load(cx, &mut solver, &f.clauses)?;
    cx.sample = Some(format!(
        "{} ({} vars, {} clauses) via {} {:?}",
        f.kind,
        refsat::max_var(&f.clauses),
        f.clauses.len(),
        route,
        cfg
    ));
    if cx.verbose {
        cx.detail = format!("{:?}\n{}", cfg, show_clauses(&f.clauses));
    }
    let sat = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
    cx.count("solves", 1);
    cx.count(&format!("kind_{}", f.kind), 1);
    cx.count(&format!("route_{}", route), 1);
    if sat {
        cx.count(if big { "hard_sat" } else { "sat" }, 1);
        if let Some(false) = f.known {
            return Err(format!("solve returned true for an unsatisfiable {} formula", f.kind));
        }
        match solver.model() {
            Some(m) => check_assignment(&from_lits(&m), &f.clauses)
                .map_err(|e| format!("solve returned true: {}", e))?,
            None => return Err("solve returned true without a model".into()),
        }
    } else {
        cx.count(if big { "hard_unsat" } else { "unsat" }, 1);
        if let Some(true) = f.known {
            return Err(format!("solve returned false for a satisfiable {} formula", f.kind));
        }
        let n = refsat::max_var(&f.clauses);
        if !big && !large {
            if oracle::decide(&f.clauses, &[])? {
                return Err(format!("solve returned false for a satisfiable formula ({} variables)", n));
            }
        }
    }
    drop(solver);
    let proof = sink.take();
    if certify && !sat {
        match oracle::refuted(&f.clauses, &proof) {
            Ok(n) => cx.count("refutation_steps", n as u64),
            Err(_) if f.known == Some(false) => cx.count("no_refutation", 1),
            Err(e) => {
                // the proof is not what this check is about
                cx.count("no_refutation", 1);
                if oracle::without_drat(&f.clauses, &e)? {
                    return Err("solve returned false for a satisfiable formula".into());
                }
            }
        }
        if big || large {
            cx.max("refutation_bytes", proof.len() as u64);
        }
    }
    if proof.len() > 2 || f.clauses.len() >= 3 {
        let mut key = dimacs(&f.clauses);
        key.extend_from_slice(format!("{:?}", cfg).as_bytes());
        cx.nontrivial(&key);
    }
    Ok(())
}

/// Runs a history and accumulates what was observed.
pub fn run_history(cx: &mut Cx, ops: &[Op], mode: &Mode) -> Result<history::Outcome, String> {
    if cx.verbose {
        cx.detail = format!("{:?}\n{}", mode, history::show_ops(ops));
    }
    let r = match crate::fw::no_panic(|| history::run(ops, mode)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    match r {
        Ok(o) => {
            cx.count("calls", ops.len() as u64);
            cx.count("solves", o.solves);
            cx.count("sat", o.sat);
            cx.count("unsat", o.unsat);
            cx.count("unsat_assumptions", o.unsat_assumptions);
            cx.count("clauses", o.clauses);
            cx.count("hides", o.hides);
            cx.count("recycled_names", o.recycled);
            cx.count("observed_internal", o.observed);
            cx.count("blocking_clauses", o.blocked);
            cx.count("skipped_calls", o.skipped);
            for (k, v) in &o.events {
                cx.count(k, *v);
            }
            Ok(o)
        }
        Err(e) => {
            if cx.verbose {
                let small = history::shrink(ops, &mut |c| {
                    !matches!(crate::fw::no_panic(|| history::run(c, mode)), Ok(Ok(_)))
                });
                let again = crate::fw::no_panic(|| history::run(&small, mode).map(|_| ()));
                cx.detail.push_str(&format!("\nshrunk ({:?}):\n{}", again, history::show_ops(&small)));
            }
            Err(e)
        }
    }
}

pub fn history_case(cx: &mut Cx, shape: &history::Shape, mode: &Mode) -> Result<history::Outcome, String> {
    let ops = history::gen_ops(&mut cx.rng, shape);
    cx.sample = Some(format!("{} calls, {:?}, {:?}", ops.len(), shape, mode.cfg));
    let o = run_history(cx, &ops, mode)?;
    cx.key = Some(crate::rng::hash_bytes(history::show_ops(&ops).as_bytes()));
    Ok(o)
}

fn c02(cx: &mut Cx) -> CaseResult {
    if cx.rng.chance(1, 10) {
        return large_model(cx);
    }
    let vars = cx.rng.coin();
    let mut shape = history::gen_shape(&mut cx.rng, vars);
    shape.blocking = true;
    let mode = Mode { cfg: config(cx), ..Mode::default() };
    let o = history_case(cx, &shape, &mode)?;
    if o.sat == 0 {
        cx.key = None;
    }
    Ok(())
}

/// A bigger satisfiable formula, solved again and again under changing assumptions.
fn large_model(cx: &mut Cx) -> CaseResult {
    let f = gen::planted(&mut cx.rng);
    let cfg = config(cx);
    let mut solver = Solver::new();
    solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
    let route = load(cx, &mut solver, &f.0)?;
    cx.sample = Some(format!("planted {} clauses via {} {:?}", f.0.len(), route, cfg));
    if cx.verbose {
        cx.detail = show_clauses(&f.0);
    }
    let planted = &f.1;
    let used: std::collections::BTreeSet<i32> = f.0.iter().flatten().map(|l| l.abs()).collect();
    for _ in 0..cx.rng.range(1, 4) {
        let k = cx.rng.range(0, 12);
        let a: Vec<i32> = (0..k)
            .map(|_| {
                let v = *cx.rng.pick(&used.iter().cloned().collect::<Vec<_>>());
                if planted[v as usize] {
                    v
                } else {
                    -v
                }
            })
            .collect();
        solver.assume(&to_lits(&a));
        if !solver.solve().map_err(|e| format!("solve returned an error: {}", e))? {
            return Err("a formula with a known model was reported unsatisfiable".into());
        }
        let m = from_lits(&solver.model().ok_or("no model after a satisfiable result")?);
        check_assignment(&m, &f.0)?;
        for l in &a {
            if !m.contains(l) {
                return Err(format!("model does not contain assumption {}", l));
            }
        }
        let vars: std::collections::BTreeSet<i32> = m.iter().map(|l| l.abs()).collect();
        if !used.is_subset(&vars) {
            return Err("the model does not assign every variable".into());
        }
        cx.count("large_models", 1);
        cx.count("large_model_lits", m.len() as u64);
    }
    cx.nontrivial(&dimacs(&f.0));
    Ok(())
}

/// Histories over layered implication graphs.
fn layer_case(cx: &mut Cx) -> Result<history::Outcome, String> {
    let depth = cx.rng.range(2, 25);
    let ops = history::gen_layer_ops(&mut cx.rng, depth);
    let mode = Mode { cfg: config(cx), ..Mode::default() };
    cx.sample = Some(format!("layered: {} calls, depth {}, {:?}", ops.len(), depth, mode.cfg));
    let o = run_history(cx, &ops, &mode)?;
    cx.count("layered", 1);
    cx.key = Some(crate::rng::hash_bytes(history::show_ops(&ops).as_bytes()));
    Ok(o)
}

/// Histories that need hundreds of conflicts per solve.
fn deep_case(cx: &mut Cx) -> Result<history::Outcome, String> {
    let most = if cx.tier == Tier::Thorough { 140 } else { 100 };
    let n = cx.rng.range(40, most);
    let rounds = cx.rng.range(4, 24);
    let ops = history::gen_deep_ops(&mut cx.rng, n, rounds);
    let mode = Mode { cfg: config(cx), ..Mode::default() };
    cx.sample = Some(format!("deep: {} calls over {} variables, {:?}", ops.len(), n, mode.cfg));
    let o = run_history(cx, &ops, &mode)?;
    cx.count("deep_solves", o.solves);
    cx.count("deep_unsat_assumptions", o.unsat_assumptions);
    cx.key = Some(crate::rng::hash_bytes(history::show_ops(&ops).as_bytes()));
    Ok(o)
}

fn c03(cx: &mut Cx) -> CaseResult {
    if cx.rng.chance(1, 400) {
        deep_case(cx)?;
        return Ok(());
    }
    if cx.rng.chance(1, 30) {
        layer_case(cx)?;
        return Ok(());
    }
    let mut shape = history::gen_shape(&mut cx.rng, false);
    if cx.rng.chance(1, 15) {
        shape.pool = cx.rng.range(30, 70);
        shape.ops = cx.rng.range(20, 60);
        shape.blocking = false;
    }
    let mode = Mode { cfg: config(cx), ..Mode::default() };
    let o = history_case(cx, &shape, &mode)?;
    if o.solves < 2 || o.clauses == 0 {
        cx.key = None;
    }
    Ok(())
}

fn c04(cx: &mut Cx) -> CaseResult {
    if cx.rng.chance(1, 400) {
        if deep_case(cx)?.unsat_assumptions == 0 {
            cx.key = None;
        }
        return Ok(());
    }
    if cx.rng.chance(1, 30) {
        if layer_case(cx)?.unsat_assumptions == 0 {
            cx.key = None;
        }
        return Ok(());
    }
    let mut shape = history::gen_shape(&mut cx.rng, false);
    shape.assume = true;
    if cx.rng.chance(1, 15) {
        shape.pool = cx.rng.range(30, 60);
    }
    let vars = cx.rng.chance(1, 4);
    shape.vars = vars;
    let mode = Mode { cfg: config(cx), ..Mode::default() };
    let o = history_case(cx, &shape, &mode)?;
    if o.unsat_assumptions == 0 {
        cx.key = None;
    }
    Ok(())
}

fn c05(cx: &mut Cx) -> CaseResult {
    let mut shape = history::gen_shape(&mut cx.rng, true);
    shape.vars = true;
    let mode = Mode { cfg: config(cx), ..Mode::default() };
    let o = history_case(cx, &shape, &mode)?;
    if (o.hides == 0 && o.observed == 0) || o.solves == 0 {
        cx.key = None;
    }
    Ok(())
}

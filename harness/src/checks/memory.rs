//! C16: the workloads of the other checks, run for crashes and sanitizer reports.
use varisat::{ExtendFormula, Solver};

use super::solve::config;
use crate::fw::{self, CaseResult, Check, Cx};
use crate::gen;
use crate::history::{self, Mode};
use crate::rng::Rng;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C16",
        level: "exploration",
        rule: "the workloads of the solver, checker, parser and proof checks and sessions with a growing clause storage run with overflow checks, internal assertions and the standard library's preconditions for unsafe calls enabled, and again in builds with AddressSanitizer, MemorySanitizer and in the Miri interpreter; counts when the underlying workload is not trivial; distinct by workload",
        assumptions: &[
            "sanitizers report only what the workload executes; AddressSanitizer does not see accesses that stay inside one allocation, MemorySanitizer and Miri see those of them that read uninitialised memory",
            "Miri runs with the Tree Borrows aliasing model",
        ],
        quick_cases: 60000,
        required: &["histories", "sessions", "checker_runs", "parser_runs", "proof_runs", "faults", "enumerations"],
        threads: 8,
        case: c16,
    }]
}

/// Workloads by weight, with the counter that shows that they ran.
const MIX: [(&str, usize, &str); 18] = [
    ("C01", 4, "solver_runs"),
    ("C02", 4, "histories"),
    ("C03", 8, "histories"),
    ("C04", 6, "histories"),
    ("C05", 10, "histories"),
    ("C06", 6, "proof_runs"),
    ("C07", 4, "proof_runs"),
    ("C08", 10, "checker_runs"),
    ("C09", 4, "proof_runs"),
    ("C10", 4, "proof_runs"),
    ("C11", 6, "parser_runs"),
    ("C12", 2, "parser_runs"),
    ("C13", 4, "proof_format_runs"),
    ("C14", 4, "faults"),
    ("C17", 4, "enumerations"),
    ("C19", 4, "config_runs"),
    ("C21", 4, "solver_runs"),
    ("C22", 8, "checker_runs"),
];

fn c16(cx: &mut Cx) -> CaseResult {
    if cfg!(miri) {
        return interpreted(cx);
    }
    if cx.rng.chance(1, 24) {
        return session(cx);
    }
    let total: usize = MIX.iter().map(|m| m.1).sum();
    let mut k = cx.rng.below(total);
    let mut pick = MIX[0];
    for m in &MIX {
        if k < m.1 {
            pick = *m;
            break;
        }
        k -= m.1;
    }
    delegate(cx, pick.0, pick.2)
}

/// Runs a case of another check. What that check has to say about the results is its own business.
fn delegate(cx: &mut Cx, id: &str, counter: &str) -> CaseResult {
    let all = super::all();
    let check = all.iter().find(|c| c.id == id).ok_or("HARNESS no such check")?;
    // the other check numbers its cases from a different range
    let idx = cx.idx;
    cx.idx += 1 << 40;
    let mut sub = Cx {
        rng: Rng::new(cx.rng.next()),
        idx: cx.idx,
        tier: cx.tier,
        verbose: false,
        counters: Default::default(),
        key: None,
        sample: None,
        detail: String::new(),
        known: vec![],
    };
    cx.idx = idx;
    let r = fw::no_panic(|| (check.case)(&mut sub));
    cx.count(counter, 1);
    cx.sample = sub.sample.map(|s| format!("{}: {}", id, s));
    cx.detail = sub.detail;
    cx.key = sub.key;
    let msg = match r {
        Ok(Ok(())) => return Ok(()),
        Ok(Err(e)) => e,
        Err(p) => p,
    };
    crash(&msg)
}

/// Panics of the code under test are crashes, other findings belong to the check that makes them.
fn crash(msg: &str) -> CaseResult {
    match msg.find("panic at ") {
        Some(i) if !msg[i..].starts_with("panic at src/") => Err(msg.to_string()),
        _ => Ok(()),
    }
}

/// A long session on one solver: the clause storage grows and is collected many times, variables
/// come and go, the configuration changes.
fn session(cx: &mut Cx) -> CaseResult {
    let mut solver = Solver::new();
    let rounds = cx.rng.range(3, 25);
    let n = cx.rng.range(30, 140);
    cx.sample = Some(format!("session of {} rounds, {} variables", rounds, n));
    let mut key = vec![];
    let recycle = cx.rng.coin();
    let mut offset = 0i32;
    solver.config(&gen::aggressive(&mut cx.rng).update()).map_err(|e| e.to_string())?;
    for round in 0..rounds {
        let dens = 2.0 + 2.6 * cx.rng.f64();
        let long = cx.rng.range(3, 12);
        let mut clauses = gen::ksat(&mut cx.rng, n, (n as f64 * dens / rounds as f64) as usize + 5, 3);
        for _ in 0..cx.rng.below(40) {
            clauses.push(gen::distinct_clause(&mut cx.rng, n, long.min(n)));
        }
        for l in clauses.iter_mut().flatten() {
            *l += offset * l.signum();
        }
        for c in &clauses {
            solver.add_clause(&to_lits(c));
            key.extend(c.iter().flat_map(|l| l.to_le_bytes()));
        }
        let k = cx.rng.below(12);
        let mut assume: Vec<i32> = (0..k).map(|_| gen::lit(&mut cx.rng, n)).map(|l| l + offset * l.signum()).collect();
        assume.sort();
        assume.dedup();
        solver.assume(&to_lits(&assume));
        let sat = solver.solve().map_err(|e| e.to_string())?;
        cx.count("session_solves", 1);
        if sat {
            let m = from_lits(&solver.model().ok_or("no model")?);
            if cx.rng.coin() {
                let c: Vec<i32> = m.iter().take(40).map(|l| -l).collect();
                solver.assume(&[]);
                solver.add_clause(&to_lits(&c));
            }
        } else {
            let dead = solver.failed_core().map(|c| c.is_empty()).unwrap_or(true);
            if dead {
                break;
            }
        }
        solver.assume(&[]);
        if recycle && cx.rng.chance(1, 3) {
            for v in 1..=n as i32 {
                solver.hide_var(to_var(v + offset));
            }
            if cx.rng.coin() {
                offset += cx.rng.below(2 * n) as i32;
            }
            cx.count("recycled", 1);
        }
        if round % 5 == 4 {
            solver.config(&gen::aggressive(&mut cx.rng).update()).map_err(|e| e.to_string())?;
        }
    }
    cx.count("sessions", 1);
    cx.nontrivial(&key);
    Ok(())
}

/// Small workloads for the interpreter.
fn interpreted(cx: &mut Cx) -> CaseResult {
    let r = fw::no_panic(|| match cx.rng.below(10) {
        0..=4 => {
            let vars = cx.rng.chance(2, 3);
            let mut shape = history::gen_shape(&mut cx.rng, vars);
            shape.ops = shape.ops.min(22);
            shape.pool = shape.pool.min(9);
            shape.layers = false;
            let ops = history::gen_ops(&mut cx.rng, &shape);
            let mode = Mode {
                cfg: gen::aggressive(&mut cx.rng),
                native: cx.rng.chance(1, 4),
                self_check: cx.rng.chance(1, 4),
                ..Mode::default()
            };
            cx.sample = Some(format!("{} calls", ops.len()));
            cx.detail = history::show_ops(&ops);
            cx.count("histories", 1);
            history::run(&ops, &mode).map(|o| {
                cx.count("solves", o.solves);
            })
        }
        5 | 6 => {
            // reductions and collections of the clause storage
            let n = cx.rng.range(10, 16);
            let clauses = match cx.rng.below(3) {
                0 => gen::pigeonhole(4),
                1 => gen::ksat(&mut cx.rng, n, n * 9 / 2, 3),
                _ => gen::parity(&mut cx.rng, n, n),
            };
            let mut solver = Solver::new();
            let mut cfg = config(cx);
            cfg.reduce_locals_interval = Some(cx.rng.range(1, 4) as u64);
            cfg.reduce_mids_interval = Some(cx.rng.range(1, 4) as u64);
            cfg.luby_restart_interval_scale = Some(cx.rng.range(1, 8) as u64);
            solver.config(&cfg.update()).map_err(|e| e.to_string())?;
            if cx.rng.coin() {
                solver.enable_self_checking();
            }
            for c in &clauses {
                solver.add_clause(&to_lits(c));
            }
            cx.sample = Some(format!("{} clauses, {:?}", clauses.len(), cfg));
            cx.detail = show_clauses(&clauses);
            solver.solve().map_err(|e| e.to_string())?;
            cx.count("solver_runs", 1);
            Ok(())
        }
        7 => delegate(cx, "C08", "checker_runs"),
        8 => delegate(cx, "C22", "checker_runs"),
        _ => {
            let id = *cx.rng.pick(&["C11", "C11", "C13"]);
            delegate(cx, id, "text_runs")
        }
    });
    cx.nontrivial(format!("{} {}", cx.idx, cx.detail).as_bytes());
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => crash(&e),
        Err(p) => crash(&p),
    }
}

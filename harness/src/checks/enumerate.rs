//! C17, C21: model enumeration and progress.
use std::cell::Cell;
use std::collections::HashSet;
use std::rc::Rc;

use varisat::checker::{CheckedProofStep, CheckerData, ProofProcessor};
use varisat::{ExtendFormula, ProofFormat, Solver};

use super::solve::{config, load};
use crate::event::EventMonitor;
use crate::fw::{CaseResult, Check, Cx, Tier};
use crate::gen;
use crate::history::{self, Op};
use crate::refsat::{self, Clause};
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            level: "exploration",
            rule: "all models of a random formula are enumerated by solving and blocking, interleaved with assumption solves, configuration changes and extra clauses, and compared with exhaustive evaluation (or with the solution count of a linear system); counts when at least two models were blocked; distinct by formula, route and configuration",
            assumptions: &["the exhaustive evaluator and the Gaussian elimination of the harness are correct"],
            quick_cases: 600000,
            required: &["models", "exhausted", "noise_solves", "projected", "xor_systems", "hidden_projection", "restricted"],
            threads: 8,
            case: c17,
        },
        Check {
            id: "C21",
            level: "exploration",
            rule: "formulas and call histories run while derived clauses are counted online against a bound for the number of variables and the CPU time of the case is watched; counts when at least one clause was derived; distinct by formula and configuration",
            assumptions: &["more than 60 s of CPU time for one case, which needs milliseconds to a few seconds, is taken as no progress"],
            quick_cases: 300000,
            required: &["derived", "solves", "hard", "histories"],
            threads: 8,
            case: c21,
        },
    ]
}

/// Number of solutions of random parity constraints, by elimination.
struct Linear {
    rows: Vec<(u64, bool)>,
}

impl Linear {
    /// Returns false on contradiction.
    fn add(&mut self, mut mask: u64, mut rhs: bool) -> bool {
        for &(m, r) in &self.rows {
            let top = 63 - m.leading_zeros();
            if mask >> top & 1 == 1 {
                mask ^= m;
                rhs ^= r;
            }
        }
        if mask == 0 {
            return !rhs;
        }
        self.rows.push((mask, rhs));
        self.rows.sort_by(|a, b| b.0.cmp(&a.0));
        true
    }
}

fn setup<'a>(
    cx: &mut Cx,
    solver: &mut Solver<'a>,
    cfg: &gen::Cfg,
    monitor: &'a mut EventMonitor,
) -> Result<(), String> {
    solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
    match cx.rng.below(10) {
        0 => solver.enable_self_checking(),
        1 => solver.add_proof_processor(monitor),
        2 => solver.write_proof(std::io::sink(), ProofFormat::Varisat),
        _ => (),
    }
    Ok(())
}

fn c17(cx: &mut Cx) -> CaseResult {
    if cx.rng.chance(1, 4) {
        return c17_linear(cx);
    }
    let n = cx.rng.range(2, if cx.tier == Tier::Thorough { 13 } else { 10 });
    let mut clauses: Vec<Clause> = match cx.rng.below(4) {
        0 => {
            let m = cx.rng.range(0, 2 * n);
            gen::messy(&mut cx.rng, n, m, 5).into_iter().filter(|c| !c.is_empty()).collect()
        }
        1 => {
            let m = cx.rng.range(n / 2, n + n / 2);
            gen::chains(&mut cx.rng, n, m)
        }
        _ => {
            let dens = 1.5 + 2.5 * cx.rng.f64();
            let m = (n as f64 * dens) as usize;
            (0..m)
                .map(|_| {
                    let k = *cx.rng.pick(&[2, 3, 3, 3, 4, 5]);
                    gen::distinct_clause(&mut cx.rng, n, k)
                })
                .collect()
        }
    };
    let n = refsat::max_var(&clauses).max(1);
    if n > 14 {
        clauses.retain(|c| c.iter().all(|l| l.abs() <= 14));
    }
    let n = n.min(14);
    let cfg = config(cx);
    // variables of the projection
    let mut proj: Vec<usize> = (1..=n).filter(|_| !cx.rng.chance(1, 4)).collect();
    let full = cx.rng.chance(2, 5);
    if full || proj.is_empty() {
        proj = (1..=n).collect();
    }
    let hide = !full && cx.rng.chance(1, 3);
    // only variables that occur can be expected in models
    let used: HashSet<usize> = clauses.iter().flatten().map(|l| l.unsigned_abs() as usize).collect();
    proj.retain(|v| used.contains(v));
    let mut mask = 0u32;
    for v in &proj {
        mask |= 1 << (v - 1);
    }
    let mut live: Vec<u32> = refsat::all_models(&clauses, n);
    let count = |live: &[u32]| live.iter().map(|m| m & mask).collect::<HashSet<_>>().len();
    let cap = if cx.tier == Tier::Thorough { 3000 } else { 500 };
    cx.sample = Some(format!(
        "{} vars, {} clauses, {} projected models over {:?}{} {:?}",
        n,
        clauses.len(),
        count(&live),
        proj,
        if hide { " by hiding" } else { "" },
        cfg
    ));
    if cx.verbose {
        cx.detail = show_clauses(&clauses);
    }
    let key = format!("{:?}{:?}{:?}{}", clauses, proj, cfg, hide);
    let mut monitor = EventMonitor::new();
    let mut solver = Solver::new();
    setup(cx, &mut solver, &cfg, &mut monitor)?;
    // hiding before the first solve is not possible with native proofs, so solve once first
    load(cx, &mut solver, &clauses)?;
    if count(&live) < proj.len() + 1 {
        cx.count("few_models", 1);
    }
    let extra_allowed = cx.rng.chance(1, 3);
    let mut seen: HashSet<u32> = HashSet::new();
    let mut hidden_done = false;
    let mut assuming = false;
    let mut blocked = 0;
    loop {
        // noise
        if cx.rng.chance(1, 6) {
            let k = cx.rng.range(0, 3);
            let vars: Vec<usize> = if hidden_done { proj.clone() } else { used.iter().cloned().collect() };
            if !vars.is_empty() {
                let mut vars = vars;
                vars.sort();
                let a: Vec<i32> = (0..k)
                    .map(|_| {
                        let v = *cx.rng.pick(&vars) as i32;
                        if cx.rng.coin() {
                            v
                        } else {
                            -v
                        }
                    })
                    .collect();
                solver.assume(&to_lits(&a));
                assuming = true;
                let got = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
                let want = live.iter().any(|&m| a.iter().all(|&l| (m >> (l.abs() - 1) & 1 == 1) == (l > 0)));
                cx.count("noise_solves", 1);
                if got != want {
                    return Err(format!(
                        "after blocking {} models, solving under {:?} returned {} but {} solutions remain",
                        blocked,
                        a,
                        got,
                        live.len()
                    ));
                }
            }
        }
        if cx.rng.chance(1, 15) {
            let c = gen::aggressive(&mut cx.rng);
            solver.config(&c.update()).map_err(|e| format!("valid config rejected: {}", e))?;
        }
        if extra_allowed && cx.rng.chance(1, 12) && blocked > 0 && !proj.is_empty() {
            // one more constraint in the middle
            let k = cx.rng.range(1, 4);
            let c: Clause = (0..k)
                .map(|_| {
                    let v = *cx.rng.pick(&proj) as i32;
                    if cx.rng.coin() {
                        v
                    } else {
                        -v
                    }
                })
                .collect();
            solver.add_clause(&to_lits(&c));
            live.retain(|&m| c.iter().any(|&l| (m >> (l.abs() - 1) & 1 == 1) == (l > 0)));
            cx.count("restricted", 1);
        }
        if assuming {
            solver.assume(&[]);
            assuming = false;
        }
        let sat = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
        if !sat {
            if !live.is_empty() {
                return Err(format!(
                    "enumeration ended after {} models, {} solutions (first {:b}) were never visited",
                    blocked,
                    live.len(),
                    live[0]
                ));
            }
            cx.count("exhausted", 1);
            break;
        }
        if hide && !hidden_done {
            hidden_done = true;
            for v in 1..=n {
                if used.contains(&v) && !proj.contains(&v) {
                    solver.hide_var(to_var(v as i32));
                }
            }
            cx.count("hidden_projection", 1);
            // the model of the solve above stays valid for the remaining variables
        }
        let m = from_lits(&solver.model().ok_or("no model after a satisfiable result")?);
        let mut bits = 0u32;
        let mut got = 0u32;
        for &l in &m {
            let v = l.unsigned_abs() as usize;
            if v > n {
                return Err(format!("model contains unknown variable {}", v));
            }
            if got >> (v - 1) & 1 == 1 {
                return Err(format!("model contains variable {} twice", v));
            }
            got |= 1 << (v - 1);
            if l > 0 {
                bits |= 1 << (v - 1);
            }
        }
        if got & mask != mask {
            return Err(format!("model {:?} does not assign all of {:?}", m, proj));
        }
        if hidden_done && got & !mask != 0 && (1..=n).any(|v| got >> (v - 1) & 1 == 1 && used.contains(&v) && mask >> (v - 1) & 1 == 0) {
            return Err(format!("model {:?} contains a hidden variable", m));
        }
        let p = bits & mask;
        if !seen.insert(p) {
            return Err(format!("model {:?} was already blocked", m));
        }
        if !live.iter().any(|&x| x & mask == p) {
            return Err(format!("model {:?} is not a solution", m));
        }
        if !hidden_done && got.count_ones() as usize == n && !live.contains(&bits) {
            return Err(format!("model {:?} does not satisfy the formula", m));
        }
        live.retain(|&x| x & mask != p);
        let mut block: Clause = m
            .iter()
            .cloned()
            .filter(|l| mask >> (l.unsigned_abs() - 1) & 1 == 1)
            .map(|l| -l)
            .collect();
        cx.rng.shuffle(&mut block);
        solver.add_clause(&to_lits(&block));
        blocked += 1;
        cx.count("models", 1);
        if blocked >= cap {
            cx.count("cut_off", 1);
            break;
        }
    }
    if !full {
        cx.count("projected", 1);
    }
    if blocked >= 2 {
        cx.nontrivial(key.as_bytes());
    }
    drop(solver);
    if let Some(e) = monitor.error() {
        return Err(format!("event stream: {}", e));
    }
    Ok(())
}

/// Parity systems: more variables, the number of solutions is known exactly.
fn c17_linear(cx: &mut Cx) -> CaseResult {
    let n = cx.rng.range(6, 36);
    let free = cx.rng.range(0, 7.min(n - 1));
    let mut lin = Linear { rows: vec![] };
    let mut clauses = vec![];
    let mut consistent = true;
    let mut tries = 0;
    while lin.rows.len() + free < n && tries < 20 * n {
        tries += 1;
        let k = cx.rng.range(2, 4.min(n));
        let mut vs: Vec<i32> = vec![];
        while vs.len() < k {
            let v = cx.rng.range(1, n) as i32;
            if !vs.contains(&v) {
                vs.push(v);
            }
        }
        let mask = vs.iter().fold(0u64, |m, v| m | 1 << (v - 1));
        let rhs = cx.rng.coin();
        let before = lin.rows.len();
        let ok = lin.add(mask, rhs);
        // dependent rows: mostly keep them consistent
        if !ok && !cx.rng.chance(1, 60) {
            continue;
        }
        let _ = before;
        consistent &= ok;
        gen::xor(&vs, rhs, &mut clauses);
    }
    // every variable occurs
    let used: HashSet<i32> = clauses.iter().flatten().map(|l| l.abs()).collect();
    for v in 1..=n as i32 {
        if !used.contains(&v) {
            clauses.push(vec![v, -v]);
        }
    }
    cx.rng.shuffle(&mut clauses);
    let dims = n - lin.rows.len();
    if dims > 9 {
        cx.count("too_many", 1);
        return Ok(());
    }
    let want: usize = if consistent { 1 << dims } else { 0 };
    let cfg = config(cx);
    cx.sample = Some(format!("linear system, {} vars, {} solutions {:?}", n, want, cfg));
    if cx.verbose {
        cx.detail = show_clauses(&clauses);
    }
    let mut monitor = EventMonitor::new();
    let mut solver = Solver::new();
    setup(cx, &mut solver, &cfg, &mut monitor)?;
    load(cx, &mut solver, &clauses)?;
    let mut found = 0;
    let mut seen = HashSet::new();
    while solver.solve().map_err(|e| format!("solve returned an error: {}", e))? {
        let mut m = from_lits(&solver.model().ok_or("no model after a satisfiable result")?);
        check_assignment(&m, &clauses)?;
        if m.len() != n {
            return Err(format!("model has {} literals for {} variables", m.len(), n));
        }
        m.sort_by_key(|l| l.abs());
        if !seen.insert(m.clone()) {
            return Err("a blocked model was returned again".into());
        }
        found += 1;
        if found > want {
            return Err(format!("{} models found, the system has {}", found, want));
        }
        solver.add_clause(&m.iter().map(|&l| to_lit(-l)).collect::<Vec<_>>());
        if cx.rng.chance(1, 20) {
            let c = gen::aggressive(&mut cx.rng);
            solver.config(&c.update()).map_err(|e| format!("valid config rejected: {}", e))?;
        }
    }
    if found != want {
        return Err(format!("{} models found, the system has {}", found, want));
    }
    cx.count("xor_systems", 1);
    cx.count("models", found as u64);
    cx.count("exhausted", 1);
    if found >= 2 {
        let mut key = dimacs(&clauses);
        key.extend_from_slice(format!("{:?}", cfg).as_bytes());
        cx.nontrivial(&key);
    }
    drop(solver);
    if let Some(e) = monitor.error() {
        return Err(format!("event stream: {}", e));
    }
    Ok(())
}

/// Counts derived clauses as they are written and fails the write above a bound.
struct Counting {
    left: u64,
    count: Rc<Cell<u64>>,
    line_start: bool,
}

impl std::io::Write for Counting {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        for &b in buf {
            if self.line_start && b != b'd' && b != b'\n' {
                self.count.set(self.count.get() + 1);
                if self.left == 0 {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "bound exceeded"));
                }
                self.left -= 1;
            }
            self.line_start = b == b'\n';
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Bound on derived clauses of one solve. A complete search over n variables needs fewer than 2^n
/// clauses; formulas with many variables used here are known to need far fewer. Shortening a clause
/// of the input (see `literals`) counts in addition.
fn bound(n: usize) -> u64 {
    if n <= 14 {
        2000 + (4u64 << n)
    } else {
        3_000_000
    }
}

/// How many shortened copies of its clauses a formula can give rise to.
fn literals(clauses: &[Clause]) -> u64 {
    clauses.iter().map(|c| c.len() as u64).sum()
}

/// Counts derived clauses per solve.
struct Derived {
    total: Rc<Cell<u64>>,
    left: Rc<Cell<u64>>,
}

impl ProofProcessor for Derived {
    fn process_step(&mut self, step: &CheckedProofStep, _data: CheckerData) -> Result<(), anyhow::Error> {
        if let CheckedProofStep::AtClause { .. } = step {
            self.total.set(self.total.get() + 1);
            if self.left.get() == 0 {
                return Err(anyhow::anyhow!("bound exceeded"));
            }
            self.left.set(self.left.get() - 1);
        }
        Ok(())
    }
}

fn c21(cx: &mut Cx) -> CaseResult {
    match cx.rng.below(8) {
        0..=2 => c21_history(cx),
        _ => c21_single(cx),
    }
}

fn c21_single(cx: &mut Cx) -> CaseResult {
    let hard = cx.rng.chance(1, 40);
    let f = if hard { gen::hard(&mut cx.rng, 0) } else { gen::small(&mut cx.rng) };
    let n = refsat::max_var(&f.clauses);
    let vars = f.clauses.iter().flatten().map(|l| l.abs()).collect::<HashSet<_>>().len();
    let cfg = match cx.rng.below(4) {
        0 => config(cx),
        1 => gen::aggressive(&mut cx.rng),
        // the most extreme values
        _ => gen::Cfg {
            vsids_decay: Some(*cx.rng.pick(&[0.5f32, 0.5, 0.95, 0.9999999])),
            clause_activity_decay: Some(*cx.rng.pick(&[0.5f32, 0.5, 0.9999999])),
            reduce_locals_interval: Some(*cx.rng.pick(&[1u64, 1, 1, 2])),
            reduce_mids_interval: Some(*cx.rng.pick(&[1u64, 1, 2])),
            luby_restart_interval_scale: Some(*cx.rng.pick(&[1u64, 1, 1, 2])),
        },
    };
    let cfg = if hard { config(cx) } else { cfg };
    cx.sample = Some(format!("{} ({} vars, {} clauses) {:?}", f.kind, n, f.clauses.len(), cfg));
    if cx.verbose {
        cx.detail = show_clauses(&f.clauses);
    }
    let limit = bound(vars) + literals(&f.clauses);
    let count = Rc::new(Cell::new(0));
    let mut solver = Solver::new();
    solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
    solver.write_proof(Counting { left: limit, count: count.clone(), line_start: true }, ProofFormat::Drat);
    load(cx, &mut solver, &f.clauses)?;
    match solver.solve() {
        Ok(_) => (),
        Err(e) => {
            return Err(format!(
                "{} derived clauses for {} variables without a result ({})",
                count.get(),
                vars,
                e
            ))
        }
    }
    let derived = count.get();
    cx.count("solves", 1);
    cx.count("derived", derived);
    cx.max(if hard { "hard_derived" } else { "derived" }, derived);
    cx.max("percent_of_bound", derived * 100 / limit);
    if hard {
        cx.count("hard", 1);
    }
    if derived > 0 {
        let mut key = dimacs(&f.clauses);
        key.extend_from_slice(format!("{:?}", cfg).as_bytes());
        cx.nontrivial(&key);
    }
    Ok(())
}

/// Many solves on one solver: no call may get stuck because of earlier ones.
fn c21_history(cx: &mut Cx) -> CaseResult {
    let mut shape = history::gen_shape(&mut cx.rng, false);
    shape.pool = shape.pool.min(14);
    shape.layers = false;
    let mut ops = history::gen_ops(&mut cx.rng, &shape);
    if cx.rng.coin() {
        // a dense start makes the solves work
        let dens = 2.5 + 2.0 * cx.rng.f64();
        let m = (shape.pool as f64 * dens) as usize;
        let f = gen::ksat(&mut cx.rng, shape.pool, m, 3);
        ops.insert(0, Op::AddFormula(f));
    }
    let mut layers = None;
    if cx.rng.chance(1, 12) {
        let depth = cx.rng.range(5, 70);
        ops = history::gen_layer_ops(&mut cx.rng, depth);
        layers = Some(depth);
        cx.count("layered", 1);
    }
    let cfg = config(cx);
    cx.sample = Some(format!("history of {} calls, layers {:?}, {:?}", ops.len(), layers, cfg));
    if cx.verbose {
        cx.detail = history::show_ops(&ops);
    }
    // the layered formulas are solved with at most a few conflicts per literal
    let mut limit = bound(if layers.is_some() { 15 } else { shape.pool });
    for op in &ops {
        match op {
            Op::Add(c) => limit += c.len() as u64,
            Op::AddFormula(cs) | Op::AddDimacs(cs) => limit += literals(cs),
            _ => (),
        }
    }
    let limit = limit;
    let total = Rc::new(Cell::new(0));
    let left = Rc::new(Cell::new(limit));
    let mut proc = Derived { total: total.clone(), left: left.clone() };
    let mut solves = 0;
    {
        let mut solver = Solver::new();
        solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
        solver.add_proof_processor(&mut proc);
        for op in &ops {
            match op {
                Op::Add(c) => solver.add_clause(&to_lits(c)),
                Op::AddFormula(cs) | Op::AddDimacs(cs) => solver.add_formula(&to_formula(cs)),
                Op::Assume(a) => solver.assume(&to_lits(a)),
                Op::Config(c) => solver.config(&c.update()).map_err(|e| format!("valid config rejected: {}", e))?,
                Op::Solve => {
                    left.set(limit);
                    solves += 1;
                    if let Err(e) = solver.solve() {
                        return Err(format!(
                            "solve {} of the history derived more than {} clauses for {} variables without a result ({})",
                            solves, limit, shape.pool, e
                        ));
                    }
                }
                Op::Block => {
                    let block = solver.model().map(|m| m.iter().map(|&l| !l).collect::<Vec<_>>());
                    if let Some(b) = block {
                        solver.add_clause(&b);
                    }
                }
                _ => (),
            }
            left.set(limit);
        }
        let total = total.get();
        cx.count("derived", total);
        cx.count("solves", solves);
        cx.count("histories", 1);
        cx.max("history_derived", total);
        if total > 0 {
            cx.key = Some(crate::rng::hash_bytes(history::show_ops(&ops).as_bytes()));
        }
    }
    Ok(())
}

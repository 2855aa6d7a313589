//! Histories of solver calls, a reference world that predicts what may be observed, and an
//! interpreter that drives the real solver and compares after every call.
use std::collections::{BTreeMap, BTreeSet};

use varisat::{CnfFormula, ExtendFormula, ProofFormat, Solver};

use crate::event::EventMonitor;
use crate::gen::{self, Cfg};
use crate::oracle;
use crate::refsat::Clause;
use crate::rng::Rng;
use crate::util::*;

/// The interpreter watches for undefined behaviour only, verdicts are checked in native runs.
const INTERPRETED: bool = cfg!(miri);

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Add(Clause),
    AddFormula(Vec<Clause>),
    AddDimacs(Vec<Clause>),
    NewVar,
    Witness(i32),
    Sample(i32),
    Hide(i32),
    Observe,
    Assume(Vec<i32>),
    Solve,
    Config(Cfg),
    /// Block the last model (visible variables only).
    Block,
}

/// How to run a history.
#[derive(Clone, Debug, Default)]
pub struct Mode {
    pub self_check: bool,
    pub monitor: bool,
    pub native: bool,
    /// Skip calls that native proofs do not support, even without such a proof.
    pub native_rules: bool,
    pub cfg: Cfg,
    /// Let the proof target accept the data in pieces chosen by this seed.
    pub chop: Option<u64>,
}

/// What the caller saw.
#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    NewVar(i32),
    Observed(Vec<i32>),
    Sat(Vec<i32>),
    UnsatCore(Vec<i32>),
    Unsat,
}

/// Expected transcript entry.
#[derive(Clone, Debug, PartialEq)]
pub enum Ts {
    Witness(i32),
    Sample(i32),
    Hide(i32),
    Observe(i32),
    Add(Vec<i32>),
    Assume(Vec<i32>),
    Model(Vec<i32>),
    Failed(Vec<i32>),
    Unsat,
}

#[derive(Copy, Clone, PartialEq, Debug)]
enum Kind {
    Sample,
    Witness,
}

#[derive(Clone, Debug)]
struct Name {
    logical: i32,
    kind: Kind,
    /// From observe_internal_vars: the value is not specified.
    unknown: bool,
}

#[derive(Copy, Clone, PartialEq, Debug)]
enum Last {
    Unknown,
    Sat,
    UnsatAssumptions,
    Unsat,
}

#[derive(Clone, Default)]
pub struct Outcome {
    pub obs: Vec<Obs>,
    pub transcript: Vec<Ts>,
    /// Clauses loaded before the first solve, in caller names.
    pub initial: Vec<Clause>,
    pub proof: Vec<u8>,
    pub solves: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unsat_assumptions: u64,
    pub clauses: u64,
    pub hides: u64,
    pub observed: u64,
    pub recycled: u64,
    pub skipped: u64,
    pub blocked: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub dead: bool,
    /// All clauses with hidden variables renamed apart.
    pub logical: Vec<Clause>,
    /// For each clause addition of the transcript its position there and in `logical`.
    pub add_marks: BTreeMap<usize, usize>,
    /// The calls that were made (blocking clauses spelled out, skipped calls left out).
    pub calls: Vec<Op>,
}

struct World {
    names: BTreeMap<i32, Name>,
    clauses: Vec<Clause>,
    next_logical: i32,
    assumptions: Vec<i32>, // caller names
    assumed_logical: Vec<i32>,
    /// Names the caller mentioned that are not hidden.
    max_name: i32,
    /// Names below max_name never mentioned: may or may not exist.
    hidden_names: BTreeSet<i32>,
    last: Last,
    first_solve_done: bool,
    dead: bool,
}

impl World {
    fn fresh(&mut self) -> i32 {
        self.next_logical += 1;
        self.next_logical
    }
    /// Logical variable of a name, creating it.
    fn touch(&mut self, name: i32) -> i32 {
        self.max_name = self.max_name.max(name);
        if let Some(n) = self.names.get(&name) {
            return n.logical;
        }
        let l = self.fresh();
        self.hidden_names.remove(&name);
        self.names.insert(name, Name { logical: l, kind: Kind::Sample, unknown: false });
        l
    }
    fn logical(&mut self, c: &[i32]) -> Clause {
        c.iter()
            .map(|&l| {
                let v = self.touch(l.abs());
                if l > 0 {
                    v
                } else {
                    -v
                }
            })
            .collect()
    }
    fn usable(&self, l: i32) -> bool {
        match self.names.get(&l.abs()) {
            None => true,
            Some(n) => n.kind == Kind::Sample && !n.unknown,
        }
    }
}

pub fn canon_set(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort();
    c.dedup();
    c
}

fn canon_clause(c: &[i32]) -> Vec<i32> {
    crate::rup::canon(c)
}

/// Runs a history against the solver, checking everything the reference world predicts.
pub fn run(ops: &[Op], mode: &Mode) -> Result<Outcome, String> {
    let sink = Sink::default();
    let mut monitor = EventMonitor::new();
    let mut out = Outcome::default();
    let r;
    {
        let mut solver = Solver::new();
        solver.config(&mode.cfg.update()).map_err(|e| format!("config rejected: {}", e))?;
        if mode.native {
            match mode.chop {
                None => solver.write_proof(sink.clone(), ProofFormat::Varisat),
                Some(seed) => solver.write_proof(ChoppyWriter::new(sink.clone(), seed), ProofFormat::Varisat),
            }
        }
        if mode.self_check {
            solver.enable_self_checking();
        }
        if mode.monitor {
            solver.add_proof_processor(&mut monitor);
        }
        r = drive(&mut solver, ops, mode, &mut out);
        if r.is_ok() {
            if let Err(e) = solver.close_proof() {
                return Err(format!("close_proof failed: {}", e));
            }
        } else {
            std::mem::forget(solver);
        }
    }
    r?;
    out.proof = sink.take();
    if mode.monitor {
        monitor.finish()?;
        for (k, v) in monitor.counts() {
            *out.events.entry(k).or_insert(0) += v;
        }
        if let Some(e) = monitor.error() {
            return Err(format!("event stream: {}", e));
        }
    }
    Ok(out)
}

fn drive(solver: &mut Solver, ops: &[Op], mode: &Mode, out: &mut Outcome) -> Result<(), String> {
    let mut w = World {
        names: BTreeMap::new(),
        clauses: vec![],
        next_logical: 0,
        assumptions: vec![],
        assumed_logical: vec![],
        max_name: 0,
        hidden_names: BTreeSet::new(),
        last: Last::Unknown,
        first_solve_done: false,
        dead: false,
    };
    let mut after_dead = 0;
    for (i, op) in ops.iter().enumerate() {
        if w.dead {
            // nothing much can happen any more
            after_dead += 1;
            if after_dead > 8 {
                break;
            }
        }
        step(solver, &mut w, op, mode, out).map_err(|e| format!("op {} {:?}: {}", i, op, e))?;
        after(solver, &mut w, op).map_err(|e| format!("after op {} {:?}: {}", i, op, e))?;
    }
    out.dead = w.dead;
    out.logical = std::mem::take(&mut w.clauses);
    Ok(())
}

/// Checks that have to hold after every call.
fn after(solver: &mut Solver, w: &mut World, op: &Op) -> Result<(), String> {
    let model = solver.model();
    let core = solver.failed_core().map(from_lits);
    if let (Some(_), Some(_)) = (&model, &core) {
        return Err("both a model and a failed core are reported".into());
    }
    match w.last {
        Last::Sat => {
            if core.is_some() {
                return Err("failed core reported after a satisfiable result".into());
            }
        }
        Last::Unsat | Last::UnsatAssumptions => {
            if model.is_some() {
                return Err("model reported after an unsatisfiable result".into());
            }
        }
        Last::Unknown => {
            if model.is_some() {
                return Err("model reported although formula or assumptions changed".into());
            }
            if let Some(c) = core {
                // top level conflict found while loading clauses
                if !c.is_empty() {
                    return Err(format!("stale failed core {:?}", c));
                }
                if !INTERPRETED && oracle::decide(&w.clauses, &[])? {
                    return Err("empty failed core reported for a satisfiable formula".into());
                }
            }
        }
    }
    if let Some(m) = model {
        let m = from_lits(&m);
        match op {
            Op::Solve => (), // checked there
            _ => check_model(w, &m, false)?,
        }
    }
    Ok(())
}

fn check_model(w: &World, m: &[i32], strict: bool) -> Result<(), String> {
    let mut seen = BTreeSet::new();
    let mut logical = vec![];
    for &l in m {
        let v = l.abs();
        if !seen.insert(v) {
            return Err(format!("model {:?} assigns variable {} twice", m, v));
        }
        match w.names.get(&v) {
            Some(n) => {
                if !n.unknown {
                    logical.push(if l > 0 { n.logical } else { -n.logical });
                }
            }
            None => {
                if w.hidden_names.contains(&v) {
                    return Err(format!("model {:?} contains hidden variable {}", m, v));
                }
                if v > w.max_name {
                    return Err(format!("model {:?} contains unknown variable {}", m, v));
                }
            }
        }
    }
    if strict {
        for (&v, _) in &w.names {
            if !seen.contains(&v) {
                return Err(format!("model {:?} does not assign variable {}", m, v));
            }
        }
        for a in &w.assumptions {
            if !m.contains(a) {
                return Err(format!("model {:?} does not contain assumption {}", m, a));
            }
        }
    }
    // the visible part has to extend to the hidden variables
    let set: std::collections::HashSet<i32> = logical.iter().cloned().collect();
    let mut rest = vec![];
    for c in &w.clauses {
        if c.iter().any(|l| set.contains(l)) {
            continue;
        }
        let r: Clause = c.iter().cloned().filter(|l| !set.contains(&-l)).collect();
        if r.is_empty() {
            return Err(format!("model {:?} falsifies a clause (internal names {:?})", m, c));
        }
        rest.push(r);
    }
    if !INTERPRETED && !rest.is_empty() && !oracle::decide(&rest, &[])? {
        return Err(format!("model {:?} does not extend to the hidden variables", m));
    }
    Ok(())
}

fn step(solver: &mut Solver, w: &mut World, op: &Op, mode: &Mode, out: &mut Outcome) -> Result<(), String> {
    // Once the solver knows the formula is unsatisfiable it may ignore new clauses entirely.
    let dead_before = solver.failed_core().map(|c| c.is_empty()).unwrap_or(false);
    match op {
        Op::Add(c) => {
            let c: Clause = c.iter().cloned().filter(|&l| w.usable(l)).collect();
            if c.is_empty() && !matches!(op, Op::Add(o) if o.is_empty()) {
                out.skipped += 1;
                return Ok(());
            }
            add(w, out, &c, dead_before);
            out.calls.push(Op::Add(c.clone()));
            solver.add_clause(&to_lits(&c));
        }
        Op::AddFormula(cs) | Op::AddDimacs(cs) => {
            let cs: Vec<Clause> = cs
                .iter()
                .filter(|c| c.iter().all(|&l| w.usable(l)))
                .cloned()
                .collect();
            for c in &cs {
                add(w, out, c, dead_before);
            }
            if matches!(op, Op::AddFormula(_)) {
                let f: CnfFormula = to_formula(&cs);
                out.calls.push(Op::AddFormula(cs.clone()));
                solver.add_formula(&f);
            } else {
                out.calls.push(Op::AddDimacs(cs.clone()));
                solver
                    .add_dimacs_cnf(&dimacs(&cs)[..])
                    .map_err(|e| format!("add_dimacs_cnf failed: {}", e))?;
            }
        }
        Op::NewVar => {
            out.calls.push(Op::NewVar);
            let v = from_var(solver.new_var());
            if w.names.contains_key(&v) && !dead_before {
                return Err(format!("new_var returned {} which is in use", v));
            }
            if v > w.max_name + 1 && !w.dead {
                return Err(format!("new_var returned {} beyond the next free name {}", v, w.max_name + 1));
            }
            if w.hidden_names.contains(&v) {
                out.recycled += 1;
            }
            w.names.remove(&v);
            w.touch(v);
            out.obs.push(Obs::NewVar(v));
        }
        Op::Witness(v) | Op::Sample(v) => {
            if w.assumptions.iter().any(|a| a.abs() == *v)
                || w.names.get(v).map(|n| n.unknown).unwrap_or(false)
            {
                out.skipped += 1;
                return Ok(());
            }
            w.touch(*v);
            let kind = if matches!(op, Op::Witness(_)) { Kind::Witness } else { Kind::Sample };
            let n = w.names.get_mut(v).unwrap();
            if n.kind != kind {
                out.transcript.push(if kind == Kind::Witness { Ts::Witness(*v) } else { Ts::Sample(*v) });
            }
            n.kind = kind;
            out.calls.push(op.clone());
            if kind == Kind::Witness {
                solver.witness_var(to_var(*v));
            } else {
                solver.sample_var(to_var(*v));
            }
        }
        Op::Hide(v) => {
            if w.assumptions.iter().any(|a| a.abs() == *v) || ((mode.native || mode.native_rules) && !w.first_solve_done) {
                out.skipped += 1;
                return Ok(());
            }
            w.touch(*v);
            w.names.remove(v);
            w.hidden_names.insert(*v);
            out.hides += 1;
            out.transcript.push(Ts::Hide(*v));
            out.calls.push(op.clone());
            solver.hide_var(to_var(*v));
        }
        Op::Observe => {
            out.calls.push(Op::Observe);
            let vs: Vec<i32> = solver.observe_internal_vars().into_iter().map(from_var).collect();
            let set: BTreeSet<i32> = vs.iter().cloned().collect();
            if set.len() != vs.len() {
                return Err(format!("observe_internal_vars returned duplicates {:?}", vs));
            }
            for &v in &vs {
                if w.names.contains_key(&v) && !dead_before {
                    return Err(format!("observe_internal_vars returned {} which is in use", v));
                }
                w.max_name = w.max_name.max(v);
                w.hidden_names.remove(&v);
                let l = w.fresh();
                w.names.insert(v, Name { logical: l, kind: Kind::Witness, unknown: true });
                out.transcript.push(Ts::Observe(v));
            }
            out.observed += vs.len() as u64;
            out.obs.push(Obs::Observed(vs));
        }
        Op::Assume(a) => {
            let a: Vec<i32> = a.iter().cloned().filter(|&l| w.usable(l)).collect();
            w.assumed_logical = w.logical(&a);
            w.assumptions = a.clone();
            out.transcript.push(Ts::Assume(canon_set(&a)));
            if w.last != Last::Unsat {
                w.last = Last::Unknown;
            }
            out.calls.push(Op::Assume(a.clone()));
            solver.assume(&to_lits(&a));
        }
        Op::Config(c) => {
            out.calls.push(op.clone());
            solver.config(&c.update()).map_err(|e| format!("valid config rejected: {}", e))?;
        }
        Op::Block => {
            let m = match solver.model() {
                None => {
                    out.skipped += 1;
                    return Ok(());
                }
                Some(m) => from_lits(&m),
            };
            let c: Clause = m
                .iter()
                .cloned()
                .filter(|&l| w.names.get(&l.abs()).map(|n| n.kind == Kind::Sample && !n.unknown).unwrap_or(false))
                .map(|l| -l)
                .collect();
            if c.is_empty() {
                out.skipped += 1;
                return Ok(());
            }
            out.blocked += 1;
            add(w, out, &c, dead_before);
            out.calls.push(Op::Add(c.clone()));
            solver.add_clause(&to_lits(&c));
        }
        Op::Solve => {
            let before = w.last;
            out.calls.push(Op::Solve);
            let result = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
            w.first_solve_done = true;
            out.solves += 1;
            // the model is the evidence for a satisfiable verdict
            if !result && !INTERPRETED && oracle::decide(&w.clauses, &w.assumed_logical)? {
                return Err("solve returned false but the formula with the assumptions is satisfiable".into());
            }
            if result {
                let m = match solver.model() {
                    Some(m) => from_lits(&m),
                    None => return Err("no model after a satisfiable result".into()),
                };
                if solver.failed_core().is_some() {
                    return Err("failed core after a satisfiable result".into());
                }
                check_model(w, &m, true)?;
                w.last = Last::Sat;
                out.sat += 1;
                if before != Last::Sat {
                    let mut m = m.clone();
                    m.sort();
                    out.transcript.push(Ts::Model(m));
                }
                out.obs.push(Obs::Sat(m));
            } else {
                if solver.model().is_some() {
                    return Err("model after an unsatisfiable result".into());
                }
                let core = match solver.failed_core() {
                    Some(c) => from_lits(c),
                    None => return Err("no failed core after an unsatisfiable result".into()),
                };
                for l in &core {
                    if !w.assumptions.contains(l) {
                        return Err(format!("failed core {:?} contains {} which is not assumed", core, l));
                    }
                }
                let logical_core: Vec<i32> = core
                    .iter()
                    .map(|&l| w.names[&l.abs()].logical * l.signum())
                    .collect();
                if !INTERPRETED && oracle::decide(&w.clauses, &logical_core)? {
                    return Err(format!(
                        "the formula is satisfiable together with the failed core {:?}",
                        core
                    ));
                }
                if core.is_empty() {
                    w.last = Last::Unsat;
                    w.dead = true;
                    out.unsat += 1;
                    if before != Last::Unsat {
                        out.transcript.push(Ts::Unsat);
                    }
                    out.obs.push(Obs::Unsat);
                } else {
                    w.last = Last::UnsatAssumptions;
                    out.unsat_assumptions += 1;
                    if before != Last::UnsatAssumptions {
                        out.transcript.push(Ts::Failed(canon_set(&core)));
                    }
                    out.obs.push(Obs::UnsatCore(core));
                }
            }
        }
    }
    Ok(())
}

fn add(w: &mut World, out: &mut Outcome, c: &[i32], dead_before: bool) {
    let l = w.logical(c);
    // a clause added when a conflict at top level is known may be dropped
    let known_unsat = dead_before || (!w.clauses.is_empty() && w.dead);
    w.clauses.push(l);
    out.clauses += 1;
    match w.last {
        Last::Sat => w.last = Last::Unknown,
        _ => (),
    }
    if !w.first_solve_done {
        out.initial.push(c.to_vec());
    } else if !known_unsat {
        out.add_marks.insert(out.transcript.len(), w.clauses.len() - 1);
        out.transcript.push(Ts::Add(canon_clause(c)));
    }
}

/// Parameters of a random history.
#[derive(Clone, Debug)]
pub struct Shape {
    pub pool: usize,
    pub ops: usize,
    pub vars: bool,
    pub assume: bool,
    pub blocking: bool,
    /// Sometimes use a layered implication graph instead.
    pub layers: bool,
}

fn pool_lit(rng: &mut Rng, pool: usize) -> i32 {
    gen::lit(rng, pool)
}

pub fn gen_ops(rng: &mut Rng, s: &Shape) -> Vec<Op> {
    if s.layers && rng.chance(1, 60) {
        let depth = rng.range(2, 25);
        return gen_layer_ops(rng, depth);
    }
    if s.layers && s.assume && rng.chance(1, 80) {
        let mut ops = gen_wide_ops(rng);
        if s.vars {
            let n = rng.range(1, 12);
            add_var_ops(rng, &mut ops, n);
        }
        return ops;
    }
    if !cfg!(miri) && s.layers && s.vars && s.assume && rng.chance(1, 300) {
        let n = rng.range(30, 80);
        let rounds = rng.range(4, 20);
        let mut ops = gen_deep_ops(rng, n, rounds);
        let n = rng.range(1, rounds);
        add_var_ops(rng, &mut ops, n);
        return ops;
    }
    let mut ops = gen_plain_ops(rng, s);
    if !cfg!(miri) && rng.chance(1, 40) {
        let names = gen::edge_names(rng, s.pool + 8, 12);
        rename(&mut ops, &|v| names.get(v as usize - 1).cloned().unwrap_or(v));
    }
    ops
}

/// Renames the variables of all calls.
pub fn rename(ops: &mut [Op], f: &dyn Fn(i32) -> i32) {
    let clause = |c: &mut Clause| {
        for l in c.iter_mut() {
            *l = f(l.abs()) * l.signum();
        }
    };
    for op in ops.iter_mut() {
        match op {
            Op::Add(c) | Op::Assume(c) => clause(c),
            Op::AddFormula(cs) | Op::AddDimacs(cs) => cs.iter_mut().for_each(clause),
            Op::Witness(v) | Op::Sample(v) | Op::Hide(v) => *v = f(*v),
            _ => (),
        }
    }
}

/// A history over a layered implication graph: failures that are caused by literals with very many
/// paths between them.
pub fn gen_layer_ops(rng: &mut Rng, depth: usize) -> Vec<Op> {
    let queries = rng.range(1, 8);
    let (mut clauses, roots, triggers) = gen::layers(rng, depth, queries);
    let n = crate::refsat::max_var(&clauses);
    let flip: Vec<bool> = (0..=n).map(|_| rng.coin()).collect();
    let lit = |l: i32| if flip[l.unsigned_abs() as usize] { -l } else { l };
    let roots: Vec<i32> = roots.into_iter().map(lit).collect();
    let triggers: Vec<i32> = triggers.into_iter().map(lit).collect();
    for l in clauses.iter_mut().flatten() {
        *l = lit(*l);
    }
    for c in clauses.iter_mut() {
        rng.shuffle(c);
    }
    rng.shuffle(&mut clauses);
    let mut ops = vec![Op::AddFormula(clauses)];
    for _ in 0..rng.range(2, 12) {
        match rng.below(8) {
            0 => ops.push(Op::Assume(vec![])),
            1 => ops.push(Op::Add(vec![*rng.pick(&triggers)])),
            2 => {
                let k = rng.range(2, 4);
                ops.push(Op::Add(gen::distinct_clause(rng, n, k)))
            }
            _ => {
                let mut a = roots.clone();
                a.push(*rng.pick(&triggers));
                if rng.chance(1, 3) {
                    a.push(gen::lit(rng, n));
                }
                if rng.chance(1, 4) {
                    rng.shuffle(&mut a);
                }
                ops.push(Op::Assume(a));
            }
        }
        ops.push(Op::Solve);
    }
    ops
}

/// Many assumptions at once, failed cores of up to all of them, and wide clauses.
pub fn gen_wide_ops(rng: &mut Rng) -> Vec<Op> {
    let k = match if cfg!(miri) { 0 } else { rng.below(6) } {
        0..=2 => rng.range(9, 40),
        3 | 4 => rng.range(40, 140),
        _ => rng.range(140, 520),
    };
    // every assumption implies a variable of its own or is used itself
    let direct = rng.coin();
    let n = if direct { k } else { 2 * k };
    let flip: Vec<bool> = (0..=n + 4).map(|_| rng.coin()).collect();
    let lit = |l: i32| if flip[l.unsigned_abs() as usize] { -l } else { l };
    let all: Vec<i32> = (1..=k as i32).map(lit).collect();
    let mut clauses: Vec<Clause> = vec![];
    let mut wide: Clause = vec![];
    for (i, &a) in all.iter().enumerate() {
        if direct {
            wide.push(-a);
        } else {
            let b = lit((k + i + 1) as i32);
            wide.push(-b);
            clauses.push(if rng.chance(1, 5) && i > 0 { vec![-a, -all[rng.below(i)], b] } else { vec![-a, b] });
        }
    }
    let parts = rng.range(1, 4);
    for _ in 0..parts {
        // clauses over all or some of the literals
        let mut c = wide.clone();
        rng.shuffle(&mut c);
        if parts > 1 {
            c.truncate(rng.range(2, k));
        }
        clauses.push(c);
    }
    for _ in 0..rng.below(k) {
        let size = *rng.pick(&[2, 3, 3, 4]);
        clauses.push(gen::distinct_clause(rng, n, size));
    }
    rng.shuffle(&mut clauses);
    let mut ops = vec![if rng.coin() { Op::AddFormula(clauses) } else { Op::AddDimacs(clauses) }];
    for _ in 0..rng.range(2, 10) {
        let mut a = all.clone();
        match rng.below(5) {
            0 => {
                let keep = rng.range(0, k);
                rng.shuffle(&mut a);
                a.truncate(keep);
            }
            1 => {
                let i = rng.below(k);
                a[i] = -a[i];
            }
            2 => rng.shuffle(&mut a),
            3 => {
                rng.shuffle(&mut a);
                let i = rng.below(k);
                a.push(a[i]);
                if rng.chance(1, 4) {
                    a.push(-a[i]);
                }
            }
            _ => (),
        }
        if rng.chance(5, 6) {
            ops.push(Op::Assume(a));
        } else {
            let size = rng.range(1, k);
            let mut c: Clause = wide.clone();
            rng.shuffle(&mut c);
            c.truncate(size);
            ops.push(Op::Add(c));
        }
        ops.push(Op::Solve);
        if rng.chance(1, 6) {
            ops.push(Op::Block);
            ops.push(Op::Solve);
        }
    }
    ops
}

/// Inserts operations on variables after the first call.
fn add_var_ops(rng: &mut Rng, ops: &mut Vec<Op>, count: usize) {
    let n = ops
        .iter()
        .map(|op| match op {
            Op::Add(c) | Op::Assume(c) => c.iter().map(|l| l.abs()).max().unwrap_or(1),
            Op::AddFormula(cs) | Op::AddDimacs(cs) => crate::refsat::max_var(cs) as i32,
            _ => 1,
        })
        .max()
        .unwrap_or(1)
        .max(1) as usize;
    for _ in 0..count {
        let at = rng.range(1, ops.len());
        let v = rng.range(1, n) as i32;
        let op = match rng.below(9) {
            0 => Op::NewVar,
            1 => Op::Witness(v),
            2 => Op::Sample(v),
            3 => Op::Observe,
            _ => Op::Hide(v),
        };
        ops.insert(at, op);
    }
}

fn gen_plain_ops(rng: &mut Rng, s: &Shape) -> Vec<Op> {
    let mut ops = vec![];
    let mut pool = s.pool;
    // initial formula
    let dens = if s.pool > 25 { 2.5 + 1.5 * rng.f64() } else { 0.3 + 3.2 * rng.f64() };
    let m = (pool as f64 * dens) as usize;
    let style = rng.below(5);
    let adding = rng.range(3, 23);
    let cl = |rng: &mut Rng, pool: usize| -> Clause {
        match style {
            0 => {
                let k = *rng.pick(&[1, 2, 2, 3, 3, 3, 4]);
                (0..k).map(|_| pool_lit(rng, pool)).collect()
            }
            1 => gen::distinct_clause(rng, pool, 3),
            2 => {
                let k = *rng.pick(&[2, 2, 2, 3]);
                gen::distinct_clause(rng, pool, k)
            }
            3 => {
                let k = *rng.pick(&[1, 2, 3, 3, 4, 5, 6]);
                gen::distinct_clause(rng, pool, k)
            }
            _ => {
                let k = *rng.pick(&[2, 3, 4, 4, 5, 7]);
                gen::distinct_clause(rng, pool, k)
            }
        }
    };
    let initial: Vec<Clause> = (0..m).map(|_| cl(rng, pool)).collect();
    match rng.below(3) {
        0 => ops.extend(initial.into_iter().map(Op::Add)),
        1 => ops.push(Op::AddFormula(initial)),
        _ => ops.push(Op::AddDimacs(initial)),
    }
    while ops.len() < s.ops {
        let r = rng.below(100);
        match r {
            0..=24 => ops.push(Op::Solve),
            25..=39 if s.assume => {
                let k = match rng.below(8) {
                    0 => 0,
                    1..=3 => rng.range(1, 2),
                    4..=6 => rng.range(2, 5),
                    _ => rng.range(4, 10),
                };
                let mut a: Vec<i32> = (0..k).map(|_| pool_lit(rng, pool)).collect();
                if rng.chance(2, 3) {
                    // mostly without direct contradictions
                    let mut seen = BTreeSet::new();
                    a.retain(|l| seen.insert(l.abs()));
                }
                if !a.is_empty() && rng.chance(1, 6) {
                    let l = *rng.pick(&a);
                    a.push(l);
                }
                ops.push(Op::Assume(a));
                if rng.chance(4, 5) {
                    ops.push(Op::Solve);
                }
            }
            40..=62 if r < 40 + adding => {
                for _ in 0..rng.range(1, 3) {
                    let c = cl(rng, pool);
                    ops.push(Op::Add(c));
                }
            }
            63..=66 => {
                let n = rng.range(0, 4);
                let cs: Vec<Clause> = (0..n).map(|_| cl(rng, pool)).collect();
                ops.push(if rng.coin() { Op::AddFormula(cs) } else { Op::AddDimacs(cs) });
            }
            67..=70 => ops.push(Op::Config(gen::config(rng))),
            71..=74 if s.blocking => {
                ops.push(Op::Block);
                if rng.chance(3, 4) {
                    ops.push(Op::Solve);
                }
            }
            75..=78 if s.vars => {
                ops.push(Op::NewVar);
                if pool < s.pool + 4 && rng.coin() {
                    pool += 1;
                }
            }
            79..=86 if s.vars => ops.push(Op::Hide(rng.range(1, pool) as i32)),
            87..=89 if s.vars => ops.push(Op::Witness(rng.range(1, pool) as i32)),
            90..=92 if s.vars => ops.push(Op::Sample(rng.range(1, pool) as i32)),
            93..=94 if s.vars => ops.push(Op::Observe),
            95 if rng.chance(1, 20) => ops.push(Op::Add(vec![])),
            96 if rng.chance(1, 2) => {
                let l = pool_lit(rng, pool);
                ops.push(Op::Add(vec![l]));
            }
            97 => {
                let l = pool_lit(rng, pool);
                let k = pool_lit(rng, pool);
                ops.push(Op::Add(vec![l, k, -l]));
            }
            _ => (),
        }
    }
    ops.push(Op::Solve);
    ops
}

pub fn gen_shape(rng: &mut Rng, vars: bool) -> Shape {
    let pool = match rng.below(5) {
        0 => rng.range(1, 4),
        1..=2 => rng.range(3, 9),
        _ => rng.range(6, 18),
    };
    Shape {
        pool,
        ops: match rng.below(4) {
            0 => rng.range(5, 20),
            1..=2 => rng.range(20, 60),
            _ => rng.range(60, 150),
        },
        vars,
        assume: rng.chance(9, 10),
        blocking: rng.chance(2, 3),
        layers: true,
    }
}

/// A history over a formula near the satisfiability threshold that needs real search: staged
/// clause additions, assumptions of very different number and relation to earlier models.
pub fn gen_deep_ops(rng: &mut Rng, n: usize, rounds: usize) -> Vec<Op> {
    let mut ops = vec![];
    let kinds: &[usize] = *rng.pick(&[&[3][..], &[3][..], &[2, 3, 3, 3, 3, 4, 5], &[3, 3, 3, 3, 4]]);
    let per: f64 = if kinds.contains(&2) { 4.3 } else if kinds.contains(&4) { 5.2 } else { 4.26 };
    let mut dens = per * (0.75 + 0.2 * rng.f64());
    let make = |rng: &mut Rng, m: usize| -> Vec<Clause> {
        (0..m)
            .map(|_| {
                let k = *rng.pick(kinds);
                gen::distinct_clause(rng, n, k)
            })
            .collect()
    };
    let first = make(rng, (n as f64 * dens) as usize);
    ops.push(if rng.coin() { Op::AddFormula(first) } else { Op::AddDimacs(first) });
    let mut last: Vec<i32> = vec![];
    for _ in 0..rounds {
        match rng.below(10) {
            0 => {
                ops.push(Op::Assume(vec![]));
                last.clear();
            }
            1 | 2 if !last.is_empty() => {
                // a small change of the last assumptions
                let i = rng.below(last.len());
                match rng.below(3) {
                    0 => {
                        last.remove(i);
                    }
                    1 => last[i] = -last[i],
                    _ => {
                        last.push(gen::lit(rng, n));
                        let l = last.len() - 1;
                        last.swap(i, l);
                    }
                }
                ops.push(Op::Assume(last.clone()));
            }
            _ => {
                let most = match rng.below(4) {
                    0 => 3,
                    1 => n / 3,
                    _ => n / 8,
                };
                let k = rng.range(1, most.max(1));
                last = gen::distinct_clause(rng, n, k);
                ops.push(Op::Assume(last.clone()));
            }
        }
        ops.push(Op::Solve);
        if rng.chance(1, 3) {
            let room = (per * 1.03 - dens).max(0.0);
            let m = (n as f64 * room * rng.f64() * 0.4) as usize + rng.below(2);
            dens += m as f64 / n as f64;
            for c in make(rng, m) {
                ops.push(Op::Add(c));
            }
            if rng.coin() {
                ops.push(Op::Solve);
            }
        }
        if rng.chance(1, 8) {
            ops.push(Op::Block);
        }
        if rng.chance(1, 8) {
            ops.push(Op::Config(if rng.coin() { gen::aggressive(rng) } else { gen::config(rng) }));
        }
    }
    ops.push(Op::Assume(vec![]));
    ops.push(Op::Solve);
    ops
}

/// Greedy removal of operations and literals while the predicate still fails.
pub fn shrink(ops: &[Op], fails: &mut dyn FnMut(&[Op]) -> bool) -> Vec<Op> {
    let mut cur: Vec<Op> = vec![];
    for op in ops {
        match op {
            Op::AddFormula(cs) | Op::AddDimacs(cs) => cur.extend(cs.iter().cloned().map(Op::Add)),
            o => cur.push(o.clone()),
        }
    }
    if !fails(&cur) {
        cur = ops.to_vec();
    }
    let mut budget = 4000;
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < cur.len() && budget > 0 {
            let mut cand = cur.clone();
            let end = (i + chunk).min(cand.len());
            cand.drain(i..end);
            budget -= 1;
            if fails(&cand) {
                cur = cand;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if budget == 0 || (chunk == 1 && !changed) {
            break;
        }
        if !changed {
            chunk = (chunk / 2).max(1);
        }
    }
    // literals
    let mut i = 0;
    while i < cur.len() && budget > 0 {
        let n = match &cur[i] {
            Op::Add(c) | Op::Assume(c) => c.len(),
            _ => 0,
        };
        let mut j = 0;
        let mut n = n;
        while j < n && budget > 0 {
            let mut cand = cur.clone();
            match &mut cand[i] {
                Op::Add(c) | Op::Assume(c) => {
                    c.remove(j);
                }
                _ => (),
            }
            budget -= 1;
            if fails(&cand) {
                cur = cand;
                n -= 1;
            } else {
                j += 1;
            }
        }
        i += 1;
    }
    cur
}

pub fn show_ops(ops: &[Op]) -> String {
    let mut s = String::new();
    for op in ops {
        s.push_str(&format!("  {:?}\n", op));
    }
    s
}

//! C14: faults injected into writers, readers and processors.
use std::cell::Cell;
use std::io;
use std::rc::Rc;

use varisat::checker::{Checker, CheckerError, ProofTranscriptProcessor, ProofTranscriptStep};
use varisat::dimacs::DimacsParser;
use varisat::solver::SolverError;
use varisat::{ExtendFormula, ProofFormat, Solver};
use varisat_checker::{CheckedProofStep, CheckerData, ProofProcessor};
use varisat_lrat::WriteLrat;

use super::solve::config;
use crate::event::EventMonitor;
use crate::fw::{no_panic, CaseResult, Check, Cx, Tier};
use crate::gen::{self, Cfg};
use crate::history::{self, Mode, Op, Outcome};
use crate::oracle;
use crate::refsat::Clause;
use crate::rng::Rng;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C14",
        level: "fault_enumeration",
        rule: "a run without faults records how far every call gets; then the same calls are repeated with one fault at a chosen byte or step (every position of small runs, sampled positions of large ones) and each call has to report it or do exactly what it did without the fault; counts when at least one fault was hit; distinct by calls and fault plan",
        assumptions: &["runs are deterministic (C20)"],
        quick_cases: 18000,
        required: &[
            "write_faults", "processor_faults", "transcript_faults", "read_proof_faults", "read_formula_faults",
            "lrat_write_faults", "checker_processor_faults", "cut_proofs_rejected", "reported_by_close", "reported_by_solve",
            "refused", "exhaustive_runs", "parsed_after_fault",
        ],
        threads: 8,
        case: c14,
    }]
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Kind {
    /// Fails at the position and ever after.
    Hard(io::ErrorKind),
    /// Refuses a whole write that would cross the position.
    Whole(io::ErrorKind),
    /// Accepts no more data.
    Zero,
    /// Fails once, then works again.
    Once(io::ErrorKind),
    /// Takes all data but fails to flush once the position was reached.
    Flush(io::ErrorKind),
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
];

fn gen_kind(rng: &mut Rng) -> Kind {
    let k = *rng.pick(KINDS);
    match rng.below(6) {
        0..=1 => Kind::Hard(k),
        2 => Kind::Whole(k),
        3 => Kind::Zero,
        4 => Kind::Once(k),
        _ => Kind::Flush(k),
    }
}

/// Writer that fails as told.
#[derive(Clone)]
struct FaultWriter {
    sink: Sink,
    at: u64,
    kind: Kind,
    pos: Rc<Cell<u64>>,
    hits: Rc<Cell<u64>>,
    max: usize,
}

impl FaultWriter {
    fn new(at: u64, kind: Kind, max: usize) -> FaultWriter {
        FaultWriter { sink: Sink::default(), at, kind, pos: Rc::new(Cell::new(0)), hits: Rc::new(Cell::new(0)), max }
    }
    fn hit(&self, k: io::ErrorKind) -> io::Error {
        self.hits.set(self.hits.get() + 1);
        io::Error::new(k, "injected write fault")
    }
}

impl io::Write for FaultWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.max);
        let pos = self.pos.get();
        if pos + n as u64 > self.at {
            match self.kind {
                Kind::Hard(k) => {
                    if pos >= self.at {
                        return Err(self.hit(k));
                    }
                    n = (self.at - pos) as usize;
                }
                Kind::Whole(k) => return Err(self.hit(k)),
                Kind::Zero => {
                    if pos >= self.at {
                        self.hits.set(self.hits.get() + 1);
                        return Ok(0);
                    }
                    n = (self.at - pos) as usize;
                }
                Kind::Once(k) => {
                    if self.hits.get() == 0 {
                        if pos >= self.at {
                            return Err(self.hit(k));
                        }
                        n = (self.at - pos) as usize;
                    }
                }
                Kind::Flush(_) => (),
            }
        }
        self.sink.0.borrow_mut().extend_from_slice(&buf[..n]);
        self.pos.set(pos + n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.kind {
            Kind::Flush(k) if self.pos.get() > self.at => Err(self.hit(k)),
            _ => Ok(()),
        }
    }
}

/// Reader that fails as told.
struct FaultReader<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    kind: io::ErrorKind,
    once: bool,
    hits: Rc<Cell<u64>>,
    max: usize,
}

impl<'a> io::Read for FaultReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.at && !(self.once && self.hits.get() > 0) {
            self.hits.set(self.hits.get() + 1);
            return Err(io::Error::new(self.kind, "injected read fault"));
        }
        let stop = if self.once && self.hits.get() > 0 { self.data.len() } else { self.at.min(self.data.len()) };
        let n = buf.len().min(stop - self.pos).min(self.max);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Processor that only counts and fails as told.
#[derive(Default)]
struct Counting {
    seen: Rc<Cell<u64>>,
    fail_at: Option<u64>,
    once: bool,
    failed: Rc<Cell<u64>>,
}

impl Counting {
    fn next(&mut self) -> Result<(), anyhow::Error> {
        let n = self.seen.get();
        self.seen.set(n + 1);
        if Some(n) == self.fail_at || (!self.once && self.fail_at.map_or(false, |f| n >= f)) {
            self.failed.set(self.failed.get() + 1);
            return Err(anyhow::anyhow!("injected processor fault"));
        }
        Ok(())
    }
}

impl ProofProcessor for Counting {
    fn process_step(&mut self, _step: &CheckedProofStep, _data: CheckerData) -> Result<(), anyhow::Error> {
        self.next()
    }
}

impl ProofTranscriptProcessor for Counting {
    fn process_step(&mut self, _step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        self.next()
    }
}

/// Result of one call as far as the caller can tell.
#[derive(Clone, Debug, PartialEq)]
enum Saw {
    Nothing,
    Var(i32),
    Vars(Vec<i32>),
    Verdict(bool, Option<Vec<i32>>, Option<Vec<i32>>),
    Io(io::ErrorKind, String),
    Processor(String),
}

fn describe(e: SolverError) -> Result<Saw, String> {
    match e {
        SolverError::ProofIoError { cause } => Ok(Saw::Io(cause.kind(), cause.to_string())),
        SolverError::ProofProcessorError { cause } => Ok(Saw::Processor(cause.to_string())),
        e => Err(format!("unexpected error {:?}", e)),
    }
}

fn call(solver: &mut Solver, op: &Op) -> Result<Saw, String> {
    Ok(match op {
        Op::Add(c) => {
            solver.add_clause(&to_lits(c));
            Saw::Nothing
        }
        Op::AddFormula(cs) => {
            solver.add_formula(&to_formula(cs));
            Saw::Nothing
        }
        Op::AddDimacs(cs) => {
            solver.add_dimacs_cnf(&dimacs(cs)[..]).map_err(|e| format!("add_dimacs_cnf failed: {}", e))?;
            Saw::Nothing
        }
        Op::NewVar => Saw::Var(from_var(solver.new_var())),
        Op::Witness(v) => {
            solver.witness_var(to_var(*v));
            Saw::Nothing
        }
        Op::Sample(v) => {
            solver.sample_var(to_var(*v));
            Saw::Nothing
        }
        Op::Hide(v) => {
            solver.hide_var(to_var(*v));
            Saw::Nothing
        }
        Op::Observe => Saw::Vars(solver.observe_internal_vars().into_iter().map(from_var).collect()),
        Op::Assume(a) => {
            solver.assume(&to_lits(a));
            Saw::Nothing
        }
        Op::Config(c) => {
            solver.config(&c.update()).map_err(|e| format!("config rejected: {}", e))?;
            Saw::Nothing
        }
        Op::Solve => match solver.solve() {
            Ok(r) => Saw::Verdict(r, solver.model().map(|m| from_lits(&m)), solver.failed_core().map(from_lits)),
            Err(e) => describe(e)?,
        },
        Op::Block => unreachable!(),
    })
}

/// Makes the calls until the first error; afterwards the solver has to refuse further solving.
/// `mark` is evaluated after every call.
fn replay(solver: &mut Solver, calls: &[Op], cfg: &Cfg, mark: &dyn Fn() -> u64) -> Result<(Vec<(Saw, u64)>, bool), String> {
    let mut saw = vec![];
    solver.config(&cfg.update()).map_err(|e| format!("config rejected: {}", e))?;
    for (i, op) in calls.iter().enumerate() {
        let s = call(solver, op).map_err(|e| format!("call {} {:?}: {}", i, op, e))?;
        let failed = matches!(s, Saw::Io(..) | Saw::Processor(_));
        saw.push((s, mark()));
        if failed {
            match no_panic(|| solver.solve().map_err(|e| e.to_string())) {
                Err(p) if p.contains("solve() called after encountering an unrecoverable error") => (),
                Err(p) => return Err(format!("solving after a reported error: {}", p)),
                Ok(r) => return Err(format!("a solver that reported an error was not refused further solving: {:?}", r)),
            }
            return Ok((saw, true));
        }
    }
    let s = match solver.close_proof() {
        Ok(()) => Saw::Nothing,
        Err(e) => describe(e)?,
    };
    let failed = matches!(s, Saw::Io(..) | Saw::Processor(_));
    saw.push((s, mark()));
    Ok((saw, failed))
}

/// Compares a run with a fault with the run without. Only calls that can report an error do so, the
/// first of them that gets beyond the position has to.
fn compare(
    base: &[(Saw, u64)],
    got: &[(Saw, u64)],
    calls: &[Op],
    at: u64,
    want: &Saw,
) -> Result<Option<usize>, String> {
    let due = base.iter().enumerate().position(|(i, (_, m))| *m > at && (i >= calls.len() || calls[i] == Op::Solve));
    for (i, (s, _)) in got.iter().enumerate() {
        let name = || calls.get(i).map(|c| format!("{:?}", c)).unwrap_or("close_proof".into());
        if Some(i) == due {
            if s != want {
                return Err(format!("call {} {} met the fault but reported {:?} instead of {:?}", i, name(), s, want));
            }
            return Ok(due);
        }
        if *s != base[i].0 {
            return Err(format!("call {} {} gave {:?} instead of {:?} before any fault", i, name(), s, base[i].0));
        }
    }
    if let Some(d) = due {
        return Err(format!("call {} met the fault but no call reported it", d));
    }
    Ok(None)
}

/// Positions for faults: all of them for small runs.
fn positions(rng: &mut Rng, len: u64, all: u64, sample: usize) -> (Vec<u64>, bool) {
    if len <= all {
        return ((0..len + 2).collect(), true);
    }
    let sample = if len > 100_000 { sample / 4 } else { sample };
    let mut v: Vec<u64> = (0..sample).map(|_| rng.next() % len).collect();
    v.extend_from_slice(&[0, 1, len - 1, len - 2, len, len + 1]);
    // around the buffer sizes of std
    for k in &[8191u64, 8192, 8193, 16384] {
        if *k < len {
            v.push(*k);
        }
    }
    v.sort();
    v.dedup();
    (v, false)
}

fn history(cx: &mut Cx, native: bool) -> Result<(Outcome, Cfg), String> {
    let vars = native && cx.rng.coin();
    let mut shape = history::gen_shape(&mut cx.rng, vars);
    if cx.rng.coin() {
        shape.ops = shape.ops.min(20);
        shape.pool = shape.pool.min(6);
        shape.layers = false;
    }
    shape.layers &= cx.rng.chance(1, 4);
    let ops = history::gen_ops(&mut cx.rng, &shape);
    let cfg = config(cx);
    let mode = Mode { native_rules: true, cfg: cfg.clone(), ..Mode::default() };
    let out = history::run(&ops, &mode)?;
    Ok((out, cfg))
}

/// A formula solved in one go.
fn single(cx: &mut Cx) -> (Vec<Op>, Cfg, Vec<Clause>) {
    let clauses = if cx.rng.chance(1, 8) { gen::hard(&mut cx.rng, 0).clauses } else { gen::small_cheap(&mut cx.rng).clauses };
    let calls = match cx.rng.below(3) {
        0 => clauses.iter().map(|c| Op::Add(c.clone())).chain(Some(Op::Solve)).collect(),
        1 => vec![Op::AddFormula(clauses.clone()), Op::Solve],
        _ => vec![Op::AddDimacs(clauses.clone()), Op::Solve],
    };
    (calls, config(cx), clauses)
}

fn c14(cx: &mut Cx) -> CaseResult {
    match cx.rng.below(10) {
        0..=2 => write_faults(cx),
        3 => lrat_faults(cx),
        4..=5 => processor_faults(cx),
        6..=8 => checker_faults(cx),
        _ => formula_faults(cx),
    }
}

fn limits(cx: &Cx) -> (u64, usize) {
    if cx.tier == Tier::Thorough {
        (1500, 60)
    } else {
        (300, 16)
    }
}

fn key(cx: &mut Cx, what: &str, calls: &[Op]) {
    let s = format!("{} {}", what, history::show_ops(calls));
    cx.key = Some(crate::rng::hash_bytes(s.as_bytes()));
    if cx.verbose {
        cx.detail = s;
    }
}

fn write_faults(cx: &mut Cx) -> CaseResult {
    let format = *cx.rng.pick(&[ProofFormat::Varisat, ProofFormat::Varisat, ProofFormat::Drat, ProofFormat::BinaryDrat]);
    let native = matches!(format, ProofFormat::Varisat);
    let (calls, cfg) = if native && cx.rng.chance(2, 3) {
        let (o, cfg) = history(cx, true)?;
        (o.calls, cfg)
    } else {
        let (c, cfg, _) = single(cx);
        (c, cfg)
    };
    // checking on the fly must not hide a write error
    let checked = cx.rng.chance(1, 3);
    let max = *cx.rng.pick(&[usize::MAX, usize::MAX, 1, 13]);
    key(cx, &format!("write {:?} checked {} pieces {}", format, checked, max), &calls);
    let run = |at: u64, kind: Kind| -> Result<(Vec<(Saw, u64)>, bool, Vec<u8>, u64), String> {
        let w = FaultWriter::new(at, kind, max);
        let mut monitor = EventMonitor::new();
        let r;
        {
            let mut solver = Solver::new();
            solver.write_proof(w.clone(), format);
            if checked {
                solver.add_proof_processor(&mut monitor);
            }
            r = replay(&mut solver, &calls, &cfg, &|| w.pos.get());
        }
        let r = r?;
        if let Some(e) = monitor.error() {
            return Err(format!("event stream: {}", e));
        }
        Ok((r.0, r.1, w.sink.take(), w.hits.get()))
    };
    let (base, failed, full, _) = run(u64::MAX, Kind::Zero)?;
    if failed {
        return Err("error without a fault".into());
    }
    let (all, sample) = limits(cx);
    let (pos, exhaustive) = positions(&mut cx.rng, full.len() as u64, all, sample);
    cx.sample = Some(format!("{:?} proof of {} bytes, {} calls, {} positions", format, full.len(), calls.len(), pos.len()));
    if exhaustive {
        cx.count("exhaustive_runs", 1);
    }
    for at in pos {
        let kind = gen_kind(&mut cx.rng);
        let want = match kind {
            Kind::Hard(k) | Kind::Whole(k) | Kind::Once(k) | Kind::Flush(k) => Saw::Io(k, "injected write fault".into()),
            Kind::Zero => Saw::Io(io::ErrorKind::WriteZero, "failed to write the buffered data".into()),
        };
        let (mut got, failed, data, hits) = run(at, kind).map_err(|e| format!("{:?} at byte {}: {}", kind, at, e))?;
        // the wording of std is not our business
        if kind == Kind::Zero {
            for (s, _) in got.iter_mut() {
                if let Saw::Io(io::ErrorKind::WriteZero, m) = s {
                    *m = "failed to write the buffered data".into();
                }
            }
        }
        let due = compare(&base, &got, &calls, at, &want).map_err(|e| format!("{:?} at byte {}: {}", kind, at, e))?;
        if !full.starts_with(&data) {
            return Err(format!("{:?} at byte {}: the data written before is not a prefix of the proof", kind, at));
        }
        if due.is_none() {
            if failed || data != full {
                return Err(format!("{:?} at byte {} beyond the proof changed the result", kind, at));
            }
        } else {
            cx.count("write_faults", 1);
            cx.count("injected_errors", hits);
            cx.count(if due == Some(calls.len()) { "reported_by_close" } else { "reported_by_solve" }, 1);
            if due != Some(calls.len()) {
                cx.count("refused", 1);
            }
            if native && !checked && data.len() < full.len() {
                reject_cut(cx, &calls, &data)?;
            }
        }
    }
    Ok(())
}

/// Clauses added before the first solve.
fn initial(calls: &[Op]) -> Vec<Clause> {
    let mut v = vec![];
    for c in calls {
        match c {
            Op::Add(c) => v.push(c.clone()),
            Op::AddFormula(cs) | Op::AddDimacs(cs) => v.extend(cs.iter().cloned()),
            Op::Solve => break,
            _ => (),
        }
    }
    v
}

fn reject_cut(cx: &mut Cx, calls: &[Op], data: &[u8]) -> CaseResult {
    let mut checker = Checker::new();
    checker.add_formula(&to_formula(&initial(calls))).map_err(|e| format!("add_formula: {}", e))?;
    match checker.check_proof(data) {
        Err(CheckerError::ProofIncomplete { .. }) => {
            cx.count("cut_proofs_rejected", 1);
            Ok(())
        }
        Err(e) => Err(format!("a proof cut after {} bytes was rejected as {:?} instead of incomplete", data.len(), e)),
        Ok(()) => Err(format!("a proof cut after {} bytes was accepted", data.len())),
    }
}

fn lrat_faults(cx: &mut Cx) -> CaseResult {
    let binary = cx.rng.coin();
    let (calls, cfg, clauses) = single(cx);
    let convert = cx.rng.coin();
    let max = *cx.rng.pick(&[usize::MAX, usize::MAX, 1, 13]);
    key(cx, &format!("lrat binary {} convert {} pieces {}", binary, convert, max), &calls);
    let mut native = vec![];
    if convert {
        let sink = Sink::default();
        {
            let mut solver = Solver::new();
            solver.write_proof(sink.clone(), ProofFormat::Varisat);
            let (_, failed) = replay(&mut solver, &calls, &cfg, &|| 0)?;
            if failed {
                return Err("error without a fault".into());
            }
        }
        native = sink.take();
    }
    // the errors seen, in order
    let run = |at: u64, kind: Kind| -> Result<(Vec<String>, Vec<u8>, Option<bool>), String> {
        let w = FaultWriter::new(at, kind, max);
        let mut errors = vec![];
        let mut verdict = None;
        {
            let mut lrat = WriteLrat::new(w.clone(), binary);
            if convert {
                let mut checker = Checker::new();
                checker.add_processor(&mut lrat);
                let r = checker.add_formula(&to_formula(&clauses)).and_then(|()| checker.check_proof(&native[..]));
                if let Err(e) = r {
                    match e {
                        CheckerError::ProofProcessorError { cause } => errors.push(cause.to_string()),
                        e => return Err(format!("unexpected error {:?}", e)),
                    }
                }
            } else {
                let mut solver = Solver::new();
                solver.add_proof_processor(&mut lrat);
                let (saw, _) = replay(&mut solver, &calls, &cfg, &|| 0)?;
                for (s, _) in saw {
                    match s {
                        Saw::Processor(e) => errors.push(e),
                        Saw::Verdict(v, ..) => verdict = Some(v),
                        Saw::Io(k, e) => return Err(format!("unexpected I/O error {:?} {}", k, e)),
                        _ => (),
                    }
                }
            }
            if let Err(e) = lrat.flush() {
                errors.push(e.to_string());
            }
        }
        Ok((errors, w.sink.take(), verdict))
    };
    let (errors, full, verdict) = run(u64::MAX, Kind::Zero)?;
    if !errors.is_empty() {
        return Err(format!("error without a fault: {:?}", errors));
    }
    let (all, sample) = limits(cx);
    let (pos, exhaustive) = positions(&mut cx.rng, full.len() as u64, all, sample);
    cx.sample = Some(format!("LRAT of {} bytes, {} positions", full.len(), pos.len()));
    if exhaustive {
        cx.count("exhaustive_runs", 1);
    }
    for at in pos {
        let kind = gen_kind(&mut cx.rng);
        let at_what = format!("LRAT {:?} at byte {}", kind, at);
        let (errors, data, v) = run(at, kind).map_err(|e| format!("{}: {}", at_what, e))?;
        // what is written after a reported error is not specified
        if !matches!(kind, Kind::Once(_)) && !full.starts_with(&data) {
            return Err(format!("{}: the data written before is not a prefix of the proof", at_what));
        }
        if at < full.len() as u64 {
            match errors.first() {
                None => return Err(format!("{}: reported by no call", at_what)),
                Some(e) if kind != Kind::Zero && e != "injected write fault" => {
                    return Err(format!("{}: reported as {:?}", at_what, e))
                }
                _ => (),
            }
            cx.count("lrat_write_faults", 1);
        } else if !errors.is_empty() || data != full {
            return Err(format!("{} beyond the proof: {:?}", at_what, errors));
        }
        if v.is_some() && v != verdict {
            return Err(format!("{}: the verdict changed to {:?}", at_what, v));
        }
    }
    Ok(())
}

fn processor_faults(cx: &mut Cx) -> CaseResult {
    let (out, cfg) = history(cx, cx.idx % 2 == 0)?;
    let calls = out.calls;
    let before = cx.rng.coin();
    let native = cx.rng.chance(1, 3);
    let once = cx.rng.coin();
    key(cx, &format!("processor first {} native {} once {}", before, native, once), &calls);
    let run = |fail_at: Option<u64>| -> Result<(Vec<(Saw, u64)>, bool, Vec<u8>, u64, u64), String> {
        let seen = Rc::new(Cell::new(0));
        let failed = Rc::new(Cell::new(0));
        let mut faulty = Counting { seen: seen.clone(), fail_at, once, failed: failed.clone() };
        let mut monitor = EventMonitor::new();
        let sink = Sink::default();
        let r;
        {
            let mut solver = Solver::new();
            if native {
                solver.write_proof(sink.clone(), ProofFormat::Varisat);
            }
            if before {
                solver.add_proof_processor(&mut faulty);
                solver.add_proof_processor(&mut monitor);
            } else {
                solver.add_proof_processor(&mut monitor);
                solver.add_proof_processor(&mut faulty);
            }
            r = replay(&mut solver, &calls, &cfg, &|| seen.get());
        }
        let r = r?;
        if let Some(e) = monitor.error() {
            return Err(format!("event stream: {}", e));
        }
        if let Some(f) = fail_at {
            if seen.get() > f + 1 {
                return Err(format!("{} steps were handed to the processor after it failed", seen.get() - f - 1));
            }
        }
        Ok((r.0, r.1, sink.take(), seen.get(), failed.get()))
    };
    let (base, failed, full, total, _) = run(None)?;
    if failed {
        return Err("error without a fault".into());
    }
    let (all, sample) = limits(cx);
    let (pos, exhaustive) = positions(&mut cx.rng, total, all.min(400), sample);
    cx.sample = Some(format!("{} checked steps, {} calls, {} positions", total, calls.len(), pos.len()));
    if exhaustive {
        cx.count("exhaustive_runs", 1);
    }
    for at in pos {
        let (got, failed, data, _, hits) = run(Some(at)).map_err(|e| format!("processor failing at step {}: {}", at, e))?;
        let want = Saw::Processor("injected processor fault".into());
        let due = compare(&base, &got, &calls, at, &want).map_err(|e| format!("processor failing at step {}: {}", at, e))?;
        if !full.starts_with(&data) {
            return Err(format!("processor failing at step {}: proof is not a prefix", at));
        }
        if due.is_none() {
            if failed {
                return Err(format!("processor failing at step {} of {}: error reported", at, total));
            }
        } else {
            cx.count("processor_faults", 1);
            cx.count("injected_errors", hits);
            cx.count(if due == Some(calls.len()) { "reported_by_close" } else { "reported_by_solve" }, 1);
            if due != Some(calls.len()) {
                cx.count("refused", 1);
            }
            if native && data.len() < full.len() {
                reject_cut(cx, &calls, &data)?;
            }
        }
    }
    Ok(())
}

fn checker_faults(cx: &mut Cx) -> CaseResult {
    let (calls, cfg) = if cx.rng.coin() {
        let (o, cfg) = history(cx, true)?;
        (o.calls, cfg)
    } else {
        let (c, cfg, _) = single(cx);
        (c, cfg)
    };
    let sink = Sink::default();
    {
        let mut solver = Solver::new();
        solver.write_proof(sink.clone(), ProofFormat::Varisat);
        let (_, failed) = replay(&mut solver, &calls, &cfg, &|| 0)?;
        if failed {
            return Err("error without a fault".into());
        }
    }
    let proof = sink.take();
    let clauses = initial(&calls);
    let formula = to_formula(&clauses);
    let text = dimacs(&clauses);
    let (all, sample) = limits(cx);
    match cx.rng.below(4) {
        // the proof cannot be read to its end
        0..=1 => {
            let max = *cx.rng.pick(&[usize::MAX, 1, 13]);
            key(cx, &format!("reader pieces {}", max), &calls);
            let (pos, exhaustive) = positions(&mut cx.rng, proof.len() as u64, all, sample);
            cx.sample = Some(format!("reading a proof of {} bytes, {} positions", proof.len(), pos.len()));
            if exhaustive {
                cx.count("exhaustive_runs", 1);
            }
            for at in pos {
                let kind = *cx.rng.pick(KINDS);
                let once = cx.rng.chance(1, 4);
                let hits = Rc::new(Cell::new(0));
                let mut checker = Checker::new();
                checker.add_formula(&formula).map_err(|e| format!("add_formula: {}", e))?;
                let r = checker.check_proof(FaultReader {
                    data: &proof,
                    pos: 0,
                    at: at as usize,
                    kind,
                    once,
                    hits: hits.clone(),
                    max,
                });
                let what = format!("{:?} reading byte {} of {}", kind, at, proof.len());
                if (at as usize) < proof.len() {
                    match r {
                        Err(CheckerError::IoError { cause, .. })
                            if cause.kind() == kind && cause.to_string() == "injected read fault" => (),
                        // indistinguishable from a reader that reports the end this way
                        Err(CheckerError::ProofIncomplete { .. }) if kind == io::ErrorKind::UnexpectedEof => (),
                        r => return Err(format!("{}: {:?}", what, r)),
                    }
                    cx.count("read_proof_faults", 1);
                } else if let Err(e) = r {
                    return Err(format!("{} after the end: {:?}", what, e));
                }
                if (at as usize) < proof.len() {
                    reject_cut(cx, &calls, &proof[..at as usize])?;
                }
            }
        }
        which => {
            let transcript = which == 2;
            let split = cx.rng.coin();
            let dimacs_load = cx.rng.coin();
            key(cx, &format!("checker transcript {} split {} dimacs {}", transcript, split, dimacs_load), &calls);
            // result of each call and how far it got
            let run = |fail_at: Option<u64>| -> Vec<(Result<(), String>, u64)> {
                let seen = Rc::new(Cell::new(0));
                let mut faulty = Counting { seen: seen.clone(), fail_at, ..Counting::default() };
                let mut res = vec![];
                let mut checker = Checker::new();
                if transcript {
                    checker.add_transcript(&mut faulty);
                } else {
                    checker.add_processor(&mut faulty);
                }
                let desc = |e: CheckerError| match e {
                    CheckerError::ProofProcessorError { cause } => cause.to_string(),
                    e => format!("{:?}", e),
                };
                let loads: Vec<Vec<Clause>> =
                    if split { clauses.iter().map(|c| vec![c.clone()]).collect() } else { vec![clauses.clone()] };
                for l in loads {
                    let r = if split {
                        checker.add_clause(&to_lits(&l[0])).map_err(desc)
                    } else if dimacs_load {
                        checker.add_dimacs_cnf(&text[..]).map_err(|e| match e.downcast::<CheckerError>() {
                            Ok(e) => desc(e),
                            Err(e) => e.to_string(),
                        })
                    } else {
                        checker.add_formula(&to_formula(&l)).map_err(desc)
                    };
                    res.push((r, seen.get()));
                    if res.last().unwrap().0.is_err() {
                        return res;
                    }
                }
                res.push((checker.check_proof(&proof[..]).map_err(desc), seen.get()));
                res
            };
            let base = run(None);
            if let Some((Err(e), _)) = base.iter().find(|r| r.0.is_err()) {
                return Err(format!("error without a fault: {}", e));
            }
            let total = base.last().unwrap().1;
            let (pos, exhaustive) = positions(&mut cx.rng, total, all.min(400), sample);
            cx.sample = Some(format!("checker with failing processor, {} steps, {} positions", total, pos.len()));
            if exhaustive {
                cx.count("exhaustive_runs", 1);
            }
            for at in pos {
                let got = run(Some(at));
                let what = format!("{} failing at step {} of {}", if transcript { "transcript processor" } else { "processor" }, at, total);
                let due = base.iter().position(|b| b.1 > at);
                match due {
                    None => {
                        if got != base {
                            return Err(format!("{}: changed the result", what));
                        }
                    }
                    Some(d) => {
                        match got.last().unwrap() {
                            (Err(e), _) if got.len() == d + 1 && e == "injected processor fault" => (),
                            r => return Err(format!("{}: call {} of {} ended with {:?}", what, got.len(), base.len(), r)),
                        }
                        cx.count(if transcript { "transcript_faults" } else { "checker_processor_faults" }, 1);
                    }
                }
            }
        }
    }
    Ok(())
}

/// A formula cannot be read to its end.
fn formula_faults(cx: &mut Cx) -> CaseResult {
    let f = if cx.rng.chance(1, 20) { gen::large(&mut cx.rng) } else { gen::small_cheap(&mut cx.rng) };
    let nvars = crate::refsat::max_var(&f.clauses);
    let header = if cx.rng.coin() { Some((nvars, f.clauses.len())) } else { None };
    let text = dimacs_text(&f.clauses, header);
    let calls = vec![Op::AddFormula(f.clauses.clone()), Op::Solve];
    let max = *cx.rng.pick(&[usize::MAX, 1, 13, 4096]);
    key(cx, &format!("formula reader pieces {} header {:?}", max, header), &calls);
    let (all, sample) = limits(cx);
    let (pos, exhaustive) = positions(&mut cx.rng, text.len() as u64, all.min(200), sample);
    cx.sample = Some(format!("reading {} bytes of DIMACS text, {} positions", text.len(), pos.len()));
    if exhaustive {
        cx.count("exhaustive_runs", 1);
    }
    let small = nvars <= 60 && f.clauses.len() < 400;
    let sat = if small { Some(oracle::decide(&f.clauses, &[])?) } else { f.known };
    for at in pos {
        if at > text.len() as u64 {
            continue;
        }
        let kind = *cx.rng.pick(KINDS);
        let once = cx.rng.chance(1, 4);
        let reader = || FaultReader {
            data: &text,
            pos: 0,
            at: at as usize,
            kind,
            once,
            hits: Rc::new(Cell::new(0)),
            max,
        };
        let what = format!("{:?} reading byte {} of {}", kind, at, text.len());
        let expect = |who: &str, r: Result<(), anyhow::Error>| -> Result<(), String> {
            let e = match r {
                Ok(()) => return Err(format!("{}: {} reported success", what, who)),
                Err(e) => e,
            };
            match e.downcast_ref::<io::Error>() {
                Some(i) if i.kind() == kind && i.to_string() == "injected read fault" => Ok(()),
                _ => Err(format!("{}: {} reported {:?}", what, who, e)),
            }
        };
        // a fault after the last byte is met as well: the end is not known before
        match cx.rng.below(3) {
            0 => expect("DimacsParser::parse", DimacsParser::parse(reader()).map(|_| ()))?,
            1 => {
                let mut checker = Checker::new();
                expect("Checker::add_dimacs_cnf", checker.add_dimacs_cnf(reader()))?
            }
            _ => {
                let mut solver = Solver::new();
                expect("Solver::add_dimacs_cnf", solver.add_dimacs_cnf(reader()))?;
                if let (Some(sat), true) = (sat, small || cx.rng.chance(1, 10)) {
                    if sat && cx.rng.coin() {
                        // whatever was loaded is part of a satisfiable formula
                        if !solver.solve().map_err(|e| format!("{}: solve: {}", what, e))? {
                            return Err(format!("{}: the clauses read from a satisfiable formula are reported unsatisfiable", what));
                        }
                    }
                    solver.add_dimacs_cnf(&text[..]).map_err(|e| format!("{}: {}", what, e))?;
                    let r = solver.solve().map_err(|e| format!("{}: solve: {}", what, e))?;
                    if r != sat {
                        return Err(format!("{}: solve returns {} after loading the formula again", what, r));
                    }
                    if r {
                        check_assignment(&from_lits(&solver.model().ok_or("no model")?), &f.clauses)?;
                    }
                    cx.count("parsed_after_fault", 1);
                }
            }
        }
        cx.count("read_formula_faults", 1);
    }
    Ok(())
}

/// Makes a call and describes what the caller sees.
pub fn describe_call(solver: &mut Solver, op: &Op) -> Result<String, String> {
    Ok(format!("{:?}", call(solver, op)?))
}

//! C06, C07, C09, C10, C20: proofs in every format and on the fly checking.
use varisat::checker::{Checker, ProofTranscriptProcessor, ProofTranscriptStep};
use varisat::{ExtendFormula, ProofFormat, Solver};
use varisat_lrat::WriteLrat;

use super::solve::{config, history_case, load, run_history};
use crate::event::EventMonitor;
use crate::fw::{CaseResult, Check, Cx, Tier};
use crate::gen;
use crate::history::{self, canon_set, Mode, Outcome, Ts};
use crate::lrat;
use crate::oracle;
use crate::pstep::{self, PStep};
use crate::refsat::{self, Clause};
use crate::rng::Rng;
use crate::rup;
use crate::util::*;

const TRUST: &[&str] = &["the harness's proof parsers and propagation checkers are correct"];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C06",
            level: "exploration",
            rule: "random call histories and hard formulas run with native proof output, the proof is checked by the independent checker and its transcript compared with what the caller saw; counts when at least one clause was derived or one assumption or variable operation was made; distinct by history",
            assumptions: &["the generated histories avoid the documented restriction that variables cannot be hidden before the first solve"],
            quick_cases: 150000,
            required: &["transcript_steps", "proof_bytes", "sat", "unsat", "unsat_assumptions", "hides"],
            threads: 8,
            case: c06,
        },
        Check {
            id: "C07",
            level: "exploration",
            rule: "the same history runs plain, self checked, with proof writer and with processors; every checked step goes through an online monitor; counts when the monitor saw a derived clause; distinct by history",
            assumptions: TRUST,
            quick_cases: 80000,
            required: &["at_events", "delete_at_events|delete_events", "model_events", "failed_events", "hint_clauses", "duplicate_events", "tautology_events", "observe_events", "hide_events"],
            threads: 8,
            case: c07,
        },
        Check {
            id: "C09",
            level: "exploration",
            rule: "random formulas solved once with text and once with binary DRAT output; every addition and deletion is checked by an independent unit propagation checker; counts when the proof has at least one addition; distinct by formula and configuration",
            assumptions: TRUST,
            quick_cases: 60000,
            required: &["unsat", "sat", "additions", "deletions", "hard_proofs", "native_compared"],
            threads: 8,
            case: c09,
        },
        Check {
            id: "C10",
            level: "exploration",
            rule: "random formulas, LRAT and compressed LRAT written on the fly and by converting a native proof; every step is checked hint by hint; counts when the proof adds a clause; distinct by formula and configuration",
            assumptions: TRUST,
            quick_cases: 60000,
            required: &["unsat", "sat", "additions", "deletions", "hints", "converted", "live_clauses"],
            threads: 8,
            case: c10,
        },
        Check {
            id: "C20",
            level: "exploration",
            rule: "the same calls are repeated in the same thread, another thread and (sampled) another process with targets that accept data differently, all outputs are compared; counts when a proof step was written; distinct by history or formula",
            assumptions: &["runs are compared within one build on one machine"],
            quick_cases: 20000,
            required: &["same_thread", "other_thread", "other_process", "proof_bytes", "checked_again"],
            threads: 8,
            case: c20,
        },
    ]
}

#[derive(Default)]
pub struct Recorder {
    pub steps: Vec<Ts>,
    pub fail_at: Option<usize>,
}

impl ProofTranscriptProcessor for Recorder {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        if Some(self.steps.len()) == self.fail_at {
            return Err(anyhow::anyhow!("injected transcript fault"));
        }
        self.steps.push(match step {
            ProofTranscriptStep::WitnessVar { var } => Ts::Witness(from_var(*var)),
            ProofTranscriptStep::SampleVar { var } => Ts::Sample(from_var(*var)),
            ProofTranscriptStep::HideVar { var } => Ts::Hide(from_var(*var)),
            ProofTranscriptStep::ObserveInternalVar { var } => Ts::Observe(from_var(*var)),
            ProofTranscriptStep::AddClause { clause } => Ts::Add(rup::canon(&from_lits(clause))),
            ProofTranscriptStep::Unsat => Ts::Unsat,
            ProofTranscriptStep::Model { assignment } => {
                let mut m = from_lits(assignment);
                m.sort();
                Ts::Model(m)
            }
            ProofTranscriptStep::Assume { assumptions } => Ts::Assume(canon_set(&from_lits(assumptions))),
            ProofTranscriptStep::FailedAssumptions { failed_core } => Ts::Failed(canon_set(&from_lits(failed_core))),
        });
        Ok(())
    }
}

/// Compares a transcript with what the caller saw.
pub fn compare_transcript(out: &Outcome, got: &[Ts]) -> Result<(), String> {
    // Clauses may be ignored once the clauses before them are contradictory.
    let contradictory = |n: usize| -> Result<bool, String> { Ok(!oracle::decide(&out.logical[..n], &[])?) };
    let got: Vec<&Ts> = got.iter().collect();
    let mut got_iter = got.iter().filter(|t| ***t != Ts::Unsat).peekable();
    let marks = (0..out.initial.len())
        .map(|i| (Ts::Add(rup::canon(&out.initial[i])), Some(i)))
        .chain(out.transcript.iter().enumerate().map(|(i, t)| (t.clone(), out.add_marks.get(&i).cloned())))
        .filter(|(t, _)| *t != Ts::Unsat);
    let mut closed = false;
    for (i, (want, mark)) in marks.enumerate() {
        if got_iter.peek() == Some(&&&want) {
            got_iter.next();
            continue;
        }
        if let Some(n) = mark {
            closed = closed || contradictory(n)?;
            if closed {
                continue;
            }
        }
        return Err(format!("transcript entry {} is {:?}, but the caller's view is {:?}", i, got_iter.peek(), want));
    }
    if let Some(t) = got_iter.next() {
        return Err(format!("the transcript continues with {:?}, the caller saw nothing more", t));
    }
    let claims = got.iter().any(|t| **t == Ts::Unsat);
    if claims && !out.dead {
        return Err("the transcript claims unsatisfiability, the solver did not".into());
    }
    if !claims && out.dead && !out.initial.iter().any(|c| c.is_empty()) && !out.transcript.iter().any(|t| *t == Ts::Add(vec![])) {
        return Err("the solver reported unsatisfiability, the transcript does not".into());
    }
    Ok(())
}

/// Checks a native proof with the real checker, transcript and event monitor attached.
pub fn check_native(
    initial: &[Clause],
    proof: &[u8],
    chop: Option<&mut Rng>,
) -> Result<(Vec<Ts>, EventMonitor), String> {
    let mut rec = Recorder::default();
    let mut monitor = EventMonitor::new();
    {
        let mut checker = Checker::new();
        checker.add_transcript(&mut rec);
        checker.add_processor(&mut monitor);
        checker
            .add_formula(&to_formula(initial))
            .map_err(|e| format!("checker rejected the formula: {}", e))?;
        let r = match chop {
            Some(rng) => {
                let max = *rng.pick(&[1usize, 2, 5, 64, 4096]);
                let r = Choppy { data: proof, pos: 0, rng: Rng::new(rng.next()), max, interrupts: false };
                checker.check_proof(r)
            }
            None => checker.check_proof(proof),
        };
        r.map_err(|e| format!("checker rejected the proof: {}", e))?;
    }
    Ok((rec.steps, monitor))
}

fn formula(cx: &mut Cx, hard_every: usize) -> (gen::Formula, bool) {
    let hard = cx.rng.chance(1, hard_every);
    if hard {
        let scale = if cx.tier == Tier::Thorough { cx.rng.below(3) } else { 0 };
        (gen::hard(&mut cx.rng, scale), true)
    } else {
        (gen::small(&mut cx.rng), false)
    }
}

fn describe(cx: &mut Cx, f: &gen::Formula, cfg: &gen::Cfg) {
    cx.sample = Some(format!(
        "{} ({} vars, {} clauses) {:?}",
        f.kind,
        refsat::max_var(&f.clauses),
        f.clauses.len(),
        cfg
    ));
    if cx.verbose {
        cx.detail = format!("{:?}\n{}", cfg, show_clauses(&f.clauses));
    }
}

fn c06(cx: &mut Cx) -> CaseResult {
    if cx.rng.chance(1, 60) {
        return c06_single(cx);
    }
    let vars = cx.rng.chance(2, 3);
    let shape = history::gen_shape(&mut cx.rng, vars);
    let chop = if cx.rng.chance(1, 4) { Some(cx.rng.next()) } else { None };
    let mode = Mode { native: true, cfg: config(cx), self_check: cx.rng.chance(1, 5), chop, ..Mode::default() };
    let out = history_case(cx, &shape, &mode)?;
    cx.count("proof_bytes", out.proof.len() as u64);
    let mut chop = Rng::new(cx.rng.next());
    let chop = if cx.rng.coin() { Some(&mut chop) } else { None };
    let (ts, monitor) = check_native(&out.initial, &out.proof, chop).map_err(|e| {
        format!("{} (proof of {} bytes)", e, out.proof.len())
    })?;
    cx.count("transcript_steps", ts.len() as u64);
    if let Some(e) = monitor.error() {
        return Err(format!("checked steps of an accepted proof: {}", e));
    }
    compare_transcript(&out, &ts).map_err(|e| {
        if cx.verbose {
            cx.detail.push_str(&format!("\ninitial {:?}\nexpected {:?}\ntranscript {:?}\n", out.initial, out.transcript, ts));
        }
        e
    })?;
    if out.proof.len() < 3 {
        cx.key = None;
    }
    Ok(())
}

fn c06_single(cx: &mut Cx) -> CaseResult {
    let (f, _) = formula(cx, 3);
    let cfg = config(cx);
    describe(cx, &f, &cfg);
    let sink = Sink::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
    solver.write_proof(sink.clone(), ProofFormat::Varisat);
    load(cx, &mut solver, &f.clauses)?;
    let sat = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
    let model = solver.model().map(|m| {
        let mut m = from_lits(&m);
        m.sort();
        m
    });
    solver.close_proof().map_err(|e| format!("close_proof: {}", e))?;
    drop(solver);
    let proof = sink.take();
    cx.count("proof_bytes", proof.len() as u64);
    let (ts, monitor) = check_native(&f.clauses, &proof, None)?;
    cx.count("transcript_steps", ts.len() as u64);
    cx.count(if sat { "sat" } else { "unsat" }, 1);
    if let Some(e) = monitor.error() {
        return Err(format!("checked steps of an accepted proof: {}", e));
    }
    for (k, v) in monitor.counts() {
        cx.count(k, v);
    }
    let out = Outcome {
        initial: f.clauses.clone(),
        logical: f.clauses.clone(),
        transcript: match model {
            Some(m) => vec![Ts::Model(m)],
            None => vec![Ts::Unsat],
        },
        dead: !sat,
        ..Outcome::default()
    };
    compare_transcript(&out, &ts)?;
    let mut key = dimacs(&f.clauses);
    key.extend_from_slice(format!("{:?}", cfg).as_bytes());
    cx.nontrivial(&key);
    Ok(())
}

fn c07(cx: &mut Cx) -> CaseResult {
    let single = cx.rng.chance(1, 60);
    let (ops, cfg) = if single {
        let (f, _) = formula(cx, 3);
        let cfg = config(cx);
        (vec![history::Op::AddFormula(f.clauses), history::Op::Solve, history::Op::Solve], cfg)
    } else {
        let vars = cx.rng.chance(2, 3);
        let shape = history::gen_shape(&mut cx.rng, vars);
        let cfg = config(cx);
        (history::gen_ops(&mut cx.rng, &shape), cfg)
    };
    cx.sample = Some(format!("{} calls {:?}", ops.len(), cfg));
    // hiding variables before the first solve is not possible in native proofs
    let native = cx.rng.coin();
    let base = Mode { cfg: cfg.clone(), native_rules: native, ..Mode::default() };
    let plain = run_history(cx, &ops, &base)?;
    let mut modes = vec![("monitored", Mode { monitor: true, ..base.clone() })];
    match cx.rng.below(3) {
        0 => modes.push(("self checked", Mode { self_check: true, ..base.clone() })),
        1 => modes.push(("self checked and monitored", Mode { self_check: true, monitor: true, ..base.clone() })),
        _ => (),
    }
    if native {
        modes.push(("with native proof", Mode { native: true, ..base.clone() }));
        if cx.rng.chance(1, 3) {
            modes.push(("with everything", Mode { native: true, self_check: true, monitor: true, ..base.clone() }));
        }
    }
    let mut derived = 0;
    for (name, mode) in modes {
        cx.count("compared_runs", 1);
        let out = run_history(cx, &ops, &mode).map_err(|e| format!("{}: {}", name, e))?;
        derived += out.events.get("at_events").copied().unwrap_or(0);
        if out.obs != plain.obs {
            for (i, (a, b)) in out.obs.iter().zip(plain.obs.iter()).enumerate() {
                if a != b {
                    return Err(format!("result {} is {:?} {} but {:?} without checking", i, a, name, b));
                }
            }
            return Err(format!("{} run saw {} results, plain run {}", name, out.obs.len(), plain.obs.len()));
        }
    }
    if derived > 0 {
        cx.key = Some(crate::rng::hash_bytes(history::show_ops(&ops).as_bytes()));
    }
    Ok(())
}

/// One solver run with a proof in a foreign format.
pub fn solve_with_proof(
    clauses: &[Clause],
    cfg: &gen::Cfg,
    format: ProofFormat,
    chop: Option<u64>,
) -> Result<(bool, Vec<u8>, Option<Vec<i32>>), String> {
    let sink = Sink::default();
    let mut solver = Solver::new();
    solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
    match chop {
        None => solver.write_proof(sink.clone(), format),
        Some(seed) => solver.write_proof(ChoppyWriter::new(sink.clone(), seed), format),
    }
    solver.add_formula(&to_formula(clauses));
    let sat = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
    let model = solver.model().map(|m| from_lits(&m));
    solver.close_proof().map_err(|e| format!("close_proof: {}", e))?;
    drop(solver);
    Ok((sat, sink.take(), model))
}

fn c09(cx: &mut Cx) -> CaseResult {
    let (f, hard) = formula(cx, 25);
    let cfg = config(cx);
    describe(cx, &f, &cfg);
    let chop = if cx.rng.chance(1, 4) { Some(cx.rng.next()) } else { None };
    let (sat, text, _) = solve_with_proof(&f.clauses, &cfg, ProofFormat::Drat, chop)?;
    let (sat2, bin, _) = solve_with_proof(&f.clauses, &cfg, ProofFormat::BinaryDrat, None)?;
    if sat != sat2 {
        return Err("text and binary run disagree on the verdict".into());
    }
    let steps = rup::parse_drat_text(&text).map_err(|e| format!("text proof: {}", e))?;
    let bsteps = rup::parse_drat_binary(&bin).map_err(|e| format!("binary proof: {}", e))?;
    if steps.len() != bsteps.len() {
        return Err(format!("text proof has {} steps, binary proof {}", steps.len(), bsteps.len()));
    }
    for (i, (a, b)) in steps.iter().zip(bsteps.iter()).enumerate() {
        if a.add != b.add || a.lits != b.lits {
            return Err(format!("step {} differs: text {:?}, binary {:?}", i, a, b));
        }
    }
    let (n, empty) = rup::check_drat(&f.clauses, &steps)?;
    if cx.rng.coin() {
        // the native proof of the same run derives and deletes the same clauses
        let (_, native, _) = solve_with_proof(&f.clauses, &cfg, ProofFormat::Varisat, None)?;
        let mut want = vec![];
        for s in pstep::decode(&native).0 {
            match s {
                PStep::At(_, c, _) => want.push((true, rup::canon(&c))),
                PStep::Units(u) => want.extend(u.iter().map(|u| (true, vec![u.0]))),
                PStep::Delete(c, _) => want.push((false, rup::canon(&c))),
                _ => (),
            }
        }
        let got: Vec<_> = steps.iter().map(|s| (s.add, rup::canon(&s.lits))).collect();
        if got != want {
            let i = (0..).find(|&i| got.get(i) != want.get(i)).unwrap();
            return Err(format!("step {}: {:?} in the DRAT proof, {:?} in the native proof", i, got.get(i), want.get(i)));
        }
        cx.count("native_compared", 1);
    }
    let adds = steps.iter().filter(|s| s.add).count() as u64;
    cx.count("steps", n as u64);
    cx.count("additions", adds);
    cx.count("deletions", n as u64 - adds);
    cx.count(if sat { "sat" } else { "unsat" }, 1);
    if hard {
        cx.count("hard_proofs", 1);
        cx.max("proof_steps", n as u64);
    }
    if !sat {
        let explicit = steps.iter().any(|s| s.add && s.lits.is_empty());
        // contradicting clauses of the formula itself need no derivation
        let units: std::collections::HashSet<i32> =
            f.clauses.iter().map(|c| rup::canon(c)).filter(|c| c.len() == 1).map(|c| c[0]).collect();
        let trivial = f.clauses.iter().any(|c| c.is_empty()) || units.iter().any(|u| units.contains(&-u));
        if trivial {
            cx.count("trivial", 1);
        }
        if !explicit && !trivial {
            return Err("the proof of an unsatisfiable formula does not contain the empty clause".into());
        }
        if !empty {
            return Err("the proof does not refute the formula".into());
        }
    } else if empty {
        return Err("the proof refutes a formula reported satisfiable".into());
    }
    if adds > 0 {
        let mut key = dimacs(&f.clauses);
        key.extend_from_slice(format!("{:?}", cfg).as_bytes());
        cx.nontrivial(&key);
    }
    Ok(())
}

fn lrat_on_the_fly(
    clauses: &[Clause],
    cfg: &gen::Cfg,
    binary: bool,
    monitor: &mut EventMonitor,
) -> Result<(bool, Vec<u8>), String> {
    let sink = Sink::default();
    let mut lrat = WriteLrat::new(sink.clone(), binary);
    let sat;
    {
        let mut solver = Solver::new();
        solver.config(&cfg.update()).map_err(|e| format!("valid config rejected: {}", e))?;
        solver.add_proof_processor(&mut lrat);
        solver.add_proof_processor(monitor);
        solver.add_formula(&to_formula(clauses));
        sat = solver.solve().map_err(|e| format!("solve returned an error: {}", e))?;
        solver.close_proof().map_err(|e| format!("close_proof: {}", e))?;
    }
    lrat.flush().map_err(|e| format!("flush: {}", e))?;
    drop(lrat);
    Ok((sat, sink.take()))
}

fn lrat_converted(
    clauses: &[Clause],
    native: &[u8],
    monitor: &mut EventMonitor,
) -> Result<(Vec<u8>, Vec<u8>), String> {
    let text = Sink::default();
    let bin = Sink::default();
    let mut t = WriteLrat::new(text.clone(), false);
    let mut b = WriteLrat::new(bin.clone(), true);
    {
        let mut checker = Checker::new();
        checker.add_processor(&mut t);
        checker.add_processor(&mut b);
        checker.add_processor(monitor);
        checker.add_formula(&to_formula(clauses)).map_err(|e| format!("checker: {}", e))?;
        checker.check_proof(native).map_err(|e| format!("checker rejected the proof: {}", e))?;
    }
    t.flush().map_err(|e| format!("flush: {}", e))?;
    b.flush().map_err(|e| format!("flush: {}", e))?;
    drop(t);
    drop(b);
    Ok((text.take(), bin.take()))
}

fn c10_one(
    cx: &mut Cx,
    f: &[Clause],
    sat: bool,
    text: &[u8],
    bin: &[u8],
    monitor: &mut EventMonitor,
    what: &str,
) -> CaseResult {
    monitor.finish()?;
    let ts = lrat::parse_text(text).map_err(|e| format!("{}: text proof: {}", what, e))?;
    let bs = lrat::parse_binary(bin).map_err(|e| format!("{}: compressed proof: {}", what, e))?;
    let (nt, nb) = (lrat::normalized(&ts), lrat::normalized(&bs));
    if nt != nb {
        for i in 0..nt.len().max(nb.len()) {
            if nt.get(i) != nb.get(i) {
                return Err(format!(
                    "{}: step {} differs: text {:?}, compressed {:?}",
                    what,
                    i,
                    nt.get(i),
                    nb.get(i)
                ));
            }
        }
    }
    let st = lrat::check(f, &ts).map_err(|e| format!("{}: {}", what, e))?;
    lrat::check(f, &bs).map_err(|e| format!("{}: compressed: {}", what, e))?;
    cx.count("additions", st.adds);
    cx.count("deletions", st.deletes);
    cx.count("hints", st.hints);
    // what the proof leaves undeleted is what the checker still holds
    let mut live = st.live.clone();
    for (id, lits, _) in monitor.live_clauses() {
        match live.remove(&(id + 1)) {
            None => return Err(format!("{}: the proof deletes clause {} {:?} which is still in use", what, id + 1, lits)),
            Some(c) if rup::canon(&c) != rup::canon(&lits) => {
                return Err(format!("{}: clause {} is {:?} in the proof and {:?} in the checker", what, id + 1, c, lits))
            }
            Some(_) => cx.count("live_clauses", 1),
        }
    }
    // once the input is contradictory the checker ignores the rest of it
    live.retain(|&id, _| id > f.len() as u64 || monitor.last_input().map_or(false, |last| id <= last + 1));
    if let Some((id, c)) = live.iter().next() {
        return Err(format!("{}: clause {} {:?} was dropped but the proof does not delete it", what, id, c));
    }
    if st.empty == sat {
        return Err(format!(
            "{}: the formula is {} but the proof {} the empty clause",
            what,
            if sat { "satisfiable" } else { "unsatisfiable" },
            if st.empty { "derives" } else { "does not derive" }
        ));
    }
    if st.adds > 0 {
        cx.nontrivial(&dimacs(f));
    }
    Ok(())
}

fn c10(cx: &mut Cx) -> CaseResult {
    let (f, hard) = formula(cx, 40);
    let cfg = config(cx);
    describe(cx, &f, &cfg);
    if hard {
        cx.count("hard_proofs", 1);
    }
    let mut monitor = EventMonitor::new();
    let (sat, text) = lrat_on_the_fly(&f.clauses, &cfg, false, &mut monitor)?;
    let (sat2, bin) = lrat_on_the_fly(&f.clauses, &cfg, true, &mut EventMonitor::new())?;
    if sat != sat2 {
        return Err("text and compressed run disagree on the verdict".into());
    }
    cx.count(if sat { "sat" } else { "unsat" }, 1);
    c10_one(cx, &f.clauses, sat, &text, &bin, &mut monitor, "on the fly")?;
    if cx.rng.coin() {
        let (sat3, native, _) = solve_with_proof(&f.clauses, &cfg, ProofFormat::Varisat, None)?;
        if sat3 != sat {
            return Err("native run disagrees on the verdict".into());
        }
        let mut monitor = EventMonitor::new();
        let (text, bin) = lrat_converted(&f.clauses, &native, &mut monitor)?;
        cx.count("converted", 1);
        c10_one(cx, &f.clauses, sat, &text, &bin, &mut monitor, "converted")?;
    }
    Ok(())
}

/// What a new checker shows for a native proof: the steps, the transcript and the converted proofs.
fn checker_view(initial: &[Clause], proof: &[u8], chop: Option<u64>, lrat: bool) -> Result<String, String> {
    let (text, bin) = (Sink::default(), Sink::default());
    let mut t = WriteLrat::new(text.clone(), false);
    let mut b = match chop {
        Some(seed) => WriteLrat::new(ChoppyWriter::new(bin.clone(), seed), true),
        None => WriteLrat::new(ChoppyWriter::new(bin.clone(), 1), true),
    };
    let mut rec = Recorder::default();
    let mut log = StepLog::default();
    {
        let mut checker = Checker::new();
        checker.add_transcript(&mut rec);
        checker.add_processor(&mut log);
        if lrat {
            checker.add_processor(&mut t);
            checker.add_processor(&mut b);
        }
        checker.add_formula(&to_formula(initial)).map_err(|e| format!("checker rejected the formula: {}", e))?;
        let r = match chop {
            Some(seed) => {
                let max = [1usize, 3, 40, 5000][(seed % 4) as usize];
                checker.check_proof(Choppy { data: proof, pos: 0, rng: Rng::new(seed), max, interrupts: false })
            }
            None => checker.check_proof(proof),
        };
        r.map_err(|e| format!("checker rejected the proof: {}", e))?;
    }
    t.flush().map_err(|e| format!("flush: {}", e))?;
    b.flush().map_err(|e| format!("flush: {}", e))?;
    drop(t);
    drop(b);
    Ok(format!(
        " checked steps {} {:x} transcript {:x} lrat {:x} {:x}",
        log.steps,
        log.hash,
        crate::rng::hash_bytes(format!("{:?}", rec.steps).as_bytes()),
        crate::rng::hash_bytes(&text.take()),
        crate::rng::hash_bytes(&bin.take())
    ))
}

/// Hashes every checked step with all its fields.
#[derive(Default)]
struct StepLog {
    steps: u64,
    hash: u64,
}

impl varisat_checker::ProofProcessor for StepLog {
    fn process_step(
        &mut self,
        step: &varisat_checker::CheckedProofStep,
        _data: varisat_checker::CheckerData,
    ) -> Result<(), anyhow::Error> {
        self.steps += 1;
        self.hash = crate::rng::hash_bytes(format!("{:x} {:?}", self.hash, step).as_bytes());
        Ok(())
    }
}

/// Everything observable of one run, as text.
fn fingerprint(seed: u64, tier: Tier, chop: Option<u64>) -> Result<(String, u64), String> {
    let mut rng = Rng::new(seed);
    let cfg = if rng.coin() { gen::config(&mut rng) } else { gen::aggressive(&mut rng) };
    if rng.chance(1, 4) {
        let hard = rng.chance(1, 6);
        let f = if hard {
            gen::hard(&mut rng, if tier == Tier::Thorough { 1 } else { 0 })
        } else {
            gen::small(&mut rng)
        };
        let format = *rng.pick(&[ProofFormat::Drat, ProofFormat::BinaryDrat, ProofFormat::Varisat]);
        let (sat, proof, model) = solve_with_proof(&f.clauses, &cfg, format, chop)?;
        let mut seen = String::new();
        if format == ProofFormat::Varisat {
            seen = checker_view(&f.clauses, &proof, chop, true)?;
        } else {
            for binary in [false, true] {
                let (sat, lrat) = lrat_on_the_fly(&f.clauses, &cfg, binary, &mut EventMonitor::new())?;
                seen += &format!(" lrat {} {} {:x}", sat, lrat.len(), crate::rng::hash_bytes(&lrat));
            }
        }
        return Ok((
            format!(
                "{:?} {} {:?} proof {} {:x}{}",
                format,
                sat,
                model,
                proof.len(),
                crate::rng::hash_bytes(&proof),
                seen
            ),
            proof.len() as u64,
        ));
    }
    let vars = rng.chance(2, 3);
    let shape = history::gen_shape(&mut rng, vars);
    let ops = history::gen_ops(&mut rng, &shape);
    let native = rng.chance(3, 4);
    let mode = Mode { native, native_rules: native, self_check: rng.chance(1, 6), cfg, chop, ..Mode::default() };
    let out = history::run(&ops, &mode)?;
    let seen = if native { checker_view(&out.initial, &out.proof, chop, false)? } else { String::new() };
    Ok((
        format!("{:?} proof {} {:x}{}", out.obs, out.proof.len(), crate::rng::hash_bytes(&out.proof), seen),
        out.proof.len() as u64,
    ))
}

fn c20(cx: &mut Cx) -> CaseResult {
    let seed = cx.rng.next();
    let tier = cx.tier;
    let (first, bytes) = fingerprint(seed, tier, None)?;
    cx.count("proof_bytes", bytes);
    if first.contains(" checked steps ") {
        cx.count("checked_again", 1);
    }
    cx.sample = Some(format!("seed {} {}", seed, first.chars().take(300).collect::<String>()));
    let chop = cx.rng.next();
    // disturb the allocator and the hash seeds of the standard library between the runs
    let mut junk: Vec<Vec<u8>> = vec![];
    for _ in 0..cx.rng.below(40) {
        junk.push(vec![0; cx.rng.range(1, 5000)]);
    }
    let (second, _) = fingerprint(seed, tier, Some(chop))?;
    cx.count("same_thread", 1);
    if first != second {
        return Err(format!("two runs differ:\n{}\n{}", cut(&first), cut(&second)));
    }
    drop(junk);
    if cx.rng.chance(1, 4) {
        let third = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || fingerprint(seed, tier, None))
            .unwrap()
            .join()
            .map_err(|_| "panic in the other thread".to_string())??
            .0;
        cx.count("other_thread", 1);
        if first != third {
            return Err(format!("run in another thread differs:\n{}\n{}", cut(&first), cut(&third)));
        }
    }
    if cx.rng.chance(1, 40) {
        let t = if tier == Tier::Thorough { "thorough" } else { "quick" };
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["aux", "fingerprint", &seed.to_string(), t])
            .env("VH_JUNK", "x".repeat(cx.rng.below(3000)))
            .stdin(std::process::Stdio::null())
            .output()
            .map_err(|e| format!("harness: {}", e))?;
        let third = String::from_utf8_lossy(&out.stdout).to_string();
        cx.count("other_process", 1);
        if first != third {
            return Err(format!("run in another process differs:\n{}\n{}", cut(&first), cut(&third)));
        }
    }
    if bytes > 0 {
        cx.nontrivial(&seed.to_le_bytes());
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(2000).collect()
}

pub fn aux_fingerprint(args: &[String]) {
    let seed = args[0].parse().unwrap();
    let tier = if args[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    match fingerprint(seed, tier, None) {
        Ok((s, _)) => print!("{}", s),
        Err(e) => print!("error {}", e),
    }
}

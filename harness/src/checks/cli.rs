//! C15: the command line program, run as a process.
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

use varisat::ProofFormat;
use varisat_checker::{Checker, ProofTranscriptProcessor, ProofTranscriptStep};

use super::text::{self, Verdict};
use crate::fw::{CaseResult, Check, Cx};
use crate::gen::{self, Cfg};
use crate::history::{self, Mode};
use crate::lrat;
use crate::oracle;
use crate::refsat::Clause;
use crate::rng::Rng;
use crate::rup;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C15",
        level: "exploration",
        rule: "the program is run on generated formulas, malformed documents, valid and invalid options, and in checker mode on genuine, cut, damaged and foreign proofs; output, exit code and written files are compared with the reference; counts when a process ran on an input with a clause; distinct by input and options",
        assumptions: &["the program runs as a child process on this machine"],
        quick_cases: 24000,
        required: &[
            "sat", "unsat", "malformed", "invalid_options", "missing_files", "proofs_drat", "proofs_binary-drat",
            "proofs_lrat", "proofs_clrat", "proofs_varisat", "verified", "not_verified", "cut_proofs", "converted_lrat",
            "converted_clrat", "stdin", "full_disk", "merged_options", "self_checked", "config_files", "transcript_lines",
        ],
        threads: 8,
        case: c15,
    }]
}

struct Dir(PathBuf);

impl Dir {
    fn new() -> Result<Dir, String> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
        let p = Path::new(&base).join(format!(
            "target/scratch/c15-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        fs::create_dir_all(&p).map_err(|e| format!("HARNESS scratch directory: {}", e))?;
        Ok(Dir(p))
    }
    fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
    fn put(&self, name: &str, data: &[u8]) -> Result<String, String> {
        let p = self.path(name);
        fs::write(&p, data).map_err(|e| format!("HARNESS {}: {}", p, e))?;
        Ok(p)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug)]
enum Input {
    Nothing,
    Pipe(Vec<u8>),
    File(String),
}

struct Run {
    code: i32,
    out: String,
    err: String,
}

fn run(args: &[String], input: Input, pieces: usize) -> Result<Run, String> {
    let cli = std::env::var("VH_CLI").map_err(|_| "HARNESS VH_CLI is not set".to_string())?;
    let mut cmd = Command::new("timeout");
    cmd.arg("-k").arg("5").arg("120").arg(cli).args(args);
    cmd.env_remove("VARISAT_LOG").env("RUST_BACKTRACE", "0");
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    match &input {
        Input::Nothing => cmd.stdin(Stdio::null()),
        Input::Pipe(_) => cmd.stdin(Stdio::piped()),
        Input::File(p) => cmd.stdin(fs::File::open(p).map_err(|e| format!("HARNESS {}", e))?),
    };
    let mut child = cmd.spawn().map_err(|e| format!("HARNESS cannot start the program: {}", e))?;
    let writer = match input {
        Input::Pipe(data) => {
            let mut stdin = child.stdin.take().unwrap();
            Some(std::thread::spawn(move || {
                for c in data.chunks(pieces.max(1)) {
                    if stdin.write_all(c).and_then(|()| stdin.flush()).is_err() {
                        break;
                    }
                }
            }))
        }
        _ => None,
    };
    let mut stderr = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = stderr.read_to_end(&mut v);
        v
    });
    let mut out = vec![];
    let _ = child.stdout.take().unwrap().read_to_end(&mut out);
    let err = reader.join().unwrap_or_default();
    if let Some(w) = writer {
        let _ = w.join();
    }
    let status = child.wait().map_err(|e| format!("HARNESS wait: {}", e))?;
    let code = match status.code() {
        Some(c) => c,
        None => return Err(format!("the program was ended by a signal ({})", status)),
    };
    let r = Run {
        code,
        out: String::from_utf8_lossy(&out).into_owned(),
        err: String::from_utf8_lossy(&err).into_owned(),
    };
    if code == 124 || code == 137 {
        return Err("the program did not finish".into());
    }
    if code == 101 || code >= 128 || r.err.contains("panicked at") {
        return Err(format!("the program crashed with code {}: {}", code, r.err));
    }
    Ok(r)
}

#[derive(Debug, PartialEq)]
enum Answer {
    Sat(Vec<i32>),
    Unsat,
    /// Anything else.
    Other { message: bool },
}

/// Reads the output of a solver run, checks its form and that the exit code agrees.
fn answer(r: &Run) -> Result<Answer, String> {
    let mut status: Option<&str> = None;
    let mut values: Option<Vec<i32>> = None;
    let mut ended = false;
    let mut stray = None;
    let mut message = !r.err.trim().is_empty();
    for line in r.out.lines() {
        if line == "c" || line.starts_with("c ") || line.is_empty() {
            if line.starts_with("c ERROR") || line.starts_with("c WARN") {
                message = true;
            }
        } else if let Some(s) = line.strip_prefix("s ") {
            if status.is_some() {
                return Err(format!("two status lines in {:?}", r.out));
            }
            status = Some(s);
        } else if let Some(v) = line.strip_prefix('v') {
            let list = values.get_or_insert_with(Vec::new);
            for t in v.split_whitespace() {
                if ended {
                    return Err(format!("values after the final 0 in {:?}", line));
                }
                let l: i32 = t.parse().map_err(|_| format!("malformed value line {:?}", line))?;
                if l == 0 {
                    ended = true;
                } else {
                    list.push(l);
                }
            }
        } else {
            stray = Some(line);
        }
    }
    if let (Some(line), true) = (stray, r.code == 10 || r.code == 20) {
        // error messages may quote a line end of the input
        return Err(format!("unexpected output line {:?}", line));
    }
    match status {
        Some("SATISFIABLE") => {
            if r.code != 10 {
                return Err(format!("exit code {} with a satisfiable status line", r.code));
            }
            if !ended {
                return Err(format!("no complete value line in {:?}", r.out));
            }
            Ok(Answer::Sat(values.unwrap()))
        }
        Some("UNSATISFIABLE") => {
            if r.code != 20 {
                return Err(format!("exit code {} with an unsatisfiable status line", r.code));
            }
            if values.is_some() {
                return Err("values for an unsatisfiable formula".into());
            }
            Ok(Answer::Unsat)
        }
        s => {
            if r.code == 10 || r.code == 20 {
                return Err(format!("exit code {} with the status {:?}", r.code, s));
            }
            Ok(Answer::Other { message })
        }
    }
}

fn judge(clauses: &[Clause], a: &Answer) -> Result<bool, String> {
    let sat = oracle::decide(clauses, &[])?;
    match a {
        Answer::Sat(m) => {
            check_assignment(m, clauses).map_err(|e| format!("value line: {}", e))?;
            if !sat {
                return Err("HARNESS reference disagrees with a checked model".into());
            }
        }
        Answer::Unsat => {
            if sat {
                return Err("a satisfiable formula was reported as unsatisfiable".into());
            }
        }
        Answer::Other { .. } => return Err("no verdict for a well formed formula".into()),
    }
    Ok(sat)
}

fn settings(c: &Cfg) -> Vec<String> {
    let mut v = vec![];
    if let Some(x) = c.vsids_decay {
        v.push(format!("vsids_decay={:?}", x));
    }
    if let Some(x) = c.clause_activity_decay {
        v.push(format!("clause_activity_decay = {:?}", x));
    }
    if let Some(x) = c.reduce_locals_interval {
        v.push(format!("reduce_locals_interval={}", x.min(i64::MAX as u64)));
    }
    if let Some(x) = c.reduce_mids_interval {
        v.push(format!("reduce_mids_interval= {}", x.min(i64::MAX as u64)));
    }
    if let Some(x) = c.luby_restart_interval_scale {
        v.push(format!("luby_restart_interval_scale={}", x.min(i64::MAX as u64)));
    }
    v
}

fn option(rng: &mut Rng, s: &str) -> Vec<String> {
    if rng.coin() {
        vec!["-C".into(), s.into()]
    } else {
        vec![format!("--config-option={}", s)]
    }
}

/// Options that spell out a configuration, in a file or one by one.
fn config_args(cx: &mut Cx, dir: &Dir, cfg: &Cfg) -> Result<Vec<String>, String> {
    let mut s = settings(cfg);
    cx.rng.shuffle(&mut s);
    let mut args = vec![];
    if cx.rng.chance(1, 3) {
        let k = cx.rng.below(s.len() + 1);
        let text: String = s[..k].iter().map(|x| format!("{}\n", x)).collect();
        let p = dir.put("config.toml", text.as_bytes())?;
        if cx.rng.coin() {
            args.push(format!("--config={}", p));
        } else {
            args.push("--config".into());
            args.push(p);
        }
        s.drain(..k);
        cx.count("config_files", 1);
    }
    for o in &s {
        args.extend(option(&mut cx.rng, o));
    }
    Ok(args)
}

fn formula(cx: &mut Cx) -> Vec<Clause> {
    let mut c = if cx.rng.chance(1, 12) { gen::hard(&mut cx.rng, 0).clauses } else { gen::small(&mut cx.rng).clauses };
    if cx.rng.chance(1, 10) {
        gen::spread(&mut cx.rng, &mut c);
    }
    c
}

const FORMATS: [&str; 5] = ["varisat", "drat", "binary-drat", "lrat", "clrat"];

fn odd_case(rng: &mut Rng, s: &str) -> String {
    match rng.below(3) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s.chars().map(|c| if rng.coin() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// Hands the document to the program by file or standard input.
fn feed(cx: &mut Cx, dir: &Dir, doc: &[u8], args: &mut Vec<String>) -> Result<(Input, usize), String> {
    let pieces = *cx.rng.pick(&[1usize, 3, 100, 1 << 16]);
    Ok(match cx.rng.below(4) {
        0 => {
            cx.count("stdin", 1);
            (Input::Pipe(doc.to_vec()), if doc.len() > 2000 { 1 << 16 } else { pieces })
        }
        1 => {
            cx.count("stdin", 1);
            (Input::File(dir.put("input", doc)?), 1)
        }
        k => {
            let p = dir.put("in put.cnf", doc)?;
            let at = if cx.rng.coin() || args.is_empty() { args.len() } else { 0 };
            args.insert(at, p);
            // what stands on standard input does not matter then
            (if k == 2 { Input::Nothing } else { Input::Pipe(b"p cnf 1 2\n1 0\n-1 0\n".to_vec()) }, 1 << 16)
        }
    })
}

fn c15(cx: &mut Cx) -> CaseResult {
    match cx.rng.below(12) {
        0..=4 => solve(cx),
        5..=6 => documents(cx),
        7 => invalid(cx),
        8 => merged(cx),
        9 => full_disk(cx),
        _ => check_mode(cx),
    }
}

fn check_proof_file(cx: &mut Cx, clauses: &[Clause], sat: bool, format: &str, data: &[u8]) -> CaseResult {
    match format {
        "varisat" => {
            let mut c = Checker::new();
            c.add_formula(&to_formula(clauses)).map_err(|e| e.to_string())?;
            c.check_proof(data).map_err(|e| format!("the checker rejects the proof: {}", e))?;
        }
        "drat" | "binary-drat" => {
            let steps = if format == "drat" { rup::parse_drat_text(data) } else { rup::parse_drat_binary(data) };
            let steps = steps.map_err(|e| format!("{} proof: {}", format, e))?;
            let (_, empty) = rup::check_drat(clauses, &steps).map_err(|e| format!("{} proof: {}", format, e))?;
            if empty == sat {
                return Err(format!("{} proof {} the formula", format, if sat { "refutes" } else { "does not refute" }));
            }
        }
        _ => {
            let steps = if format == "lrat" { lrat::parse_text(data) } else { lrat::parse_binary(data) };
            let steps = steps.map_err(|e| format!("{} proof: {}", format, e))?;
            let st = lrat::check(clauses, &steps).map_err(|e| format!("{} proof: {}", format, e))?;
            if st.empty == sat {
                return Err(format!("{} proof {} the formula", format, if sat { "refutes" } else { "does not refute" }));
            }
        }
    }
    cx.count(&format!("proofs_{}", format), 1);
    Ok(())
}

fn solve(cx: &mut Cx) -> CaseResult {
    let dir = Dir::new()?;
    let clauses = formula(cx);
    let cfg = gen::config(&mut cx.rng);
    let mut args = config_args(cx, &dir, &cfg)?;
    let mut format = "";
    let proof = dir.path("proof");
    if cx.rng.chance(3, 4) {
        format = *cx.rng.pick(&FORMATS);
        args.push(format!("--proof={}", proof));
        if format != "varisat" || cx.rng.coin() {
            let f = odd_case(&mut cx.rng, format);
            if cx.rng.coin() {
                args.push(format!("--proof-format={}", f));
            } else {
                args.insert(0, "--proof-format".into());
                args.insert(1, f);
            }
        }
        if cx.rng.chance(1, 4) {
            // what was there before is replaced
            dir.put("proof", &vec![b'x'; 40_000])?;
        }
    } else if cx.rng.chance(1, 4) {
        args.push("--proof-format=lrat".into());
    }
    if cx.rng.chance(1, 4) {
        args.push("--self-check".into());
        cx.count("self_checked", 1);
    }
    let doc = dimacs(&clauses);
    let (input, pieces) = feed(cx, &dir, &doc, &mut args)?;
    note(cx, &doc, &args);
    let r = run(&args, input, pieces)?;
    let sat = judge(&clauses, &answer(&r)?).map_err(|e| format!("{} ({})", e, r.out))?;
    cx.count(if sat { "sat" } else { "unsat" }, 1);
    if !format.is_empty() {
        let data = fs::read(&proof).map_err(|e| format!("no proof was written: {}", e))?;
        check_proof_file(cx, &clauses, sat, format, &data)?;
        if format == "varisat" && cx.rng.coin() {
            // the program's own checker agrees
            let r = checker(&dir, &doc, &proof, &[])?;
            if r != (true, sat) {
                return Err("the checker mode does not verify a proof the program wrote".into());
            }
            cx.count("verified", 1);
        }
    }
    Ok(())
}

fn note(cx: &mut Cx, doc: &[u8], args: &[String]) {
    let opts: Vec<&String> = args.iter().filter(|a| !a.contains("/scratch/")).collect();
    let mut key = doc.to_vec();
    key.extend_from_slice(format!("{:?}", opts).as_bytes());
    if doc.iter().any(|b| b.is_ascii_digit()) {
        cx.nontrivial(&key);
    }
    cx.sample = Some(format!("{:?} on {} bytes", opts, doc.len()));
    cx.detail = format!("{:?}\n{}", args, String::from_utf8_lossy(&doc[..doc.len().min(20_000)]));
}

/// Runs the checker mode, returns whether it verified and whether it reports a model.
fn checker(dir: &Dir, doc: &[u8], proof: &str, more: &[String]) -> Result<(bool, bool), String> {
    let p = dir.put("check.cnf", doc)?;
    let mut args: Vec<String> = vec!["--check".into(), p, format!("--proof={}", proof)];
    args.extend(more.iter().cloned());
    let r = run(&args, Input::Nothing, 1)?;
    check_answer(&r).map(|(v, _, s)| (v, s))
}

/// Verified, unsatisfiability reported, model reported.
fn check_answer(r: &Run) -> Result<(bool, bool, bool), String> {
    let mut status = None;
    let mut unsat = false;
    let mut sat = false;
    let mut stray = None;
    for line in r.out.lines() {
        if let Some(s) = line.strip_prefix("s ") {
            if status.is_some() {
                return Err(format!("two status lines in {:?}", r.out));
            }
            status = Some(s);
        } else if line == "t UNSAT" {
            unsat = true;
        } else if line == "t SAT" {
            sat = true;
        } else if !(line == "c" || line.starts_with("c ") || line.starts_with("t ") || line.is_empty()) {
            stray = Some(line);
        }
    }
    if let (Some(line), true) = (stray, r.code == 0) {
        return Err(format!("unexpected output line {:?}", line));
    }
    let verified = status == Some("VERIFIED");
    if verified != (r.code == 0) {
        return Err(format!("exit code {} with the status {:?}", r.code, status));
    }
    if !verified && r.err.trim().is_empty() && !r.out.contains("c ERROR") {
        return Err(format!("a proof was not verified without a message: {:?}", r.out));
    }
    Ok((verified, unsat, sat))
}

/// What the transcript on standard output has to say: results and counts of other steps in a row.
#[derive(Default)]
struct Summary(Vec<(&'static str, usize)>);

impl ProofTranscriptProcessor for Summary {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        let (name, n, sum) = match step {
            ProofTranscriptStep::WitnessVar { .. } => ("WITNESS", 1, true),
            ProofTranscriptStep::SampleVar { .. } => ("SAMPLE", 1, true),
            ProofTranscriptStep::HideVar { .. } => ("HIDE", 1, true),
            ProofTranscriptStep::ObserveInternalVar { .. } => ("OBSERVE", 1, true),
            ProofTranscriptStep::AddClause { .. } => ("ADD", 1, true),
            ProofTranscriptStep::Unsat => ("UNSAT", 0, false),
            ProofTranscriptStep::Model { .. } => ("SAT", 0, false),
            ProofTranscriptStep::Assume { assumptions } => ("ASSUME", assumptions.len(), false),
            ProofTranscriptStep::FailedAssumptions { failed_core } => ("UNSAT", failed_core.len(), false),
        };
        match self.0.last_mut() {
            Some(last) if sum && last.0 == name => last.1 += 1,
            _ => self.0.push((name, n)),
        }
        Ok(())
    }
}

fn compare_summary(want: &[(&'static str, usize)], out: &str) -> Result<(), String> {
    let mut got: Vec<(&str, usize)> = vec![];
    for line in out.lines().filter_map(|l| l.strip_prefix("t ")) {
        let mut words = line.split_whitespace();
        let name = words.next().unwrap_or("");
        let n = words.find_map(|w| w.parse().ok()).unwrap_or(0);
        got.push((name, n));
    }
    let mut want = want.to_vec();
    // steps after the last result need not be summarized
    while want.len() > got.len() && want.last().map_or(false, |w| ["WITNESS", "SAMPLE", "HIDE", "OBSERVE", "ADD"].contains(&w.0)) {
        want.pop();
    }
    if got != want {
        return Err(format!("transcript {:?}, the proof contains {:?}", got, want));
    }
    Ok(())
}

fn small_numbers(doc: &[u8]) -> bool {
    doc.split(|b| !b.is_ascii_digit()).all(|t| {
        let v = String::from_utf8_lossy(t).trim_start_matches('0').to_string();
        v.len() <= 5 || v.len() > 9 || v.parse::<u64>().map(|x| x > 1 << 28).unwrap_or(true)
    })
}

/// Documents in random layout and malformed ones.
fn documents(cx: &mut Cx) -> CaseResult {
    let dir = Dir::new()?;
    let mut doc = text::document(&mut cx.rng);
    if cx.rng.chance(2, 3) {
        text::mutate(&mut cx.rng, &mut doc);
    }
    if !small_numbers(&doc) {
        return Ok(());
    }
    let mut args = vec![];
    let proof = dir.path("proof");
    let with_proof = cx.rng.chance(1, 4);
    if with_proof {
        args.push(format!("--proof={}", proof));
    }
    let (input, pieces) = feed(cx, &dir, &doc, &mut args)?;
    note(cx, &doc, &args);
    let want = text::read(&doc);
    let r = run(&args, input, pieces)?;
    let a = answer(&r)?;
    match want {
        Verdict::Error(why) => {
            if !matches!(a, Answer::Other { message: true }) || r.code == 0 {
                return Err(format!("malformed input ({}) gave {:?} with code {}", why, a, r.code));
            }
            cx.count("malformed", 1);
        }
        Verdict::Lenient(d) => {
            if !matches!(a, Answer::Other { message: true }) {
                judge(&d.clauses, &a)?;
            }
        }
        Verdict::Strict(d) => {
            let sat = judge(&d.clauses, &a)?;
            cx.count(if sat { "sat" } else { "unsat" }, 1);
            if with_proof {
                let data = fs::read(&proof).map_err(|e| format!("no proof was written: {}", e))?;
                check_proof_file(cx, &d.clauses, sat, "varisat", &data)?;
            }
        }
    }
    Ok(())
}

/// Options and files that cannot be used.
fn invalid(cx: &mut Cx) -> CaseResult {
    let dir = Dir::new()?;
    let clauses = formula(cx);
    let doc = dimacs(&clauses);
    let p = dir.put("a.cnf", &doc)?;
    let check = cx.rng.chance(1, 3);
    let mut args: Vec<String> = vec![];
    let mut input = Input::Nothing;
    if check {
        let (_, proof, _) = super::proofs::solve_with_proof(&clauses, &Cfg::default(), ProofFormat::Varisat, None)?;
        let proof = dir.put("proof", &proof)?;
        args.push("--check".into());
        let mut file = vec![p.clone()];
        let mut proof = vec![format!("--proof={}", proof)];
        match cx.rng.below(6) {
            0 => file = vec![dir.path("missing")],
            1 => file = vec![dir.path("")],
            2 => proof = vec![format!("--proof={}", dir.path("missing"))],
            3 => proof = vec![format!("--proof={}", dir.path(""))],
            4 => proof = vec![],
            _ => proof.push(format!("--write-{}={}", if cx.rng.coin() { "lrat" } else { "clrat" }, dir.path("no/such"))),
        }
        cx.count("missing_files", 1);
        args.extend(file);
        args.extend(proof);
    } else {
        match cx.rng.below(16) {
            0 => {
                args.push(dir.path("missing"));
                cx.count("missing_files", 1);
            }
            1 => {
                args.push(dir.path(""));
                cx.count("missing_files", 1);
            }
            2 => {
                args.push(p.clone());
                args.push(format!("--proof={}", dir.path("no/such/file")));
                args.push(format!("--proof-format={}", cx.rng.pick(&FORMATS)));
                cx.count("missing_files", 1);
            }
            3 => {
                args.push(p.clone());
                args.push(format!("--config={}", dir.path("missing.toml")));
                cx.count("missing_files", 1);
            }
            4 => {
                args.push(p.clone());
                let text: &[u8] = *cx.rng.pick(&[
                    &b"vsids_decay"[..],
                    b"vsids_decay = 2.0",
                    b"nothing = 1",
                    b"\xff\xfe",
                    b"[x]\ny = 1",
                    b"reduce_mids_interval = 0",
                    b"reduce_mids_interval = 5\nreduce_mids_interval = 5",
                    b"clause_activity_decay = nan",
                    b"luby_restart_interval_scale = \"1\"",
                ]);
                args.push(format!("--config={}", dir.put("c.toml", text)?));
                // a valid option does not make up for it
                if cx.rng.coin() {
                    args.push("-C".into());
                    args.push("vsids_decay=0.9".into());
                    if text.starts_with(b"vsids_decay = 2") {
                        args.pop();
                        args.push("clause_activity_decay=0.9".into());
                    }
                }
            }
            5..=9 => {
                args.push(p.clone());
                let o = *cx.rng.pick(&[
                    "vsids_decay=1.0",
                    "vsids_decay=0.4999",
                    "vsids_decay=-0.75",
                    "clause_activity_decay=1.5",
                    "clause_activity_decay=0.0",
                    "reduce_locals_interval=0",
                    "reduce_mids_interval=0",
                    "luby_restart_interval_scale=0",
                    "luby_restart_interval_scale=-1",
                    "reduce_locals_interval=1.5",
                    "vsids_decay=\"0.75\"",
                    "vsids_decay",
                    "=1",
                    "unknown=1",
                    "vsids-decay=0.75",
                    "reduce_locals_interval=18446744073709551616",
                    "vsids_decay=nan",
                    "vsids_decay=inf",
                ]);
                args.push("-C".into());
                args.push(o.into());
                if cx.rng.coin() {
                    args.push("-C".into());
                    args.push(if o.contains("mids") { "reduce_locals_interval=7" } else { "reduce_mids_interval=7" }.into());
                }
            }
            10 => {
                args.push(p.clone());
                args.push(format!("--proof={}", dir.path("proof")));
                args.push(format!("--proof-format={}", cx.rng.pick(&["dratt", "lrat2", "", "text", "binary"])));
            }
            11 => {
                args.push(p.clone());
                args.push((*cx.rng.pick(&["--bogus", "-x", "--selfcheck", "--Proof=x"])).into());
            }
            12 => {
                args.push(p.clone());
                args.push(p.clone());
            }
            13 => {
                args.push(p.clone());
                args.push((*cx.rng.pick(&["-C", "--proof", "--config"])).into());
            }
            _ => {
                // input that ends in the middle of a clause
                let mut d = doc.clone();
                d.extend_from_slice(b"1 -2");
                input = Input::Pipe(d);
                if cx.rng.coin() {
                    args.push(format!("--proof={}", dir.path("proof")));
                    args.push(format!("--proof-format={}", cx.rng.pick(&FORMATS)));
                }
            }
        }
        if cx.rng.coin() && !args.is_empty() {
            args.rotate_left(1);
            // an option without its value has to stay last
            if let Some(i) = args.iter().position(|a| a == "-C" || a == "--proof" || a == "--config" || a == "--proof-format") {
                if i + 1 == args.len() || args.get(i + 1) == Some(&p) {
                    args.rotate_right(1);
                }
            }
        }
    }
    note(cx, &doc, &args);
    let r = run(&args, input, 1 << 16)?;
    if check {
        let (verified, _, _) = check_answer(&r)?;
        if verified {
            return Err("verified although the options cannot be used".into());
        }
    } else {
        let a = answer(&r)?;
        if !matches!(a, Answer::Other { message: true }) || r.code == 0 {
            return Err(format!("options that cannot be used gave {:?} with code {}: {:?}", a, r.code, r.out));
        }
    }
    cx.count("invalid_options", 1);
    Ok(())
}

/// Later options win over earlier ones and over the file.
fn merged(cx: &mut Cx) -> CaseResult {
    let dir = Dir::new()?;
    let clauses = if cx.rng.coin() {
        let n = cx.rng.range(50, 90);
        gen::ksat(&mut cx.rng, n, n * 9 / 2, 3)
    } else {
        formula(cx)
    };
    let doc = dimacs(&clauses);
    let p = dir.put("a.cnf", &doc)?;
    let mut want = Cfg::default();
    let mut args = vec![];
    let parts: Vec<Cfg> = (0..cx.rng.range(2, 3)).map(|_| gen::aggressive(&mut cx.rng)).collect();
    for (i, part) in parts.iter().enumerate() {
        let mut part = part.clone();
        for k in 0..5 {
            if cx.rng.coin() {
                match k {
                    0 => part.vsids_decay = None,
                    1 => part.clause_activity_decay = None,
                    2 => part.reduce_locals_interval = None,
                    3 => part.reduce_mids_interval = None,
                    _ => part.luby_restart_interval_scale = None,
                }
            }
        }
        want.vsids_decay = part.vsids_decay.or(want.vsids_decay);
        want.clause_activity_decay = part.clause_activity_decay.or(want.clause_activity_decay);
        want.reduce_locals_interval = part.reduce_locals_interval.or(want.reduce_locals_interval);
        want.reduce_mids_interval = part.reduce_mids_interval.or(want.reduce_mids_interval);
        want.luby_restart_interval_scale = part.luby_restart_interval_scale.or(want.luby_restart_interval_scale);
        let s = settings(&part);
        if i == 0 {
            let text: String = s.iter().map(|x| format!("{}\n", x)).collect();
            let f = format!("--config={}", dir.put("c.toml", text.as_bytes())?);
            args.push(f);
        } else {
            for o in s {
                args.extend(option(&mut cx.rng, &o));
            }
        }
    }
    if cx.rng.coin() {
        // the position of the file among the options does not matter
        let f = args.remove(0);
        args.push(f);
    }
    let mut other: Vec<String> = settings(&want).into_iter().flat_map(|o| vec!["-C".to_string(), o]).collect();
    let mut results = vec![];
    for (i, a) in [&mut args, &mut other].into_iter().enumerate() {
        let proof = dir.path(&format!("proof{}", i));
        a.push(p.clone());
        a.push(format!("--proof={}", proof));
        let r = run(a, Input::Nothing, 1)?;
        judge(&clauses, &answer(&r)?)?;
        results.push((r.code, r.out.lines().filter(|l| !l.starts_with('c')).collect::<Vec<_>>().join("\n"), fs::read(proof).unwrap_or_default()));
    }
    note(cx, &doc, &args);
    if results[0] != results[1] {
        return Err(format!("options {:?} and {:?} give different runs", args, other));
    }
    cx.count("merged_options", 1);
    Ok(())
}

/// The proof cannot be written completely.
fn full_disk(cx: &mut Cx) -> CaseResult {
    let dir = Dir::new()?;
    let clauses = formula(cx);
    let doc = dimacs(&clauses);
    let p = dir.put("a.cnf", &doc)?;
    if cx.rng.coin() {
        let format = *cx.rng.pick(&FORMATS);
        let base = vec![p, format!("--proof-format={}", format)];
        let mut args = base.clone();
        let proof = dir.path("proof");
        args.push(format!("--proof={}", proof));
        note(cx, &doc, &args);
        let r = run(&args, Input::Nothing, 1)?;
        judge(&clauses, &answer(&r)?)?;
        let size = fs::metadata(&proof).map(|m| m.len()).unwrap_or(0);
        let mut args = base;
        args.push("--proof=/dev/full".into());
        let r = run(&args, Input::Nothing, 1)?;
        let a = answer(&r)?;
        if size > 0 {
            if !matches!(a, Answer::Other { message: true }) {
                return Err(format!("a {} proof that could not be written is followed by the answer {:?}", format, a));
            }
            cx.count("full_disk", 1);
        }
    } else {
        let (sat, proof, _) = super::proofs::solve_with_proof(&clauses, &Cfg::default(), ProofFormat::Varisat, None)?;
        let proof = dir.put("proof", &proof)?;
        let kind = if cx.rng.coin() { "lrat" } else { "clrat" };
        let out = dir.path("out");
        let r = checker(&dir, &doc, &proof, &[format!("--write-{}={}", kind, out)])?;
        if !r.0 {
            return Err("a genuine proof was not verified".into());
        }
        let data = fs::read(&out).unwrap_or_default();
        check_proof_file(cx, &clauses, sat, kind, &data)?;
        note(cx, &doc, &["--check".into(), format!("--write-{}", kind)]);
        let r = checker(&dir, &doc, &proof, &[format!("--write-{}=/dev/full", kind)])?;
        if !data.is_empty() {
            if r.0 {
                return Err(format!("verified although the {} proof could not be written", kind));
            }
            cx.count("full_disk", 1);
        }
    }
    Ok(())
}

/// Checker mode on genuine and other proofs.
fn check_mode(cx: &mut Cx) -> CaseResult {
    let dir = Dir::new()?;
    let single = cx.rng.chance(2, 3);
    let (clauses, genuine) = if single {
        let c = formula(cx);
        let cfg = gen::config(&mut cx.rng);
        let (_, p, _) = super::proofs::solve_with_proof(&c, &cfg, ProofFormat::Varisat, None)?;
        (c, p)
    } else {
        let shape = history::gen_shape(&mut cx.rng, true);
        let ops = history::gen_ops(&mut cx.rng, &shape);
        let mode = Mode { native: true, cfg: gen::config(&mut cx.rng), ..Mode::default() };
        let out = history::run(&ops, &mode)?;
        (out.initial, out.proof)
    };
    let mut proof = genuine.clone();
    let mut given = clauses.clone();
    let kind = cx.rng.below(6);
    match kind {
        0 | 1 => (),
        2 => {
            let k = cx.rng.below(proof.len().max(1));
            proof.truncate(k);
            cx.count("cut_proofs", 1);
        }
        3 => {
            for _ in 0..cx.rng.range(1, 3) {
                if !proof.is_empty() {
                    let i = cx.rng.below(proof.len());
                    proof[i] ^= 1 << cx.rng.below(8);
                }
            }
        }
        4 => {
            // another formula
            if !given.is_empty() {
                let i = cx.rng.below(given.len());
                if cx.rng.coin() || given[i].is_empty() {
                    given.remove(i);
                } else {
                    let j = cx.rng.below(given[i].len());
                    given[i][j] = -given[i][j];
                }
            }
        }
        _ => given = formula(cx),
    }
    let doc = dimacs(&given);
    // the library on the same input
    let transcript;
    let lib = {
        let mut steps = Summary::default();
        let mut c = Checker::new();
        c.add_transcript(&mut steps);
        c.add_formula(&to_formula(&given)).map_err(|e| e.to_string())?;
        let lib = c.check_proof(&proof[..]).is_ok();
        drop(c);
        transcript = steps.0;
        lib
    };
    if kind == 2 && proof.len() < genuine.len() && lib {
        return Err("the checker accepts a proof that was cut off".into());
    }
    let proof_path = dir.put("proof.bin", &proof)?;
    let mut args: Vec<String> = vec!["--check".into(), format!("--proof={}", proof_path)];
    let (lrat, clrat) = (dir.path("l"), dir.path("cl"));
    // conversions only make sense for proofs about the given formula
    let convert = single && cx.rng.chance(2, 3);
    let both = cx.rng.below(3);
    if convert && both != 1 {
        args.push(format!("--write-lrat={}", lrat));
    }
    if convert && both != 0 {
        args.push(format!("--write-clrat={}", clrat));
    }
    let input = match cx.rng.below(3) {
        0 => Input::Pipe(doc.clone()),
        1 => Input::File(dir.put("in", &doc)?),
        _ => {
            args.push(dir.put("a.cnf", &doc)?);
            Input::Nothing
        }
    };
    note(cx, &doc, &args);
    let r = run(&args, input, 1 << 16)?;
    let (verified, unsat, sat) = check_answer(&r)?;
    if verified != lib {
        return Err(format!("checker mode {} a proof that the library {}", if verified { "verifies" } else { "rejects" }, if lib { "accepts" } else { "rejects" }));
    }
    if verified {
        cx.count("verified", 1);
        compare_summary(&transcript, &r.out)?;
        cx.count("transcript_lines", transcript.len() as u64);
        if single {
            let truth = oracle::decide(&given, &[])?;
            if (unsat && truth) || (sat && !truth) {
                return Err(format!("a verified transcript is wrong: {:?}", r.out));
            }
            if kind < 2 && !(unsat || sat) && !given.iter().any(|c| c.is_empty()) {
                return Err(format!("a verified proof does not report a result: {:?}", r.out));
            }
            if convert {
                if both != 1 {
                    let d = fs::read(&lrat).map_err(|e| format!("no LRAT proof: {}", e))?;
                    if unsat || truth {
                        check_proof_file(cx, &given, truth, "lrat", &d)?;
                        cx.count("converted_lrat", 1);
                    }
                }
                if both != 0 {
                    let d = fs::read(&clrat).map_err(|e| format!("no compressed LRAT proof: {}", e))?;
                    if unsat || truth {
                        check_proof_file(cx, &given, truth, "clrat", &d)?;
                        cx.count("converted_clrat", 1);
                    }
                }
            }
        }
    } else {
        cx.count("not_verified", 1);
        if kind < 2 {
            return Err(format!("a genuine proof was not verified: {:?}", r.out));
        }
    }
    Ok(())
}

//! C19: configuration updates.
use varisat::config::{SolverConfig, SolverConfigUpdate};
use varisat::{ExtendFormula, ProofFormat, Solver};

use crate::fw::{CaseResult, Check, Cx};
use crate::gen::{self, Cfg};
use crate::history::{self, Mode, Op};
use crate::rng::Rng;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        level: "exploration",
        rule: "random updates (values in, at and beyond the documented bounds) are applied, merged and written as text and compared with a reference of the documented options; histories run with rejected, empty, repeated and split updates inserted and have to produce the same results and proof bytes; counts when an option was set; distinct by update or history",
        assumptions: &["the documented ranges and defaults are those in the doc comments of SolverConfig"],
        quick_cases: 600000,
        required: &[
            "accepted", "rejected", "merged", "parsed_text", "rejected_text", "round_trips", "inert_updates",
            "rejected_midway", "split_updates", "solves", "changed_midway", "effects", "default_runs",
        ],
        threads: 8,
        case: c19,
    }]
}

const NAMES: [&str; 5] = [
    "vsids_decay",
    "clause_activity_decay",
    "reduce_locals_interval",
    "reduce_mids_interval",
    "luby_restart_interval_scale",
];

fn snapshot(c: &SolverConfig) -> [u64; 5] {
    [
        c.vsids_decay.to_bits() as u64,
        c.clause_activity_decay.to_bits() as u64,
        c.reduce_locals_interval,
        c.reduce_mids_interval,
        c.luby_restart_interval_scale,
    ]
}

fn fields(c: &Cfg) -> [Option<u64>; 5] {
    [
        c.vsids_decay.map(|x| x.to_bits() as u64),
        c.clause_activity_decay.map(|x| x.to_bits() as u64),
        c.reduce_locals_interval,
        c.reduce_mids_interval,
        c.luby_restart_interval_scale,
    ]
}

fn of_update(u: &SolverConfigUpdate) -> Cfg {
    Cfg {
        vsids_decay: u.vsids_decay,
        clause_activity_decay: u.clause_activity_decay,
        reduce_locals_interval: u.reduce_locals_interval,
        reduce_mids_interval: u.reduce_mids_interval,
        luby_restart_interval_scale: u.luby_restart_interval_scale,
    }
}

/// Documented ranges: decays in 0.5..1.0, intervals 1.. .
fn invalid(c: &Cfg) -> Vec<&'static str> {
    let mut v = vec![];
    for (i, x) in [c.vsids_decay, c.clause_activity_decay].iter().enumerate() {
        if let Some(x) = x {
            if !(*x >= 0.5 && *x < 1.0) {
                v.push(NAMES[i]);
            }
        }
    }
    for (i, x) in [c.reduce_locals_interval, c.reduce_mids_interval, c.luby_restart_interval_scale].iter().enumerate() {
        if *x == Some(0) {
            v.push(NAMES[i + 2]);
        }
    }
    v
}

fn any_float(rng: &mut Rng) -> f32 {
    match rng.below(8) {
        0 => *rng.pick(&[0.5f32, 0.99999994, 0.50000006]),
        1 => *rng.pick(&[0.49999997f32, 1.0, 1.0000001, 0.0, -0.0, -0.75, 2.0]),
        2 => *rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, -f32::NAN]),
        3 => f32::from_bits(rng.next() as u32),
        _ => (0.5 + 0.5 * rng.f64()) as f32,
    }
}

fn any_int(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => 0,
        1 => *rng.pick(&[1u64, 2, u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63, 1 << 32]),
        2 => rng.next(),
        _ => rng.range(1, 20000) as u64,
    }
}

/// Updates in and out of range.
fn any_update(rng: &mut Rng) -> Cfg {
    let p = rng.range(1, 4);
    let mut c = Cfg::default();
    if rng.chance(p, 4) {
        c.vsids_decay = Some(any_float(rng));
    }
    if rng.chance(p, 4) {
        c.clause_activity_decay = Some(any_float(rng));
    }
    if rng.chance(p, 4) {
        c.reduce_locals_interval = Some(any_int(rng));
    }
    if rng.chance(p, 4) {
        c.reduce_mids_interval = Some(any_int(rng));
    }
    if rng.chance(p, 4) {
        c.luby_restart_interval_scale = Some(any_int(rng));
    }
    c
}

fn c19(cx: &mut Cx) -> CaseResult {
    if cx.idx % 100_000 < 5 {
        return effect(cx, (cx.idx % 100_000) as usize);
    }
    if cx.idx % 100_000 < 8 {
        return untouched(cx);
    }
    match cx.rng.below(8) {
        0..=2 => apply(cx),
        3..=4 => text(cx),
        _ => running(cx),
    }
}

/// Checks one application against the documented behaviour.
fn expect_apply(cx: &mut Cx, u: &SolverConfigUpdate, cfg: &Cfg, config: &mut SolverConfig) -> CaseResult {
    let before = snapshot(config);
    let bad = invalid(cfg);
    let r = u.apply(config);
    let after = snapshot(config);
    match r {
        Ok(()) => {
            if !bad.is_empty() {
                return Err(format!("update {:?} was accepted although {:?} is out of range", cfg, bad));
            }
            for (i, f) in fields(cfg).iter().enumerate() {
                let want = f.unwrap_or(before[i]);
                if after[i] != want {
                    return Err(format!("after update {:?} {} is {:x} instead of {:x}", cfg, NAMES[i], after[i], want));
                }
            }
            cx.count("accepted", 1);
        }
        Err(e) => {
            if bad.is_empty() {
                return Err(format!("update {:?} was rejected: {}", cfg, e));
            }
            if after != before {
                return Err(format!("rejected update {:?} changed the configuration", cfg));
            }
            let msg = e.to_string();
            if !bad.iter().any(|b| msg.contains(b)) {
                return Err(format!("rejection of {:?} does not name {:?}: {}", cfg, bad, msg));
            }
            // names of options that are fine would be misleading
            if let Some(n) = NAMES.iter().find(|n| msg.contains(**n) && !bad.contains(n)) {
                return Err(format!("rejection of {:?} blames {}: {}", cfg, n, msg));
            }
            cx.count("rejected", 1);
        }
    }
    Ok(())
}

fn apply(cx: &mut Cx) -> CaseResult {
    let mut config = SolverConfig::default();
    if cx.idx < 64 {
        defaults(&config)?;
    }
    let mut detail = String::new();
    for _ in 0..cx.rng.range(1, 5) {
        let cfg = any_update(&mut cx.rng);
        detail.push_str(&format!("{:?}\n", cfg));
        expect_apply(cx, &cfg.update(), &cfg, &mut config)?;
        // a solver judges the same way
        let mut solver = Solver::new();
        let ok = solver.config(&cfg.update()).is_ok();
        if ok != invalid(&cfg).is_empty() {
            return Err(format!("Solver::config {} update {:?}", if ok { "accepted" } else { "rejected" }, cfg));
        }
    }
    // merging
    let parts: Vec<Cfg> = (0..cx.rng.range(2, 4)).map(|_| any_update(&mut cx.rng)).collect();
    let mut merged = SolverConfigUpdate::new();
    let mut want = Cfg::default();
    for p in &parts {
        detail.push_str(&format!("merge {:?}\n", p));
        merged.merge(p.update());
        want.vsids_decay = p.vsids_decay.or(want.vsids_decay);
        want.clause_activity_decay = p.clause_activity_decay.or(want.clause_activity_decay);
        want.reduce_locals_interval = p.reduce_locals_interval.or(want.reduce_locals_interval);
        want.reduce_mids_interval = p.reduce_mids_interval.or(want.reduce_mids_interval);
        want.luby_restart_interval_scale = p.luby_restart_interval_scale.or(want.luby_restart_interval_scale);
    }
    let got = of_update(&merged);
    if fields(&got) != fields(&want) {
        return Err(format!("merging {:?} gave {:?}", parts, got));
    }
    cx.count("merged", 1);
    expect_apply(cx, &merged, &want, &mut config)?;
    cx.nontrivial(detail.as_bytes());
    cx.sample = Some(detail.clone());
    cx.detail = detail;
    Ok(())
}

/// Defaults and ranges as documented.
fn defaults(config: &SolverConfig) -> CaseResult {
    let want = [0.95f32.to_bits() as u64, 0.999f32.to_bits() as u64, 15000, 10000, 128];
    if snapshot(config) != want {
        return Err(format!("default configuration is {:?} instead of {:?}", snapshot(config), want));
    }
    let help = SolverConfig::help();
    for n in &NAMES {
        if !help.lines().any(|l| l == format!("{}:", n)) {
            return Err(format!("the help text does not list {}", n));
        }
    }
    let update = SolverConfigUpdate::new();
    if fields(&of_update(&update)) != [None; 5] {
        return Err("a new update is not empty".into());
    }
    Ok(())
}

/// Textual form of the updates.
fn text(cx: &mut Cx) -> CaseResult {
    let rng = &mut cx.rng;
    let mut lines: Vec<String> = vec![];
    let mut want = Cfg::default();
    let mut bad = false;
    let mut order = [0usize, 1, 2, 3, 4];
    rng.shuffle(&mut order);
    let k = rng.range(0, 5);
    for &i in &order[..k] {
        let name = NAMES[i];
        let eq = *rng.pick(&["=", " = ", "  =  ", "\t= "]);
        let tail = *rng.pick(&["", "", " # comment", "  "]);
        let quoted = rng.chance(1, 12);
        let key = if quoted { format!("\"{}\"", name) } else { name.to_string() };
        if i < 2 {
            let (t, v): (String, Option<f32>) = match rng.below(10) {
                0 => ("0.5".into(), Some(0.5)),
                1 => ("5e-1".into(), Some(0.5)),
                2 => ("+0.75".into(), Some(0.75)),
                3 => ("1".into(), Some(1.0)),
                4 => ("-0.6".into(), Some(-0.6)),
                5 => ("\"0.75\"".into(), None),
                6 => (rng.pick(&["true", "[0.75]", "0.75.1", "", "nan_", "0,75", ".75"]).to_string(), None),
                _ => {
                    let x = 0.4 + 0.7 * rng.f64();
                    let t = format!("{:.9}", x);
                    let v = t.parse::<f64>().unwrap() as f32;
                    (t, Some(v))
                }
            };
            bad |= v.is_none();
            lines.push(format!("{}{}{}{}", key, eq, t, tail));
            if i == 0 {
                want.vsids_decay = v;
            } else {
                want.clause_activity_decay = v;
            }
        } else {
            let (t, v): (String, Option<u64>) = match rng.below(10) {
                0 => ("1".into(), Some(1)),
                1 => ("0".into(), Some(0)),
                2 => ("1_000".into(), Some(1000)),
                3 => ("0x10".into(), Some(16)),
                4 => ("9223372036854775807".into(), Some(i64::MAX as u64)),
                5 => (rng.pick(&["-1", "9223372036854775808", "\"1\"", "1.0", "true", "", "1e3", "01", "{}", "0.5"]).to_string(), None),
                _ => {
                    let x = rng.below(100_000) as u64;
                    (x.to_string(), Some(x))
                }
            };
            bad |= v.is_none();
            lines.push(format!("{}{}{}{}", key, eq, t, tail));
            match i {
                2 => want.reduce_locals_interval = v,
                3 => want.reduce_mids_interval = v,
                _ => want.luby_restart_interval_scale = v,
            }
        }
    }
    if rng.chance(1, 8) {
        // not an option
        let t = *rng.pick(&[
            "vsids_deca = 0.75", "VSIDS_DECAY = 0.75", "unknown = 1", "[vsids_decay]", "vsids_decay", "= 1", "a.b = 1",
            "reduce-locals-interval = 5", "[[x]]", "\"\" = 1", "luby_restart_interval = 5",
        ]);
        let at = rng.below(lines.len() + 1);
        // a table header changes the meaning of what follows, put it last
        if t.starts_with('[') {
            lines.push(t.into());
        } else {
            lines.insert(at, t.into());
        }
        bad = true;
    }
    if rng.chance(1, 10) && k > 0 {
        let again = lines[rng.below(k.min(lines.len()))].clone();
        if !again.starts_with('[') {
            // setting an option twice is malformed
            if !lines.last().unwrap().starts_with('[') {
                lines.push(again);
                bad = true;
            }
        }
    }
    let doc = lines.join(*rng.pick(&["\n", "\n\n", "\r\n", "\n# note\n"]));
    cx.detail = doc.clone();
    cx.sample = Some(doc.clone());
    cx.nontrivial(doc.as_bytes());
    let parsed: Result<SolverConfigUpdate, _> = toml::from_str(&doc);
    let mut config = SolverConfig::default();
    match parsed {
        Err(e) => {
            if !bad {
                return Err(format!("text was rejected: {}", e));
            }
            cx.count("rejected_text", 1);
        }
        Ok(u) => {
            if bad {
                return Err("malformed text was accepted".into());
            }
            let got = of_update(&u);
            if fields(&got) != fields(&want) {
                return Err(format!("text was read as {:?} instead of {:?}", got, want));
            }
            cx.count("parsed_text", 1);
            expect_apply(cx, &u, &want, &mut config)?;
            let out = toml::to_string(&u).map_err(|e| format!("update cannot be written as text: {}", e))?;
            let back: SolverConfigUpdate =
                toml::from_str(&out).map_err(|e| format!("written update cannot be read: {} in {:?}", e, out))?;
            if fields(&of_update(&back)) != fields(&want) {
                return Err(format!("written update {:?} was read as {:?}", out, of_update(&back)));
            }
            cx.count("round_trips", 1);
        }
    }
    Ok(())
}

const DEFAULTS: Cfg = Cfg {
    vsids_decay: Some(0.95),
    clause_activity_decay: Some(0.999),
    reduce_locals_interval: Some(15000),
    reduce_mids_interval: Some(10000),
    luby_restart_interval_scale: Some(128),
};

fn merge(a: &mut Cfg, b: &Cfg) {
    a.vsids_decay = b.vsids_decay.or(a.vsids_decay);
    a.clause_activity_decay = b.clause_activity_decay.or(a.clause_activity_decay);
    a.reduce_locals_interval = b.reduce_locals_interval.or(a.reduce_locals_interval);
    a.reduce_mids_interval = b.reduce_mids_interval.or(a.reduce_mids_interval);
    a.luby_restart_interval_scale = b.luby_restart_interval_scale.or(a.luby_restart_interval_scale);
}

/// One option of an update.
fn single(c: &Cfg, i: usize) -> Cfg {
    let mut x = Cfg::default();
    match i {
        0 => x.vsids_decay = c.vsids_decay,
        1 => x.clause_activity_decay = c.clause_activity_decay,
        2 => x.reduce_locals_interval = c.reduce_locals_interval,
        3 => x.reduce_mids_interval = c.reduce_mids_interval,
        _ => x.luby_restart_interval_scale = c.luby_restart_interval_scale,
    }
    x
}

/// An option that was changed after solving started has to matter for the rest of the run, whatever
/// the moment at which it was set: the same solver run is repeated with the option left alone, set
/// before the first call and set between the calls.
fn effect(cx: &mut Cx, option: usize) -> CaseResult {
    let mut differ = 0;
    let mut late = 0;
    let value = Cfg {
        vsids_decay: Some(0.6),
        clause_activity_decay: Some(0.55),
        reduce_locals_interval: Some(40),
        reduce_mids_interval: Some(30),
        luby_restart_interval_scale: Some(3),
    };
    let value = single(&value, option);
    // clause activities and tiers only matter when clauses are reduced
    let base = match option {
        1 => Cfg { reduce_locals_interval: Some(60), reduce_mids_interval: Some(70), ..Cfg::default() },
        3 => Cfg { reduce_locals_interval: Some(60), ..Cfg::default() },
        _ => Cfg::default(),
    };
    // the value the option has anyway
    let mut current = DEFAULTS.clone();
    merge(&mut current, &base);
    let current = single(&current, option);
    for _ in 0..8 {
        let n = 120;
        let clauses = gen::ksat(&mut cx.rng, n, n * 9 / 2, 3);
        let mut runs = vec![];
        for when in 0..6 {
            let sink = Sink::default();
            let mut solver = Solver::new();
            let set = |solver: &mut Solver| solver.config(&value.update()).map_err(|e| format!("valid config rejected: {}", e));
            let keep = |solver: &mut Solver| solver.config(&current.update()).map_err(|e| format!("valid config rejected: {}", e));
            solver.write_proof(sink.clone(), ProofFormat::Varisat);
            solver.config(&base.update()).map_err(|e| format!("valid config rejected: {}", e))?;
            if when == 1 {
                set(&mut solver)?;
            }
            if when == 4 {
                keep(&mut solver)?;
            }
            for c in &clauses[..clauses.len() / 2] {
                solver.add_clause(&to_lits(c));
            }
            if when == 2 {
                set(&mut solver)?;
            }
            let a = solver.solve().map_err(|e| e.to_string())?;
            for c in &clauses[clauses.len() / 2..] {
                solver.add_clause(&to_lits(c));
            }
            if when == 3 {
                set(&mut solver)?;
            }
            if when == 5 {
                keep(&mut solver)?;
            }
            let b = solver.solve().map_err(|e| e.to_string())?;
            solver.close_proof().map_err(|e| e.to_string())?;
            drop(solver);
            runs.push((a, b, sink.take()));
        }
        if runs.iter().any(|r| r.0 != runs[0].0 || r.1 != runs[0].1) {
            return Err(format!("changing {} changed a verdict", NAMES[option]));
        }
        if runs[1].2 != runs[2].2 {
            return Err(format!("setting {} before and after adding clauses makes a difference", NAMES[option]));
        }
        if runs[4].2 != runs[0].2 || runs[5].2 != runs[0].2 {
            return Err(format!("setting {} to the value it has changes the run: {:?}", NAMES[option], current));
        }
        differ += (runs[0].2 != runs[1].2) as u32;
        if std::env::var("VH_DEBUG").is_ok() {
            eprintln!("{} {:?} {:?}", NAMES[option], runs.iter().map(|r| r.2.len()).collect::<Vec<_>>(), runs[0].0);
        }
        late += (runs[0].2 != runs[3].2) as u32;
    }
    cx.count("effects", 1);
    cx.nontrivial(NAMES[option].as_bytes());
    if differ == 0 {
        return Err(format!("setting {} to {:?} has no effect on any run", NAMES[option], value));
    }
    if late == 0 {
        return Err(format!("setting {} to {:?} after a first solve has no effect on any run", NAMES[option], value));
    }
    Ok(())
}

/// A solver that was never configured behaves like one whose options were set to their defaults,
/// on formulas hard enough for every option to matter.
fn untouched(cx: &mut Cx) -> CaseResult {
    let n = 200 + cx.rng.below(15);
    let clauses = gen::ksat(&mut cx.rng, n, n * 43 / 10, 3);
    let mut runs = vec![];
    for update in [None, Some(Cfg::default()), Some(DEFAULTS.clone())] {
        let sink = Sink::default();
        let mut solver = Solver::new();
        solver.write_proof(sink.clone(), ProofFormat::BinaryDrat);
        if let Some(update) = update {
            solver.config(&update.update()).map_err(|e| format!("valid config rejected: {}", e))?;
        }
        solver.add_formula(&to_formula(&clauses));
        solver.solve().map_err(|e| e.to_string())?;
        solver.close_proof().map_err(|e| e.to_string())?;
        drop(solver);
        runs.push(sink.take());
    }
    if std::env::var("VH_DEBUG").is_ok() {
        eprintln!("{} {:?}", n, runs.iter().map(|r| r.len()).collect::<Vec<_>>());
    }
    if runs[1] != runs[0] || runs[2] != runs[0] {
        return Err("setting options to their defaults changes the run".into());
    }
    cx.max("default_run_bytes", runs[0].len() as u64);
    cx.count("default_runs", 1);
    Ok(())
}

/// Updates while solving: the calls of a history are repeated with further updates that must not
/// matter between them.
fn running(cx: &mut Cx) -> CaseResult {
    let vars = cx.rng.coin();
    let mut shape = history::gen_shape(&mut cx.rng, vars);
    shape.ops = shape.ops.min(60);
    if cx.rng.chance(1, 3) {
        // enough conflicts for the options to matter
        shape.pool = cx.rng.range(18, 40);
        shape.ops = cx.rng.range(10, 30);
    }
    let mut ops = history::gen_ops(&mut cx.rng, &shape);
    let start = gen::config(&mut cx.rng);
    // more updates than usual
    for _ in 0..cx.rng.below(5) {
        let at = cx.rng.below(ops.len() + 1);
        let c = if cx.rng.coin() { gen::config(&mut cx.rng) } else { gen::aggressive(&mut cx.rng) };
        ops.insert(at, Op::Config(c));
    }
    cx.detail = format!("{:?}\n{}", start, history::show_ops(&ops));
    cx.key = Some(crate::rng::hash_bytes(cx.detail.as_bytes()));
    cx.sample = Some(format!("{} calls, {:?}", ops.len(), start));
    // every verdict, model and core is checked against the reference here
    let mode = Mode { native: true, native_rules: true, cfg: start.clone(), ..Mode::default() };
    let base = history::run(&ops, &mode)?;
    cx.count("solves", base.solves);
    let calls = base.calls;
    cx.count("changed_midway", calls.iter().filter(|o| matches!(o, Op::Config(_))).count() as u64);

    let kind = cx.rng.below(4);
    let mut runs = vec![];
    for vary in [false, true] {
        let sink = Sink::default();
        let mut solver = Solver::new();
        solver.write_proof(sink.clone(), ProofFormat::Varisat);
        let mut full = DEFAULTS.clone();
        let mut seen: Vec<String> = vec![];
        let mut note = String::new();
        let set = |solver: &mut Solver, c: &Cfg| solver.config(&c.update()).map_err(|e| format!("valid config rejected: {}", e));
        merge(&mut full, &start);
        set(&mut solver, &start)?;
        for c in &calls {
            if vary && cx.rng.chance(1, 3) {
                match kind {
                    0 => {
                        set(&mut solver, &Cfg::default())?;
                        cx.count("inert_updates", 1);
                        note.push_str("empty update\n");
                    }
                    1 => {
                        // what is already set
                        let mut again = full.clone();
                        if cx.rng.coin() {
                            again = single(&again, cx.rng.below(5));
                        }
                        note.push_str(&format!("again {:?}\n", again));
                        set(&mut solver, &again)?;
                        cx.count("inert_updates", 1);
                    }
                    2 => {
                        let mut bad = gen::config(&mut cx.rng);
                        // options before and after the offending one must not be taken over either
                        match cx.rng.below(5) {
                            0 => bad.vsids_decay = Some(1.5),
                            1 => bad.clause_activity_decay = Some(0.25),
                            2 => bad.reduce_locals_interval = Some(0),
                            3 => bad.reduce_mids_interval = Some(0),
                            _ => bad.luby_restart_interval_scale = Some(0),
                        }
                        note.push_str(&format!("invalid {:?}\n", bad));
                        if solver.config(&bad.update()).is_ok() {
                            return Err(format!("update {:?} was accepted", bad));
                        }
                        cx.count("rejected_midway", 1);
                    }
                    _ => (),
                }
            }
            note.push_str(&format!("{:?}\n", c));
            if let Op::Config(u) = c {
                merge(&mut full, u);
                if vary && kind == 3 {
                    // one option at a time, through values that do not last
                    let mut order = [0usize, 1, 2, 3, 4];
                    cx.rng.shuffle(&mut order);
                    for &i in &order {
                        set(&mut solver, &single(u, i))?;
                    }
                    cx.count("split_updates", 1);
                    continue;
                }
            }
            let s = super::faults::describe_call(&mut solver, c)?;
            if !matches!(c, Op::Config(_)) {
                seen.push(s);
            }
        }
        solver.close_proof().map_err(|e| format!("close_proof: {}", e))?;
        drop(solver);
        runs.push((seen, sink.take(), note));
    }
    if runs[0].0 != runs[1].0 {
        return Err(format!("updates without effect changed the results:\n{}", runs[1].2));
    }
    if runs[0].1 != runs[1].1 {
        return Err(format!("updates without effect changed the run:\n{}", runs[1].2));
    }
    Ok(())
}

//! C08, C13, C22: the native proof format and its checker.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, BufRead, BufReader};

use varisat::checker::{Checker, CheckerError};
use varisat_internal_proof::binary_format::{write_step, Parser};

use super::proofs::Recorder;
use super::solve::config;
use crate::event::EventMonitor;
use crate::fw::{CaseResult, Check, Cx};
use crate::gen;
use crate::history::{self, Mode, Ts};
use crate::pstep::*;
use crate::refsat::{self, Clause};
use crate::rng::{hash_bytes, Rng};
use crate::rup;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C08",
            level: "exploration",
            rule: "forged, damaged and random proofs for small formulas go to the checker; every claim of the transcript is compared with a reference interpretation of the accepted steps and decided by the reference procedure; counts when the checker got beyond the first step; distinct by formula and proof bytes",
            assumptions: &["memory proportional to the largest variable number is available to the checker (variable numbers in forged proofs stay below 1000)"],
            quick_cases: 500000,
            required: &["accepted", "rejected", "incomplete", "unsat_claims", "model_claims", "failed_claims", "forged", "mutated", "bytes"],
            threads: 8,
            case: c08,
        },
        Check {
            id: "C13",
            level: "exploration",
            rule: "random step sequences with boundary values are encoded and decoded through differently chunked readers, truncated at every byte, damaged, and written to failing writers; distinct by bytes",
            assumptions: &[],
            quick_cases: 300000,
            required: &["steps", "truncations", "damaged", "damaged_errors", "failed_writes", "chunked"],
            threads: 8,
            case: c13,
        },
        Check {
            id: "C22",
            level: "exploration",
            rule: "a generator of correct proofs (own propagation, random clause order, literal order, hash width, variable naming and renaming) against the checker, its transcript and its checked steps; counts when at least three kinds of steps occur; distinct by formula and proof bytes",
            assumptions: &["names are assigned as the format documents: a user name is not larger than the largest variable mentioned, a variable gets a solver name back before it is used again"],
            quick_cases: 900000,
            required: &["at", "units", "delete", "add", "model", "failed", "rename", "hide", "observe", "delete_var", "hash_bits", "unsat", "collisions", "live_clauses"],
            threads: 8,
            case: c22,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C13

fn edge_var(rng: &mut Rng) -> i32 {
    let max = 1i64 << 28;
    let v = match rng.below(4) {
        0 => rng.range(1, 10) as i64,
        1 => (1i64 << rng.range(0, 28)) + rng.range(0, 2) as i64 - 1,
        2 => max - rng.below(3) as i64,
        _ => 1 + rng.below(max as usize) as i64,
    };
    v.max(1).min(max) as i32
}

fn edge_u64(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => rng.next() >> rng.below(64),
        1 => (1u64 << rng.below(64)).wrapping_sub(rng.below(2) as u64),
        2 => u64::MAX >> rng.below(64),
        _ => rng.next(),
    }
}

fn edge_lits(rng: &mut Rng) -> Clause {
    let n = match rng.below(12) {
        0 => 0,
        1 => rng.range(60, 70),
        2 => rng.range(100, 400),
        _ => rng.below(6),
    };
    (0..n).map(|_| if rng.coin() { edge_var(rng) } else { -edge_var(rng) }).collect()
}

fn edge_hashes(rng: &mut Rng) -> Vec<u64> {
    let n = if rng.chance(1, 10) { rng.below(200) } else { rng.below(6) };
    (0..n).map(|_| edge_u64(rng)).collect()
}

fn edge_step(rng: &mut Rng) -> PStep {
    match rng.below(15) {
        0 => PStep::SolverName(edge_var(rng), Some(edge_var(rng))),
        1 => PStep::SolverName(edge_var(rng), None),
        2 => PStep::UserName(edge_var(rng), Some(edge_var(rng))),
        3 => PStep::UserName(edge_var(rng), None),
        4 => PStep::DeleteVar(edge_var(rng)),
        5 => PStep::Sampling(edge_var(rng), rng.coin()),
        6 => PStep::Add(edge_lits(rng)),
        7 | 8 => PStep::At(rng.coin(), edge_lits(rng), edge_hashes(rng)),
        9 => {
            let h = edge_hashes(rng);
            PStep::Units(h.into_iter().map(|h| (if rng.coin() { edge_var(rng) } else { -edge_var(rng) }, h)).collect())
        }
        10 => PStep::Delete(edge_lits(rng), *rng.pick(&[Del::Redundant, Del::Simplified, Del::Satisfied])),
        11 => PStep::HashBits(rng.range(1, 64) as u32),
        12 => PStep::Model(edge_lits(rng)),
        13 => PStep::Assume(edge_lits(rng)),
        _ => PStep::Failed(edge_lits(rng), edge_hashes(rng)),
    }
}

/// Reader that counts what is consumed.
struct Counting<R> {
    inner: R,
    used: usize,
}
impl<R: BufRead> io::Read for Counting<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.inner.read(buf)?;
        self.used += n;
        Ok(n)
    }
}
impl<R: BufRead> BufRead for Counting<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.used += n;
        self.inner.consume(n)
    }
}

fn eof(err: &anyhow::Error) -> bool {
    err.downcast_ref::<io::Error>().map_or(false, |e| e.kind() == io::ErrorKind::UnexpectedEof)
}

fn c13(cx: &mut Cx) -> CaseResult {
    let n = cx.rng.range(0, 30);
    let mut steps: Vec<PStep> = (0..n).map(|_| edge_step(&mut cx.rng)).collect();
    if cx.rng.coin() {
        let at = cx.rng.range(0, steps.len());
        steps.insert(at, PStep::End);
    }
    let mut data = vec![];
    let mut ends = vec![];
    for s in &steps {
        s.with(|s| write_step(&mut data, s)).map_err(|e| format!("write_step: {}", e))?;
        ends.push(data.len());
    }
    cx.count("steps", steps.len() as u64);
    cx.key = Some(hash_bytes(&data));
    cx.sample = Some(format!("{} steps, {} bytes", steps.len(), data.len()));
    if cx.verbose {
        cx.detail = format!("{:?}\n", steps);
    }

    // Through different readers, followed by unrelated bytes.
    let mut full = data.clone();
    let extra = cx.rng.below(40);
    full.extend((0..extra).map(|_| cx.rng.next() as u8));
    let mut readers: Vec<(String, Box<dyn BufRead + '_>)> = vec![("slice".into(), Box::new(&full[..]))];
    for _ in 0..2 {
        let cap = *cx.rng.pick(&[1, 2, 3, 5, 8, 15, 16, 17, 31, 64, 1000]);
        readers.push((format!("BufReader({})", cap), Box::new(BufReader::with_capacity(cap, &full[..]))));
        let max = *cx.rng.pick(&[1, 2, 3, 9, 40]);
        let r = Choppy { data: &full, pos: 0, rng: Rng::new(cx.rng.next()), max, interrupts: false };
        readers.push((format!("pieces of {} in BufReader({})", max, cap), Box::new(BufReader::with_capacity(cap, r))));
    }
    for (name, r) in readers {
        let mut r = Counting { inner: r, used: 0 };
        let mut parser = Parser::default();
        for (i, want) in steps.iter().enumerate() {
            let got = parser.parse_step(&mut r).map(|s| PStep::from(&s));
            match got {
                Ok(ref g) if g == want => (),
                g => return Err(format!("step {} {:?} is read back through {} as {:?}", i, want, name, g)),
            }
            if r.used != ends[i] {
                return Err(format!("step {} {:?} ends at byte {} but {} consumed {}", i, want, ends[i], name, r.used));
            }
        }
        cx.count("chunked", 1);
    }

    // Truncations.
    let cuts: Vec<usize> = if data.len() < 150 {
        (0..data.len()).collect()
    } else {
        (0..60).map(|_| cx.rng.below(data.len())).collect()
    };
    for cut in cuts {
        let whole = ends.iter().filter(|e| **e <= cut).count();
        let mut r = BufReader::with_capacity(*cx.rng.pick(&[1, 7, 16, 4096]), &data[..cut]);
        let mut parser = Parser::default();
        for (i, want) in steps[..whole].iter().enumerate() {
            match parser.parse_step(&mut r) {
                Ok(s) if PStep::from(&s) == *want => (),
                s => return Err(format!("cut at byte {}: step {} {:?} is read as {:?}", cut, i, want, s)),
            }
        }
        match parser.parse_step(&mut r) {
            Err(ref e) if eof(e) => (),
            s => return Err(format!("cut at byte {}: after {} steps the reader got {:?}", cut, whole, s)),
        }
        cx.count("truncations", 1);
    }

    // Damaged data: any result, but no crash, and whatever is returned is a valid step.
    for _ in 0..6 {
        let mut bad = data.clone();
        match cx.rng.below(3) {
            0 => bad = (0..cx.rng.below(60)).map(|_| cx.rng.next() as u8).collect(),
            1 => {
                for _ in 0..cx.rng.range(1, 3) {
                    if !bad.is_empty() {
                        let i = cx.rng.below(bad.len());
                        bad[i] = *cx.rng.pick(&[0, 1, 2, 0x80, 0xff, 0x81, 0xfe]);
                    }
                }
            }
            _ => {
                // a step with a number out of range or a length without content
                let code = cx.rng.below(18) as u64;
                bad = vec![(code << 1 | 1) as u8];
                for _ in 0..cx.rng.range(1, 4) {
                    bad.extend(vli(edge_u64(&mut cx.rng)));
                }
                bad.extend(&data[..cx.rng.below(data.len() + 1)]);
            }
        }
        let mut src = &bad[..];
        let mut parser = Parser::default();
        cx.count("damaged", 1);
        loop {
            let before = src.len();
            match parser.parse_step(&mut src) {
                Ok(s) => {
                    let s = PStep::from(&s);
                    if s.max_var() > 1 << 28 {
                        return Err(format!("{:?} is out of range, read from {:?}", s, bad));
                    }
                    if src.len() >= before {
                        return Err(format!("a step was read from nothing, data {:?}", bad));
                    }
                    // what was read is a value of the format
                    let bytes = encode(&[s.clone()]);
                    let again = decode(&bytes).0;
                    if again != [s.clone()] {
                        return Err(format!("{:?} read from damaged data is not preserved: {:?}", s, again));
                    }
                }
                Err(_) => {
                    cx.count("damaged_errors", 1);
                    break;
                }
            }
        }
    }

    // Failing writers.
    if !steps.is_empty() {
        for _ in 0..6 {
            let i = cx.rng.below(steps.len());
            let len = ends[i] - if i > 0 { ends[i - 1] } else { 0 };
            let limit = cx.rng.below(len);
            let mut w = FailAfter { left: limit, data: vec![] };
            match steps[i].with(|s| write_step(&mut w, s)) {
                Err(ref e) if e.to_string().contains("injected") => (),
                r => return Err(format!("{:?} written to a target that fails after {} of {} bytes: {:?}", steps[i], limit, len, r)),
            }
            if w.data[..] != data[ends[i] - len..][..w.data.len()] {
                return Err(format!("{:?}: the bytes before the write error differ", steps[i]));
            }
            cx.count("failed_writes", 1);
        }
        let sink = Sink::default();
        let mut w = ChoppyWriter::new(sink.clone(), cx.rng.next());
        for s in &steps {
            s.with(|s| write_step(&mut w, s)).map_err(|e| format!("write_step to a slow target: {}", e))?;
        }
        if sink.take() != data {
            return Err("a target accepting a few bytes at a time gets different bytes".into());
        }
    }
    Ok(())
}

pub struct FailAfter {
    pub left: usize,
    pub data: Vec<u8>,
}
impl io::Write for FailAfter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.left == 0 && !buf.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "injected write error"));
        }
        let n = buf.len().min(self.left);
        self.left -= n;
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The crate's number encoding, obtained from a step with one number.
fn vli(x: u64) -> Vec<u8> {
    let code = encode(&[PStep::At(true, vec![], vec![])]).len(); // code, length, length
    encode(&[PStep::At(true, vec![], vec![x])]).split_off(code)
}

// ---------------------------------------------------------------------------------------------
// C08

fn small_formula(rng: &mut Rng) -> Vec<Clause> {
    if !cfg!(miri) && rng.chance(1, 100) {
        // long propagations and wide clauses
        let n = rng.range(10, 120);
        let mut f: Vec<Clause> = (1..n as i32).map(|v| vec![-v, v + 1]).collect();
        for _ in 0..rng.range(1, 4) {
            let k = rng.range(2, n);
            f.push(gen::distinct_clause(rng, n, k));
        }
        if rng.coin() {
            f.push(vec![gen::lit(rng, n)]);
        }
        rng.shuffle(&mut f);
        return f;
    }
    let n = rng.range(1, 6);
    let m = rng.range(0, 3 * n);
    let mut f = match rng.below(4) {
        0 => gen::ksat(rng, n.max(2), m, 2),
        1 => gen::messy(rng, n, m, 4),
        2 => {
            let mut f = gen::ksat(rng, n.max(2), m, 2);
            f.push(vec![gen::lit(rng, n)]);
            f
        }
        _ => gen::ksat(rng, n.max(3), m, 3),
    };
    if rng.chance(1, 3) {
        f.retain(|c| !c.is_empty());
    }
    rng.shuffle(&mut f);
    f
}

struct Forger {
    hasher: Hasher,
    /// Clauses that may be present.
    pool: Vec<Clause>,
    n: i32,
    names: i32,
}

impl Forger {
    fn lit(&self, rng: &mut Rng) -> i32 {
        let v = rng.range(1, self.n as usize) as i32;
        if rng.coin() {
            v
        } else {
            -v
        }
    }
    fn var(&self, rng: &mut Rng) -> i32 {
        self.lit(rng).abs()
    }
    fn lits(&self, rng: &mut Rng) -> Clause {
        let n = *rng.pick(&[0, 1, 1, 2, 2, 3, 4]);
        (0..n).map(|_| self.lit(rng)).collect()
    }
    fn pooled(&self, rng: &mut Rng) -> Clause {
        if self.pool.is_empty() || rng.chance(1, 8) {
            self.lits(rng)
        } else {
            rng.pick(&self.pool).clone()
        }
    }
    fn hashes(&self, rng: &mut Rng) -> Vec<u64> {
        let mut h = vec![];
        match rng.below(6) {
            0 => {
                for _ in 0..rng.below(4) {
                    let c = self.pooled(rng);
                    h.push(self.hasher.hash(&rup::canon(&c)));
                }
            }
            1 => h.push(rng.next() >> (64 - self.hasher.bits)),
            _ => {
                // everything propagates, whatever the order
                for _ in 0..rng.range(1, 5) {
                    let mut o: Vec<usize> = (0..self.pool.len()).collect();
                    rng.shuffle(&mut o);
                    h.extend(o.iter().map(|&i| self.hasher.hash(&rup::canon(&self.pool[i]))));
                }
            }
        }
        h
    }
    fn derived(&self, rng: &mut Rng) -> Clause {
        match rng.below(4) {
            0 => self.lits(rng),
            1 => {
                let mut c = self.pooled(rng);
                if !c.is_empty() {
                    c.remove(rng.below(c.len()));
                }
                c
            }
            2 if self.pool.len() > 1 => {
                let a = self.pooled(rng);
                let b = self.pooled(rng);
                match a.iter().find(|l| b.contains(&-**l)) {
                    Some(&p) => a.iter().filter(|l| **l != p).chain(b.iter().filter(|l| **l != -p)).cloned().collect(),
                    None => vec![],
                }
            }
            _ => vec![self.lit(rng)],
        }
    }
    fn step(&mut self, rng: &mut Rng, claims: &Claims) -> PStep {
        let s = match rng.below(24) {
            0..=5 => {
                let mut c = self.derived(rng);
                if rng.coin() {
                    c = rup::canon(&c);
                }
                PStep::At(rng.coin(), c, self.hashes(rng))
            }
            6 => {
                let n = rng.range(1, 3);
                PStep::Units(
                    (0..n)
                        .map(|_| {
                            let c = self.pooled(rng);
                            let l = if c.is_empty() || rng.chance(1, 6) { self.lit(rng) } else { *rng.pick(&c) };
                            (l, self.hasher.hash(&rup::canon(&c)))
                        })
                        .collect(),
                )
            }
            7 | 8 => {
                let c = self.pooled(rng);
                PStep::Delete(c, *rng.pick(&[Del::Redundant, Del::Simplified, Del::Satisfied, Del::Satisfied]))
            }
            9 | 10 => {
                let n = rng.range(0, 3);
                let mut a: Clause = (0..n).map(|_| self.lit(rng)).collect();
                if rng.chance(1, 4) {
                    a.extend(a.first().cloned());
                }
                PStep::Assume(a)
            }
            11..=13 => {
                // a plausible model: a solution of a part of the pool
                let keep: Vec<Clause> = self.pool.iter().filter(|_| !rng.chance(1, 6)).cloned().collect();
                let mut m: Clause = match refsat::solve_limited(&keep, self.n as usize, &[], 1000) {
                    Ok(Some(m)) => (0..self.n).map(|v| if m[v as usize] { v + 1 } else { -v - 1 }).collect(),
                    _ => (0..self.n).map(|v| if rng.coin() { v + 1 } else { -v - 1 }).collect(),
                };
                match rng.below(6) {
                    0 => m.truncate(rng.below(m.len() + 1)),
                    1 => {
                        let i = rng.below(m.len());
                        m[i] = -m[i];
                    }
                    2 => m.push(self.lit(rng)),
                    3 if rng.chance(1, 4) => m.push(500 + rng.below(400) as i32),
                    _ => (),
                }
                PStep::Model(m)
            }
            14 | 15 => {
                let mut c: Clause = vec![];
                // assumed literals as the claims see them
                for (g, v) in &claims.vars {
                    for l in [v.obj, -v.obj] {
                        if claims.assumptions.contains(&l) && !rng.chance(1, 4) {
                            c.push(if l > 0 { *g } else { -*g });
                        }
                    }
                }
                if rng.chance(1, 6) {
                    c.push(self.lit(rng));
                }
                PStep::Failed(c, self.hashes(rng))
            }
            16 | 17 => {
                let mut c = if rng.coin() { self.lits(rng) } else { self.derived(rng) };
                if rng.chance(1, 3) {
                    c.push(self.lit(rng));
                }
                PStep::Add(c)
            }
            18 | 19 => {
                let u = match rng.below(4) {
                    0 | 1 => None,
                    _ => Some(rng.range(1, self.names as usize) as i32),
                };
                PStep::UserName(self.var(rng), u)
            }
            20 => PStep::DeleteVar(self.var(rng)),
            21 => PStep::Sampling(self.var(rng), rng.coin()),
            22 => {
                let s = if rng.chance(1, 4) { None } else { Some(rng.range(1, 40) as i32) };
                PStep::SolverName(self.var(rng), s)
            }
            _ => {
                let b = match rng.below(6) {
                    0 => *rng.pick(&[0, 65, 66, 128, u32::MAX]),
                    _ => rng.range(1, 64) as u32,
                };
                PStep::HashBits(b)
            }
        };
        self.effect(&s);
        s
    }

    /// Steps that try to get rid of a clause, and a model for the other clauses.
    fn heist(&mut self, rng: &mut Rng) -> Vec<PStep> {
        let target = self.pooled(rng);
        let mut steps = vec![];
        let plan = rng.coin();
        if plan {
            // more deletions than copies
            for _ in 0..rng.below(3) {
                let h = vec![self.hasher.hash(&rup::canon(&target))];
                steps.push(match rng.below(4) {
                    0 => PStep::At(true, target.clone(), h),
                    1 => PStep::Add(target.clone()),
                    _ => PStep::At(false, target.clone(), h),
                });
            }
            let how = *rng.pick(&[Del::Redundant, Del::Satisfied, Del::Simplified, Del::Simplified]);
            for _ in 0..rng.range(1, 3) {
                let how = if rng.chance(1, 5) { *rng.pick(&[Del::Redundant, Del::Satisfied, Del::Simplified]) } else { how };
                steps.push(PStep::Delete(target.clone(), how));
            }
        }
        for _ in 0..if plan { 0 } else { rng.range(1, 4) } {
            // related to the target: itself, a part of it, something larger, or one of its literals
            let mut c = target.clone();
            match rng.below(8) {
                0 if !c.is_empty() => {
                    c.remove(rng.below(c.len()));
                }
                1 => c.push(self.lit(rng)),
                2 if !c.is_empty() => c = vec![*rng.pick(&c)],
                3 => c = self.pooled(rng),
                _ => (),
            }
            if rng.chance(1, 3) {
                rng.shuffle(&mut c);
            }
            let s = match rng.below(7) {
                0 => PStep::At(true, c, self.hashes(rng)),
                1 => PStep::At(false, c, self.hashes(rng)),
                2 => PStep::Add(c),
                3 => PStep::Delete(c, Del::Redundant),
                4 => PStep::Delete(c, Del::Satisfied),
                _ => PStep::Delete(c, Del::Simplified),
            };
            self.effect(&s);
            steps.push(s.clone());
            if rng.chance(1, 3) {
                steps.push(s);
            }
        }
        let gone = rup::canon(&target);
        let mut keep: Vec<Clause> = self.pool.iter().filter(|c| rup::canon(c) != gone).cloned().collect();
        keep.extend(target.iter().map(|&l| vec![-l]));
        if let Ok(Some(m)) = refsat::solve_limited(&keep, self.n as usize, &[], 1000) {
            steps.push(PStep::Model((0..self.n).map(|v| if m[v as usize] { v + 1 } else { -v - 1 }).collect()));
        }
        steps
    }

    fn effect(&mut self, s: &PStep) {
        match s {
            PStep::At(_, c, _) | PStep::Add(c) => {
                if c.len() > 1 {
                    self.pool.push(c.clone());
                }
            }
            PStep::SolverName(g, Some(s)) => {
                self.hasher.names.insert(*g, *s);
            }
            PStep::SolverName(g, None) => {
                self.hasher.names.remove(g);
            }
            PStep::HashBits(b) if *b >= 1 && *b <= 64 => self.hasher.bits = *b,
            _ => (),
        }
    }
}

struct Verdict {
    transcript: Vec<Ts>,
    result: Result<(), CheckerError>,
    monitor: EventMonitor,
}

fn run_checker(cx: &mut Cx, initial: &[Clause], proof: &[u8]) -> Result<Verdict, String> {
    let mut rec = Recorder::default();
    let mut monitor = EventMonitor::recording();
    let attach = cx.rng.chance(3, 4);
    let result = {
        let mut checker = Checker::new();
        checker.add_transcript(&mut rec);
        if attach {
            checker.add_processor(&mut monitor);
        }
        let r = match cx.rng.below(3) {
            0 => checker.add_dimacs_cnf(&dimacs(initial)[..]).map_err(|e| e.to_string()),
            1 => checker.add_formula(&to_formula(initial)).map_err(|e| e.to_string()),
            _ => initial.iter().try_for_each(|c| checker.add_clause(&to_lits(c))).map_err(|e| e.to_string()),
        };
        r.map_err(|e| format!("checker rejected the formula: {}", e))?;
        let r = if cx.rng.chance(1, 4) {
            let max = *cx.rng.pick(&[1usize, 2, 5, 64]);
            checker.check_proof(Choppy { data: proof, pos: 0, rng: Rng::new(cx.rng.next()), max, interrupts: false })
        } else {
            checker.check_proof(proof)
        };
        // using the checker again after an error is not a reason to crash either
        if r.is_err() && cx.rng.chance(1, 3) {
            let _ = checker.check_proof(proof);
            Err(r.unwrap_err()).map_err(|e| (e, true))
        } else {
            r.map_err(|e| (e, false))
        }
    };
    let (result, again) = match result {
        Ok(()) => (Ok(()), false),
        Err((e, again)) => (Err(e), again),
    };
    if again {
        // the transcript of the second run does not say anything about the first
        rec.steps.clear();
    }
    Ok(Verdict { transcript: if again { vec![] } else { rec.steps }, result, monitor })
        .map(|v| if again { Verdict { monitor: EventMonitor::new(), ..v } } else { v })
}

fn failed_step(e: &CheckerError) -> Option<u64> {
    match e {
        CheckerError::ProofIncomplete { step }
        | CheckerError::IoError { step, .. }
        | CheckerError::ParseError { step, .. }
        | CheckerError::CheckFailed { step, .. } => Some(*step),
        _ => None,
    }
}

fn c08(cx: &mut Cx) -> CaseResult {
    let (initial, proof) = match cx.rng.below(20) {
        0..=10 => forged(cx),
        11..=16 => mutated(cx)?,
        _ => damaged(cx)?,
    };
    cx.key = Some(hash_bytes(&[&dimacs(&initial)[..], &proof].concat()));
    let (steps, ended) = decode(&proof);
    if cx.verbose {
        cx.detail = format!("initial {:?}\nproof {:?}\nended {}\n", initial, steps, ended);
    }
    if steps.iter().any(|s| s.max_var() > 5_000_000) {
        // would only measure memory
        cx.key = None;
        return Ok(());
    }
    let v = run_checker(cx, &initial, &proof)?;
    cx.sample = Some(format!("{} clauses, {} steps: {:?}", initial.len(), steps.len(), v.result));
    if cx.verbose {
        cx.detail.push_str(&format!("result {:?}\ntranscript {:?}\n", v.result, v.transcript));
    }
    let accepted = match &v.result {
        Ok(()) => {
            cx.count("accepted", 1);
            if !ended {
                return Err(format!("a proof without end marker was accepted ({} steps)", steps.len()));
            }
            steps.len()
        }
        Err(e) => {
            match e {
                CheckerError::ProofIncomplete { .. } => cx.count("incomplete", 1),
                _ => cx.count("rejected", 1),
            }
            match failed_step(e) {
                Some(s) => s as usize - 1,
                None => return Err(format!("unexpected error {}", e)),
            }
        }
    };
    cx.max("max_accepted_steps", accepted as u64);
    cx.count("accepted_steps", accepted as u64);
    if accepted > steps.len() {
        return Err(format!("the checker went on to step {} of {}", accepted + 1, steps.len()));
    }
    if accepted == 0 {
        cx.key = None;
    }
    if v.transcript.is_empty() && v.result.is_err() {
        return Ok(());
    }
    let mut claims = Claims::new();
    let r = claims.follow(&initial, &steps[..accepted], &v.transcript);
    cx.count("undecided", claims.undecided);
    for (k, n) in &claims.checked {
        cx.count(k, *n);
    }
    r?;
    if let Some(e) = v.monitor.error() {
        return Err(format!("checked steps handed to processors: {}", e));
    }
    Ok(())
}

fn forged(cx: &mut Cx) -> (Vec<Clause>, Vec<u8>) {
    cx.count("forged", 1);
    let rng = &mut cx.rng;
    let initial = small_formula(rng);
    let n = (refsat::max_var(&initial) as i32 + rng.below(3) as i32).max(1);
    let mut f = Forger {
        hasher: Hasher::new(),
        pool: initial.iter().filter(|c| c.len() > 1).cloned().collect(),
        n,
        names: n + 1,
    };
    let mut claims = Claims::new();
    for c in &initial {
        let _ = claims.add(c);
    }
    let mut steps = vec![];
    if rng.coin() {
        for g in 1..=n {
            if rng.chance(9, 10) {
                steps.push(PStep::UserName(g, Some(g)));
            }
            if rng.coin() {
                let s = PStep::SolverName(g, Some(rng.range(1, 30) as i32));
                f.effect(&s);
                steps.push(s);
            }
        }
    }
    for s in &steps {
        let _ = claims.apply(s);
    }
    let len = rng.range(1, 14);
    let focus = rng.chance(1, 3);
    for _ in 0..len {
        let mut s = f.step(rng, &claims);
        if focus && rng.coin() {
            // variable operations in a row
            let g = f.var(rng);
            s = match rng.below(6) {
                0 => PStep::UserName(g, None),
                1 => PStep::DeleteVar(g),
                2 => PStep::UserName(g, Some(rng.range(1, f.names as usize) as i32)),
                3 => PStep::Sampling(g, false),
                4 => PStep::Sampling(g, true),
                _ => PStep::UserName(g, Some(g)),
            };
        }
        if rng.chance(1, 10) {
            if let Some(last) = steps.last() {
                s = last.clone();
            }
        }
        if rng.chance(1, 12) {
            for s in f.heist(rng) {
                let _ = claims.apply(&s);
                steps.push(s);
            }
            continue;
        }
        // avoid steps that are certainly rejected, most of the time
        let mut probe = claims.clone();
        if probe.apply(&s).is_err() && !rng.chance(1, 6) {
            continue;
        }
        claims = probe;
        steps.push(s);
    }
    if rng.chance(9, 10) {
        steps.push(PStep::End);
    }
    (initial, encode(&steps))
}

fn real_proof(cx: &mut Cx) -> Result<(Vec<Clause>, Vec<u8>), String> {
    let vars = cx.rng.coin();
    let shape = history::gen_shape(&mut cx.rng, vars);
    let ops = history::gen_ops(&mut cx.rng, &shape);
    let mode = Mode { native: true, cfg: config(cx), ..Mode::default() };
    let out = history::run(&ops, &mode)?;
    Ok((out.initial, out.proof))
}

fn mutated(cx: &mut Cx) -> Result<(Vec<Clause>, Vec<u8>), String> {
    let (mut initial, proof) = real_proof(cx)?;
    cx.count("mutated", 1);
    let (mut steps, _) = decode(&proof);
    let rng = &mut cx.rng;
    if steps.is_empty() {
        return Ok((initial, proof));
    }
    let n = steps.iter().map(|s| s.max_var()).max().unwrap().max(refsat::max_var(&initial) as i32).max(1);
    // mirror the hashing state up to the place where something is changed
    let times = *rng.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..times {
        let at = rng.below(steps.len());
        let mut f = Forger { hasher: Hasher::new(), pool: initial.clone(), n, names: n + 1 };
        let mut claims = Claims::new();
        for c in &initial {
            let _ = claims.add(c);
        }
        for s in &steps[..at] {
            f.effect(s);
            let _ = claims.apply(s);
        }
        match rng.below(12) {
            0 => {
                steps.remove(at);
            }
            1 => {
                let s = steps[at].clone();
                steps.insert(at, s);
            }
            2 => {
                let other = rng.below(steps.len());
                steps.swap(at, other);
            }
            3 | 4 => {
                let s = f.step(rng, &claims);
                steps.insert(at, s);
            }
            5 => {
                // drop a clause of the formula
                if !initial.is_empty() {
                    let i = rng.below(initial.len());
                    initial.remove(i);
                }
            }
            6 => {
                // several forged steps in a row
                for k in 0..rng.range(1, 4) {
                    let s = f.step(rng, &claims);
                    let _ = claims.apply(&s);
                    steps.insert(at + k, s);
                }
            }
            _ => {
                let hashes = f.hashes(rng);
                let lit = f.lit(rng);
                let tweak = |c: &mut Clause, rng: &mut Rng| match rng.below(4) {
                    0 if !c.is_empty() => {
                        let i = rng.below(c.len());
                        c.remove(i);
                    }
                    1 if !c.is_empty() => {
                        let i = rng.below(c.len());
                        c[i] = -c[i];
                    }
                    2 if !c.is_empty() => {
                        let i = rng.below(c.len());
                        c[i] = lit;
                    }
                    _ => c.push(lit),
                };
                match &mut steps[at] {
                    PStep::Add(c) | PStep::Delete(c, _) | PStep::Model(c) | PStep::Assume(c) => tweak(c, rng),
                    PStep::At(_, c, h) | PStep::Failed(c, h) => {
                        if rng.coin() {
                            tweak(c, rng);
                            if rng.coin() {
                                h.extend(hashes);
                            }
                        } else if !h.is_empty() && rng.coin() {
                            let i = rng.below(h.len());
                            h.remove(i);
                        } else {
                            rng.shuffle(h);
                        }
                    }
                    PStep::Units(u) => {
                        if !u.is_empty() {
                            let i = rng.below(u.len());
                            match rng.below(3) {
                                0 => u[i].0 = -u[i].0,
                                1 => u[i].0 = lit,
                                _ => u[i].1 = *rng.pick(&hashes.iter().cloned().chain(Some(0)).collect::<Vec<_>>()),
                            }
                        }
                    }
                    PStep::HashBits(b) => *b = *rng.pick(&[0, 1, 2, 63, 64, 65, 1000]),
                    PStep::UserName(g, u) => {
                        if rng.coin() {
                            *g = lit.abs()
                        } else {
                            *u = Some(lit.abs())
                        }
                    }
                    PStep::SolverName(g, u) => {
                        if rng.coin() {
                            *g = lit.abs()
                        } else {
                            *u = Some(lit.abs())
                        }
                    }
                    PStep::DeleteVar(g) => *g = lit.abs(),
                    PStep::Sampling(g, s) => {
                        if rng.coin() {
                            *g = lit.abs()
                        } else {
                            *s = !*s
                        }
                    }
                    PStep::End => (),
                }
            }
        }
        if steps.is_empty() {
            break;
        }
    }
    Ok((initial, encode(&steps)))
}

fn damaged(cx: &mut Cx) -> Result<(Vec<Clause>, Vec<u8>), String> {
    cx.count("bytes", 1);
    let (initial, mut proof) = if cx.rng.coin() { forged(cx) } else { real_proof(cx)? };
    let rng = &mut cx.rng;
    match rng.below(5) {
        0 => {
            proof.truncate(rng.below(proof.len() + 1));
        }
        1 => {
            proof = (0..rng.below(80)).map(|_| rng.next() as u8).collect();
        }
        2 => {
            for _ in 0..rng.range(1, 4) {
                if !proof.is_empty() {
                    let i = rng.below(proof.len());
                    proof[i] ^= 1 << rng.below(8);
                }
            }
        }
        3 => {
            if !proof.is_empty() {
                let i = rng.below(proof.len());
                if rng.coin() {
                    proof.remove(i);
                } else {
                    proof.insert(i, rng.next() as u8);
                }
            }
        }
        _ => {
            // small numbers are more likely to mean something
            proof = (0..rng.below(80)).map(|_| (rng.below(20) as u8) << 1 | 1).collect();
        }
    }
    Ok((initial, proof))
}

// ---------------------------------------------------------------------------------------------
// C22

/// Multiset of clauses a correct proof has built up.
struct Prover {
    claims: Claims,
    hasher: Hasher,
    /// Clauses with two or more literals: irredundant and redundant copies.
    clauses: BTreeMap<Clause, [u32; 2]>,
    units: BTreeSet<i32>,
    unsat: bool,
    assumptions: Vec<i32>,
    steps: Vec<PStep>,
    /// Globals that lost their solver name.
    unnamed: BTreeSet<i32>,
    max_global: i32,
    /// Irredundant clause added by the previous step.
    previous: Option<Clause>,
    kinds: BTreeSet<&'static str>,
}

impl Prover {
    fn push(&mut self, s: PStep) -> Result<(), String> {
        self.max_global = self.max_global.max(match &s {
            PStep::UserName(g, _) | PStep::DeleteVar(g) | PStep::Sampling(g, _) => *g,
            PStep::SolverName(..) => 0,
            s => s.max_var(),
        });
        // the reference interpretation agrees that this is a true statement
        self.claims.apply(&s).map_err(|e| format!("harness: generated a false proof: {}", e))?;
        self.steps.push(s);
        Ok(())
    }

    fn input(&mut self, c: &[i32]) {
        if self.unsat || rup::is_taut(&rup::canon(c)) {
            return;
        }
        let c = rup::canon(c);
        match c.len() {
            0 => self.unsat = true,
            1 => {
                if self.units.contains(&-c[0]) {
                    self.unsat = true;
                } else {
                    self.units.insert(c[0]);
                }
            }
            _ => self.clauses.entry(c).or_insert([0, 0])[0] += 1,
        }
    }

    fn list(&self) -> Vec<Clause> {
        self.clauses.keys().cloned().collect()
    }

    fn hashes(&self, rng: &mut Rng, clause: &[i32]) -> Option<Vec<u64>> {
        let list = self.list();
        let mut order: Vec<usize> = (0..list.len()).collect();
        rng.shuffle(&mut order);
        let used = refute(&self.units, &list, clause, &order)?;
        let mut h: Vec<u64> = used.iter().map(|&i| self.hasher.hash(&list[i])).collect();
        // unused clauses may be listed as well
        if !list.is_empty() && rng.chance(1, 6) {
            let at = rng.below(h.len() + 1);
            h.insert(at, self.hasher.hash(&list[rng.below(list.len())]));
        }
        Some(h)
    }

    /// Globals a clause may use now.
    fn usable(&self) -> Vec<i32> {
        self.claims
            .vars
            .iter()
            .filter(|(g, v)| v.mode == SMode::Sample && v.name.is_some() && !self.unnamed.contains(g))
            .map(|(g, _)| *g)
            .collect()
    }

    fn in_use(&self, g: i32) -> bool {
        self.clauses.keys().any(|c| c.contains(&g) || c.contains(&-g))
    }

    fn add_derived(&mut self, redundant: bool, c: &Clause) {
        let k = rup::canon(c);
        match k.len() {
            0 => self.unsat = true,
            1 => {
                if self.units.contains(&-k[0]) {
                    self.unsat = true;
                } else {
                    self.units.insert(k[0]);
                }
            }
            _ => self.clauses.entry(k.clone()).or_insert([0, 0])[redundant as usize] += 1,
        }
    }
}

fn signed(rng: &mut Rng, v: i32) -> i32 {
    if rng.coin() {
        v
    } else {
        -v
    }
}

fn c22(cx: &mut Cx) -> CaseResult {
    let large = !cfg!(miri) && cx.rng.chance(1, 300);
    let initial = {
        let rng = &mut cx.rng;
        let mut f = match if large { 6 } else { rng.below(6) } {
            6 => {
                // long propagations and wide clauses
                let n = rng.range(20, 400);
                let mut f: Vec<Clause> = (1..n as i32).map(|v| vec![-v, v + 1]).collect();
                for _ in 0..rng.range(1, 4) {
                    let k = rng.range(2, n);
                    f.push(gen::distinct_clause(rng, n, k));
                }
                for _ in 0..rng.below(n) {
                    f.push(gen::distinct_clause(rng, n, 3));
                }
                rng.shuffle(&mut f);
                f
            }
            0 => small_formula(rng),
            1 => {
                let n = rng.range(4, 14);
                let m = n * rng.range(1, 4);
                gen::ksat(rng, n, m, 3)
            }
            _ => {
                let n = rng.range(2, 8);
                let m = rng.range(1, 4 * n);
                gen::messy(rng, n, m, 4).into_iter().filter(|c| c.len() > 1 || rng.chance(1, 3)).collect()
            }
        };
        if rng.chance(1, 10) {
            // spread the variables
            let d = rng.range(2, 30) as i32;
            for l in f.iter_mut().flatten() {
                *l *= d;
            }
        }
        if !cfg!(miri) && rng.chance(1, 60) {
            gen::repeat(rng, &mut f);
        }
        f
    };
    let mut p = Prover {
        claims: Claims::new(),
        hasher: Hasher::new(),
        clauses: BTreeMap::new(),
        units: BTreeSet::new(),
        unsat: false,
        assumptions: vec![],
        steps: vec![],
        unnamed: BTreeSet::new(),
        max_global: refsat::max_var(&initial) as i32,
        previous: None,
        kinds: BTreeSet::new(),
    };
    let mut dropped = false;
    for c in &initial {
        if p.unsat {
            dropped = true;
        }
        p.input(c);
        p.claims.add(c)?;
    }
    let _ = dropped;
    // names
    {
        let rng = &mut cx.rng;
        let globals: Vec<i32> = p.claims.vars.keys().cloned().collect();
        let mut order = globals.clone();
        rng.shuffle(&mut order);
        let top = *rng.pick(&[0, 1, 50, 100000]);
        let mut solver: Vec<i32> = (1..=order.len() as i32 + top).collect();
        if solver.len() < 1000 {
            rng.shuffle(&mut solver);
        }
        let style = rng.below(3);
        for (i, g) in order.iter().enumerate() {
            if style != 0 {
                p.push(PStep::UserName(*g, Some(*g)))?;
            }
            if style == 2 || rng.coin() {
                let s = solver[solver.len() - 1 - i];
                p.hasher.names.insert(*g, s);
                p.push(PStep::SolverName(*g, Some(s)))?;
            }
        }
        if rng.coin() {
            let b = *rng.pick(&[1, 2, 4, 6, 8, 12, 20, 32, 63, 64]);
            p.hasher.bits = b;
            p.push(PStep::HashBits(b))?;
        }
    }
    let top = if large { 300 } else if cx.rng.chance(1, 10) { 120 } else { 25 };
    let len = cx.rng.range(1, top);
    if large {
        cx.count("large", 1);
    }
    let mut next_name = 1000;
    for _ in 0..len {
        if p.unsat {
            break;
        }
        c22_step(cx, &mut p, &mut next_name)?;
    }
    p.push(PStep::End)?;
    if p.unsat {
        cx.count("unsat", 1);
    }
    let proof = encode(&p.steps);
    cx.key = Some(hash_bytes(&[&dimacs(&initial)[..], &proof].concat()));
    cx.sample = Some(format!("{} clauses, {} steps, kinds {:?}", initial.len(), p.steps.len(), p.kinds));
    if p.kinds.len() < 3 {
        cx.key = None;
    }
    if cx.verbose {
        cx.detail = format!("initial {:?}\nproof {:?}\n", initial, p.steps);
    }
    {
        let l = p.list();
        let h: BTreeSet<u64> = l.iter().map(|c| p.hasher.hash(c)).collect();
        cx.count("collisions", (l.len() - h.len()) as u64);
    }
    let mut rec = Recorder::default();
    let mut monitor = EventMonitor::recording();
    let plain = cx.rng.chance(1, 4);
    let route = cx.rng.below(3);
    let r = {
        let mut checker = Checker::new();
        checker.add_transcript(&mut rec);
        if !plain {
            checker.add_processor(&mut monitor);
        }
        match route {
            0 => checker.add_dimacs_cnf(&dimacs(&initial)[..]).map_err(|e| e.to_string()),
            1 => checker.add_formula(&to_formula(&initial)).map_err(|e| e.to_string()),
            _ => initial.iter().try_for_each(|c| checker.add_clause(&to_lits(c))).map_err(|e| e.to_string()),
        }
        .map_err(|e| format!("checker rejected the formula: {}", e))?;
        checker.check_proof(&proof[..])
    };
    if cx.verbose {
        cx.detail.push_str(&format!("result {:?}\ntranscript {:?}\n", r, rec.steps));
    }
    r.map_err(|e| format!("a correct proof was rejected: {}", e))?;
    let mut claims = Claims::new();
    claims.follow(&initial, &p.steps, &rec.steps)?;
    if p.unsat && !rec.steps.contains(&Ts::Unsat) && !initial.iter().any(|c| c.is_empty()) && !p.steps.contains(&PStep::Add(vec![])) {
        return Err("the transcript does not report unsatisfiability".into());
    }
    if !plain {
        if let Some(e) = monitor.error() {
            return Err(format!("checked steps handed to processors: {}", e));
        }
        if !p.unsat {
            // the processor's view of the clauses is the formula at the end
            let mut got: Vec<(Clause, bool)> = monitor.live_clauses().into_iter().map(|(_, c, irred)| (rup::canon(&c), irred)).collect();
            got.sort();
            let mut want: Vec<(Clause, bool)> = p
                .clauses
                .iter()
                .filter(|(_, n)| n[0] + n[1] > 0)
                .map(|(c, n)| (c.clone(), n[0] > 0))
                .chain(p.units.iter().map(|u| (vec![*u], true)))
                .collect();
            want.sort();
            // the status of derived unit clauses is not part of the format
            let norm = |v: Vec<(Clause, bool)>| -> Vec<(Clause, bool)> {
                v.into_iter().map(|(c, i)| { let one = c.len() < 2; (c, i || one) }).collect()
            };
            let (got, want) = (norm(got), norm(want));
            cx.count("live_clauses", want.len() as u64);
            if got != want {
                return Err(format!("processors see the clauses {:?}, the proof built {:?}", got, want));
            }
        }
    }
    Ok(())
}

fn c22_step(cx: &mut Cx, p: &mut Prover, next_name: &mut i32) -> CaseResult {
    let rng = &mut cx.rng;
    let usable = p.usable();
    let list: Vec<Clause> = p.list();
    let mut kind: Option<&'static str> = None;
    let previous = p.previous.take();
    match rng.below(22) {
        0..=6 if !usable.is_empty() => {
            // a derived clause
            for _ in 0..8 {
                let cand: Clause = match rng.below(5) {
                    0 if list.len() > 1 => {
                        let (a, b) = (rng.pick(&list), rng.pick(&list));
                        match a.iter().find(|l| b.contains(&-**l)) {
                            Some(&q) => a.iter().filter(|l| **l != q).chain(b.iter().filter(|l| **l != -q)).cloned().collect(),
                            None => continue,
                        }
                    }
                    1 if !list.is_empty() => {
                        let mut c = rng.pick(&list).clone();
                        c.remove(rng.below(c.len()));
                        c
                    }
                    2 if !list.is_empty() => {
                        let mut c = rng.pick(&list).clone();
                        if rng.coin() {
                            let v = *rng.pick(&usable);
                            c.push(signed(rng, v));
                        }
                        c
                    }
                    3 => {
                        let v = *rng.pick(&usable);
                        vec![signed(rng, v)]
                    }
                    _ => {
                        let n = rng.range(0, 3);
                        (0..n).map(|_| { let v = *rng.pick(&usable); signed(rng, v) }).collect()
                    }
                };
                if rup::is_taut(&rup::canon(&cand)) {
                    continue;
                }
                let mut c = rup::canon(&cand);
                let h = match p.hashes(rng, &c) {
                    Some(h) => h,
                    None => continue,
                };
                let redundant = rng.coin();
                if !cfg!(miri) && rng.chance(1, 300) && c.len() > 1 {
                    // many copies, of which some are deleted right away
                    let copies = rng.range(250, 270);
                    for _ in 0..copies {
                        p.add_derived(redundant, &c);
                        p.push(PStep::At(redundant, c.clone(), h.clone()))?;
                    }
                    let gone = if redundant { rng.below(copies) } else { 0 };
                    for _ in 0..gone {
                        p.clauses.get_mut(&c).unwrap()[1] -= 1;
                        p.push(PStep::Delete(c.clone(), Del::Redundant))?;
                    }
                    kind = Some("copies");
                }
                p.add_derived(redundant, &c);
                rng.shuffle(&mut c);
                if !c.is_empty() && rng.chance(1, 10) {
                    let l = *rng.pick(&c);
                    c.push(l);
                }
                if !redundant && c.len() > 0 {
                    p.previous = Some(rup::canon(&c));
                }
                p.push(PStep::At(redundant, c, h))?;
                kind = kind.or(Some("at"));
                break;
            }
        }
        7 | 8 => {
            // units by propagation
            let mut units = vec![];
            let max = rng.range(1, 5);
            let mut order: Vec<usize> = (0..list.len()).collect();
            rng.shuffle(&mut order);
            'more: while units.len() < max && !p.unsat {
                for &i in &order {
                    let c = &list[i];
                    if c.iter().any(|l| p.units.contains(l)) {
                        continue;
                    }
                    let open: Vec<i32> = c.iter().cloned().filter(|l| !p.units.contains(&-l)).collect();
                    if open.len() == 1 {
                        units.push((open[0], p.hasher.hash(c)));
                        p.units.insert(open[0]);
                        continue 'more;
                    }
                }
                break;
            }
            if !units.is_empty() {
                p.push(PStep::Units(units))?;
                kind = Some("units");
            }
        }
        9 | 10 if !list.is_empty() => {
            let mut c = rng.pick(&list).clone();
            // prefer the clause strengthened by the previous step
            if let Some(prev) = &previous {
                if let Some(sup) = list.iter().find(|d| d.len() > prev.len() && prev.iter().all(|l| d.contains(l)) && p.clauses[*d][0] > 0) {
                    c = sup.clone();
                }
            }
            let n = p.clauses[&c];
            let strict = previous.as_ref().map_or(false, |prev| prev.len() < c.len() && prev.iter().all(|l| c.contains(l)));
            let del = if n[0] > 0 && strict {
                Some(Del::Simplified)
            } else if n[0] > 0 && c.iter().any(|l| p.units.contains(l)) {
                Some(Del::Satisfied)
            } else if n[1] > 0 {
                Some(Del::Redundant)
            } else {
                None
            };
            if let Some(del) = del {
                let e = p.clauses.get_mut(&c).unwrap();
                e[(del == Del::Redundant) as usize] -= 1;
                if *e == [0, 0] {
                    p.clauses.remove(&c);
                }
                rng.shuffle(&mut c);
                p.push(PStep::Delete(c, del))?;
                kind = Some("delete");
            }
        }
        11 | 12 if !usable.is_empty() => {
            let n = *rng.pick(&[1, 2, 2, 3, 3, 4]);
            let mut c: Clause = (0..n).map(|_| { let v = *rng.pick(&usable); signed(rng, v) }).collect();
            if rng.chance(1, 4) && !list.is_empty() {
                let d = rng.pick(&list).clone();
                if d.iter().all(|l| usable.contains(&l.abs())) {
                    c = d;
                }
            }
            p.input(&c);
            p.push(PStep::Add(c))?;
            kind = Some("add");
        }
        13 if !usable.is_empty() => {
            let n = rng.range(0, 4);
            let mut a: Clause = (0..n).map(|_| { let v = *rng.pick(&usable); signed(rng, v) }).collect();
            if rng.chance(1, 8) && !a.is_empty() {
                let l = *rng.pick(&a);
                a.push(if rng.coin() { l } else { -l });
            }
            p.assumptions = a.clone();
            p.push(PStep::Assume(a))?;
        }
        14 | 15 => {
            // a model
            let mut all = p.list();
            all.extend(p.units.iter().map(|u| vec![*u]));
            let top = p.claims.vars.keys().last().cloned().unwrap_or(0).max(refsat::max_var(&all) as i32);
            let mut prefer = all.clone();
            for l in p.assumptions.iter() {
                prefer.push(vec![*l]);
            }
            if let Some(m) = refsat::solve(&prefer, top as usize, &[]) {
                let mut lits: Clause = p
                    .claims
                    .vars
                    .keys()
                    .map(|&g| if m[g as usize - 1] { g } else { -g })
                    .collect();
                // a partial assignment is enough if it satisfies every clause
                for _ in 0..rng.below(4) {
                    if lits.is_empty() {
                        break;
                    }
                    let i = rng.below(lits.len());
                    let l = lits[i];
                    let needed = p.assumptions.contains(&l)
                        || p.units.contains(&l)
                        || list.iter().any(|c| c.contains(&l) && !c.iter().any(|k| *k != l && lits.contains(k)));
                    if !needed {
                        lits.remove(i);
                    }
                }
                rng.shuffle(&mut lits);
                p.push(PStep::Model(lits))?;
                kind = Some("model");
            }
        }
        16 => {
            let mut core: Vec<i32> = rup::canon(&p.assumptions.clone());
            rng.shuffle(&mut core);
            core.truncate(rng.range(0, core.len()));
            if rng.coin() {
                core = rup::canon(&p.assumptions.clone());
            }
            if rup::is_taut(&rup::canon(&core)) {
                p.push(PStep::Failed(core, vec![]))?;
                kind = Some("failed");
            } else {
                let neg: Clause = core.iter().map(|l| -l).collect();
                if let Some(h) = p.hashes(rng, &neg) {
                    p.push(PStep::Failed(core, h))?;
                    kind = Some("failed");
                }
            }
        }
        17 => {
            // solver names
            let globals: Vec<i32> = p.claims.vars.keys().cloned().collect();
            if !globals.is_empty() {
                let g = *rng.pick(&globals);
                *next_name += 1;
                let s = if rng.coin() { *next_name } else { 1 << rng.range(17, 27) | *next_name };
                if p.hasher.names.contains_key(&g) && rng.coin() {
                    p.push(PStep::SolverName(g, None))?;
                    if !p.in_use(g) && rng.coin() {
                        // without a name until it is needed again
                        p.hasher.names.remove(&g);
                        p.unnamed.insert(g);
                        return Ok(());
                    }
                }
                p.hasher.names.insert(g, s);
                p.unnamed.remove(&g);
                p.push(PStep::SolverName(g, Some(s)))?;
                kind = Some("rename");
            }
        }
        18 => {
            // hide
            let named: Vec<i32> = p
                .claims
                .vars
                .iter()
                .filter(|(g, v)| v.name.is_some() && !p.assumptions.contains(g) && !p.assumptions.contains(&-**g))
                .map(|(g, _)| *g)
                .collect();
            // names of the formula's variables have to be registered before they can be removed
            let named: Vec<i32> = named.into_iter().filter(|g| p.steps.iter().any(|s| matches!(s, PStep::UserName(h, Some(_)) if h == g))).collect();
            if !named.is_empty() {
                let g = *rng.pick(&named);
                p.push(PStep::UserName(g, None))?;
                kind = Some("hide");
                if !p.in_use(g) && rng.coin() {
                    p.units.remove(&g);
                    p.units.remove(&-g);
                    if p.hasher.names.remove(&g).is_some() {
                        p.unnamed.insert(g);
                        p.push(PStep::SolverName(g, None))?;
                    }
                    p.push(PStep::DeleteVar(g))?;
                    cx.count("delete_var", 1);
                }
            }
        }
        19 => {
            // observe a hidden variable, change modes
            let hidden: Vec<i32> = p.claims.vars.iter().filter(|(_, v)| v.mode == SMode::Hide).map(|(g, _)| *g).collect();
            if !hidden.is_empty() && rng.coin() {
                let g = *rng.pick(&hidden);
                let name = (1..=p.max_global).find(|n| p.claims.name_owner(*n).is_none());
                if let Some(n) = name {
                    p.push(PStep::Sampling(g, false))?;
                    p.push(PStep::UserName(g, Some(n)))?;
                    kind = Some("observe");
                }
            } else {
                let named: Vec<i32> = p
                    .claims
                    .vars
                    .iter()
                    .filter(|(g, v)| v.name.is_some() && !p.assumptions.contains(g) && !p.assumptions.contains(&-**g))
                    .map(|(g, _)| *g)
                    .collect();
                let named: Vec<i32> = named.into_iter().filter(|g| p.steps.iter().any(|s| matches!(s, PStep::UserName(h, Some(_)) if h == g))).collect();
                if !named.is_empty() {
                    let g = *rng.pick(&named);
                    let sample = p.claims.vars[&g].mode != SMode::Sample;
                    p.push(PStep::Sampling(g, sample))?;
                    kind = Some("sampling");
                }
            }
        }
        20 => {
            let b = rng.range(1, 64) as u32;
            p.hasher.bits = b;
            p.push(PStep::HashBits(b))?;
            kind = Some("hash_bits");
        }
        _ => {
            // a new variable
            let g = match (1..=p.max_global + 1).find(|g| !p.claims.vars.contains_key(g)) {
                Some(g) if rng.coin() => g,
                _ => p.max_global + rng.range(1, 3) as i32,
            };
            let top = g.max(p.max_global);
            let free: Vec<i32> = (1..=top).filter(|n| p.claims.name_owner(*n).is_none()).collect();
            if p.claims.vars.contains_key(&g) || free.is_empty() {
                return Ok(());
            }
            let n = if free.contains(&g) && rng.coin() { g } else { *rng.pick(&free) };
            p.push(PStep::UserName(g, Some(n)))?;
            if p.unnamed.remove(&g) || rng.coin() {
                *next_name += 1;
                p.hasher.names.insert(g, *next_name);
                p.push(PStep::SolverName(g, Some(*next_name)))?;
            }
            kind = Some("new_var");
        }
    }
    if let Some(k) = kind {
        p.kinds.insert(k);
        cx.count(k, 1);
    }
    if p.previous.is_some() && kind != Some("at") && kind != Some("copies") {
        p.previous = None;
    }
    Ok(())
}

//! C11, C12, C18: DIMACS text and formula containers.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io;

use varisat_checker::Checker;
use varisat_dimacs::{write_dimacs, write_dimacs_clauses, write_dimacs_header, DimacsHeader, DimacsParser};
use varisat_formula::{CnfFormula, ExtendFormula, Lit, Var};

use crate::fw::{CaseResult, Check, Cx};
use crate::gen;
use crate::refsat::Clause;
use crate::rng::Rng;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            level: "exploration",
            rule: "byte strings (well formed, mutated, truncated at every byte and soup over the token alphabet) are read by every parser entry point with random chunking and compared with a separate line based reader; counts when the input has at least two bytes; distinct by input",
            assumptions: &["the harness's line based DIMACS reader is correct"],
            quick_cases: 900000,
            required: &["accepted", "rejected", "chunked", "strict_documents", "lenient", "truncations", "big_literals", "header_mismatch"],
            threads: 8,
            case: c11,
        },
        Check {
            id: "C12",
            level: "exploration",
            rule: "random formulas are written through every writing route, with writers that accept data in pieces or fail at a chosen byte, and read back by the separate reader; counts when the formula has at least one clause; distinct by formula",
            assumptions: &["the harness's line based DIMACS reader is correct"],
            quick_cases: 1200000,
            required: &["documents", "failed_writes", "empty_clauses", "declared_vars", "big_literals"],
            threads: 8,
            case: c12,
        },
        Check {
            id: "C18",
            level: "exploration",
            rule: "the first 4096 cases convert all 2^28 variables and 2^29 literals through every representation, the others replay random operation sequences on the formula container and a plain model; counts when at least one clause was added or one block was converted; distinct by operations",
            assumptions: &[],
            quick_cases: 1500000,
            required: &["literals", "formulas", "routes_compared", "new_vars"],
            threads: 8,
            case: c18,
        },
    ]
}

const MAX: u64 = 1 << 28;

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub clauses: Vec<Clause>,
    pub vars: usize,
    pub header: Option<(usize, usize)>,
}

#[derive(Debug, PartialEq)]
pub enum Verdict {
    /// Well formed: has to be accepted.
    Strict(Doc),
    /// Understandable but unusual: may be rejected, must not be misread.
    Lenient(Doc),
    Error(&'static str),
}

fn number(tok: &[u8]) -> Option<Option<u64>> {
    if tok.is_empty() || !tok.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t: Vec<u8> = tok.iter().cloned().skip_while(|&b| b == b'0').collect();
    if t.len() > 20 {
        return Some(None);
    }
    let mut v: u128 = 0;
    for b in t {
        v = v * 10 + (b - b'0') as u128;
    }
    Some(if v > u64::MAX as u128 { None } else { Some(v as u64) })
}

/// Line based reader, written independently of the parser under test.
pub fn read(data: &[u8]) -> Verdict {
    let mut lenient = false;
    let mut header: Option<(usize, usize)> = None;
    let mut clauses: Vec<Clause> = vec![];
    let mut open: Clause = vec![];
    let mut vars = 0u64;
    let mut tokens = 0;
    for line in data.split(|&b| b == b'\n' || b == b'\r') {
        match line.first() {
            Some(b'c') => continue,
            Some(b'p') => {
                if header.is_some() {
                    return Verdict::Error("second header");
                }
                if tokens > 0 {
                    lenient = true;
                }
                let plain = line.iter().all(|&b| b == b' ' || b.is_ascii_graphic());
                if !plain {
                    lenient = true;
                }
                let text = String::from_utf8_lossy(line).into_owned();
                if !text.starts_with("p ") {
                    return Verdict::Error("header");
                }
                let parts: Vec<&str> = text[2..].split_whitespace().collect();
                if parts.len() != 3 || parts[0] != "cnf" {
                    return Verdict::Error("header");
                }
                let mut v = [0u64; 2];
                for i in 0..2 {
                    let mut t = parts[i + 1];
                    if let Some(r) = t.strip_prefix('+') {
                        lenient = true;
                        t = r;
                    }
                    match number(t.as_bytes()) {
                        Some(Some(x)) => v[i] = x,
                        _ => return Verdict::Error("header number"),
                    }
                }
                if v[0] > MAX {
                    return Verdict::Error("header variables");
                }
                header = Some((v[0] as usize, v[1] as usize));
            }
            _ => {
                for tok in line.split(|&b| b == b' ') {
                    if tok.is_empty() {
                        continue;
                    }
                    tokens += 1;
                    let (neg, digits) = match tok.strip_prefix(b"-") {
                        Some(d) => (true, d),
                        None => (false, tok),
                    };
                    match number(digits) {
                        None => return Verdict::Error("token"),
                        Some(None) => return Verdict::Error("range"),
                        Some(Some(v)) if v > MAX => return Verdict::Error("range"),
                        Some(Some(0)) => {
                            lenient |= neg;
                            clauses.push(std::mem::take(&mut open));
                        }
                        Some(Some(v)) => {
                            vars = vars.max(v);
                            open.push(if neg { -(v as i32) } else { v as i32 });
                        }
                    }
                }
            }
        }
    }
    if !open.is_empty() {
        return Verdict::Error("unterminated");
    }
    let mut n = vars as usize;
    if let Some((v, c)) = header {
        if n > v {
            return Verdict::Error("mismatch vars");
        }
        if clauses.len() != c {
            return Verdict::Error("mismatch clauses");
        }
        n = v;
    }
    let doc = Doc { clauses, vars: n, header };
    if lenient {
        Verdict::Lenient(doc)
    } else {
        Verdict::Strict(doc)
    }
}

/// A well formed document in random layout.
pub fn document(rng: &mut Rng) -> Vec<u8> {
    let big = rng.chance(1, 12);
    let n = rng.range(1, 30);
    let m = rng.range(0, 8);
    let clauses: Vec<Clause> = (0..m)
        .map(|_| {
            let k = *rng.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 9]);
            (0..k)
                .map(|_| {
                    if big && rng.chance(1, 3) {
                        let v = *rng.pick(&[MAX as i32, MAX as i32 - 1, 99_999_999, 100_000_000, 1 << 27, 26_843_545, 26_843_546]);
                        if rng.coin() {
                            v
                        } else {
                            -v
                        }
                    } else {
                        gen::lit(rng, n)
                    }
                })
                .collect()
        })
        .collect();
    let vars = crate::refsat::max_var(&clauses);
    let nl: &[u8] = *rng.pick(&[&b"\n"[..], b"\n", b"\n", b"\r\n", b"\r"]);
    let mut out = vec![];
    let comment = |rng: &mut Rng, out: &mut Vec<u8>| {
        out.push(b'c');
        let k = rng.below(12);
        for _ in 0..k {
            let b = match rng.below(3) {
                0 => rng.below(256) as u8,
                _ => *rng.pick(b" p cnf 1 0-c"),
            };
            if b != b'\n' && b != b'\r' {
                out.push(b);
            }
        }
        out.extend_from_slice(nl);
    };
    let messy = rng.coin();
    while messy && rng.chance(1, 3) {
        comment(rng, &mut out);
    }
    if rng.chance(3, 4) {
        let v = if rng.chance(1, 4) { (vars + rng.range(0, 5)).min(MAX as usize) } else { vars };
        let sp = if messy && rng.chance(1, 3) { "  " } else { " " };
        out.extend_from_slice(format!("p{}cnf {}{}{}", sp, v, sp, clauses.len()).as_bytes());
        if messy && rng.chance(1, 4) {
            out.push(b' ');
        }
        out.extend_from_slice(nl);
    }
    for c in &clauses {
        for l in c {
            if messy && rng.chance(1, 8) {
                out.extend_from_slice(nl);
                if rng.chance(1, 3) {
                    comment(rng, &mut out);
                }
            }
            if messy && rng.chance(1, 20) {
                let s = l.to_string();
                match s.strip_prefix('-') {
                    Some(d) => out.extend_from_slice(format!("-00{}", d).as_bytes()),
                    None => out.extend_from_slice(format!("0{}", s).as_bytes()),
                }
            } else {
                out.extend_from_slice(l.to_string().as_bytes());
            }
            out.push(b' ');
            if messy && rng.chance(1, 8) {
                out.push(b' ');
            }
        }
        out.push(b'0');
        if messy && rng.chance(1, 5) {
            out.push(b' ');
        } else {
            out.extend_from_slice(nl);
        }
        if messy && rng.chance(1, 10) {
            out.extend_from_slice(nl);
            comment(rng, &mut out);
        }
    }
    if messy && rng.chance(1, 3) {
        // end without a line end
        while let Some(b'\n') | Some(b'\r') | Some(b' ') = out.last() {
            out.pop();
        }
    }
    out
}

pub fn mutate(rng: &mut Rng, doc: &mut Vec<u8>) {
    const TOKENS: &[&[u8]] = &[
        b"0", b"-", b" ", b"\n", b"\r", b"c", b"p", b"1", b"-1", b" 0\n", b"\t", b"%", b"%\n0\n", b"+1", b"-0", b"--",
        b"p cnf 1 1\n", b"268435456", b"268435457", b"-268435457", b"2684354560", b"99999999999999999999999", b"18446744073709551617",
        b"4294967297", b"0x1", b"1.5", b"\0", b"\xff", b"\xc3\xa9", b"c p cnf", b"cnf", b"p", b"a", b"\x0b", b"\x0c",
    ];
    for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
        let at = rng.below(doc.len() + 1);
        match rng.below(7) {
            0 if !doc.is_empty() => {
                doc.remove(at.min(doc.len() - 1));
            }
            1 if !doc.is_empty() => {
                let i = at.min(doc.len() - 1);
                doc[i] = *rng.pick(b"0123456789- \n\rcp\t%x");
            }
            2 => {
                let t = *rng.pick(TOKENS);
                doc.splice(at..at, t.iter().cloned());
            }
            3 => doc.truncate(at),
            4 => {
                let b = rng.below(doc.len() + 1);
                let (a, b) = (at.min(b), at.max(b));
                let piece: Vec<u8> = doc[a..b].iter().take(30).cloned().collect();
                let to = rng.below(doc.len() + 1);
                doc.splice(to..to, piece);
            }
            5 => {
                // change a number
                let digits: Vec<usize> = (0..doc.len()).filter(|&i| doc[i].is_ascii_digit()).collect();
                if !digits.is_empty() {
                    let i = *rng.pick(&digits);
                    doc[i] = b'0' + rng.below(10) as u8;
                }
            }
            _ => {
                let t = *rng.pick(TOKENS);
                doc.extend_from_slice(t);
            }
        }
    }
}

fn soup(rng: &mut Rng) -> Vec<u8> {
    let k = rng.range(0, 14);
    (0..k).map(|_| *rng.pick(b"0011-- \n\ncp2\r9")).collect()
}

fn from_formula(f: &CnfFormula) -> Vec<Clause> {
    f.iter().map(from_lits).collect()
}

type Parsed = Result<(Vec<Clause>, usize, usize, Option<(usize, usize)>), String>;

fn one_shot(data: &[u8]) -> Parsed {
    match DimacsParser::parse(data) {
        Ok(f) => Ok((from_formula(&f), f.var_count(), f.len(), None)),
        Err(e) => Err(e.to_string()),
    }
}

fn chunks(data: &[u8], rng: &mut Rng, drain: bool) -> Parsed {
    let mut p = DimacsParser::new();
    let mut got = vec![];
    let mut vars = 0;
    let mut pos = 0;
    let max = *rng.pick(&[1usize, 1, 2, 3, 7, 40]);
    let mut take = |p: &mut DimacsParser, got: &mut Vec<Clause>| -> Result<(), String> {
        let f = p.take_formula();
        got.extend(from_formula(&f));
        if f.var_count() < vars {
            return Err(format!("variable count of the pieces went from {} to {}", vars, f.var_count()));
        }
        vars = f.var_count();
        if p.take_formula().len() != 0 {
            return Err("clauses are returned twice".into());
        }
        Ok(())
    };
    while pos < data.len() {
        let lo = if rng.chance(1, 10) { 0 } else { 1 };
        let k = rng.range(lo, max).min(data.len() - pos);
        if let Err(e) = p.parse_chunk(&data[pos..pos + k]) {
            // the rest of a document with an error is never accepted
            for rest in [&data[pos + k..], b"", b"1 0\n"] {
                if p.parse_chunk(rest).is_ok() {
                    return Err(format!("HARNESS goes on with {:?} after the error {}", String::from_utf8_lossy(rest), e));
                }
            }
            return Err(e.to_string());
        }
        pos += k;
        if drain && rng.coin() {
            take(&mut p, &mut got).map_err(|e| format!("HARNESS {}", e))?;
        }
    }
    p.eof().map_err(|e| e.to_string())?;
    let header = p.header().map(|h| (h.var_count, h.clause_count));
    take(&mut p, &mut got).map_err(|e| format!("HARNESS {}", e))?;
    p.check_header().map_err(|e| e.to_string())?;
    if p.clause_count() != got.len() {
        return Err(format!("HARNESS clause_count() is {} for {} clauses", p.clause_count(), got.len()));
    }
    Ok((got, p.var_count(), p.clause_count(), header))
}

fn incremental(data: &[u8], rng: &mut Rng) -> Parsed {
    let max = *rng.pick(&[1usize, 2, 5, 64, 9000]);
    let r = Choppy { data, pos: 0, rng: Rng::new(rng.next()), max, interrupts: false };
    let mut got = vec![];
    let p = DimacsParser::parse_incremental(r, |p| {
        got.extend(from_formula(&p.take_formula()));
        Ok(())
    })
    .map_err(|e| e.to_string())?;
    Ok((got, p.var_count(), p.clause_count(), p.header().map(|h| (h.var_count, h.clause_count))))
}

fn judge(cx: &mut Cx, data: &[u8]) -> CaseResult {
    let want = read(data);
    let seed = cx.rng.next();
    let mut rng = Rng::new(seed);
    let mut results = vec![
        ("one piece", one_shot(data)),
        ("chunks", chunks(data, &mut rng, false)),
        ("chunks taken incrementally", chunks(data, &mut rng, true)),
        ("incremental reader", incremental(data, &mut rng)),
    ];
    cx.count("chunked", 3);
    if let (Ok(f), true) = (&results[0].1, rng.chance(1, 8)) {
        // the checker and solver entry points give the same verdict on the text
        if f.1 < 100_000 {
            let mut c = Checker::new();
            let r = c.add_dimacs_cnf(Choppy { data, pos: 0, rng: Rng::new(1), max: 3, interrupts: false });
            if r.is_err() {
                return Err("Checker::add_dimacs_cnf rejects a document that the parser accepts".into());
            }
        }
    }
    let first = results[0].1.clone();
    // the one shot entry point does not report the header
    let header = results[1].1.as_ref().ok().and_then(|r| r.3);
    if let Ok(ref mut f) = results[0].1 {
        f.3 = header;
    }
    for (name, r) in &results[1..] {
        match (&first, r) {
            (Ok(a), Ok(b)) if (&a.0, a.1, a.2) == (&b.0, b.1, b.2) => (),
            (Err(a), Err(b)) if a == b => (),
            _ => {
                return Err(format!(
                    "reading {:?} in one piece gives {:?}, but with {} {:?}",
                    String::from_utf8_lossy(data),
                    first,
                    name,
                    r
                ))
            }
        }
    }
    let show = String::from_utf8_lossy(data).into_owned();
    let compare = |doc: &Doc, f: &(Vec<Clause>, usize, usize, Option<(usize, usize)>)| -> CaseResult {
        if f.0 != doc.clauses || f.1 != doc.vars || f.2 != doc.clauses.len() {
            return Err(format!(
                "{:?} denotes {} variables and {:?}, but was read as {} variables and {:?}",
                show, doc.vars, doc.clauses, f.1, f.0
            ));
        }
        if f.3 != doc.header {
            return Err(format!("{:?} has the header {:?}, but {:?} is reported", show, doc.header, f.3));
        }
        Ok(())
    };
    match (&want, &results[0].1) {
        (Verdict::Strict(doc), Ok(f)) => {
            cx.count("strict_documents", 1);
            cx.count("accepted", 1);
            cx.count("clauses", doc.clauses.len() as u64);
            if doc.vars as u64 > MAX / 16 {
                cx.count("big_literals", 1);
            }
            compare(doc, f)?
        }
        (Verdict::Strict(_), Err(e)) => return Err(format!("well formed document {:?} is rejected: {}", show, e)),
        (Verdict::Lenient(doc), Ok(f)) => {
            cx.count("lenient", 1);
            compare(doc, f)?
        }
        (Verdict::Lenient(_), Err(_)) => cx.count("lenient", 1),
        (Verdict::Error(_), Err(_)) => (),
        (Verdict::Error(why), Ok(f)) => return Err(format!("malformed document ({}) {:?} is accepted as {:?}", why, show, f)),
    }
    if let Verdict::Error(why) = want {
        cx.count("rejected", 1);
        cx.count(&format!("rejected_{}", why.replace(' ', "_")), 1);
        if why.starts_with("mismatch") {
            cx.count("header_mismatch", 1);
        }
    }
    Ok(())
}

fn c11(cx: &mut Cx) -> CaseResult {
    let mut doc = match cx.rng.below(8) {
        0 => soup(&mut cx.rng),
        1 if cx.rng.chance(1, 20) => {
            // longer than the buffers of the reading functions
            let n = cx.rng.range(1, 3000);
            let m = cx.rng.range(500, 4000);
            let f = gen::ksat(&mut cx.rng, n, m, 3);
            dimacs(&f)
        }
        _ => document(&mut cx.rng),
    };
    let kind = cx.rng.below(10);
    if kind < 5 {
        mutate(&mut cx.rng, &mut doc);
    }
    cx.sample = Some(format!("{:?}", String::from_utf8_lossy(&doc)));
    if cx.verbose {
        cx.detail = format!("{:?}", String::from_utf8_lossy(&doc));
    }
    judge(cx, &doc)?;
    if kind == 9 && doc.len() < 300 {
        for k in 0..doc.len() {
            judge(cx, &doc[..k])?;
            cx.count("truncations", 1);
        }
    }
    if doc.len() >= 2 {
        cx.nontrivial(&doc);
    }
    Ok(())
}

struct Failing {
    data: Vec<u8>,
    limit: usize,
    max: usize,
}

impl io::Write for Failing {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.data.len() >= self.limit {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected write fault"));
        }
        let n = buf.len().min(self.limit - self.data.len()).min(self.max);
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c12(cx: &mut Cx) -> CaseResult {
    let n = *cx.rng.pick(&[1usize, 3, 10, 100, 12345, MAX as usize]);
    let m = if cx.rng.chance(1, 30) { cx.rng.range(100, 2000) } else { cx.rng.range(0, 12) };
    let clauses: Vec<Clause> = (0..m)
        .map(|_| {
            let k = *cx.rng.pick(&[0, 1, 2, 2, 3, 3, 5, 20]);
            (0..k).map(|_| gen::lit(&mut cx.rng, n)).collect()
        })
        .collect();
    let mut f = CnfFormula::new();
    for c in &clauses {
        f.add_clause(&to_lits(c));
    }
    let mut vars = crate::refsat::max_var(&clauses);
    if cx.rng.chance(1, 3) {
        let declared = cx.rng.range(0, n);
        if declared > vars {
            vars = declared;
            cx.count("declared_vars", 1);
        }
        f.set_var_count(declared);
    }
    cx.sample = Some(format!("{} vars, {} clauses", vars, clauses.len()));
    cx.count("documents", 1);
    cx.count("empty_clauses", clauses.iter().filter(|c| c.is_empty()).count() as u64);
    if vars as u64 > MAX / 16 {
        cx.count("big_literals", 1);
    }
    let mut text = vec![];
    write_dimacs(&mut text, &f).map_err(|e| format!("write_dimacs failed on a vector: {}", e))?;
    if cx.verbose {
        cx.detail = String::from_utf8_lossy(&text).chars().take(5000).collect();
    }
    match read(&text) {
        Verdict::Strict(doc) => {
            if doc.clauses != clauses || doc.vars != vars || doc.header != Some((vars, clauses.len())) {
                return Err(format!(
                    "formula with {} variables and {:?} was written as {:?}",
                    vars,
                    clauses,
                    String::from_utf8_lossy(&text)
                ));
            }
        }
        v => {
            return Err(format!(
                "formula {:?} was written as {:?} which is not a well formed document: {:?}",
                clauses,
                String::from_utf8_lossy(&text),
                v
            ))
        }
    }
    match DimacsParser::parse(&text[..]) {
        Ok(g) if g == f => (),
        Ok(g) => return Err(format!("the document reads back as {:?} instead of {:?}", g, f)),
        Err(e) => return Err(format!("the document cannot be read back: {}", e)),
    }
    // header and clauses separately, in random groups
    let mut parts = vec![];
    write_dimacs_header(&mut parts, DimacsHeader { var_count: f.var_count(), clause_count: f.len() })
        .map_err(|e| e.to_string())?;
    let mut pos = 0;
    let lits: Vec<Vec<Lit>> = clauses.iter().map(|c| to_lits(c)).collect();
    while pos < lits.len() {
        let k = cx.rng.range(1, 5).min(lits.len() - pos);
        write_dimacs_clauses(&mut parts, &lits[pos..pos + k]).map_err(|e| e.to_string())?;
        pos += k;
    }
    if parts != text {
        return Err(format!(
            "written separately: {:?}, in one call: {:?}",
            String::from_utf8_lossy(&parts),
            String::from_utf8_lossy(&text)
        ));
    }
    // a target that takes the data in pieces
    let sink = Sink::default();
    let mut w = ChoppyWriter::new(sink.clone(), cx.rng.next());
    write_dimacs(&mut w, &f).map_err(|e| format!("writing in pieces failed: {}", e))?;
    if sink.take() != text {
        return Err("a target that accepts the data in pieces received something else".into());
    }
    // a target that fails
    let tries = if text.len() < 200 && cx.rng.chance(1, 5) { text.len() } else { 3 };
    for t in 0..tries {
        let limit = if tries == 3 { cx.rng.below(text.len()) } else { t };
        let max = *cx.rng.pick(&[1usize, 3, 100000]);
        let mut w = Failing { data: vec![], limit, max };
        match write_dimacs(&mut w, &f) {
            Ok(()) => return Err(format!("a write failure at byte {} of {} was not reported", limit, text.len())),
            Err(e) if e.kind() == io::ErrorKind::BrokenPipe && e.to_string() == "injected write fault" => (),
            Err(e) => return Err(format!("the write error was replaced by {:?}", e)),
        }
        if w.data != text[..limit] {
            return Err("the data before a write failure differs".into());
        }
        cx.count("failed_writes", 1);
    }
    if m > 0 {
        cx.nontrivial(&text);
    }
    Ok(())
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn literal(i: usize) -> Result<(), String> {
    let bad = |what: &str| Err(format!("variable index {}: {}", i, what));
    let v = Var::from_index(i);
    if v.index() != i || v.to_dimacs() != i as isize + 1 || Var::from_dimacs(i as isize + 1) != v {
        return bad("index and DIMACS number do not convert losslessly");
    }
    for p in [true, false] {
        let l = Lit::from_index(i, p);
        let number = if p { i as isize + 1 } else { -(i as isize) - 1 };
        let code = 2 * i + !p as usize;
        if l.var() != v || l.index() != i || l.is_positive() != p || l.is_negative() == p {
            return bad("variable or polarity of a literal");
        }
        if l.code() != code || Lit::from_code(code) != l {
            return bad("literal code");
        }
        if l.to_dimacs() != number || Lit::from_dimacs(number) != l {
            return bad("DIMACS number of a literal");
        }
        if v.lit(p) != l || Lit::from_var(v, p) != l || (if p { v.positive() } else { v.negative() }) != l {
            return bad("literal constructors");
        }
        if (if p { Lit::positive(v) } else { Lit::negative(v) }) != l {
            return bad("literal constructors");
        }
        let n = !l;
        if n == l || !n != l || n.var() != v || n.is_positive() == p || n.to_dimacs() != -number {
            return bad("negation");
        }
        if l ^ true != n || l ^ false != l {
            return bad("conditional negation");
        }
        if l.map_var(|x| x) != l {
            return bad("map_var");
        }
    }
    Ok(())
}

/// Makes a uniform tuple of every supported size, also as a user would by destructuring it.
fn tuple(f: &mut CnfFormula, size: usize, lits: bool) -> Vec<Lit> {
    macro_rules! sizes {
        ($($n:literal => $($v:ident)*;)*) => {
            match (size, lits) {
                $(
                    ($n, false) => {
                        let ($($v),*) = f.new_vars::<($(sizes!(@ Var $v)),*)>();
                        vec![$($v.positive()),*]
                    }
                    ($n, true) => {
                        let ($($v),*) = f.new_lits::<($(sizes!(@ Lit $v)),*)>();
                        vec![$($v),*]
                    }
                )*
                _ => unreachable!(),
            }
        };
        (@ $t:ident $v:ident) => { $t };
    }
    sizes! {
        2 => a b;
        3 => a b c;
        4 => a b c d;
        5 => a b c d e;
        6 => a b c d e f;
        7 => a b c d e f g;
        8 => a b c d e f g h;
        9 => a b c d e f g h i;
        10 => a b c d e f g h i j;
        11 => a b c d e f g h i j k;
        12 => a b c d e f g h i j k l;
        13 => a b c d e f g h i j k l m;
        14 => a b c d e f g h i j k l m n;
        15 => a b c d e f g h i j k l m n o;
        16 => a b c d e f g h i j k l m n o p;
        17 => a b c d e f g h i j k l m n o p q;
        18 => a b c d e f g h i j k l m n o p q r;
        19 => a b c d e f g h i j k l m n o p q r s;
        20 => a b c d e f g h i j k l m n o p q r s t;
        21 => a b c d e f g h i j k l m n o p q r s t u;
    }
}

fn c18(cx: &mut Cx) -> CaseResult {
    if cx.idx < 4096 {
        let begin = (cx.idx as usize) << 16;
        for i in begin..begin + (1 << 16) {
            literal(i)?;
        }
        cx.count("literals", 2 << 16);
        if cx.idx == 4095 {
            let m = Var::max_var();
            if m.index() + 1 != MAX as usize || Var::max_count() != MAX as usize {
                return Err("max_var and max_count disagree".into());
            }
        }
        cx.nontrivial(format!("block {}", cx.idx).as_bytes());
        cx.sample = Some(format!("all literals of variables {}..{}", begin + 1, begin + (1 << 16)));
        return Ok(());
    }
    // random literals: names and ordering
    for _ in 0..20 {
        let a = gen::lit(&mut cx.rng, MAX as usize);
        let b = if cx.rng.coin() { gen::lit(&mut cx.rng, MAX as usize) } else { *cx.rng.pick(&[a, -a]) };
        let (x, y) = (to_lit(a), to_lit(b));
        if format!("{}", x) != a.to_string() || format!("{:?}", x) != a.to_string() {
            return Err(format!("literal {} is displayed as {} / {:?}", a, x, x));
        }
        if format!("{}", x.var()) != a.abs().to_string() {
            return Err(format!("variable {} is displayed as {}", a.abs(), x.var()));
        }
        if (x == y) != (a == b) || x.cmp(&y) != x.code().cmp(&y.code()) || (x == y && hash_of(&x) != hash_of(&y)) {
            return Err(format!("comparing {} and {}", a, b));
        }
        if (x.var() == y.var()) != (a.abs() == b.abs()) || x.var().cmp(&y.var()) != a.abs().cmp(&b.abs()) {
            return Err(format!("comparing variables {} and {}", a.abs(), b.abs()));
        }
        let k = gen::lit(&mut cx.rng, MAX as usize).abs();
        let mapped = from_lit(x.map_var(|_| to_var(k)));
        if mapped != k * a.signum() {
            return Err(format!("map_var of {} to {} gives {}", a, k, mapped));
        }
        if from_lit(Lit::from(x.var())) != a.abs() {
            return Err("conversion of a variable to a literal".into());
        }
        cx.count("literals", 2);
    }
    // the container against a plain model
    let mut f = CnfFormula::new();
    let mut model: Vec<Clause> = vec![];
    let mut vars = 0usize;
    let steps = cx.rng.range(0, 25);
    let mut log = String::new();
    let n = *cx.rng.pick(&[1usize, 5, 40, 5000, MAX as usize - 600]);
    for _ in 0..steps {
        match cx.rng.below(10) {
            0 => {
                let c = cx.rng.range(0, n);
                f.set_var_count(c);
                vars = vars.max(c);
                log.push_str(&format!("v{} ", c));
            }
            1 => {
                let (v, want) = match cx.rng.below(4) {
                    0 => (vec![f.new_var()], 1),
                    1 => (vec![f.new_lit().var()], 1),
                    2 => {
                        let k = cx.rng.range(0, 6);
                        let v = if cx.rng.coin() {
                            f.new_var_iter(k).collect::<Vec<_>>()
                        } else {
                            f.new_lit_iter(k).map(|l: Lit| l.var()).collect()
                        };
                        (v, k)
                    }
                    _ => {
                        let k = cx.rng.range(2, 21);
                        let lits = cx.rng.coin();
                        let ls = tuple(&mut f, k, lits);
                        if ls.iter().any(|l| l.is_negative()) {
                            return Err("new_lits returned a negative literal".into());
                        }
                        (ls.iter().map(|l| l.var()).collect(), k)
                    }
                };
                let got: Vec<usize> = v.iter().map(|v| v.index()).collect();
                if got != (vars..vars + want).collect::<Vec<_>>() {
                    return Err(format!("new variables {:?} for a formula with {} variables", got, vars));
                }
                vars += want;
                cx.count("new_vars", want as u64);
                log.push_str(&format!("n{} ", want));
            }
            _ => {
                let k = *cx.rng.pick(&[0, 1, 2, 3, 3, 4, 7]);
                let c: Clause = (0..k).map(|_| gen::lit(&mut cx.rng, n)).collect();
                f.add_clause(&to_lits(&c));
                vars = vars.max(c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0));
                log.push_str(&format!("{:?} ", c));
                model.push(c);
            }
        }
        if f.var_count() != vars || f.len() != model.len() || f.is_empty() != model.is_empty() {
            return Err(format!(
                "after {} the formula has {} variables, {} clauses, expected {} and {}",
                log,
                f.var_count(),
                f.len(),
                vars,
                model.len()
            ));
        }
    }
    cx.sample = Some(log.chars().take(300).collect());
    if from_formula(&f) != model {
        return Err(format!("after {} the formula is {:?}", log, f));
    }
    cx.count("formulas", 1);
    // other routes
    let lits: Vec<Vec<Lit>> = model.iter().map(|c| to_lits(c)).collect();
    let mut g = CnfFormula::from(lits.clone());
    g.set_var_count(vars);
    let mut h = CnfFormula::from(lits.iter().map(|c| &c[..]));
    if h.var_count() != crate::refsat::max_var(&model) {
        return Err("variable count of a formula made from clauses".into());
    }
    let smaller = vars.saturating_sub(1);
    h.set_var_count(smaller.min(vars));
    h.set_var_count(vars);
    let i = f.clone();
    for (name, x) in [("from clauses", &g), ("from slices", &h), ("clone", &i)] {
        cx.count("routes_compared", 1);
        if *x != f || from_formula(x) != model || x.var_count() != vars || format!("{:?}", x) != format!("{:?}", f) {
            return Err(format!("formula built {} differs: {:?} and {:?}", name, x, f));
        }
    }
    // inequality
    let mut other = model.clone();
    let changed = if other.is_empty() {
        other.push(vec![]);
        true
    } else {
        let k = cx.rng.below(other.len());
        match cx.rng.below(4) {
            0 => {
                other.remove(k);
                true
            }
            1 if !other[k].is_empty() => {
                let j = cx.rng.below(other[k].len());
                other[k][j] = -other[k][j];
                true
            }
            2 => {
                let c = other[k].clone();
                other.push(c);
                true
            }
            _ => {
                // same literals in a row, other clause borders
                let flat: Vec<i32> = other.concat();
                let before = other.clone();
                if flat.len() >= 2 {
                    other = vec![flat[..1].to_vec(), flat[1..].to_vec()];
                }
                before != other
            }
        }
    };
    let mut o = to_formula(&other);
    o.set_var_count(vars);
    if o.var_count() == vars && changed && (o == f || f == o) {
        return Err(format!("formulas {:?} and {:?} compare equal", o, f));
    }
    let mut w = f.clone();
    w.set_var_count(vars + 1);
    if w == f {
        return Err("formulas with different variable counts compare equal".into());
    }
    if !model.is_empty() {
        cx.nontrivial(log.as_bytes());
    }
    Ok(())
}

//! Conversions and I/O helpers.
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

use varisat::{CnfFormula, ExtendFormula, Lit, Var};

use crate::refsat::Clause;
use crate::rng::Rng;

pub fn to_lit(l: i32) -> Lit {
    Var::from_index(l.unsigned_abs() as usize - 1).lit(l > 0)
}

pub fn to_lits(c: &[i32]) -> Vec<Lit> {
    c.iter().map(|&l| to_lit(l)).collect()
}

pub fn from_lit(l: Lit) -> i32 {
    let v = l.var().index() as i32 + 1;
    if l.is_positive() {
        v
    } else {
        -v
    }
}

pub fn from_lits(c: &[Lit]) -> Clause {
    c.iter().map(|&l| from_lit(l)).collect()
}

pub fn to_var(v: i32) -> Var {
    Var::from_index(v as usize - 1)
}

pub fn from_var(v: Var) -> i32 {
    v.index() as i32 + 1
}

pub fn to_formula(clauses: &[Clause]) -> CnfFormula {
    let mut f = CnfFormula::new();
    for c in clauses {
        f.add_clause(&to_lits(c));
    }
    f
}

/// Independent DIMACS writer with optional header.
pub fn dimacs_text(clauses: &[Clause], header: Option<(usize, usize)>) -> Vec<u8> {
    let mut s = String::new();
    if let Some((v, c)) = header {
        s.push_str(&format!("p cnf {} {}\n", v, c));
    }
    for c in clauses {
        for l in c {
            s.push_str(&l.to_string());
            s.push(' ');
        }
        s.push_str("0\n");
    }
    s.into_bytes()
}

pub fn dimacs(clauses: &[Clause]) -> Vec<u8> {
    dimacs_text(clauses, Some((crate::refsat::max_var(clauses), clauses.len())))
}

pub fn show_clauses(clauses: &[Clause]) -> String {
    let mut s = String::from_utf8(dimacs(clauses)).unwrap();
    if s.len() > 20000 {
        s.truncate(20000);
        s.push_str("...\n");
    }
    s
}

/// Shared growable sink.
#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<Vec<u8>>>);

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Sink {
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut *self.0.borrow_mut())
    }
    pub fn get(&self) -> Vec<u8> {
        self.0.borrow().clone()
    }
}

/// Reader returning data in random small pieces, with optional interruptions.
pub struct Choppy<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub rng: Rng,
    pub max: usize,
    pub interrupts: bool,
}

impl<'a> io::Read for Choppy<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupts && self.rng.chance(1, 6) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = self.rng.range(1, self.max).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Verify that a set of literals is consistent, true for all clauses, and list problems.
pub fn check_assignment(model: &[i32], clauses: &[Clause]) -> Result<(), String> {
    let mut set = std::collections::HashSet::new();
    for &l in model {
        if set.contains(&-l) {
            return Err(format!("model contains both {} and {}", l, -l));
        }
        if !set.insert(l) {
            return Err(format!("model contains {} twice", l));
        }
    }
    for c in clauses {
        if !c.iter().any(|l| set.contains(l)) {
            return Err(format!("model does not satisfy clause {:?}", c));
        }
    }
    Ok(())
}

/// Writer that accepts only a few bytes at a time and is interrupted now and then.
pub struct ChoppyWriter {
    pub sink: Sink,
    pub rng: Rng,
    pub max: usize,
}

impl ChoppyWriter {
    pub fn new(sink: Sink, seed: u64) -> ChoppyWriter {
        let mut rng = Rng::new(seed);
        let max = *rng.pick(&[1usize, 2, 7, 100, 5000]);
        ChoppyWriter { sink, rng, max }
    }
}

impl io::Write for ChoppyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.rng.chance(1, 5) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = self.rng.range(1, self.max).min(buf.len());
        self.sink.0.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

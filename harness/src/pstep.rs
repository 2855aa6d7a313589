//! Owned native proof steps and a reference interpretation of them.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use varisat::Lit;
use varisat_internal_proof::binary_format::{write_step, Parser};
use varisat_internal_proof::{lit_code_hash, lit_hash, DeleteClauseProof, ProofStep};

use crate::history::{canon_set, Ts};
use crate::refsat::{self, Clause};
use crate::rup;
use crate::util::*;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Del {
    Redundant,
    Simplified,
    Satisfied,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PStep {
    SolverName(i32, Option<i32>),
    UserName(i32, Option<i32>),
    DeleteVar(i32),
    Sampling(i32, bool),
    Add(Clause),
    At(bool, Clause, Vec<u64>),
    Units(Vec<(i32, u64)>),
    Delete(Clause, Del),
    HashBits(u32),
    Model(Clause),
    Assume(Clause),
    Failed(Clause, Vec<u64>),
    End,
}

impl PStep {
    pub fn with<R>(&self, f: impl FnOnce(&ProofStep) -> R) -> R {
        match self {
            PStep::SolverName(g, s) => f(&ProofStep::SolverVarName { global: to_var(*g), solver: s.map(to_var) }),
            PStep::UserName(g, u) => f(&ProofStep::UserVarName { global: to_var(*g), user: u.map(to_var) }),
            PStep::DeleteVar(g) => f(&ProofStep::DeleteVar { var: to_var(*g) }),
            PStep::Sampling(g, s) => f(&ProofStep::ChangeSamplingMode { var: to_var(*g), sample: *s }),
            PStep::Add(c) => f(&ProofStep::AddClause { clause: &to_lits(c) }),
            PStep::At(r, c, h) => {
                f(&ProofStep::AtClause { redundant: *r, clause: &to_lits(c), propagation_hashes: h })
            }
            PStep::Units(u) => {
                let u: Vec<(Lit, u64)> = u.iter().map(|&(l, h)| (to_lit(l), h)).collect();
                f(&ProofStep::UnitClauses { units: &u })
            }
            PStep::Delete(c, d) => f(&ProofStep::DeleteClause {
                clause: &to_lits(c),
                proof: match d {
                    Del::Redundant => DeleteClauseProof::Redundant,
                    Del::Simplified => DeleteClauseProof::Simplified,
                    Del::Satisfied => DeleteClauseProof::Satisfied,
                },
            }),
            PStep::HashBits(b) => f(&ProofStep::ChangeHashBits { bits: *b }),
            PStep::Model(m) => f(&ProofStep::Model { assignment: &to_lits(m) }),
            PStep::Assume(a) => f(&ProofStep::Assumptions { assumptions: &to_lits(a) }),
            PStep::Failed(c, h) => {
                f(&ProofStep::FailedAssumptions { failed_core: &to_lits(c), propagation_hashes: h })
            }
            PStep::End => f(&ProofStep::End),
        }
    }

    pub fn from(step: &ProofStep) -> PStep {
        match *step {
            ProofStep::SolverVarName { global, solver } => PStep::SolverName(from_var(global), solver.map(from_var)),
            ProofStep::UserVarName { global, user } => PStep::UserName(from_var(global), user.map(from_var)),
            ProofStep::DeleteVar { var } => PStep::DeleteVar(from_var(var)),
            ProofStep::ChangeSamplingMode { var, sample } => PStep::Sampling(from_var(var), sample),
            ProofStep::AddClause { clause } => PStep::Add(from_lits(clause)),
            ProofStep::AtClause { redundant, clause, propagation_hashes } => {
                PStep::At(redundant, from_lits(clause), propagation_hashes.to_vec())
            }
            ProofStep::UnitClauses { units } => PStep::Units(units.iter().map(|&(l, h)| (from_lit(l), h)).collect()),
            ProofStep::DeleteClause { clause, proof } => PStep::Delete(
                from_lits(clause),
                match proof {
                    DeleteClauseProof::Redundant => Del::Redundant,
                    DeleteClauseProof::Simplified => Del::Simplified,
                    DeleteClauseProof::Satisfied => Del::Satisfied,
                },
            ),
            ProofStep::ChangeHashBits { bits } => PStep::HashBits(bits),
            ProofStep::Model { assignment } => PStep::Model(from_lits(assignment)),
            ProofStep::Assumptions { assumptions } => PStep::Assume(from_lits(assumptions)),
            ProofStep::FailedAssumptions { failed_core, propagation_hashes } => {
                PStep::Failed(from_lits(failed_core), propagation_hashes.to_vec())
            }
            ProofStep::End => PStep::End,
        }
    }

    /// Largest variable mentioned.
    pub fn max_var(&self) -> i32 {
        let c = |c: &Clause| c.iter().map(|l| l.abs()).max().unwrap_or(0);
        match self {
            PStep::SolverName(g, _) => *g,
            PStep::UserName(g, u) => (*g).max(u.unwrap_or(0)),
            PStep::DeleteVar(g) | PStep::Sampling(g, _) => *g,
            PStep::Add(x) | PStep::At(_, x, _) | PStep::Delete(x, _) | PStep::Model(x) | PStep::Assume(x) => c(x),
            PStep::Failed(x, _) => c(x),
            PStep::Units(u) => u.iter().map(|u| u.0.abs()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

pub fn encode(steps: &[PStep]) -> Vec<u8> {
    let mut v = vec![];
    for s in steps {
        s.with(|s| write_step(&mut v, s)).unwrap();
    }
    v
}

/// Decodes until the end marker, the end of the data or an error.
pub fn decode(mut data: &[u8]) -> (Vec<PStep>, bool) {
    let mut parser = Parser::default();
    let mut steps = vec![];
    loop {
        match parser.parse_step(&mut data) {
            Ok(s) => {
                let s = PStep::from(&s);
                let end = s == PStep::End;
                steps.push(s);
                if end {
                    return (steps, true);
                }
            }
            Err(_) => return (steps, false),
        }
    }
}

/// Clause hashes as the format defines them.
#[derive(Clone, Default)]
pub struct Hasher {
    pub names: BTreeMap<i32, i32>,
    pub bits: u32,
}

impl Hasher {
    pub fn new() -> Hasher {
        Hasher { names: BTreeMap::new(), bits: 64 }
    }
    pub fn hash(&self, clause: &[i32]) -> u64 {
        let mut h = 0;
        for &l in clause {
            h ^= match self.names.get(&l.abs()) {
                Some(&s) => lit_hash(to_lit(if l > 0 { s } else { -s })),
                None => lit_code_hash(to_lit(l).code() + (1usize << 28) * 2),
            };
        }
        h >> (64 - self.bits)
    }
}

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum SMode {
    Sample,
    Witness,
    Hide,
}

#[derive(Clone, Debug)]
pub struct GVar {
    pub obj: i32,
    pub name: Option<i32>,
    pub mode: SMode,
}

/// What a sequence of accepted steps says about the caller's formula.
#[derive(Clone, Default)]
pub struct Claims {
    pub vars: BTreeMap<i32, GVar>,
    /// The variable that goes by a name.
    owners: HashMap<i32, i32>,
    /// Input clauses over objects.
    pub clauses: Vec<Clause>,
    next_obj: i32,
    /// Objects.
    pub assumptions: Vec<i32>,
    pub known_unsat: Option<bool>,
    pub undecided: u64,
    pub checked: BTreeMap<&'static str, u64>,
}

impl Claims {
    pub fn new() -> Claims {
        Claims::default()
    }

    pub fn var(&mut self, g: i32) -> &mut GVar {
        let next = &mut self.next_obj;
        self.vars.entry(g).or_insert_with(|| {
            *next += 1;
            GVar { obj: *next, name: None, mode: SMode::Sample }
        })
    }

    pub fn name_owner(&self, name: i32) -> Option<i32> {
        self.owners.get(&name).cloned()
    }

    /// Variables used in clauses or assumptions without a name are known by their own number.
    fn used(&mut self, g: i32) -> Result<(), String> {
        let v = self.var(g).clone();
        if v.mode != SMode::Sample {
            return Err(format!("accepted use of variable {} which cannot be constrained ({:?})", g, v));
        }
        if v.name.is_none() {
            if let Some(o) = self.name_owner(g) {
                return Err(format!("variables {} and {} both go by the name {}", g, o, g));
            }
            self.var(g).name = Some(g);
            self.owners.insert(g, g);
        }
        Ok(())
    }

    fn objs(&mut self, c: &[i32]) -> Clause {
        c.iter()
            .map(|&l| {
                let o = self.var(l.abs()).obj;
                if l > 0 {
                    o
                } else {
                    -o
                }
            })
            .collect()
    }

    fn names(&self, c: &[i32]) -> Clause {
        c.iter()
            .filter_map(|&l| {
                self.vars.get(&l.abs()).and_then(|v| v.name).map(|n| if l > 0 { n } else { -n })
            })
            .collect()
    }

    fn sat(&mut self, with: &[i32]) -> Option<bool> {
        let n = self.next_obj as usize;
        match refsat::solve_limited(&self.clauses, n, with, 200_000) {
            Ok(m) => Some(m.is_some()),
            Err(()) => {
                self.undecided += 1;
                None
            }
        }
    }

    pub fn unsat(&mut self) -> bool {
        if self.known_unsat.is_none() {
            self.known_unsat = Some(self.sat(&[]) == Some(false));
        }
        self.known_unsat.unwrap()
    }

    pub fn add(&mut self, c: &[i32]) -> Result<Ts, String> {
        for l in c {
            self.used(l.abs())?;
        }
        let ts = Ts::Add(rup::canon(&self.names(c)));
        let o = self.objs(c);
        self.clauses.push(o);
        if self.known_unsat == Some(false) {
            self.known_unsat = None;
        }
        Ok(ts)
    }

    /// Effect of an accepted step and the transcript entry it has to produce. Err for a false claim.
    pub fn apply(&mut self, step: &PStep) -> Result<Option<Ts>, String> {
        match step {
            PStep::SolverName(..) | PStep::At(..) | PStep::Units(_) | PStep::Delete(..) | PStep::HashBits(_) => Ok(None),
            PStep::End => Ok(None),
            PStep::UserName(g, Some(u)) => {
                let v = self.var(*g).clone();
                if v.name.is_some() && v.name != Some(*u) {
                    return Err(format!("accepted a second name {} for variable {} ({:?})", u, g, v));
                }
                if v.name.is_none() {
                    if let Some(o) = self.name_owner(*u) {
                        return Err(format!("accepted the name {} for the variables {} and {}", u, o, g));
                    }
                }
                self.var(*g).name = Some(*u);
                self.owners.insert(*u, *g);
                Ok(match v.mode {
                    SMode::Witness => Some(Ts::Observe(*u)),
                    SMode::Sample => None,
                    SMode::Hide => return Err(format!("accepted a name for the hidden variable {}", g)),
                })
            }
            PStep::UserName(g, None) => {
                let v = self.var(*g);
                v.mode = SMode::Hide;
                match v.name.take() {
                    Some(n) => {
                        self.owners.remove(&n);
                        Ok(Some(Ts::Hide(n)))
                    }
                    None => Err(format!("accepted hiding the hidden variable {}", g)),
                }
            }
            PStep::DeleteVar(g) => {
                if let Some(n) = self.var(*g).name {
                    return Err(format!("accepted the deletion of variable {} known as {}", g, n));
                }
                self.vars.remove(g);
                Ok(None)
            }
            PStep::Sampling(g, sample) => {
                let v = self.var(*g);
                let mode = if *sample { SMode::Sample } else { SMode::Witness };
                let changed = v.mode != mode;
                v.mode = mode;
                match v.name {
                    None if changed && *sample => Err(format!("accepted sampling of the hidden variable {}", g)),
                    Some(n) if changed => Ok(Some(if *sample { Ts::Sample(n) } else { Ts::Witness(n) })),
                    _ => Ok(None),
                }
            }
            PStep::Add(c) => self.add(c).map(Some),
            PStep::Assume(a) => {
                for l in a {
                    self.used(l.abs())?;
                }
                self.assumptions = self.objs(a);
                Ok(Some(Ts::Assume(canon_set(&self.names(a)))))
            }
            PStep::Model(m) => {
                let mut named: Vec<i32> = vec![];
                for &l in m {
                    if self.vars.get(&l.abs()).map_or(false, |v| v.name.is_some()) {
                        named.push(l);
                    }
                }
                let mut with = self.objs(&named);
                with.extend(self.assumptions.iter().cloned());
                *self.checked.entry("model_claims").or_insert(0) += 1;
                if self.sat(&with) == Some(false) {
                    return Err(format!(
                        "accepted model {:?} does not extend to a solution of the formula with the assumptions",
                        m
                    ));
                }
                let mut t = self.names(m);
                t.sort();
                Ok(Some(Ts::Model(t)))
            }
            PStep::Failed(core, _) => {
                let o = self.objs(core);
                if let Some(l) = o.iter().find(|l| !self.assumptions.contains(l)) {
                    return Err(format!("accepted failed core {:?} contains {} which is not assumed", core, l));
                }
                *self.checked.entry("failed_claims").or_insert(0) += 1;
                if self.sat(&o) == Some(true) {
                    return Err(format!("accepted failed core {:?} is satisfiable with the formula", core));
                }
                if self.names(core).len() != core.len() {
                    return Err(format!("accepted failed core {:?} contains a hidden variable", core));
                }
                Ok(Some(Ts::Failed(canon_set(&self.names(core)))))
            }
        }
    }

    /// Compares the reported transcript with the accepted steps and the truth.
    pub fn follow(&mut self, initial: &[Clause], steps: &[PStep], transcript: &[Ts]) -> Result<(), String> {
        let mut it = transcript.iter().peekable();
        for (i, step) in initial.iter().map(|c| PStep::Add(c.clone())).chain(steps.iter().cloned()).enumerate() {
            while it.peek() == Some(&&Ts::Unsat) {
                self.claim_unsat()?;
                it.next();
            }
            let want = match self.apply(&step) {
                Ok(w) => w,
                Err(_) if !matches!(step, PStep::Model(_) | PStep::Failed(..)) && self.unsat() => return self.contradictory(it),
                Err(e) => return Err(format!("step {} {:?}: {}", i, step, e)),
            };
            let want = match want {
                None => continue,
                Some(w) => w,
            };
            let got = it.peek().cloned();
            let same = match (&want, got) {
                (Ts::Model(w), Some(Ts::Model(g))) => {
                    // values of names nobody uses are harmless
                    let g: Vec<i32> = g.iter().cloned().filter(|l| self.name_owner(l.abs()).is_some()).collect();
                    *w == g
                }
                (w, Some(g)) => w == g,
                (_, None) => false,
            };
            if same {
                it.next();
            } else if matches!(want, Ts::Add(_)) && self.unsat() {
                // clauses may be dropped once the formula is contradictory
            } else if !matches!(want, Ts::Model(_) | Ts::Failed(_)) && self.unsat() {
                return self.contradictory(it);
            } else {
                return Err(format!("step {} {:?} should be reported as {:?}, but the transcript has {:?}", i, step, want, got));
            }
        }
        for t in it {
            match t {
                Ts::Unsat => self.claim_unsat()?,
                t => return Err(format!("the transcript continues with {:?}", t)),
            }
        }
        Ok(())
    }

    /// The formula is contradictory and clauses were dropped: names are no longer certain.
    fn contradictory<'t>(&mut self, it: impl Iterator<Item = &'t Ts>) -> Result<(), String> {
        for t in it {
            if let Ts::Model(_) = t {
                return Err("a model of an unsatisfiable formula was accepted".into());
            }
        }
        Ok(())
    }

    fn claim_unsat(&mut self) -> Result<(), String> {
        *self.checked.entry("unsat_claims").or_insert(0) += 1;
        if self.sat(&[]) == Some(true) {
            return Err("the transcript claims unsatisfiability of a satisfiable formula".into());
        }
        Ok(())
    }
}

/// Unit propagation in the order a proof has to list the clauses.
pub struct Prop {
    pub val: BTreeMap<i32, bool>,
}

impl Prop {
    fn get(&self, l: i32) -> Option<bool> {
        self.val.get(&l.abs()).map(|&v| v == (l > 0))
    }
}

/// Propagates the negation of `clause` through `units` and `clauses`; the indices of the clauses
/// used, in order, when a conflict is found.
pub fn refute(units: &BTreeSet<i32>, clauses: &[Clause], clause: &[i32], order: &[usize]) -> Option<Vec<usize>> {
    let mut p = Prop { val: BTreeMap::new() };
    for &u in units {
        p.val.insert(u.abs(), u > 0);
    }
    // a clause with a true literal needs no propagation
    if clause.iter().any(|&l| p.get(l) == Some(true)) {
        return Some(vec![]);
    }
    for &l in clause {
        p.val.insert(l.abs(), l < 0);
    }
    let mut used: Vec<(usize, Option<i32>)> = vec![];
    let mut conflict = None;
    'outer: loop {
        let mut progress = false;
        for &i in order {
            let mut open = None;
            let mut n = 0;
            let mut sat = false;
            for &l in &clauses[i] {
                match p.get(l) {
                    Some(true) => sat = true,
                    Some(false) => (),
                    None => {
                        open = Some(l);
                        n += 1
                    }
                }
            }
            if sat || n > 1 {
                continue;
            }
            used.push((i, open));
            match open {
                None => {
                    conflict = Some(i);
                    break 'outer;
                }
                Some(l) => {
                    p.val.insert(l.abs(), l > 0);
                    progress = true;
                }
            }
        }
        if !progress {
            break;
        }
    }
    let conflict = conflict?;
    // keep only what the conflict needs
    let mut need: BTreeSet<i32> = clauses[conflict].iter().map(|l| l.abs()).collect();
    let mut keep = vec![conflict];
    for &(i, l) in used.iter().rev().skip(1) {
        let v = l.unwrap().abs();
        if need.contains(&v) {
            need.extend(clauses[i].iter().map(|l| l.abs()));
            keep.push(i);
        }
    }
    keep.reverse();
    Some(keep)
}

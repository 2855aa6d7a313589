//! Independent forward RUP checker over a multiset of clauses with deletion, and
//! a strict hint checker (LRAT style).
use std::collections::HashMap;

pub fn canon(c: &[i32]) -> Vec<i32> {
    let mut c = c.to_vec();
    c.sort_by_key(|l| (l.abs(), *l));
    c.dedup();
    c
}

pub fn is_taut(c: &[i32]) -> bool {
    // c canonical
    c.windows(2).any(|w| w[0] == -w[1])
}

fn code(l: i32) -> usize {
    ((l.unsigned_abs() as usize - 1) << 1) | (l < 0) as usize
}

struct Entry {
    /// watched order
    lits: Vec<i32>,
    copies: u32,
    /// Is it in the watch lists?
    live: bool,
}

/// Forward RUP checker.
#[derive(Default)]
pub struct Rup {
    val: Vec<i8>,
    reason: Vec<u32>,
    entries: Vec<Entry>,
    index: HashMap<Vec<i32>, u32>,
    watches: Vec<Vec<u32>>,
    trail: Vec<i32>,
    /// Propagated conflict at top level (formula refuted by UP).
    pub conflict: bool,
    /// Empty clause is present.
    pub has_empty: bool,
    pub checked: u64,
    pub deleted: u64,
}

const NO_REASON: u32 = u32::MAX;

impl Rup {
    pub fn new() -> Rup {
        Rup::default()
    }

    fn ensure(&mut self, l: i32) {
        let v = l.unsigned_abs() as usize;
        if self.val.len() < v {
            self.val.resize(v, 0);
            self.reason.resize(v, NO_REASON);
            self.watches.resize(2 * v, vec![]);
        }
    }

    fn value(&self, l: i32) -> i8 {
        let v = self.val[l.unsigned_abs() as usize - 1];
        if l > 0 {
            v
        } else {
            -v
        }
    }

    fn assign(&mut self, l: i32, reason: u32) {
        self.val[l.unsigned_abs() as usize - 1] = if l > 0 { 1 } else { -1 };
        self.reason[l.unsigned_abs() as usize - 1] = reason;
        self.trail.push(l);
    }

    /// Propagates from trail position `head`, false on conflict.
    fn propagate(&mut self, mut head: usize) -> bool {
        while head < self.trail.len() {
            let f = -self.trail[head];
            head += 1;
            let ws = std::mem::take(&mut self.watches[code(f)]);
            let mut keep = Vec::with_capacity(ws.len());
            let mut ok = true;
            let mut it = ws.iter();
            'next: while let Some(&ci) = it.next() {
                if !self.entries[ci as usize].live {
                    continue;
                }
                let mut c = std::mem::take(&mut self.entries[ci as usize].lits);
                if c[0] == f {
                    c.swap(0, 1);
                }
                if self.value(c[0]) != 1 {
                    for k in 2..c.len() {
                        if self.value(c[k]) != -1 {
                            c.swap(1, k);
                            self.watches[code(c[1])].push(ci);
                            self.entries[ci as usize].lits = c;
                            continue 'next;
                        }
                    }
                }
                let w0 = c[0];
                self.entries[ci as usize].lits = c;
                keep.push(ci);
                match self.value(w0) {
                    1 => (),
                    -1 => {
                        ok = false;
                        break;
                    }
                    _ => self.assign(w0, ci),
                }
            }
            keep.extend(it);
            self.watches[code(f)] = keep;
            if !ok {
                return false;
            }
        }
        true
    }

    fn undo(&mut self, len: usize) {
        while self.trail.len() > len {
            let l = self.trail.pop().unwrap();
            self.val[l.unsigned_abs() as usize - 1] = 0;
            self.reason[l.unsigned_abs() as usize - 1] = NO_REASON;
        }
    }

    /// Add a clause without checking.
    pub fn add(&mut self, clause: &[i32]) {
        let c = canon(clause);
        for &l in &c {
            self.ensure(l);
        }
        if let Some(&i) = self.index.get(&c) {
            self.entries[i as usize].copies += 1;
            return;
        }
        let i = self.entries.len() as u32;
        self.index.insert(c.clone(), i);
        if c.is_empty() {
            self.has_empty = true;
            self.conflict = true;
        }
        let taut = is_taut(&c);
        let mut lits = c;
        if !taut && !lits.is_empty() {
            // put non-false literals first
            lits.sort_by_key(|&l| match self.value(l) {
                1 => 0,
                0 => 1,
                _ => 2,
            });
        }
        let watched = !taut && lits.len() >= 2;
        if watched {
            self.watches[code(lits[0])].push(i);
            self.watches[code(lits[1])].push(i);
        }
        let unit = if !taut && !lits.is_empty() && (lits.len() == 1 || self.value(lits[1]) == -1) {
            Some(lits[0])
        } else {
            None
        };
        self.entries.push(Entry { lits, copies: 1, live: true });
        if let Some(l) = unit {
            if !self.conflict {
                match self.value(l) {
                    1 => (),
                    -1 => self.conflict = true,
                    _ => {
                        let head = self.trail.len();
                        self.assign(l, i);
                        if !self.propagate(head) {
                            self.conflict = true;
                        }
                    }
                }
            }
        }
    }

    pub fn contains(&self, clause: &[i32]) -> bool {
        self.index.contains_key(&canon(clause))
    }

    /// Delete one copy. False if not present.
    pub fn delete(&mut self, clause: &[i32]) -> bool {
        let c = canon(clause);
        let i = match self.index.get(&c) {
            Some(&i) => i,
            None => return false,
        };
        self.deleted += 1;
        let e = &mut self.entries[i as usize];
        e.copies -= 1;
        if e.copies > 0 {
            return true;
        }
        e.live = false;
        self.index.remove(&c);
        if c.is_empty() {
            self.has_empty = false;
        }
        let was_reason = c.iter().any(|&l| self.reason[l.unsigned_abs() as usize - 1] == i);
        if was_reason || self.conflict {
            self.rebuild();
        }
        true
    }

    /// Recompute the top level propagation from scratch.
    fn rebuild(&mut self) {
        self.undo(0);
        self.conflict = self.has_empty;
        for w in self.watches.iter_mut() {
            w.clear();
        }
        let mut units = vec![];
        for (i, e) in self.entries.iter().enumerate() {
            if !e.live || e.lits.is_empty() {
                continue;
            }
            let c = canon(&e.lits);
            if is_taut(&c) {
                continue;
            }
            if e.lits.len() == 1 {
                units.push((e.lits[0], i as u32));
            } else {
                self.watches[code(e.lits[0])].push(i as u32);
                self.watches[code(e.lits[1])].push(i as u32);
            }
        }
        if self.conflict {
            return;
        }
        for (l, i) in units {
            match self.value(l) {
                1 => (),
                -1 => {
                    self.conflict = true;
                    return;
                }
                _ => self.assign(l, i),
            }
        }
        if !self.propagate(0) {
            self.conflict = true;
        }
    }

    /// Is the clause implied by unit propagation?
    pub fn is_rup(&mut self, clause: &[i32]) -> bool {
        self.checked += 1;
        if self.conflict {
            return true;
        }
        let c = canon(clause);
        for &l in &c {
            self.ensure(l);
        }
        if is_taut(&c) {
            return true;
        }
        let len = self.trail.len();
        for &l in &c {
            match self.value(l) {
                1 => {
                    self.undo(len);
                    return true;
                }
                -1 => (),
                _ => self.assign(-l, NO_REASON),
            }
        }
        let ok = self.propagate(len);
        self.undo(len);
        !ok
    }
}

/// Strict propagation through a list of hints. The negation of `clause` is assumed, every hint
/// except the last must be unit, the last one must be falsified.
pub fn check_hints<'a>(
    clause: &[i32],
    hints: impl Iterator<Item = &'a [i32]>,
    val: &mut HashMap<i32, bool>,
) -> Result<(), String> {
    val.clear();
    for &l in clause {
        if val.insert(l.abs(), l < 0) == Some(l > 0) {
            return Ok(()); // tautology
        }
    }
    let mut conflict = false;
    for (n, h) in hints.enumerate() {
        if conflict {
            return Err(format!("hint {} follows the conflict", n));
        }
        let mut open = None;
        let mut count = 0;
        for &l in h {
            match val.get(&l.abs()) {
                Some(&v) if v == (l > 0) => return Err(format!("hint {} {:?} is satisfied", n, h)),
                Some(_) => (),
                None => {
                    if open != Some(l) {
                        count += 1;
                    }
                    open = Some(l);
                }
            }
        }
        match (count, open) {
            (0, _) => conflict = true,
            (1, Some(l)) => {
                val.insert(l.abs(), l > 0);
            }
            _ => return Err(format!("hint {} {:?} is not unit", n, h)),
        }
    }
    if conflict {
        Ok(())
    } else {
        Err("hints do not end in a conflict".into())
    }
}

/// Parsed DRAT step.
#[derive(Clone, Debug, PartialEq)]
pub struct DratStep {
    pub add: bool,
    pub lits: Vec<i32>,
}

pub fn parse_drat_text(data: &[u8]) -> Result<Vec<DratStep>, String> {
    let s = std::str::from_utf8(data).map_err(|e| e.to_string())?;
    if !s.is_empty() && !s.ends_with('\n') {
        return Err("last line is not terminated".into());
    }
    let mut out = vec![];
    for (n, line) in s.lines().enumerate() {
        let mut add = true;
        let mut toks = line.split(' ').peekable();
        if toks.peek() == Some(&"d") {
            add = false;
            toks.next();
        }
        let mut lits = vec![];
        let mut done = false;
        for t in toks {
            if done {
                return Err(format!("line {}: tokens after 0", n + 1));
            }
            let v: i32 = t.parse().map_err(|_| format!("line {}: bad token {:?}", n + 1, t))?;
            if v.to_string() != t {
                return Err(format!("line {}: odd number {:?}", n + 1, t));
            }
            if v == 0 {
                done = true;
            } else {
                lits.push(v);
            }
        }
        if !done {
            return Err(format!("line {}: missing 0", n + 1));
        }
        out.push(DratStep { add, lits });
    }
    Ok(out)
}

pub fn read_leb(data: &[u8], pos: &mut usize) -> Result<u64, String> {
    let mut r = 0u64;
    let mut shift = 0;
    loop {
        let b = *data.get(*pos).ok_or("truncated number")?;
        *pos += 1;
        if shift >= 63 {
            return Err("number too large".into());
        }
        r |= ((b & 0x7f) as u64) << shift;
        shift += 7;
        if b & 0x80 == 0 {
            return Ok(r);
        }
    }
}

pub fn bin_lit(x: u64) -> Result<i32, String> {
    if x < 2 || x > u32::MAX as u64 {
        return Err(format!("bad literal code {}", x));
    }
    let v = (x >> 1) as i32;
    Ok(if x & 1 == 1 { -v } else { v })
}

pub fn parse_drat_binary(data: &[u8]) -> Result<Vec<DratStep>, String> {
    let mut pos = 0;
    let mut out = vec![];
    while pos < data.len() {
        let add = match data[pos] {
            b'a' => true,
            b'd' => false,
            b => return Err(format!("bad step byte {:#x} at {}", b, pos)),
        };
        pos += 1;
        let mut lits = vec![];
        loop {
            let x = read_leb(data, &mut pos)?;
            if x == 0 {
                break;
            }
            lits.push(bin_lit(x)?);
        }
        out.push(DratStep { add, lits });
    }
    Ok(out)
}

/// Checks a DRAT proof restricted to RUP steps.
///
/// Deletion of a clause that is not present is an error. Returns (steps, proved unsat).
pub fn check_drat(formula: &[Vec<i32>], steps: &[DratStep]) -> Result<(usize, bool), String> {
    let mut rup = Rup::new();
    for c in formula {
        rup.add(c);
    }
    let mut empty_added = rup.has_empty;
    for (n, s) in steps.iter().enumerate() {
        if s.add {
            if !rup.is_rup(&s.lits) {
                return Err(format!("step {}: clause {:?} is not RUP", n, s.lits));
            }
            if s.lits.is_empty() {
                empty_added = true;
            }
            rup.add(&s.lits);
        } else if !rup.delete(&s.lits) {
            return Err(format!("step {}: deleted clause {:?} is not present", n, s.lits));
        }
    }
    Ok((steps.len(), empty_added || rup.conflict))
}

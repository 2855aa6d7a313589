//! LRAT and compressed LRAT parsing and strict checking.
use std::collections::HashMap;

use crate::rup::{bin_lit, check_hints, read_leb};

#[derive(Clone, Debug, PartialEq)]
pub enum LratStep {
    Add { id: u64, lits: Vec<i32>, hints: Vec<u64> },
    Delete(Vec<u64>),
}

pub fn parse_text(data: &[u8]) -> Result<Vec<LratStep>, String> {
    let text = std::str::from_utf8(data).map_err(|_| "not text")?;
    let mut out = vec![];
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("last line is not terminated".into());
    }
    for (n, line) in text.lines().enumerate() {
        let bad = |what: &str| format!("line {}: {}: {:?}", n + 1, what, line);
        let mut tok = line.split(' ').filter(|t| !t.is_empty());
        let id: u64 = tok.next().and_then(|t| t.parse().ok()).ok_or_else(|| bad("no id"))?;
        let rest: Vec<&str> = tok.collect();
        if rest.first() == Some(&"d") {
            let ids: Option<Vec<u64>> = rest[1..].iter().map(|t| t.parse().ok()).collect();
            let mut ids = ids.ok_or_else(|| bad("bad id"))?;
            if ids.pop() != Some(0) || ids.contains(&0) {
                return Err(bad("delete line is not terminated once"));
            }
            out.push(LratStep::Delete(ids));
        } else {
            let nums: Option<Vec<i64>> = rest.iter().map(|t| t.parse().ok()).collect();
            let nums = nums.ok_or_else(|| bad("bad number"))?;
            let z: Vec<usize> = nums.iter().enumerate().filter(|(_, &x)| x == 0).map(|(i, _)| i).collect();
            if z.len() != 2 || z[1] + 1 != nums.len() {
                return Err(bad("add line has a wrong shape"));
            }
            let lits = nums[..z[0]].iter().map(|&x| x as i32).collect();
            let mut hints = vec![];
            for &h in &nums[z[0] + 1..z[1]] {
                if h <= 0 {
                    return Err(bad("hint is not positive"));
                }
                hints.push(h as u64);
            }
            out.push(LratStep::Add { id, lits, hints });
        }
    }
    Ok(out)
}

fn bin_id(x: u64) -> Result<u64, String> {
    if x % 2 != 0 || x < 2 {
        return Err(format!("bad clause id encoding {}", x));
    }
    Ok(x / 2)
}

pub fn parse_binary(data: &[u8]) -> Result<Vec<LratStep>, String> {
    let mut pos = 0;
    let mut out = vec![];
    while pos < data.len() {
        let tag = data[pos];
        pos += 1;
        match tag {
            b'a' => {
                let id = bin_id(read_leb(data, &mut pos)?)?;
                let mut lits = vec![];
                loop {
                    let x = read_leb(data, &mut pos)?;
                    if x == 0 {
                        break;
                    }
                    lits.push(bin_lit(x)?);
                }
                let mut hints = vec![];
                loop {
                    let x = read_leb(data, &mut pos)?;
                    if x == 0 {
                        break;
                    }
                    hints.push(bin_id(x)?);
                }
                out.push(LratStep::Add { id, lits, hints });
            }
            b'd' => {
                let mut ids = vec![];
                loop {
                    let x = read_leb(data, &mut pos)?;
                    if x == 0 {
                        break;
                    }
                    ids.push(bin_id(x)?);
                }
                out.push(LratStep::Delete(ids));
            }
            t => return Err(format!("unknown step tag {:#x} at {}", t, pos - 1)),
        }
    }
    Ok(out)
}

pub struct LratStats {
    /// Clauses that were not deleted.
    pub live: HashMap<u64, Vec<i32>>,
    pub adds: u64,
    pub deletes: u64,
    pub hints: u64,
    pub empty: bool,
}

/// Strict check: every hint has to propagate, the last one has to be falsified.
pub fn check(formula: &[Vec<i32>], steps: &[LratStep]) -> Result<LratStats, String> {
    let mut db: HashMap<u64, Vec<i32>> = HashMap::new();
    for (i, c) in formula.iter().enumerate() {
        db.insert(i as u64 + 1, c.clone());
    }
    let mut last = formula.len() as u64;
    let mut st = LratStats { live: HashMap::new(), adds: 0, deletes: 0, hints: 0, empty: formula.iter().any(|c| c.is_empty()) };
    let mut val = HashMap::new();
    for (n, s) in steps.iter().enumerate() {
        match s {
            LratStep::Add { id, lits, hints } => {
                if *id <= last {
                    return Err(format!(
                        "step {}: id {} is not larger than all earlier ids (last {}, {} input clauses)",
                        n, id, last, formula.len()
                    ));
                }
                last = *id;
                let mut hs = vec![];
                for h in hints {
                    match db.get(h) {
                        Some(c) => hs.push(&c[..]),
                        None => return Err(format!("step {}: hint {} is not a live clause", n, h)),
                    }
                }
                check_hints(lits, hs.into_iter(), &mut val)
                    .map_err(|e| format!("step {}: clause {} {:?} hints {:?}: {}", n, id, lits, hints, e))?;
                st.adds += 1;
                st.hints += hints.len() as u64;
                if lits.is_empty() {
                    st.empty = true;
                }
                db.insert(*id, lits.clone());
            }
            LratStep::Delete(ids) => {
                for id in ids {
                    if db.remove(id).is_none() {
                        return Err(format!("step {}: deleted clause {} is not live", n, id));
                    }
                    st.deletes += 1;
                }
            }
        }
    }
    st.live = db;
    Ok(st)
}

/// Steps without grouping of deletions.
pub fn normalized(steps: &[LratStep]) -> Vec<LratStep> {
    let mut out: Vec<LratStep> = vec![];
    for s in steps {
        match (s, out.last_mut()) {
            (LratStep::Delete(ids), Some(LratStep::Delete(prev))) => prev.extend(ids),
            _ => out.push(s.clone()),
        }
    }
    for s in &mut out {
        if let LratStep::Delete(ids) = s {
            ids.sort();
        }
    }
    out.retain(|s| !matches!(s, LratStep::Delete(ids) if ids.is_empty()));
    out
}

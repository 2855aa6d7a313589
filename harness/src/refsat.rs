//! Reference decision procedures, independent of the code under test.
//!
//! Literals are non-zero integers, as in DIMACS.

pub type Clause = Vec<i32>;

/// Does the assignment (indexed by var - 1) satisfy the clause?
pub fn clause_true(clause: &[i32], assignment: &[bool]) -> bool {
    clause.iter().any(|&l| assignment[(l.abs() - 1) as usize] == (l > 0))
}

pub fn max_var(clauses: &[Clause]) -> usize {
    clauses.iter().flatten().map(|l| l.abs() as usize).max().unwrap_or(0)
}

/// Iterative DPLL with full propagation by watched literals, returns a model or None.
///
/// `limit` bounds the number of decisions. Err(()) when exceeded.
pub fn solve_limited(
    clauses: &[Clause],
    nvars: usize,
    assumptions: &[i32],
    limit: u64,
) -> Result<Option<Vec<bool>>, ()> {
    let mut d = Dpll::new(nvars);
    for c in clauses {
        if !d.add(c) {
            return Ok(None);
        }
    }
    d.run(assumptions, limit)
}

/// As above without limit.
pub fn solve(clauses: &[Clause], nvars: usize, assumptions: &[i32]) -> Option<Vec<bool>> {
    solve_limited(clauses, nvars, assumptions, u64::MAX).unwrap()
}

pub fn is_sat(clauses: &[Clause], assumptions: &[i32]) -> bool {
    let n = max_var(clauses).max(assumptions.iter().map(|l| l.abs() as usize).max().unwrap_or(0));
    solve(clauses, n, assumptions).is_some()
}

struct Dpll {
    n: usize,
    /// 0 unassigned, 1 true, -1 false
    val: Vec<i8>,
    clauses: Vec<Vec<i32>>,
    watches: Vec<Vec<u32>>,
    trail: Vec<i32>,
    units: Vec<i32>,
    occ: Vec<u32>,
}

fn code(l: i32) -> usize {
    ((l.unsigned_abs() as usize - 1) << 1) | (l < 0) as usize
}

impl Dpll {
    fn new(n: usize) -> Dpll {
        Dpll {
            n,
            val: vec![0; n],
            clauses: vec![],
            watches: vec![vec![]; 2 * n],
            trail: vec![],
            units: vec![],
            occ: vec![0; n],
        }
    }

    /// False if the clause is empty.
    fn add(&mut self, c: &[i32]) -> bool {
        let mut c = c.to_vec();
        c.sort_by_key(|l| (l.abs(), *l));
        c.dedup();
        if c.windows(2).any(|w| w[0] == -w[1]) {
            return true;
        }
        match c.len() {
            0 => return false,
            1 => self.units.push(c[0]),
            _ => {
                let i = self.clauses.len() as u32;
                for &l in &c {
                    self.occ[l.unsigned_abs() as usize - 1] += 1;
                }
                self.watches[code(c[0])].push(i);
                self.watches[code(c[1])].push(i);
                self.clauses.push(c);
            }
        }
        true
    }

    fn value(&self, l: i32) -> i8 {
        let v = self.val[l.unsigned_abs() as usize - 1];
        if l > 0 {
            v
        } else {
            -v
        }
    }

    fn assign(&mut self, l: i32) -> bool {
        match self.value(l) {
            1 => true,
            -1 => false,
            _ => {
                self.val[l.unsigned_abs() as usize - 1] = if l > 0 { 1 } else { -1 };
                self.trail.push(l);
                true
            }
        }
    }

    fn propagate(&mut self, mut head: usize) -> bool {
        while head < self.trail.len() {
            let f = -self.trail[head];
            head += 1;
            let ws = std::mem::take(&mut self.watches[code(f)]);
            let mut keep = Vec::with_capacity(ws.len());
            let mut ok = true;
            let mut it = ws.iter();
            while let Some(&ci) = it.next() {
                let c = &mut self.clauses[ci as usize];
                if c[0] == f {
                    c.swap(0, 1);
                }
                let w0 = c[0];
                let mut moved = false;
                let v0 = {
                    let v = self.val[w0.unsigned_abs() as usize - 1];
                    if w0 > 0 {
                        v
                    } else {
                        -v
                    }
                };
                if v0 != 1 {
                    for k in 2..c.len() {
                        let l = c[k];
                        let v = self.val[l.unsigned_abs() as usize - 1];
                        let v = if l > 0 { v } else { -v };
                        if v != -1 {
                            c.swap(1, k);
                            self.watches[code(l)].push(ci);
                            moved = true;
                            break;
                        }
                    }
                }
                if moved {
                    continue;
                }
                keep.push(ci);
                if v0 == 1 {
                    continue;
                }
                if !self.assign(w0) {
                    ok = false;
                    break;
                }
            }
            keep.extend(it);
            self.watches[code(f)] = keep;
            if !ok {
                return false;
            }
        }
        true
    }

    fn undo(&mut self, len: usize) {
        while self.trail.len() > len {
            let l = self.trail.pop().unwrap();
            self.val[l.unsigned_abs() as usize - 1] = 0;
        }
    }

    fn run(&mut self, assumptions: &[i32], limit: u64) -> Result<Option<Vec<bool>>, ()> {
        let units = self.units.clone();
        for l in units {
            if !self.assign(l) {
                return Ok(None);
            }
        }
        for &l in assumptions {
            if !self.assign(l) {
                return Ok(None);
            }
        }
        if !self.propagate(0) {
            return Ok(None);
        }
        let mut order: Vec<usize> = (0..self.n).collect();
        order.sort_by_key(|&v| std::cmp::Reverse(self.occ[v]));
        // (trail length before the decision, decision literal, flipped)
        let mut stack: Vec<(usize, i32, bool)> = vec![];
        let mut decisions = 0u64;
        loop {
            // prefer a variable from a clause that is not satisfied and shortest
            let mut pick = 0i32;
            let mut best = usize::MAX;
            for c in &self.clauses {
                let mut open = 0;
                let mut first: i32 = 0;
                let mut sat = false;
                for &l in c {
                    match self.value(l) {
                        1 => {
                            sat = true;
                            break;
                        }
                        0 => {
                            open += 1;
                            if first == 0
                                || self.occ[l.unsigned_abs() as usize - 1]
                                    > self.occ[first.unsigned_abs() as usize - 1]
                            {
                                first = l;
                            }
                        }
                        _ => (),
                    }
                }
                if !sat && open < best {
                    best = open;
                    pick = first;
                    if open == 2 {
                        break;
                    }
                }
            }
            if pick == 0 {
                let model = self.val.iter().map(|&v| v == 1).collect();
                return Ok(Some(model));
            }
            decisions += 1;
            if decisions > limit {
                return Err(());
            }
            stack.push((self.trail.len(), pick, false));
            let head = self.trail.len();
            self.assign(pick);
            let mut ok = self.propagate(head);
            while !ok {
                match stack.pop() {
                    None => return Ok(None),
                    Some((len, lit, flipped)) => {
                        self.undo(len);
                        if !flipped {
                            stack.push((len, -lit, true));
                            self.assign(-lit);
                            ok = self.propagate(len);
                        }
                    }
                }
            }
        }
    }
}

/// All models over variables 1..=n as bit masks, by exhaustive evaluation (n <= 20).
pub fn all_models(clauses: &[Clause], n: usize) -> Vec<u32> {
    assert!(n <= 20);
    let masks: Vec<(u32, u32)> = clauses
        .iter()
        .map(|c| {
            let mut p = 0u32;
            let mut q = 0u32;
            for &l in c {
                if l > 0 {
                    p |= 1 << (l - 1)
                } else {
                    q |= 1 << (-l - 1)
                }
            }
            (p, q)
        })
        .collect();
    (0u32..(1u32 << n))
        .filter(|&a| masks.iter().all(|&(p, q)| (a & p) != 0 || (!a & q) != 0))
        .collect()
}

/// Cross validation of the two reference procedures, run at start-up of every check.
pub fn self_test() {
    let mut rng = crate::rng::Rng::new(42);
    for _ in 0..300 {
        let n = rng.range(1, 8);
        let m = rng.range(0, 5 * n);
        let clauses: Vec<Clause> = (0..m)
            .map(|_| {
                let lo = if rng.chance(1, 20) { 0 } else { 1 };
                let k = rng.range(lo, 4);
                (0..k)
                    .map(|_| {
                        let v = rng.range(1, n) as i32;
                        if rng.coin() {
                            v
                        } else {
                            -v
                        }
                    })
                    .collect()
            })
            .collect();
        let models = all_models(&clauses, n);
        let r = solve(&clauses, n, &[]);
        assert_eq!(r.is_some(), !models.is_empty(), "reference self test");
        if let Some(m) = r {
            assert!(clauses.iter().all(|c| clause_true(c, &m)));
        }
        let a: Vec<i32> =
            {
                let mut a = vec![];
                for v in 1..=n as i32 {
                    if rng.chance(1, 3) {
                        a.push(if rng.coin() { v } else { -v });
                    }
                }
                a
            };
        let e = models.iter().any(|&m| a.iter().all(|&l| ((m >> (l.abs() - 1)) & 1 == 1) == (l > 0)));
        assert_eq!(solve(&clauses, n, &a).is_some(), e, "reference self test (assumptions)");
    }
}

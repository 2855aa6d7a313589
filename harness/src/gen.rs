//! Formula and configuration generators.
use crate::refsat::Clause;
use crate::rng::Rng;
use varisat::config::SolverConfigUpdate;

#[derive(Clone, Debug)]
pub struct Formula {
    pub kind: &'static str,
    pub clauses: Vec<Clause>,
    /// Verdict known by construction.
    pub known: Option<bool>,
}

pub fn lit(rng: &mut Rng, n: usize) -> i32 {
    let v = rng.range(1, n) as i32;
    if rng.coin() {
        v
    } else {
        -v
    }
}

/// A clause with k literals over distinct variables.
pub fn distinct_clause(rng: &mut Rng, n: usize, k: usize) -> Clause {
    let k = k.min(n);
    let mut c: Clause = vec![];
    while c.len() < k {
        let l = lit(rng, n);
        if !c.contains(&l) && !c.contains(&-l) {
            c.push(l);
        }
    }
    c
}

/// Random k-SAT with distinct variables per clause.
pub fn ksat(rng: &mut Rng, n: usize, m: usize, k: usize) -> Vec<Clause> {
    (0..m).map(|_| distinct_clause(rng, n, k)).collect()
}

/// Messy clauses: repeated literals, tautologies, empties, units.
pub fn messy(rng: &mut Rng, n: usize, m: usize, maxlen: usize) -> Vec<Clause> {
    let empties = rng.chance(1, 12);
    let mut out: Vec<Clause> = vec![];
    for _ in 0..m {
        if !out.is_empty() && rng.chance(1, 8) {
            // duplicate (possibly permuted) of an earlier clause
            let mut c = rng.pick(&out).clone();
            rng.shuffle(&mut c);
            out.push(c);
            continue;
        }
        let k = if empties && rng.chance(1, 15) {
            0
        } else {
            let r = rng.below(20);
            match r {
                0 | 1 => 1,
                2..=7 => 2,
                8..=14 => 3,
                _ => rng.range(1, maxlen.max(1)),
            }
        };
        let mut c: Clause = (0..k).map(|_| lit(rng, n)).collect();
        if !c.is_empty() && rng.chance(1, 10) {
            let l = *rng.pick(&c);
            c.push(if rng.chance(1, 3) { -l } else { l });
        }
        out.push(c);
    }
    out
}

pub fn pigeonhole(holes: usize) -> Vec<Clause> {
    let p = holes + 1;
    let v = |i: usize, h: usize| (i * holes + h + 1) as i32;
    let mut out = vec![];
    for i in 0..p {
        out.push((0..holes).map(|h| v(i, h)).collect());
    }
    for h in 0..holes {
        for i in 0..p {
            for j in 0..i {
                out.push(vec![-v(i, h), -v(j, h)]);
            }
        }
    }
    out
}

/// x_a ^ x_b ^ ... = rhs as clauses.
pub fn xor(vars: &[i32], rhs: bool, out: &mut Vec<Clause>) {
    for mask in 0u32..1 << vars.len() {
        if ((mask.count_ones() & 1) == 1) != rhs {
            // forbid this assignment
            out.push(
                vars.iter().enumerate().map(|(i, &v)| if mask >> i & 1 == 1 { -v } else { v }).collect(),
            );
        }
    }
}

/// Parity constraints on a random graph (Tseitin-like), satisfiable or not.
pub fn parity(rng: &mut Rng, n: usize, m: usize) -> Vec<Clause> {
    let mut out = vec![];
    for _ in 0..m {
        let k = rng.range(2, 3.min(n).max(2));
        let mut vs: Vec<i32> = vec![];
        while vs.len() < k.min(n) {
            let v = rng.range(1, n) as i32;
            if !vs.contains(&v) {
                vs.push(v);
            }
        }
        let rhs = rng.coin();
        xor(&vs, rhs, &mut out);
    }
    out
}

/// The sgen-style unsatisfiable family: blocks of 5 variables with cardinality conflicts.
pub fn sgen(rng: &mut Rng, blocks: usize) -> Vec<Clause> {
    let n = blocks * 4 + 1;
    let mut vars: Vec<i32> = (1..=n as i32).collect();
    let mut out = vec![];
    for round in 0..3 {
        rng.shuffle(&mut vars);
        let sign = if round == 0 { -1 } else { 1 };
        let mut i = 0;
        while i < n {
            let size = if n - i == 5 { 5 } else { 4.min(n - i) };
            let b: Vec<i32> = vars[i..i + size].to_vec();
            // at most 1 true in rounds 1, 2 (of negated / of positive): all triples
            for x in 0..size {
                for y in 0..x {
                    for z in 0..y {
                        out.push(vec![sign * b[x], sign * b[y], sign * b[z]]);
                    }
                }
            }
            i += size;
        }
    }
    out
}

/// Graph colouring of a random graph.
pub fn coloring(rng: &mut Rng, nodes: usize, edges: usize, colors: usize) -> Vec<Clause> {
    let v = |i: usize, c: usize| (i * colors + c + 1) as i32;
    let mut out = vec![];
    for i in 0..nodes {
        out.push((0..colors).map(|c| v(i, c)).collect());
    }
    for _ in 0..edges {
        let a = rng.below(nodes);
        let b = rng.below(nodes);
        if a != b {
            for c in 0..colors {
                out.push(vec![-v(a, c), -v(b, c)]);
            }
        }
    }
    out
}

/// Long implication chains (binary clauses) with a few long clauses.
pub fn chains(rng: &mut Rng, n: usize, m: usize) -> Vec<Clause> {
    let mut out = vec![];
    for _ in 0..m {
        match rng.below(10) {
            0 => {
                let k = rng.range(3, 6);
                out.push(distinct_clause(rng, n, k))
            }
            1 if rng.chance(1, 4) => out.push(vec![lit(rng, n)]),
            _ => out.push(distinct_clause(rng, n, 2)),
        }
    }
    out
}

/// Layers of literals, each implied by the layers before it over many paths, and pairs of clauses
/// that make deep literals fail together with earlier ones. Returns the clauses, the roots and the
/// literals that trigger the failures. Satisfiable.
pub fn layers(rng: &mut Rng, depth: usize, queries: usize) -> (Vec<Clause>, Vec<i32>, Vec<i32>) {
    let width = rng.range(2, 3);
    let roots: Vec<i32> = (1..=rng.range(1, 2) as i32).collect();
    let mut next = roots.len() as i32 + 1;
    let mut all = vec![roots.clone()];
    let mut out = vec![];
    for _ in 0..depth {
        let prev = all.last().unwrap().clone();
        let mut layer = vec![];
        for _ in 0..width {
            let mut c = vec![next];
            for _ in 0..rng.range(1, 2) {
                c.push(-*rng.pick(&prev));
            }
            if rng.chance(1, 12) {
                let l: &Vec<i32> = rng.pick(&all);
                c.push(-*rng.pick(l));
            }
            c.sort_unstable();
            c.dedup();
            out.push(c);
            layer.push(next);
            next += 1;
        }
        // one literal that joins all paths
        if rng.chance(2, 3) {
            let mut c: Clause = layer.iter().map(|l| -l).collect();
            c.push(next);
            out.push(c);
            layer = vec![next];
            next += 1;
        }
        all.push(layer);
    }
    let mut triggers = vec![];
    for _ in 0..queries {
        let z = next;
        let p = next + 1;
        next += 2;
        triggers.push(z);
        let mut c = vec![-z];
        for _ in 0..rng.range(1, 2) {
            let i = if rng.coin() { all.len() - 1 } else { rng.below(all.len()) };
            c.push(-*rng.pick(&all[i]));
        }
        let i = if rng.coin() { 0 } else { rng.below(all.len()) };
        c.push(-*rng.pick(&all[i]));
        let mut d = c.clone();
        c.push(p);
        d.push(-p);
        out.push(c);
        out.push(d);
    }
    (out, roots, triggers)
}

/// Adds many literals to one of the clauses, each of which implies a literal of it.
pub fn widen(rng: &mut Rng, clauses: &mut Vec<Clause>) {
    let candidates: Vec<usize> = (0..clauses.len()).filter(|&i| !clauses[i].is_empty()).collect();
    if candidates.is_empty() {
        return;
    }
    let at = *rng.pick(&candidates);
    let base = clauses[at].clone();
    let first = crate::refsat::max_var(clauses) as i32 + 1;
    let count = if rng.chance(1, 100) {
        *rng.pick(&[1023, 1024, 4096, 8191, 8192, 16384])
    } else {
        *rng.pick(&[10, 30, 31, 32, 60, 61, 62, 63, 64, 65, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257])
    };
    let mut extra = vec![];
    for w in first..first + count {
        let w = if rng.coin() { w } else { -w };
        clauses[at].push(w);
        extra.push(vec![-w, *rng.pick(&base)]);
    }
    rng.shuffle(&mut clauses[at]);
    if rng.coin() {
        clauses.extend(extra);
    } else {
        extra.extend(clauses.drain(..));
        *clauses = extra;
    }
}

/// Repeats a clause many times.
pub fn repeat(rng: &mut Rng, clauses: &mut Vec<Clause>) {
    if clauses.is_empty() {
        return;
    }
    let c = rng.pick(clauses).clone();
    let count = if rng.chance(1, 60) { 65_540 } else { rng.range(250, 270) };
    if rng.coin() {
        let at = rng.below(clauses.len() + 1);
        clauses.splice(at..at, std::iter::repeat(c).take(count));
    } else {
        for _ in 0..count {
            let mut c = c.clone();
            rng.shuffle(&mut c);
            clauses.push(c);
        }
    }
}

/// Rename variables by a random permutation and flip polarities.
pub fn scramble(rng: &mut Rng, clauses: &mut Vec<Clause>) {
    let n = crate::refsat::max_var(clauses);
    let mut perm: Vec<i32> = (1..=n as i32).collect();
    rng.shuffle(&mut perm);
    for p in perm.iter_mut() {
        if rng.coin() {
            *p = -*p;
        }
    }
    for c in clauses.iter_mut() {
        for l in c.iter_mut() {
            let m = perm[(l.abs() - 1) as usize];
            *l = if *l > 0 { m } else { -m };
        }
        rng.shuffle(c);
    }
    rng.shuffle(clauses);
}

/// Numbers around which encodings of variables, literals and ids change their length.
pub const EDGES: &[i32] = &[31, 63, 64, 127, 128, 255, 256, 4095, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536];

/// A name for each of n variables, some close to powers of two.
pub fn edge_names(rng: &mut Rng, n: usize, most: usize) -> Vec<i32> {
    let edges = if rng.chance(3, 4) { &EDGES[..most.min(12)] } else { &EDGES[..most] };
    let mut used = std::collections::BTreeSet::new();
    (0..n)
        .map(|_| loop {
            let v = match rng.below(4) {
                0 => rng.range(1, 2 * n) as i32,
                _ => *rng.pick(edges) + rng.range(0, 4) as i32 - 2,
            };
            if used.len() > edges.len() || rng.chance(1, 50) {
                let v = rng.range(1, 4 * n + 8) as i32;
                if used.insert(v) {
                    break v;
                }
            } else if used.insert(v) {
                break v;
            }
        })
        .collect()
}

/// Spread variables over a larger index range (gaps).
pub fn spread(rng: &mut Rng, clauses: &mut [Clause]) {
    if rng.chance(1, 4) {
        let n = crate::refsat::max_var(clauses);
        let names = edge_names(rng, n, EDGES.len());
        for l in clauses.iter_mut().flatten() {
            *l = names[l.unsigned_abs() as usize - 1] * l.signum();
        }
        return;
    }
    let step = rng.range(1, 7) as i32;
    let off = rng.range(0, 30) as i32;
    for l in clauses.iter_mut().flatten() {
        let v = (l.abs() - 1) * step + 1 + off;
        *l = v * l.signum();
    }
}

/// A small formula without very many literals, for checks that solve it again and again.
pub fn small_cheap(rng: &mut Rng) -> Formula {
    loop {
        let f = small(rng);
        if f.clauses.iter().map(|c| c.len() + 1).sum::<usize>() < 2500 && crate::refsat::max_var(&f.clauses) < 2500 {
            return f;
        }
    }
}

/// A small formula (fit for the reference procedure).
pub fn small(rng: &mut Rng) -> Formula {
    let kind;
    let mut known = None;
    let mut clauses = match rng.below(15) {
        0..=2 => {
            kind = "messy";
            let n = rng.range(1, 10);
            let m = rng.range(0, 5 * n);
            let ml = rng.range(1, 7);
            messy(rng, n, m, ml)
        }
        3..=5 => {
            kind = "3sat-threshold";
            let n = rng.range(5, 32);
            let m = (n as f64 * (3.4 + 1.8 * rng.f64())) as usize;
            ksat(rng, n, m, 3)
        }
        6 => {
            kind = "ksat";
            let k = rng.range(4, 6);
            let n = rng.range(k, 12);
            let ratio = [0.0, 0.0, 0.0, 0.0, 9.9, 21.1, 43.0][k];
            let m = (n as f64 * ratio * (0.6 + 0.6 * rng.f64())) as usize;
            ksat(rng, n, m, k)
        }
        7 => {
            kind = "mixed-width";
            let n = rng.range(5, 24);
            let m = rng.range(n, 5 * n);
            (0..m)
                .map(|_| {
                    let k = *rng.pick(&[2, 2, 3, 3, 3, 4, 5, 8]);
                    distinct_clause(rng, n, k)
                })
                .collect()
        }
        8 => {
            kind = "pigeonhole";
            let h = rng.range(1, 6);
            known = Some(false);
            let mut c = pigeonhole(h);
            if rng.chance(1, 3) {
                known = None;
                let i = rng.below(c.len());
                c.remove(i);
                if rng.coin() {
                    known = Some(true);
                }
                // removing any one clause makes PHP satisfiable
                known = known.or(Some(true));
            }
            c
        }
        9 | 10 => {
            kind = "parity";
            let n = rng.range(3, 26);
            let m = rng.range(n / 2, n + 3);
            parity(rng, n, m)
        }
        11 => {
            kind = "sgen";
            let b = rng.range(1, 6);
            sgen(rng, b)
        }
        13 => {
            kind = "layers";
            known = Some(true);
            let depth = rng.range(2, 30);
            let queries = rng.range(1, 5);
            let (mut c, roots, triggers) = layers(rng, depth, queries);
            if rng.chance(1, 3) {
                known = None;
                for l in roots.iter().chain(triggers.iter()) {
                    if rng.chance(2, 3) {
                        c.push(vec![*l]);
                    }
                }
            }
            c
        }
        12 => {
            kind = "coloring";
            let nodes = rng.range(3, 14);
            let e = rng.range(nodes, nodes * 3);
            let k = rng.range(2, 4);
            coloring(rng, nodes, e, k)
        }
        _ => {
            kind = "chains";
            let n = rng.range(4, 40);
            let m = rng.range(n / 2, 3 * n);
            chains(rng, n, m)
        }
    };
    if kind != "messy" {
        scramble(rng, &mut clauses);
        if rng.chance(1, 5) {
            known = None;
            // mix: extra units / duplicates / tautologies
            let n = crate::refsat::max_var(&clauses).max(1);
            for _ in 0..rng.range(1, 4) {
                let c = match rng.below(5) {
                    0 => vec![lit(rng, n)],
                    1 => {
                        let l = lit(rng, n);
                        vec![l, lit(rng, n), -l]
                    }
                    2 => {
                        let l = lit(rng, n);
                        vec![l, l]
                    }
                    3 => rng.pick(&clauses).clone(),
                    _ => {
                        let mut c = rng.pick(&clauses).clone();
                        c.push(lit(rng, n));
                        c
                    }
                };
                let at = rng.below(clauses.len() + 1);
                clauses.insert(at, c);
            }
        }
    }
    if rng.chance(1, 60) {
        widen(rng, &mut clauses);
    }
    if rng.chance(1, 150) {
        repeat(rng, &mut clauses);
    }
    if rng.chance(1, 10) {
        spread(rng, &mut clauses);
    }
    Formula { kind, clauses, known }
}

/// Larger instances that need hundreds to thousands of conflicts.
pub fn hard(rng: &mut Rng, scale: usize) -> Formula {
    let kind;
    let mut known = None;
    let mut clauses = match rng.below(13) {
        11 | 12 => {
            // many independent parts: conflicts happen below hundreds of decision levels
            kind = "hard-modular";
            let parts = rng.range(8, 30 + 15 * scale);
            let mut out = vec![];
            let mut first = 0;
            for _ in 0..parts {
                let n = rng.range(12, 40);
                let m = (n as f64 * (4.0 + 0.5 * rng.f64())) as usize;
                let model: Vec<bool> = (0..=n).map(|_| rng.coin()).collect();
                let mut count = 0;
                while count < m {
                    let c = distinct_clause(rng, n, 3);
                    if c.iter().any(|&l| model[l.unsigned_abs() as usize] == (l > 0)) {
                        out.push(c.iter().map(|&l| l + first * l.signum()).collect());
                        count += 1;
                    }
                }
                first += n as i32;
            }
            if rng.chance(1, 3) {
                // one unsatisfiable part
                let n = rng.range(15, 40);
                for c in ksat(rng, n, n * 11 / 2, 3) {
                    out.push(c.iter().map(|&l| l + first * l.signum()).collect());
                }
            } else {
                known = Some(true);
            }
            out
        }
        9 | 10 => {
            // satisfiable by construction, near the threshold
            kind = "hard-planted";
            known = Some(true);
            let k = rng.range(3, 5);
            let n = [0, 0, 0, 80, 45, 30][k] + rng.below([0, 0, 0, 50, 20, 12][k] + 6 * scale);
            let m = (n as f64 * [0.0, 0.0, 0.0, 4.2, 9.5, 20.0][k] * (0.9 + 0.15 * rng.f64())) as usize;
            let model: Vec<bool> = (0..=n).map(|_| rng.coin()).collect();
            let mut out = vec![];
            while out.len() < m {
                let c = distinct_clause(rng, n, k);
                let good = c.iter().filter(|&&l| model[l.unsigned_abs() as usize] == (l > 0)).count();
                // prefer few true literals so that the model is not easy to guess
                if good == 1 || (good > 1 && rng.chance(1, 2)) {
                    out.push(c);
                }
            }
            out
        }
        0..=3 => {
            kind = "hard-3sat";
            let n = rng.range(60 + 10 * scale, 100 + 25 * scale);
            let m = (n as f64 * (4.1 + 0.4 * rng.f64())) as usize;
            ksat(rng, n, m, 3)
        }
        4 => {
            kind = "hard-5sat";
            let n = rng.range(24 + 3 * scale, 36 + 4 * scale);
            let m = (n as f64 * (19.0 + 4.0 * rng.f64())) as usize;
            ksat(rng, n, m, 5)
        }
        5 => {
            kind = "hard-parity";
            let n = rng.range(30, 50 + 10 * scale);
            let m = n - rng.below(4) + 2;
            let mut out = vec![];
            for _ in 0..m {
                let mut vs: Vec<i32> = vec![];
                while vs.len() < 3 {
                    let v = rng.range(1, n) as i32;
                    if !vs.contains(&v) {
                        vs.push(v);
                    }
                }
                let rhs = rng.coin();
                xor(&vs, rhs, &mut out);
            }
            out
        }
        6 => {
            kind = "hard-pigeonhole";
            known = Some(false);
            let h = rng.range(6, 7 + scale / 2);
            pigeonhole(h)
        }
        7 => {
            kind = "hard-sgen";
            let b = rng.range(6, 9 + scale);
            sgen(rng, b)
        }
        _ => {
            kind = "hard-mixed-width";
            let n = rng.range(60, 90 + 10 * scale);
            let m = (n as f64 * 4.6) as usize;
            (0..m)
                .map(|_| {
                    let k = *rng.pick(&[2, 3, 3, 3, 3, 4, 4, 6, 12]);
                    distinct_clause(rng, n, k)
                })
                .collect()
        }
    };
    scramble(rng, &mut clauses);
    Formula { kind, clauses, known }
}

/// A plain description of a configuration, so that cases can be printed and shrunk.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cfg {
    pub vsids_decay: Option<f32>,
    pub clause_activity_decay: Option<f32>,
    pub reduce_locals_interval: Option<u64>,
    pub reduce_mids_interval: Option<u64>,
    pub luby_restart_interval_scale: Option<u64>,
}

impl Cfg {
    pub fn update(&self) -> SolverConfigUpdate {
        let mut u = SolverConfigUpdate::new();
        u.vsids_decay = self.vsids_decay;
        u.clause_activity_decay = self.clause_activity_decay;
        u.reduce_locals_interval = self.reduce_locals_interval;
        u.reduce_mids_interval = self.reduce_mids_interval;
        u.luby_restart_interval_scale = self.luby_restart_interval_scale;
        u
    }
}

/// A random valid configuration, biased to the extremes of the documented ranges.
pub fn config(rng: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    if rng.chance(1, 8) {
        return c;
    }
    if rng.chance(2, 3) {
        c.vsids_decay =
            Some(*rng.pick(&[0.5f32, 0.5, 0.51, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 0.9999999, 0.99999994]));
    }
    if rng.chance(2, 3) {
        c.clause_activity_decay =
            Some(*rng.pick(&[0.5f32, 0.5, 0.55, 0.7, 0.9, 0.99, 0.999, 0.9999999, 0.99999994]));
    }
    if rng.chance(4, 5) {
        c.reduce_locals_interval =
            Some(*rng.pick(&[1u64, 1, 2, 3, 5, 7, 10, 16, 25, 50, 100, 150, 1000, 15000, u64::MAX]));
    }
    if rng.chance(4, 5) {
        c.reduce_mids_interval =
            Some(*rng.pick(&[1u64, 1, 2, 3, 5, 7, 10, 16, 25, 50, 100, 1000, 10000, u64::MAX]));
    }
    if rng.chance(3, 4) {
        c.luby_restart_interval_scale = Some(*rng.pick(&[1u64, 1, 2, 3, 5, 10, 32, 128, 1024, i64::MAX as u64, u64::MAX]));
    }
    c
}

/// Aggressive settings that exercise reduction and garbage collection even on short runs.
pub fn aggressive(rng: &mut Rng) -> Cfg {
    Cfg {
        vsids_decay: Some(*rng.pick(&[0.5f32, 0.6, 0.75, 0.9, 0.95])),
        clause_activity_decay: Some(*rng.pick(&[0.5f32, 0.6, 0.8, 0.95, 0.999])),
        reduce_locals_interval: Some(rng.range(1, 60) as u64),
        reduce_mids_interval: Some(rng.range(1, 60) as u64),
        luby_restart_interval_scale: Some(rng.range(1, 20) as u64),
    }
}

/// A satisfiable formula with a known model (index 0 unused).
pub fn planted(rng: &mut Rng) -> (Vec<Clause>, Vec<bool>) {
    let n = rng.range(20, 400);
    let dens = 3.0 + 1.5 * rng.f64();
    let m = (n as f64 * dens) as usize;
    let model: Vec<bool> = (0..=n).map(|_| rng.coin()).collect();
    let mut out = vec![];
    while out.len() < m {
        let k = *rng.pick(&[2, 3, 3, 3, 3, 4, 5]);
        let c = distinct_clause(rng, n, k);
        if c.iter().any(|&l| model[l.unsigned_abs() as usize] == (l > 0)) {
            out.push(c);
        }
    }
    (out, model)
}

/// Large but easy instances that grow the clause storage.
pub fn large(rng: &mut Rng) -> Formula {
    let n = rng.range(2_000, 20_000);
    let model: Vec<bool> = (0..=n).map(|_| rng.coin()).collect();
    let m = n * 3;
    let mut clauses = vec![];
    while clauses.len() < m {
        let k = *rng.pick(&[2, 3, 3, 4, 5, 20]);
        let c = distinct_clause(rng, n, k);
        if c.iter().any(|&l| model[l.unsigned_abs() as usize] == (l > 0)) {
            clauses.push(c);
        }
    }
    let mut known = Some(true);
    if rng.coin() {
        // an unsatisfiable part over few of the variables
        known = Some(false);
        let h = rng.range(2, 5);
        let mut p = pigeonhole(h);
        let off = rng.range(0, n - 40) as i32;
        for l in p.iter_mut().flatten() {
            *l += off * l.signum();
        }
        for c in p {
            let at = rng.below(clauses.len() + 1);
            clauses.insert(at, c);
        }
    }
    Formula { kind: "large", clauses, known }
}

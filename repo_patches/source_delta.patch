From 2bc3c02632aa908cc83624d26aeac9bba36ea1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 01/20] fix: release implied assumption variables when the
 assumptions change

Assumptions implied by other assumptions are dropped from the list of active assumptions, so
set_assumptions never cleared their assumed flag and hiding or changing the sampling mode of
such a variable panicked for the rest of the solver's life.
---
 varisat/src/assumptions.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index c21d8cb..db50704 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -17,6 +17,8 @@ use crate::{
 #[derive(Default)]
 pub struct Assumptions {
     assumptions: Vec<Lit>,
+    /// Assumptions that were removed from `assumptions` as they are implied by the others.
+    implied_assumptions: Vec<Lit>,
     failed_core: Vec<Lit>,
     user_failed_core: Vec<Lit>,
     assumption_levels: usize,
@@ -89,13 +91,19 @@ pub fn set_assumptions<'a>(
 
     let (assumptions, mut ctx_2) = ctx.split_part_mut(AssumptionsP);
 
-    for lit in assumptions.assumptions.iter() {
+    for lit in assumptions
+        .assumptions
+        .iter()
+        .chain(assumptions.implied_assumptions.iter())
+    {
         ctx_2
             .part_mut(VariablesP)
             .var_data_solver_mut(lit.var())
             .assumed = false;
     }
 
+    assumptions.implied_assumptions.clear();
+
     variables::solver_from_user_lits(
         ctx_2.borrow(),
         &mut assumptions.assumptions,
@@ -151,7 +159,8 @@ pub fn enqueue_assumption<'a>(
                 // The next assumption is already implied by other assumptions so we can remove it.
                 let level = ctx.part(TrailP).current_level();
                 let assumptions = ctx.part_mut(AssumptionsP);
-                assumptions.assumptions.swap_remove(level);
+                let implied = assumptions.assumptions.swap_remove(level);
+                assumptions.implied_assumptions.push(implied);
             }
             None => {
                 ctx.part_mut(TrailP).new_decision_level();
-- 
2.43.0


From 4c70b91169fe45564e0f691762f0abac797d42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 02/20] fix: report models with variables added after solving

Solver::model() indexed the stored assignment with the global variable of every user variable, so
it panicked when a variable was introduced after the model was found, and omitted variables that
reused a previously deleted global variable.
---
 varisat/src/solver.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/varisat/src/solver.rs b/varisat/src/solver.rs
index b46bcf8..70633e6 100644
--- a/varisat/src/solver.rs
+++ b/varisat/src/solver.rs
@@ -190,14 +190,21 @@ impl<'a> Solver<'a> {
             Some(
                 ctx.part(VariablesP)
                     .user_var_iter()
-                    .flat_map(|user_var| {
+                    .map(|user_var| {
                         let global_var = ctx
                             .part(VariablesP)
                             .global_from_user()
                             .get(user_var)
                             .expect("no existing global var for user var");
-                        ctx.part(ModelP).assignment()[global_var.index()]
-                            .map(|value| user_var.lit(value))
+                        // Variables introduced after the model was found are unconstrained.
+                        let value = ctx
+                            .part(ModelP)
+                            .assignment()
+                            .get(global_var.index())
+                            .cloned()
+                            .flatten()
+                            .unwrap_or(false);
+                        user_var.lit(value)
                     })
                     .collect(),
             )
-- 
2.43.0


From 36f9989369ec861d3aa13cceef440887fe2ea0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 03/20] fix: do not leave stale flags behind when analyzing
 failed assumptions

The flags of literals false at level 0 were set but never cleared, as such literals are not part
of the trail. Later analyses skipped them when the variable's index was reused and reported failed
cores that are consistent with the formula.
---
 varisat/src/assumptions.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index db50704..762b35c 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -204,10 +204,20 @@ fn analyze_assumption_conflict<'a>(
 
     assumptions.failed_propagation_hashes.clear();
 
-    flags[assumption.index()] = true;
-    let mut flag_count = 1;
+    let mut flag_count = 0;
+
+    // Literals that are false at level 0 are not on the trail anymore, so flagging them would leave
+    // stale flags behind.
+    if !impl_graph.is_removed_unit(assumption.var()) {
+        flags[assumption.index()] = true;
+        flag_count += 1;
+    }
 
     for &lit in trail.trail().iter().rev() {
+        if flag_count == 0 {
+            break;
+        }
+
         if flags[lit.index()] {
             flags[lit.index()] = false;
             flag_count -= 1;
@@ -228,17 +238,13 @@ fn analyze_assumption_conflict<'a>(
                     }
 
                     for &reason_lit in reason_lits {
-                        if !flags[reason_lit.index()] {
+                        if !flags[reason_lit.index()] && impl_graph.level(reason_lit.var()) > 0 {
                             flags[reason_lit.index()] = true;
                             flag_count += 1;
                         }
                     }
                 }
             }
-
-            if flag_count == 0 {
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 0dcfab612e1a65c1cb11ede68087f8f1d0d9ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 04/20] fix: register the variables of tautological input
 clauses in the checker

A tautology over a so far unused variable made the transcript panic.
---
 varisat-checker/src/clauses.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 06f99f4..6b38c72 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -160,7 +160,13 @@ pub fn add_clause<'a>(
 
     let (tmp_data, mut ctx) = ctx.split_part_mut(TmpDataP);
 
-    if copy_canonical(&mut tmp_data.tmp, clause) {
+    let tautology = copy_canonical(&mut tmp_data.tmp, clause);
+
+    for &lit in tmp_data.tmp.iter() {
+        ensure_sampling_var(ctx.borrow(), lit.var())?;
+    }
+
+    if tautology {
         let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
         process_step(
             ctx.borrow(),
@@ -173,10 +179,6 @@ pub fn add_clause<'a>(
         return Ok(());
     }
 
-    for &lit in tmp_data.tmp.iter() {
-        ensure_sampling_var(ctx.borrow(), lit.var())?;
-    }
-
     let (id, added) = store_clause(ctx.borrow(), &tmp_data.tmp, false);
 
     let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
-- 
2.43.0


From 414d43eb376817ebc43eeb687e75233a18060c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 05/20] fix: report a conflict of input units only once

Solving repeatedly emitted the empty clause again with the same id.
---
 varisat-checker/src/state.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 7f3e747..a6257c1 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -623,20 +623,23 @@ pub fn check_proof<'a>(
 }
 
 /// Process unit conflicts detected during clause loading.
+///
+/// A conflict is processed only once, even when this is called repeatedly.
 pub fn process_unit_conflicts<'a>(
-    mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, ClausesP, VariablesP),
+    mut ctx: partial!(Context<'a>, mut ClausesP, mut ProcessingP<'a>, VariablesP),
 ) -> Result<(), CheckerError> {
-    let (clauses, mut ctx) = ctx.split_part(ClausesP);
-    if let Some(ids) = &clauses.unit_conflict {
-        let clause = &[];
+    let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
+    if let Some(ids) = clauses.unit_conflict.take() {
+        let id = clauses.next_clause_id;
+        clauses.next_clause_id += 1;
 
         process_step(
             ctx.borrow(),
             &CheckedProofStep::AtClause {
-                id: clauses.next_clause_id,
+                id,
                 redundant: false,
-                clause,
-                propagations: ids,
+                clause: &[],
+                propagations: &ids,
             },
         )?;
     }
-- 
2.43.0


From 50daa7ff1e30347547f19ab3f37e5e059df4904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 06/20] fix: number input clauses that follow a contradiction

Derived clauses of an LRAT proof reused the ids of input clauses that were
loaded after contradicting unit clauses or an empty clause.
---
 varisat-checker/src/clauses.rs |  2 ++
 varisat/src/load.rs            |  5 ++++-
 varisat/src/proof.rs           | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 6b38c72..b20836f 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -155,6 +155,8 @@ pub fn add_clause<'a>(
     clause: &[Lit],
 ) -> Result<(), CheckerError> {
     if ctx.part(CheckerStateP).unsat {
+        // The clause is not needed anymore, but clause ids have to match the input order.
+        ctx.part_mut(ClausesP).next_clause_id += 1;
         return Ok(());
     }
 
diff --git a/varisat/src/load.rs b/varisat/src/load.rs
index 43415db..b9c46d1 100644
--- a/varisat/src/load.rs
+++ b/varisat/src/load.rs
@@ -44,7 +44,10 @@ pub fn load_clause<'a>(
     user_lits: &[Lit],
 ) {
     match ctx.part(SolverStateP).sat_state {
-        SatState::Unsat => return,
+        SatState::Unsat => {
+            proof::ignore_clause(ctx.borrow());
+            return;
+        }
         SatState::Sat => {
             ctx.part_mut(SolverStateP).sat_state = SatState::Unknown;
         }
diff --git a/varisat/src/proof.rs b/varisat/src/proof.rs
index 65aeb56..4691212 100644
--- a/varisat/src/proof.rs
+++ b/varisat/src/proof.rs
@@ -155,6 +155,20 @@ pub fn add_clause<'a>(
     }
 }
 
+/// Call when ignoring an external clause because the formula is already unsatisfiable.
+///
+/// On the fly checking uses consecutive clause ids for all clauses of the initial formula, so it has
+/// to skip the id of this clause.
+pub fn ignore_clause<'a>(mut ctx: partial!(Context<'a>, mut ProofP<'a>, mut SolverStateP)) {
+    if ctx.part(SolverStateP).solver_invoked {
+        return;
+    }
+    if let Some(checker) = &mut ctx.part_mut(ProofP).checker {
+        let result = checker.add_clause(&[]);
+        handle_self_check_result(ctx.borrow(), result);
+    }
+}
+
 /// Add a step to the proof.
 ///
 /// Ignored when proof generation is disabled.
-- 
2.43.0


From 7430796ba8bdd355c4939489fc16507ac0898f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 07/20] fix: write pending deletions when flushing an LRAT
 proof

---
 varisat-lrat/src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/varisat-lrat/src/lib.rs b/varisat-lrat/src/lib.rs
index faad23e..f152e81 100644
--- a/varisat-lrat/src/lib.rs
+++ b/varisat-lrat/src/lib.rs
@@ -23,13 +23,7 @@ impl<'a> ProofProcessor for WriteLrat<'a> {
         match step {
             CheckedProofStep::AddClause { .. } => (),
             CheckedProofStep::DuplicatedClause { .. } => (),
-            _ => {
-                if !self.buffered_deletes.is_empty() {
-                    let buffered_deletes = replace(&mut self.buffered_deletes, vec![]);
-                    self.open_delete()?;
-                    self.write_ids(&buffered_deletes)?;
-                }
-            }
+            _ => self.write_buffered_deletes()?,
         }
 
         match step {
@@ -114,11 +108,22 @@ impl<'a> WriteLrat<'a> {
     /// This is automatically called when this proof processor is dropped. Calling this explicitly
     /// is recommended to handle possible IO errors.
     pub fn flush(&mut self) -> Result<(), Error> {
+        self.write_buffered_deletes()?;
         self.close_delete()?;
         self.target.flush()?;
         Ok(())
     }
 
+    /// Write deletes that were delayed until the id prefixing them is known.
+    fn write_buffered_deletes(&mut self) -> Result<(), Error> {
+        if !self.buffered_deletes.is_empty() {
+            let buffered_deletes = replace(&mut self.buffered_deletes, vec![]);
+            self.open_delete()?;
+            self.write_ids(&buffered_deletes)?;
+        }
+        Ok(())
+    }
+
     /// If necessary begin a batched delete step.
     fn open_delete(&mut self) -> Result<(), Error> {
         if !self.delete_open {
@@ -211,7 +216,7 @@ impl<'a> WriteLrat<'a> {
 
 impl<'a> Drop for WriteLrat<'a> {
     fn drop(&mut self) {
-        let _ignore_errors = self.close_delete();
+        let _ignore_errors = self.flush();
     }
 }
 
-- 
2.43.0


From dbda6706ed0cc003679901f5da5cc9f7c479e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 08/20] fix: report a negation sign at the end of a DIMACS file

---
 varisat-dimacs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index dc56230..38ba059 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -244,7 +244,7 @@ impl DimacsParser {
 
         self.finish_literal();
 
-        if !self.partial_clause.is_empty() {
+        if !self.partial_clause.is_empty() || (self.negate_next_lit && !self.in_lit) {
             return Err(ParserError::UnterminatedClause {
                 line: self.line_number,
             });
-- 
2.43.0


From f62041764507f6e583e5a8eb4dd1dd804362472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 09/20] fix: reject out of range values when parsing native
 proofs

Variables and literals were truncated and list lengths were trusted, so a
damaged proof could abort the process or silently mean something else.
---
 varisat-internal-proof/src/binary_format.rs | 70 ++++++++++++++-------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/varisat-internal-proof/src/binary_format.rs b/varisat-internal-proof/src/binary_format.rs
index e296468..21c3a48 100644
--- a/varisat-internal-proof/src/binary_format.rs
+++ b/varisat-internal-proof/src/binary_format.rs
@@ -1,5 +1,8 @@
 //! Binary format for varisat proofs.
-use std::io::{self, BufRead, Write};
+use std::{
+    convert::TryInto,
+    io::{self, BufRead, Write},
+};
 
 use anyhow::Error;
 
@@ -45,6 +48,11 @@ step_codes!(
 // accepted
 const CODE_END: u64 = 0x9ac3391f4294c211;
 
+/// Largest number of items to reserve memory for before reading them.
+///
+/// The length of a list isn't trusted as the proof might be corrupted.
+const MAX_RESERVE: u64 = 1 << 12;
+
 /// Writes a proof step in the varisat format
 pub fn write_step<'s>(target: &mut impl Write, step: &'s ProofStep<'s>) -> io::Result<()> {
     match *step {
@@ -168,32 +176,32 @@ impl Parser {
         let code = read_u64(&mut *source)?;
         match code {
             CODE_SOLVER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let solver = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let solver = Some(read_var(&mut *source)?);
                 Ok(ProofStep::SolverVarName { global, solver })
             }
             CODE_SOLVER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::SolverVarName {
                     global,
                     solver: None,
                 })
             }
             CODE_USER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let user = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let user = Some(read_var(&mut *source)?);
                 Ok(ProofStep::UserVarName { global, user })
             }
             CODE_USER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::UserVarName { global, user: None })
             }
             CODE_DELETE_VAR => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::DeleteVar { var })
             }
             CODE_CHANGE_SAMPLING_MODE_SAMPLE | CODE_CHANGE_SAMPLING_MODE_WITNESS => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::ChangeSamplingMode {
                     var,
                     sample: code == CODE_CHANGE_SAMPLING_MODE_SAMPLE,
@@ -236,7 +244,9 @@ impl Parser {
                 })
             }
             CODE_CHANGE_HASH_BITS => {
-                let bits = read_u64(&mut *source)? as u32;
+                let bits = read_u64(&mut *source)?
+                    .try_into()
+                    .map_err(|_| anyhow::anyhow!("number of hash bits out of range"))?;
                 Ok(ProofStep::ChangeHashBits { bits })
             }
             CODE_MODEL => {
@@ -265,6 +275,24 @@ impl Parser {
     }
 }
 
+/// Read a variable from a varisat proof
+fn read_var(source: &mut impl BufRead) -> Result<Var, Error> {
+    let index = read_u64(&mut *source)?;
+    if index > Var::max_var().index() as u64 {
+        anyhow::bail!("variable out of range");
+    }
+    Ok(Var::from_index(index as usize))
+}
+
+/// Read a literal from a varisat proof
+fn read_lit(source: &mut impl BufRead) -> Result<Lit, Error> {
+    let code = read_u64(&mut *source)?;
+    if code > Var::max_var().negative().code() as u64 {
+        anyhow::bail!("literal out of range");
+    }
+    Ok(Lit::from_code(code as usize))
+}
+
 /// Writes a slice of literals for a varisat proof
 fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
     write_u64(&mut *target, literals.len() as u64)?;
@@ -275,12 +303,12 @@ fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
 }
 
 /// Read a slice of literals from a varisat proof
-fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), io::Error> {
+fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), Error> {
     literals.clear();
-    let len = read_u64(&mut *source)? as usize;
-    literals.reserve(len);
+    let len = read_u64(&mut *source)?;
+    literals.reserve(len.min(MAX_RESERVE) as usize);
     for _ in 0..len {
-        literals.push(Lit::from_code(read_u64(&mut *source)? as usize));
+        literals.push(read_lit(&mut *source)?);
     }
     Ok(())
 }
@@ -295,10 +323,10 @@ fn write_hashes(target: &mut impl Write, hashes: &[ClauseHash]) -> io::Result<()
 }
 
 /// Read a slice of clause hashes from a varisat proof
-fn read_hashes(source: &mut impl BufRead, hashes: &mut Vec<ClauseHash>) -> Result<(), io::Error> {
+fn read_hashes(source: &mut impl BufRead, hashes: &mut Vec<ClauseHash>) -> Result<(), Error> {
     hashes.clear();
-    let len = read_u64(&mut *source)? as usize;
-    hashes.reserve(len);
+    let len = read_u64(&mut *source)?;
+    hashes.reserve(len.min(MAX_RESERVE) as usize);
     for _ in 0..len {
         hashes.push(read_u64(&mut *source)? as ClauseHash);
     }
@@ -319,12 +347,12 @@ fn write_unit_clauses(target: &mut impl Write, units: &[(Lit, ClauseHash)]) -> i
 fn read_unit_clauses(
     source: &mut impl BufRead,
     units: &mut Vec<(Lit, ClauseHash)>,
-) -> Result<(), io::Error> {
+) -> Result<(), Error> {
     units.clear();
-    let len = read_u64(&mut *source)? as usize;
-    units.reserve(len);
+    let len = read_u64(&mut *source)?;
+    units.reserve(len.min(MAX_RESERVE) as usize);
     for _ in 0..len {
-        let lit = Lit::from_code(read_u64(&mut *source)? as usize);
+        let lit = read_lit(&mut *source)?;
         let hash = read_u64(&mut *source)? as ClauseHash;
         units.push((lit, hash));
     }
-- 
2.43.0


From 2b26c91d18fc93b711e6b2710e867428744b6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 10/20] fix: reject unsupported hash sizes in the checker

---
 varisat-checker/src/state.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index a6257c1..d3612f3 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -105,11 +105,7 @@ pub fn check_step<'a>(
             check_delete_clause_step(ctx.borrow(), clause, proof)
         }
         ProofStep::UnitClauses { units } => check_unit_clauses_step(ctx.borrow(), units),
-        ProofStep::ChangeHashBits { bits } => {
-            ctx.part_mut(ClauseHasherP).hash_bits = bits;
-            rehash(ctx.borrow());
-            Ok(())
-        }
+        ProofStep::ChangeHashBits { bits } => check_change_hash_bits(ctx.borrow(), bits),
         ProofStep::Model { assignment } => check_model_step(ctx.borrow(), assignment),
         ProofStep::Assumptions { assumptions } => {
             for &lit in assumptions.iter() {
@@ -470,6 +466,22 @@ fn check_unit_clauses_step<'a>(
     Ok(())
 }
 
+/// Check a ChangeHashBits step
+fn check_change_hash_bits(
+    mut ctx: partial!(Context, mut ClauseHasherP, mut ClausesP, CheckerStateP),
+    bits: u32,
+) -> Result<(), CheckerError> {
+    if bits == 0 || bits > ClauseHash::max_value().count_ones() {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("unsupported number of hash bits {}", bits),
+        ));
+    }
+    ctx.part_mut(ClauseHasherP).hash_bits = bits;
+    rehash(ctx.borrow());
+    Ok(())
+}
+
 /// Check a Model step
 fn check_model_step<'a>(
     mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, CheckerStateP, ClausesP, VariablesP),
-- 
2.43.0


From 248dddfcb2bab9b09692213470b9c60c89a81581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 11/20] fix: reject models of formulas known to be
 unsatisfiable in the checker

---
 varisat-checker/src/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index d3612f3..91c414a 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -487,6 +487,13 @@ fn check_model_step<'a>(
     mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, CheckerStateP, ClausesP, VariablesP),
     model: &[Lit],
 ) -> Result<(), CheckerError> {
+    if ctx.part(CheckerStateP).unsat {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            "model for an unsatisfiable formula".to_string(),
+        ));
+    }
+
     let mut assignments = HashSet::default();
 
     for &lit in model.iter() {
-- 
2.43.0


From 5e0c5add0cf380f22745986c2a740ca59980f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 12/20] fix: handle unknown variables in models and deleted
 clauses in the checker

---
 varisat-checker/src/clauses.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index b20836f..7a5cb53 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -143,8 +143,12 @@ pub struct Clauses {
 
 impl Clauses {
     /// Value of a literal if known from unit clauses.
+    ///
+    /// Variables not seen so far have no known value.
     pub fn lit_value(&self, lit: Lit) -> Option<(bool, UnitClause)> {
-        self.unit_clauses[lit.index()]
+        self.unit_clauses
+            .get(lit.index())
+            .and_then(|&unit_clause| unit_clause)
             .map(|unit_clause| (unit_clause.value ^ lit.is_negative(), unit_clause))
     }
 }
-- 
2.43.0


From 1f8b5cac63aa7b202b02f13a74b2d69ada03ca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 13/20] fix: restore assignments when a clause hash is unknown
 in the checker

---
 varisat-checker/src/rup.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/rup.rs b/varisat-checker/src/rup.rs
index e6f2b9f..3ab4be3 100644
--- a/varisat-checker/src/rup.rs
+++ b/varisat-checker/src/rup.rs
@@ -60,6 +60,7 @@ pub fn check_clause_with_hashes<'a>(
     rup.trace_edges.clear();
 
     let mut rup_is_unsat = false;
+    let mut missing_hash = None;
 
     assert!(rup.trail.is_empty());
 
@@ -95,10 +96,8 @@ pub fn check_clause_with_hashes<'a>(
         let candidates = match clauses.clauses.get(&hash) {
             Some(candidates) if !candidates.is_empty() => candidates,
             _ => {
-                return Err(CheckerError::check_failed(
-                    ctx.part(CheckerStateP).step,
-                    format!("no clause found for hash {:x}", hash),
-                ))
+                missing_hash = Some(hash);
+                break 'hashes;
             }
         };
 
@@ -192,7 +191,12 @@ pub fn check_clause_with_hashes<'a>(
         clauses.unit_clauses[lit.index()] = value;
     }
 
-    if rup_is_unsat {
+    if let Some(hash) = missing_hash {
+        Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("no clause found for hash {:x}", hash),
+        ))
+    } else if rup_is_unsat {
         Ok(())
     } else {
         Err(CheckerError::check_failed(
-- 
2.43.0


From 86b9e359d64b7aa2dd1f156e655fb3f025b1b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 14/20] fix: keep the names of variables used without explicit
 user mapping in the checker

---
 varisat-checker/src/processing.rs | 14 +------------
 varisat-checker/src/variables.rs  | 33 ++++++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/varisat-checker/src/processing.rs b/varisat-checker/src/processing.rs
index 038406c..8870f3e 100644
--- a/varisat-checker/src/processing.rs
+++ b/varisat-checker/src/processing.rs
@@ -7,7 +7,6 @@ use varisat_formula::{Lit, Var};
 use crate::{
     context::{parts::*, Context},
     transcript::{self, ProofTranscriptProcessor},
-    variables::SamplingMode,
     CheckerError,
 };
 
@@ -122,18 +121,7 @@ impl<'a, 'b> CheckerData<'a, 'b> {
         variables
             .var_data
             .get(proof_var.index())
-            .and_then(|var_data| {
-                var_data.user_var.or_else(|| {
-                    // This is needed as yet another workaround to enable independently loading the
-                    // initial formula and proof.
-                    // TODO can this be solved in a better way?
-                    if var_data.sampling_mode == SamplingMode::Sample {
-                        Some(proof_var)
-                    } else {
-                        None
-                    }
-                })
-            })
+            .and_then(|var_data| var_data.user_var)
     }
 }
 
diff --git a/varisat-checker/src/variables.rs b/varisat-checker/src/variables.rs
index 51adb1b..f2e163e 100644
--- a/varisat-checker/src/variables.rs
+++ b/varisat-checker/src/variables.rs
@@ -27,6 +27,10 @@ pub enum SamplingMode {
 #[derive(Clone)]
 pub struct VarData {
     pub user_var: Option<Var>,
+    /// Whether the user mapping was never made explicit.
+    ///
+    /// See [`ensure_sampling_var`].
+    pub implicit_user_var: bool,
     pub sampling_mode: SamplingMode,
 }
 
@@ -34,6 +38,7 @@ impl Default for VarData {
     fn default() -> VarData {
         VarData {
             user_var: None,
+            implicit_user_var: false,
             sampling_mode: SamplingMode::Sample,
         }
     }
@@ -52,6 +57,9 @@ pub struct Variables {
 }
 
 /// Check that var is a sampling user var and create new variables as necessary.
+///
+/// To enable independently loading the initial formula and the proof, a variable without user
+/// mapping gets an implicit identity mapping. The proof may still add the same mapping explicitly.
 pub fn ensure_sampling_var(
     mut ctx: partial!(Context, mut ClausesP, mut VariablesP, CheckerStateP),
     var: Var,
@@ -66,6 +74,19 @@ pub fn ensure_sampling_var(
             format!("variable {:?} is not a sampling variable", var),
         ));
     }
+
+    if variables.var_data[var.index()].user_var.is_none() {
+        if !variables.used_user_vars.insert(var) {
+            return Err(CheckerError::check_failed(
+                ctx.part(CheckerStateP).step,
+                format!("user name {:?} used for two different variables", var),
+            ));
+        }
+        let var_data = &mut variables.var_data[var.index()];
+        var_data.user_var = Some(var);
+        var_data.implicit_user_var = true;
+    }
+
     Ok(())
 }
 
@@ -97,9 +118,13 @@ pub fn add_user_mapping<'a>(
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
 
+    let var_data = &variables.var_data[global_var.index()];
+
+    let is_implicit_mapping = var_data.implicit_user_var && var_data.user_var == Some(user_var);
+
     // TODO will the first check cause problems when observing solver added variables?
-    // That check is required for the workaround in CheckerData's user from proof method
-    if user_var.index() >= variables.var_data.len() || variables.used_user_vars.contains(&user_var)
+    if user_var.index() >= variables.var_data.len()
+        || (variables.used_user_vars.contains(&user_var) && !is_implicit_mapping)
     {
         return Err(CheckerError::check_failed(
             ctx.part(CheckerStateP).step,
@@ -121,7 +146,7 @@ pub fn add_user_mapping<'a>(
         ));
     }
 
-    if var_data.user_var.is_some() {
+    if var_data.user_var.is_some() && !is_implicit_mapping {
         return Err(CheckerError::check_failed(
             ctx.part(CheckerStateP).step,
             format!("change of user name for in use varible {:?}", global_var),
@@ -129,6 +154,7 @@ pub fn add_user_mapping<'a>(
     }
 
     var_data.user_var = Some(user_var);
+    var_data.implicit_user_var = false;
 
     variables.used_user_vars.insert(user_var);
 
@@ -188,6 +214,7 @@ pub fn remove_user_mapping<'a>(
     if let Some(user_var) = var_data.user_var {
         variables.used_user_vars.remove(&user_var);
         var_data.user_var = None;
+        var_data.implicit_user_var = false;
         var_data.sampling_mode = SamplingMode::Hide;
     }
 
-- 
2.43.0


From 1738225755f25baad81b70e1ff0539e0dc700fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 15/20] fix: reject hiding or resampling assumption variables
 in the checker

---
 varisat-checker/src/state.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 91c414a..b14885a 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -87,6 +87,7 @@ pub fn check_step<'a>(
             if let Some(user) = user {
                 add_user_mapping(ctx.borrow(), global, user)?;
             } else {
+                check_not_assumed(ctx.borrow(), global)?;
                 remove_user_mapping(ctx.borrow(), global)?;
             }
             Ok(())
@@ -142,6 +143,23 @@ pub fn check_step<'a>(
     result
 }
 
+/// Check that a variable is not part of the current assumptions.
+///
+/// Used before changing the user mapping or sampling mode of a variable.
+fn check_not_assumed(ctx: partial!(Context, CheckerStateP), var: Var) -> Result<(), CheckerError> {
+    let state = ctx.part(CheckerStateP);
+    if state.assumptions.iter().any(|lit| lit.var() == var) {
+        return Err(CheckerError::check_failed(
+            state.step,
+            format!(
+                "cannot hide or change sampling mode of assumption variable {:?}",
+                var
+            ),
+        ));
+    }
+    Ok(())
+}
+
 /// Check a DeleteVar step
 fn check_delete_var_step<'a>(
     mut ctx: partial!(
@@ -212,6 +230,7 @@ fn check_change_sampling_mode<'a>(
     sample: bool,
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), var);
+    check_not_assumed(ctx.borrow(), var)?;
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
     let var_data = &mut variables.var_data[var.index()];
-- 
2.43.0


From 39b3e12b9c79238f5ab9ae0f11d2bd72febaaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 16/20] fix: treat unit clauses as irredundant in checked proof
 steps

---
 varisat-checker/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index b14885a..e3c7144 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -296,6 +296,9 @@ fn check_at_clause_step<'a>(
         ));
     }
 
+    // Unit clauses and the empty clause are always kept.
+    let redundant = redundant && tmp.len() > 1;
+
     check_clause_with_hashes(ctx.borrow(), &tmp, &*propagation_hashes)?;
 
     let (id, added) = store_clause(ctx.borrow(), &tmp, redundant);
-- 
2.43.0


From f0d4a9483373846ca7e6c2b820d45383dde50f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 17/20] fix: report unit conflicts before deleting a unit
 clause in the checker

---
 varisat-checker/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index e3c7144..0e38f4f 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -192,6 +192,9 @@ fn check_delete_var_step<'a>(
     }
 
     if let Some(unit_clause) = ctx.part(ClausesP).unit_clauses[var.index()] {
+        // A detected conflict might involve the unit clause that is deleted.
+        process_unit_conflicts(ctx.borrow())?;
+
         let clause = [var.lit(unit_clause.value)];
 
         let id = match unit_clause.id {
-- 
2.43.0


From d63aececaed909043f9cfb07557d91d9189182cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 18/20] fix: report errors writing the end of a proof in the
 command line solver

---
 varisat-cli/src/check.rs | 26 ++++++++++++++++++--------
 varisat-cli/src/main.rs  | 23 ++++++++++++++++++-----
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/varisat-cli/src/check.rs b/varisat-cli/src/check.rs
index ce5a45e..0fc619c 100644
--- a/varisat-cli/src/check.rs
+++ b/varisat-cli/src/check.rs
@@ -48,18 +48,18 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
 
     checker.add_transcript(&mut transcript);
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     if let Some(lrat_path) = matches.value_of("lrat-file") {
-        lrat_processor = WriteLrat::new(fs::File::create(lrat_path)?, false);
-        checker.add_processor(&mut lrat_processor);
+        let processor = WriteLrat::new(fs::File::create(lrat_path)?, false);
+        checker.add_processor(lrat_processor.get_or_insert(processor));
     }
 
-    let mut clrat_processor;
+    let mut clrat_processor = None;
 
     if let Some(clrat_path) = matches.value_of("clrat-file") {
-        clrat_processor = WriteLrat::new(fs::File::create(clrat_path)?, true);
-        checker.add_processor(&mut clrat_processor);
+        let processor = WriteLrat::new(fs::File::create(clrat_path)?, true);
+        checker.add_processor(clrat_processor.get_or_insert(processor));
     }
 
     checker.add_dimacs_cnf(file)?;
@@ -68,8 +68,18 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
 
     log::info!("Checking proof file '{}'", path);
 
-    match checker.check_proof(fs::File::open(path)?) {
-        Ok(()) => println!("s VERIFIED"),
+    let result = checker.check_proof(fs::File::open(path)?);
+
+    drop(checker);
+
+    match result {
+        Ok(()) => {
+            // Make sure that the complete proof is written before reporting success.
+            for processor in lrat_processor.iter_mut().chain(clrat_processor.iter_mut()) {
+                processor.flush()?;
+            }
+            println!("s VERIFIED");
+        }
         Err(err) => {
             log::error!("{}", err);
             if let CheckerError::CheckFailed { debug_step, .. } = err {
diff --git a/varisat-cli/src/main.rs b/varisat-cli/src/main.rs
index 8791121..b9258a7 100644
--- a/varisat-cli/src/main.rs
+++ b/varisat-cli/src/main.rs
@@ -119,7 +119,7 @@ fn main_with_err() -> Result<i32, Error> {
         config_update.merge(toml::from_str(&config_option)?);
     }
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     let mut solver = Solver::new();
 
@@ -154,9 +154,9 @@ fn main_with_err() -> Result<i32, Error> {
             "binary-drat" => Some(ProofFormat::BinaryDrat),
             "varisat" => Some(ProofFormat::Varisat),
             "lrat" | "clrat" => {
-                lrat_processor =
+                let processor =
                     WriteLrat::new(fs::File::create(path)?, proof_format_str == "clrat");
-                solver.add_proof_processor(&mut lrat_processor);
+                solver.add_proof_processor(lrat_processor.get_or_insert(processor));
                 None
             }
             _ => unreachable!(),
@@ -175,11 +175,24 @@ fn main_with_err() -> Result<i32, Error> {
 
     solver.add_dimacs_cnf(file)?;
 
-    match solver.solve() {
+    // Make sure that the complete proof is written before reporting a result.
+    let result = solver
+        .solve()
+        .and_then(|is_sat| solver.close_proof().map(|()| is_sat));
+
+    let model = solver.model();
+
+    drop(solver);
+
+    if let (Ok(_), Some(lrat_processor)) = (&result, &mut lrat_processor) {
+        lrat_processor.flush()?;
+    }
+
+    match result {
         Ok(true) => {
             println!("s SATISFIABLE");
             print!("v");
-            for l in solver.model().unwrap() {
+            for l in model.unwrap() {
                 print!(" {}", l);
             }
             println!(" 0");
-- 
2.43.0


From 746671fc927855804e1cf8af195c778468b3196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 19/20] fix: avoid an overflow for large restart intervals

---
 varisat/src/schedule.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/varisat/src/schedule.rs b/varisat/src/schedule.rs
index 1e1b04e..adf3975 100644
--- a/varisat/src/schedule.rs
+++ b/varisat/src/schedule.rs
@@ -82,7 +82,10 @@ pub fn schedule_step<'a>(
         if schedule.next_restart == schedule.conflicts {
             restart(ctx.borrow());
             schedule.restarts += 1;
-            schedule.next_restart += config.luby_restart_interval_scale * schedule.luby.advance();
+            let interval = config
+                .luby_restart_interval_scale
+                .saturating_mul(schedule.luby.advance());
+            schedule.next_restart = schedule.next_restart.saturating_add(interval);
         }
 
         if schedule.conflicts % config.reduce_locals_interval == 0 {
-- 
2.43.0


From a380b032d94496bea657cfca019fe9a8a852a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 20/20] fix: do not read assignments through an invalidated
 pointer

---
 varisat/src/prop/long.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/varisat/src/prop/long.rs b/varisat/src/prop/long.rs
index 8fde47e..f6a1207 100644
--- a/varisat/src/prop/long.rs
+++ b/varisat/src/prop/long.rs
@@ -5,7 +5,7 @@ use varisat_formula::Lit;
 
 use crate::context::{parts::*, Context};
 
-use super::{assignment::fast_option_eq, enqueue_assignment, Conflict, Reason, Watch};
+use super::{enqueue_assignment, Conflict, Reason, Watch};
 
 /// Propagate all literals implied by long clauses watched by the given literal.
 ///
@@ -43,26 +43,13 @@ pub fn propagate_long(
 
         let mut watch_write = watch_ptr;
 
-        let assignment_limit = ctx.part(AssignmentP).assignment().len();
-        let assignment_ptr = ctx.part(AssignmentP).assignment().as_ptr();
-
-        let is_true = |lit: Lit| {
-            assert!(lit.index() < assignment_limit);
-            fast_option_eq(*assignment_ptr.add(lit.index()), Some(lit.is_positive()))
-        };
-
-        let is_false = |lit: Lit| {
-            assert!(lit.index() < assignment_limit);
-            fast_option_eq(*assignment_ptr.add(lit.index()), Some(lit.is_negative()))
-        };
-
         'watchers: while watch_ptr != watch_end {
             let watch = *watch_ptr;
             watch_ptr = watch_ptr.add(1);
 
             // If the blocking literal (which is part of the watched clause) is already true, the
             // watched clause is satisfied and we don't even have to look at it.
-            if is_true(watch.blocking) {
+            if ctx.part(AssignmentP).lit_is_true(watch.blocking) {
                 *watch_write = watch;
                 watch_write = watch_write.add(1);
                 continue;
@@ -98,7 +85,7 @@ pub fn propagate_long(
 
             // If the other watched literal (now the first) isn't the blocking literal, check
             // whether that one is true. If so nothing else needs to be done.
-            if first != watch.blocking && is_true(first) {
+            if first != watch.blocking && ctx.part(AssignmentP).lit_is_true(first) {
                 *watch_write = new_watch;
                 watch_write = watch_write.add(1);
                 continue;
@@ -116,7 +103,7 @@ pub fn propagate_long(
 
             while lit_ptr != lit_end {
                 let rest_lit = *lit_ptr;
-                if !is_false(rest_lit) {
+                if !ctx.part(AssignmentP).lit_is_false(rest_lit) {
                     // We found a non-false literal and make it a watched literal by reordering the
                     // literals and adding the watch to the corresponding watchlist.
                     *clause_ptr.offset(1) = rest_lit;
@@ -137,7 +124,7 @@ pub fn propagate_long(
             watch_write = watch_write.add(1);
 
             // If the other watched literal is false we have a conflict.
-            if is_false(first) {
+            if ctx.part(AssignmentP).lit_is_false(first) {
                 // We move all unprocessed watches and resize the currentl watchlist.
                 while watch_ptr != watch_end {
                     *watch_write = *watch_ptr;
-- 
2.43.0


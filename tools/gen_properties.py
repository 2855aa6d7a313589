#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays valid JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mechanism, state=None, **kw):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files[:4])}]}
    if state: a["state"] = state
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Solver verdicts are correct",
 "For every CNF formula, under every valid configuration and however the clauses are loaded (one by one, as a formula, as DIMACS text), solving returns true exactly when the formula is satisfiable and false exactly when it is not. This includes formulas with empty, unit, duplicated and tautological clauses, repeated literals, unused variables and no clauses at all.",
 ["inputs", "configurations"], "every CNF formula over any variable set, every loading route, every configuration inside the documented ranges",
 "The existing proptests draw from two formula families (planted SAT, sgen UNSAT) whose verdict is known by construction, under one configuration with mild reduction intervals; no independent verdict exists for general formulas.",
 ["varisat/src/solver.rs","varisat/src/load.rs","varisat/src/cdcl.rs","varisat/src/analyze_conflict.rs","varisat/src/prop.rs","varisat/src/prop/long.rs","varisat/src/prop/binary.rs","varisat/src/unit_simplify.rs","varisat/src/clause/reduce.rs","varisat/src/clause/gc.rs"],
 "CDCL loop: load_clause -> propagate -> analyze_conflict -> learn/backtrack, with restarts, clause reduction, level-0 simplification and garbage collection in between")

prop("C02", "Models are complete, consistent and satisfying",
 "Whenever solving returns true, the model that is returned assigns every variable that is in use by the caller exactly once, satisfies every clause added so far and contains every current assumption. When the last solve did not succeed, or the formula or the assumptions changed since, no model is reported.",
 ["inputs", "histories", "configurations"], "every formula and every sequence of clause additions, variable operations, assumptions and solves, under every configuration",
 "Tests check models of a few satisfiable families directly after one solve; they do not check completeness, single assignment or availability across histories.",
 ["varisat/src/solver.rs","varisat/src/model.rs","varisat/src/variables.rs","varisat/src/decision/vsids.rs"],
 "reconstruct_global_model maps the solver assignment through the variable maps; Solver::model filters by the user mapping and the sat state")

prop("C03", "Incremental solving equals solving from scratch",
 "In any sequence of clause additions, configuration changes, new assumptions and solves, each solve returns what a fresh solver would return for the conjunction of all clauses added so far and the current assumptions. Assumptions replace the previous ones, never constrain later solves, and once the clauses alone are unsatisfiable every later solve returns false.",
 ["histories", "configurations"], "every interleaving of add/assume/config/solve calls of any length",
 "Tests exercise two fixed incremental scripts (pigeon-hole core minimisation, one incremental proof test); state left over between solves (trail, flags, learnt clauses, saved units) depends on the whole history.",
 ["varisat/src/assumptions.rs","varisat/src/load.rs","varisat/src/unit_simplify.rs","varisat/src/prop/assignment.rs","varisat/src/solver.rs","varisat/src/tmp.rs"],
 "set_assumptions / enqueue_assumption, full_restart, resurrect_unit and the sat_state machine")

prop("C04", "Failed cores are sound",
 "After a solve that fails because of the assumptions, the reported failed core is a subset of the current assumptions and the clauses together with that core alone are unsatisfiable. When the clauses alone were found unsatisfiable the reported core is empty, and no core is reported after a successful solve or when the assumptions were changed since.",
 ["histories", "inputs"], "every formula, every list of assumptions (redundant, repeated, contradictory, false or true at top level) and every preceding history",
 "Tests compute cores for conditional pigeon-hole formulas only; soundness of the core depends on which literals were implied at which level and on marks left by earlier cores.",
 ["varisat/src/assumptions.rs","varisat/src/solver.rs","varisat/src/tmp.rs"],
 "analyze_assumption_conflict walks the trail backwards from the failed assumption; user_failed_core maps it to caller names")

prop("C05", "Hiding, witnessing and renaming variables keeps the meaning of the formula",
 "Hiding a variable turns it into an existentially quantified one: verdicts do not change, it no longer appears in models, and the same name used later denotes a new unconstrained variable that never aliases the old one. New variables always get a name that is not in use, observing internal variables reports fresh names that appear in later models, witness variables appear in models but cannot be constrained, and switching a variable back to sampling restores it unchanged.",
 ["histories"], "every interleaving of hide, witness, sample, observe and new-variable calls with clauses, assumptions and solves",
 "One test checks a fixed hide/observe scenario; name recycling through three variable spaces depends on unit status, isolation and free lists built up by the history.",
 ["varisat/src/variables.rs","varisat/src/variables/var_map.rs","varisat/src/variables/data.rs","varisat/src/solver.rs","varisat/src/model.rs"],
 "user/global/solver bidirectional maps with free lists, set_sampling_mode, delete_global_if_unused, initialize_solver_var")

prop("C06", "Native proofs check and report what happened",
 "For every supported sequence of solver calls with native proof output, the independent checker, given the initially loaded clauses and the proof, accepts it. The transcript it derives lists the same clause additions, assumptions, variable operations, models, failed cores and unsatisfiability results, in the same order and under the same names, as the calls and results the caller saw.",
 ["histories", "inputs", "configurations"], "every history of API calls that the proof format supports, every configuration, proofs of any length (including changes of the hash width)",
 "Tests check proofs of single-shot sgen formulas and one incremental scenario; hash-width changes, name recycling and simplification steps in proofs depend on history and size.",
 ["varisat/src/proof.rs","varisat/src/proof/map_step.rs","varisat-checker/src/state.rs","varisat-checker/src/clauses.rs","varisat-checker/src/rup.rs","varisat-checker/src/hash.rs","varisat-checker/src/transcript.rs","varisat-checker/src/variables.rs","varisat-internal-proof/src/binary_format.rs"],
 "every solver module emits proof steps which the checker replays by hash-directed unit propagation")

prop("C07", "On-the-fly checking is transparent and emits a verifiable event stream",
 "Enabling self checking, a proof writer or proof processors never changes a verdict, model or failed core of a solve and never reports a failure for a correct run. The stream of checked steps given to a processor is valid on its own: clause ids are fresh and increasing, every derived clause follows by unit propagation from exactly the clause ids it lists, every deletion or status change names a live clause with its literals, and every model and failed core follows from the clauses then present.",
 ["histories", "inputs", "configurations"], "every history of API calls and every configuration, with and without proof generation",
 "Tests only require that self checking of sgen formulas does not panic; nobody replays the event stream.",
 ["varisat/src/proof.rs","varisat-checker/src/processing.rs","varisat-checker/src/rup.rs","varisat-checker/src/state.rs","varisat-checker/src/clauses.rs","varisat-checker/src/internal.rs"],
 "SelfChecker consumes the solver's steps, check_clause_with_hashes records the propagation trace handed to ProofProcessor")

prop("C08", "The proof checker never accepts a false claim",
 "Whatever bytes it is given as a proof, the checker terminates with acceptance or an error and does not crash, and every result it reports before or at acceptance is true for the loaded formula and the transcript so far: an unsatisfiability claim only for an unsatisfiable formula, a model only if it satisfies it together with the assumptions, and a failed core only if it is refuted. A proof that ends before its end marker is rejected.",
 ["inputs", "fault_sequences"], "every loaded formula and every byte string or step sequence offered as a proof: mutated, truncated, spliced and forged",
 "Tests feed a dozen hand-made wrong steps and expect a specific message; soundness quantifies over all adversarial proofs.",
 ["varisat-checker/src/state.rs","varisat-checker/src/rup.rs","varisat-checker/src/clauses.rs","varisat-checker/src/variables.rs","varisat-checker/src/hash.rs","varisat-internal-proof/src/binary_format.rs","varisat-internal-proof/src/vli_enc.rs"],
 "check_step dispatch: RUP check of derived clauses, justification of deletions, model and failed-core checks, variable mapping checks")

prop("C09", "DRAT proofs are valid refutations",
 "For every unsatisfiable formula solved in one go with text or binary DRAT output, the bytes written form a well-formed proof in that format whose additions are each implied by unit propagation from the clauses present at that point, whose deletions name present clauses, and which contains the empty clause. For satisfiable formulas every step written is still sound, and text and binary output of the same run describe the same steps.",
 ["inputs", "configurations"], "every formula (with duplicate, tautological, unit and empty clauses), every configuration, both encodings",
 "The DRAT tests are ignored unless external checkers are installed and only use small sgen formulas.",
 ["varisat/src/proof/drat.rs","varisat/src/proof.rs","varisat/src/proof/map_step.rs","varisat/src/unit_simplify.rs","varisat/src/binary.rs","varisat/src/cdcl.rs"],
 "drat_step filters proof steps; write_literals / write_binary_literals encode them; deletion information follows level-0 simplification and clause reduction")

prop("C10", "LRAT proofs are valid and hint-complete",
 "For every unsatisfiable formula the LRAT and compressed LRAT output derives the empty clause, where input clauses are numbered by their position starting at one, every added clause has a fresh larger id, and propagating exactly the listed hints in order yields the conflict. Deletions name live ids, and the text and compressed encodings of one run carry the same steps.",
 ["inputs", "configurations"], "every formula including duplicated, tautological, conflicting-unit and empty clauses, every configuration, produced during solving or by converting a native proof",
 "LRAT tests need an external ACL2 checker and use sgen formulas without duplicated, tautological or conflicting clauses.",
 ["varisat-lrat/src/lib.rs","varisat-checker/src/rup.rs","varisat-checker/src/clauses.rs","varisat-checker/src/processing.rs","varisat-cli/src/check.rs"],
 "WriteLrat turns checked steps into LRAT lines, buffering deletions and renumbering ids")

prop("C11", "DIMACS input is read exactly",
 "For every byte string, parsing either yields exactly the clauses and variable count the DIMACS CNF text denotes, in order, or reports an error; it never crashes. The outcome does not depend on how the input is split into chunks or read calls, and a header that disagrees with the clauses or variables found, literals out of range, misplaced tokens and truncated input are reported as errors.",
 ["inputs", "fault_sequences"], "every byte string, every partition into chunks and reader behaviours (short reads, interruptions, errors)",
 "Tests parse a handful of fixed strings and roundtrips of generated formulas; tokenizer state across chunk borders and malformed input are barely sampled.",
 ["varisat-dimacs/src/lib.rs"],
 "hand-written byte state machine in DimacsParser::parse_chunk / eof / check_header / parse_incremental")

prop("C12", "DIMACS output reads back as the same formula",
 "Writing any formula as DIMACS text produces a well-formed document that, read by any conforming reader, yields the same clauses with the same literals in the same order and the same variable count. Writing the header and clauses separately produces the same document, and write errors are passed to the caller.",
 ["inputs", "fault_sequences"], "every formula including empty formulas, empty clauses, unused variables, repeated literals and variables up to the maximum; every write failure point",
 "One roundtrip proptest uses the library's own parser, which hides symmetric errors.",
 ["varisat-dimacs/src/lib.rs","varisat-formula/src/cnf.rs","varisat-formula/src/lit.rs"],
 "write_dimacs, write_dimacs_header, write_dimacs_clauses")

prop("C13", "Proof encoding is lossless",
 "Encoding any sequence of proof steps in the native binary format and decoding it gives back the same sequence with all fields equal, for every field value in range. Decoding works for any chunking of the input, consumes exactly the bytes written, and reports an error instead of crashing for truncated or invalid input.",
 ["inputs"], "every proof step sequence with values up to the maxima, every chunking, every truncation or corruption",
 "A proptest covers random steps over a whole buffer; boundary values, chunking and invalid bytes are not covered.",
 ["varisat-internal-proof/src/binary_format.rs","varisat-internal-proof/src/vli_enc.rs","varisat-internal-proof/src/lib.rs"],
 "write_step / Parser::parse_step on top of a prefix-coded variable length integer encoding")

prop("C14", "I/O and processor failures are reported and never corrupt results",
 "When writing a proof fails at any byte, or a proof processor fails at any step, or reading a proof or formula fails at any byte, the affected call reports that error to the caller instead of reporting success. A solver that reported such an error refuses further solving, one without an error keeps giving correct results, and a proof cut at any byte is never accepted as complete.",
 ["fault_sequences", "crash_points"], "every byte position and every call at which a reader, writer or processor can fail or do short work",
 "Two tests fail the very first write and the first step; the position of the failure decides which code path has to carry the error.",
 ["varisat/src/proof.rs","varisat/src/solver.rs","varisat-checker/src/state.rs","varisat-checker/src/lib.rs","varisat-lrat/src/lib.rs","varisat-dimacs/src/lib.rs"],
 "solver_error stored by handle_io_errors / handle_self_check_result and surfaced by check_for_solver_error; CheckerError mapping of read errors")

prop("C15", "The command line honours its contract",
 "For every input file or standard input, the command line solver prints a status line and exits with 10 and a value line that satisfies the formula for satisfiable ones, with 20 for unsatisfiable ones, and with another code and a message for unreadable or malformed input and invalid options. Every proof it writes in any offered format is valid for that formula, and its checker mode reports a proof as verified exactly when it is a complete valid proof for the given formula.",
 ["inputs", "configurations", "fault_sequences"], "every formula, every supported option combination, every malformed or truncated input, proof or option value",
 "There are no tests of the command line program.",
 ["varisat-cli/src/main.rs","varisat-cli/src/check.rs","varisat-cli/src/check/transcript.rs"],
 "main_with_err maps verdicts and errors to output and exit codes; check subcommand wires checker, transcript and LRAT conversion")

prop("C16", "No memory errors and no crashes on valid use",
 "No sequence of documented API calls on valid arguments causes an out-of-bounds access, use after free, uninitialised read, arithmetic overflow, internal assertion failure or panic in the solver, checker, parser or proof writers. This holds across clause storage growth, garbage collection, variable recycling and clause database reduction.",
 ["histories", "inputs", "configurations"], "every valid call sequence on every input size and configuration",
 "Unsafe code in clause storage, watch traversal and raw slices is only exercised by ordinary tests without sanitizers, and garbage collection rarely triggers there.",
 ["varisat/src/clause/alloc.rs","varisat/src/clause/gc.rs","varisat/src/clause/header.rs","varisat/src/prop/long.rs","varisat/src/prop/watch.rs","varisat/src/prop/assignment.rs","varisat-checker/src/clauses.rs","varisat-formula/src/cnf.rs"],
 "unsafe pointer arithmetic on the clause buffer and assignment; debug assertions on structural invariants")

prop("C17", "Enumerating models yields every solution exactly once",
 "Repeatedly solving and blocking the returned model visits every satisfying assignment of the caller's variables exactly once and then reports unsatisfiable, for every formula and configuration. So neither learning, simplification, reduction nor garbage collection ever adds or loses a constraint over the life of a solver.",
 ["histories", "inputs", "configurations"], "every formula and every enumeration order, with blocking by full models, by projected models and by assumptions",
 "No test enumerates models; a lost or spurious constraint is invisible to a single solve that happens to pick another model.",
 ["varisat/src/cdcl.rs","varisat/src/clause/db.rs","varisat/src/clause/reduce.rs","varisat/src/clause/gc.rs","varisat/src/unit_simplify.rs","varisat/src/binary.rs","varisat/src/load.rs"],
 "the clause database as a whole: learnt clauses, in-place simplification, deletion and compaction")

prop("C18", "Formula containers and literals behave like their mathematical model",
 "Literals and variables convert losslessly between index, code, polarity and DIMACS number over their whole range, negation is an involution that keeps the variable, and out-of-range values are rejected. A formula is exactly the list of clauses that were added to it, its variable count is one more than the largest variable used or the declared count, and building it through any of the offered routes gives the same formula.",
 ["inputs", "histories"], "every literal, variable and clause list, every sequence of formula operations",
 "Proptests cover DIMACS roundtrip-style equality on small generated formulas, not the operation sequences or range limits.",
 ["varisat-formula/src/lit.rs","varisat-formula/src/cnf.rs","varisat-formula/src/lib.rs"],
 "packed literal codes; CnfFormula's flat literal buffer with ranges; ExtendFormula trait")

prop("C19", "Configuration updates are validated, atomic and harmless",
 "A configuration update either is applied completely, changing exactly the options it sets, or is rejected naming an option that is out of its documented range and then changes nothing. Updates merge with later values winning, textual and structured forms agree, and no accepted configuration at any time during solving changes a verdict.",
 ["configurations", "histories"], "every assignment of option values including boundaries, NaN and infinities, every merge order, every time of application",
 "One test in the macro crate checks one rejected and one accepted update.",
 ["varisat/src/config.rs","varisat-internal-macros/src/lib.rs","varisat/src/context.rs","varisat-cli/src/main.rs"],
 "derive macro generating range checks, apply and merge; config_changed propagates decay values into live heuristics")

prop("C20", "Runs are reproducible",
 "The same sequence of calls on a new solver, in the same build, produces the same verdicts, models, failed cores, new variable names and proof bytes every time, on any thread and in any process. Proof output does not depend on how the caller's writer splits or delays writes.",
 ["histories", "schedules"], "every call history, repeated in the same process, in other threads and in other processes",
 "No test runs anything twice.",
 ["varisat/src/variables.rs","varisat/src/decision/vsids.rs","varisat/src/proof.rs","varisat-checker/src/hash.rs"],
 "deterministic hash sets for free lists, no global state, buffered writer")

prop("C21", "Solving makes bounded progress",
 "Every solve call returns: on a formula with n variables the number of derived clauses stays below a fixed generous bound for n, for every configuration including the most aggressive restart, reduction and decay settings, and for every history of earlier solves. Between two derived clauses or the result only a bounded amount of work is done.",
 ["inputs", "configurations", "histories"], "every small formula, every valid configuration, every history of earlier solves",
 "Tests use default-like schedules; starvation or livelock from restarts, reductions or heuristic rescaling needs extreme settings and long runs.",
 ["varisat/src/schedule.rs","varisat/src/schedule/luby.rs","varisat/src/clause/reduce.rs","varisat/src/clause/activity.rs","varisat/src/decision/vsids.rs","varisat/src/cdcl.rs"],
 "schedule_step loop, Luby restarts, clause reduction, activity rescaling")

prop("C22", "The checker accepts every correct proof of its format",
 "Any step sequence whose derived clauses follow by unit propagation through the clauses named by their hashes, whose deletions are justified, and whose models and failed cores are true is accepted, whatever program produced it, in whatever clause order, literal order, hash width and variable naming. The transcript and the checked steps handed to processors then describe exactly those steps.",
 ["inputs", "histories"], "every correct proof over every formula, including hash collisions, duplicated clauses and renamed variables",
 "Tests only check proofs made by the bundled solver, which uses a narrow subset of the format's freedom.",
 ["varisat-checker/src/state.rs","varisat-checker/src/rup.rs","varisat-checker/src/clauses.rs","varisat-checker/src/hash.rs","varisat-checker/src/variables.rs"],
 "hash buckets with collision handling, reference-counted duplicate clauses, trace recording, solver-name based hashing")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
print(len(P))

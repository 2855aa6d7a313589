#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (only properties with a check in the harness)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOUND = ("No alarm is possible without an execution of the real code that the oracle shows to be wrong; "
         "coverage is that of the generated executions, whose counts are in the evidence file. ")
T = {
 "C01": ("runtime monitoring: generated formulas, verdict oracle by reference procedure, model evaluation and refutation checking",
         "Trusts the harness's reference DPLL (self-tested against brute force at every start), evaluator and RUP checker."),
 "C02": ("runtime monitoring: online reference model of the solver's observable state over call histories",
         "Trusts the harness's reference world and evaluator."),
 "C03": ("runtime monitoring: online reference model over incremental call histories, verdict oracle per solve",
         "Trusts the harness's reference world, DPLL and RUP checker."),
 "C04": ("runtime monitoring: online reference model over assumption histories, core oracle per failed solve",
         "Trusts the harness's reference world, DPLL and RUP checker."),
 "C05": ("runtime monitoring: online reference model with name-to-variable tracking over hide/witness/observe histories",
         "Trusts the harness's reference world and DPLL."),

 "C06": ("runtime monitoring: recorded call log compared with the transcript the real checker derives from the recorded proof",
         "Trusts the harness's call recorder; the checker's own soundness is C08's subject."),
 "C07": ("runtime monitoring: online trace checker over the checked proof step stream, plus differential runs with and without monitors",
         "Trusts the harness's event monitor and RUP checker."),
 "C08": ("runtime monitoring: an independent reference of the claims in a proof (reference solver, name bookkeeping) compared with what the real checker accepts, over forged, mutated and random proofs",
         "Trusts the harness's proof encoder, claims reference and DPLL."),
 "C09": ("runtime monitoring: offline forward DRAT (RUP) checker with multiset deletion over the recorded proof bytes",
         "Trusts the harness's DRAT readers and RUP checker."),
 "C10": ("runtime monitoring: offline LRAT checker over the recorded proof bytes, with a strict hint propagation oracle",
         "Trusts the harness's LRAT readers and checker."),
 "C11": ("runtime monitoring: differential oracle against an independent reference DIMACS reader, over generated and damaged documents and chunkings",
         "Trusts the harness's reference reader; documents on which readers legitimately differ are only checked for chunking independence and absence of crashes."),
 "C12": ("runtime monitoring: written documents read back with an independent reference reader, with fault injecting writers",
         "Trusts the harness's reference reader."),
 "C13": ("runtime monitoring: round trip oracle over generated step sequences, chunkings, truncations and damaged bytes",
         "Trusts the harness's independent decoder and encoder of the format."),
 "C14": ("runtime monitoring with fault injection: every fault position of recorded call sequences replayed against failing readers, writers and processors, compared with the run without faults",
         "Trusts the harness's failing readers and writers and its recorded call sequences."),
 "C15": ("runtime monitoring: the built program run as a process; output, exit code and written proof files checked by independent oracles, with missing files, full disks and malformed input",
         "Trusts the harness's DIMACS reader, DPLL, DRAT and LRAT checkers; native proofs are judged by the library checker (C08)."),
 "C16": ("sanitizers and undefined behaviour interpreter: the workloads of the other checks and long sessions under AddressSanitizer, MemorySanitizer, Miri (Tree Borrows) and builds with overflow checks and internal assertions",
         "Leaks are not counted; Miri reaches only small inputs; C12's workload is left out under Miri because a dependency (itoa 0.4.6) uses uninitialized memory."),
 "C19": ("runtime monitoring: reference model of the documented options; differential replay of call histories with updates that must not matter",
         "Trusts the harness's table of documented ranges and defaults."),
 "C17": ("runtime monitoring: conservation oracle over enumeration histories (every model exactly once against brute force)",
         "Trusts the harness's brute force model counter."),
 "C18": ("runtime monitoring: reference model of literals and formula containers run beside the real types",
         "Trusts the harness's list-of-lists model."),
 "C20": ("runtime monitoring: recorded observations of repeated runs compared across threads, processes and writers",
         "Compares complete observation logs; no oracle beyond equality."),
 "C22": ("runtime monitoring: an independent proof producer whose every step is justified; acceptance, transcript and checked steps compared with the steps produced",
         "Trusts the harness's producer (propagation, hashing, naming)."),
 "C21": ("runtime monitoring: derived clause counters from proof processors and CPU time watchdog against a bound per variable count",
         "The work bound between two steps is a watchdog on CPU time and steps, chosen generously."),
}
T.update(json.load(open(os.path.join(here, "tools", "manifest_extra.json"))) if os.path.exists(os.path.join(here, "tools", "manifest_extra.json")) else {})
checks = []
for pid in sorted(T):
    tech, note = T[pid]
    level = "fault_enumeration" if pid == "C14" else "exploration"
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": tech,
        "level": level,
        "level_note": SOUND + note,
    })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": [],
 "notes": "All checks drive the real crates from /repo through their public interfaces; no hooks are needed. See DESIGN.md.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for p in props:
    if p not in T:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json. Run from /verif."""
import json
TECH = "deterministic simulation with fault injection: seeded search over %s, lockstep reference model"
SPACE = {
 "C01": "thread interleavings (compiler-inserted scheduling points; ASan and TSan builds)",
 "C02": "registry histories, overlapping executions and faults",
 "C03": "coop and preemptive schedules of nested and overlapping executions",
 "C04": "allocation-failure placements in registry operations",
 "C05": "allocation-failure placements in executions",
 "C06": "exception placements in nested executions, with catching on and off",
 "C07": "ownership histories with failing allocations and exceptions, heap and object ledgers",
 "C08": "failing conversions, exceptions, allocation failures and schedules",
 "C09": "transport faults on command text (loss, flip, duplicate, splice, truncate, reorder)",
 "C10": "recycling points of the caller's buffers",
 "C11": "parser replacement points and parser failures",
 "C12": "string histories with allocation-failure placements",
 "C13": "vector histories with allocation- and copy-failure placements",
 "C14": "hash-map histories with allocation- and copy-failure placements, counted work",
 "C15": "value-type histories with allocation- and copy-failure placements",
 "C16": "formatting failures, errno noise and heap contents, differential runs",
 "C17": "fault storms followed by healing, counted work against a fresh twin",
}
NA = {
 "C18": "splitting well-formed text is a pure function of the text: no schedule, clock, fault, allocation outcome or history changes what it must yield. (The simulated clients of C08 and C09 do compare every text they send with an independent model of the syntax, but that is input generation, not simulation, so the property isn't claimed.)",
 "C19": "number parsing is a pure function of the text; its only environmental dependence (errno, formatting failures) is claimed as C16.",
 "C20": "value-to-text-to-value is a pure function of the value; its only environmental dependence (formatting failures) is claimed as C16.",
 "C21": "a compile-time fact: nothing executes, so there is nothing to simulate.",
}
NOTE = ("Sampling: seeded search over simulated runs of the real library, not enumeration; a clean batch is evidence, not proof. "
        "Trusted: the reference model and scheduler in /verif/sim, the sanitizers, glibc, and that the scheduling points the compiler inserts "
        "(basic blocks, loads and stores) are where interleavings matter. Every violation is gated by two fresh-process replays with equal event hashes.")
m = {
 "version": 1,
 "setup_cmd": "python3 run.py setup",
 "checks": [{
   "property": p,
   "quick_cmd": "python3 run.py check " + p,
   "thorough_cmd": "python3 run.py check %s --thorough" % p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": TECH % SPACE[p],
   "level": "exploration",
   "level_note": NOTE,
 } for p in sorted(SPACE)],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "No hooks in /repo: the seams are the allocator, the C formatting functions (linker --wrap), compiler-inserted scheduling points (-fsanitize-coverage) and the library's own extension points. Replay a violation with: python3 run.py replay FILE [--trace]. Determinism proof: python3 run.py determinism 5.",
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")

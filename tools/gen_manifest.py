#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIPE = ("deterministic simulation of the compile pipeline: seeded schedules, hash seeds and faults over generated programs, judged against what the generated text promises",
        "Seeded search: every synchronisation operation and atomic access of the real llrl library (rayon and crossbeam included) is a scheduling point decided by one seed, so a clean batch is evidence over the sampled schedules, not proof. Trusts the simulator, the program generator's own account of what its text means, and sequential consistency (no weak-memory reordering).")
NOTES = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "G02"):
    NOTES[p] = ("exploration",) + PIPE
SIMOS = ("deterministic simulation of the operating system under compiled programs: seeded schedules of processes, refused, interrupted and split system calls, full disks and collector timing, judged against a reference model of the operations",
         "Seeded search: programs built by the compiler under test (both back ends) run with their real code, runtime and C library on a simulated kernel where one seed decides every outcome; a clean batch is evidence over the sampled executions, not proof. Trusts the simulated kernel's semantics and the model; executed programs are scripted stubs.")
for p in ("R01", "R02", "L01", "L02", "L03", "L04", "G01"):
    NOTES[p] = ("exploration",) + SIMOS
CLI = ("deterministic simulation of the system around the compiler's executable: seeded failures of files, directories, pipes and processes while it links and runs, judged by the recorded calls and what is left",
       "Seeded search: the compiler's executable runs for real; the linker and the built program are scripts of the simulated system, whose every outcome is decided by one seed. A clean batch is evidence over the sampled executions, not proof.")
for p in ("C10", "C11"):
    NOTES[p] = ("exploration",) + CLI
SELF = ("deterministic simulation of the operating system under the self-hosted compiler: seeded random sources, collections, heap placement, schedules, refused, interrupted and split system calls, full disks and linker failures, judged against a calm run and the recorded calls",
        "Seeded search: the self-hosted compiler, built by the compiler under test with both back ends, runs for real on a simulated kernel where one seed decides every outcome; a clean batch is evidence over the sampled executions, not proof. The linker and the produced program are scripted stubs; the collector's schedule and the heap's placement are forced, its algorithm is real.")
for p in ("S01", "S02"):
    NOTES[p] = ("exploration",) + SELF
XT = ("deterministic simulation of the memory system and of write destinations under the real xten0 crate: seeded placement, refused memory calls, split and refused writes, over seeded histories of objects, judged against a model of what each symbol is",
      "Seeded search: the JIT engine and the object writer run for real and the loaded machine code is executed; one seed decides every placement, failure and write. A clean batch is evidence over the sampled histories, not proof.")
for p in ("J01", "J02"):
    NOTES[p] = ("exploration",) + XT
sys.path.insert(0, os.path.join(V, "tools"))
try:
    import manifest_extra
    NOTES.update(manifest_extra.NOTES)
    NA = manifest_extra.NA
    HOOKS = manifest_extra.HOOKS
except ImportError:
    NA, HOOKS = {}, None
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NOTES:
        lv, t, n = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": lv, "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "pure function of its input: no schedule, clock, fault or interleaving to simulate" if p[0] == "N" else "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 checks/run.py --setup", "checks": checks, "not_applicable": na}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

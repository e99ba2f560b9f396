#!/usr/bin/env python3
"""Writes MANIFEST.json; the list of claimed properties is kept here."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = ("stateless model checking of the real code: exhaustive enumeration of bounded operation histories x fault/crash/cancellation placements, with a reference model checked at every step",
        "Every execution of the stated scenarios runs the library's own code (no extracted model) against an instrumented storage device; all choice sequences within the bounds are enumerated, never sampled. Trusts the storage device model (elements append-only; an interrupted call has taken effect or not), the reference model in hist.rs and the executor. Bounds (keys, values, history depth, number of faults) are in DESIGN.md and in the evidence.")
WORK = ("stateless model checking of the real worker future under a controlled executor and virtual clock: exhaustive enumeration of event scripts and timings around the delays",
        "All scripts of the stated events and gaps are enumerated; the worker runs unmodified on a virtual embassy-time driver. Trusts that driver, the executor and the storage device model.")
T = {
 "hist": HIST, "work": WORK,
 "content": ("explicit enumeration of all storage contents up to a length over an element alphabet, each run through the real load/collect/flush code and compared with a reference selection",
        "Every content sequence within the bound is tried. Trusts the reference selection function and the element encoder of the harness (which is itself compared with what the library writes)."),
 "thr": ("stateless model checking of thread interleavings: the real code on controlled threads, all schedules up to a preemption bound",
        "Every interleaving at the scheduling points (atomics, list mutex, storage calls) with at most the stated number of preemptions is explored under sequential consistency. Weak-memory reorderings are outside the exploration."),
 "value": ("stateless model checking with a tracked value type: all bounded histories, live-object registry compared with the nodes' states at each step",
        "All bounded histories of the stated operations; the registry sees construction, clone and drop of every value. Memory effects that never reach a value's own code are not observed."),
 "flash": ("stateless model checking of the real flash backend (sequential-storage included) on a NOR flash simulator: all bounded histories, geometries, caches and power cuts at every word write and page erase",
        "All histories within the bounds; sequential-storage is part of the checked code. Trusts the NOR model (writes clear bits, torn after any number of write units or half of one; erases torn at a few positions) and the reference models in p_flash.rs."),
}
CLAIMED = {}
for l, ids in (("hist", "C01 C02 C03 C04 C05 C06 C08 C09 C10 C11 C12 C14 C15 C16 C27 C28 C30"),
               ("work", "C21 C22 C23 C29"),
               ("content", "C07 C13 C31"), ("thr", "C18 C19 C20"), ("value", "C17"), ("flash", "C24 C25 C26 C32")):
    for i in ids.split():
        CLAIMED[i] = l
NOT = {}
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
for i in props:
    if i not in CLAIMED:
        NOT.setdefault(i, "no check built yet")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg noodle_mc", "--fixed-strings"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "noodle_mc", "enable": "rustc --cfg noodle_mc, set by /verif/harness/.cargo/config.toml", "source_commits": hook},
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i} quick",
   "thorough_cmd": f"./check.sh {i} thorough",
   "technique": T[CLAIMED[i]][0],
   "level": "model_checking",
   "level_note": T[CLAIMED[i]][1],
 } for i in props if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": r} for i, r in NOT.items()],
 "notes": "All checks are one binary built by check.sh from /verif/harness with a path dependency on /repo; see DESIGN.md.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")

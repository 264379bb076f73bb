#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the claimed checks are the ones in NOTES."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
SEARCH = ("Explicit-state search over the real compiled code: every operation sequence up to the stated depth from every "
          "start state, states merged by content hash, judged after every transition by an independent relational oracle")
T_ENUM = "bounded exhaustive enumeration of inputs on the real code (explicit-state, reference oracle)"
T_STORE = "explicit-state model checking of the real code: all operation sequences to a depth, state hashing, relational oracle"
NOTES = {
 "C01": (T_ENUM, "Every query, candidate sequence and k over a small alphabet of vectors; the search code is the real one. Assumes the alphabet is representative beyond its bounds (length, dimension, k)."),
 "C02": (T_ENUM, "Every pair/list of vectors over a small alphabet including zero, tiny, huge and mixed dimensions; real code. Tolerance 1e-9 for rounding."),
}
for i in range(3, 12):
    NOTES["C%02d" % i] = (T_STORE, SEARCH + ". Bounded by the alphabet of vectors, expiries and operation arguments and by the depth reported in the evidence.")
extra = os.path.join(root, "tools", "manifest_notes.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        NOTES[k] = tuple(v)
NA = {}
checks = []
for i in ids:
    if i not in NOTES:
        continue
    t, n = NOTES[i]
    checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in NOTES],
     "notes": "No hooks in /repo: the runner instruments a throw-away copy of /repo's working tree (Go source rewriting) and runs the real code under a controlled scheduler."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

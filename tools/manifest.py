#!/usr/bin/env python3
# Writes MANIFEST.json: one check per property that has harnesses; run from /verif.
import json, re, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
have = {}
for f in glob.glob("harness/hs/*.go"):
    for m in re.finditer(r"^func H_(C\d\d)_(\w+)\(", open(f).read(), re.M):
        have.setdefault(m.group(1), []).append(m.group(2))
note = ("Symbolic execution of the Go SSA of /repo's current sources with the harnesses {h}; branches and assertions decided by Z3 for all values "
        "within the bounds stated per harness in the evidence (domain_exhausted tells whether every path was explored within the time). Trusted: the engine's "
        "SSA semantics and models of os, sync, reflect, time, rand (sampled paths are compared with a native run), and Z3. A violation is reported only "
        "after the counterexample reproduced natively.")
special = {"C15": "Shared accesses and happens-before edges of two calls are recorded on symbolic paths, Z3 decides whether two conflicting accesses can be unordered; "
                  "candidates are confirmed by the race detector. Bounds: two or three concurrent calls of the listed kinds. "}
na = json.load(open("tools/not_applicable.json")) if os.path.exists("tools/not_applicable.json") else {}
checks, nots = [], []
for i in ids:
    if i in have and i not in na:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "technique": "solver-based symbolic execution (Go SSA, Z3)", "level": "model_checking",
                       "level_note": special.get(i, "") + note.format(h=", ".join(sorted(have[i])))})
    else:
        nots.append({"property": i, "reason": na.get(i, "no harness yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nots}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

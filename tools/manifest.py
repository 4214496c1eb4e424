#!/usr/bin/env python3
"""rewrites MANIFEST.json from cases.py (which properties have checks) and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import cases as C
NA = json.load(open(os.path.join(V, "tools/not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA or not C.EXPECT.get(i):
        na.append({"property": i, "reason": NA.get(i, "check still being built")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i} quick",
        "thorough_cmd": f"python3 run.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the crate's LLVM IR (regenerated from /repo each run) to an and-inverter graph; "
                     "BDD sweeping and CDCL, equivalences re-proved and assertions decided by z3; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every input within the bounds (bounds: " + C.PROPS[i]["bounds"] + "). Trusted: rustc's code generation, the "
                      "executor (engine/), the reference model in harness/, the stand-ins in stubs/ for std HashMap/HashSet, "
                      "indexmap and sgf_parser's text parsing; all exercised by native replay of sampled inputs in every run. Nothing is claimed "
                      "outside the bounds.",
    })
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known-findings.txt lists the repaired defects"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])

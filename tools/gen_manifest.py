#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the CLAIMS table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "stateless model checking of the implementation (exhaustive bounded exploration)"
SCHED = "stateless model checking under a controlled scheduler (exhaustive up to a preemption bound)"
FAULT = "exhaustive enumeration of fault and crash points over bounded histories"
INPUT = "exhaustive enumeration of a bounded input space against a reference model"
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./harness/run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./harness/run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check copies /repo's sources and instruments the copy. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")

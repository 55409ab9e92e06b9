#!/usr/bin/env python3
"""coverage.py [EVIDENCE_DIR]: writes COVERAGE.md from the evidence files of a clean run."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, "evidence")
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); titles[d["id"]] = d["title"]
out = ["# Coverage of the last recorded quick run", "",
       "Generated by `tools/coverage.py` from the evidence files; every check rewrites its own evidence.", "",
       "| property | executions on the code | distinct states / cases | operations | choice depth | exhaustive | s |",
       "|---|---|---|---|---|---|---|"]
more = []
for i in titles:
    e = json.load(open(os.path.join(D, i + ".json"))); c = e["coverage"]
    n = sum(int(s.split(": ")[1].split()[0]) for s in c["scenarios"])
    st = c.get("states", c.get("distinct_nontrivial"))
    op = c.get("transitions", c.get("evaluations"))
    out.append(f"| {i} | {n} | {st} | {op} | {c['max_choice_depth']} | {'yes' if c['exhaustive'] else 'NO'} | {e['wall_s']:.0f} |")
    more += ["", f"### {i} {titles[i]}", "", c["rule"], ""]
    more += ["* " + s for s in c["scenarios"]]
open(os.path.join(V, "COVERAGE.md"), "w").write("\n".join(out + [""] + more) + "\n")

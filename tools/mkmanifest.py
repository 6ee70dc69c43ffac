#!/usr/bin/env python3
"""Rewrite MANIFEST.json from bin/campaigns.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from campaigns import CAMPAIGNS, NOT_APPLICABLE, LEVEL
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CAMPAIGNS:
        c = CAMPAIGNS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "bin/check %s --tier quick" % i,
            "thorough_cmd": "bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
m["notes"] = ("No hooks are added to /repo: every seam (OpenMP runtime, memory accesses, heap, stdio and system calls, "
              "clock, FFTW planner, MPI communicator, Python file objects and thread switches) is interposed at link, compile or import time.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

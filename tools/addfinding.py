#!/usr/bin/env python3
"""addfinding.py ID PROPERTY fixed COMMIT TEXT | addfinding.py ID PROPERTY known TEXT"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
f = json.load(open(p)); i, prop, st = sys.argv[1:4]
what = f"fixed: property={prop} {sys.argv[4]} {sys.argv[5]}" if st == "fixed" else sys.argv[4]
f["findings"].append(dict(id=i, property=prop, status=st, what=what))
json.dump(f, open(p, "w"), indent=1)

#!/usr/bin/env python3
"""Write DESIGN.md from tools/DESIGN.in.md, known_findings.json, seeded/*/meta.json and tools/caught.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["## 4. Findings\n", "Genuine defects met on the way (each shown against the real code first). A \"fix:\"\ncommit in /repo repairs them; fixed entries suppress nothing.\n"]
f = json.load(open(V + "/known_findings.json"))["findings"]
for k in f:
    if k["status"] == "fixed":
        out.append("* %s" % k["what"].replace("fixed: ", ""))
kn = [k for k in f if k["status"] == "known"]
out.append("\nKnown findings left unrepaired (printed as KNOWN-FINDING): %s\n" % ("none." if not kn else ""))
for k in kn:
    out.append("* %s: %s" % (k["property"], k["what"]))
out += ["\n## 5. Planted bugs\n", "Written from the property texts and the code; each builds, passes the stable tests,\nand its demonstration fails only with it. \"Caught by\": check and campaign, as last measured.\n",
        "| id | breaks | needs | caught by |", "|---|---|---|---|"]
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"], d["needs"], c.get(i, "%s" % d["property"])))
s = open(V + "/tools/DESIGN.in.md").read().replace("@@FINDINGS@@", "\n".join(out))
open(V + "/DESIGN.md", "w").write(s)

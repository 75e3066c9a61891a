#!/usr/bin/env python3
"""Development tool: the table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json and tools/catches.txt."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(V + "/tools/catches.txt"):
    f = l.split()
    if len(f) >= 3:
        res[f[0]] = (f[1], f[2])
rows = ["| change | what it needs | reported by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    p, r = res.get(i, (m["property"], "?"))
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "\\|"), p if r == "rc=1" else {"rc=0": "missed", "?": "not run"}.get(r, r)))
t = open(V + "/DESIGN.md").read()
mark = "<!-- table -->\n"
t = t[:t.index(mark) + len(mark)] + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(t)

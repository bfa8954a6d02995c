#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), " ".join(d["needs"].split())))
rows.sort()
t = ["| bug | caught by | needs |", "|---|---|---|"]
t += ["| %s | %s | %s |" % (b, p, n.replace("|", "/")) for p, b, n in rows]
s = open(root + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "\n<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(root + "/DESIGN.md", "w").write(s[:i] + "\n".join(t) + s[j:])

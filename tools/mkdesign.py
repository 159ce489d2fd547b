#!/usr/bin/env python3
"""Fill the list of planted bugs in DESIGN.md (between its two marks) from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
rows = ["| planted bug | needs |", "|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    rows.append("| %s | %s |" % (d, json.load(open("%s/seeded/%s/meta.json" % (V, d)))["needs"].replace("|", "\\|")))
i, j = t.index(a) + len(a), t.index(b)
open(V + "/DESIGN.md", "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 5)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
p = V + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

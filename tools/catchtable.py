#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | what it breaks |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    t = " ".join(m["what_it_breaks"].split()).replace("|", "/")
    t = re.split(r"(?<=[a-z\)])[.;] ", t)[0].rstrip(".")
    rows.append("| %s | %s | %s |" % (i, m["property"], t if len(t) < 170 else t[:165] + "…"))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- planted -->"), s.index("<!-- /planted -->")
open(p, "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n" + s[b:])

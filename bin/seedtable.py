#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (only used while writing)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m.get("caught_by", m["property"])))
T = "<!-- seeded -->\n| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
f = V + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: T, s, flags=re.S)
open(f, "w").write(s)

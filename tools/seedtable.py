#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (development aid)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d))); rows.append("| %s | %s | %s | caught by %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["property"]))
t = "<!-- seeds -->\n| change | property | needs | verdict |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", t)
open(V + "/DESIGN.md", "w").write(s)

#!/opt/venv/bin/python
"""Rewrites the table of section 6 of DESIGN.md from seeded/*/meta.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"c03-stale-target": "missed (see below)"}
rows = ["| bug | needs | what breaks | caught by |", "|---|---|---|---|"]
cell = lambda s: " ".join(str(s).replace("|", "/").split())
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (
        d, cell(m["needs"]), cell(m["what_it_breaks"]), MISSED.get(d, "check " + m["property"])))
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
a, b = "<!-- plants -->", "<!-- /plants -->"
i, j = t.index(a), t.index(b)
open(p, "w").write(t[:i] + a + "\n" + "\n".join(rows) + "\n" + t[j:])

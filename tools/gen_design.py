#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (never read by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
p = os.path.join(V, "DESIGN.md")
txt = open(p).read()
head = "## 7. Planted bugs and which check catches them"
i = txt.index(head)
rows = ["| change | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m.get("caught_by", m["property"]), m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
notes = open(os.path.join(V, "tools", "plants", "NOTES.md")).read()
open(p, "w").write(txt[:i] + head + "\n\n" + notes + "\n" + "\n".join(rows) + "\n")

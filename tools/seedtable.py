#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, os
V = "/verif"
NOTES = json.load(open(V + "/tools/seednotes.json"))
s = open(V + "/DESIGN.md").read()
mark = "<!-- table of planted changes -->"
head = s.split(mark)[0].rstrip("\n")
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    n = NOTES.get(i)
    rows.append((m["property"], "| %s | %s%s | %s | %s |" % (m["property"], i, " *" if n else "", m["needs"].replace("|", "/"), n or "")))
rows.sort()
open(V + "/DESIGN.md", "w").write(head + "\n\n" + mark + "\n| property | change | needs | strengthening |\n| --- | --- | --- | --- |\n" + "\n".join(r for _, r in rows) + "\n")

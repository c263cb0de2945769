#!/usr/bin/env python3
"""Writes DESIGN.md: the template with the table of planted bugs and counts."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "tools", "DESIGN.tpl.md")).read()
rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append("| %s%s | %s | %s | %s |" % (n, " (first missed)" if m.get("first_missed") else "", m["property"], m["needs"], m["what_it_breaks"]))
k = [json.loads(l) for l in open(os.path.join(V, "known-findings.jsonl")) if l.strip()]
s = s.replace("SEEDTABLE", "\n".join(rows)).replace("NFIXED", str(sum(x["status"] == "fixed" for x in k)))
open(os.path.join(V, "DESIGN.md"), "w").write(s)

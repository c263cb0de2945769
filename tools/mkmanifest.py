#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (groups.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import groups
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = groups.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="specification and harness not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick ./check " + p["id"],
        thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=c.get("technique", "TLA+ specification, model checked with TLC; recorded runs of the real code under a controlled scheduler validated step by step against it"),
        level=c.get("level", "model_checking"),
        level_note=c.get("note", "The design is checked exhaustively within small bounds; the code is bound to it by trace validation of randomly scheduled real runs, so the code itself is covered by sampling of schedules, not exhaustively. Trusts TLC, the Go runtime's testing/synctest, and the recording harness.")))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: the checks compile instrumented copies of the working tree through go's -overlay", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Specifications in spec/ (TLA+, TLC), harness in harness/ (Go), driver ./check. known-findings.jsonl lists findings and fixes.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(V, "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
man = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [], "not_applicable": [],
    "notes": "All checks: deterministic simulation (seeded scheduler and fault injector). run.py replay FILE re-executes a replay file; run.py determinism compares logs across worker counts.",
}
if HOOKS:
    man["hooks"] = HOOKS
for p in PROPS:
    if p.get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick python3 run.py check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
MC = "model_checking"
NOTES = json.load(open(os.path.join(here, "checks", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
import run
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in run.CHECKS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, n = NOTES[i]
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                   "technique": t, "level": run.LEVEL.get(i, MC), "level_note": n})
m = {"version": 1, "setup_cmd": "python3 -c \"import os; os.makedirs('build', exist_ok=True)\"",
     "hooks": {"guard": "FLBWT_VERIFY", "enable": "the checks compile /repo's sources themselves; those that need positions of any magnitude add -DFLBWT_VERIFY and define flbwt_verify_base_offset", "source_commits": ["3357900"]},
     "checks": checks}
m["not_applicable"] = na
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

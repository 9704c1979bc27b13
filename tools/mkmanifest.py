#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of suites."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p["id"] in suites.PROPS:
        mods = sorted({suites.SUITES[s].module for s in suites.PROPS[p["id"]]})
        c = {"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 tools/check.py {p['id']}",
             "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
             "technique": "TLA+ specification (" + ", ".join(mods) + ") model checked with TLC; its state graph and seeded scripts replayed into the real code, recorded traces validated against the specification by TLC",
             "level": "model_checking",
             "level_note": suites.NOTES.get(p["id"], "Exhaustive within the constants of the bounded model; the binding to the code covers every model transition plus seeded longer histories. Nothing is claimed beyond those bounds."),
             "evidence_file": f"evidence/{p['id']}.json"}
        checks.append(c)
    else:
        na.append({"property": p["id"], "reason": suites.NA.get(p["id"], "No check has been built yet.")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks that exist (vf/cNN.py with LEVEL/TECHNIQUE/NOTE).
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    try:
        m = importlib.import_module("vf." + p.lower())
    except ModuleNotFoundError:
        na.append(dict(property=p, reason="Check not built yet."))
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=m.TECHNIQUE,
                       level=getattr(m, "LEVEL", "model_checking"), level_note=m.NOTE))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="Specifications in spec/ (TLA+, TLC); drivers in drivers/ bind them to the library built from /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

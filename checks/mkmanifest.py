#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.SPECS:
        s = registry.SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s --tier thorough" % i,
                           technique=s.technique, level="exploration", level_note=s.note))
    else:
        na.append(dict(property=i, reason=registry.NA.get(i, "no check is registered yet")) if hasattr(registry, "NA") else dict(property=i, reason="no check is registered yet"))
json.dump(dict(version=1, setup_cmd="bash tools/build.sh plain", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

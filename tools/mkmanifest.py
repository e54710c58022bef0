#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import HARNESS, TECH, NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in HARNESS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "technique": TECH.get(i, "property-based testing against a reference model"),
                       "level": "exploration",
                       "level_note": NOTE.get(i, "Randomised search over generated cases (fixed seed), with shrinking; nothing is proved beyond the cases run.")})
    else:
        na.append({"property": i, "reason": "no check has been built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. tools/build.py builds /repo's current tree with sanitizers into /verif/build."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

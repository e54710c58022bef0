#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rp = os.path.join(V, "tools", "seed_results.json")
res = json.load(open(rp)) if os.path.exists(rp) else {}
p = os.path.join(V, "DESIGN.md")
t = open(p, encoding="utf-8").read()
i = t.find("## Planted bugs")
t = (t[:i] if i >= 0 else t.replace("@@SEEDS\n", "")).rstrip() + "\n\n## Planted bugs\n\n"
t += "One line per change in `seeded/`; `caught by` is the property's quick check unless said otherwise.\n\n| change | property | what it needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    sid = os.path.basename(os.path.dirname(m))
    d = json.load(open(m, encoding="utf-8"))
    t += "| %s | %s | %s | %s |\n" % (sid, d["property"], d["needs"].replace("|", "/"), res.get(sid, d["property"]))
open(p, "w", encoding="utf-8").write(t)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for p in props:
    c = checks.CHECKS.get(p)
    if not c:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
        continue
    m["checks"].append(dict(property=p, quick_cmd="python3 run.py " + p, thorough_cmd="VERIF_TIER=thorough python3 run.py " + p,
                            evidence_file="evidence/%s.json" % p, technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"],
                       thorough_cmd="bin/check %s --tier thorough" % p["id"],
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks drive the public interfaces of the current tree, built out of tree in "
               "/verif/build. DESIGN.md explains each check; KNOWN_FINDINGS.txt lists defects found.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not")

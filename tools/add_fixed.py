#!/usr/bin/env python3
"""add_fixed.py COMMIT PROPERTY WHAT: record a repaired defect."""
import json, os, sys
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(path))
commit, prop, what = sys.argv[1:4]
line = f"fixed: property={prop} {commit} {what}"
d.setdefault("fixed", [])
if not any(f" {commit} " in x for x in d["fixed"]):
    d["fixed"].append(line)
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")

#!/usr/bin/env python3
"""Write harness/effort.json from the timings in evidence/ (quick tier, idle machine).

Multiplies the quick cases of each sub-check such that it takes about TARGET
seconds, up to LIMIT times (and at least once).
"""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET, LIMIT = 25, 10
with open(VERIF + "/harness/effort.json") as fp:
    now = json.load(fp)
out = {}
for path in sorted(glob.glob(VERIF + "/evidence/C*.json")):
    with open(path) as fp:
        d = json.load(fp)
    for name, r in d["coverage"]["per_check"].items():
        by = now.get(d["property"], {}).get(name, 1)
        n = r["evaluations"] / by
        factor = int(min(LIMIT, max(1, TARGET / max(r["wall_s"] / by, 0.01))))
        if n > 30 and factor > 1:
            out.setdefault(d["property"], {})[name] = factor
with open(VERIF + "/harness/effort.json", "w") as fp:
    json.dump(out, fp, indent=1, sort_keys=True)
    fp.write("\n")

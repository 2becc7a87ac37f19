#!/usr/bin/env python3
"""Plant a bug in a scratch copy, confirm it, and keep it under /verif/seeded/<id>.

plant.plant(id, property, [(file, old, new), ...], needs, breaks, demo_source)
"""
import json
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "8976d45"
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache",
    PYTHONHASHSEED="0", MPLCONFIGDIR="/tmp/plant/mpl",
)
DEMO = """#!/bin/bash
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def scratch(id):
    path = f"/tmp/plant/{id}"
    shutil.rmtree(path, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    shutil.copytree("/repo", path, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    return path


def tests(path):
    """Names of the stable tests which do not pass in a copy."""
    xml = path + "/junit.xml"
    env = dict(ENV, PYTHONPATH=path + "/src")
    subprocess.run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
         "--doctest-modules", "src", "tests", "--disable-warnings", "-o", "junit_family=xunit2", "--junitxml=" + xml],
        cwd=path, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
    )
    subprocess.check_call(["python3", "/opt/vp/results.py", path + "/r.json", "junit:" + xml])
    passed = set(json.load(open(path + "/r.json"))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base if isinstance(base, list) else next(v for v in base.values() if isinstance(v, list) and len(v) == 160))
    return stable - passed


def plant(id, prop, edits, needs, breaks, demo, check=True, tier="quick"):
    path = scratch(id)
    orig = {}
    for f, old, new in edits:
        full = os.path.join(path, "src/glimpse", f)
        s = open(full).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(full, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", path, "diff", "--", "src"], capture_output=True, text=True).stdout
    f = None
    removed = 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            if f not in orig:
                orig[f] = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.splitlines()
        elif line.startswith("-") and line[1:].strip():
            removed += 1
            if line[1:] not in orig[f]:
                print(id, "WARNING: not an original line:", line)
    if not removed:
        print(id, "WARNING: no original line changed")
    out = os.path.join(VERIF, "seeded", id)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    bad = tests(path)
    good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    broken = subprocess.run(["bash", out + "/demo.sh"], cwd=path, capture_output=True, text=True)
    ok = not bad and good.returncode == 0 and broken.returncode != 0
    msg = ""
    if bad:
        msg += f" FAILS TESTS {sorted(bad)[:3]}"
    if good.returncode:
        msg += " DEMO FAILS ON UNCHANGED " + good.stderr[-500:]
    if broken.returncode == 0:
        msg += " DEMO PASSES WITH PATCH"
    caught = None
    if ok and check:
        caught = run(prop, path, tier)
    print(f"{id} [{prop}] {'valid' if ok else 'INVALID'}{msg} {'' if caught is None else caught}", flush=True)
    if not ok:
        shutil.rmtree(out)
    shutil.rmtree(path)
    return ok


def run(prop, path, tier="quick", seed="1"):
    env = dict(os.environ, VERIF_REPO=path, VERIF_TIER=tier, VERIF_SEED=seed)
    p = subprocess.run([VERIF + "/harness/run.py", prop], env=env, capture_output=True, text=True)
    subs = [l[:150] for l in p.stdout.splitlines() if ": " in l and not l.startswith(("VIOL", prop + ":"))]
    if p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout:
        return "CAUGHT " + " / ".join(subs)
    return f"MISSED (exit {p.returncode}) {p.stderr[-300:]}"


def recheck(ids=None, tier="quick"):
    for id in sorted(ids or os.listdir(os.path.join(VERIF, "seeded"))):
        d = os.path.join(VERIF, "seeded", id)
        path = scratch(id)
        prop = json.load(open(d + "/meta.json"))["property"]
        r = subprocess.run(["git", "-C", path, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            print(id, prop, "DOES NOT APPLY", r.stderr[:200])
        else:
            print(id, prop, run(prop, path, tier), flush=True)
        shutil.rmtree(path)


if __name__ == "__main__":
    import sys

    recheck(sys.argv[1:] or None)

#!/opt/venv/bin/python
"""Run one property's check: ``run.py C01`` (VERIF_SEED, VERIF_TIER from env).

``run.py C01 --replay FILE`` re-runs a recorded failing case;
``run.py C01 --only SUB`` runs one sub-check.
"""
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
MEMORY_LIMIT = 4 * 2 ** 30
HANG_LIMIT_S = 300
CRASHES = tuple(-int(getattr(signal, x)) for x in ("SIGSEGV", "SIGABRT", "SIGBUS", "SIGFPE", "SIGILL"))


def environment(scratch):
    env = dict(os.environ)
    env.update(
        MPLBACKEND="agg",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pycache"),
        PYTHONHASHSEED="0",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        OPENCV_LOG_LEVEL="ERROR",
        CPL_LOG="/dev/null",
        HOME=scratch,
        TMPDIR=scratch,
        VERIF_REPO=REPO,
        VERIF_SCRATCH=scratch,
        PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), HERE]),
    )
    env.pop("GLIMPSE_BACKEND", None)
    return env


def load(prop):
    sys.path.insert(0, HERE)
    names = [
        f[:-3]
        for f in os.listdir(os.path.join(HERE, "props"))
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py")
    ]
    if len(names) != 1:
        raise SystemExit(f"no module for {prop}")
    return importlib.import_module("props." + names[0]).R


def worker(prop, sub, out):
    import core

    import glimpse

    # Code which runs out of memory fails its case, not the whole sandbox
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    where = os.path.realpath(glimpse.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"glimpse imported from {where}, not {REPO}")
    R = load(prop)
    os.chdir(REPO)
    if sub.startswith("probe:"):
        p = next(p for p in R.probes if "probe:" + p.key == sub)
        import warnings

        import numpy as np

        result = {"sub": sub, "key": p.key, "failed": None}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                try:
                    p.fn()
                except Exception as e:  # noqa: BLE001
                    result["failed"] = f"{type(e).__name__}: {e}"[:500]
    else:
        s = next(s for s in R.subs if s.name == sub)
        tier = os.environ.get("VERIF_TIER", "quick")
        budget = float(
            os.environ.get("VERIF_BUDGET", "100" if tier == "quick" else "600")
        )
        result = core.run_sub(
            s,
            prop,
            int(os.environ.get("VERIF_SEED", "1")),
            tier,
            budget,
            os.path.join(VERIF, "evidence", "replays"),
        )
    with open(out, "w") as fp:
        json.dump(result, fp)


def crash(prop, name, case, error):
    """Result of a sub-check whose process crashed or hung in a case."""
    try:
        with open(case) as fp:
            data = json.load(fp)
    except (OSError, ValueError):
        return None
    path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{name}.json")
    with open(path, "w") as fp:
        json.dump({**data, "error": error}, fp, indent=1)
    return {
        "sub": name, "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0,
        "labels": {}, "samples": [], "rule": None, "wall_s": 0,
        "violation": {"replay": path, "error": error},
    }


def main(argv):
    prop = argv[0]
    if "--worker" in argv:
        i = argv.index("--worker")
        worker(prop, argv[i + 1], argv[i + 2])
        return 0
    if "--replay" in argv:
        if os.environ.get("VERIF_REPLAYING") != "1":
            with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
                env = environment(scratch)
                env["VERIF_REPLAYING"] = "1"
                status = subprocess.call(
                    [PYTHON, os.path.join(HERE, "run.py")] + argv, env=env, cwd=REPO
                )
            if status in CRASHES:
                path = os.path.abspath(argv[argv.index("--replay") + 1])
                print(f"VIOLATION property={prop} replay={path}")
            return 1 if status in CRASHES else status
        import core

        path = os.path.abspath(argv[argv.index("--replay") + 1])
        error = core.replay(load(prop), path)
        print(error or "replayed case passes")
        if error:
            print(f"VIOLATION property={prop} replay={path}")
        return 1 if error else 0
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    with open(os.path.join(VERIF, "known_findings.json")) as fp:
        known = {
            f["key"]: f
            for f in json.load(fp)["findings"]
            if f["property"] == prop and f["status"] == "known"
        }
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
        env = environment(scratch)
        env.update(VERIF_TIER=tier, VERIF_SEED=str(seed))
        listing = subprocess.run(
            [
                PYTHON,
                "-c",
                "import sys; sys.argv=['run.py']; import run, json; R=run.load(%r);"
                "print('SUBS'+json.dumps([s.name for s in R.subs]"
                "+['probe:'+p.key for p in R.probes]))" % prop,
            ],
            env=env,
            cwd=REPO,
            capture_output=True,
            text=True,
        )
        if listing.returncode:
            sys.stderr.write(listing.stdout + listing.stderr)
            return 2
        line = [x for x in listing.stdout.splitlines() if x.startswith("SUBS")][0]
        names = json.loads(line[4:])
        if only:
            names = [n for n in names if n == only]
        # Longest first is unknown: keep registration order
        pending, running, results, errors = list(names), [], [], []
        limit = 840 if tier == "quick" else 7000
        while pending or running:
            while pending and len(running) < jobs:
                name = pending.pop(0)
                sdir = os.path.join(scratch, "w%d" % names.index(name))
                os.makedirs(sdir, exist_ok=True)
                out = os.path.join(sdir, "result.json")
                log = open(os.path.join(sdir, "log"), "w+")
                p = subprocess.Popen(
                    [PYTHON, os.path.join(HERE, "run.py"), prop, "--worker", name, out],
                    env={**env, "VERIF_SCRATCH": sdir, "TMPDIR": sdir},
                    cwd=REPO,
                    stdout=log,
                    stderr=subprocess.STDOUT,
                    stdin=subprocess.DEVNULL,
                    start_new_session=True,
                )
                running.append((name, p, out, log))
            time.sleep(0.02)
            still = []
            for name, p, out, log in running:
                if p.poll() is None:
                    case = os.path.join(os.path.dirname(out), "case.json")
                    # NOTE: Cases stop themselves before, unless stuck outside of Python
                    hangs = (
                        os.path.exists(case)
                        and time.time() - os.path.getmtime(case) > HANG_LIMIT_S
                    )
                    if hangs or time.time() - t0 > limit:
                        os.killpg(p.pid, 9)
                        failed = hangs and crash(prop, name, case, "does not return")
                        if failed:
                            results.append(failed)
                        else:
                            errors.append(f"{name}: no answer in {limit} s")
                    else:
                        still.append((name, p, out, log))
                    continue
                if p.returncode == 0 and os.path.exists(out):
                    with open(out) as fp:
                        results.append(json.load(fp))
                    log.close()
                    continue
                failed = p.returncode in CRASHES and crash(
                    prop, name, os.path.join(os.path.dirname(out), "case.json"),
                    f"process crashed (signal {-p.returncode})",
                )
                if failed:
                    results.append(failed)
                else:
                    log.seek(0)
                    errors.append(
                        f"{name}: exit {p.returncode}\n{log.read()[-3000:]}"
                    )
                log.close()
            running = still
    status = 0
    findings = []
    order = {n: i for i, n in enumerate(names)}
    results.sort(key=lambda r: order[r["sub"]])
    for r in results:
        if r["sub"].startswith("probe:"):
            if not r["failed"]:
                continue
            if r["key"] in known:
                findings.append(known[r["key"]]["what"])
                print(f"KNOWN-FINDING: property={prop} {known[r['key']]['what']}")
                continue
            path = os.path.join(
                VERIF, "evidence", "replays", f"{prop}-probe-{r['key']}.json"
            )
            with open(path, "w") as fp:
                json.dump(
                    {"property": prop, "sub": r["sub"], "error": r["failed"]}, fp
                )
            print(f"{r['sub']}: {r['failed']}")
            print(f"VIOLATION property={prop} replay={path}")
            status = 1
        elif r["violation"]:
            print(f"{r['sub']}: {r['violation']['error']}")
            print(f"VIOLATION property={prop} replay={r['violation']['replay']}")
            status = 1
    subs = [r for r in results if not r["sub"].startswith("probe:")]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in subs),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in subs),
            "rule": " | ".join(
                f"{r['sub']}: {r['rule']}" for r in subs if r["rule"]
            )
            or "cases drawn by Hypothesis; non-trivial as marked by each sub-check",
            "samples": [
                {"sub": r["sub"], "case": s} for r in subs for s in r["samples"][:2]
            ],
            "per_check": {
                r["sub"]: {
                    "evaluations": r["evaluations"],
                    "distinct_nontrivial": r["distinct_nontrivial"],
                    "labels": r["labels"],
                    "wall_s": r["wall_s"],
                }
                for r in subs
            },
            "known_findings_seen": findings,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fp:
        json.dump(evidence, fp, indent=1)
    for e in errors:
        sys.stderr.write("ERROR " + e + "\n")
    if errors and not status:
        status = 2
    print(
        f"{prop}: {evidence['coverage']['evaluations']} cases, "
        f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
        f"{evidence['wall_s']} s, exit {status}"
    )
    return status


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

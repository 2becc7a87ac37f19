"""Generated-input checking core: Hypothesis rounds, replay files, evidence.

A property module registers *sub-checks* with :func:`sub`.  Every sub-check is a
function ``fn(case, ctx)`` whose ``case`` is one value drawn from a Hypothesis
strategy (plain Python data, so it pickles and replays without Hypothesis).
An exception raised while a case runs is a violation; an exception raised
anywhere else is an error of the harness.
"""
import base64
import collections
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

# Hypothesis lives in the verification venv; append it last so that the numpy,
# scipy, ... of the project's own environment win.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401
from hypothesis.errors import UnsatisfiedAssumption  # noqa: E402

CASE_LIMIT_S = 150
SHRINK_LIMIT_S = 45


class Violation(AssertionError):
    """The property is broken for this case."""


class _StopShrinking(BaseException):
    pass


class _CaseTimeout(Exception):
    pass


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.note = None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def hit(self, *names):
        """Mark the case as non-trivial (and label why)."""
        self.nontrivial = True
        self.label(*names)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Probe:
    """A fixed input known to fail (or once known to fail)."""

    def __init__(self, key, fn):
        self.key, self.fn = key, fn


class Registry:
    def __init__(self, prop):
        self.prop = prop
        self.subs = []
        self.probes = []

    def sub(self, strategy, quick=400, thorough=8000, rule="", name=None):
        def deco(fn):
            self.subs.append(
                Sub(name or fn.__name__, strategy, fn, quick, thorough, rule)
            )
            return fn

        return deco

    def probe(self, key):
        def deco(fn):
            self.probes.append(Probe(key, fn))
            return fn

        return deco


# ---- Oracles -------------------------------------------------------------- #


def check(cond, msg="", **info):
    if not bool(cond):
        detail = ", ".join(f"{k}={short(v)}" for k, v in info.items())
        raise Violation(f"{msg} [{detail}]" if detail else msg)


def short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def close(a, b, rtol=1e-9, atol=1e-9, msg="values differ", **info):
    """Elementwise closeness (NaN and infinities must match exactly)."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} != {b.shape} {short(info)}")
    if a.size == 0:
        return
    a = a.astype(float)
    b = b.astype(float)
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        i = tuple(np.argwhere(bad)[0]) if a.ndim else ()
        raise Violation(
            f"{msg}: {int(bad.sum())} of {a.size} differ, first at {i}: "
            f"{a[i]!r} != {b[i]!r} {short(info)}"
        )


def same(a, b, msg="values differ", **info):
    """Exact equality of arrays (NaN equal NaN), shapes included."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} != {b.shape} {short(info)}")
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        ok = np.array_equal(a, b, equal_nan=True)
    else:
        ok = np.array_equal(a, b)
    if not ok:
        raise Violation(f"{msg}: {short(a)} != {short(b)} {short(info)}")


def raises(exc, fn, *args, msg="expected an exception", **kwargs):
    try:
        fn(*args, **kwargs)
    except exc:
        return
    except _CaseTimeout:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{msg}: raised {type(e).__name__}: {e} instead of {exc}")
    raise Violation(f"{msg}: nothing raised")


# ---- Runner --------------------------------------------------------------- #


def _alarm(signum, frame):
    raise _CaseTimeout(f"case did not finish in {CASE_LIMIT_S} s")


def run_case(sub, case, ctx):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                sub.fn(case, ctx)
    finally:
        signal.alarm(0)


def case_key(case):
    return hashlib.sha1(repr(case).encode()).hexdigest()[:16]


def recorded(prop, name, seed, pickled, text, **kwargs):
    """Replay file of a case."""
    return json.dumps(
        {
            "property": prop,
            "sub": name,
            "seed": seed,
            "case": text,
            "case_pickle": base64.b64encode(pickled).decode(),
            **kwargs,
        },
        indent=1,
    )


def effort(prop, name):
    if os.environ.get("VERIF_EFFORT"):
        return int(os.environ["VERIF_EFFORT"])
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "effort.json")) as fp:
        return json.load(fp).get(prop, {}).get(name, 1)


def run_sub(sub, prop, seed, tier, budget_s, replay_dir):
    total = sub.quick if tier == "quick" else sub.thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = max(1, int(total * scale))
    # Cases of one Hypothesis run are correlated (e.g. it may never draw one of
    # three options in 80 cases), so many short runs are used.
    chunk = min(max(total // 12, 16), 250)
    if tier == "quick":
        # Cheap sub-checks run more cases (see tools/effort.py)
        total = min(total * effort(prop, sub.name), max(total, sub.thorough))
    t0 = time.time()
    labels = collections.Counter()
    keys, samples = set(), []
    state = {"n": 0, "fail": None, "t_fail": None, "nontrivial": 0}

    def body(case):
        if state["t_fail"] and time.time() - state["t_fail"] > SHRINK_LIMIT_S:
            raise _StopShrinking()
        ctx = Ctx()
        note(case)
        try:
            run_case(sub, case, ctx)
        except UnsatisfiedAssumption:
            labels["(discarded)"] += 1
            raise
        except Exception as e:
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            state["fail"] = {
                "case": pickle.dumps(case),
                "repr": short(case, 4000),
                "error": f"{type(e).__name__}: {e}"[:2000],
                "traceback": traceback.format_exc()[-4000:],
            }
            raise
        if state["t_fail"] is not None:
            return
        state["n"] += 1
        for name in set(ctx.labels):
            labels[name] += 1
        if ctx.nontrivial:
            state["nontrivial"] += 1
            key = case_key(case)
            if key not in keys:
                keys.add(key)
                if len(samples) < 2 or (len(samples) < 4 and len(keys) % 50 == 0):
                    samples.append(short(case, 500))

    # Case being run, for the parent process to report if this one crashes or hangs
    scratch = os.environ.get("VERIF_SCRATCH")
    current = open(os.path.join(scratch, "case.json"), "w") if scratch else None

    def note(case):
        if current:
            try:
                text = recorded(prop, sub.name, seed, pickle.dumps(case), short(case, 4000))
            except Exception:
                return
            current.seek(0)
            current.truncate()
            current.write(text)
            current.flush()

    base = (seed * 1000003 + zlib.crc32(f"{prop}.{sub.name}".encode())) % (2 ** 31)
    done = 0
    rnd = 0
    while done < total and time.time() - t0 < budget_s:
        n = min(chunk, total - done)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
        )(hypothesis.seed(base + rnd)(hypothesis.given(sub.strategy)(body)))
        before = state["n"]
        try:
            test()
        except _StopShrinking:
            pass
        except Exception:
            if state["fail"] is None:
                raise
        if state["fail"]:
            break
        done += n
        rnd += 1
        if state["n"] == before and rnd > 3:
            break
    result = {
        "sub": sub.name,
        "evaluations": state["n"],
        "nontrivial": state["nontrivial"],
        "distinct_nontrivial": len(keys),
        "labels": dict(labels),
        "samples": samples,
        "rule": sub.rule,
        "wall_s": round(time.time() - t0, 2),
        "violation": None,
    }
    if state["fail"]:
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{prop}-{sub.name}.json")
        fail = state["fail"]
        with open(path, "w") as fp:
            fp.write(
                recorded(
                    prop, sub.name, seed, fail["case"], fail["repr"],
                    error=fail["error"], traceback=fail["traceback"],
                )
            )
        result["violation"] = {"replay": path, "error": state["fail"]["error"]}
    return result


def replay(registry, path):
    """Re-run one recorded case without Hypothesis. Returns the exception or None."""
    with open(path) as fp:
        data = json.load(fp)
    if data["sub"].startswith("probe:"):
        key = data["sub"][6:]
        fn = next(p.fn for p in registry.probes if p.key == key)
        try:
            fn()
        except Exception:
            return traceback.format_exc()
        return None
    sub = next(s for s in registry.subs if s.name == data["sub"])
    case = pickle.loads(base64.b64decode(data["case_pickle"]))
    np.random.seed(0)
    try:
        run_case(sub, case, Ctx())
    except Exception:
        return traceback.format_exc()
    return None

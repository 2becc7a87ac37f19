#!/opt/venv/bin/python
"""Mutation analysis of the checks (a development tool; no check uses it).

mutate.py list  [FILE...]            count the mutants of source files
mutate.py cover OUT.json             lines run by every sub-check
mutate.py run COVER.json OUT.jsonl [--n N] [--seed S] [--files a,b] [--jobs J] [--scale X] [--again OLD.jsonl] [--semantic] [--kinds a,b]

Every mutant is a small change of one expression or statement in a copy of the
package. It is run against the sub-checks which reach the changed line; those
which no sub-check notices are run against the project's own tests and listed.
"""
import ast
import copy
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("MUTATE_REPO", "/repo")
WORK = os.environ.get("MUTATE_WORK", "/tmp/mut")
FILES = [
    "camera.py", "exif.py", "helpers.py", "image.py", "optimize.py", "raster.py", "svg.py",
    "convert/converter.py", "convert/cameras/agisoft.py", "convert/cameras/matlab.py",
    "convert/cameras/opencv.py", "convert/cameras/photomodeler.py",
    "track/motion.py", "track/observer.py", "track/tracker.py", "track/tracks.py",
]

COMPARE = {
    ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt],
    ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
    ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
}
BINARY = {
    ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
    ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
    ast.Pow: [ast.Mult],
}
SWAP = {
    "min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "argmin": "argmax", "argmax": "argmin",
    "nanmin": "nanmax", "nanmax": "nanmin", "sin": "cos", "cos": "sin", "any": "all", "all": "any",
    "nanmean": "mean", "nansum": "sum", "mean": "median", "hstack": "vstack", "minimum": "maximum",
    "maximum": "minimum", "searchsorted": "digitize", "round": "floor", "fliplr": "flipud", "flipud": "fliplr",
    "zeros": "ones", "ones": "zeros", "append": "insert", "radians": "degrees", "sqrt": "square", "sum": "prod",
}


def mutants(path):
    """Yield (line, kind, start, end, text) replacements in a source file."""
    src = open(path).read()
    lines = src.split("\n")
    starts = [0]
    for line in src.encode().split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    data = src.encode()
    tree = ast.parse(src)
    skip = set()
    for node in ast.walk(tree):
        # Docstrings, annotations and messages
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                skip.update(ast.walk(node.body[0]))
        if isinstance(node, ast.FunctionDef):
            if node.returns:
                skip.update(ast.walk(node.returns))
            for d in node.decorator_list:
                skip.update(ast.walk(d))
        if isinstance(node, ast.arg) and node.annotation:
            skip.update(ast.walk(node.annotation))
        if isinstance(node, ast.AnnAssign):
            skip.update(ast.walk(node.annotation))
        if isinstance(node, ast.Raise):
            skip.update(ast.walk(node))
        if isinstance(node, ast.Call) and ast.unparse(node.func) in ("warnings.warn", "_progress_bar", "helpers._progress_bar"):
            skip.update(ast.walk(node))

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def out(node, new, kind):
        a, b = span(node)
        text = new if isinstance(new, str) else "(" + ast.unparse(new) + ")"
        return node.lineno, kind, a, b, text

    inf = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.JoinedStr):
            inf.update(ast.walk(node))
    for node in ast.walk(tree):
        if node in skip or node in inf:
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for new in COMPARE.get(type(op), []):
                    m = copy.deepcopy(node)
                    m.ops[i] = new()
                    yield out(node, m, "compare")
        elif isinstance(node, ast.BinOp):
            for new in BINARY.get(type(node.op), []):
                m = copy.deepcopy(node)
                m.op = new()
                yield out(node, m, "binary")
            if not isinstance(node.op, ast.Mod) and not isinstance(node.left, ast.Constant):
                yield out(node, node.left, "left")
        elif isinstance(node, ast.BoolOp):
            m = copy.deepcopy(node)
            m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            yield out(node, m, "bool")
            for i in range(len(node.values)):
                m = copy.deepcopy(node)
                del m.values[i]
                yield out(node, m if len(m.values) > 1 else m.values[0], "bool-drop")
        elif isinstance(node, ast.UnaryOp):
            yield out(node, node.operand, "unary")
        elif isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                yield out(node, ast.Constant(not v), "constant")
            elif isinstance(v, int):
                yield out(node, ast.Constant(v + 1), "constant")
                if v:
                    yield out(node, ast.Constant(v - 1), "constant")
            elif isinstance(v, float):
                yield out(node, ast.Constant(v * 1.5 if v else 0.5), "constant")
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)) and node.test not in skip:
            yield out(node.test, ast.UnaryOp(ast.Not(), node.test), "condition")
            if not isinstance(node, ast.While):
                yield out(node.test, "False", "condition")
                yield out(node.test, "True", "condition")
        elif isinstance(node, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(node, "value", None), ast.Constant):
            if isinstance(node, ast.AugAssign):
                yield out(node, "pass", "delete")
                for new in BINARY.get(type(node.op), []):
                    m = copy.deepcopy(node)
                    m.op = new()
                    a, b = span(node)
                    yield node.lineno, "binary", a, b, ast.unparse(m)
            elif isinstance(node.targets[0], (ast.Subscript, ast.Attribute)) or ast.unparse(node.targets[0]) in ast.unparse(node.value):
                yield out(node, "pass", "delete")
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            yield out(node, "pass", "delete")
        elif isinstance(node, (ast.Continue, ast.Break)):
            yield out(node, "pass", "delete")
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            s = node.slice
            if s.step is not None or (s.lower is None) != (s.upper is None):
                yield out(node, node.value, "slice")
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute):
                if f.attr in ("copy", "flatten", "ravel", "lower") and not node.args:
                    yield out(node, f.value, "copy")
                if f.attr in SWAP:
                    m = copy.deepcopy(node)
                    m.func.attr = SWAP[f.attr]
                    yield out(node, m, "swap")
            elif isinstance(f, ast.Name) and f.id in SWAP:
                m = copy.deepcopy(node)
                m.func.id = SWAP[f.id]
                yield out(node, m, "swap")
            if ast.unparse(f) in ("np.abs", "abs", "np.unique", "sorted", "np.sort", "np.atleast_2d", "np.clip", "np.round", "reversed", "int", "np.squeeze", "set"):
                if node.args:
                    yield out(node, node.args[0], "unwrap")
            for i, k in enumerate(node.keywords):
                if k.arg:
                    m = copy.deepcopy(node)
                    del m.keywords[i]
                    yield out(node, m, "keyword")
            for i in range(len(node.args) - 1):
                if isinstance(node.args[i], ast.Starred) or isinstance(node.args[i + 1], ast.Starred):
                    continue
                m = copy.deepcopy(node)
                m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
                yield out(node, m, "arguments")
        if isinstance(node, ast.comprehension):
            for t in node.ifs:
                yield out(t, "True", "condition")


PAIRS = {}
for _a, _b in (
    ("x", "y"), ("X", "Y"), ("i", "j"), ("u", "v"), ("dx", "dy"), ("nx", "ny"), ("xlim", "ylim"), ("width", "height"),
    ("row", "col"), ("rows", "cols"), ("before", "after"), ("start", "stop"), ("start", "end"), ("k", "p"), ("f", "c"),
    ("mean", "sigma"), ("xy_sigma", "vxyz_sigma"), ("min", "max"), ("mins", "maxs"), ("imgA", "imgB"), ("A", "B"),
    ("camA", "camB"), ("lower", "upper"), ("uv", "xy"), ("src", "ref"), ("vx", "vy"), ("xmin", "xmax"),
    ("dem", "dem_sigma"), ("left", "right"), ("ratios", "distances"), ("shape", "size"),
):
    PAIRS.setdefault(_a, []).append(_b)
    PAIRS.setdefault(_b, []).append(_a)
MEMO_SELF = (
    "@(lambda f: lambda self, *a, **k: self.__dict__[q] if (q := '_m_' + f.__name__ + repr((a, k))) in self.__dict__"
    " else self.__dict__.setdefault(q, f(self, *a, **k)))\n"
)


def semantic(path):
    """Yield mutants of sharing, caching, precision and completeness."""
    src = open(path).read()
    starts = [0]
    for line in src.encode().split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    tree = ast.parse(src)

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def out(node, new, kind):
        a, b = span(node)
        return node.lineno, kind, a, b, new if isinstance(new, str) else "(" + ast.unparse(new) + ")"

    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            for x in ([node.returns] if node.returns else []) + node.decorator_list:
                skip.update(ast.walk(x))
        if isinstance(node, (ast.arg, ast.AnnAssign)) and node.annotation:
            skip.update(ast.walk(node.annotation))
        if isinstance(node, (ast.Raise, ast.JoinedStr)):
            skip.update(ast.walk(node))
    for cls in [None] + [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for f in (cls.body if cls else tree.body):
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__"):
                continue
            decs = [ast.unparse(d) for d in f.decorator_list]
            names = {a.arg for a in f.args.args}
            own = cls is not None and "self" in names
            if any(d.endswith("setter") for d in decs) or not any(
                isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f)
            ):
                continue
            at = starts[f.lineno - 1] + f.col_offset
            body = f.body[1] if len(f.body) > 1 and isinstance(f.body[0], ast.Expr) else f.body[0]
            if own:
                yield body.lineno, "memo", at, at, MEMO_SELF + " " * f.col_offset
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.value, ast.BinOp):
            if ast.unparse(node.targets[0]) == ast.unparse(node.value.left):
                m = ast.AugAssign(node.targets[0], node.value.op, node.value.right)
                a, b = span(node)
                yield node.lineno, "inplace", a, b, ast.unparse(m)
        if isinstance(node, ast.Call):
            name = ast.unparse(node.func)
            if name in ("np.array",) and node.args:
                m = copy.deepcopy(node)
                m.func.attr = "asarray"
                yield out(node, m, "share")
            if name in ("copy.deepcopy", "copy.copy", "list", "dict", "tuple", "np.copy") and len(node.args) == 1:
                yield out(node, node.args[0], "share")
            if name == "copy.deepcopy":
                yield out(node, "copy.copy(" + ast.unparse(node.args[0]) + ")", "share")
            if name.endswith(".astype") and len(node.args) == 1 and ast.unparse(node.args[0]) == "float":
                yield out(node, ast.unparse(node.func) + "('float32')", "float32")
            if name.split(".")[-1] in ("array", "asarray", "zeros", "ones", "empty", "full", "sum", "mean", "dot", "column_stack", "vstack", "hstack", "sqrt", "matmul", "interp", "linspace", "arange", "cumsum", "linalg.norm"):
                if name.startswith("np."):
                    yield out(node, "(lambda _v: _v.astype('float32') if getattr(_v, 'dtype', None) == 'float64' else _v)(" + ast.unparse(node) + ")", "float32")
            if name == "float" and node.args:
                yield out(node, "int(" + ast.unparse(node.args[0]) + ")", "int")
        if isinstance(node, ast.For):
            it = ast.unparse(node.iter)
            yield out(node.iter, f"list({it})[:-1]", "loop")
            yield out(node.iter, f"list({it})[1:]", "loop")
            yield out(node.iter, f"list({it})[::-1]", "loop")
            yield out(node.iter, f"list({it})[:100]", "loop")
            if len(node.body) > 0:
                last = node.body[-1]
                a, b = span(last)
                pad = " " * last.col_offset
                yield last.lineno, "loop", b, b, "\n" + pad + "break"
        if isinstance(node, ast.comprehension):
            it = ast.unparse(node.iter)
            yield out(node.iter, f"list({it})[:-1]", "loop")
            yield out(node.iter, f"list({it})[::-1]", "loop")
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name) and isinstance(node.ctx, ast.Load):
            yield out(node, ast.unparse(node.value) + "[0]", "first")
            yield out(node, ast.unparse(node.value) + "[-1]", "first")
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            for new in PAIRS.get(node.id, []):
                yield out(node, new, "name")
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            for new in PAIRS.get(node.attr, []):
                yield out(node, ast.unparse(node.value) + "." + new, "name")
        if isinstance(node, ast.Return) and node.value is not None:
            v = ast.unparse(node.value)
            yield out(node, f"return (lambda _v: _v.astype('float32') if getattr(_v, 'dtype', None) == 'float64' else _v)({v})", "float32")
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Div, ast.Mult, ast.Sub)) and not isinstance(node.left, ast.Constant):
            yield out(node, f"(lambda _v: _v.astype('float32') if getattr(_v, 'dtype', None) == 'float64' else _v)({ast.unparse(node)})", "float32")
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            # Truth in place of comparison with None
            if ast.unparse(node.comparators[0]) == "None":
                v = ast.unparse(node.left)
                yield out(node, f"(not {v})" if isinstance(node.ops[0], ast.Is) else f"bool({v})", "truth")
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            v = ast.unparse(node.left)
            yield out(node.left, f"({v} + 1e-6)", "tolerance")
            yield out(node.left, f"({v} - 1e-6)", "tolerance")


def all_mutants(files, mutants=None):
    mutants = mutants or globals()["mutants"]
    result = []
    for f in files:
        path = os.path.join(REPO, "src/glimpse", f)
        src = open(path).read()
        seen = set()
        for line, kind, a, b, text in mutants(path):
            new = src.encode()[:a] + text.encode() + src.encode()[b:]
            if new in seen:
                continue
            seen.add(new)
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            result.append({"file": f, "line": line, "kind": kind, "start": a, "end": b, "text": text,
                           "old": src.encode()[a:b].decode()})
    return result


def preload():
    sys.path.insert(0, HARNESS)
    import cv2  # noqa: F401
    import matplotlib  # noqa: F401

    matplotlib.use("agg")
    import matplotlib.animation  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import osgeo.gdal  # noqa: F401
    import osgeo.gdal_array  # noqa: F401
    import osgeo.ogr  # noqa: F401
    import osgeo.osr  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.ndimage  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.sparse  # noqa: F401
    import scipy.spatial  # noqa: F401

    import core  # noqa: F401


def modules():
    return sorted(f[:-3] for f in os.listdir(os.path.join(HARNESS, "props")) if f.startswith("c") and f.endswith(".py"))


def child_setup(repo, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.environ.update(
        MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR="/tmp/mut/mpl", HOME=scratch, TMPDIR=scratch,
        VERIF_REPO=repo, VERIF_SCRATCH=scratch, OPENCV_LOG_LEVEL="ERROR", CPL_LOG="/dev/null",
        PYTHONPATH=os.pathsep.join([os.path.join(repo, "src"), HARNESS]),
    )
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(repo, "src"))
    os.chdir(repo)
    import tempfile

    tempfile.tempdir = scratch
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    fd = os.open(os.path.join(scratch, "log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def run_quiet(sub, prop, n, seed):
    """Number of examples run, and the first failure."""
    import zlib

    import core
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    fail = []
    count = [0]

    def body(case):
        count[0] += 1
        try:
            core.run_case(sub, case, core.Ctx())
        except core.UnsatisfiedAssumption:
            raise
        except BaseException as e:
            fail.append(f"{type(e).__name__}: {e}"[:300])
            raise

    base = (seed * 1000003 + zlib.crc32(f"{prop}.{sub.name}".encode())) % (2 ** 31)
    chunk = min(max(n // 12, 16), 60)
    done = 0
    while done < n:
        test = settings(
            max_examples=min(chunk, n - done), database=None, deadline=None, derandomize=False, print_blob=False,
            report_multiple_bugs=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate],
        )(hypothesis.seed(base)(hypothesis.given(sub.strategy)(body)))
        try:
            test()
        except BaseException as e:
            return count[0], fail[0] if fail else f"harness {type(e).__name__}: {e}"[:300]
        done += chunk
        base += 1
    return count[0], None


def forked(fn, timeout):
    """Result of a function in a child process (None if it ran out of time or died)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setsid()
        code = 0
        try:
            result = fn()
        except BaseException as e:  # noqa: BLE001
            result = {"error": f"{type(e).__name__}: {e}"[:300]}
        try:
            with os.fdopen(w, "w") as fp:
                json.dump(result, fp)
        finally:
            os._exit(code)
    os.close(w)
    import select

    data = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return None


def cover_sub(module, name, scratch):
    child_setup(REPO, scratch)
    import importlib

    prefix = os.path.join(REPO, "src/glimpse") + os.sep
    lines = {}
    mon = sys.monitoring
    mon.use_tool_id(3, "cover")

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(prefix):
            lines.setdefault(f[len(prefix):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, on_line)
    R = importlib.import_module("props." + module).R
    import glimpse  # noqa: F401

    lines.clear()
    mon.set_events(3, mon.events.LINE)
    sub = next(s for s in R.subs if s.name == name)
    t0 = time.time()
    n = max(1, min(sub.quick, 150))
    n, fail = run_quiet(sub, R.prop, n, 1)
    dt = time.time() - t0
    return {"lines": {f: sorted(v) for f, v in lines.items()}, "fail": fail, "t": dt / max(n, 1), "n": sub.quick}


def sub_names():
    def names():
        child_setup(REPO, WORK + "/names")
        import importlib

        return {m: [s.name for s in importlib.import_module("props." + m).R.subs] for m in modules()}

    return forked(names, 120)


def cover(out):
    preload()
    names = sub_names()
    jobs = [(m, s) for m in names for s in names[m]]
    results = {}
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        m, s = job
        p = subprocess.run(
            [sys.executable, __file__, "cover-one", m, s, f"{WORK}/cover-{m}-{s}"], capture_output=True, text=True
        )
        with open(f"{WORK}/cover-{m}-{s}.json") as fp:
            results[f"{m}/{s}"] = json.load(fp)

    with ThreadPoolExecutor(int(os.environ.get("MUTATE_JOBS", "6"))) as pool:
        list(pool.map(one, jobs))
    json.dump(results, open(out, "w"))
    for k, v in results.items():
        print(k, sum(map(len, v["lines"].values())), round(v["t"] * 1000), "ms", v["fail"])


def function_body(m):
    """Lines of the body of the function in whose header a mutant lies."""
    with open(os.path.join(REPO, "src/glimpse", m["file"])) as fp:
        tree = ast.parse(fp.read())
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and node.lineno <= m["line"] < node.body[0].lineno:
            return range(node.body[0].lineno, node.end_lineno + 1)
    return range(0)


def test_mutant(m, covers, k, scale):
    """Run a mutant in worker directory k: first failing sub-check, or None."""
    repo = f"{WORK}/w{k}/repo"
    path = os.path.join(repo, "src/glimpse", m["file"])
    src = open(os.path.join(REPO, "src/glimpse", m["file"]), "rb").read()
    open(path, "wb").write(src[: m["start"]] + m["text"].encode() + src[m["end"]:])
    end_line = m["line"] + m["old"].count("\n")
    subs = []
    for key, v in covers.items():
        if any(m["line"] <= x <= end_line for x in v["lines"].get(m["file"], [])):
            subs.append((v["t"], key, v["n"]))
    if not subs:
        # Default arguments are evaluated when the function is defined
        body = function_body(m)
        for key, v in covers.items():
            if any(x in body for x in v["lines"].get(m["file"], [])):
                subs.append((v["t"], key, v["n"]))
    subs.sort()
    try:
        if not subs:
            return {"status": "uncovered"}

        def run():
            child_setup(repo, f"{WORK}/w{k}/scratch")
            import importlib

            import core

            core.CASE_LIMIT_S = 25
            left = 240 * scale
            # A few examples of everything, then more
            for stage in (0, 1, 2):
                for t, key, quick in subs:
                    n = [12, 80, int(quick * scale)][stage]
                    n = min(n, quick)
                    if stage and n <= [12, 80][stage - 1]:
                        continue
                    n = min(n, int([6, 15, 60][stage] * max(scale, 1) / t) + 1)
                    module, name = key.split("/")
                    t0 = time.time()
                    try:
                        R = importlib.import_module("props." + module).R
                    except BaseException as e:  # noqa: BLE001
                        return {"status": "killed", "by": key, "error": f"import {e}"[:200]}
                    sub = next(s for s in R.subs if s.name == name)
                    _, fail = run_quiet(sub, R.prop, n, 1)
                    if fail:
                        return {"status": "killed", "by": key, "error": fail[:200]}
                    left -= time.time() - t0
                    if left < 0:
                        return {"status": "survived", "note": "time", "subs": [s[1] for s in subs]}
            return {"status": "survived", "subs": [s[1] for s in subs]}

        result = forked(run, 400 * max(scale, 1))
        if result is None:
            return {"status": "killed", "by": "timeout or crash"}
        if "error" in result and "status" not in result:
            return {"status": "killed", "by": "error", **result}
        return result
    finally:
        pass


def project_tests(k):
    """Whether the project's tests pass in worker directory k."""
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import plant

    path = f"{WORK}/w{k}/repo"
    return not plant.tests(path)


def restore(m, k):
    shutil.copyfile(
        os.path.join(REPO, "src/glimpse", m["file"]), f"{WORK}/w{k}/repo/src/glimpse/{m['file']}"
    )


def text_line(m):
    """Text of the line of a mutant (stored with the results)."""
    if "at" not in m:
        with open(os.path.join(REPO, "src/glimpse", m["file"])) as fp:
            m["at"] = fp.read().split("\n")[m["line"] - 1].strip()
    return m["at"]


def run(argv):
    def opt(name, default):
        return argv[argv.index(name) + 1] if name in argv else default

    covers = json.load(open(argv[0]))
    out = argv[1]
    files = opt("--files", ",".join(FILES)).split(",")
    n, seed, jobs, scale = int(opt("--n", 10**9)), int(opt("--seed", 1)), int(opt("--jobs", 7)), float(opt("--scale", 1))
    done = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            done.add((d["file"], d["start"], d["end"], d["text"]))
    ms = all_mutants(files, semantic if "--semantic" in argv else None)
    if opt("--kinds", None):
        ms = [m for m in ms if m["kind"] in opt("--kinds", None).split(",")]
    random.Random(seed).shuffle(ms)
    again = opt("--again", None)
    if again:
        # Only those which survived an earlier run (the source may have moved since)
        old = [json.loads(line) for line in open(again)]
        old = {(d["file"], text_line(d), d["old"], d["text"]) for d in old if d["status"] != "killed" and d.get("tests")}
        ms = [m for m in ms if (m["file"], text_line(m), m["old"], m["text"]) in old]
    ms = [m for m in ms[:n] if (m["file"], m["start"], m["end"], m["text"]) not in done]
    print(len(ms), "mutants", flush=True)
    preload()
    import hypothesis  # noqa: F401

    os.makedirs(WORK, exist_ok=True)
    pids = []
    for k in range(jobs):
        pid = os.fork()
        if pid == 0:
            shutil.rmtree(f"{WORK}/w{k}", ignore_errors=True)
            shutil.copytree(REPO, f"{WORK}/w{k}/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
            for m in ms[k::jobs]:
                t0 = time.time()
                text_line(m)
                result = test_mutant(m, covers, k, scale)
                if result["status"] != "killed":
                    result["tests"] = project_tests(k)
                restore(m, k)
                shutil.rmtree(f"{WORK}/w{k}/scratch", ignore_errors=True)
                with open(out, "a") as fp:
                    fp.write(json.dumps({**m, **result, "s": round(time.time() - t0, 1)}) + "\n")
            os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "list":
        for f in sys.argv[2:] or FILES:
            print(f, len(all_mutants([f])), len(all_mutants([f], semantic)))
    elif cmd == "cover":
        os.makedirs(WORK, exist_ok=True)
        cover(sys.argv[2])
    elif cmd == "cover-one":
        preload()
        m, s, path = sys.argv[2:5]
        r = cover_sub(m, s, path)
        shutil.rmtree(path, ignore_errors=True)
        json.dump(r, open(path + ".json", "w"))
    elif cmd == "run":
        run(sys.argv[2:])

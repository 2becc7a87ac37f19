"""C03 Camera parameters: units, histories of changes, copies and files."""
import json
import warnings
import os

import cams
import numpy as np
from core import Registry, check, close, raises, same, st
from gens import finite

from glimpse import Camera

R = Registry("C03")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")

LENGTH = {"xyz": 3, "viewdir": 3, "f": 2, "c": 2, "k": 6, "p": 2}
PAD = {"xyz": 0.0, "viewdir": 0.0, "f": None, "c": 0.0, "k": 0.0, "p": 0.0}


def expand(name, value):
    """Parameter vector which a scalar or short list stands for."""
    value = [float(v) for v in (value if isinstance(value, (list, tuple)) else [value])]
    n = LENGTH[name]
    if PAD[name] is None:
        return np.array((value * n)[:n])
    return np.array((value + [0.0] * n)[:n])


@st.composite
def parameter(draw, name=None):
    name = name or draw(st.sampled_from(sorted(LENGTH)))
    n = LENGTH[name]
    el = {
        "f": finite(1, 5000),
        "xyz": finite(-1e5, 1e5),
        "viewdir": finite(-180, 360),
        "c": finite(-50, 50),
        "k": finite(-0.5, 0.5),
        "p": finite(-0.1, 0.1),
    }[name]
    size = draw(st.sampled_from([n, n, 1, 0] if PAD[name] is None else [n, n, 1, 0, min(2, n), n - 1]))
    if size == 0:
        return name, draw(el)
    value = [draw(el) for _ in range(size)]
    return name, draw(st.sampled_from([value, tuple(value)]))


@st.composite
def start(draw):
    nx, ny = draw(st.integers(1, 3000)), draw(st.integers(1, 3000))
    spec = {"imgsz": draw(st.sampled_from([(nx, ny), [nx, ny], [nx], nx]))}
    for name in LENGTH:
        if name == "f" or draw(st.booleans()):
            spec[name] = draw(parameter(name))[1]
    if draw(st.booleans()):
        spec["sensorsz"] = draw(
            st.one_of(
                finite(4, 40),
                st.tuples(finite(4, 40), finite(4, 40)),
                st.lists(finite(4, 40), min_size=2, max_size=2),
            )
        )
        if draw(st.booleans()):
            f = spec.pop("f")
            spec["fmm"] = f
        if "c" in spec and draw(st.booleans()):
            spec["cmm"] = spec.pop("c")
    return spec


def model_of(spec):
    """Parameters in pixels which the arguments stand for."""
    size = spec["imgsz"]
    size = np.array(
        (list(size) * 2)[:2] if isinstance(size, (list, tuple)) else [size, size], float
    )
    m = {"imgsz": size, "sensorsz": None}
    if spec.get("sensorsz") is not None:
        s = spec["sensorsz"]
        m["sensorsz"] = np.array(s if isinstance(s, (list, tuple)) else [s, s], float)
    for name in LENGTH:
        m[name] = expand(name, spec[name]) if name in spec else np.zeros(LENGTH[name])
    if "fmm" in spec:
        m["f"] = expand("f", spec["fmm"]) * size / m["sensorsz"]
    if "cmm" in spec:
        m["c"] = expand("c", spec["cmm"]) * size / m["sensorsz"]
    return m


def compare(cam, m, msg):
    for name in ("imgsz", *LENGTH):
        close(getattr(cam, name), m[name], rtol=1e-9, atol=1e-9, msg=f"{msg}: {name}")
    check(np.issubdtype(cam.imgsz.dtype, np.integer), "image size is not integer")
    close(
        cam.to_array(),
        np.concatenate([m[k] for k in ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")]),
        rtol=1e-9,
        atol=1e-9,
        msg=f"{msg}: array",
    )
    if m["sensorsz"] is None:
        check(cam.fmm is None and cam.cmm is None, "mm without sensor size")
        check(cam.sensorsz is None, "sensor size")
    else:
        close(cam.sensorsz, m["sensorsz"], msg=f"{msg}: sensorsz")
        close(cam.fmm, m["f"] * m["sensorsz"] / m["imgsz"], msg=f"{msg}: fmm")
        close(cam.cmm, m["c"] * m["sensorsz"] / m["imgsz"], msg=f"{msg}: cmm")


WORLD = np.array([(3.0, 4.0, 5.0), (-20.0, 30.0, 8.0), (11.0, -7.0, -2.0)])
IMAGE = np.array([(1.0, 2.0), (30.0, 40.0), (250.5, 99.5)])


def project_alike(cam, msg):
    """A camera projects as a new one with its parameters, whatever it went through."""
    new = Camera(**cam.to_dict())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            for name, arg in (("xyz_to_uv", WORLD), ("uv_to_xyz", IMAGE), ("infront", WORLD)):
                got, want = (getattr(c, name)(arg.copy()) for c in (cam, new))
                close(got, want, rtol=1e-6, atol=1e-6, msg=f"{msg}: {name} of an equal camera")


def frozen(value):
    return json.dumps(value, sort_keys=True)


@st.composite
def history(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(
            st.sampled_from(
                ["set", "set", "mm", "item", "resize", "size", "ideal", "copy", "reset", "imgsz"]
            )
        )
        if kind == "set":
            ops.append((kind, *draw(parameter())))
        elif kind == "mm":
            ops.append((kind, *draw(parameter(draw(st.sampled_from(["f", "c"]))))))
        elif kind == "item":
            name = draw(st.sampled_from(sorted(LENGTH)))
            ops.append(
                (kind, name, draw(st.integers(0, LENGTH[name] - 1)), draw(finite(0.1, 2)))
            )
        elif kind == "resize":
            ops.append((kind, draw(st.one_of(st.sampled_from([0.5, 1, 2, 0.25, 3]), finite(0.05, 4)))))
        elif kind == "size":
            ops.append((kind, draw(st.one_of(st.sampled_from([0.5, 1, 2]), finite(0.1, 3))), draw(st.integers(-3, 3)), draw(st.booleans())))
        elif kind == "imgsz":
            ops.append((kind, draw(st.integers(1, 900)), draw(st.integers(1, 900))))
        else:
            ops.append((kind,))
    return {"start": draw(start()), "ops": ops}


@R.sub(
    history(),
    quick=3000,
    thorough=60000,
    rule="model-based: cameras made from arguments in pixels or millimetres, then random "
    "histories of changes, resizes, copies and resets; non-trivial with a resize, copy or reset",
)
def histories(case, ctx):
    spec = case["start"]
    before = frozen(spec)
    cam = Camera(**spec)
    check(frozen(spec) == before, "arguments changed", spec=spec, before=before)
    m = model_of(spec)
    compare(cam, m, "initial")
    project_alike(cam, "initial")
    original = {k: (None if v is None else v.copy()) for k, v in m.items()}
    others = []  # cameras which later changes must not affect
    for op in case["ops"]:
        kind = op[0]
        if kind == "set":
            arg = frozen(op[2])
            setattr(cam, op[1], op[2])
            check(frozen(op[2]) == arg, "argument changed", op=op)
            m[op[1]] = expand(op[1], op[2])
        elif kind == "mm":
            if m["sensorsz"] is None:
                raises(ValueError, setattr, cam, op[1] + "mm", op[2], msg="mm without sensor")
            else:
                setattr(cam, op[1] + "mm", op[2])
                m[op[1]] = expand(op[1], op[2]) * m["imgsz"] / m["sensorsz"]
        elif kind == "item":
            getattr(cam, op[1])[op[2]] *= op[3]
            m[op[1]] = m[op[1]].copy()
            m[op[1]][op[2]] *= op[3]
        elif kind == "imgsz":
            cam.imgsz = op[1:]
            m["imgsz"] = np.array(op[1:], float)
        elif kind == "resize":
            size = np.floor(op[1] * original["imgsz"] + 0.5)
            if (size < 1).any():
                continue
            cam.resize(op[1])
            scale = size / m["imgsz"]
            m["imgsz"], m["f"], m["c"] = size, m["f"] * scale, m["c"] * scale
            ctx.hit("resize")
        elif kind == "size":
            # Sizes which (may) keep the aspect ratio
            size = np.floor(op[1] * original["imgsz"] + 0.5)
            size[0] += op[2]
            if (size < 1).any():
                continue
            lo = ((size - 0.5) / original["imgsz"]).max()
            hi = ((size + 0.5) / original["imgsz"]).min()
            target = tuple(int(v) for v in size)
            if op[3] or lo < hi * (1 - 1e-9):
                cam.resize(target, force=op[3])
                scale = size / m["imgsz"]
                m["imgsz"], m["f"], m["c"] = size, m["f"] * scale, m["c"] * scale
                ctx.hit("resize to size")
            elif lo > hi * (1 + 1e-9):
                raises(ValueError, cam.resize, target, msg="aspect ratio not preserved")
        elif kind == "ideal":
            cam.idealize()
            m["c"], m["k"], m["p"] = np.zeros(2), np.zeros(6), np.zeros(2)
        elif kind == "copy":
            new = cam.copy()
            others.append((cam, dict(m), original))
            cam = new
            m = {k: (None if v is None else v.copy()) for k, v in m.items()}
            original = {k: (None if v is None else v.copy()) for k, v in m.items()}
            ctx.hit("copy")
        elif kind == "reset":
            cam.reset()
            sensor = m["sensorsz"]
            m = {k: (None if v is None else v.copy()) for k, v in original.items()}
            m["sensorsz"] = sensor
            ctx.hit("reset")
        compare(cam, m, kind)
        project_alike(cam, kind)
    for other, om, _ in others:
        compare(other, om, "camera copied from")
    cam.reset()
    compare(cam, {**original, "sensorsz": m["sensorsz"]}, "final reset")
    for other, om, oo in others:
        other.reset()
        compare(other, {**oo, "sensorsz": om["sensorsz"]}, "reset of copied camera")


@R.sub(
    st.fixed_dictionaries({"start": start(), "resize": st.sampled_from([0.5, 1, 2, 3])}),
    quick=800,
    thorough=10000,
    rule="resizing there and back; non-trivial when the size changes",
)
def resize_back(case, ctx):
    cam = Camera(**case["start"])
    before = cam.to_array()
    rel = np.concatenate((cam.f / cam.imgsz, cam.c / cam.imgsz))
    n = cam.imgsz
    if (np.floor(n * case["resize"] + 0.5) < 1).any():
        return
    fmm = cam.fmm
    cam.resize(case["resize"])
    if (cam.imgsz != n).any():
        ctx.hit()
    # Field of view does not change
    close(np.concatenate((cam.f / cam.imgsz, cam.c / cam.imgsz)), rel, msg="view angle")
    if fmm is not None:
        close(cam.fmm, fmm, msg="focal length in mm")
    cam.resize(tuple(n))
    close(cam.to_array(), before, msg="there and back")
    cam.resize(case["resize"])
    cam.resize(1)
    close(cam.to_array(), before, msg="back to scale 1")


@R.sub(
    st.fixed_dictionaries(
        {
            "start": start(),
            "indent": st.sampled_from([None, 0, 2, 4]),
            "flat": st.booleans(),
            "over": st.sampled_from([None, "f", "xyz", "viewdir"]),
            "correction": st.booleans(),
        }
    ),
    quick=800,
    thorough=10000,
    rule="JSON files and dictionaries of random cameras; non-trivial with distortion",
)
def files(case, ctx):
    cam = Camera(**case["start"])
    if cam.k.any() or cam.p.any():
        ctx.hit()
    path = os.path.join(TMP, "sub", "cam.json")
    kw = {} if case["indent"] is None else {"indent": case["indent"]}
    kw["flat_arrays"] = case["flat"]
    text = cam.to_json(**kw)
    check(json.loads(text) == cam.to_dict(), "text")
    check(cam.to_json(path=path, **kw) is None, "returned with path")
    with open(path) as fp:
        check(fp.read() == text, "file differs from text")
    back = Camera.from_json(path)
    same(back.to_array(), cam.to_array(), "parameters after round trip")
    d = cam.to_dict()
    again = Camera(**d)
    same(again.to_array(), cam.to_array(), "parameters after dictionary")
    d["xyz"][0] += 1
    same(again.to_array(), cam.to_array(), "dictionary shared")
    arr = cam.to_array()
    arr += 1
    same(again.to_array(), cam.to_array(), "array shared")
    if case["over"]:
        over = Camera.from_json(path, **{case["over"]: 7})
        want = expand(case["over"], 7)
        close(getattr(over, case["over"]), want, msg="overridden")
        for name in LENGTH:
            if name != case["over"]:
                same(getattr(over, name), getattr(cam, name), "not overridden", name=name)
    # In millimetres
    if cam.sensorsz is not None:
        names = ("xyz", "viewdir", "imgsz", "fmm", "cmm", "k", "p", "sensorsz")
        cam.to_json(path=path, attributes=names, **kw)
        back = Camera.from_json(path)
        close(back.to_array(), cam.to_array(), msg="parameters in mm", rtol=1e-9, atol=1e-9)
        close(back.sensorsz, cam.sensorsz, msg="sensor size")
        ctx.label("mm")


@R.sub(
    st.sampled_from(
        [
            {"imgsz": (10, 10)},
            {"imgsz": (10, 10), "fmm": 5},
            {"imgsz": (10, 10), "f": 10, "cmm": 1},
            {"imgsz": (10, 10), "f": 10, "fmm": 5, "sensorsz": 5},
            {"imgsz": (10, 10), "f": 10, "c": 1, "cmm": 5, "sensorsz": 5},
            {"imgsz": (10.5, 10), "f": 10},
            {"imgsz": (10, 10), "f": 10, "ok": True},
            {"imgsz": (10.0, 10), "fmm": 10, "sensorsz": (5, 4), "ok": True},
        ]
    ),
    quick=30,
    thorough=30,
    rule="conflicting, missing and fractional arguments; all non-trivial",
)
def arguments(case, ctx):
    case = dict(case)
    ctx.hit()
    if case.pop("ok", False):
        Camera(**case)
    else:
        raises(ValueError, Camera, **case, msg="accepted")

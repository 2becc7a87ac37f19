"""C16 Camera optimization: parameters, residuals and fits of several cameras."""
import contextlib
import io

import numpy as np
from core import Registry, Violation, check, close, raises, same, st
import cams as ref
from gens import finite

import glimpse
from glimpse.optimize import Cameras, Lines, Matches, Points

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

R = Registry("C16")
NAMES = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")
STARTS = dict(zip(NAMES, (0, 3, 6, 8, 10, 12, 18)))
LENGTHS = dict(zip(NAMES, (3, 3, 2, 2, 2, 6, 2)))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ---- Parameter selection ---------------------------------------------------- #


@st.composite
def selection(draw, n):
    kind = draw(st.integers(0, 6))
    if kind == 0:
        return True
    if kind == 1:
        return draw(st.integers(0, n - 1))
    if kind == 2:
        return draw(st.sampled_from([False, None, []]))
    return draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n))


def expand(sel, n):
    """Selected elements, in the order that they are listed."""
    if sel is True:
        return list(range(n))
    if sel is False or sel is None:
        return []
    return [sel] if isinstance(sel, int) else list(sel)


bound = st.one_of(
    st.none(), st.just(float("nan")), st.just(float("inf")), finite(-100, 100)
)


@st.composite
def param_specs(draw, names=NAMES, bounds=True):
    out = {}
    for name in draw(st.lists(st.sampled_from(names), unique=True, max_size=5)):
        n = LENGTHS[name]
        sel = draw(selection(n))
        if bounds and draw(st.booleans()):
            m = len(expand(sel, n))
            lo, hi = (
                draw(
                    st.one_of(
                        bound, st.lists(bound, min_size=max(m, 1), max_size=max(m, 1))
                    )
                )
                for _ in range(2)
            )
            out[name] = (sel, lo, hi)
        else:
            out[name] = sel
    return out


def reference_params(params, default=None):
    mask = np.zeros(20, bool)
    bounds = np.column_stack((np.full(20, -np.inf), np.full(20, np.inf)))
    if default is not None:
        bounds = np.array(default, float)
    for name, value in params.items():
        lo = hi = None
        sel = value
        if isinstance(value, tuple):
            sel, lo, hi = value
        elements = expand(sel, LENGTHS[name])
        for i, e in enumerate(elements):
            pos = STARTS[name] + e
            mask[pos] = True
            for col, b in ((0, lo), (1, hi)):
                if isinstance(b, list):
                    b = b[i] if len(b) > 1 else b[0]
                if b is not None and not np.isnan(b):
                    bounds[pos, col] = b
    return mask, bounds


@R.sub(
    st.tuples(param_specs(), st.booleans()),
    quick=500,
    thorough=10000,
    rule="parameter selections with bounds; non-trivial with two names or bounds",
)
def selects_parameters(case, ctx):
    params, with_default = case
    default = None
    if with_default:
        default = np.column_stack((-np.arange(1.0, 21), np.arange(101.0, 121)))
    mask, bounds = Cameras.parse_params(params, default_bounds=default)
    want_mask, want_bounds = reference_params(params, default)
    if len(params) > 1 or any(isinstance(v, tuple) for v in params.values()):
        ctx.hit("several" if len(params) > 1 else "bounds")
    same(np.asarray(mask, bool), want_mask, msg="mask", params=params)
    same(bounds, want_bounds, msg="bounds", params=params)


# ---- Scenes ----------------------------------------------------------------- #


@st.composite
def scenes(draw, max_cams=3, lines=True, behind=False, outside=False):
    """Cameras at (about) one place that look at points in front of them."""
    n = draw(st.integers(1, max_cams))
    together = draw(st.booleans())
    equal = draw(st.booleans())
    base = (draw(finite(-180, 180)), draw(finite(-40, 40)), draw(finite(-20, 20)))
    origin = draw(
        st.sampled_from([(0.0, 0.0, 0.0), (10.0, -20.0, 5.0), (5000.0, 7000.0, 300.0)])
    )
    cams = []
    for i in range(n):
        nx = draw(st.sampled_from([80, 100, 300]))
        size = cams[0]["imgsz"] if equal and cams else (nx, nx * 3 // 4)
        f = size[0] * draw(finite(0.8, 2))
        cams.append(
            {
                "imgsz": size,
                "f": (f, f * draw(st.sampled_from([1.0, 1.0, 1.1]))),
                "c": (draw(finite(-3, 3)), draw(finite(-3, 3))),
                "k": (draw(st.sampled_from([0.0, 0.0, 0.01, -0.01])),) + (0.0,) * 5,
                "p": (0.0, draw(st.sampled_from([0.0, 0.001]))),
                "xyz": tuple(
                    o + (0 if together else draw(finite(-1, 1))) for o in origin
                ),
                "viewdir": tuple(v + draw(finite(-4, 4)) for v in base),
            }
        )
    controls = []
    kinds = ["points", "points", "lines"] if lines else ["points"]
    for i in range(n):
        for _ in range(draw(st.integers(0, 2))):
            controls.append(
                {
                    "kind": draw(st.sampled_from(kinds)),
                    "cam": i,
                    "n": draw(st.integers(1, 8)),
                    "seed": draw(st.integers(0, 999)),
                }
            )
    for i in range(n if together else 0):
        for j in range(i + 1, n):
            if draw(st.booleans()):
                controls.append(
                    {
                        "kind": "matches",
                        "cam": (i, j) if draw(st.booleans()) else (j, i),
                        "n": draw(st.integers(1, 8)),
                        "seed": draw(st.integers(0, 999)),
                    }
                )
    for c in controls:
        c["noise"] = draw(st.sampled_from([0.0, 0.5, 3.0]))
        c["behind"] = behind and draw(st.integers(0, 3)) == 0
    if not controls:
        controls = [{"kind": "points", "cam": 0, "n": 3, "seed": 1, "noise": 0.5, "behind": False}]
    controls = draw(st.permutations(controls))
    return {
        "cams": cams,
        "controls": list(controls),
        "together": together,
        "outside": outside and draw(st.booleans()),
    }


def build_control(spec, specs, cams):
    """Control object whose image coordinates fit the cameras (plus noise)."""
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]

    def look(i, n, depth):
        s = specs[i]
        half = np.array(s["imgsz"]) / 2 / np.array(s["f"])
        x = rng.uniform(-0.8, 0.8, n) * half[0]
        y = rng.uniform(-0.8, 0.8, n) * half[1]
        return ref.world(s, x, y, depth)

    noise = spec["noise"]
    if spec["kind"] == "matches":
        i, j = spec["cam"]
        d = look(i, n, np.ones(n))
        uvs = [
            ref.project(specs[k], d, directions=True)[0] + rng.normal(0, 1, (n, 2)) * noise
            for k in (i, j)
        ]
        return Matches(cams=(cams[i], cams[j]), uvs=uvs)
    i = spec["cam"]
    xyz = np.array(specs[i]["xyz"]) + look(i, n, rng.uniform(20, 200, n))
    uv = ref.project(specs[i], xyz)[0]
    uv += rng.normal(0, 1, (n, 2)) * noise
    if spec["kind"] == "points":
        if spec.get("behind"):
            xyz[0] = 2 * np.array(specs[i]["xyz"]) - xyz[0]
        return Points(cams[i], uv=uv, xyz=xyz)
    line = np.array(specs[i]["xyz"]) + look(i, 4, np.full(4, 50.0))
    return Lines(cams[i], uvs=[uv], xyzs=[line], density=0.2)


def build(scene):
    cams = [glimpse.Camera(**c) for c in scene["cams"]]
    extra = []
    if scene["outside"]:
        # Cameras of controls which are not part of the model
        extra = [cams.pop()] if len(cams) > 1 else []
    controls = [
        build_control(c, scene["cams"], cams + extra) for c in scene["controls"]
    ]
    return cams, controls, extra


def control_cams(spec):
    return spec["cam"] if isinstance(spec["cam"], tuple) else (spec["cam"],)


@st.composite
def models(draw, names=("viewdir", "f", "c", "k", "p"), **kwargs):
    scene = draw(scenes(**kwargs))
    n = len(scene["cams"])
    if scene["outside"] and n > 1:
        n -= 1
    else:
        scene["outside"] = False
    used = sorted({i for c in scene["controls"] for i in control_cams(c) if i < n})
    if not used:
        scene["controls"].append(
            {"kind": "points", "cam": 0, "n": 2, "seed": 5, "noise": 0.5, "behind": False}
        )
        used = [0]
    names = list(names)
    if not scene["together"]:
        names.append("xyz")
    groups = draw(st.booleans())
    group_indices = group_params = None
    taken = {}
    if groups:
        group_indices, group_params = [], []
        for _ in range(draw(st.integers(1, 2))):
            idx = draw(st.lists(st.sampled_from(used), unique=True, min_size=1))
            sizes = {tuple(scene["cams"][i]["imgsz"]) for i in idx}
            ok = [m for m in names if m not in ("f", "c") or len(sizes) == 1]
            params = {}
            for name in draw(st.lists(st.sampled_from(ok), unique=True, max_size=2)):
                free = [
                    e
                    for e in range(LENGTHS[name])
                    if not any((i, name, e) in taken for i in idx)
                ]
                pick = [e for e in free if draw(st.booleans())]
                if pick:
                    params[name] = pick
                    taken.update({(i, name, e): 1 for i in idx for e in pick})
            group_indices.append(idx)
            group_params.append(params)
    cam_params = []
    for i in range(n):
        params = {}
        if i in used:
            for name in draw(st.lists(st.sampled_from(names), unique=True, max_size=2)):
                pick = [
                    e
                    for e in range(LENGTHS[name])
                    if (i, name, e) not in taken and draw(st.booleans())
                ]
                if pick:
                    params[name] = pick
        cam_params.append(params)
    if not any(cam_params) and not (group_params and any(group_params)):
        cam_params[used[0]] = {"viewdir": [0]}
        if any(k[0] == used[0] and k[1:] == ("viewdir", 0) for k in taken):
            cam_params[used[0]] = {}
    return {
        "scene": scene,
        "cam_params": cam_params,
        "group_indices": group_indices,
        "group_params": group_params,
        "weights": draw(st.sampled_from([None, None, "random"])),
        "values": draw(st.integers(0, 999)),
    }


def layout(case, n):
    """[(cameras, position)] of every parameter: groups first, then cameras."""
    out = []
    indices = case["group_indices"] or [list(range(n))]
    params = case["group_params"] or [{}] * len(indices)
    for idx, p in zip(indices, params):
        mask, _ = reference_params(p)
        out += [(list(idx), pos) for pos in np.flatnonzero(mask)]
    for i, p in enumerate(case["cam_params"]):
        mask, _ = reference_params(p)
        out += [([i], pos) for pos in np.flatnonzero(mask)]
    return out


def build_model(case, **kwargs):
    cams, controls, extra = build(case["scene"])
    kept = [c for c in controls if set(map(id, Cameras._get_control_cams(c))) & set(map(id, cams))]
    size = sum(len(c.observed()) for c in kept)
    weights = None
    if case["weights"]:
        weights = np.random.default_rng(case["values"]).uniform(0.1, 2, size)
    model = Cameras(
        cams=cams,
        controls=controls,
        cam_params=case["cam_params"],
        group_indices=case["group_indices"],
        group_params=case["group_params"],
        weights=weights,
        **kwargs,
    )
    return model, cams, kept, extra, weights


def predict(spec_vector, control, cams):
    return control.predicted()


@R.sub(
    models(),
    quick=250,
    thorough=5000,
    rule="sets of parameter values on generated models; non-trivial with a group or "
    "two cameras",
)
def sets_and_resets_parameters(case, ctx):
    model, cams, kept, extra, weights = build_model(case)
    places = layout(case, len(cams))
    before = [c.to_array() for c in cams + extra]
    # Initial values
    values = np.array(list(model.params.valuesdict().values()))
    want = [np.mean([before[i][pos] for i in idx]) for idx, pos in places]
    close(values, np.array(want), rtol=1e-9, atol=1e-9, msg="initial values")
    if len(cams) > 1 or case["group_params"]:
        ctx.hit("cams%d" % len(cams))
    rng = np.random.default_rng(case["values"])
    shift = rng.uniform(-0.01, 0.01, len(places))
    values = values + shift
    # (what is computed for the first state is not that of the next)
    first = model.predicted(), model.residuals(), model.errors()
    expected = [v.copy() for v in before]
    for value, (idx, pos) in zip(values, places):
        for i in idx:
            expected[i][pos] = value
    # Predictions and residuals for other values, with the cameras unchanged
    predicted = model.predicted(values)
    residuals = model.residuals(values)
    errors = model.errors(values)
    for c, v in zip(cams + extra, before):
        same(c.to_array(), v, msg="predicted() changed a camera")
    model.set_cameras(values)
    for c, v in zip(cams + extra, expected):
        same(c.to_array(), v, msg="camera with parameters set")
    want = np.vstack([c.predicted() for c in kept])
    observed = np.vstack([c.observed() for c in kept])
    same(predicted, want, msg="predicted for values")
    same(model.predicted(), want, msg="predicted for the cameras")
    same(model.observed(), observed, msg="observed")
    check(model.size == len(observed), "size")
    want = want - observed
    if weights is not None:
        want = want * (weights / weights.mean())[:, None]
        ctx.label("weights")
    close(residuals, want, msg="residuals")
    close(errors, np.hypot(*want.T), msg="errors")
    close(model.residuals(), want, msg="residuals for the cameras")
    close(model.errors(), np.hypot(*want.T), msg="errors for the cameras")
    index = np.flatnonzero(rng.random(len(observed)) < 0.5)
    close(model.residuals(index=index), want[index], msg="residuals of an index")
    close(model.observed(index=index), observed[index], msg="observed of an index")
    model.reset_cameras()
    for c, v in zip(cams + extra, before):
        same(c.to_array(), v, msg="camera after reset")
    again = model.predicted(), model.residuals(), model.errors()
    for a, b in zip(first, again):
        close(b, a, msg="predictions after reset")
    # Saved values are the next state to reset to
    model.set_cameras(values, save=True)
    model.set_cameras(values + 1e-3)
    model.reset_cameras()
    for c, v in zip(cams + extra, expected):
        same(c.to_array(), v, msg="camera reset to saved values")


@R.sub(
    models(outside=True),
    quick=150,
    thorough=3000,
    rule="Jacobian structure against numerical differences; non-trivial with two "
    "controls and a structural zero",
)
def sparsity_covers_the_jacobian(case, ctx):
    model, cams, kept, extra, _ = build_model(case)
    places = layout(case, len(cams))
    S = np.asarray(model.sparsity.todense()).astype(bool)
    check(S.shape == (2 * sum(len(c.observed()) for c in kept), len(places)), "shape", got=S.shape)
    values = np.array(list(model.params.valuesdict().values()))
    base = model.residuals(values).ravel()
    if (~S).any() and len(kept) > 1:
        ctx.hit("zeros")
    for i in range(len(places)):
        changed = np.zeros(base.size, bool)
        for step in (1e-4, 1e-2):
            v = values.copy()
            v[i] += step
            changed |= model.residuals(v).ravel() != base
        if (changed & ~S[:, i]).any():
            raise Violation(
                f"parameter {i} moves residuals outside of the sparsity structure"
            )
    # Structural zeros between cameras that share nothing
    rows = np.repeat(np.arange(len(kept)), [2 * len(c.observed()) for c in kept])
    for i, (idx, _) in enumerate(places):
        for r, control in enumerate(kept):
            touches = any(cams[k] in Cameras._get_control_cams(control) for k in idx)
            same(S[rows == r, i], np.full((rows == r).sum(), touches), msg="structure")
    scales = np.asarray(model.scales)
    check(scales.shape == (len(places),), "one scale per parameter", got=scales.shape)
    check((scales > 0).all() and np.isfinite(scales).all(), "positive scales")
    alone = [Cameras.camera_scales(cam, kept) for cam in cams]
    want = [np.mean([alone[i][pos] for i in idx]) for idx, pos in places]
    close(scales, want, msg="scales of groups are means of those of their cameras")


@R.sub(
    models(),
    quick=150,
    thorough=3000,
    rule="bounds of the parameters of generated models; non-trivial with user bounds",
)
def applies_bounds(case, ctx):
    case = dict(case)
    rng = np.random.default_rng(case["values"])
    n = len(case["cam_params"])
    params = []
    for p in case["cam_params"]:
        q = {}
        for name, sel in p.items():
            q[name] = sel
            if rng.random() < 0.6:
                lo, hi = -1e5 - rng.random(len(sel)), 1e5 + rng.random(len(sel))
                q[name] = (sel, lo.tolist(), None if rng.random() < 0.3 else hi.tolist())
                ctx.hit("bounds")
        params.append(q)
    case["cam_params"] = params
    model, cams, *_ = build_model(case)
    indices = case["group_indices"] or [list(range(n))]
    gparams = case["group_params"] or [{}] * len(indices)
    want = []
    each = [reference_params(p, Cameras.camera_bounds(c)) for p, c in zip(params, cams)]
    for idx, p in zip(indices, gparams):
        lo = np.max([each[i][1][:, 0] for i in idx], axis=0)
        hi = np.min([each[i][1][:, 1] for i in idx], axis=0)
        mask, bounds = reference_params(p, np.column_stack((lo, hi)))
        want += bounds[mask].tolist()
    for mask, bounds in each:
        want += bounds[mask].tolist()
    got = [(p.min, p.max) for p in model.params.values()]
    same(np.array(got).reshape(-1, 2), np.array(want).reshape(-1, 2), msg="bounds")
    check(len({p.name for p in model.params.values()}) == len(got), "unique names")
    # Default bounds contain sensible values and follow the camera
    for c in cams:
        b = Cameras.camera_bounds(c)
        check(b.shape == (20, 2) and (b[:, 0] < b[:, 1]).all(), "default bounds")
        v = c.to_array()
        check((b[:12, 0] <= v[:12]).all() and (v[:12] <= b[:12, 1]).all(), "contained")


# ---- Fits ------------------------------------------------------------------- #

STEPS = [{"viewdir": True}, {"viewdir": 0}, {"f": True}, {"c": True}, {"k": 0}, {"f": 0, "viewdir": [1]}]


@st.composite
def step_case(draw):
    n = draw(st.integers(1, 2))
    step = st.fixed_dictionaries(
        {
            "cam": st.lists(st.sampled_from(STEPS[:2]), min_size=n, max_size=n),
            "group": st.sampled_from(STEPS[2:5]),
        }
    )
    return {
        "n": n,
        "seed": draw(st.integers(0, 9999)),
        "steps": draw(st.lists(step, min_size=1, max_size=3)),
        "use": draw(st.sampled_from(["both", "both", "cam", "group"])),
        "weights": draw(st.booleans()),
        "noise": draw(st.sampled_from([0.0, 1.0])),
        "method": draw(st.sampled_from(["least_squares", "leastsq"])),
    }


@R.sub(
    step_case(),
    quick=100,
    thorough=800,
    rule="fits of several steps; non-trivial if the steps differ",
)
def fits_step_by_step(c, ctx):
    """A fit in steps starts where fits of the steps one after the other end."""

    def scene():
        rng = np.random.default_rng(c["seed"])
        cams, controls = [], []
        for i in range(c["n"]):
            truth = {
                "imgsz": (400, 300), "f": (500.0, 510.0), "c": (3.0, -2.0), "k": (0.02, 0, 0, 0, 0, 0),
                "p": (0.0, 0.0), "xyz": (10.0, 20.0, 30.0), "viewdir": tuple(rng.uniform(-30, 30, 3)),
            }
            x, y = rng.uniform(-0.38, 0.38, 15), rng.uniform(-0.28, 0.28, 15)
            xyz = np.array(truth["xyz"]) + ref.world(truth, x, y, rng.uniform(3, 60, 15))
            uv = ref.project(truth, xyz)[0] + rng.normal(0, 1, (15, 2)) * c["noise"]
            spec = {
                **truth,
                "viewdir": tuple(np.array(truth["viewdir"]) + rng.uniform(-0.4, 0.4, 3)),
                "f": (508.0, 503.0),
                "c": (1.0, 1.0),
            }
            cams.append(glimpse.Camera(**spec))
            controls.append(Points(cams[i], uv=uv, xyz=xyz))
        weights = rng.uniform(0.5, 2, 15 * c["n"]) if c["weights"] else None
        return dict(
            cams=cams, controls=controls, group_indices=[list(range(c["n"]))], weights=weights
        )

    last = dict(cam_params=[{"viewdir": True}] * c["n"], group_params=[{"f": True, "c": True, "k": 0}])
    steps = [
        {
            "cam_params": s["cam"] if c["use"] != "group" else last["cam_params"],
            "group_params": [s["group"]] if c["use"] != "cam" else last["group_params"],
        }
        for s in c["steps"]
    ]
    if any(s != steps[0] for s in steps):
        ctx.hit(c["use"], c["method"])
    # One step after the other
    kw = scene()
    with quiet():
        for s in steps:
            model = Cameras(**kw, **s)
            values = model.fit(method=c["method"])
            if values is None:
                return
            model.set_cameras(values)
        model = Cameras(**kw, **last)
        starts = list(model.params.valuesdict().values())
        want = model.fit(method=c["method"], full=True)

    # (parameters which make up for each other are not compared themselves)
    def size(values):
        return np.sqrt((model.residuals(np.array(values)) ** 2).mean())

    sizes = size(starts), size(list(want.params.valuesdict().values()))
    # All at once
    kw = scene()
    model = Cameras(**kw, **last)
    before = [x.to_array() for x in kw["cams"]]
    lists = {}
    if c["use"] != "group":
        lists["cam_params"] = [s["cam_params"] for s in steps]
    if c["use"] != "cam":
        lists["group_params"] = [s["group_params"] for s in steps]
    with quiet():
        got = model.fit(method=c["method"], full=True, **lists)
    for cam, v in zip(kw["cams"], before):
        same(cam.to_array(), v, msg="fit() changed a camera")
    close(size([p.init_value for p in got.params.values()]), sizes[0], rtol=1e-2, atol=1e-2, msg="start of the last step")
    close(size(list(got.params.valuesdict().values())), sizes[1], rtol=1e-2, atol=1e-2, msg="end of the last step")


FITS = [
    {"viewdir": True},
    {"viewdir": [0, 1]},
    {"viewdir": 2},
    {"viewdir": True, "f": True},
    {"viewdir": True, "k": 0},
    {"f": True, "c": True},
    {"xyz": True},
    {"viewdir": True, "c": 0},
]


@st.composite
def fits(draw):
    n = draw(st.integers(1, 2))
    case = {
        "n": n,
        "params": [draw(st.sampled_from(FITS)) for _ in range(n)],
        "group": draw(st.sampled_from([None, None, {"f": True}, {"viewdir": True}])),
        "indices": draw(st.sampled_from(["all", "each"])),
        "seed": draw(st.integers(0, 9999)),
        "points": draw(st.integers(12, 25)),
        "scales": draw(st.booleans()),
        "sparsity": draw(st.booleans()),
        "method": draw(st.sampled_from(["least_squares", "least_squares", "leastsq"])),
        "index": draw(st.sampled_from([None, None, "list", "array", "shuffled", "slice"])),
        "weights": draw(st.booleans()),
        "steps": draw(st.sampled_from([0, 0, 1, 2])),
        "viewdir": (draw(finite(-180, 180)), draw(finite(-40, 40)), draw(finite(-20, 20))),
        "behind": draw(st.integers(0, 4)) == 0,
        "matches": draw(st.booleans()),
    }
    return case


@R.sub(
    fits(),
    quick=70,
    thorough=1500,
    rule="fits to exact observations from perturbed cameras; non-trivial if the start "
    "is more than one pixel off",
)
def fit_recovers_the_cameras(c, ctx):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    truth, controls, specs = [], [], []
    for i in range(n):
        truth.append(
            {
                "imgsz": (400, 300),
                "f": (500.0, 500.0),
                "c": (3.0, -2.0),
                "k": (0.02,) + (0.0,) * 5,
                "p": (0.0, 0.0),
                "xyz": (10.0, 20.0, 30.0),
                "viewdir": c["viewdir"] if c["group"] else tuple(np.array(c["viewdir"]) + rng.uniform(-2, 2, 3)),
            }
        )
    params = [dict(p) for p in c["params"]]
    group = c["group"]
    indices, gparams = None, None
    if group:
        for p in params:
            for name in group:
                p.pop(name, None)
        indices = [list(range(n))] if c["indices"] == "all" else [[i] for i in range(n)]
        gparams = [group] * len(indices)
    free = [reference_params({**p, **(group or {})})[0] for p in params]
    # Perturb what is optimized
    amounts = np.concatenate(
        (np.full(3, 0.3), np.full(3, 0.5), np.zeros(2), np.full(2, 8.0), np.full(2, 2.0), np.full(8, 0.01))
    )
    common = rng.uniform(-1, 1, 20)
    cams, starts = [], []
    for i in range(n):
        cam = glimpse.Camera(**truth[i])
        vector = cam.to_array()
        own = np.where(reference_params(group or {})[0], common, rng.uniform(-1, 1, 20))
        vector[free[i]] += (own * amounts)[free[i]]
        spec = dict(truth[i])
        spec.update(
            xyz=tuple(vector[0:3]), viewdir=tuple(vector[3:6]), f=tuple(vector[8:10]),
            c=tuple(vector[10:12]), k=tuple(vector[12:18]), p=tuple(vector[18:20]),
        )
        cams.append(glimpse.Camera(**spec))
        starts.append(cams[-1].to_array())
    bad = []
    offset = 0
    for i in range(n):
        m = c["points"]
        x, y = rng.uniform(-0.38, 0.38, m), rng.uniform(-0.28, 0.28, m)
        xyz = np.array(truth[i]["xyz"]) + ref.world(truth[i], x, y, rng.uniform(3, 60, m))
        uv = ref.project(truth[i], xyz)[0]
        if c["index"]:
            # Observations that the index leaves out are wrong
            out = np.array([m - 1, m - 2])
            if c["index"] == "slice":
                out = np.array([0, 1]) if i == 0 else np.array([], int)
            uv[out] += 40
            bad += (out + offset).tolist()
        if c["behind"]:
            k = m // 2
            xyz[k] = 2 * np.array(truth[i]["xyz"]) - xyz[k]
        offset += m
        controls.append(Points(cams[i], uv=uv, xyz=xyz))
    if n == 2 and c["matches"] and not c["index"] and not any("xyz" in p for p in params):
        d = ref.world(truth[0], rng.uniform(-0.3, 0.3, 10), rng.uniform(-0.2, 0.2, 10), np.ones(10))
        controls.append(
            Matches(cams=cams, uvs=[ref.project(t, d, directions=True)[0] for t in truth])
        )
        offset += 10
        ctx.label("matches")
    index = slice(None)
    if c["index"]:
        keep = [i for i in range(offset) if i not in bad]
        index = {
            "list": keep, "array": np.array(keep), "shuffled": rng.permutation(keep),
            "slice": slice(2, None),
        }[c["index"]]
    weights = rng.uniform(0.5, 2, offset) if c["weights"] else None
    model = Cameras(
        cams, controls, cam_params=params, group_indices=indices, group_params=gparams,
        weights=weights, scales=c["scales"], sparsity=c["sparsity"],
    )
    kwargs = {}
    if c["steps"]:
        # First only one element of the first name
        first = []
        for p in params:
            name = next(iter(p), None)
            first.append({name: expand(p[name], LENGTHS[name])[:1]} if name else {})
        if group or any(first):
            kwargs["cam_params"] = [first] * c["steps"]
            if group:
                kwargs["group_params"] = [gparams] * c["steps"]
        ctx.label("steps%d" % c["steps"])
    if not model.params:
        return
    initial = np.nanmax(np.abs(model.residuals(index=index)))
    if initial > 1:
        ctx.hit(c["method"], "index=%s" % c["index"], "group" if group else "own")
    with quiet():
        result = model.fit(index=index, method=c["method"], full=True, **kwargs)
    for cam, start in zip(cams, starts):
        same(cam.to_array(), start, msg="fit() changed a camera")
    check(result.success, "fit succeeds", message=result.message)
    values = np.array(list(result.params.valuesdict().values()))
    final = model.residuals(values, index=index)
    check(
        np.nansum(final ** 2) <= np.nansum(model.residuals(index=index) ** 2) * (1 + 1e-9),
        "fit is no worse than the start",
    )
    check(np.nanmax(np.abs(final)) < 0.02, "residuals vanish", got=np.nanmax(np.abs(final)))
    model.set_cameras(values)
    tol = amounts * 0.05 + 1e-6
    for i, cam in enumerate(cams):
        want = glimpse.Camera(**truth[i]).to_array()
        diff = np.abs(cam.to_array() - want)
        check((diff <= tol).all(), "parameters are recovered", camera=i, diff=diff)
        same(cam.to_array()[~free[i]], starts[i][~free[i]], msg="fixed parameters")
    model.reset_cameras()
    with quiet():
        again = model.fit(index=index, method=c["method"], **kwargs)
    close(again, values, rtol=1e-7, atol=1e-9, msg="values of the fit")


@R.sub(
    st.tuples(
        st.sampled_from(["one", "some", "all", "range", "lists"]),
        st.sampled_from(["dict", "list", None]),
        st.sampled_from(["dict", "list", None]),
        st.sampled_from(["one", "list"]),
        st.integers(1, 3), st.integers(0, 999), st.booleans(), st.booleans(),
    ),
    quick=150,
    thorough=2000,
    rule="models built from single objects instead of lists of them; all non-trivial",
)
def accepts_single_objects(case, ctx):
    group, own, common, many, n, seed, scales, sparsity = case
    rng = np.random.default_rng(seed)
    if many == "one" or own == "dict":
        n = 1
    cams = [glimpse.Camera(imgsz=(100, 80), f=100.0 + i, viewdir=(i, 2, 3)) for i in range(n)]
    uvs = [rng.uniform(10, 70, (3, 2)) for _ in cams]
    controls = [Points(c, uv=uv, xyz=c.uv_to_xyz(uv, directions=False, depth=9)) for c, uv in zip(cams, uvs)]
    cam_params = [{"viewdir": [i % 3]} for i in range(n)] if own else None
    idx = {"one": [0], "some": [0, n - 1] if n > 1 else [0], "all": list(range(n)),
           "range": list(range(n)), "lists": list(range(n))}[group]
    group_params = [{"f": True}] if common else None
    if not (own or common):
        return
    ctx.hit(group)
    lists = dict(cams=cams, controls=controls, cam_params=cam_params, group_indices=[idx], group_params=group_params)
    single = dict(lists)
    single["group_indices"] = {"one": 0, "some": idx, "all": None, "range": range(n), "lists": [idx]}[group]
    if own == "dict":
        single["cam_params"] = cam_params[0]
    if common == "dict":
        single["group_params"] = group_params[0]
    if n == 1 and many == "one":
        single.update(cams=cams[0], controls=controls[0])
    a = Cameras(**lists, scales=scales, sparsity=sparsity)
    b = Cameras(**single, scales=scales, sparsity=sparsity)
    check(list(a.params) == list(b.params), "names", got=list(b.params), want=list(a.params))
    values = np.array(list(a.params.valuesdict().values()))
    same(np.array(list(b.params.valuesdict().values())), values, "values")
    vectors = []
    for model in (a, b):
        model.set_cameras(values * 1.01 + 0.01)
        vectors.append(np.vstack([c.to_array() for c in cams]))
        model.reset_cameras()
    same(vectors[1], vectors[0], "cameras set")
    check((vectors[0] != np.vstack([c.to_array() for c in cams])).any(), "cameras changed")
    same(b.residuals(values + 0.1), a.residuals(values + 0.1), "residuals")
    for name, on in (("scales", scales), ("sparsity", sparsity)):
        got, want = getattr(b, name), getattr(a, name)
        check((got is not None) == on, name)
        if on:
            got, want = (x.toarray() if hasattr(x, "toarray") else x for x in (got, want))
            same(got, want, name)
    with quiet():
        b.fit(method="least_squares")
    same(np.vstack([c.to_array() for c in cams])[:, 3], np.arange(float(n)), "fit() left the cameras")


# ---- Errors, pruning, plots ------------------------------------------------- #


@R.sub(
    st.tuples(scenes(), st.lists(st.booleans(), min_size=3, max_size=3)),
    quick=150,
    thorough=2000,
    rule="controls of some of the cameras; non-trivial if some controls are dropped",
)
def prunes_controls(case, ctx):
    scene, flags = case
    cams, controls, _ = build(scene)
    chosen = [c for c, f in zip(cams, flags) if f]
    got = Cameras.prune_controls(controls, chosen)
    want = [
        control
        for control, spec in zip(controls, scene["controls"])
        if any(flags[i] for i in control_cams(spec))
    ]
    check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "controls", got=got)
    if len(want) < len(controls):
        ctx.hit("dropped")
    if not want:
        raises(ValueError, Cameras, chosen or [glimpse.Camera(imgsz=10, f=1)], controls, msg="no controls")
    # A camera with parameters needs a control
    used = {i for spec in scene["controls"] for i in control_cams(spec)}
    for i in range(len(cams)):
        params = [{"viewdir": 0} if k == i else {} for k in range(len(cams))]
        if i not in used:
            raises(ValueError, Cameras, cams, controls, params, msg="camera without control")
        else:
            Cameras(cams, controls, params)
    # Groups that would set the same parameter of a camera twice
    if len(cams) > 1 and used == set(range(len(cams))):
        both = list(range(len(cams)))
        raises(
            ValueError, Cameras, cams, controls, None, [both, [0]],
            [{"viewdir": [0]}, {"viewdir": [0, 1]}], msg="overlapping groups",
        )
        Cameras(cams, controls, None, [both, [0]], [{"viewdir": [0]}, {"viewdir": [1]}])
        sizes = {tuple(c["imgsz"]) for c in scene["cams"]}
        for name in ("f", "c"):
            if len(sizes) > 1:
                raises(ValueError, Cameras, cams, controls, None, [both], [{name: True}], msg="sizes")
            else:
                Cameras(cams, controls, None, [both], [{name: True}])
            # In any group
            for k in range(2):
                groups, gparams = [[0], both], [{"viewdir": 0}, {name: True}]
                args = cams, controls, None, groups[::1 - 2 * k], gparams[::1 - 2 * k]
                if len(sizes) > 1:
                    raises(ValueError, Cameras, *args, msg="sizes of one of the groups")
                else:
                    Cameras(*args)
    # A camera with parameters of its group needs a control
    for i in range(len(cams)):
        if i not in used:
            for k in range(2):
                groups, gparams = [[sorted(used)[0]], [i]], [{"xyz": 0}, {"viewdir": 0}]
                raises(
                    ValueError, Cameras, cams, controls, None, groups[::1 - 2 * k], gparams[::1 - 2 * k],
                    msg="camera of a group without control",
                )
                gparams[1] = {}
                Cameras(cams, controls, None, groups[::1 - 2 * k], gparams[::1 - 2 * k])


@R.sub(
    st.tuples(models(lines=False), st.sampled_from([None, "list", "array", "slice"])),
    quick=40,
    thorough=600,
    rule="plots of residuals; non-trivial with shifted parameters",
)
def plots_residuals(case, ctx):
    case, kind = case
    model, cams, kept, extra, weights = build_model(case)
    before = [c.to_array() for c in cams]
    values = np.array(list(model.params.valuesdict().values())) + 1e-3
    if len(kept) > 1:
        kind = None
    n = len(kept[0].observed())
    index = {
        None: slice(None), "list": [0], "array": np.arange(0, n, 2), "slice": slice(0, 1),
    }[kind]
    ctx.hit("index=%s" % kind)
    for i, cam in enumerate(cams):
        mine = Cameras.prune_controls(kept, [cam])
        try:
            got = model.plot(params=values, cam=i, index=index)
            for c, v in zip(cams, before):
                same(c.to_array(), v, msg="plot() changed a camera")
            check(len(got) == len(mine), "one result per control")
            model.set_cameras(values)
            for result, control in zip(got, mine):
                if isinstance(control, Matches):
                    uv, puv = control.observed(cam), control.predicted(cam)
                else:
                    uv, puv = control.observed(), control.predicted()
                chosen = np.arange(len(uv))[index]
                for name, idx in (
                    ("selected", chosen), ("unselected", np.delete(np.arange(len(uv)), chosen)),
                ):
                    q = result[name]
                    check((q is None) == (len(idx) == 0), "quiver", name=name)
                    if q is not None:
                        close(q.XY, uv[idx], msg="arrow starts")
                        close(np.column_stack((q.U, q.V)), (puv - uv)[idx], msg="arrows")
            model.reset_cameras()
        finally:
            plt.close("all")


# ---- Parameter scales and default bounds ------------------------------------ #


@st.composite
def scale_cases(draw):
    n = draw(st.integers(100, 3000))
    return {
        "imgsz": (n, int(n * draw(finite(0.75, 1.3)))),
        "f": draw(finite(0.8, 4)),
        "c": (draw(finite(-0.03, 0.03)), draw(finite(-0.03, 0.03))),
        "xyz": tuple(draw(finite(-500, 500)) for _ in range(3)),
        "viewdir": (draw(finite(-180, 180)), draw(finite(-80, 80)), draw(finite(-90, 90))),
        "distance": draw(finite(10, 5000)),
        "spread": draw(finite(1, 1.3)),
        "points": draw(st.integers(1, 60)),
        "kind": draw(st.sampled_from(["points", "lines", "both", "matches", "none", "other"])),
        "repeat": draw(st.integers(2, 5)),
        "seed": draw(st.integers(0, 2**32 - 1)),
    }


@R.sub(
    scale_cases(),
    quick=250,
    thorough=5000,
    rule="cameras with points and lines at a known distance, also repeated; non-trivial when "
    "the controls determine the scale of the position",
)
def scales_are_changes_per_pixel(c, ctx):
    rng = np.random.default_rng(c["seed"])
    n = np.array(c["imgsz"])
    f = c["f"] * n.max()
    cam = glimpse.Camera(
        imgsz=n, f=(f, f), c=np.array(c["c"]) * n, xyz=c["xyz"], viewdir=c["viewdir"]
    )
    uv = rng.uniform(0, 1, (c["points"], 2)) * n
    rays = cam.uv_to_xyz(uv)
    rays /= np.linalg.norm(rays, axis=1, keepdims=True)
    d = c["distance"] * rng.uniform(1, c["spread"], c["points"])
    xyz = cam.xyz + rays * d[:, None]

    def controls(reps):
        r = lambda a: np.vstack([a] * reps)  # noqa: E731
        out = []
        if c["kind"] in ("points", "both"):
            out.append(Points(cam=cam, uv=r(uv), xyz=r(xyz)))
        if c["kind"] in ("lines", "both"):
            out.append(Lines(cam=cam, uvs=[uv], xyzs=[xyz] * reps))
        if c["kind"] == "matches":
            other = glimpse.Camera(imgsz=n, f=f, xyz=c["xyz"])
            out.append(Matches(cams=[cam, other], uvs=[uv, uv]))
        if c["kind"] == "other":
            other = cam.copy()
            out.append(Points(cam=other, uv=r(uv), xyz=r(xyz)))
            out.append(Points(cam=cam, uv=uv, xyz=rays * 0.01, directions=True))
        return out

    s = Cameras.camera_scales(cam, controls(1) or None)
    check(s.shape == (20,) and np.isfinite(s).all() and (s > 0).all(), "scales", got=s)
    close(Cameras.camera_scales(cam, controls(c["repeat"]) or None), s, rtol=1e-9,
          msg="scales depend on the number of controls")
    if c["kind"] in ("points", "lines", "both"):
        ctx.hit(c["kind"])
        close(s[:3], np.full(3, d.mean() / f), rtol=1e-9, msg="scale of the position")
    else:
        close(s[:3], np.ones(3), msg="position without world controls")
    # Image points moved by a unit change (of a small step) of each parameter
    grid = (np.stack(np.meshgrid(*[(np.arange(21) + 0.5) / 21] * 2), -1).reshape(-1, 2)) * n
    world = cam.uv_to_xyz(grid, directions=False, depth=c["distance"])
    vector = cam.to_array()
    names = [(k, i) for k in NAMES for i in range(LENGTHS[k])]
    limits = {"viewdir": (0.6, 1.6), "imgsz": (0.999, 1.001), "f": (0.6, 1.6),
              "c": (0.999, 1.001), "k": (0.45, 4), "p": (0.45, 4)}
    for j, (name, i) in enumerate(names):
        if name == "xyz" or (name, i) == ("viewdir", 1):
            continue
        if (name, i) == ("viewdir", 0) and abs(c["viewdir"][1]) > 20:
            continue
        if name in ("k", "p") and np.abs(c["c"]).max() > 0.02:
            continue
        step = s[j] * (1e-3 if name not in ("imgsz",) else 1)
        kw = dict(imgsz=n, f=vector[8:10], c=vector[10:12], xyz=c["xyz"], viewdir=c["viewdir"],
                  k=vector[12:18], p=vector[18:20])
        value = np.array(kw[name], float)
        if name == "f":
            value = value + step
        else:
            value[i] += step
        kw[name] = value
        if name == "imgsz":
            close(step, 2.0, msg="image size moves its centre by half")
            continue
        moved = np.linalg.norm(glimpse.Camera(**kw).xyz_to_uv(world) - grid, axis=1).mean()
        ratio = moved / (step / s[j])
        lo, hi = limits[name]
        if name == "k":
            hi = (3, 6, 14)[i % 3]
        check(lo <= ratio <= hi, f"a change of scale moves {name}[{i}] by about a pixel", got=ratio)
    bounds = Cameras.camera_bounds(cam)
    check(bounds.shape == (20, 2) and (bounds[:, 0] <= bounds[:, 1]).all(), "bounds")
    same(bounds[:6], np.array([[-np.inf, np.inf]] * 6), "position and direction are unbounded")
    same(bounds[6:10], np.array([[0, np.inf]] * 4), "size and focal length are positive")
    close(bounds[10:12], np.outer(n, [-0.5, 0.5]), msg="principal point is within the image")
    close(bounds[12:, 0], -bounds[12:, 1], msg="distortion bounds are symmetric")

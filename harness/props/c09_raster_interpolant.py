"""C09 Interpolation of raster series."""
import datetime
import os

import numpy as np
from core import Registry, Violation, check, close, raises, same, st
from gens import cells, centers, grids, maybe_nan, quarters

from glimpse import Raster, RasterInterpolant

R = Registry("C09")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
T0 = datetime.datetime(2020, 1, 1)


def coordinate(v, kind):
    if kind == "datetime":
        return T0 + datetime.timedelta(hours=float(v))
    return int(v) if kind == "int" else float(v)


@st.composite
def series(draw, max_n=5, files=False):
    g = draw(grids(min_n=2, max_n=4, square=True))
    n = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(["float", "int", "datetime"]))
    x = draw(st.lists(st.integers(-20, 40), min_size=n, max_size=n, unique=True))
    case = {
        "g": g,
        "kind": kind,
        "x": x,
        "z": [draw(cells(g["nx"], g["ny"], maybe_nan)) for _ in range(n)],
        "sigma": draw(st.sampled_from([None, "number", "raster", "mixed"])),
        "s": [draw(st.integers(0, 12)) / 4 for _ in range(n)],
        "xi": draw(
            st.one_of(
                st.sampled_from(x),
                st.integers(-30, 50),
                st.integers(-30, 50) if kind == "int" else st.integers(-120, 200).map(lambda i: i / 4),
            )
        ),
        "extrapolate": draw(st.booleans()),
        "files": draw(st.booleans()),
        "own_x": draw(st.booleans()),
        # Directions of the axes of each mean and sigma
        "flips": draw(
            st.one_of(
                st.none(),
                st.lists(st.tuples(*[st.sampled_from([1, -1])] * 2), min_size=2 * n, max_size=2 * n),
            )
        ),
    }
    return case


def flipped(case, k, z=None):
    """Array and limits of a raster in its own direction of the axes."""
    fx, fy = case["flips"][k] if case.get("flips") else (1, 1)
    g = case["g"]
    kw = dict(x=tuple(g["xlim"])[::fx], y=tuple(g["ylim"])[::fy])
    return (None if z is None else np.array(z, float)[::fy, ::fx].copy()), kw


def reference(case):
    """Expected pair of rasters and (mean, sigma)."""
    x, xi = case["x"], case["xi"]
    n = len(x)
    if case["extrapolate"]:
        order = sorted(range(n), key=lambda k: abs(x[k] - xi))
        if n > 2 and abs(x[order[1]] - xi) == abs(x[order[2]] - xi):
            return "tie"
        i, j = sorted(order[:2], key=lambda k: x[k])
    else:
        before = [k for k in range(n) if x[k] <= xi]
        after = [k for k in range(n) if x[k] >= xi]
        if not before or not after:
            return None
        i = max(before, key=lambda k: x[k])
        j = min(after, key=lambda k: x[k])
    a, b = np.array(case["z"][i], float), np.array(case["z"][j], float)
    sa, sb = sigma_array(case, i), sigma_array(case, j)
    if i == j:
        return (i, j), a, sa
    t = (xi - x[i]) / (x[j] - x[i])
    mean = a + (b - a) * t
    near = min(abs(xi - x[i]), abs(xi - x[j])) / (x[j] - x[i])
    var = sa ** 2 + t ** 2 * (sa ** 2 + sb ** 2) + ((b - a) / 3 * near) ** 2
    return (i, j), mean, np.sqrt(var)


def sigma_kind(case, k):
    if case["sigma"] == "mixed":
        return "raster" if k % 2 else "number"
    return case["sigma"]


def sigma_array(case, k):
    shape = (case["g"]["ny"], case["g"]["nx"])
    kind = sigma_kind(case, k)
    if kind is None:
        return np.zeros(shape)
    base = np.full(shape, case["s"][k])
    if kind == "raster":
        base = base + np.arange(base.size).reshape(shape) / 8
    return base


def build(case):
    n = len(case["x"])
    x = [coordinate(v, case["kind"]) for v in case["x"]]
    means, sigmas = [], []
    for k, z in enumerate(case["z"]):
        t = x[k] if case["kind"] == "datetime" else None
        z, kw = flipped(case, k, z)
        means.append(Raster(z, datetime=t, **kw))
        if sigma_kind(case, k) == "number":
            sigmas.append(case["s"][k])
        elif sigma_kind(case, k) == "raster":
            z, kw = flipped(case, n + k, sigma_array(case, k))
            sigmas.append(Raster(z, **kw))
    if case["files"]:
        for items, name in ((means, "m"), (sigmas, "s")):
            for k, m in enumerate(items):
                if isinstance(m, Raster):
                    path = os.path.join(TMP, f"{name}{k}.tif")
                    m.write(path)
                    items[k] = path
    if case["own_x"] and case["kind"] == "datetime" and not case["files"]:
        return means, sigmas or None, None, x
    return means, sigmas or None, x, x


def snapshot(items):
    return [
        (m.array.copy(), m.xlim.copy(), m.ylim.copy()) if isinstance(m, Raster) else m
        for m in items or []
    ]


def unchanged(items, snap, msg):
    for m, s in zip(items or [], snap):
        if isinstance(m, Raster):
            same(m.array, s[0], msg)
            same(m.xlim, s[1], msg)
            same(m.ylim, s[2], msg)
        else:
            check(m == s, msg)


@R.sub(
    series(),
    quick=1500,
    thorough=25000,
    rule="series of rasters, files and sigmas with number or datetime coordinates in any "
    "order, between, at and beyond the observations; non-trivial between or at one",
)
def interpolation(case, ctx):
    means, sigmas, x, xs = build(case)
    want = reference(case)
    if want == "tie":
        return
    f = RasterInterpolant(means=means, sigmas=sigmas, x=x)
    xi = coordinate(case["xi"], case["kind"])
    if case["kind"] == "int" and case["xi"] != int(case["xi"]):
        xi = case["xi"]
    if want is None:
        raises(ValueError, f, xi, extrapolate=False, msg="not bounded")
        raises(ValueError, f.nearest, xi, msg="not bounded")
        ctx.label("not bounded")
        return
    (i, j), mean, sigma = want
    # Directions of the axes are those of the first raster
    mean, limits = flipped(case, i, mean)
    sigma = flipped(case, i, sigma)[0]
    ctx.hit("at observation" if i == j or case["xi"] in case["x"] else "between")
    before = snapshot(means), snapshot(sigmas)
    check(
        tuple(f.nearest(xi, extrapolate=case["extrapolate"])) == (i, j), "nearest"
    )
    m, s = f(xi, return_sigma=True, extrapolate=case["extrapolate"])
    only = f(xi, extrapolate=case["extrapolate"])
    close(m.array, mean, msg="mean", at=case["xi"])
    same(only.array, m.array, "mean without sigma")
    got = np.broadcast_to(s.array, mean.shape) if s.array.size == 1 else s.array
    nan = np.isnan(mean)
    close(np.where(nan, 0, got), np.where(nan, 0, sigma), msg="sigma")
    for r in (m, s):
        close(r.xlim, limits["x"], msg="xlim")
        close(r.ylim, limits["y"], msg="ylim")
        if case["kind"] == "datetime":
            check(r.datetime == xi, "datetime", got=r.datetime)
        else:
            check(r.datetime is None, "datetime of a number")
    unchanged(means, before[0], "mean changed")
    unchanged(sigmas, before[1], "sigma changed")
    # Changing the result does not change the series
    m.shift(dx=3, dz=1)
    m.array[:] = -1
    s.array[:] = -1
    unchanged(means, before[0], "result shares data")
    unchanged(sigmas, before[1], "sigma of the result shares data")
    # Order of the observations does not matter
    if x is not None:
        order = list(range(len(x)))[::-1]
        g = RasterInterpolant(
            means=[means[k] for k in order],
            sigmas=None if sigmas is None else [sigmas[k] for k in order],
            x=[x[k] for k in order],
        )
        m2, s2 = g(xi, return_sigma=True, extrapolate=case["extrapolate"])
        close(m2.array, mean, msg="mean of reversed series")
        close(np.where(nan, 0, s2.array), np.where(nan, 0, sigma), msg="sigma of reversed")


@st.composite
def window_case(draw):
    case = draw(series())
    case["extrapolate"] = True
    g = case["g"]
    lims = []
    for lim, n in ((g["xlim"], g["nx"]), (g["ylim"], g["ny"])):
        a = draw(st.integers(0, 4 * n - 2))
        b = draw(st.integers(a + 1, 4 * n))
        d = (lim[1] - lim[0]) / n
        pair = (lim[0] + d * a / 4, lim[0] + d * b / 4)
        lims.append(draw(st.sampled_from([None, pair, pair[::-1]])))
    case["lims"] = lims
    case["zlim"] = draw(st.sampled_from([None, (-10, 10), (10, -20)]))
    case["fun"] = draw(st.booleans())
    return case


@R.sub(
    window_case(),
    quick=800,
    thorough=12000,
    rule="crop bounds, value bounds and functions applied to each raster; non-trivial "
    "with any of them",
)
def windows(case, ctx):
    want = reference(case)
    if want == "tie":
        return
    (i, j), _, _ = want
    g = case["g"]
    xl, yl = case["lims"]

    def block(lim, n, crop):
        if crop is None:
            return 0, n
        d = (lim[1] - lim[0]) / n
        t = sorted((c - lim[0]) / d for c in crop)
        lo = int(np.floor(t[0]))
        return lo, max(int(np.ceil(t[1])), lo + 1)

    c0, c1 = block(g["xlim"], g["nx"], xl)
    r0, r1 = block(g["ylim"], g["ny"], yl)
    if min(c1 - c0, r1 - r0) == 1:
        # NOTE: Single rows and columns lose cells next to missing cells when flipped
        case = {**case, "flips": None}
    means, sigmas, x, xs = build(case)
    f = RasterInterpolant(means=means, sigmas=sigmas, x=x)
    before = snapshot(means), snapshot(sigmas)
    z = [np.array(a, float) for a in case["z"]]
    if case["zlim"]:
        lo, hi = sorted(case["zlim"])
        z = [np.where((a < lo) | (a > hi), np.nan, a) for a in z]
    kw = {}
    if case["fun"]:
        z = [2 * a + 5 for a in z]

        def fun(raster, factor, plus=0):
            raster.array = raster.array * factor + plus

        kw = {"fun": fun, "factor": 2, "plus": 5}
    if case["fun"] or case["zlim"] or xl or yl:
        ctx.hit()
    ref = reference({**case, "z": z})
    m, s = f(
        coordinate(case["xi"], case["kind"]) if case["kind"] != "int" else case["xi"],
        xlim=xl,
        ylim=yl,
        zlim=case["zlim"],
        extrapolate=True,
        return_sigma=True,
        **kw,
    )
    # Directions of the axes are those of the first raster
    fx, fy = case["flips"][i] if case["flips"] else (1, 1)
    mean, sigma = (a[r0:r1, c0:c1][::fy, ::fx] for a in ref[1:])
    close(m.array, mean, msg="mean")
    nan = np.isnan(mean)
    got = np.broadcast_to(s.array, mean.shape) if s.array.size == 1 else s.array
    close(np.where(nan, 0, got), np.where(nan, 0, sigma), msg="sigma")
    dx = (g["xlim"][1] - g["xlim"][0]) / g["nx"]
    dy = (g["ylim"][1] - g["ylim"][0]) / g["ny"]
    close(m.xlim, (g["xlim"][0] + c0 * dx, g["xlim"][0] + c1 * dx)[::fx], msg="xlim")
    close(m.ylim, (g["ylim"][0] + r0 * dy, g["ylim"][0] + r1 * dy)[::fy], msg="ylim")
    unchanged(means, before[0], "mean changed")
    unchanged(sigmas, before[1], "sigma changed")


@st.composite
def overlap_case(draw):
    d = draw(st.sampled_from([1.0, 2.0, 5.0]))
    n = [draw(st.integers(3, 7)) for _ in range(4)]
    off = (draw(st.integers(-8, 8)) / 4, draw(st.integers(-8, 8)) / 4)
    return {
        "d": d,
        "n": n,
        "off": off,
        "plane": [
            tuple(draw(st.integers(-8, 8)) / 4 for _ in range(3)) for _ in range(2)
        ],
        "t": draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])),
        "flip": draw(st.tuples(*[st.sampled_from([1, -1])] * 4)),
        "number": draw(st.sampled_from([None, None, None, 0, 1])),
        "sigma": draw(st.booleans()),
        "target": draw(st.sampled_from([None, None, "half", "double"])),
    }


@R.sub(
    overlap_case(),
    quick=1000,
    thorough=15000,
    rule="linear surfaces on grids which only partly overlap, are offset, reversed or a "
    "number; non-trivial when the grids differ",
)
def overlaps(case, ctx):
    d, n, (ox, oy) = case["d"], case["n"], case["off"]
    fx0, fy0, fx1, fy1 = case["flip"]

    def plane(k, X, Y):
        a, b, c = case["plane"][k]
        return a * X + b * Y + c

    lims = [
        ((0, n[0] * d)[::fx0], (0, n[1] * d)[::fy0]),
        ((ox * d, (ox + n[2]) * d)[::fx1], (oy * d, (oy + n[3]) * d)[::fy1]),
    ]
    rasters, sig = [], []
    for k, (xl, yl) in enumerate(lims):
        if case["number"] == k:
            rasters.append(7.5)
            sig.append(1)
            continue
        x, y = centers(xl, n[2 * k]), centers(yl, n[2 * k + 1])
        rasters.append(Raster(plane(k, *np.meshgrid(x, y)), x=xl, y=yl))
        sig.append(Raster(np.full((len(y), len(x)), 0.5), x=xl, y=yl))
    # Common extent
    boxes = [(sorted(a), sorted(b)) for k, (a, b) in enumerate(lims) if case["number"] != k]
    x0, x1 = max(b[0][0] for b in boxes), min(b[0][1] for b in boxes)
    y0, y1 = max(b[1][0] for b in boxes), min(b[1][1] for b in boxes)
    f = RasterInterpolant(rasters, x=[0, 1], sigmas=sig if case["sigma"] else None)
    if x1 - x0 < 2 * d or y1 - y0 < 2 * d:
        return  # no overlap or too narrow to interpolate in
    if ox or oy or n[0:2] != n[2:4] or min(case["flip"]) < 0 or case["number"] is not None:
        ctx.hit("number" if case["number"] is not None else "grids differ")
    t = case["t"]
    kw = {}
    if case["target"]:
        kw["d"] = d / 2 if case["target"] == "half" else d * 2
    snap = snapshot(rasters)
    m, s = f(t, return_sigma=True, extrapolate=True, **kw)
    unchanged(rasters, snap, "raster changed")
    # Covers the common extent by less than one cell in excess
    got = (*sorted(m.xlim), *sorted(m.ylim))
    for g, w, sgn in zip(got, (x0, x1, y0, y1), (-1, 1, -1, 1)):
        check(-1e-9 <= (g - w) * sgn < d + 1e-9, "extent", got=got, want=(x0, x1, y0, y1))
    if case["target"]:
        ratio = (got[1] - got[0]) / kw["d"], (got[3] - got[2]) / kw["d"]
        # cell size close to the target, never inverted
        for k in range(2):
            check(abs(m.size[k] - ratio[k]) <= 1.0, "target size", got=m.size, want=ratio)
        return
    X, Y = np.meshgrid(m.x, m.y)
    vals = [
        np.full(X.shape, 7.5) if case["number"] == k else plane(k, X, Y) for k in range(2)
    ]
    want = vals[0] + (vals[1] - vals[0]) * t
    a = m.array
    inside = (X >= x0) & (X <= x1) & (Y >= y0) & (Y <= y1)
    check(not np.isnan(a[inside]).any(), "missing inside the common extent")
    ok = ~np.isnan(a)
    close(a[ok], want[ok], rtol=1e-7, atol=1e-6, msg="plane", case=case)
    if case["sigma"]:
        sv = np.broadcast_to(s.array, a.shape)
        check((sv[ok] >= 0).all() and not np.isnan(sv[inside]).any(), "sigma")
        check(s.array.shape == a.shape, "sigma shape", got=s.array.shape)


@R.sub(
    st.fixed_dictionaries(
        {
            "v": st.tuples(quarters, quarters),
            "s": st.tuples(st.integers(0, 8), st.integers(0, 8)),
            "t": st.sampled_from([0.0, 0.25, 0.5, 1.0]),
            "lims": st.booleans(),
        }
    ),
    quick=150,
    thorough=1500,
    rule="numbers in place of rasters; all non-trivial",
)
def numbers(case, ctx):
    ctx.hit()
    (a, b), (sa, sb), t = case["v"], case["s"], case["t"]
    f = RasterInterpolant([a, b], sigmas=[sa, sb], x=[0, 1])
    kw = {"xlim": (0, 10), "ylim": (5, 0)} if case["lims"] else {}
    m, s = f(t, return_sigma=True, **kw)
    close(m.array, [[a + (b - a) * t]], msg="mean")
    if t in (0, 1):
        want = (sa, sb)[int(t)]
    else:
        near = min(t, 1 - t)
        want = np.sqrt(sa ** 2 + t ** 2 * (sa ** 2 + sb ** 2) + ((b - a) / 3 * near) ** 2)
    close(s.array, [[want]], msg="sigma")
    if case["lims"]:
        close(sorted(m.xlim), (0, 10), msg="xlim")
        close(sorted(m.ylim), (0, 5), msg="ylim")


@R.sub(
    st.integers(0, 2),
    quick=5,
    thorough=5,
    rule="things which are not rasters are refused; all non-trivial",
)
def not_rasters(case, ctx):
    ctx.hit()
    bad = [None, [1, 2], {}][case]
    raises(ValueError, RasterInterpolant([bad, bad], x=[0, 1]), 0.5, msg="accepted")


@st.composite
def resolutions(draw):
    return {
        "lo": (draw(st.integers(-20, 20)) * 1.0, draw(st.integers(-20, 20)) * 1.0),
        "side": draw(st.sampled_from([12.0, 24.0])),
        "k": draw(st.permutations([2, 3, 4, 6]))[: draw(st.integers(2, 3))],
        "plane": [tuple(draw(st.integers(-8, 8)) / 4 for _ in range(3)) for _ in range(3)],
        "flip": [draw(st.tuples(*[st.sampled_from([1, -1])] * 2)) for _ in range(3)],
        "t": draw(st.sampled_from([0.0, 0.25, 0.5, 0.875, 1.0])),
        "first": draw(st.integers(0, 1)),
        "files": draw(st.booleans()),
        "sigma": draw(st.booleans()),
    }


@R.sub(
    resolutions(),
    quick=300,
    thorough=5000,
    rule="rasters and files of the same extent with different cell sizes; all non-trivial",
)
def takes_the_largest_cells(case, ctx):
    k = case["k"]
    xl = (case["lo"][0], case["lo"][0] + case["side"])
    yl = (case["lo"][1], case["lo"][1] + case["side"])
    means, sigmas, used = [], [], []
    for i, n in enumerate(k):
        a, b, c = case["plane"][i]
        x, y = xl[:: case["flip"][i][0]], yl[:: case["flip"][i][1]]
        if case["files"]:
            x, y = xl, yl[::-1]
        X, Y = np.meshgrid(centers(x, n), centers(y, n))
        means.append(Raster(a * X + b * Y + c, x=x, y=y))
        sigmas.append(Raster(np.full((n, n), 0.25 * (i + 1)), x=x, y=y))
    first = case["first"] if len(k) == 3 else 0
    xi = first + case["t"]
    at = case["t"] in (0.0, 1.0)
    used = [first + int(case["t"])] * 2 if at else [first, first + 1]
    n = min(k[i] for i in used)
    if case["files"]:
        for i, m in enumerate(means):
            path = os.path.join(TMP, f"r{i}.tif")
            m.write(path)
            means[i] = path
    ctx.hit(str(n), "at" if at else "between")
    f = RasterInterpolant(means, x=list(range(len(k))), sigmas=sigmas if case["sigma"] else None)
    snap = snapshot(means)
    m, s = f(xi, return_sigma=True)
    unchanged(means, snap, "raster changed")
    check(m.array.shape == (n, n), "as many cells as the coarser raster", got=m.shape, k=k)
    close(np.abs(m.d), np.full(2, case["side"] / n), msg="cell size")
    close([*sorted(m.xlim), *sorted(m.ylim)], [*xl, *yl], msg="extent")
    same_d, _ = f(xi, d=case["side"] / n, return_sigma=True)
    close(m.array, same_d.array, msg="differs from asking for that cell size")
    if case["sigma"]:
        check(np.broadcast_to(s.array, m.array.shape).shape == (n, n), "sigma")
    if at:
        i = used[0]
        X, Y = np.meshgrid(m.x, m.y)
        a, b, c = case["plane"][i]
        close(m.array, a * X + b * Y + c, atol=1e-6, msg="raster at its own coordinate")
    # The finest cells when asked for: rasters are refined, not left
    n = max(k[i] for i in used)
    fine = f(xi, d=case["side"] / n)
    check(fine.array.shape == (n, n), "as many cells as asked for", got=fine.shape, k=k)


TYPES = ["uint8", "uint16", "int8", "int16", "int32", "float32", "float64"]


@st.composite
def types_case(draw):
    n = draw(st.integers(2, 3))
    ny, nx = draw(st.integers(2, 4)), draw(st.integers(2, 4))

    def array():
        dtype = draw(st.sampled_from(TYPES))
        if dtype.startswith("float"):
            el = quarters
        else:
            info = np.iinfo(dtype)
            lo, hi = max(info.min, -40000), min(info.max, 70000)
            el = st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi]), st.integers(0, 20))
        return dtype, draw(cells(nx, ny, el))

    x = draw(st.lists(st.integers(-20, 40), min_size=n, max_size=n, unique=True))
    return {
        "n": (ny, nx),
        "x": x,
        "z": [array() for _ in range(n)],
        "s": [array() for _ in range(n)],
        "xi": draw(st.integers(4 * min(x), 4 * max(x))) / 4,
        "files": draw(st.booleans()),
    }


@R.sub(
    types_case(),
    quick=300,
    thorough=5000,
    rule="means and sigmas of any integer or float type (as rasters or files), different "
    "for each raster, up to the limits of the type; non-trivial with small integers",
)
def number_types(case, ctx):
    ny, nx = case["n"]
    arrays = {
        key: [np.array(z, dtype=dtype).reshape(ny, nx) for dtype, z in case[key]] for key in "zs"
    }
    if any(a.dtype.itemsize < 3 for a in arrays["z"] + arrays["s"]):
        ctx.hit("files" if case["files"] else "rasters")

    def make(key, k, a):
        raster = Raster(a.copy(), x=(0, nx), y=(ny, 0))
        # (8-bit signed integers are not written as such)
        if case["files"] and a.dtype != "int8":
            path = os.path.join(TMP, f"types_{key}{k}.tif")
            raster.write(path)
            return path
        return raster

    means = [make("z", k, a) for k, a in enumerate(arrays["z"])]
    sigmas = [make("s", k, a) for k, a in enumerate(arrays["s"])]
    m, s = RasterInterpolant(means, sigmas=sigmas, x=case["x"])(case["xi"], return_sigma=True)
    as_float = {key: [a.astype(float) for a in arrays[key]] for key in "zs"}
    x, xi = case["x"], case["xi"]
    i = max((k for k in range(len(x)) if x[k] <= xi), key=lambda k: x[k])
    j = min((k for k in range(len(x)) if x[k] >= xi), key=lambda k: x[k])
    a, b = as_float["z"][i], as_float["z"][j]
    sa, sb = as_float["s"][i], as_float["s"][j]
    if i == j:
        close(m.array, a, 1e-5, 1e-5, "mean at a raster")
        close(np.broadcast_to(s.array, a.shape), np.abs(sa), 1e-5, 1e-5, "sigma at a raster")
        return
    t = (xi - x[i]) / (x[j] - x[i])
    near = min(t, 1 - t)
    close(m.array, a + (b - a) * t, 1e-5, 1e-5 * (1 + np.abs(b - a).max()), "mean")
    want = np.sqrt(sa ** 2 + t ** 2 * (sa ** 2 + sb ** 2) + ((b - a) / 3 * near) ** 2)
    close(s.array, want, 1e-5, 1e-5, "sigma")
    for k, r in enumerate(means):
        if isinstance(r, Raster):
            same(r.array, arrays["z"][k], "mean changed")
            check(r.array.dtype == arrays["z"][k].dtype, "type of mean changed")

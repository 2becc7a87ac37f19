"""C06 Raster sampling against an explicit interpolation reference."""
import numpy as np
from core import Registry, Violation, check, close, raises, same, st
from gens import cells, centers, finite, grids, maybe_nan, quarters

from glimpse.raster import Grid, Raster

R = Registry("C06")

# position in quarter-eighth cells: avoids ties for nearest except on purpose
frac = st.one_of(
    st.integers(0, 64).map(lambda i: i / 64), finite(0.0, 1.0), st.sampled_from([0.0, 1.0])
)


def weights(u, n):
    """Linear interpolation (extrapolation at the outer half cells) of n centres."""
    if n == 1:
        return [(0, 1.0)]
    i = int(np.clip(np.floor(u - 0.5), 0, n - 2))
    t = u - 0.5 - i
    # Next to (not involving) these cells: weight zero, but 0 * nan is nan
    near = [(k, 0.0) for k, e in ((i - 1, t), (i + 2, 1 - t)) if abs(e) < 1e-6]
    return [(i, 1.0 - t), (i + 1, t)] + [(k, w) for k, w in near if 0 <= k < n]


def linear(z, u, v):
    """Bilinear value at image coordinates; None if it involves missing cells
    with negligible weight only (either answer is then acceptable)."""
    total, unsure, missing = 0.0, False, False
    for j, wj in weights(u, z.shape[1]):
        for i, wi in weights(v, z.shape[0]):
            w = wi * wj
            if np.isnan(z[i, j]):
                if abs(w) > 1e-6:
                    missing = True
                else:
                    unsure = True
            else:
                total += w * z[i, j]
    if missing:
        return np.nan
    return None if unsure else total


def nearest(z, u, v):
    """Value of the cell containing the point; None on ties."""
    for t, n in ((u, z.shape[1]), (v, z.shape[0])):
        if abs(t - round(t)) < 1e-6 and 0 < round(t) < n:
            return None
    i = min(int(v), z.shape[0] - 1)
    j = min(int(u), z.shape[1] - 1)
    return z[i, j]


def compare(got, want, msg, tol=1e-9):
    got = np.asarray(got, float)
    if got.shape != (len(want),):
        raise Violation(f"{msg}: shape {got.shape}, expected {(len(want),)}")
    for k, w in enumerate(want):
        if w is None:
            continue
        if not np.isclose(got[k], w, rtol=1e-9, atol=tol, equal_nan=True):
            raise Violation(f"{msg}: point {k}: got {got[k]!r}, expected {w!r}")


def make(case, dtype=float):
    g = case["g"]
    z = np.array(case["z"], dtype=dtype)
    return Raster(z, x=g["xlim"], y=g["ylim"]), z


def to_xy(g, uv):
    d = np.array(
        (
            (g["xlim"][1] - g["xlim"][0]) / g["nx"],
            (g["ylim"][1] - g["ylim"][0]) / g["ny"],
        )
    )
    xy = np.array((g["xlim"][0], g["ylim"][0])) + np.asarray(uv) * d
    lo = (min(g["xlim"]), min(g["ylim"]))
    hi = (max(g["xlim"]), max(g["ylim"]))
    return np.clip(xy, lo, hi)


def to_uv(g, xy):
    d = np.array(
        (
            (g["xlim"][1] - g["xlim"][0]) / g["nx"],
            (g["ylim"][1] - g["ylim"][0]) / g["ny"],
        )
    )
    return (xy - (g["xlim"][0], g["ylim"][0])) / d


@st.composite
def point_case(draw, elements=maybe_nan, min_n=1, outside=False):
    g = draw(grids(min_n=min_n, max_n=6))
    z = draw(cells(g["nx"], g["ny"], elements))
    uv = [
        (draw(frac) * g["nx"], draw(frac) * g["ny"])
        for _ in range(draw(st.integers(1, 8)))
    ]
    case = {"g": g, "z": z, "uv": uv}
    if outside:
        case["out"] = [
            (draw(st.integers(-8, 40)) / 4, draw(st.integers(-8, 40)) / 4)
            for _ in range(draw(st.integers(1, 6)))
        ]
    return case


@R.sub(
    point_case(),
    quick=2000,
    thorough=40000,
    rule="random rasters (any orientation, missing cells, single rows/columns) sampled "
    "in bounds; non-trivial when a point falls between cells of different value",
)
def at_points(case, ctx):
    g = case["g"]
    raster, z = make(case)
    uv = np.array(case["uv"])
    xy = to_xy(g, uv)
    uv = to_uv(g, xy)
    before = z.copy()
    lin = [linear(z, u, v) for u, v in uv]
    near = [nearest(z, u, v) for u, v in uv]
    compare(raster.sample(xy), lin, "linear at points")
    compare(raster.sample(xy, order=0), near, "nearest at points")
    compare(raster.sample(xy, order=1), lin, "linear again (cached)")
    same(raster.array, before, "sampling changed the raster")
    if any(a is not None and b is not None and a != b for a, b in zip(lin, near)):
        ctx.hit("interpolated")
    if np.isnan(z).any():
        ctx.label("missing cells")
    if 1 in z.shape:
        ctx.label("singleton")
    # Cell centres give the cell values exactly as stored
    rc = np.argwhere(np.ones(z.shape, bool))
    xyc = np.column_stack(
        (centers(g["xlim"], g["nx"])[rc[:, 1]], centers(g["ylim"], g["ny"])[rc[:, 0]])
    )
    same(raster.sample(xyc, order=0), z.ravel(), "nearest at cell centres")
    got = raster.sample(xyc)
    full = np.array([linear(z, j + 0.5, i + 0.5) is not None for i, j in rc])
    close(got[full], z.ravel()[full], 1e-9, 1e-9, "linear at cell centres")


@R.sub(
    point_case(),
    quick=1500,
    thorough=30000,
    rule="grids of sampling coordinates (ascending or descending) vs the same points "
    "taken one by one; non-trivial for 2-D rasters with more than one value",
)
def on_grids(case, ctx):
    g = case["g"]
    raster, z = make(case)
    before = z.copy()
    # strictly monotonic coordinates
    u = sorted({round(a, 6) for a, _ in case["uv"]})
    v = sorted({round(b, 6) for _, b in case["uv"]}, reverse=len(case["uv"]) % 2 == 0)
    x = to_xy(g, [(a, 0) for a in u])[:, 0]
    y = to_xy(g, [(0, b) for b in v])[:, 1]
    if len(set(x)) < len(x) or len(set(y)) < len(y):
        return
    u = to_uv(g, np.column_stack((x, x)))[:, 0]
    v = to_uv(g, np.column_stack((y, y)))[:, 1]
    got = raster.sample((x, y), grid=True)
    check(got.shape == (len(y), len(x)), "grid sample shape (m, n)", got=got.shape)
    want = [linear(z, a, b) for b in v for a in u]
    compare(got.ravel(), want, "linear on grid", tol=1e-7)
    same(raster.array, before, "sampling changed the raster")
    if min(z.shape) > 1 and len(set(map(str, z.ravel()))) > 1:
        ctx.hit("2-D")
    if np.isnan(z).any():
        ctx.label("missing cells")
    if 1 in z.shape:
        ctx.label("singleton")


@R.sub(
    st.fixed_dictionaries(
        {
            "c": point_case(elements=quarters, outside=True),
            "fill": st.sampled_from([None, float("nan"), -1.0, 0.0, 0, -1]),
            "int": st.booleans(),
            "list": st.booleans(),
        }
    ),
    quick=1500,
    thorough=30000,
    rule="points in and out of bounds with error, fill and extrapolation; non-trivial "
    "when some points are out of bounds",
)
def bounds(case, ctx):
    c, fill = case["c"], case["fill"]
    g = c["g"]
    if case["int"]:
        z = np.array(c["z"]).astype(int)
        raster = Raster(z, x=g["xlim"], y=g["ylim"])
        z = z.astype(float)
    else:
        raster, z = make(c)
    uv = np.array(list(c["uv"]) + list(c["out"]))
    d = np.array(
        (
            (g["xlim"][1] - g["xlim"][0]) / g["nx"],
            (g["ylim"][1] - g["ylim"][0]) / g["ny"],
        )
    )
    xy = np.vstack((to_xy(g, c["uv"]), np.array((g["xlim"][0], g["ylim"][0])) + np.array(c["out"]) * d))
    uv[: len(c["uv"])] = (xy[: len(c["uv"])] - (g["xlim"][0], g["ylim"][0])) / d
    out = ((uv < 0) | (uv > (g["nx"], g["ny"]))).any(axis=1)
    # only positions outside by construction are outside
    out[: len(c["uv"])] = False
    if out.any():
        ctx.hit("outside")
        raises(ValueError, raster.sample, xy, msg="out of bounds")
        raises(ValueError, raster.sample, xy, order=0, msg="out of bounds")
    else:
        compare(raster.sample(xy), [linear(z, a, b) for a, b in uv], "in bounds")
    points = [tuple(p) for p in xy.tolist()] if case["list"] else xy
    got = raster.sample(points, bounds_error=False, fill_value=fill)
    want = [
        fill if (o and fill is not None) else linear(z, a, b)
        for (a, b), o in zip(uv, out)
    ]
    compare(got, want, f"fill_value={fill}", tol=1e-7)
    # A filled sample does not change later samples
    compare(
        raster.sample(xy[~out]),
        [linear(z, a, b) for a, b in uv[~out]],
        "sample after fill",
    )
    # Grid form: out-of-bounds rows and columns
    u = np.unique(uv[:, 0])
    v = np.unique(uv[:, 1])
    if fill is None or (np.diff(u) < 1e-6).any() or (np.diff(v) < 1e-6).any():
        return
    x = g["xlim"][0] + u * d[0]
    y = g["ylim"][0] + v * d[1]
    xin = (x >= min(g["xlim"])) & (x <= max(g["xlim"]))
    yin = (y >= min(g["ylim"])) & (y <= max(g["ylim"]))
    if not (xin.all() and yin.all()):
        raises(ValueError, raster.sample, (x, y), grid=True, msg="grid out of bounds")
    got = raster.sample((x, y), grid=True, bounds_error=False, fill_value=fill)
    check(got.shape == (len(y), len(x)), "grid sample shape", got=got.shape)
    want = [
        linear(z, a, b) if (i and j) else fill for b, i in zip(v, yin) for a, j in zip(u, xin)
    ]
    compare(got.ravel(), want, f"grid fill_value={fill}", tol=1e-7)


@st.composite
def plane_case(draw):
    g = draw(grids(min_n=6, max_n=9))
    return {
        "g": g,
        "abc": [draw(st.integers(-5, 5)) for _ in range(4)],
        "order": draw(st.integers(1, 5)),
        "u": sorted(draw(st.sets(st.integers(0, 48), min_size=1, max_size=6))),
        "v": sorted(draw(st.sets(st.integers(0, 48), min_size=1, max_size=6))),
    }


@R.sub(
    plane_case(),
    quick=500,
    thorough=10000,
    rule="bilinear surfaces, which every order (1 to 5) must reproduce everywhere "
    "in bounds; non-trivial when the surface is not constant",
)
def higher_orders(case, ctx):
    g = case["g"]
    a, b, c, e = case["abc"]
    u0 = np.arange(g["nx"]) + 0.5
    v0 = np.arange(g["ny"])[:, None] + 0.5

    def surface(u, v):
        return a + b * u + c * v + e * u * v / 4

    raster = Raster(surface(u0, v0), x=g["xlim"], y=g["ylim"])
    u = np.array(case["u"]) / 48 * g["nx"]
    v = np.array(case["v"]) / 48 * g["ny"]
    x = to_xy(g, np.column_stack((u, u * 0)))[:, 0]
    y = to_xy(g, np.column_stack((v * 0, v)))[:, 1]
    got = raster.sample((x, y), grid=True, order=case["order"])
    # RectBivariateSpline clamps nothing inside the limits of the raster
    close(got, surface(u, v[:, None]), 1e-6, 1e-6, f"order {case['order']}")
    if b or c or e:
        ctx.hit(f"order {case['order']}")


@st.composite
def resample_case(draw):
    g = draw(grids(min_n=2, max_n=6))
    z = draw(cells(g["nx"], g["ny"], quarters))
    # target: sub-box of the source in quarter cells
    t = {}
    for key, n in (("xlim", g["nx"]), ("ylim", g["ny"])):
        a = draw(st.integers(0, 4 * n - 1))
        b = draw(st.integers(a + 1, 4 * n))
        t[key] = (a, b) if draw(st.booleans()) else (b, a)
        t["n" + key] = draw(st.integers(1, 6))
    return {"g": g, "z": z, "t": t}


@R.sub(
    resample_case(),
    quick=1000,
    thorough=20000,
    rule="resampling onto another grid inside the raster; non-trivial always",
)
def resampling(case, ctx):
    g, t = case["g"], case["t"]
    raster, z = make(case)
    lims = {}
    for key, n in (("xlim", g["nx"]), ("ylim", g["ny"])):
        d = (g[key][1] - g[key][0]) / n
        lims[key] = [g[key][0] + q / 4 * d for q in t[key]]
    target = Grid((t["nxlim"], t["nylim"]), x=lims["xlim"], y=lims["ylim"])
    raster.sample(np.array([(raster.x[0], raster.y[0])]))  # fill caches
    raster.X, raster.Y
    raster.resample(target)
    ctx.hit("resampled")
    same(raster.xlim, lims["xlim"], "limits are the target's")
    same(raster.ylim, lims["ylim"], "limits are the target's")
    same(raster.shape, (t["nylim"], t["nxlim"]), "shape is the target's")
    u = (target.x - g["xlim"][0]) / ((g["xlim"][1] - g["xlim"][0]) / g["nx"])
    v = (target.y - g["ylim"][0]) / ((g["ylim"][1] - g["ylim"][0]) / g["ny"])
    compare(
        raster.array.ravel(),
        [linear(z, a, b) for b in v for a in u],
        "resampled values",
        tol=1e-7,
    )
    close(raster.X, np.tile(target.x, (t["nylim"], 1)), 0, 1e-9, "X after resampling")
    close(raster.Y, np.tile(target.y, (t["nxlim"], 1)).T, 0, 1e-9, "Y after resampling")
    xy = np.column_stack((raster.X.ravel(), raster.Y.ravel()))
    close(raster.sample(xy), raster.array.ravel(), 1e-9, 1e-7, "sample after resampling")
    # Moving the result does not move the target
    raster.shift(dx=1, dy=1)
    close(target.xlim, lims["xlim"], 0, 0, "target grid unchanged")
    close(target.x, centers(lims["xlim"], t["nxlim"]), 0, 1e-9, "target grid unchanged")

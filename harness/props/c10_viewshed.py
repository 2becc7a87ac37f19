"""C10 Viewsheds and horizons of elevation models.

The viewshed compares each ring of cells (by rounded distance from the origin)
with the nearer rings, so terrain whose slope to the origin is constant on each
ring has an exact answer; walls in a sector have an answer outside a margin of
about two cells; and random terrain is judged by symmetries and by what raising
one cell may change. Horizons are compared heading by heading with the highest
slope along the line of cells (from the separately checked line helper).
"""
import cams
import numpy as np
from core import Registry, check, close, same, st
from gens import dyadic_origin, dyadic_step, finite, sign

from glimpse import Raster, helpers

R = Registry("C10")


@st.composite
def place(draw, max_n=15, outside=False):
    nx, ny = draw(st.integers(2, max_n)), draw(st.integers(2, max_n))
    d = draw(dyadic_step)
    x0, y0 = draw(dyadic_origin), draw(dyadic_origin)
    # Origin in units of cells, not on a lattice
    lo, hi = (-0.5, 1.5) if outside else (0.02, 0.98)
    ou = draw(finite(lo, hi)) * nx
    ov = draw(finite(lo, hi)) * ny
    return {
        "nx": nx,
        "ny": ny,
        "d": d,
        "xlim": (x0, x0 + nx * d)[:: draw(sign)],
        "ylim": (y0, y0 + ny * d)[:: draw(sign)],
        "uv": (ou + 0.00137, ov - 0.00091),
        "oz": draw(st.sampled_from([0.0, 10.0, -3.5])),
        "seed": draw(st.integers(0, 10 ** 6)),
    }


def axes(c):
    x = c["xlim"][0] + (np.arange(c["nx"]) + 0.5) / c["nx"] * (c["xlim"][1] - c["xlim"][0])
    y = c["ylim"][0] + (np.arange(c["ny"]) + 0.5) / c["ny"] * (c["ylim"][1] - c["ylim"][0])
    return x, y


def origin(c):
    dx = (c["xlim"][1] - c["xlim"][0]) / c["nx"]
    dy = (c["ylim"][1] - c["ylim"][0]) / c["ny"]
    return (c["xlim"][0] + c["uv"][0] * dx, c["ylim"][0] + c["uv"][1] * dy, c["oz"])


def polar(c):
    """Distance (in map units and cells) and direction of each cell."""
    x, y = axes(c)
    o = origin(c)
    dx, dy = np.meshgrid(x - o[0], y - o[1])
    dist = np.hypot(dx, dy)
    return dist, dist / c["d"], np.arctan2(dy, dx)


def rings(cells):
    """Ring of each cell, or None if not certain."""
    k = cells + 0.5
    if (np.abs(k - np.round(k)) < 1e-6).any():
        return None
    return np.floor(k).astype(int)


@st.composite
def ring_case(draw):
    c = draw(place(outside=draw(st.booleans())))
    c["values"] = draw(st.permutations(range(-20, 40)))
    c["holes"] = draw(st.booleans())
    return c


@R.sub(
    ring_case(),
    quick=1500,
    thorough=30000,
    rule="terrain with one slope to the origin on each ring of cells, in any order of "
    "slopes, with missing cells; non-trivial when some rings are hidden",
)
def ring_terrain(c, ctx):
    dist, cells, _ = polar(c)
    ring = rings(cells)
    if ring is None or (dist == 0).any():
        ctx.label("uncertain")
        return
    slopes = np.array(c["values"] * 3)[: ring.max() + 1] + np.arange(ring.max() + 1) * 1e-3
    z = c["oz"] + slopes[ring] * dist
    order = np.unique(ring[ring > 0])
    want = np.zeros(z.shape, bool)
    top = -np.inf
    hidden = []
    for k in order:
        if slopes[k] > top:
            want[ring == k] = True
            top = slopes[k]
        else:
            hidden.append(k)
    if hidden and c["holes"]:
        # Missing cells where nothing depends on them
        holes = np.isin(ring, hidden) & (np.random.RandomState(c["seed"]).rand(*z.shape) < 0.3)
        z[holes] = np.nan
    if hidden:
        ctx.hit()
    r = Raster(z.copy(), x=c["xlim"], y=c["ylim"])
    vis = r.viewshed(origin(c))
    check(vis.shape == z.shape and vis.dtype == bool, "result", got=vis.shape)
    if len(order):
        other = ring > 0  # the cell of the origin is not specified
        same(vis[other], want[other], "visible cells")
    same(r.array, z, "elevations changed")


@st.composite
def wall_case(draw):
    c = draw(place(max_n=30))
    c["uv"] = (c["nx"] * draw(finite(0.3, 0.7)) + 0.0013, c["ny"] * draw(finite(0.3, 0.7)) - 0.0017)
    c["ring"] = draw(st.integers(2, 8))
    c["heading"] = draw(finite(-180, 180))
    c["half"] = draw(finite(10, 170))
    c["height"] = draw(finite(0.5, 5))
    return c


@R.sub(
    wall_case(),
    quick=800,
    thorough=15000,
    rule="a wall on flat ground in one sector around the viewer hides what is behind it "
    "and nothing else; non-trivial when the wall hides cells",
)
def wall(c, ctx):
    dist, cells, angle = polar(c)
    ring = rings(cells)
    if ring is None:
        return
    z = np.full(dist.shape, c["oz"] - 2.0)
    off = np.abs((np.degrees(angle) - c["heading"] + 180) % 360 - 180)
    z[(ring == c["ring"]) & (off < c["half"])] = c["oz"] + c["height"]
    r = Raster(z, x=c["xlim"], y=c["ylim"])
    vis = r.viewshed(origin(c))
    margin = np.degrees(2.5 / c["ring"])
    check(vis[(ring > 0) & (ring <= c["ring"])].all(), "ground before the wall")
    check(vis[(ring > 0) & (off > c["half"] + margin)].all(), "ground beside the wall")
    # (the ring of the wall must be whole in the sector for it to hide anything)
    full = min(c["uv"][0], c["uv"][1], c["nx"] - c["uv"][0], c["ny"] - c["uv"][1])
    if full < c["ring"] + 1.5:
        return
    behind = (ring > c["ring"]) & (off < c["half"] - margin)
    if behind.any():
        ctx.hit()
    check(not vis[behind].any(), "ground behind the wall is visible")


@st.composite
def bowl_case(draw):
    c = draw(place(outside=draw(st.sampled_from([False, False, True]))))
    c["missing"] = draw(st.sampled_from([0.1, 0.3, 0.6, 0.9]))
    c["near"] = draw(st.booleans())
    return c


@R.sub(
    bowl_case(),
    quick=1000,
    thorough=15000,
    rule="ground which rises ever more steeply away from the viewer hides nothing, "
    "whatever cells are missing; non-trivial when some but not all of the nearest "
    "cells are missing",
)
def bowl(c, ctx):
    dist, cells, _ = polar(c)
    ring = rings(cells)
    if ring is None or (dist == 0).any() or not (ring > 0).any():
        return
    rng = np.random.RandomState(c["seed"])
    slope = -3 + 0.25 * ring + rng.uniform(0, 0.1, ring.shape)
    z = c["oz"] + slope * dist
    gone = rng.rand(*z.shape) < c["missing"]
    if c["near"]:
        gone &= ring <= ring[ring > 0].min() + 1
    z[gone] = np.nan
    first = ring == ring[ring > 0].min()
    if gone[first].any() and not gone[first].all():
        ctx.hit()
    vis = Raster(z, x=c["xlim"], y=c["ylim"]).viewshed(origin(c))
    other = ring > 0
    same(vis[other], ~gone[other], "visible cells")


@st.composite
def random_case(draw):
    c = draw(place(outside=draw(st.sampled_from([False, False, True]))))
    c["shift"] = (draw(dyadic_origin), draw(dyadic_origin), draw(st.sampled_from([0.0, 4.0, -16.0])))
    c["raise"] = (draw(st.floats(0, 1)), draw(st.floats(0, 1)), draw(finite(0.01, 50)))
    c["rough"] = draw(finite(0.05, 3))
    c["correction"] = draw(
        st.sampled_from([True, {"radius": 50.0}, {"radius": 200.0, "refraction": 0.5}])
    )
    c["nan"] = draw(st.booleans())
    return c


@R.sub(
    random_case(),
    quick=700,
    thorough=12000,
    rule="random terrain: moving, mirroring, turning and scaling the scene, raising one "
    "cell, curvature as lowered terrain, integers and missing cells; non-trivial when "
    "some cells are hidden",
)
def symmetries(c, ctx):
    dist, cells, _ = polar(c)
    ring = rings(cells)
    if ring is None:
        return
    rng = np.random.RandomState(c["seed"])
    z = c["oz"] + rng.randn(c["ny"], c["nx"]) * c["rough"] * c["d"] - c["d"]
    if c["nan"]:
        z[rng.rand(*z.shape) < 0.1] = np.nan
    xl, yl = np.array(c["xlim"]), np.array(c["ylim"])
    o = np.array(origin(c))
    vis = Raster(z, x=xl, y=yl).viewshed(o)
    check(not vis[np.isnan(z)].any(), "missing cells are visible")
    first = ring == (ring[ring > 0].min() if (ring > 0).any() else 0)
    same(vis[first & ~np.isnan(z)], np.ones((first & ~np.isnan(z)).sum(), bool), "nearest ring")
    if not vis[~np.isnan(z)].all():
        ctx.hit()
    s = np.array(c["shift"])
    same(Raster(z + s[2], x=xl + s[0], y=yl + s[1]).viewshed(o + s), vis, "moved")
    same(Raster(z[:, ::-1], x=xl[::-1], y=yl).viewshed(o), vis[:, ::-1], "x reversed")
    same(Raster(z[::-1], x=xl, y=yl[::-1]).viewshed(o), vis[::-1], "y reversed")
    # (so large that any curvature would show)
    big = 2.0 ** 16
    same(Raster(z * big, x=xl * big, y=yl * big).viewshed(o * big), vis, "scaled")
    same(
        Raster(z, x=-xl, y=yl).viewshed(o * (-1, 1, 1)), vis, "mirrored east to west"
    )
    same(
        Raster(z.T, x=yl, y=xl).viewshed(o[[1, 0, 2]]), vis.T, "axes swapped"
    )
    same(
        Raster((z - o[2]) * 3 + o[2], x=xl, y=yl).viewshed(o), vis, "relief exaggerated"
    )
    # Curvature lowers terrain by the square of distance
    kw = c["correction"] if isinstance(c["correction"], dict) else {}
    drop = (kw.get("refraction", 0.13) - 1) * dist ** 2 / (2 * kw.get("radius", 6.3781e6))
    r = Raster(z.copy(), x=xl, y=yl)
    same(
        r.viewshed(o, correction=c["correction"]),
        Raster(z + drop, x=xl, y=yl).viewshed(o),
        "curvature",
    )
    # (of the Earth, which only shows at a large scale)
    for earth in (True, {}, {"refraction": 0.5}):
        kw = earth if isinstance(earth, dict) else {}
        drop = (kw.get("refraction", 0.13) - 1) * (dist * big) ** 2 / (2 * 6.3781e6)
        same(
            Raster(z * big, x=xl * big, y=yl * big).viewshed(o * big, correction=earth),
            Raster(z * big + drop, x=xl * big, y=yl * big).viewshed(o * big),
            "curvature of the Earth",
            correction=earth,
        )
    same(r.viewshed(o), vis, "second view of the same raster")
    same(r.array, z, "elevations changed")
    # Integers
    zi = np.round(np.nan_to_num(z * 8)).astype("int16")
    oi = (o[0], o[1], int(o[2] * 8) - 3)
    same(
        Raster(zi, x=xl, y=yl).viewshed(oi, correction=c["correction"]),
        Raster(zi.astype(float), x=xl, y=yl).viewshed(oi, correction=c["correction"]),
        "integer elevations",
    )
    # (unsigned, without and with origins below their range)
    zu = (zi.astype(int) - zi.min()).clip(0, 255)
    for dtype in ("uint8", "uint16"):
        for oz in (int(zu.mean()), 300, -3):
            ou = (o[0], o[1], oz)
            same(
                Raster(zu.astype(dtype), x=xl, y=yl).viewshed(ou, correction=c["correction"]),
                Raster(zu.astype(float), x=xl, y=yl).viewshed(ou, correction=c["correction"]),
                f"{dtype} elevations",
            )
    if c["nan"]:
        return
    i, j = int(c["raise"][0] * 0.999 * c["ny"]), int(c["raise"][1] * 0.999 * c["nx"])
    z2 = z.copy()
    z2[i, j] += c["raise"][2] * c["d"]
    vis2 = Raster(z2, x=xl, y=yl).viewshed(o)
    nearer = (ring <= ring[i, j]) & (ring > 0)
    nearer[i, j] = False
    same(vis2[nearer], vis[nearer], "raising a cell changed nearer cells")
    if ring[i, j] > 0:
        check(vis2[i, j] >= vis[i, j], "raised cell was hidden")
    farther = ring > ring[i, j]
    check((vis2[farther] <= vis[farther]).all(), "raising a cell revealed others")


# ---- Horizon ---------------------------------------------------------------- #


@st.composite
def horizon_case(draw):
    c = draw(place(max_n=20, outside=draw(st.sampled_from([False, False, False, True]))))
    c["headings"] = draw(
        st.one_of(
            st.just(("circle", 36)),
            st.just(("circle", 360)),
            st.tuples(
                st.just("list"),
                st.lists(st.one_of(st.sampled_from([0, 90, 180, 270, 360]), finite(-360, 720)), min_size=1, max_size=8),
            ),
        )
    )
    c["nan"] = draw(st.sampled_from([0, 0, 0.2, 0.8, 1]))
    c["correction"] = draw(st.sampled_from([False, None, True, {"radius": 50.0, "refraction": 0}]))
    c["shape"] = draw(st.sampled_from(["random", "crater", "flat"]))
    return c


def reference_horizon(c, z, headings):
    """Horizon point of each heading (or NaN), or None if not certain."""
    o = origin(c)
    x, y = axes(c)
    u0, v0 = c["uv"]
    nx, ny = c["nx"], c["ny"]
    su = np.sign(c["xlim"][1] - c["xlim"][0])
    sv = np.sign(c["ylim"][1] - c["ylim"][0])
    inside = 0 <= u0 <= nx and 0 <= v0 <= ny
    kw = None
    if c["correction"] is True:
        kw = {}
    elif isinstance(c["correction"], dict):
        kw = c["correction"]
    out = []
    for h in headings:
        a = np.radians(h)
        du, dv = np.sin(a) * su, np.cos(a) * sv
        # Slab method in units of cells
        t0, t1 = 0.0, np.inf
        miss = False
        for p, q, n in ((u0, du, nx), (v0, dv, ny)):
            if abs(q) < 1e-12:
                miss = miss or not 0 <= p <= n
                continue
            a0, a1 = sorted(((0 - p) / q, (n - p) / q))
            t0, t1 = max(t0, a0), min(t1, a1)
        if abs(t0 - t1) < 1e-6 and not inside:
            return None
        if miss or t0 > t1:
            out.append((np.nan,) * 3)
            continue
        ends = []
        for t in (t0, t1):
            p = np.array((u0 + t * du, v0 + t * dv))
            for m, n in zip(p, (nx, ny)):
                if abs(m - round(m)) < 1e-6 and 0.5 < m < n - 0.5:
                    return None
            ends.append(
                np.minimum(np.maximum(np.floor(p + 1e-7), 0), (nx - 1, ny - 1)).astype(int)
            )
        line = helpers.bresenham_line(ends[0], ends[1])
        if inside:
            line = line[1:]
        best, k = -np.inf, None
        slopes = []
        for n, (j, i) in enumerate(line):
            d2 = (x[j] - o[0]) ** 2 + (y[i] - o[1]) ** 2
            dz = z[i, j] - o[2]
            if kw is not None:
                dz += (kw.get("refraction", 0.13) - 1) * d2 / (2 * kw.get("radius", 6.3781e6))
            s = dz / np.sqrt(d2)
            slopes.append(s)
            if s > best:
                best, k = s, n
        valid = [n for n, s in enumerate(slopes) if not np.isnan(s)]
        near = [n for n in valid if n != k and abs(slopes[n] - best) < 1e-9]
        if near:
            return None
        if k is None or k == valid[-1]:
            out.append((np.nan,) * 3)
        else:
            j, i = line[k]
            out.append((x[j], y[i], z[i, j]))
    return np.array(out)


@R.sub(
    horizon_case(),
    quick=900,
    thorough=15000,
    rule="highest cells along each heading on random, crater and flat terrain with "
    "missing cells, from inside or outside; non-trivial with horizon points and gaps",
)
def horizon(c, ctx):
    dist, cells, _ = polar(c)
    rng = np.random.RandomState(c["seed"])
    z = rng.randn(c["ny"], c["nx"]) * c["d"]
    if c["shape"] == "crater":
        rim = 0.3 * min(c["nx"], c["ny"])
        z = z * 0.1 + np.where(np.abs(cells - rim) < 1, 3 * c["d"], -c["d"])
    elif c["shape"] == "flat":
        z = z * 0.001 - 2 * c["d"]
    z += c["oz"]
    if c["nan"]:
        z[rng.rand(*z.shape) < c["nan"]] = np.nan
    if c["headings"][0] == "circle":
        headings = np.linspace(0, 360, c["headings"][1], endpoint=False)
    else:
        headings = c["headings"][1]
    r = Raster(z.copy(), x=c["xlim"], y=c["ylim"])
    want = reference_horizon(c, z, headings)
    if c["headings"] == ("circle", 360):
        got = r.horizon(origin(c), correction=c["correction"])
        every = r.horizon(origin(c), headings=range(360), correction=c["correction"])
        check(
            [g.tolist() for g in got] == [g.tolist() for g in every], "every degree by default"
        )
    else:
        got = r.horizon(origin(c), headings=headings, correction=c["correction"])
    same(r.array, z, "elevations changed")
    check(all(len(g) and g.shape[1] == 3 for g in got), "segments", got=got)
    # Every point is a cell of the terrain
    for p in np.concatenate(got) if len(got) else []:
        j = int(np.argmin(np.abs(axes(c)[0] - p[0])))
        i = int(np.argmin(np.abs(axes(c)[1] - p[1])))
        close(p, (axes(c)[0][j], axes(c)[1][i], z[i, j]), 1e-9, 1e-9, "not a cell")
    # Elevations in integers
    zi = np.nan_to_num((z - c["oz"]) / c["d"] * 10 + 100).clip(0, 255).astype("uint8")
    oi = (*origin(c)[:2], 100 + int(c["oz"]) % 10)
    float_line = Raster(zi.astype(float), x=c["xlim"], y=c["ylim"]).horizon(
        oi, headings=headings, correction=c["correction"]
    )
    for dtype in ("uint8", "uint16", "int16"):
        int_line = Raster(zi.astype(dtype), x=c["xlim"], y=c["ylim"]).horizon(
            oi, headings=headings, correction=c["correction"]
        )
        check(
            [g.tolist() for g in int_line] == [g.tolist() for g in float_line],
            f"horizon of {dtype} elevations",
        )
    if want is None:
        ctx.label("uncertain")
        return
    points = np.concatenate(got) if len(got) else np.zeros((0, 3))
    seen = ~np.isnan(want[:, 0])
    check(len(points) == seen.sum(), "number of points", got=len(points), want=seen.sum())
    key = lambda a: a[np.lexsort(np.round(a.T, 6))]  # noqa: E731
    close(key(points), key(want[seen]), 1e-9, 1e-9, "horizon points")
    if seen.any():
        ctx.hit("gaps" if not seen.all() else "closed")
    if c["headings"][0] == "circle":
        # Unbroken segments, in order of heading
        n = len(headings)
        if seen.all():
            groups = [list(range(n))]
        else:
            start = int(np.flatnonzero(~seen)[0])
            groups, now = [], []
            for k in range(start, start + n):
                if seen[k % n]:
                    now.append(k % n)
                elif now:
                    groups.append(now)
                    now = []
            if now:
                groups.append(now)
        check(len(groups) == len(got), "segments", got=len(got), want=len(groups))
        rounded = lambda a: tuple(map(tuple, np.round(a, 6).tolist()))  # noqa: E731
        check(
            sorted(rounded(g) for g in got) == sorted(rounded(want[g]) for g in groups),
            "segments differ",
        )


# ---- Curvature -------------------------------------------------------------- #


@R.sub(
    st.tuples(
        st.lists(finite(0, 1e5), min_size=1, max_size=5),
        st.one_of(st.none(), finite(100, 1e7)),
        st.one_of(st.none(), finite(0, 0.9)),
    ),
    quick=300,
    thorough=5000,
    rule="elevation corrections of distances; all non-trivial",
)
def corrections(c, ctx):
    ctx.hit()
    kw = {}
    if c[1] is not None:
        kw["radius"] = c[1]
    if c[2] is not None:
        kw["refraction"] = c[2]
    d2 = np.array(c[0]) ** 2
    got = helpers.elevation_corrections(d2, **kw)
    close(got, [cams.curvature({"correction": kw}, v, 0.0) for v in c[0]], 1e-12, 1e-12, "corrections")

"""C24 Planar geometry: boxes, grids, lines and rays."""
import math

import numpy as np
from core import Registry, check, close, raises, same, st
from gens import finite, quarters

from glimpse import helpers

R = Registry("C24")

exact = st.integers(-40, 40).map(lambda i: i / 4)


@st.composite
def boxes(draw, ndim=None):
    ndim = ndim or draw(st.integers(2, 3))
    lo = [draw(exact) for _ in range(ndim)]
    size = [draw(st.integers(1, 40)) / 4 for _ in range(ndim)]
    return {"lo": lo, "hi": [a + b for a, b in zip(lo, size)]}


def flat(b):
    return [*b["lo"], *b["hi"]]


@st.composite
def many_boxes(draw):
    ndim = draw(st.integers(1, 3))
    return {
        "boxes": draw(st.lists(boxes(ndim), min_size=1, max_size=4)),
        "points": draw(st.lists(st.lists(exact, min_size=ndim, max_size=ndim), min_size=1, max_size=8)),
        "container": draw(st.sampled_from([list, tuple, np.array])),
    }


@R.sub(
    many_boxes(),
    quick=500,
    thorough=10000,
    rule="boxes and points in 1 to 3 dimensions; non-trivial if some points are in and some out",
)
def boxes_hold_points(c, ctx):
    bs, points = c["boxes"], np.array(c["points"])
    make = c["container"]
    ndim = points.shape[1]
    box = make(flat(bs[0]))
    same(helpers.unravel_box(box), np.array([bs[0]["lo"], bs[0]["hi"]]), msg="unravelled box")
    want = np.array(
        [all(a <= x <= b for a, x, b in zip(bs[0]["lo"], p, bs[0]["hi"])) for p in points]
    )
    got = helpers.in_box(points, box)
    same(np.asarray(got), want, msg="points in box")
    if want.any() and not want.all():
        ctx.hit("dims%d" % ndim)
    same(
        helpers.bounding_box(make(c["points"])),
        np.array([min(p[i] for p in c["points"]) for i in range(ndim)]
                 + [max(p[i] for p in c["points"]) for i in range(ndim)]),
        msg="bounding box",
    )
    check(helpers.in_box(points, helpers.bounding_box(points)).all(), "points are in their box")
    # Intersection
    lo = [max(b["lo"][i] for b in bs) for i in range(ndim)]
    hi = [min(b["hi"][i] for b in bs) for i in range(ndim)]
    args = [make(flat(b)) for b in bs]
    if all(a < b for a, b in zip(lo, hi)):
        both = helpers.intersect_boxes(args)
        same(both, np.array([*lo, *hi]), msg="intersection")
        inside = np.all([helpers.in_box(points, flat(b)) for b in bs], axis=0)
        same(helpers.in_box(points, both), inside, msg="points of the intersection")
    else:
        raises(ValueError, helpers.intersect_boxes, args, msg="boxes that do not intersect")
    if ndim == 2:
        p = helpers.box_to_polygon(box)
        check(p.shape == (5, 2) and (p[0] == p[-1]).all(), "closed polygon")
        check({tuple(x) for x in p[:4]} == {(x, y) for x in (bs[0]["lo"][0], bs[0]["hi"][0])
                                           for y in (bs[0]["lo"][1], bs[0]["hi"][1])}, "corners", got=p)
        steps = np.abs(np.diff(p, axis=0))
        check(((steps == 0).sum(axis=1) == 1).all(), "sides are parallel to the axes", got=p)


@st.composite
def grid_cases(draw):
    ndim = draw(st.integers(2, 3))
    step = [draw(st.integers(1, 20)) / 4 for _ in range(ndim)]
    return {
        "box": draw(boxes(ndim)),
        "step": step if draw(st.booleans()) else step[0],
        "snap": draw(st.one_of(st.none(), st.lists(exact, min_size=ndim, max_size=ndim))),
    }


@R.sub(
    grid_cases(),
    quick=500,
    thorough=10000,
    rule="boxes, steps and alignments of grids; non-trivial if aligned to a point",
)
def grids_fill_boxes(c, ctx):
    box, snap = c["box"], c["snap"]
    ndim = len(box["lo"])
    step = c["step"] if isinstance(c["step"], list) else [c["step"]] * ndim
    vectors = []
    for i in range(ndim):
        at = box["lo"][i] if snap is None else snap[i]
        first = math.ceil((box["lo"][i] - at) / step[i])
        last = math.floor((box["hi"][i] - at) / step[i])
        vectors.append([at + k * step[i] for k in range(first, last + 1)])
    if snap is not None:
        ctx.hit("dims%d" % ndim, "empty%s" % any(not v for v in vectors))
    args = (flat(box), c["step"])
    got = helpers.box_to_grid(*args, snap=snap, mode="vectors")
    check(len(got) == ndim, "one vector per dimension")
    for a, b in zip(got, vectors):
        check(len(a) == len(b), "number of grid points", got=a, want=b)
        close(a, np.array(b), atol=1e-9, msg="grid coordinates")
    grids = helpers.box_to_grid(*args, snap=snap)
    points = helpers.box_to_grid(*args, snap=snap, mode="points")
    if ndim == 2:
        check(grids[0].shape == grids[1].shape == (len(vectors[1]), len(vectors[0])), "shape of grids")
        for r, y in enumerate(vectors[1]):
            for q, x in enumerate(vectors[0]):
                close((grids[0][r, q], grids[1][r, q]), (x, y), atol=1e-9, msg="grids")
        want = [(x, y) for y in vectors[1] for x in vectors[0]]
        close(points, np.array(want).reshape(-1, 2), atol=1e-9, msg="points")
    else:
        check(len({tuple(p) for p in points.tolist()}) == np.prod([len(v) for v in vectors]), "points")
    if len(points):
        check(helpers.in_box(points, flat(box)).all(), "grid points are in the box")
    raises(ValueError, helpers.box_to_grid, *args, mode="other", msg="mode")


# ---- Rays and lines ---- #


@st.composite
def rays(draw):
    b = draw(boxes())
    ndim = len(b["lo"])

    def coordinate(i):
        return draw(st.one_of(exact, st.sampled_from([b["lo"][i], b["hi"][i], (b["lo"][i] + b["hi"][i]) / 2])))

    n = draw(st.integers(1, 5))
    directions = [
        [draw(st.one_of(st.integers(-3, 3).map(float), st.just(0.0), st.just(-0.0), finite(-3, 3).filter(lambda x: abs(x) > 1e-3))) for _ in range(ndim)]
        for _ in range(n)
    ]
    return {
        "box": b,
        "origin": [coordinate(i) for i in range(ndim)],
        "directions": [d if any(d) else [1.0] * ndim for d in directions],
    }


def slab(origin, direction, box):
    """Interval of a line in a box."""
    t0, t1 = -math.inf, math.inf
    for o, d, a, b in zip(origin, direction, box["lo"], box["hi"]):
        if d == 0:
            if not a <= o <= b:
                return None
        else:
            s, e = sorted(((a - o) / d, (b - o) / d))
            t0, t1 = max(t0, s), min(t1, e)
    return (t0, t1) if t0 <= t1 else None


@R.sub(
    rays(),
    quick=1500,
    thorough=40000,
    rule="rays from in, on and out of boxes; non-trivial if some hit and some miss, or run "
    "along an axis",
)
def rays_meet_boxes(c, ctx):
    box, origin, d = c["box"], c["origin"], np.array(c["directions"])
    first, last = helpers.intersect_rays_box(origin, d, flat(box), t=True)
    check(first.shape == last.shape == (len(d), 1), "shape")
    a, b = helpers.intersect_rays_box(origin, d, flat(box))
    hits = 0
    for i, direction in enumerate(c["directions"]):
        want = slab(origin, direction, box)
        # Rays that touch an edge may hit or miss by rounding
        if want is not None and want[0] > want[1] - 1e-9:
            continue
        t0, t1 = (math.nan, math.nan) if want is None else want
        if want is None:
            inner = {"lo": [x - 1e-9 for x in box["lo"]], "hi": [x + 1e-9 for x in box["hi"]]}
            if slab(origin, direction, inner) is not None:
                continue
        if t0 < 0:
            t0 = math.nan
        if t1 < 0:
            t1 = math.nan
        close(first[i, 0], t0, rtol=1e-9, atol=1e-12, msg="entrance")
        close(last[i, 0], t1, rtol=1e-9, atol=1e-12, msg="exit")
        for p, t in ((a[i], t0), (b[i], t1)):
            want_p = np.array(origin) + t * d[i]
            close(p, want_p, rtol=1e-9, atol=1e-9, msg="point of the ray")
        hits += t1 == t1
    if 0 < hits < len(d) or (d == 0).any():
        ctx.hit("dims%d" % len(origin))
    # Edge: within its length only
    edge = helpers.intersect_edge_box(origin, d[0], flat(box))
    want = slab(origin, c["directions"][0], box)
    options = [t for t in (want or ()) if 0 < t < 1]
    if want is None or want[0] < want[1] - 1e-9:
        near = any(abs(t - e) < 1e-9 for t in (want or ()) for e in (0, 1))
        if want is None:
            inner = {"lo": [x - 1e-9 for x in box["lo"]], "hi": [x + 1e-9 for x in box["hi"]]}
            near = slab(origin, c["directions"][0], inner) is not None
        if not near:
            check((edge is None) == (not options), "edge meets the box", got=edge, want=options)
            if options:
                close(edge, min(options), rtol=1e-9, msg="edge meets the box")


@st.composite
def polylines(draw):
    b = draw(boxes())
    ndim = len(b["lo"])
    n = draw(st.integers(1, 7))

    def coordinate(i):
        return draw(st.one_of(
            st.integers(-60, 60).map(lambda k: k / 4),
            st.sampled_from([b["lo"][i], b["hi"][i]]),
            st.integers(0, 8).map(lambda k: b["lo"][i] + (b["hi"][i] - b["lo"][i]) * k / 8),
        ))

    return {
        "box": b,
        "line": [[coordinate(i) for i in range(ndim)] for _ in range(n)],
        "measure": draw(st.booleans()),
        "gaps": [draw(st.integers(1, 9)) for _ in range(n)],
        "integers": draw(st.sampled_from([False, False, True])),
    }


@R.sub(
    polylines(),
    quick=1500,
    thorough=40000,
    rule="lines in and out of boxes; non-trivial if clipped",
)
def clips_lines_to_boxes(c, ctx):
    box, line = c["box"], [list(p) for p in c["line"]]
    if c["integers"]:
        line = [[float(round(x)) for x in p] for p in line]
    ndim = len(box["lo"])
    inside = [all(a <= x <= b for a, x, b in zip(box["lo"], p, box["hi"])) for p in line]
    if c["measure"]:
        m = np.cumsum(c["gaps"]).astype(float)
        line = [[*p, q] for p, q in zip(line, m)]
    # Each run of vertices in the box, up to where the line enters and leaves the box
    want, run = [], None
    for i, p in enumerate(line):
        if inside[i]:
            if run is None:
                run = []
                if i:
                    q = line[i - 1]
                    t = slab(q, np.subtract(p, q)[:ndim], box)
                    if t is not None and t[0] < 1 - 1e-12:
                        run.append(list(np.add(q, t[0] * np.subtract(p, q))))
            run.append(p)
        if run is not None and (not inside[i] or i == len(line) - 1):
            if not inside[i]:
                q = line[i - 1]
                t = slab(q, np.subtract(p, q)[:ndim], box)
                if t is not None and t[1] > 1e-12:
                    run.append(list(np.add(q, t[1] * np.subtract(p, q))))
            want.append(run)
            run = None
    given = np.array(line, dtype=int if c["integers"] else float)
    if c["integers"] and c["measure"]:
        ctx.label("integers")
    before = given.copy()
    kwargs = {"t": True} if c["measure"] else {}
    got = helpers.clip_polyline_box(given, flat(box), **kwargs)
    same(given, before, msg="line is not changed")
    check(len(got) == len(want), "number of segments", got=got, want=want)

    def merged(vertices):
        """Without repeats (a vertex on the boundary may be added again)."""
        kept = [np.asarray(vertices[0], float)]
        for v in np.asarray(vertices, float)[1:]:
            if not np.allclose(v[:ndim], kept[-1][:ndim], rtol=0, atol=1e-9):
                kept.append(v)
        return np.array(kept)

    for a, b in zip(got, want):
        a, b = merged(a), merged(b)
        check(len(a) == len(b), "vertices of the segment", got=a, want=b)
        close(np.asarray(a, float), np.array(b), rtol=1e-9, atol=1e-9, msg="segment")
        grown = [x - 1e-9 for x in box["lo"]] + [x + 1e-9 for x in box["hi"]]
        check(helpers.in_box(np.asarray(a)[:, :ndim], grown).all(), "segments are in the box", got=a)
    if sum(len(x) for x in want) != len(line):
        ctx.hit("segments%d" % len(want), "measure%s" % c["measure"])


@st.composite
def splits(draw):
    n = draw(st.integers(1, 12))
    return {
        "mask": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
        "axis": draw(st.sampled_from([0, 0, 1])),
        "width": draw(st.sampled_from([None, 1, 3])),
        "circular": draw(st.booleans()),
        "include": draw(st.sampled_from(["all", "true", "false"])),
    }


@R.sub(
    splits(),
    quick=600,
    thorough=10000,
    rule="masks of arrays; non-trivial if circular or of one kind of group",
)
def splits_by_mask(c, ctx):
    mask, n = c["mask"], len(c["mask"])
    groups = []
    for i, m in enumerate(mask):
        if groups and mask[groups[-1][-1]] == m:
            groups[-1].append(i)
        else:
            groups.append([i])
    if c["circular"] and len(groups) > 1 and mask[0] == mask[-1]:
        groups[0] = groups.pop() + groups[0]
    if c["include"] != "all":
        groups = [g for g in groups if mask[g[0]] == (c["include"] == "true")]
    if c["circular"] or c["include"] != "all":
        ctx.hit("circular%s" % c["circular"], c["include"])
    a = np.arange(n)
    axis = 0
    if c["width"]:
        a = a.reshape(-1, 1) + 100 * np.arange(c["width"])
        if c["axis"]:
            a, axis = a.T, 1
    got = helpers.boolean_split(a, np.array(mask), axis=axis, circular=c["circular"], include=c["include"])
    check(len(got) == len(groups), "number of groups", got=got, want=groups)
    for x, g in zip(got, groups):
        same(np.asarray(x), np.take(a, g, axis=axis), msg="group")


# ---- Grid paths ---- #


@R.sub(
    st.fixed_dictionaries(
        {
            "start": st.tuples(st.integers(-60, 60), st.integers(-60, 60)),
            "end": st.tuples(st.integers(-60, 60), st.integers(-60, 60)),
        }
    ),
    quick=1000,
    thorough=30000,
    rule="lines between grid cells; non-trivial if oblique",
)
def grid_lines_follow_the_line(c, ctx):
    (x0, y0), (x1, y1) = c["start"], c["end"]
    got = helpers.bresenham_line(c["start"], c["end"])
    dx, dy = x1 - x0, y1 - y0
    n = max(abs(dx), abs(dy))
    if dx and dy and abs(dx) != abs(dy):
        ctx.hit("steep%s" % (abs(dy) > abs(dx)))
    check(got.shape == (n + 1, 2), "number of cells", got=got.shape, want=n + 1)
    check(tuple(got[0]) == c["start"] and tuple(got[-1]) == c["end"], "ends")
    # One step of the longer axis at a time; nearest cell of the other axis
    for k, (x, y) in enumerate(got):
        if n:
            off = (abs(x - x0 - dx * k / n), abs(y - y0 - dy * k / n))
            check(max(off) <= 0.5 + 1e-9, "nearest cells", k=k, got=(x, y))
    same(helpers.bresenham_line(c["end"], c["start"])[::-1], got, msg="same cells in reverse")


@R.sub(
    st.fixed_dictionaries(
        {"center": st.tuples(st.integers(-9, 9), st.integers(-9, 9)), "radius": st.integers(1, 150)}
    ),
    quick=200,
    thorough=2000,
    rule="circles on a grid; non-trivial if not at the origin",
)
def grid_circles_follow_the_circle(c, ctx):
    if any(c["center"]):
        ctx.hit("small" if c["radius"] < 10 else "large")
    got = helpers.bresenham_circle(c["center"], c["radius"])
    check(np.isfinite(got).all() and (got == np.round(got)).all(), "grid cells", got=got)
    p = got - c["center"]
    r = c["radius"]
    check(np.abs(np.hypot(*p.T) - r).max() <= 1, "cells are near the circle")
    steps = np.abs(np.diff(p, axis=0)).max(axis=1)
    check((steps == 1).all(), "cells are connected", got=p)
    gap = np.abs(p[0] - p[-1]).max()
    check(gap <= 1, "circle is closed", got=(p[0], p[-1]))
    cells = {tuple(x) for x in p.tolist()}
    check({(0, r), (r, 0), (0, -r), (-r, 0)} <= cells, "extremes")
    for s in [(1, -1), (-1, 1), (-1, -1)]:
        check({(x * s[0], y * s[1]) for x, y in cells} == cells, "symmetry")
    check({(y, x) for x, y in cells} == cells, "symmetry")
    angle = np.unwrap(np.arctan2(p[:, 0], p[:, 1]))
    # Octants may overlap by a cell where they meet on the diagonals
    check((np.diff(angle) > -2 / r).all() and abs(angle[-1] - 2 * np.pi) < 2 / r + 0.2, "once around", got=angle[-1])


# ---- Interpolation ---- #


@st.composite
def interpolations(draw):
    n, d = draw(st.integers(2, 6)), draw(st.integers(1, 3))
    vertices = [[draw(exact) for _ in range(d)] for _ in range(n)]
    c = {"vertices": vertices, "x": None}
    if draw(st.booleans()):
        x = np.cumsum([draw(st.integers(1, 12)) / 4 for _ in range(n)]) + draw(exact)
        c["x"] = [float(v) for v in x][:: draw(st.sampled_from([1, -1]))]
    else:
        # Distance must increase
        for a, b in zip(vertices, vertices[1:]):
            if a == b:
                b[0] += 1
        for a, b in zip(vertices, vertices[1:]):
            if a == b:
                b[0] += 0.5
    c["kind"] = draw(st.sampled_from(["xi", "xi", "n", "dx"]))
    c["at"] = draw(st.lists(finite(-0.5, 1.5), min_size=1, max_size=6))
    c["n"] = draw(st.integers(1, 9))
    c["dx"] = draw(finite(0.2, 9))
    c["error"] = draw(st.booleans())
    c["fill"] = draw(st.sampled_from(["endpoints", "nan", "pair", "scalar"]))
    return c


@R.sub(
    interpolations(),
    quick=1000,
    thorough=20000,
    rule="lines and distances along them; non-trivial beyond their ends or for given distances",
)
def interpolates_along_lines(c, ctx):
    v = np.array(c["vertices"], dtype=float)
    if c["x"] is None:
        steps = np.sqrt((np.diff(v, axis=0) ** 2).sum(axis=1))
        if (steps == 0).any():
            return
        x = np.insert(np.cumsum(steps), 0, 0)
    else:
        x = np.array(c["x"])
    kwargs = {} if c["x"] is None else {"x": x if c["n"] % 2 else c["x"]}
    total = x[-1] - x[0]

    def at(d):
        """Point at a distance (from the definition)."""
        for i in range(len(x) - 1):
            lo, hi = sorted((x[i], x[i + 1]))
            if lo <= d <= hi:
                t = (d - x[i]) / (x[i + 1] - x[i])
                return v[i] + t * (v[i + 1] - v[i])
        return v[0] if abs(d - x[0]) < abs(d - x[-1]) else v[-1]

    if c["kind"] == "n":
        got = helpers.interpolate_line(v, n=c["n"], **kwargs)
        d = [x[0] + total * k / max(c["n"] - 1, 1) for k in range(c["n"])]
    elif c["kind"] == "dx":
        got = helpers.interpolate_line(v, dx=c["dx"], **kwargs)
        n = len(got)
        check(abs((n - 1) * c["dx"] - abs(total)) <= 0.5 * c["dx"] * (1 + 1e-9), "nominal distance", n=n)
        d = [x[0] + total * k / max(n - 1, 1) for k in range(n)]
    else:
        d = [x[0] + total * t for t in c["at"]]
        fill = {
            "endpoints": "endpoints", "nan": np.nan, "pair": (-100.0, -200.0), "scalar": 7.0,
        }[c["fill"]]
        outside = [not min(x[0], x[-1]) <= q <= max(x[0], x[-1]) for q in d]
        if any(outside) or c["x"] is not None:
            ctx.hit("error%s" % c["error"], c["fill"], "down%s" % bool(total < 0))
        if c["error"] and any(outside):
            raises(ValueError, helpers.interpolate_line, v, xi=d, fill=fill, **kwargs, msg="outside range")
            return
        got = helpers.interpolate_line(v, xi=d, error=c["error"], fill=fill, **kwargs)
        check(got.shape == (len(d), v.shape[1]), "shape")
        for p, q, out in zip(got, d, outside):
            if not out:
                close(p, at(q), rtol=1e-9, atol=1e-9, msg="point on the line")
            else:
                start = abs(q - x[0]) < abs(q - x[-1])
                want = {
                    "endpoints": v[0] if start else v[-1],
                    "nan": np.nan, "pair": -100.0 if start else -200.0, "scalar": 7.0,
                }[c["fill"]]
                close(p, np.broadcast_to(want, p.shape), rtol=1e-9, atol=1e-9, msg="point beyond the line")
        return
    check(got.shape == (len(d), v.shape[1]), "number of points", got=len(got), want=len(d))
    for p, q in zip(got, d):
        close(p, at(q), rtol=1e-7, atol=1e-7, msg="evenly spaced points")


@R.sub(
    st.fixed_dictionaries(
        {"old": st.lists(st.integers(1, 400), min_size=1, max_size=3), "scale": finite(0.02, 4),
         "other": st.lists(st.integers(1, 50), min_size=3, max_size=3), "exact": st.booleans()}
    ),
    quick=1500,
    thorough=40000,
    rule="grid sizes and scales; non-trivial if the scale is not the same ratio in all dimensions",
)
def scales_reach_their_size(c, ctx):
    old = c["old"]
    if c["exact"]:
        new = [int(np.round(c["scale"] * x)) for x in old]
        if min(new) < 1:
            return
    else:
        new = c["other"][: len(old)]
    got = helpers.get_scale_from_size(old, new)
    # Scales for which each dimension rounds to the new size
    lo = max((b - 0.5) / a for a, b in zip(old, new))
    hi = min((b + 0.5) / a for a, b in zip(old, new))
    if len({b / a for a, b in zip(old, new)}) > 1:
        ctx.hit("possible" if lo < hi else "impossible")
    if got is None:
        check(lo >= hi - 1e-9, "scale is found", lo=lo, hi=hi)
    else:
        check([int(np.round(got * x)) for x in old] == new, "scale reaches the size", got=got)


@R.sub(
    st.fixed_dictionaries(
        {
            "x": st.lists(st.lists(quarters, min_size=2, max_size=2), min_size=1, max_size=6),
            "y": st.lists(st.lists(quarters, min_size=2, max_size=2), min_size=1, max_size=6),
            "flat": st.booleans(),
            "metric": st.sampled_from(["euclidean", "sqeuclidean", "cityblock"]),
        }
    ),
    quick=200,
    thorough=3000,
    rule="pairs of points; always non-trivial",
)
def distances_of_all_pairs(c, ctx):
    ctx.hit(c["metric"], "flat%s" % c["flat"])
    x, y = c["x"], c["y"]
    if c["flat"]:
        x, y = [p[0] for p in x], [p[0] for p in y]
    got = helpers.pairwise_distance(x, y, metric=c["metric"])
    f = {
        "euclidean": lambda d: math.sqrt(sum(k * k for k in d)),
        "sqeuclidean": lambda d: sum(k * k for k in d),
        "cityblock": lambda d: sum(abs(k) for k in d),
    }[c["metric"]]
    want = [[f(np.atleast_1d(np.subtract(p, q))) for q in y] for p in x]
    close(got, np.array(want), rtol=1e-12, atol=1e-12, msg="distances")

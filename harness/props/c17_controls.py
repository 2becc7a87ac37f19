"""C17 Camera control: observed and predicted points, lines and matches."""
import numpy as np
from core import Registry, check, close, raises, same, st
import cams as ref
from gens import finite

import glimpse
from glimpse.optimize import (
    Lines,
    Matches,
    Points,
    RotationMatches,
    RotationMatchesXY,
    RotationMatchesXYZ,
)

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

R = Registry("C17")


@st.composite
def camera(draw, distorted=True):
    nx = draw(st.sampled_from([40, 100, 300]))
    f = nx * draw(finite(0.7, 2))
    k1 = draw(st.sampled_from([0.0, 0.0, 0.05, -0.05])) if distorted else 0.0
    return {
        "imgsz": (nx, draw(st.sampled_from([nx, nx * 3 // 4, nx // 2]))),
        "f": (f, f * draw(st.sampled_from([1.0, 1.0, 1.2]))),
        "c": (draw(st.sampled_from([0.0, 2.0, -1.5])), draw(st.sampled_from([0.0, 1.0]))),
        "k": (k1,) + (0.0,) * 5,
        "p": (0.0, draw(st.sampled_from([0.0, 0.002])) if distorted else 0.0),
        "xyz": draw(st.sampled_from([(0.0, 0.0, 0.0), (10.0, -20.0, 5.0), (500.5, 7000.0, 30.0)])),
        "viewdir": (draw(ref.angle), draw(finite(-60, 60)), draw(finite(-30, 30))),
    }


def look(rng, spec, n, depth, width=0.8):
    half = np.array(spec["imgsz"]) / 2 / np.array(spec["f"])
    x, y = (rng.uniform(-width, width, n) * h for h in half)
    return ref.world(spec, x, y, depth)


indices = st.sampled_from(["all", "slice", "list", "array", "one"])


def make_index(kind, n):
    return {
        "all": slice(None),
        "slice": slice(n // 2, None),
        "list": list(range(n))[::2],
        "array": np.arange(n)[::-1],
        "one": [n - 1],
    }[kind]


def check_quivers(result, names, uv, duv, index):
    chosen = np.arange(len(uv))[index]
    rest = np.delete(np.arange(len(uv)), chosen)
    for name, idx, shown in (("selected", chosen, names[0]), ("unselected", rest, names[1])):
        q = result[name]
        check((q is None) == (len(idx) == 0 or not shown), "quiver", name=name, got=q)
        if q is not None:
            close(q.XY, uv[idx], msg="arrow starts")
            close(np.column_stack((q.U, q.V)), duv[idx], msg="arrows")


# ---- Points ----------------------------------------------------------------- #


@R.sub(
    st.tuples(
        camera(), st.integers(0, 9999), st.integers(1, 8), st.booleans(), indices,
        st.sampled_from([0.5, 2.0, 1.0, "size"]),
    ),
    quick=300,
    thorough=6000,
    rule="projected point control; non-trivial with two or more points",
)
def points_follow_the_camera(case, ctx):
    spec, seed, n, directions, kind, scale = case
    rng = np.random.default_rng(seed)
    d = look(rng, spec, n, rng.uniform(2, 100, n), width=1.5)
    if n > 2:
        d[0] *= -1  # behind
    xyz = d if directions else d + np.array(spec["xyz"])
    uv = rng.uniform(0, 1, (n, 2)) * np.array(spec["imgsz"])
    cam = glimpse.Camera(**spec)
    as_list = seed % 2
    points = Points(
        cam, uv=uv.tolist() if as_list else uv.copy(), xyz=xyz.tolist() if as_list else xyz.copy(),
        directions=directions,
    )
    if n > 1:
        ctx.hit("directions" if directions else "positions", kind)
    index = make_index(kind, n)
    want, _ = ref.project(spec, xyz, directions=directions)
    check(points.size == n, "size")
    same(points.observed(), uv, msg="observed")
    same(points.observed(index), uv[index], msg="observed of index")
    close(points.predicted(), want, rtol=1e-7, atol=1e-6, msg="predicted")
    close(points.predicted(index), want[index], rtol=1e-7, atol=1e-6, msg="predicted of index")
    raises(ValueError, Points, cam, uv=uv, xyz=np.vstack((xyz, xyz)), msg="lengths")
    # The camera is followed, not copied
    cam.viewdir = np.array(spec["viewdir"]) + (1, 2, 3)
    moved = {**spec, "viewdir": tuple(cam.viewdir)}
    want, _ = ref.project(moved, xyz, directions=directions)
    close(points.predicted(), want, rtol=1e-7, atol=1e-6, msg="predicted after rotation")
    # Resizing scales image coordinates together with the camera
    size = scale
    if scale == "size":
        size = (spec["imgsz"][0] * 2, spec["imgsz"][1] * 2)
    points.resize(size)
    same(cam.imgsz, np.floor(np.array(spec["imgsz"]) * {"size": 2.0}.get(scale, scale) + 0.5).astype(int), msg="imgsz")
    ratio = cam.imgsz / np.array(spec["imgsz"])
    close(points.observed(), uv * ratio, msg="observed after resize")
    close(points.predicted(), want * ratio, rtol=1e-6, atol=1e-4, msg="predicted after resize")
    cam.resize(1)
    points.resize()
    close(points.observed(), uv, msg="observed after resizing back")
    # Ray directions are only valid from the original position
    cam.xyz = np.array(spec["xyz"]) + (0, 0, 1)
    if directions:
        raises(ValueError, points.predicted, msg="camera has moved")
        cam.xyz = spec["xyz"]
        close(points.predicted(), want, rtol=1e-6, atol=1e-5, msg="camera has moved back")
    else:
        moved["xyz"] = tuple(cam.xyz)
        close(points.predicted(), ref.project(moved, xyz)[0], rtol=1e-7, atol=1e-6, msg="predicted after move")


# ---- Lines ------------------------------------------------------------------ #


def segment_distance(p, a, b):
    """Distance from each point p (n, 2) to segment ab."""
    ab = b - a
    L = (ab ** 2).sum()
    t = np.zeros(len(p)) if L == 0 else np.clip(((p - a) @ ab) / L, 0, 1)
    return np.linalg.norm(p - (a + t[:, None] * ab), axis=1)


def clip_segment(a, b, lo, hi):
    """Part of segment ab inside of the box (Liang-Barsky), or None."""
    t0, t1 = 0.0, 1.0
    d = b - a
    for k in range(2):
        if d[k] == 0:
            if a[k] < lo[k] or a[k] > hi[k]:
                return None
            continue
        s, e = (lo[k] - a[k]) / d[k], (hi[k] - a[k]) / d[k]
        s, e = min(s, e), max(s, e)
        t0, t1 = max(t0, s), min(t1, e)
    if t0 > t1:
        return None
    return a + t0 * d, a + t1 * d


@R.sub(
    st.tuples(
        camera(distorted=False), st.integers(0, 9999), st.integers(1, 3), st.integers(2, 5),
        st.booleans(), indices, st.sampled_from([0.5, 1.0, 4.0]), st.sampled_from(["in", "wide", "behind"]),
    ),
    quick=300,
    thorough=6000,
    rule="world lines seen by undistorted cameras; non-trivial if part of a line is in view",
)
def lines_find_the_nearest_point(case, ctx):
    spec, seed, n_lines, n_vertices, directions, kind, density, where = case
    rng = np.random.default_rng(seed)
    width = 0.8 if where == "in" else 3
    worlds = []
    for _ in range(n_lines):
        d = look(rng, spec, n_vertices, rng.uniform(5, 50, n_vertices), width=width)
        if where == "behind" and n_vertices > 2:
            d[rng.integers(1, n_vertices)] *= -1
        worlds.append(d if directions else d + np.array(spec["xyz"]))
    size = np.array(spec["imgsz"], float)
    uvs = [rng.uniform(0, 1, (int(rng.integers(1, 4)), 2)) * size for _ in range(2)]
    uv = np.vstack(uvs)
    cam = glimpse.Camera(**spec)
    lists = seed % 2 == 1
    lines = Lines(
        cam,
        uvs=[u.tolist() for u in uvs] if lists else [u.copy() for u in uvs],
        xyzs=[w.tolist() for w in worlds] if lists else [w.copy() for w in worlds],
        directions=directions,
        density=density,
    )
    check(lines.size == len(uv), "size")
    same(lines.observed(), uv, msg="observed")
    index = make_index(kind, len(uv))
    same(lines.observed(index), uv[index], msg="observed of index")
    # Visible parts of the lines, in the image. As documented, segments between two
    # vertices out of view are not searched for parts in view.
    def inside(p):
        return (p >= 0).all() and (p <= size).all()

    parts, front = [], []
    for w in worlds:
        p, _ = ref.project(spec, w, directions=directions)
        front += [q for q in p if not np.isnan(q).any()]
        parts += [(q, q) for q in p if inside(q)]
        for a, b in zip(p[:-1], p[1:]):
            if inside(a) and not np.isnan(b).any() or inside(b) and not np.isnan(a).any():
                part = clip_segment(a, b, np.zeros(2), size)
                if part is not None:
                    parts.append(part)
    if not parts:
        if front:
            # Out of view, only the vertices in front are projected
            d2 = ((uv[:, None] - np.array(front)[None]) ** 2).sum(axis=2)
            close(lines.predicted(), np.array(front)[d2.argmin(axis=1)], rtol=1e-7, atol=1e-6, msg="nearest vertex")
            ctx.label("vertices")
        return
    ctx.hit(where, "directions" if directions else "positions", kind)
    got = lines.predicted()
    check(got.shape == uv.shape, "shape")
    step = 1 / density * max(1, min(spec["f"]) / max(spec["f"]))
    off = np.min([segment_distance(got, a, b) for a, b in parts], axis=0)
    check((off < 1e-6 * (1 + size.max())).all(), "predicted points lie on the visible lines", off=off)
    best = np.min([segment_distance(uv, a, b) for a, b in parts if True], axis=0)
    mine = np.linalg.norm(got - uv, axis=1)
    check((mine >= best - 1e-6).all(), "no nearer than the nearest point")
    # Nominal spacing: no more than 1.5 steps between points
    check(
        (mine <= best + 0.75 * step + 1e-6).all(),
        "nearest point at the density",
        mine=mine, best=best, step=step,
    )
    same(lines.predicted(index), got[index], msg="predicted of index")
    if directions:
        cam.xyz = np.array(spec["xyz"]) + (1, 0, 0)
        raises(ValueError, lines.predicted, msg="camera has moved")
        cam.xyz = spec["xyz"]
    fig = plt.figure()
    try:
        result = lines.plot(index=index)
        check_quivers(result, (True, True), uv, got - uv, index)
        check(len(result["observed"]) == len(uvs), "observed lines")
        for artist, u in zip(result["observed"], uvs):
            close(np.column_stack(artist.get_data()), u, msg="observed line")
        xy = np.vstack([np.column_stack(a.get_data()) for a in result["predicted"]])
        off = np.min([segment_distance(xy, a, b) for a, b in parts], axis=0)
        check((off < 1e-6 * (1 + size.max())).all(), "predicted lines")
    finally:
        plt.close(fig)
    if len(uv) % 2:
        lines.resize(2)
    else:
        # The camera first
        cam.resize(2)
        lines.resize()
    close(lines.observed(), uv * 2, msg="observed after resize")
    close(np.vstack(lines.uvs), uv * 2, msg="lines after resize")
    again = lines.predicted()
    off = np.min([segment_distance(again, 2 * a, 2 * b) for a, b in parts], axis=0)
    check((off < 1e-5 * (1 + size.max())).all(), "predicted after resize", off=off)
    cam.resize(1)
    lines.resize()
    close(lines.observed(), uv, msg="observed after resizing back")
    close(np.vstack(lines.uvs), uv, msg="lines after resizing back")


# ---- Matches ---------------------------------------------------------------- #


@st.composite
def pairs(draw, distorted=True):
    a = draw(camera(distorted))
    b = draw(camera(distorted))
    b["xyz"] = a["xyz"]
    turn = draw(st.sampled_from([0.0, 2.0, 5.0]))
    b["viewdir"] = tuple(v + turn * s for v, s in zip(a["viewdir"], (1, -0.5, 0.2)))
    return {
        "cams": (a, b),
        "n": draw(st.integers(1, 10)),
        "seed": draw(st.integers(0, 9999)),
        "noise": draw(st.sampled_from([0.0, 1.0, 5.0])),
        "weights": draw(st.booleans()),
    }


def pair_data(case):
    a, b = case["cams"]
    rng = np.random.default_rng(case["seed"])
    d = look(rng, a, case["n"], np.ones(case["n"]), width=0.6)
    d /= np.linalg.norm(d, axis=1, keepdims=True)
    uvs = [ref.project(s, d, directions=True)[0] for s in (a, b)]
    return rng, d, uvs


@R.sub(
    st.tuples(pairs(), indices, st.booleans()),
    quick=300,
    thorough=6000,
    rule="points seen by two cameras at one place; non-trivial if the cameras differ in direction",
)
def matches_predict_the_other_camera(case, ctx):
    spec, kind, by_object = case
    specs = spec["cams"]
    rng, d, uvs = pair_data(spec)
    if specs[0]["viewdir"] != specs[1]["viewdir"]:
        ctx.hit(kind)
    cams = [glimpse.Camera(**s) for s in specs]
    shift = rng.normal(0, 1, 2)
    # Observations of either camera are off by a constant
    observed = [uvs[0] + shift, uvs[1] - shift]
    exact = Matches(cams, uvs=uvs)
    off = Matches(cams, uvs=observed)
    index = make_index(kind, spec["n"])
    size = max(max(s["imgsz"]) for s in specs)
    tol = 2e-3 * size if any(s["k"][0] or s["p"][1] for s in specs) else 1e-6 * size
    seen = [None, None]
    for i in (0, 1):
        cam = cams[i] if by_object else i
        same(off.observed(cam), observed[i], msg="observed")
        same(off.observed(cam, index=index), observed[i][index], msg="observed of index")
        close(exact.predicted(cam), uvs[i], rtol=0, atol=tol, msg="predicted from exact match")
        got = off.predicted(cam)
        close(off.predicted(cam, index=index), got[index], msg="predicted of index")
        # Rays of the other camera's observations, by our own projection
        rays = cams[1 - i].uv_to_xyz(observed[1 - i])
        back, _ = ref.project(specs[1 - i], rays, directions=True)
        close(back, observed[1 - i], rtol=0, atol=tol, msg="rays")
        want, _ = ref.project(specs[i], rays, directions=True)
        close(got, want, rtol=1e-7, atol=1e-6, msg="predicted")
        seen[i] = got
    check(off.size == spec["n"], "size")
    raises(IndexError, off.observed, 2, msg="camera index")
    # The other types predict the same, in their own coordinates
    weights = rng.uniform(0, 1, spec["n"])
    base = Matches(cams, uvs=observed, weights=weights)
    types = {t: base.to_type(t) for t in (RotationMatches, RotationMatchesXY, RotationMatchesXYZ)}
    for t, m in types.items():
        check(type(m) is t and m.size == spec["n"], "type", t=t)
        same(m.weights, weights, msg="weights")
        check(m.to_type(t) is m, "same type")
        only = t(cams, xys=m.xys) if t is not RotationMatches else m
        for i in (0, 1):
            if t is RotationMatches:
                same(m.observed(i), observed[i], msg="observed")
                close(m.predicted(i), seen[i], msg="predicted")
                close(m.predicted(cams[i], index=index), seen[i][index], msg="predicted of index")
                continue
            for mm in (m, only):
                p = mm.predicted(i)
                if t is RotationMatchesXYZ:
                    rays = cams[i].uv_to_xyz(observed[i])
                    rays /= np.linalg.norm(rays, axis=1, keepdims=True)
                    close(p, rays, msg="rays")
                    close(mm.predicted(cams[i], index=index), rays[index], msg="rays of index")
                    raises((NotImplementedError, TypeError), mm.observed, msg="observed")
                else:
                    for xy, uv in ((p, seen[i]), (mm.observed(i), observed[i])):
                        X = ref.world(specs[i], xy[:, 0], xy[:, 1], np.ones(len(xy)))
                        back, _ = ref.project(specs[i], X, directions=True)
                        close(back, uv, rtol=0, atol=tol, msg="camera coordinates")
                    close(mm.predicted(i, index=index), p[index], msg="index")
    for t in (Matches, RotationMatches):
        back = types[RotationMatchesXY].to_type(t)
        for i in (0, 1):
            same(back.observed(i), observed[i], msg="observed after conversion")
    bare = RotationMatchesXY(cams, xys=types[RotationMatchesXY].xys).to_type(Matches)
    for i in (0, 1):
        close(bare.observed(i), observed[i], rtol=0, atol=tol, msg="image coordinates")
    # The camera orientations are followed
    cams[0].viewdir = np.array(specs[0]["viewdir"]) + (1, 1, 1)
    moved = {**specs[0], "viewdir": tuple(cams[0].viewdir)}
    rays = cams[1].uv_to_xyz(observed[1])
    want, _ = ref.project(moved, rays, directions=True)
    close(base.predicted(0), want, rtol=1e-7, atol=1e-6, msg="predicted after rotation")
    close(types[RotationMatches].predicted(0), want, rtol=1e-7, atol=1e-6, msg="predicted after rotation")
    # Internal parameters of rotation matches are fixed
    name = ["f", "c", "k", "p"][spec["seed"] % 4]
    i = spec["seed"] % 2
    before = getattr(cams[i], name).copy()
    value = before.copy()
    value[0] += 0.01
    setattr(cams[i], name, value)
    for m in types.values():
        raises(ValueError, m.predicted, msg="changed internal parameters")
    base.predicted(0)
    setattr(cams[i], name, before)
    for m in types.values():
        m.predicted(0)
    # Positions must stay equal
    cams[1].xyz = np.array(specs[1]["xyz"]) + (0, 1, 0)
    for m in (base, *types.values()):
        raises(ValueError, m.predicted, msg="different positions")
    raises(ValueError, Matches, cams, uvs=uvs, msg="different positions")
    cams[1].xyz = specs[1]["xyz"]
    raises(ValueError, Matches, (cams[0], cams[0]), uvs=uvs, msg="same camera")
    raises(ValueError, Matches, cams, uvs=(uvs[0], np.vstack((uvs[1], uvs[1]))), msg="lengths")
    raises(ValueError, Matches, cams, uvs=uvs + uvs[:1], msg="three sets of points")
    raises(ValueError, Matches, cams + [glimpse.Camera(**specs[0])], uvs=uvs, msg="three cameras")
    # Both image and camera coordinates
    shifted = [xy + 0.01 for xy in types[RotationMatches].xys]
    both = RotationMatches(cams, uvs=observed, xys=shifted)
    alone = RotationMatches(cams, xys=shifted)
    for i in (0, 1):
        same(both.observed(i), observed[i], msg="observed given")
        close(both.predicted(i), alone.predicted(i), msg="predicted from given camera coordinates")
    listed = RotationMatches(cams, uvs=observed, xys=[xy.tolist() for xy in shifted])
    for i in (0, 1):
        same(listed.predicted(i), both.predicted(i), msg="camera coordinates given as lists")
    for t in types:
        raises(ValueError, t, cams, msg="no coordinates")


@st.composite
def filters(draw):
    case = draw(pairs())
    case["weights"] = draw(st.sampled_from(["none", "distinct"]))
    f = {}
    if case["weights"] != "none":
        if draw(st.booleans()):
            f["n_best"] = draw(st.integers(0, 12))
        if draw(st.booleans()):
            f["min_weight"] = draw(st.sampled_from([0, 0.25, 0.5, 2.0]))
    if draw(st.booleans()):
        f["max_error"] = draw(st.sampled_from([0, 0.5, 2, 5, 100]))
    if draw(st.booleans()):
        f["max_distance"] = draw(st.sampled_from([0, 1, 10, 20, 50]))
    f["cam"] = draw(st.integers(0, 1))
    f["scaled"] = draw(st.booleans())
    case["filter"] = f
    return case


@R.sub(
    filters(),
    quick=500,
    thorough=10000,
    rule="filters of matches; non-trivial if some are dropped and some kept",
)
def filters_matches(case, ctx):
    rng, d, uvs = pair_data(case)
    n = case["n"]
    cams = [glimpse.Camera(**s) for s in case["cams"]]
    uvs[0] = uvs[0] + rng.normal(0, 1, (n, 2)) * case["noise"]
    uvs[1] = uvs[1] + rng.normal(0, 1, (n, 2)) * case["noise"]
    weights = None
    if case["weights"] == "distinct":
        weights = rng.permutation(n) / max(n - 1, 1)
    m = Matches(cams, uvs=uvs, weights=None if weights is None else weights.copy())
    f = dict(case["filter"])
    cam = f["cam"]
    other = 1 - cam
    width = case["cams"][cam]["imgsz"][0]
    keep = np.ones(n, bool)
    if "n_best" in f:
        keep[np.argsort(-weights, kind="stable")[f["n_best"]:]] = False
    if "min_weight" in f:
        keep &= weights >= f["min_weight"]
    gaps = []
    if "max_error" in f:
        limit = f["max_error"] = f["max_error"] / (width if f["scaled"] else 1)
        e = np.linalg.norm(m.predicted(cam) - uvs[cam], axis=1)
        limit = limit * width if f["scaled"] else limit
        gaps.append(np.abs(e - limit)[~np.isnan(e)])
        keep &= e <= limit
    if "max_distance" in f:
        f["max_distance"] = f["max_distance"] / (width if f["scaled"] else 1)
        limit = f["max_distance"] * (width if f["scaled"] else 1)
        scale = np.array(case["cams"][cam]["imgsz"]) / np.array(case["cams"][other]["imgsz"])
        e = np.linalg.norm(uvs[other] * scale - uvs[cam], axis=1)
        gaps.append(np.abs(e - limit))
        keep &= e <= limit
    if any((g < 1e-9).any() for g in gaps):
        ctx.label("tie")
        return
    if keep.any() and not keep.all():
        ctx.hit(*(k for k in f if k not in ("cam", "scaled")))
    if case["seed"] % 3 == 0:
        f["cam"] = cams[cam]
    rot = RotationMatches(cams, uvs=uvs, weights=None if weights is None else weights.copy())
    before = [u.copy() for u in uvs]
    predictions = [m.predicted(i) for i in (0, 1)]
    for matches in (m, rot):
        matches.filter(**f)
        check(matches.size == keep.sum(), "number of matches", got=matches.size, want=keep.sum(), filter=f)
        for i in (0, 1):
            same(matches.observed(i), before[i][keep], msg="kept points")
            close(matches.predicted(i), predictions[i][keep], rtol=1e-6, atol=1e-6, msg="predicted after filter")
        if weights is None:
            check(matches.weights is None, "no weights")
        else:
            same(matches.weights, weights[keep], msg="kept weights")
    if weights is not None:
        g = {k: v for k, v in f.items() if k in ("n_best", "min_weight")}
        keep = np.ones(n, bool)
        if "n_best" in g:
            keep[np.argsort(-weights, kind="stable")[g["n_best"]:]] = False
        if "min_weight" in g:
            keep &= weights >= g["min_weight"]
        full = RotationMatchesXY(cams, uvs=uvs)
        for kwargs in ({"uvs": uvs}, {"xys": full.xys}):
            for t in (RotationMatchesXY, RotationMatchesXYZ):
                mm = t(cams, weights=weights.copy(), **kwargs)
                want = [mm.predicted(i)[keep] for i in (0, 1)]
                mm.filter(**g)
                check(mm.size == keep.sum(), "number of matches")
                for i in (0, 1):
                    close(mm.predicted(i), want[i], msg="predicted after filter")
    else:
        raises(ValueError, m.filter, n_best=1, msg="no weights")
        raises(ValueError, m.filter, min_weight=0.1, msg="no weights")


@R.sub(
    st.tuples(
        st.integers(0, 9999), st.sampled_from([50, 70, 90, 110, 180]), st.integers(0, 1),
        st.sampled_from([1.0, 100.0, 3000.0, 1e9]), st.booleans(), st.booleans(),
    ),
    quick=150,
    thorough=3000,
    rule="cameras facing apart, so that some rays are behind the other camera; non-trivial "
    "if only some are",
)
def filters_rays_behind_the_camera(case, ctx):
    seed, angle, cam, limit, scaled, rotation = case
    rng = np.random.default_rng(seed)
    specs = [
        {"imgsz": (400, 300), "f": (300.0, 310.0), "xyz": (1.0, 2.0, 3.0), "viewdir": (v, 5.0, 2.0)}
        for v in (10.0, 10.0 + angle)
    ]
    cams = [glimpse.Camera(**s) for s in specs]
    uvs = [rng.uniform(0, 1, (9, 2)) * (400, 300) for _ in cams]
    matches = (RotationMatches if rotation else Matches)(cams, uvs=[u.copy() for u in uvs])
    errors = np.linalg.norm(matches.predicted(cam) - uvs[cam], axis=1)
    missing = np.isnan(errors)
    if missing.any() and not missing.all():
        ctx.hit("rotation" if rotation else "matches")
    if (np.abs(errors - limit)[~missing] < 1e-6).any():
        return
    keep = ~missing & (np.where(missing, np.inf, errors) <= limit)
    matches.filter(cam=cam, max_error=limit / (400 if scaled else 1), scaled=scaled)
    check(matches.size == keep.sum(), "number of matches", got=matches.size, want=keep.sum())
    for i in (0, 1):
        same(matches.observed(i), uvs[i][keep], msg="kept points", cam=i)


STEPS = [(3, 4, 5), (0, 5, 5), (5, 12, 13), (0, 0, 0), (6, 8, 10), (-4, 3, 5), (-13, 0, 13), (1, 0, 1), (8, -6, 10)]


@R.sub(
    st.tuples(
        st.lists(st.sampled_from(STEPS), min_size=1, max_size=8),
        st.sampled_from([0, 1, 5, 10, 13]), st.integers(0, 1), st.booleans(),
    ),
    quick=100,
    thorough=1000,
    rule="matches whose distances are whole numbers; non-trivial if one equals the limit",
)
def keeps_matches_at_the_limit(case, ctx):
    steps, limit, cam, scaled = case
    cams = [glimpse.Camera(imgsz=(128, 64), f=100.0, viewdir=(i, 0, 0)) for i in (0, 1)]
    a = np.array([(20.0 + i, 20.0) for i in range(len(steps))])
    b = a + np.array([s[:2] for s in steps])
    d = np.array([s[2] for s in steps])
    if (d == limit).any():
        ctx.hit(limit)
    m = Matches(cams, uvs=[a, b])
    m.filter(max_distance=limit / 128 if scaled else limit, scaled=scaled, cam=cam)
    same(m.observed(0), a[d <= limit], "kept points")
    same(m.observed(1), b[d <= limit], "kept points")


@R.sub(
    st.tuples(
        pairs(), st.sampled_from([0.5, 2.0, 1.0]), st.booleans(), st.booleans(), indices,
        st.sampled_from([(True, True), (True, False), (False, True)]),
    ),
    quick=120,
    thorough=2000,
    rule="resized and plotted matches; non-trivial if the size changes",
)
def resizes_and_plots_matches(case, ctx):
    spec, scale, first, by_object, kind, shown = case
    rng, d, uvs = pair_data(spec)
    uvs = [u + rng.normal(0, 1, u.shape) for u in uvs]
    specs = spec["cams"]
    cams = [glimpse.Camera(**s) for s in specs]
    m = Matches(cams, uvs=uvs)
    n = spec["n"]
    index = make_index(kind, n)
    tol = 1e-3 * max(max(s["imgsz"]) for s in specs)
    fig = plt.figure()
    try:
        for i in (0, 1):
            result = m.plot(
                cam=cams[i] if by_object else i, index=index,
                selected="red" if shown[0] else None,
                unselected={"color": "blue"} if shown[1] else None,
            )
            check_quivers(result, shown, uvs[i], m.predicted(i) - uvs[i], index)
    finally:
        plt.close(fig)
    before = [m.predicted(i) for i in (0, 1)]
    if scale != 1:
        ctx.hit("scale%s" % scale)
    if first:
        for c in cams:
            c.resize(scale)
        m.resize()
    else:
        m.resize(scale)
    for i in (0, 1):
        want = np.floor(np.array(specs[i]["imgsz"]) * scale + 0.5)
        same(cams[i].imgsz.astype(float), want, msg="image size")
        ratio = cams[i].imgsz / np.array(specs[i]["imgsz"])
        close(m.observed(i), uvs[i] * ratio, msg="observed after resize")
        if (want == np.array(specs[i]["imgsz"]) * scale).all():
            ctx.label("exact")
    # Predictions scale along if the cameras keep their aspect ratio
    if all((np.array(s["imgsz"]) * scale % 1 == 0).all() for s in specs):
        for i in (0, 1):
            close(m.predicted(i), before[i] * scale, rtol=0, atol=tol, msg="predicted after resize")
    m.resize(1)
    for i in (0, 1):
        close(m.observed(i), uvs[i], msg="observed after resizing back")

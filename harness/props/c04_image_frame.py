"""C04 Image frame, view bounds and images built from points and elevations."""
import cams
import numpy as np
from core import Registry, Violation, check, close, raises, same, st
from gens import cells, dyadic_step, finite, grids, quarters

from glimpse import Camera, Raster

R = Registry("C04")

edge_frac = st.one_of(
    st.sampled_from([0.0, 1.0, 0.5, -0.01, 1.01]),
    st.integers(-8, 72).map(lambda i: i / 64),
    st.just(float("nan")),
)


@R.sub(
    st.fixed_dictionaries(
        {
            "imgsz": st.tuples(st.integers(1, 12), st.integers(1, 12)),
            "uv": st.lists(st.tuples(edge_frac, edge_frac), min_size=1, max_size=12),
            "values": st.lists(
                st.tuples(quarters, quarters), min_size=12, max_size=12
            ),
            "depth": st.sampled_from([1, 1, 2, "column"]),
            "scale": st.booleans(),
        }
    ),
    quick=2000,
    thorough=30000,
    rule="points in, on, just outside the frame and missing, averaged into pixels; "
    "non-trivial with several points in one pixel or a point on the far edge",
)
def rasterize(case, ctx):
    nx, ny = case["imgsz"]
    cam = Camera(imgsz=(nx, ny), f=10)
    uv = np.array(case["uv"]) * (nx, ny)
    n = len(uv)
    inside = (
        (uv[:, 0] >= 0) & (uv[:, 0] <= nx) & (uv[:, 1] >= 0) & (uv[:, 1] <= ny)
    )
    same(cam.inframe(uv), inside, "inframe")
    v = np.array(case["values"])[:n]
    if case["depth"] == 1:
        v = v[:, 0]
    elif case["depth"] == "column":
        v = v[:, :1]
    groups = {}
    for (a, b), w, ok in zip(uv, v, inside):
        if ok:
            key = (min(int(b), ny - 1), min(int(a), nx - 1))
            groups.setdefault(key, []).append(np.atleast_1d(w))
            if a == nx or b == ny:
                ctx.hit("far edge")
    if any(len(g) > 1 for g in groups.values()):
        ctx.hit("shared pixel")
    want = np.full((ny, nx, np.atleast_2d(v.T).shape[0]), np.nan)
    for key, g in groups.items():
        want[key] = np.mean(g, axis=0)
    got = cam.rasterize(uv, v)
    if case["depth"] != 2:
        want = want[:, :, 0]
        got = got.reshape(want.shape) if got.size == want.size else got
    close(got, want, msg="image")


@R.sub(
    st.fixed_dictionaries(
        {
            "imgsz": st.tuples(st.integers(1, 16), st.integers(1, 16)),
            "step": st.one_of(
                st.sampled_from([0.25, 0.5, 1, 2, 3, 5]),
                st.tuples(*[st.sampled_from([0.5, 1, 1.5, 2, 4])] * 2),
            ),
            "snap": st.tuples(*[st.integers(-16, 80).map(lambda i: i / 4)] * 2),
        }
    ),
    quick=1000,
    thorough=10000,
    rule="grids of image coordinates of any spacing and alignment; non-trivial when "
    "spacing or alignment is not the default",
)
def grid(case, ctx):
    cam = Camera(imgsz=case["imgsz"], f=10)
    step = case["step"]
    steps = step if isinstance(step, tuple) else (step, step)
    if step != 1 or case["snap"] != (0.5, 0.5):
        ctx.hit()
    want = []
    for n, s, a in zip(case["imgsz"], steps, case["snap"]):
        k0, k1 = int(np.ceil((0 - a) / s)), int(np.floor((n - a) / s))
        want.append(np.array([a + k * s for k in range(k0, k1 + 1)]))
    if not all(len(w) for w in want):
        return
    u, v = cam.grid(step=step, snap=case["snap"], mode="vectors")
    close(u, want[0], msg="u")
    close(v, want[1], msg="v")
    U, V = cam.grid(step=step, snap=case["snap"], mode="grids")
    WU, WV = np.meshgrid(*want)
    close(U, WU, msg="U")
    close(V, WV, msg="V")
    pts = cam.grid(step=step, snap=case["snap"], mode="points")
    close(pts, np.column_stack((WU.ravel(), WV.ravel())), msg="points")
    check(cam.inframe(pts).all(), "grid point outside the frame")
    raises(ValueError, cam.grid, mode="other")


@R.sub(
    st.fixed_dictionaries(
        {
            "imgsz": st.tuples(st.integers(2, 16), st.integers(2, 16)),
            "step": st.one_of(
                st.sampled_from([0.25, 0.5, 1, 2, 1.0]),
                st.tuples(*[st.sampled_from([0.5, 1, 2])] * 2),
            ),
        }
    ),
    quick=400,
    thorough=4000,
    rule="frame outlines of any spacing; non-trivial when not square",
)
def edges(case, ctx):
    nx, ny = case["imgsz"]
    if nx != ny:
        ctx.hit()
    cam = Camera(imgsz=(nx, ny), f=10)
    e = cam.edges(step=case["step"])
    steps = case["step"] if isinstance(case["step"], tuple) else (case["step"],) * 2
    # On the frame, each point once, in clockwise order, corners included
    on = (e[:, 0] == 0) | (e[:, 0] == nx) | (e[:, 1] == 0) | (e[:, 1] == ny)
    check(on.all() and cam.inframe(e).all(), "point not on the outline")
    check(len(np.unique(e, axis=0)) == len(e), "repeated points")
    same(e[0], [0, 0], "start")
    for corner in ((0, 0), (nx, 0), (nx, ny), (0, ny)):
        check((e == corner).all(axis=1).any(), "corner missing", corner=corner)

    def along(p):
        """Distance along the outline, clockwise from the origin."""
        u, v = p
        if v == 0:
            return u
        if u == nx:
            return nx + v
        if v == ny:
            return nx + ny + (nx - u)
        return 2 * nx + ny + (ny - v)

    s = np.array([along(p) for p in e])
    check((np.diff(s) > 0).all(), "not clockwise", s=s)
    gaps = np.diff(np.append(s, 2 * (nx + ny)))
    check((gaps < max(steps) * 2).all(), "gap", gaps=gaps)
    if nx % steps[0] == 0 and ny % steps[1] == 0:
        count = 2 * (nx / steps[0] + ny / steps[1])
        check(len(e) == count, "number of points", got=len(e), want=count)


@R.sub(
    st.fixed_dictionaries(
        {
            "cam": cams.cameras(kind="none", max_n=300, correction=False),
            "depth": finite(1, 5000),
            "points": st.lists(
                st.tuples(finite(0, 1), finite(0, 1), finite(0, 1)), min_size=1, max_size=8
            ),
        }
    ),
    quick=800,
    thorough=10000,
    rule="view bounds contain every visible point up to their depth and are tight; "
    "non-trivial when rotated",
)
def view_bounds(case, ctx):
    spec = case["cam"]
    cam = Camera(**spec)
    if any(spec["viewdir"]):
        ctx.hit()
    depth = case["depth"]
    box = cam.viewbox(depth)
    size = 1 + np.abs(spec["xyz"]).max() + depth
    tol = 1e-9 * size
    p = np.array(case["points"])
    n = np.array(spec["imgsz"])
    xy = (p[:, :2] * n - n / 2 - np.array(spec["c"])) / np.array(spec["f"])
    xyz = cams.world(spec, xy[:, 0], xy[:, 1], p[:, 2] * depth) + np.array(spec["xyz"])
    check((xyz >= box[:3] - tol).all() and (xyz <= box[3:] + tol).all(), "point outside")
    corners = (np.array([(0, 0), (1, 0), (1, 1), (0, 1)]) * n - n / 2 - np.array(spec["c"])) / spec["f"]
    v = cams.world(spec, corners[:, 0], corners[:, 1], np.full(4, depth)) + np.array(spec["xyz"])
    v = np.vstack((v, spec["xyz"]))
    close(box, np.concatenate((v.min(axis=0), v.max(axis=0))), atol=tol, msg="box")
    poly = cam.viewpoly(depth)
    ends = (np.array([0, n[0]]) - n[0] / 2 - spec["c"][0]) / spec["f"][0]
    want = cams.world(spec, ends, np.zeros(2), np.full(2, depth)) + np.array(spec["xyz"])
    close(poly, np.vstack((spec["xyz"], want, spec["xyz"])), atol=tol, msg="polygon")


# ---- Elevations ------------------------------------------------------------- #


@st.composite
def dem_case(draw, one_tile=False):
    g = draw(grids(min_n=3, max_n=9))
    z = draw(
        cells(g["nx"], g["ny"], st.one_of(quarters, quarters, quarters, st.just(float("nan"))))
    )
    nb = draw(st.integers(0, 3))
    values = [draw(cells(g["nx"], g["ny"], quarters)) for _ in range(nb)]
    nx, ny = draw(st.integers(2, 10)), draw(st.integers(2, 10))
    width = abs(g["xlim"][1] - g["xlim"][0])
    height = draw(st.sampled_from([0.5, 1, 3])) * width + 60
    tilt = draw(st.sampled_from([-90.0, -80.0, -60.0, -45.0]))
    cx, cy = np.mean(g["xlim"]), np.mean(g["ylim"])
    spec = {
        "imgsz": (nx, ny),
        "f": draw(finite(0.4, 4)) * nx,
        "xyz": (
            cx + draw(finite(-0.3, 0.3)) * width,
            cy + draw(finite(-0.3, 0.3)) * width,
            height,
        ),
        "viewdir": (draw(st.sampled_from([0.0, 90.0, 30.0, -120.0])), tilt, 0.0),
        "c": (0.3, -0.2),
        "k": (draw(st.sampled_from([0.0, 0.01, -0.01])), 0, 0, 0, 0, 0),
        "p": (0.0, 0.0),
        "correction": draw(st.sampled_from([False, False, {"radius": 1e4}])),
    }
    mask = (
        draw(cells(g["nx"], g["ny"], st.booleans())) if draw(st.booleans()) else None
    )
    return {
        "g": g,
        "z": z,
        "values": values,
        "cam": spec,
        "mask": mask,
        "depth": draw(st.booleans()) or nb == 0,
        "tile": draw(st.sampled_from([(256, 256), (3, 3), (4, 2), (5, 5)])),
        "overlap": draw(st.sampled_from([(1, 1), (0, 0)])),
        "flat": draw(st.booleans()),
    }


def expected(case):
    """Values of all elevation cells which fall in each pixel."""
    g, spec = case["g"], case["cam"]
    spec = {**spec, "f": (spec["f"], spec["f"])}
    z = np.array(case["z"], float)
    nx, ny = spec["imgsz"]
    dx = (g["xlim"][1] - g["xlim"][0]) / g["nx"]
    dy = (g["ylim"][1] - g["ylim"][0]) / g["ny"]
    mask = np.array(case["mask"]) if case["mask"] is not None else np.ones(z.shape, bool)
    out = {}
    for i in range(g["ny"]):
        for j in range(g["nx"]):
            if not mask[i, j] or np.isnan(z[i, j]):
                continue
            p = (g["xlim"][0] + (j + 0.5) * dx, g["ylim"][0] + (i + 0.5) * dy, z[i, j])
            uv, depth = cams.project(spec, np.array([p]))
            u, v = uv[0]
            if not (-1e-6 <= u <= nx + 1e-6 and -1e-6 <= v <= ny + 1e-6):
                continue
            if min(abs(u - round(u)), abs(v - round(v))) < 1e-6:
                return None  # pixel of this cell is not certain
            layers = [np.array(b)[i, j] for b in case["values"]]
            if case["depth"]:
                layers.append(depth[0])
            out.setdefault((int(v), int(u)), []).append(layers)
    return out


@R.sub(
    dem_case(),
    quick=700,
    thorough=10000,
    rule="elevation models seen by tilted cameras, with masks, layers, depth maps and "
    "tiles; non-trivial when a pixel receives several cells",
)
def project_dem(case, ctx):
    want = expected(case)
    if want is None:
        ctx.label("uncertain")
        return
    g, spec = case["g"], case["cam"]
    dem = Raster(np.array(case["z"], float), x=g["xlim"], y=g["ylim"])
    before = dem.array.copy()
    values = np.dstack([np.array(b) for b in case["values"]]) if case["values"] else None
    if values is not None and values.shape[2] == 1 and case["flat"]:
        values = values[:, :, 0]
    mask = None if case["mask"] is None else np.array(case["mask"])
    cam = Camera(**spec)
    kw = dict(values=values, mask=mask, return_depth=case["depth"])
    one = cam.project_dem(dem, **kw)
    nb = len(case["values"]) + case["depth"]
    nx, ny = spec["imgsz"]
    full = np.full((ny, nx, nb), np.nan)
    for key, layers in want.items():
        full[key] = np.mean(layers, axis=0)
        if len(layers) > 1:
            ctx.hit("shared pixel")
    close(one, full, rtol=1e-7, atol=1e-7, msg="image")
    same(dem.array, before, "elevations changed")
    # In tiles: the same pixels are filled, from the cells which fall in them
    tiled = cam.project_dem(dem, tile_size=case["tile"], tile_overlap=case["overlap"], **kw)
    if case["overlap"] == (1, 1):
        same(cam.project_dem(dem, tile_size=case["tile"], **kw), tiled, "default overlap of 1")
    check(tiled.shape == full.shape, "shape", got=tiled.shape)
    same(np.isnan(tiled), np.isnan(full), "pixels filled with tiles")
    for key, layers in want.items():
        lo, hi = np.min(layers, axis=0), np.max(layers, axis=0)
        check(
            (tiled[key] >= lo - 1e-6).all() and (tiled[key] <= hi + 1e-6).all(),
            "value from other cells",
            got=tiled[key],
        )


@R.sub(
    st.fixed_dictionaries(
        {
            "size": st.tuples(st.integers(1, 6), st.integers(1, 6)),
            "d": st.sampled_from([1.0, 2.0, 4.0]),
            "rows": st.integers(1, 2),
            "flip": st.tuples(*[st.sampled_from([1, -1])] * 2),
            "z": st.lists(st.lists(st.integers(-8, 8), min_size=9, max_size=9), min_size=2, max_size=2),
            "step": st.sampled_from([1.0, 0.5]),
            "depth": st.booleans(),
            "tile": st.sampled_from([(256, 256), (3, 3)]),
        }
    ),
    quick=200,
    thorough=4000,
    rule="cells which project exactly to pixel corners and frame edges; non-trivial when "
    "one is on the right or bottom edge",
)
def project_dem_edges(case, ctx):
    nx, ny = case["size"]
    d, step, rows = case["d"], case["step"], case["rows"]
    fx, fy = case["flip"]
    # Columns at multiples of a step, rows at distance d (and 2 d)
    x = np.arange(-4, 5) * step
    z = np.array(case["z"][:rows]) / 2
    y = np.array([d, 2 * d])[:rows]
    values = np.arange(z.size, dtype=float).reshape(z.shape) ** 2
    cam = Camera(imgsz=(nx, ny), f=(2 * d, 2 * d), viewdir=(0, 0, 0))
    dem = Raster(
        z[::fy, ::fx].copy(),
        x=np.array((x[0] - step / 2, x[-1] + step / 2))[::fx],
        y=np.array((d / 2, d / 2 + rows * d))[::fy],
    )
    want = {}
    for i in range(rows):
        for j in range(9):
            u = nx / 2 + 2 * d * x[j] / y[i]
            v = ny / 2 - 2 * d * z[i, j] / y[i]
            if not (0 <= u <= nx and 0 <= v <= ny):
                continue
            if u == nx or v == ny:
                ctx.hit("right" if u == nx else "bottom")
            layers = [values[i, j]] + ([y[i]] if case["depth"] else [])
            want.setdefault((min(int(v), ny - 1), min(int(u), nx - 1)), []).append(layers)
    got = cam.project_dem(
        dem, values=values[::fy, ::fx].copy(), return_depth=case["depth"], tile_size=case["tile"],
        scale_limits=(1, 1),
    )
    full = np.full((ny, nx, 1 + case["depth"]), np.nan)
    for key, layers in want.items():
        full[key] = np.mean(layers, axis=0)
    same(np.isnan(got), np.isnan(full), "pixels filled")
    if case["tile"] == (256, 256):
        close(got, full, 1e-12, 1e-12, "values")


@st.composite
def parallel_case(draw):
    return {**draw(dem_case()), "parallel": draw(st.sampled_from([2, 2, True]))}


@R.sub(
    parallel_case(),
    quick=20,
    thorough=400,
    rule="the same tiles in two processes as in one; all non-trivial",
)
def project_dem_parallel(case, ctx):
    g, spec = case["g"], case["cam"]
    ctx.hit()
    dem = Raster(np.array(case["z"], float), x=g["xlim"], y=g["ylim"])
    values = np.dstack([np.array(b) for b in case["values"]]) if case["values"] else None
    cam = Camera(**spec)
    kw = dict(values=values, return_depth=case["depth"], tile_size=(256, 256))
    a = cam.project_dem(dem, **kw)
    b = cam.project_dem(dem, parallel=case["parallel"], **kw)
    same(a, b, "parallel differs")
    kw["tile_size"] = case["tile"]
    a = cam.project_dem(dem, **kw)
    b = cam.project_dem(dem, parallel=case["parallel"], **kw)
    same(np.isnan(a), np.isnan(b), "parallel fills other pixels")


@st.composite
def scaled_case(draw):
    case = draw(dem_case())
    # A plane, so that rescaled elevations stay on it
    a, b = draw(st.sampled_from([0.0, 0.1, -0.05])), draw(st.sampled_from([0.0, 0.1]))
    case["plane"] = (a, b)
    case["scale"] = draw(st.sampled_from([0.5, 1, 2, 4]))
    case["limits"] = draw(st.sampled_from([(1, 1), (0.5, 2), (1, 3), (0.34, 1)]))
    case["seed"] = draw(st.integers(0, 99))
    return case


@R.sub(
    scaled_case(),
    quick=300,
    thorough=4000,
    rule="tiles rescaled with distance; non-trivial when the scale may differ from 1",
)
def project_dem_scaled(case, ctx):
    g, spec = case["g"], case["cam"]
    xc, yc = np.mean(g["xlim"]), np.mean(g["ylim"])
    dx = (g["xlim"][1] - g["xlim"][0]) / g["nx"]
    dy = (g["ylim"][1] - g["ylim"][0]) / g["ny"]
    x = g["xlim"][0] + (np.arange(g["nx"]) + 0.5) * dx
    y = g["ylim"][0] + (np.arange(g["ny"]) + 0.5) * dy
    z = (x[None, :] - xc) * case["plane"][0] + (y[:, None] - yc) * case["plane"][1]
    dem = Raster(z, x=g["xlim"], y=g["ylim"])
    layers = [np.full(z.shape, 3.0), z.copy(), np.random.default_rng(case["seed"]).random(z.shape)]
    cam = Camera(**{**spec, "correction": False})
    if case["limits"] != (1, 1):
        ctx.hit()
    img = cam.project_dem(
        dem,
        values=np.dstack(layers) if case["values"] else None,
        return_depth=True,
        scale=case["scale"],
        scale_limits=case["limits"],
    )
    nx, ny = spec["imgsz"]
    check(img.shape == (ny, nx, 4 if case["values"] else 1), "shape", got=img.shape)
    filled = ~np.isnan(img[:, :, -1])
    if not filled.any():
        return
    if case["values"]:
        same(np.isnan(img[:, :, 0]), ~filled, "layers fill different pixels")
        close(img[:, :, 0][filled], np.full(filled.sum(), 3.0), msg="constant layer")
        a = img[:, :, 1][filled]
        check((a >= z.min() - 1e-9).all() and (a <= z.max() + 1e-9).all(), "elevations")
        # values are interpolated linearly, never beyond those of the layer
        a, b = img[:, :, 2][filled], layers[2]
        check((a >= b.min() - 1e-9).all() and (a <= b.max() + 1e-9).all(), "layer overshoots")
    # Rescaled to the stated cells per pixel at the mean distance, within the limits
    mean = np.array([[xc, yc, z.mean()]])
    _, depth = cams.project({**spec, "f": (spec["f"],) * 2, "correction": False}, mean)
    t = case["scale"] * (abs(dx) + abs(dy)) / 2 * spec["f"] / depth[0]
    if abs(t - 1) > 1e-9 and case["limits"] != (1, 1):
        t = min(max(t, case["limits"][0]), case["limits"][1])
        n = np.array([g["nx"], g["ny"]]) * t
        if t != 1 and (np.abs(n % 1 - 0.5) > 1e-6).all() and (n >= 1.5).all():
            ctx.hit("rescaled")
            other = Raster(z.copy(), x=g["xlim"], y=g["ylim"])
            other.resize(t)
            want = cam.project_dem(other, values=None, return_depth=True)
            same(np.isnan(img[:, :, -1]), np.isnan(want[:, :, 0]), "pixels filled at scale")
            close(img[:, :, -1], want[:, :, 0], rtol=1e-9, atol=1e-9, msg="depths at scale")
    # Depths lie between those of the corners of the plane
    X, Y = np.meshgrid(np.array(g["xlim"]), np.array(g["ylim"]))
    Z = (X - xc) * case["plane"][0] + (Y - yc) * case["plane"][1]
    pts = np.column_stack((X.ravel(), Y.ravel(), Z.ravel()))
    _, depth = cams.project(
        {**spec, "f": (spec["f"],) * 2, "correction": False}, pts
    )
    d = img[:, :, -1][filled]
    # rescaling moves cells by up to half a cell
    slack = 2 * max(abs(dx), abs(dy))
    check(
        (d >= depth.min() - slack).all() and (d <= depth.max() + slack).all(), "depths"
    )


@R.sub(
    st.integers(0, 3),
    quick=8,
    thorough=8,
    rule="mismatched values and masks are refused; all non-trivial",
)
def bad_layers(case, ctx):
    ctx.hit()
    dem = Raster(np.zeros((4, 5)), x=(0, 5), y=(4, 0))
    cam = Camera(imgsz=4, f=4, xyz=(2, 2, 10), viewdir=(0, -90, 0))
    args = [
        {},
        {"values": np.zeros((5, 4))},
        {"values": np.zeros((4, 5)), "mask": np.ones((5, 4), bool)},
        {"mask": np.ones((4, 4), bool), "return_depth": True},
    ][case]
    raises(ValueError, cam.project_dem, dem, msg="accepted", **args)

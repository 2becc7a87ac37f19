"""C29 Plots and shaded surfaces show the data where it lies."""
import datetime
import os

import cv2
import matplotlib
import numpy as np
from core import Registry, check, close, raises, same, st
from gens import centers, finite, grids, maybe_nan

from glimpse import Camera, Image, Raster
from glimpse.convert import Converter
from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler
from glimpse.optimize import (
    Cameras,
    Lines,
    Matches,
    Points,
    Polynomial,
    RotationMatches,
    RotationMatchesXY,
    RotationMatchesXYZ,
)
from glimpse.raster import Grid

matplotlib.use("agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.colors import same_color, to_rgba  # noqa: E402

R = Registry("C29")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")


class At:
    """Position on the screen of a point in the plot."""

    def __init__(self, ax, x, y):
        self.x, self.y = ax.transData.transform((x, y))


def check_drawn(im, x, y, values, msg):
    """Each value is drawn at its coordinates, with the first row on top."""
    ax = im.axes
    for i in range(len(y)):
        for j in range(len(x)):
            got = im.get_cursor_data(At(ax, x[j], y[i]))
            want = values[i, j]
            check(got is not None, msg + ": nothing drawn", x=x[j], y=y[i])
            if np.ndim(want) == 0 and np.isnan(want):
                check(np.ma.is_masked(got) or np.isnan(got), msg + ": missing value drawn", got=got)
            else:
                same(np.asarray(got), np.asarray(want), msg + ": value drawn")


def check_way(ax, x, y, msg):
    """Columns are drawn from left to right and rows from top to bottom."""
    sx = ax.transData.transform(np.column_stack((x, np.full(len(x), y[0]))))[:, 0]
    sy = ax.transData.transform(np.column_stack((np.full(len(y), x[0]), y)))[:, 1]
    check((np.diff(sx) > 0).all(), msg + ": columns from left to right", got=sx)
    check((np.diff(sy) < 0).all(), msg + ": rows from top to bottom", got=sy)


# ---- Rasters ---------------------------------------------------------------- #


@st.composite
def rasters(draw, min_n=1):
    g = draw(grids(min_n=min_n, max_n=6))
    nx, ny = g["nx"], g["ny"]
    g["bands"] = draw(st.sampled_from([0, 0, 0, 3]))
    g["values"] = draw(st.lists(maybe_nan, min_size=nx * ny, max_size=nx * ny))
    return g


def values_of(g):
    a = np.array(g["values"], dtype=float).reshape(g["ny"], g["nx"])
    if g["bands"]:
        a = np.nan_to_num(a)
        return np.dstack([(a * 4) % 256, a % 7, -a % 11]).astype(np.uint8)
    return a


@R.sub(
    st.tuples(
        rasters(), st.booleans(), st.booleans(),
        st.sampled_from([{}, {"cmap": "gray"}, {"alpha": 0.5}, {"vmin": -1.0, "vmax": 2.0}]),
        st.booleans(),
    ),
    quick=250,
    thorough=5000,
    rule="plots of rasters of any orientation; non-trivial with several rows and columns",
)
def draws_rasters(case, ctx):
    g, other, first, kwargs, as_array = case
    nx, ny = g["nx"], g["ny"]
    array = values_of(g)
    raster = Raster(array.copy(), x=g["xlim"], y=g["ylim"])
    x, y = centers(g["xlim"], nx), centers(g["ylim"], ny)
    if nx > 1 and ny > 1:
        ctx.hit(
            "x" + "-+"[g["xlim"][1] > g["xlim"][0]] + " y" + "-+"[g["ylim"][1] > g["ylim"][0]]
        )
    shown = array
    fig, ax = plt.subplots()
    try:
        if other:
            # Other values are drawn in place of those of the raster
            shown = np.arange(nx * ny, dtype=float).reshape(ny, nx)
            im = raster.plot(shown if as_array else shown.copy(), **kwargs)
        else:
            im = raster.plot(**kwargs)
        check(im.axes is ax, "plots in the current axes")
        check_drawn(im, x, y, shown, "raster")
        check_way(ax, x, y, "raster")
        same(raster.array, array, "plotting changed the raster")
        if "cmap" in kwargs:
            check(im.get_cmap().name == "gray", "cmap passed on")
        if "vmin" in kwargs:
            check(tuple(im.get_clim()) == (-1, 2), "limits passed on", got=im.get_clim())
        # Limits of the grid
        ax.set_xlim(-7, 3)
        ax.set_ylim(-5, 11)
        grid = raster if first else Grid((nx, ny), x=g["xlim"], y=g["ylim"])
        grid.set_plot_limits()
        close(sorted(ax.get_xlim()), sorted(g["xlim"]), 0, 1e-9, "limits in x")
        close(sorted(ax.get_ylim()), sorted(g["ylim"]), 0, 1e-9, "limits in y")
        check_way(ax, x, y, "limits")
        check_drawn(im, x, y, shown, "raster with limits")
    finally:
        plt.close("all")


# ---- Hillshade -------------------------------------------------------------- #


@st.composite
def surfaces(draw):
    g = draw(grids(min_n=2, max_n=7))
    g["values"] = draw(
        st.lists(finite(-20, 20), min_size=g["nx"] * g["ny"], max_size=g["nx"] * g["ny"])
    )
    g["plane"] = (draw(finite(-2, 2)), draw(finite(-2, 2)))
    g["rough"] = draw(st.sampled_from([0.0, 0.05, 1.0]))
    g["bowl"] = draw(st.sampled_from([0.0, 0.3, -0.3]))
    return g


@R.sub(
    st.tuples(
        surfaces(),
        st.one_of(st.none(), st.sampled_from([0, 45, 90, 135, 180, 225, 270, 315]), finite(0, 360)),
        st.one_of(st.none(), finite(1, 89)),
        st.sampled_from([{}, {}, {"vert_exag": 3}, {"fraction": 0.5}]),
    ),
    quick=500,
    thorough=10000,
    rule="surfaces of any orientation lit from any direction; non-trivial if the slopes "
    "are lit differently",
)
def lights_surfaces(case, ctx):
    g, azimuth, altitude, kwargs = case
    nx, ny = g["nx"], g["ny"]
    x, y = centers(g["xlim"], nx), centers(g["ylim"], ny)
    X, Y = np.meshgrid(x - x.mean(), y - y.mean())
    step = max(abs(x[1] - x[0]), abs(y[1] - y[0]))
    z = g["plane"][0] * X + g["plane"][1] * Y + g["bowl"] * (X**2 + Y**2) / step / max(nx, ny)
    z = z + g["rough"] * np.array(g["values"]).reshape(ny, nx)
    raster = Raster(z.copy(), x=g["xlim"], y=g["ylim"])
    args = {}
    if azimuth is not None:
        args["azimuth"] = azimuth
    if altitude is not None:
        args["altitude"] = altitude
    got = raster.hillshade(**args, **kwargs)
    same(raster.array, z, "hillshade changed the raster")
    check(got.shape == (ny, nx), "shape", got=got.shape)
    check(((got >= 0) & (got <= 1)).all(), "intensity from 0 to 1", got=got)
    # Cosine of the angle between light and surface
    az = np.deg2rad(315 if azimuth is None else azimuth)
    alt = np.deg2rad(45 if altitude is None else altitude)
    light = np.array((np.sin(az) * np.cos(alt), np.cos(az) * np.cos(alt), np.sin(alt)))
    v = z * kwargs.get("vert_exag", 1)
    normal = np.dstack((-np.gradient(v, x, axis=1), -np.gradient(v, y, axis=0), np.ones(z.shape)))
    normal /= np.linalg.norm(normal, axis=2, keepdims=True)
    want = normal @ light
    if np.ptp(want) < 1e-5:
        return
    ctx.hit(
        "x" + "-+"[x[1] > x[0]] + " y" + "-+"[y[1] > y[0]], "default" if azimuth is None else "azimuth"
    )
    # What faces the light more is never darker
    order = np.argsort(want, axis=None)
    w, s = want.ravel()[order], got.ravel()[order]
    check((np.maximum.accumulate(s) - s <= 1e-6).all(), "brighter where it faces the light less", got=got, want=want)
    if "fraction" not in kwargs:
        check(s[-1] - s[0] > 0.5, "no contrast", got=got)
        close(s, (w - w[0]) / (w[-1] - w[0]), 1e-6, 1e-6, "intensity follows the cosine")


# ---- Images ----------------------------------------------------------------- #


@R.sub(
    st.tuples(
        st.tuples(st.integers(1, 9), st.integers(1, 9)),
        st.sampled_from([None, (1, 1), (5, 4), (12, 7)]),
        st.sampled_from([1, 3]),
        st.sampled_from([{}, {}, {"alpha": 0.5}, {"extent": (2, 6, 9, 1)}, {"origin": "lower"}]),
        st.booleans(),
    ),
    quick=200,
    thorough=3000,
    rule="plots of images at any size; non-trivial with several rows and columns",
)
def draws_images(case, ctx):
    (nx, ny), size, bands, kwargs, reset = case
    rng = np.random.default_rng(nx * 100 + ny)
    array = rng.integers(0, 256, (ny, nx) if bands == 1 else (ny, nx, 3)).astype(np.uint8)
    path = os.path.join(TMP, "plot.png")
    cv2.imwrite(path, array if bands == 1 else np.ascontiguousarray(array[:, :, ::-1]))
    img = Image(
        path, cam={"imgsz": size or (nx, ny), "f": (10, 10)}, datetime=datetime.datetime(2020, 1, 1)
    )
    if reset:
        img.read()
    nx, ny = size or (nx, ny)
    if nx > 1 and ny > 1:
        ctx.hit("resized" if size else "same size", "gray" if bands == 1 else "color")
    fig, ax = plt.subplots()
    try:
        im = img.plot(**kwargs)
        values = img.read()
        check(values.shape[:2] == (ny, nx), "shape")
        u, v = np.arange(nx) + 0.5, np.arange(ny) + 0.5
        if "extent" in kwargs:
            check(tuple(im.get_extent()) == (2, 6, 9, 1), "extent passed on")
            u, v = 2 + 4 * u / nx, 1 + 8 * v / ny
        if "origin" in kwargs:
            # The first row is where the extent ends
            values = values[::-1]
        check_drawn(im, u, v, values, "image")
        if not kwargs:
            check_way(ax, u, v, "image")
        ax.set_xlim(4, 2)
        ax.set_ylim(0, 1)
        img.set_plot_limits() if reset else img.cam.set_plot_limits()
        same(np.array(ax.get_xlim()), np.array([0.0, nx]), "limits in x")
        same(np.array(ax.get_ylim()), np.array([float(ny), 0.0]), "limits in y")
    finally:
        plt.close("all")


# ---- Controls --------------------------------------------------------------- #


def arrow_width(q):
    return q.width


line_styles = st.sampled_from(["default", "default", None, "red", {"color": "blue", "linewidth": 4.0}])


@st.composite
def controls(draw):
    n = draw(st.integers(1, 6))
    imgsz = (draw(st.integers(40, 400)), draw(st.integers(40, 400)))
    return {
        "kind": draw(st.sampled_from(["points", "lines", "matches", "rotation"])),
        "imgsz": imgsz,
        "n": n,
        "seed": draw(st.integers(0, 9999)),
        "index": draw(st.sampled_from(["all", "one", "rest", "none"])),
        "selected": draw(
            st.sampled_from([None, "default", "blue", {"color": "cyan"}, {"color": "cyan", "width": 3.0}])
        ),
        "unselected": draw(
            st.sampled_from([None, "default", "black", {"color": "magenta"}, {"scale": 4.0, "color": "red"}])
        ),
        "kwargs": draw(st.sampled_from([{}, {}, {"width": 2.5}, {"scale": 2.0}, {"alpha": 0.5}])),
        "open": draw(st.booleans()),
        "camera": draw(st.integers(0, 1)),
        "as_object": draw(st.booleans()),
        "model": draw(st.booleans()),
        "observed": draw(line_styles),
        "predicted": draw(line_styles),
    }


def build_control(c):
    rng = np.random.default_rng(c["seed"])
    n, size = c["n"], np.array(c["imgsz"])
    cam = Camera(imgsz=size, f=float(size.max()))
    uv = rng.uniform(0.1, 0.9, (n, 2)) * size
    xyz = cam.uv_to_xyz(uv + rng.normal(0, 2, uv.shape), depth=rng.uniform(5, 20, n))
    if c["kind"] == "points":
        return Points(cam, uv=uv, xyz=xyz), [cam]
    if c["kind"] == "lines":
        ends = cam.uv_to_xyz(np.array([(0.1, 0.2), (0.8, 0.9)]) * size, depth=10)
        return Lines(cam, uvs=[uv], xyzs=[ends]), [cam]
    other = Camera(imgsz=size * 2, f=float(size.max() * 2), viewdir=(1, 0, 0))
    uv2 = other.xyz_to_uv(xyz) + rng.normal(0, 2, uv.shape)
    cls = Matches if c["kind"] == "matches" else RotationMatches
    return cls([cam, other], uvs=[uv, uv2]), [cam, other]


@R.sub(
    controls(),
    quick=300,
    thorough=5000,
    rule="plots of errors of points, lines and matches; non-trivial if arrows are drawn",
)
def draws_errors(c, ctx):
    control, cams = build_control(c)
    i = c["camera"] if len(cams) > 1 else 0
    cam = cams[i]
    one = {"cam": cam if c["as_object"] else i} if len(cams) > 1 else {}
    n = control.size
    index = {
        "all": slice(None), "one": [n - 1], "rest": slice(1, None), "none": [],
    }[c["index"]]
    chosen = np.arange(n)[index] if c["index"] != "none" else np.zeros(0, int)
    if c["index"] == "none":
        index = chosen
    rest = np.setdiff1d(np.arange(n), chosen)
    uv = control.observed(**one)
    duv = control.predicted(**one) - uv
    styles = {
        k: c[k]
        for k in ("selected", "unselected") + (("observed", "predicted") if c["kind"] == "lines" else ())
        if not isinstance(c[k], str) or c[k] != "default"
    }
    plt.close("all")
    try:
        if c["open"]:
            fig, ax = plt.subplots()
            ax.set_xlim(3, 5)
            ax.set_ylim(1, 2)
        if c["model"]:
            # By the model of the cameras
            model = Cameras(cams, control, cam_params=[{"viewdir": True}] * len(cams))
            one = {"cam": cam if c["as_object"] else i}
            for k in ("observed", "predicted"):
                if k in styles:
                    styles["lines_" + k] = styles.pop(k)
            results = model.plot(index=index, **one, **styles, **c["kwargs"])
            check(len(results) == 1, "one result per control")
            result = results[0]
        else:
            result = control.plot(index=index, **one, **styles, **c["kwargs"])
        ax = plt.gca()
        check(len(plt.get_fignums()) == 1, "one figure")
        xlim, ylim = ax.get_xlim(), ax.get_ylim()
        if c["open"]:
            check((xlim, ylim) == ((3, 5), (1, 2)), "limits of an open figure changed", got=(xlim, ylim))
        else:
            want = ((0, cam.imgsz[0]), (cam.imgsz[1], 0))
            check((xlim, ylim) == want, "limits of a new figure", got=(xlim, ylim), want=want)
        if c["kind"] == "lines":
            for name, color in (("observed", "green"), ("predicted", "yellow")):
                style = c[name]
                check((result[name] is None) == (style is None), "lines", name=name)
                if style is None:
                    continue
                style = {"color": color if style == "default" else style} if isinstance(style, str) else style
                check(len(result[name]) == 1, "one for each line")
                line = result[name][0]
                check(same_color(line.get_color(), style["color"]), "color of lines")
                check(line.get_linewidth() == style.get("linewidth", 1.5), "width of lines")
                uvs = control.uvs[0]
                if name == "predicted":
                    uvs = cam.xyz_to_uv(control.xyzs[0])
                    # (sampled along the line)
                    got = np.column_stack(line.get_data())
                    close(got[[0, -1]], uvs[[0, -1]], atol=1e-6, msg="ends of the world line")
                else:
                    close(np.column_stack(line.get_data()), uvs, msg="line")
        for name, idx, default in (("selected", chosen, "red"), ("unselected", rest, "gray")):
            q, style = result[name], c[name]
            check((q is None) == (style is None or not len(idx)), "arrows", name=name, got=q)
            if q is None:
                continue
            ctx.hit(c["kind"], "new figure" if not c["open"] else "open figure")
            check(q.axes is ax, "axes")
            close(q.XY, uv[idx], msg="arrow starts")
            close(np.column_stack((q.U, q.V)), duv[idx], msg="arrows")
            args = {
                **c["kwargs"],
                **(style if isinstance(style, dict) else {"color": default if style == "default" else style}),
            }
            check(q.angles == "xy" and q.scale_units == "xy", "arrows point to predicted coordinates")
            check(q.scale == args.get("scale", 1), "scale", got=q.scale)
            color = to_rgba(args["color"], args.get("alpha"))
            check(same_color(q.get_facecolor()[0], color), "color", got=q.get_facecolor(), want=color)
            if "width" in args:
                check(q.width == args["width"], "width", got=q.width)
            else:
                # Thin in proportion to the image
                check(0 < q.width < 0.05 * cam.imgsz[0] and q.units == "xy", "width", got=q.width)
                close(q.width, 0.005 * cam.imgsz[0], msg="width")
    finally:
        plt.close("all")


styles = st.sampled_from([None, "default", "blue", {"c": "cyan"}, {"c": "black", "s": 9.0}])


@R.sub(
    st.fixed_dictionaries(
        {
            "y": st.lists(st.integers(-9, 9).map(float), min_size=3, max_size=8),
            "deg": st.integers(0, 2),
            "index": st.sampled_from(["all", "some", "slice"]),
            "selected": styles,
            "unselected": styles,
            "predicted": st.sampled_from([None, "default", "green", {"color": "green", "linewidth": 4.0}]),
            "kwargs": st.sampled_from([{}, {"alpha": 0.5}, {"marker": "s"}]),
            "given": st.booleans(),
        }
    ),
    quick=150,
    thorough=2000,
    rule="plots of polynomials; non-trivial with points on either side of a selection",
)
def draws_polynomials(c, ctx):
    xy = np.column_stack((np.arange(len(c["y"])) - 1.5, c["y"]))
    n = len(xy)
    index = {"all": slice(None), "some": list(range(n))[::2] + [1], "slice": slice(0, max(n - 1, 3))}[c["index"]]
    chosen = np.arange(n)[index]
    rest = np.setdiff1d(np.arange(n), chosen)
    if len(rest):
        ctx.hit(c["index"])
    model = Polynomial(xy, deg=c["deg"])
    params = np.arange(1.0, c["deg"] + 2)
    args = {k: c[k] for k in ("selected", "unselected", "predicted") if c[k] != "default"}
    if c["given"]:
        args["params"] = params
    else:
        params = np.polyfit(xy[chosen, 0], xy[chosen, 1], c["deg"])
    fig, ax = plt.subplots()
    try:
        got = model.plot(index=index, **args, **c["kwargs"])
        for name, idx, default in (("selected", chosen, "red"), ("unselected", rest, "gray")):
            p, style = got[name], c[name]
            check((p is None) == (style is None or not len(idx)), "points", name=name)
            if p is None:
                continue
            close(np.asarray(p.get_offsets()), xy[idx], msg=name)
            if not isinstance(style, dict):
                style = {"c": default if style == "default" else style}
            color = to_rgba(style["c"], c["kwargs"].get("alpha"))
            check(same_color(p.get_facecolor()[0], color), "color", name=name)
            if "s" in style:
                close(p.get_sizes(), [9.0], msg="size")
        if c["predicted"] is None:
            check(got["predicted"] is None, "hidden line")
        else:
            line = got["predicted"][0]
            x, y = np.asarray(line.get_data())
            check({-1.5, n - 2.5} <= set(x), "line along all points", got=x)
            close(y, np.polyval(params, x), 1e-7, 1e-7, "polynomial")
            style = c["predicted"]
            if not isinstance(style, dict):
                style = {"color": "red" if style == "default" else style}
            check(same_color(line.get_color(), style["color"]), "line color")
            check(line.get_linewidth() == style.get("linewidth", matplotlib.rcParams["lines.linewidth"]), "line width")
    finally:
        plt.close("all")


@R.sub(
    st.tuples(st.integers(1, 5), st.booleans()),
    quick=10,
    thorough=50,
    rule="rotation matches in camera coordinates; all non-trivial",
)
def refuses_rotations(case, ctx):
    n, xyz = case
    ctx.hit()
    rng = np.random.default_rng(n)
    cams = [Camera(imgsz=(100, 80), f=100.0), Camera(imgsz=(100, 80), f=100.0)]
    uvs = [rng.uniform(0, 80, (n, 2)) for _ in cams]
    m = (RotationMatchesXYZ if xyz else RotationMatchesXY)(cams, uvs=uvs)
    raises(NotImplementedError, m.plot)
    raises(NotImplementedError, m.plot, 0, selected="red")


@R.sub(
    st.tuples(
        st.lists(st.integers(1, 5), min_size=1, max_size=3),
        st.booleans(),
        st.sampled_from(["all", "list", "slice"]),
        st.integers(0, 999),
        st.sampled_from([{}, {"alpha": 0.5}, {"marker": "s"}]),
    ),
    quick=80,
    thorough=1000,
    rule="plots of weights; non-trivial with weights",
)
def draws_weights(case, ctx):
    sizes, weigh, kind, seed, kwargs = case
    rng = np.random.default_rng(seed)
    cam = Camera(imgsz=(100, 80), f=100.0)
    controls = []
    for n in sizes:
        uv = rng.uniform(5, 75, (n, 2))
        controls.append(Points(cam, uv=uv, xyz=cam.uv_to_xyz(uv, depth=5)))
    n = sum(sizes)
    weights = rng.uniform(0.5, 5, n) if weigh else None
    model = Cameras(
        cam, controls, cam_params=[{"viewdir": True}], weights=None if weights is None else weights.copy(),
    )
    index = {"all": slice(None), "list": list(range(n))[::2], "slice": slice(0, max(n // 2, 1))}[kind]
    if weigh:
        ctx.hit(kind)
    fig, ax = plt.subplots()
    try:
        args = {} if kind == "all" and seed % 2 else {"index": index}
        got = model.plot_weights(**args, **kwargs)
        uv = np.vstack([p.uv for p in controls])[index]
        close(np.asarray(got.get_offsets()), uv, msg="points")
        want = np.ones(n) if weights is None else weights * n / weights.sum()
        close(np.ravel(got.get_array()), want[index], msg="colors follow the weights")
        s = np.ravel(got.get_sizes())
        close(s, want[index], msg="sizes follow the weights")
    finally:
        plt.close("all")


# ---- Camera models ---------------------------------------------------------- #


@R.sub(
    st.tuples(
        st.sampled_from(["agisoft", "matlab", "opencv", "photomodeler"]),
        st.sampled_from([4, 25, "points"]),
        st.sampled_from([{}, {}, {"scale": 0.5}, {"scale": 3}, {"color": "blue"}, {"width": 2.0}]),
        finite(-0.1, 0.1),
    ),
    quick=100,
    thorough=1000,
    rule="plots of the residuals between camera models; non-trivial if they differ",
)
def draws_residuals(case, ctx):
    kind, uv, kwargs, k1 = case
    n = (200, 150)
    xcam = {
        "agisoft": lambda: Agisoft(imgsz=n, f=220.0),
        "matlab": lambda: Matlab(imgsz=n, fc=(220.0, 220.0)),
        "opencv": lambda: OpenCV(imgsz=n, fx=220.0, fy=220.0),
        "photomodeler": lambda: PhotoModeler(imgsz=n, focal=22.0, xp=10.0, yp=7.5, fw=20.0, fh=15.0),
    }[kind]()
    cam = Camera(imgsz=n, f=220.0, k=(k1,))
    if uv == "points":
        uv = np.array([(10.0, 20.0), (100.0, 75.0), (150.0, 33.3)])
    conv = Converter(xcam, cam, uv=uv)
    duv = conv.residuals()
    if np.abs(duv).max() > 1e-3:
        ctx.hit(kind)
    fig, ax = plt.subplots()
    try:
        q = conv.plot(**kwargs)
        check(q.axes is ax, "axes")
        close(q.XY, conv.uv, msg="arrow starts")
        # Length in the plot
        check(q.angles == "xy" and q.scale_units == "xy", "arrows in image coordinates")
        close(np.column_stack((q.U, q.V)) / q.scale, duv, msg="arrows")
        check(same_color(q.get_facecolor()[0], kwargs.get("color", "red")), "color")
        check(q.width == kwargs.get("width", 5), "width")
    finally:
        plt.close("all")

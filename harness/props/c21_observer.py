"""C21 Observers: sequences of images and the tiles read from them."""
import datetime
import os
import warnings

import cv2
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from core import Registry, check, close, raises, same, st
from gens import finite

import glimpse

matplotlib.use("agg")
R = Registry("C21")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
T0 = datetime.datetime(2020, 1, 1)
SECOND = datetime.timedelta(seconds=1)


def pixels(seed, nx, ny, bands):
    shape = (ny, nx) if bands == 1 else (ny, nx, bands)
    return np.random.default_rng(seed).integers(0, 255, shape, dtype=np.uint8)


def photo(seed, nx, ny, bands, t, **cam):
    """Image from file."""
    path = os.path.join(TMP, f"obs-{seed}-{nx}-{ny}-{bands}.png")
    if not os.path.exists(path):
        a = pixels(seed, nx, ny, bands)
        cv2.imwrite(path, a if bands == 1 else a[:, :, ::-1])
    cam = {"imgsz": (nx, ny), "f": (float(nx), float(nx)), **cam}
    return glimpse.Image(path, cam=cam, datetime=t)


def raster(seed, nx, ny, t, x=None, y=None):
    a = np.random.default_rng(seed).uniform(0, 255, (ny, nx))
    return glimpse.Raster(a, x=x or (0, nx), y=y or (ny, 0), datetime=t)


@st.composite
def times(draw, min_size=2, max_size=8):
    """Strictly increasing seconds."""
    steps = draw(
        st.lists(
            st.sampled_from([1.0, 2.0, 7.0, 0.5, 1e-6, 3600.0, 86400.0]),
            min_size=min_size - 1, max_size=max_size - 1,
        )
    )
    start = draw(st.sampled_from([0.0, 0.25, 12345.0]))
    return [start] + [start + float(x) for x in np.cumsum(steps)]


def when(seconds):
    return T0 + datetime.timedelta(microseconds=round(seconds * 1e6))


@st.composite
def sequences(draw, min_size=2, max_size=6, kinds=("raster", "photo", "file")):
    return {
        "kind": draw(st.sampled_from(kinds)),
        "times": draw(times(min_size, max_size)),
        "nx": draw(st.integers(12, 30)),
        "ny": draw(st.integers(12, 30)),
        "bands": draw(st.sampled_from([1, 3])),
        "seed": draw(st.integers(0, 5)),
        "cache": draw(st.booleans()),
        "sigma": draw(st.sampled_from([0.3, 2.0])),
        "twins": draw(st.booleans()),
    }


def build(c):
    """Observer and the pixel values of its images."""
    images, arrays = [], []
    for i, s in enumerate(c["times"]):
        seed = c["seed"] * 10 + (0 if c["twins"] else i)
        if c["kind"] == "photo":
            images.append(
                photo(seed, c["nx"], c["ny"], c["bands"], when(s), viewdir=(i * 0.5, 0, 0))
            )
            arrays.append(pixels(seed, c["nx"], c["ny"], c["bands"]))
        elif c["kind"] == "file":
            # (opened but not read)
            a = pixels(seed, c["nx"], c["ny"], 1)
            path = os.path.join(TMP, f"obs-{seed}-{c['nx']}-{c['ny']}.tif")
            if not os.path.exists(path):
                glimpse.Raster(a, x=(0, c["nx"]), y=(c["ny"], 0)).write(path)
            images.append(glimpse.Raster.open(path, datetime=when(s)))
            arrays.append(a)
        else:
            images.append(raster(seed, c["nx"], c["ny"], when(s)))
            arrays.append(images[-1].array.copy())
    kwargs = {} if c["sigma"] == 0.3 else {"sigma": c["sigma"]}
    return glimpse.Observer(images, cache=c["cache"], **kwargs), arrays


# ---- Sequence ---- #


@R.sub(
    sequences().flatmap(
        lambda c: st.fixed_dictionaries(
            {
                "obs": st.just(c),
                "offset": st.one_of(st.sampled_from([0.0, 0.1, -0.1]), finite(-4000, 4000)),
                "maxdt": st.sampled_from([None, "default", 0.0, 0.1, 5.0, -5.0, 1e5]),
                "i": st.integers(0, len(c["times"]) - 1),
                "order": st.sampled_from(["ok", "reverse", "equal", "missing", "short"]),
                "container": st.sampled_from([list, tuple]),
            }
        )
    ),
    quick=400,
    thorough=8000,
    rule="sequences of images; non-trivial if a datetime falls between images",
)
def finds_images(case, ctx):
    c = case["obs"]
    obs, _ = build(c)
    images = list(obs.images)
    if case["order"] != "ok":
        ctx.hit("invalid", case["order"])
        bad = list(images)
        if case["order"] == "reverse":
            bad = bad[::-1]
        elif case["order"] == "short":
            bad = bad[: 1 - len(bad) % 2]
        elif case["order"] == "equal":
            bad[-1].datetime = bad[-2].datetime
        else:
            bad[case["i"]].datetime = None
        raises(ValueError, glimpse.Observer, case["container"](bad), msg="invalid sequence")
        return
    obs = glimpse.Observer(case["container"](images), sigma=c["sigma"], cache=c["cache"])
    check(obs.sigma == c["sigma"] and obs.cache == c["cache"], "settings")
    check(list(obs.datetimes) == [when(s) for s in c["times"]], "datetimes")
    for i, img in enumerate(images):
        check(obs.images[i] is img, "images in order")
        check(obs.index(img) == i, "index of an image", got=obs.index(img), want=i)
        check(obs.index(img.datetime) == i, "index of a datetime")
    stranger = raster(99, 5, 4, T0) if c["kind"] != "photo" else photo(99, 5, 4, 1, T0)
    raises(ValueError, obs.index, stranger, msg="image not in the sequence")
    # Nearest image
    value = when(c["times"][case["i"]] + case["offset"])
    distances = [abs((value - t).total_seconds()) for t in obs.datetimes]
    limit = {"default": 0.0}.get(case["maxdt"], case["maxdt"])
    kwargs = {}
    if case["maxdt"] != "default":
        kwargs["maxdt"] = None if limit is None else limit * SECOND
    if case["offset"]:
        ctx.hit("between", case["maxdt"])
    if limit is not None and min(distances) > abs(limit):
        raises(ValueError, obs.index, value, **kwargs, msg="too far from any image")
    else:
        got = obs.index(value, **kwargs)
        check(
            distances[got] == min(distances), "nearest image", got=got, distances=distances
        )


@R.sub(
    sequences(min_size=2, max_size=8, kinds=("raster", "raster", "file")).flatmap(
        lambda c: st.fixed_dictionaries(
            {
                "obs": st.just({**c, "nx": 4, "ny": 3}),
                "start": st.one_of(st.none(), st.integers(0, 20)),
                "end": st.one_of(st.none(), st.integers(0, 20)),
                "shift": st.sampled_from([0.0, 0.25e-6 * 4, -1e-6, 0.1]),
                "n": st.one_of(
                    st.integers(1, 4), st.lists(st.integers(0, 20), min_size=1, max_size=3)
                ),
                "overlap": st.integers(0, 3),
            }
        )
    ),
    quick=600,
    thorough=15000,
    rule="sequences of images; non-trivial if split into several",
)
def subsets_and_splits(case, ctx):
    c = case["obs"]
    obs, _ = build(c)
    ts = [when(s) for s in c["times"]]

    def position(i):
        # On or between images
        t = ts[min(i // 2, len(ts) - 1)]
        if i % 2 and i // 2 + 1 < len(ts):
            t = t + (ts[i // 2 + 1] - t) / 2
        return t + datetime.timedelta(microseconds=round(case["shift"] * 1e6))

    def verify(part, index):
        check([id(x) for x in part.images] == [id(obs.images[i]) for i in index],
              "images of the part", got=[obs.index(x) for x in part.images], want=index)
        check(list(part.datetimes) == [ts[i] for i in index], "datetimes of the part")
        check(part.sigma == c["sigma"] and part.cache == c["cache"], "settings are kept")

    start, end = case["start"], case["end"]
    kwargs = {}
    if start is not None:
        kwargs["start"] = position(start)
    if end is not None:
        kwargs["end"] = position(end)
    first, last = kwargs.get("start", ts[0]), kwargs.get("end", ts[-1])
    index = [i for i, t in enumerate(ts) if first <= t <= last]
    if len(index) < 2 or first > last:
        raises(ValueError, obs.subset, **kwargs, msg="fewer than two images")
    else:
        ctx.label("subset")
        verify(obs.subset(**kwargs), index)
    # Splits
    n, overlap = case["n"], case["overlap"]
    if isinstance(n, int):
        breaks = [ts[0] + (ts[-1] - ts[0]) / n * i for i in range(1, n)]
        given = n
        # Breaks are rounded: images on them are not decided
        if n > 1 and any(abs((b - t).total_seconds()) < 1e-5 for b in breaks for t in ts):
            return
    else:
        given = [position(i) for i in n]
        given = [t for t in given if ts[0] < t < ts[-1]]
        breaks = sorted(set(given))
        if not breaks:
            return
    limits = [ts[0]] + breaks + [ts[-1]]
    parts, lo = [], 0
    for b in limits[1:]:
        index = [i for i in range(lo, len(ts)) if ts[i] <= b]
        if len(index) < 2:
            raises(ValueError, obs.split, given, overlap=overlap, msg="part with too few images")
            return
        parts.append(index)
        lo = index[-min(overlap, len(index))] if overlap else index[-1] + 1
    if len(parts) > 1:
        ctx.hit("parts%d" % len(parts), "overlap%d" % overlap)
    kwargs = {} if overlap == 1 else {"overlap": overlap}
    got = obs.split(given, **kwargs)
    check(len(got) == len(parts), "number of parts", got=len(got), want=len(parts))
    for part, index in zip(got, parts):
        verify(part, index)
    check(parts[-1][-1] == len(ts) - 1, "all images are used")


# ---- Tiles ---- #


@R.sub(
    sequences(max_size=3).flatmap(
        lambda c: st.fixed_dictionaries(
            {
                "obs": st.just(c),
                "img": st.integers(0, len(c["times"]) - 1),
                "uv": st.tuples(finite(-1, c["nx"] + 1), finite(-1, c["ny"] + 1)),
                "round": st.sampled_from([None, 1, 2]),
                "size": st.tuples(st.integers(1, 12), st.integers(1, 12)),
                "ops": st.lists(
                    st.sampled_from(["read", "cache", "cache_one", "clear", "clear_one", "tile"]),
                    max_size=6,
                ),
            }
        )
    ),
    quick=500,
    thorough=10000,
    rule="tiles in and across the frame of images; non-trivial if the tile is in the frame",
)
def reads_tiles(case, ctx):
    c = case["obs"]
    obs, arrays = build(c)
    i = case["img"]
    uv, size = np.array(case["uv"]), case["size"]
    if case["round"]:
        uv = np.round(uv * case["round"]) / case["round"]
    low, high = uv - np.multiply(size, 0.5), uv + np.multiply(size, 0.5)
    inside = (low >= 0).all() and (high <= (c["nx"], c["ny"])).all()
    if not inside:
        raises(IndexError, obs.tile_box, uv, size, i, msg="box beyond the frame")
        return
    ctx.hit(c["kind"], "cache" if c["cache"] else "nocache")
    box = obs.tile_box(tuple(uv), size=size, img=i)
    check(np.issubdtype(np.asarray(box).dtype, np.integer), "integer box")
    check(np.shape(box) == (4,), "box shape")
    if on_tie(uv, size):
        return
    check(tuple(box[2:] - box[:2]) == tuple(size), "size of the box", got=box, size=size)
    middle = (box[:2] + box[2:]) / 2
    check(np.abs(middle - uv).max() <= 0.5 + 1e-9, "box is centred on the point", got=box, uv=uv)
    left, top, right, bottom = (int(x) for x in box)
    cached = [c["kind"] == "raster"] * len(arrays)

    def verify(k):
        tile = obs.extract_tile(box=box, img=k)
        want = arrays[k][top:bottom, left:right]
        same(np.asarray(tile), want, msg="pixels of the tile")

    for op in case["ops"] + ["tile"]:
        if op == "cache":
            obs.cache_images()
            cached = [True] * len(cached)
        elif op == "cache_one":
            obs.cache_images(index=[i])
            cached[i] = True
        elif op in ("clear", "clear_one") and c["kind"] != "raster":
            if op == "clear":
                obs.clear_images()
                cached = [False] * len(cached)
            else:
                obs.clear_images(index=slice(i, i + 1))
                cached[i] = False
        elif op == "read":
            for k in range(len(arrays)):
                verify(k)
            cached = [x or c["cache"] for x in cached]
        elif op == "tile":
            verify(i)
            cached[i] = cached[i] or c["cache"]
        if c["kind"] == "photo":
            check(
                [img.array is not None for img in obs.images] == cached,
                "images are cached as asked for", op=op,
            )
    for k in range(len(arrays)):
        same(np.asarray(obs.images[k].read()), arrays[k], msg="image is unchanged")
    if c["kind"] == "photo":
        # Images whose camera changed size are cached at the new size
        nx, ny = c["nx"] * 2, c["ny"] + 1
        obs.images[i].cam.imgsz = nx, ny
        obs.cache_images(index=[i])
        check(obs.images[i].array.shape[:2] == (ny, nx), "images are cached at the size of their camera")
        obs.images[i].cam.imgsz = c["nx"], c["ny"]
        obs.cache_images()
        same(np.asarray(obs.images[i].array), arrays[i], msg="image cached at its own size again")
    xyz = np.array([[1.0, 20.0, 0.5], [-3.0, 30.0, 1.0]])
    same(obs.xyz_to_uv(xyz, img=i), obs.images[i].xyz_to_uv(xyz), msg="projection")


def on_tie(uv, size):
    """Whether snapping the edges of the box is undecided by rounding."""
    low = np.asarray(uv) - np.multiply(size, 0.5) + 0.5
    exact = np.asarray(uv) * 4 == np.round(np.asarray(uv) * 4)
    return (~exact & (np.abs(low - np.round(low)) < 1e-9)).any()


def polynomial(coef, u, v):
    """Sum of coef[j][i] v^j u^i."""
    total = 0.0
    for j, row in enumerate(coef):
        for i, x in enumerate(row):
            total = total + x * (v**j) * (u**i)
    return total


@st.composite
def tiles(draw):
    kx, ky = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    nu, nv = draw(st.integers(ky + 1, 10)), draw(st.integers(kx + 1, 10))
    coef = [[draw(finite(-3, 3)) for _ in range(ky + 1)] for _ in range(kx + 1)]
    return {
        "kx": kx, "ky": ky, "nu": nu, "nv": nv, "coef": coef,
        "default": draw(st.booleans()) and kx == 3 and ky == 3,
        "origin": [draw(st.sampled_from([0.0, 0.25, -3.5, 17.0, 1000.125])) for _ in range(2)],
        "cell": draw(st.sampled_from([(1.0, 1.0)] * 3 + [(2.0, 0.5), (0.25, 1.0), (3.0, 3.0)])),
        "points": draw(st.lists(st.tuples(finite(0, 1), finite(0, 1)), min_size=1, max_size=6)),
        "seed": draw(st.integers(0, 999)),
        "duv": (draw(finite(-0.5, 0.5)), draw(finite(-0.5, 0.5))),
        "dtype": draw(st.sampled_from(["float", "float", "uint8"])),
        "bands": draw(st.sampled_from([0, 1, 3])),
        "outside": draw(st.integers(0, 9)),
    }


@R.sub(
    tiles(),
    quick=600,
    thorough=15000,
    rule="tiles of any size, cell size and spline degree; non-trivial for degrees that differ "
    "or cells not of size 1",
)
def samples_tiles(c, ctx):
    if c["kx"] != c["ky"] or c["cell"] != (1.0, 1.0):
        ctx.hit("k%d%d" % (c["kx"], c["ky"]), "cell%s" % (c["cell"],))
    obs, _ = build(
        {"kind": "raster", "times": [0, 1], "nx": 4, "ny": 4, "bands": 1, "seed": 0,
         "cache": True, "sigma": 0.3, "twins": False}
    )
    du, dv = c["cell"]
    nu, nv = c["nu"], c["nv"]
    u0, v0 = c["origin"]
    box = (u0, v0, u0 + nu * du, v0 + nv * dv)
    # Polynomial of the degree of the spline (normalised to the tile)
    a, b = (np.arange(nu) + 0.5) / nu, (np.arange(nv) + 0.5) / nv
    tile = polynomial(c["coef"], a[None, :], b[:, None])
    kwargs = {} if c["default"] else {"kx": c["kx"], "ky": c["ky"]}
    # Between the outermost cell centres
    p = np.array(c["points"], dtype=float).reshape(-1, 2)
    p = (p * (np.array([nu, nv]) - 1) + 0.5) / (nu, nv)
    uv = p * np.array((box[2] - box[0], box[3] - box[1])) + (u0, v0)
    before = tile.copy()
    got = obs.sample_tile(uv, tile=tile, box=box, **kwargs)
    want = polynomial(c["coef"], p[:, 0], p[:, 1])
    close(got, want, rtol=1e-6, atol=1e-6, msg="splines reproduce polynomials")
    same(tile, before, msg="tile is unchanged")
    grid = obs.sample_tile(
        (np.sort(uv[:, 0]), np.sort(uv[:, 1])), tile=tile, box=box, grid=True, **kwargs
    )
    want = polynomial(c["coef"], np.sort(p[:, 0])[None, :], np.sort(p[:, 1])[:, None])
    close(grid, want, rtol=1e-6, atol=1e-6, msg="grid of points")
    # Cell centres, any values
    rng = np.random.default_rng(c["seed"])
    tile = rng.uniform(-1, 1, (nv, nu))
    i, j = rng.integers(0, nu, 5), rng.integers(0, nv, 5)
    at = np.column_stack((u0 + (i + 0.5) * du, v0 + (j + 0.5) * dv))
    got = obs.sample_tile(at, tile=tile, box=np.array(box), **kwargs)
    close(got, tile[j, i], rtol=1e-7, atol=1e-7, msg="values at cell centres")
    corners = np.array([box[:2], box[2:]])
    check(np.isfinite(obs.sample_tile(corners, tile=tile, box=box, **kwargs)).all(), "edges")
    # Linear interpolation of any values
    got = obs.sample_tile(uv, tile=tile, box=box, kx=1, ky=1)
    x, y = p[:, 0] * nu - 0.5, p[:, 1] * nv - 0.5
    ii, jj = np.clip(x.astype(int), 0, nu - 2), np.clip(y.astype(int), 0, nv - 2)
    s, t = x - ii, y - jj
    want = (
        tile[jj, ii] * (1 - s) * (1 - t) + tile[jj, ii + 1] * s * (1 - t)
        + tile[jj + 1, ii] * (1 - s) * t + tile[jj + 1, ii + 1] * s * t
    )
    close(got, want, rtol=1e-6, atol=1e-6, msg="linear interpolation")
    # Points outside
    eps = 1e-3
    away = [(-eps * du, 0), (0, -eps * dv), (nu * du + eps, 0), (0, nv * dv + eps)]
    if c["outside"] < 4:
        bad = np.vstack((uv, np.add(away[c["outside"]], box[:2])))
        raises(ValueError, obs.sample_tile, bad, tile=tile, box=box, **kwargs, msg="outside")


@R.sub(
    tiles(),
    quick=500,
    thorough=12000,
    rule="tiles of any size and spline degree; non-trivial for bands or integers",
)
def shifts_tiles(c, ctx):
    if c["bands"] or c["dtype"] != "float":
        ctx.hit(c["dtype"], "bands%d" % c["bands"])
    obs, _ = build(
        {"kind": "raster", "times": [0, 1], "nx": 4, "ny": 4, "bands": 1, "seed": 0,
         "cache": True, "sigma": 0.3, "twins": False}
    )
    nu, nv = c["nu"], c["nv"]
    kwargs = {"kx": c["kx"], "ky": c["ky"]}
    u, v = np.arange(nu), np.arange(nv)
    layers = []
    for k in range(max(c["bands"], 1)):
        coef = np.array(c["coef"]) * (1 + k)
        layers.append(polynomial(coef, u[None, :] / nu, v[:, None] / nv))
    if c["dtype"] == "uint8":
        rng = np.random.default_rng(c["seed"])
        # Linear, to the extremes
        a, b, d = rng.integers(0, 12, 3)
        layers = [(a * u[None, :] + b * v[:, None] + d + k).astype(np.uint8) for k in range(len(layers))]
    tile = layers[0] if c["bands"] == 0 else np.dstack(layers)
    before = tile.copy()
    got = obs.shift_tile(tile, c["duv"], **kwargs)
    same(tile, before, msg="tile is unchanged")
    squeezed = before if c["bands"] != 1 else before[:, :, 0]
    check(got.shape == squeezed.shape, "shape", got=got.shape, want=squeezed.shape)
    # Moving the grid of cell centres by (du, dv), held at the outermost centres
    su, sv = np.clip(u + c["duv"][0], 0, nu - 1), np.clip(v + c["duv"][1], 0, nv - 1)
    if c["dtype"] == "uint8":
        want = [a * su[None, :] + b * sv[:, None] + d + k for k in range(len(layers))]
    else:
        want = [
            polynomial(np.array(c["coef"]) * (1 + k), su[None, :] / nu, sv[:, None] / nv)
            for k in range(len(layers))
        ]
    want = np.dstack(want) if c["bands"] > 1 else want[0]
    close(got, want, rtol=1e-6, atol=1e-6, msg="shifted values")
    close(obs.shift_tile(tile, (0, 0), **kwargs), squeezed, rtol=1e-7, atol=1e-7, msg="no shift")
    for bad in ((0.51, 0), (0, -0.6)):
        raises(ValueError, obs.shift_tile, tile, bad, **kwargs, msg="more than half a pixel")


# ---- Plots ---- #


@R.sub(
    st.fixed_dictionaries(
        {
            "nu": st.integers(1, 6), "nv": st.integers(1, 6),
            "box": st.one_of(
                st.none(),
                st.tuples(finite(-5, 5), finite(-5, 5), finite(0.5, 9), finite(0.5, 9)),
            ),
            "axes": st.booleans(),
        }
    ),
    quick=120,
    thorough=1500,
    rule="tiles and boxes; non-trivial if not square",
)
def plots_tiles_and_boxes(c, ctx):
    if c["nu"] != c["nv"]:
        ctx.hit("box" if c["box"] else "nobox")
    obs, _ = build(
        {"kind": "raster", "times": [0, 1], "nx": 4, "ny": 4, "bands": 1, "seed": 0,
         "cache": True, "sigma": 0.3, "twins": False}
    )
    tile = np.arange(c["nu"] * c["nv"], dtype=float).reshape(c["nv"], c["nu"])
    box = c["box"] and (c["box"][0], c["box"][1], c["box"][0] + c["box"][2], c["box"][1] + c["box"][3])
    fig, ax = plt.subplots(ncols=2)
    try:
        kwargs = {"axes": ax[0]} if c["axes"] else {}
        im = obs.plot_tile(tile, box=box, **kwargs)
        check(im.axes is (ax[0] if c["axes"] else ax[1]), "axes")
        left, top, right, bottom = box or (0, 0, c["nu"], c["nv"])
        close(im.get_extent(), (left, right, bottom, top), msg="extent")
        same(np.asarray(im.get_array()), tile, msg="values")
        if box:
            patch = obs.plot_box(box, fill=False, **kwargs)
            check(patch.axes is im.axes, "axes of the box")
            close(patch.get_bbox().extents, (left, top, right, bottom), msg="box")
    finally:
        plt.close(fig)


@st.composite
def films(draw):
    n = draw(st.integers(2, 4))
    frames = draw(
        st.one_of(st.none(), st.lists(st.integers(0, n - 1), unique=True, min_size=1).map(sorted))
    )
    return {
        "n": n,
        "frames": frames,
        "nx": draw(st.integers(30, 50)), "ny": draw(st.integers(30, 50)),
        "size": (draw(st.integers(3, 12)), draw(st.integers(3, 12))),
        "viewdir": [(draw(finite(-25, 25)), draw(finite(-15, 15)), draw(finite(-5, 5))) for _ in range(n)],
        "uv": (draw(finite(0.3, 0.7)), draw(finite(0.3, 0.7))),
        "steps": [(draw(finite(-0.1, 0.1)), draw(finite(-0.1, 0.1))) for _ in range(n)],
        "default_uv": draw(st.booleans()),
        "bands": draw(st.sampled_from([1, 3])),
        "seed": draw(st.integers(0, 3)),
        "frames_as": draw(st.sampled_from(["list", "array", "tuple"])),
        # Images need not have the same size
        "sizes": draw(
            st.one_of(
                st.none(),
                st.lists(
                    st.tuples(st.integers(30, 60), st.integers(30, 60)), min_size=n, max_size=n
                ),
            )
        ),
    }


def film_sizes(c):
    return c["sizes"] or [(c["nx"], c["ny"])] * c["n"]


def film_observer(c, viewdirs=None):
    images, arrays = [], []
    for i, (nx, ny) in enumerate(film_sizes(c)):
        images.append(
            photo(c["seed"] * 10 + i, nx, ny, c["bands"], when(i),
                  viewdir=(viewdirs or c["viewdir"])[i], f=(float(c["nx"]), float(c["nx"])))
        )
        arrays.append(pixels(c["seed"] * 10 + i, nx, ny, c["bands"]))
    return glimpse.Observer(images), arrays


def film_frames(c):
    kind = {"list": list, "array": np.array, "tuple": tuple}[c["frames_as"]]
    return {} if c["frames"] is None else {"frames": kind(c["frames"])}


def shown(im, array, msg):
    """The pixels shown are those of the image at the extent shown."""
    left, right, bottom, top = (int(round(x)) for x in im.get_extent())
    same(np.asarray(im.get_array()), array[top:bottom, left:right], msg=msg)
    return left, top, right, bottom


@R.sub(
    films(),
    quick=60,
    thorough=1000,
    rule="animations of a fixed point; non-trivial if it moves between images",
)
def animates_a_fixed_point(c, ctx):
    obs, arrays = film_observer(c)
    frames = c["frames"] if c["frames"] is not None else list(range(c["n"]))
    sizes = film_sizes(c)
    uv = np.array(c["uv"]) * sizes[frames[0]]
    kwargs = {"size": c["size"], "uv": tuple(uv), **film_frames(c)}
    if c["default_uv"]:
        uv = np.array(sizes[frames[0]]) / 2
        del kwargs["uv"]
    half = np.array(c["size"]) / 2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        anim = obs.animate(**kwargs)
        fig = anim._fig
        try:
            check([int(i) for i in anim.new_frame_seq()] == frames, "frames")
            for i in frames[::-1]:
                anim._draw_frame(i)
                xyz = obs.images[frames[0]].uv_to_xyz(np.atleast_2d(uv))
                puv = obs.images[i].xyz_to_uv(xyz)[0]
                low, high = puv - half, puv + half
                bounds = np.array(sizes[i])
                corners = [(x, y) for x in (low[0], high[0]) for y in (low[1], high[1])]
                some = any((0 <= x <= bounds[0] and 0 <= y <= bounds[1]) for x, y in corners)
                edge = any(
                    min(abs(x), abs(x - bounds[0]), abs(y), abs(y - bounds[1])) < 0.51
                    for x, y in corners
                )
                for ax in fig.axes:
                    close(np.ravel(ax.lines[0].get_xdata()), puv[:1], atol=1e-6, msg="point u")
                    close(np.ravel(ax.lines[0].get_ydata()), puv[1:], atol=1e-6, msg="point v")
                    im = ax.images[0]
                    if edge or np.isnan(puv).any():
                        continue
                    if some:
                        ctx.hit("moved" if i != frames[0] else "first")
                        got = shown(im, arrays[i], "tile around the point")
                        want = np.concatenate((np.maximum(low, 0), np.minimum(high, bounds)))
                        check(
                            np.abs(np.array(got) - want).max() <= 0.5 + 1e-6,
                            "box around the point", got=got, want=want,
                        )
                    else:
                        check((np.asarray(im.get_array()) == 255).all(), "white tile")
                if np.isfinite(puv).all():
                    a, b = fig.axes
                    close(a.get_xlim(), (low[0], high[0]), atol=1e-6, msg="view follows (u)")
                    close(a.get_ylim(), (high[1], low[1]), atol=1e-6, msg="view follows (v)")
                    close(b.get_xlim(), (uv - half)[:1].tolist() + (uv + half)[:1].tolist(), msg="fixed view (u)")
                    close(b.get_ylim(), (uv + half)[1:].tolist() + (uv - half)[1:].tolist(), msg="fixed view (v)")
        finally:
            anim._draw_was_started = True
            plt.close(fig)


@R.sub(
    films(),
    quick=60,
    thorough=1000,
    rule="animations of a moving point; non-trivial with several frames",
)
def animates_a_moving_point(c, ctx):
    obs, arrays = film_observer(c, viewdirs=[(x * 0.1, y * 0.1, z) for x, y, z in c["viewdir"]])
    frames = c["frames"] if c["frames"] is not None else list(range(c["n"]))
    sizes = film_sizes(c)
    size = sizes[frames[0]]
    start = np.array(c["uv"]) * size
    track = start + np.cumsum(c["steps"][: len(frames)], axis=0) * 20
    track = np.clip(track, 12, np.array(size) - 12)
    # World points that move in the first image
    xyz = obs.images[frames[0]].uv_to_xyz(track)
    kwargs = film_frames(c)
    half = np.array(c["size"]) / 2
    paths = [obs.images[i].xyz_to_uv(xyz[: j + 1]) for j, i in enumerate(frames)]
    if any(
        (p[-1] - half < 0).any() or (p[-1] + half > sizes[i]).any() for p, i in zip(paths, frames)
    ):
        return
    if len(frames) > 1:
        ctx.hit("frames%d" % len(frames), "subset" if c["frames"] else "all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        anim = obs.track(xyz, size=c["size"], **kwargs)
        fig = anim._fig
        try:
            check([int(i) for i in anim.new_frame_seq()] == frames, "frames")
            for j, i in list(enumerate(frames))[::-1]:
                anim._draw_frame(i)
                a, b = fig.axes
                for ax, k, uv in ((a, frames[0], paths[0][0]), (b, i, paths[j][-1])):
                    got = shown(ax.images[0], arrays[k], "tile around the point")
                    middle = (np.array(got[:2]) + got[2:]) / 2
                    check(np.abs(middle - uv).max() <= 0.5 + 1e-6, "tile is centred", got=got, uv=uv)
                    check(
                        on_tie(uv, c["size"])
                        or (got[2] - got[0], got[3] - got[1]) == c["size"],
                        "tile size", got=got,
                    )
                    dots = [
                        line for line in ax.lines
                        if matplotlib.colors.same_color(line.get_color(), "red")
                    ]
                    check(len(dots) == 1, "one current point")
                    close(np.column_stack(dots[0].get_data()), uv[None], atol=1e-6, msg="point")
                names = [os.path.splitext(os.path.basename(obs.images[k].path))[0] for k in (frames[0], i)]
                for ax, k, name in zip(fig.axes, (frames[0], i), names):
                    texts = [t.get_text() for t in ax.texts]
                    check(texts == [f"{k} : {name}"], "label of the image", got=texts, k=k)
                line = [x for x in b.lines if not matplotlib.colors.same_color(x.get_color(), "red")]
                close(np.column_stack(line[0].get_data()), paths[j], atol=1e-6, msg="path so far")
        finally:
            anim._draw_was_started = True
            plt.close(fig)


@R.sub(
    st.tuples(films(), st.booleans()),
    quick=12,
    thorough=150,
    rule="animations of photos or rasters (from file) with nothing but the defaults; all "
    "non-trivial",
)
def animates_by_default(case, ctx):
    c = {**case[0], "rasters": case[1]}
    c = {**c, "nx": c["nx"] + 100, "ny": c["ny"] + 100, "sizes": None}
    if c["rasters"]:
        c.update(kind="file", times=list(range(c["n"])), twins=False, cache=True, sigma=0.3)
        obs, arrays = build(c)
    else:
        obs, arrays = film_observer(c, viewdirs=[(x * 0.1, y * 0.1, z) for x, y, z in c["viewdir"]])
    ctx.hit("rasters" if c["rasters"] else "photos")
    uv = np.array((c["nx"], c["ny"])) / 2
    xyz = obs.images[0].uv_to_xyz(uv[None])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name in ("animate", "track"):
            if name == "animate":
                anim, n = obs.animate(), c["n"]
            else:
                anim, n = obs.track(np.vstack((xyz, xyz))), 2
            fig = anim._fig
            try:
                check([int(i) for i in anim.new_frame_seq()] == list(range(n)), "all frames")
                check(anim._interval == 200, "default interval", got=anim._interval)
                anim._draw_frame(0)
                names = [os.path.splitext(os.path.basename(x.path))[0] for x in obs.images]
                for ax in fig.axes:
                    left, top, right, bottom = shown(ax.images[0], arrays[0], "tile")
                    check(
                        abs(right - left - 100) <= 1 and abs(bottom - top - 100) <= 1,
                        "default size of tiles", got=(left, top, right, bottom),
                    )
                    middle = np.array((left + right, top + bottom)) / 2
                    check(np.abs(middle - uv).max() <= 0.5 + 1e-6, "tile in the middle")
                anim._draw_frame(1)
                a, b = [[t.get_text() for t in ax.texts] for ax in fig.axes]
                check(any(names[1] in t for t in a + b), "name of the image shown", got=(a, b))
            finally:
                anim._draw_was_started = True
                plt.close(fig)

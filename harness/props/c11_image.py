"""C11 Images: metadata, read histories with boxes and resizing, files, projection."""
import datetime
import os
import shutil
import tempfile

import cams
import cv2
import numpy as np
import piexif
from core import Registry, check, close, raises, same, st
from gens import finite

from glimpse import Camera, Exif, Image, helpers

R = Registry("C11")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
WHEN = datetime.datetime(2020, 1, 2, 3, 4, 5)
_n = [0]


def tmp(ext):
    """Reused file name: a fresh file each time without filling the disk."""
    _n[0] = (_n[0] + 1) % 4
    path = os.path.join(TMP, f"i{_n[0]}{ext}")
    for suffix in ("", ".aux.xml"):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)
    return path


def coded(nx, ny, bands, dtype):
    """Image whose values tell the position of the pixel."""
    v, u = np.mgrid[0:ny, 0:nx]
    layers = [u, v, (u * 7 + v * 13) % 251][: max(bands, 2)]
    if bands == 1:
        return (v * nx + u).astype("uint16")
    return np.dstack(layers).astype(dtype)


def save(array, ext, how):
    path = tmp(ext)
    if how == "cv2":
        a = array[:, :, ::-1] if array.ndim == 3 and array.shape[2] == 3 else array
        assert cv2.imwrite(path, np.ascontiguousarray(a))
    else:
        helpers.write_raster(array, path)
    return path


def positions(got, nx, bands):
    """Column and row in the file of each pixel read."""
    if bands == 1:
        return got % nx, got // nx
    return got[:, :, 0].astype(int), got[:, :, 1].astype(int)


# ---- Reading ---------------------------------------------------------------- #


@st.composite
def histories(draw):
    nx, ny = draw(st.integers(2, 24)), draw(st.integers(2, 24))
    factors = st.sampled_from([1, 2, 3, 4])
    sizes = st.one_of(
        st.just((nx, ny)),
        st.tuples(factors, factors).map(
            lambda f: (max(nx // f[0], 1), max(ny // f[1], 1))
        ),
        st.tuples(st.integers(1, 40), st.integers(1, 40)),
    )
    side = st.one_of(finite(0, 1), finite(0, 1), st.sampled_from([0.0, 1.0]))
    box = st.tuples(side, side, side, side)
    ops = st.one_of(
        st.tuples(st.just("read"), st.one_of(st.none(), box), st.sampled_from([True, False, "default"])),
        st.tuples(st.just("read"), st.one_of(st.none(), box), st.booleans()),
        st.tuples(st.just("size"), sizes),
        st.tuples(st.just("clear")),
        st.tuples(st.just("custom"), sizes),
    )
    return {
        "n": (nx, ny),
        # Smaller than the file in some cases, by whole factors
        "first": draw(sizes),
        "bands": draw(st.sampled_from([1, 3, 3])),
        "dtype": draw(st.sampled_from(["uint8", "uint16"])),
        "file": draw(st.sampled_from([(".png", "cv2"), (".tif", "gdal"), (".tif", "cv2")])),
        "ops": draw(st.lists(ops, min_size=1, max_size=8)),
    }


def pick(f, n):
    """Non-empty box side from two fractions."""
    a, b = sorted((int(f[0] * n), int(f[1] * n)))
    a = min(a, n - 1)
    return a, min(max(b, a + 1), n)


@R.sub(
    histories(),
    quick=500,
    thorough=12000,
    rule="a history of reads (boxes, cached or not), camera size changes, cleared and "
    "replaced caches; non-trivial when a box is read after the size was changed",
)
def reads(c, ctx):
    nx, ny = c["n"]
    array = coded(nx, ny, c["bands"], c["dtype"])
    path = save(array, *c["file"])
    img = Image(path, cam={"imgsz": c["first"], "f": (10, 10)}, datetime=WHEN)
    check(img.exif is None, "metadata read although not needed")
    size = tuple(c["first"])
    custom = None
    sized = False
    for op in c["ops"]:
        if op[0] == "size":
            size = tuple(op[1])
            img.cam.imgsz = size
            sized = True
        elif op[0] == "clear":
            img.array = None
            custom = None
        elif op[0] == "custom":
            w, h = op[1]
            custom = (op[1], np.arange(w * h).reshape(h, w))
            img.array = custom[1].copy()
        else:
            box, cache = op[1], op[2]
            if box is not None:
                x, y = pick(box[0::2], size[0]), pick(box[1::2], size[1])
                box = (x[0], y[0], x[1], y[1])
            if cache == "default":
                # Cached unless asked not to
                got, cache = (img.read() if box is None else img.read(box)), True
            else:
                got = img.read(box, cache=cache)
            b = box or (0, 0) + size
            same(got.shape[0:2], (b[3] - b[1], b[2] - b[0]), "size of image read", box=box)
            check(tuple(img.size) == size, "image size")
            if custom is not None and tuple(custom[0]) == size:
                if cache or box is None:
                    same(got, custom[1][b[1] : b[3], b[0] : b[2]], "custom cache")
                ctx.label("custom cache")
                continue
            if cache:
                custom = None
                same(img.array.shape[0:2], size[::-1], "size of cache")
            same(got.dtype, array.dtype, "data type")
            same(got.ndim, array.ndim, "number of dimensions")
            sx, sy = nx / size[0], ny / size[1]
            if box is not None and sized:
                ctx.hit("box after resize" + ("" if cache else ", uncached"))
            if size == (nx, ny):
                same(got, array[b[1] : b[3], b[0] : b[2]], "pixels read", box=box)
                continue
            u, v = positions(got, nx, c["bands"])
            if sx == int(sx) and sy == int(sy):
                ctx.label("whole factor")
                tol = 1e-6
            else:
                # Boxes read from file start at whole pixels of the file
                tol = 1e-6 if cache or box is None else 1
            u_ref = (np.arange(b[0], b[2]) + 0.5) * sx
            v_ref = (np.arange(b[1], b[3]) + 0.5) * sy
            for a, ref, s in ((u, u_ref[None, :], sx), (v, v_ref[:, None], sy)):
                # Each pixel comes from the part of the file that it covers
                half = max(s, 1) / 2 + tol
                check(
                    (np.abs(a + 0.5 - ref) <= half).all(),
                    "pixels come from elsewhere in the file", box=box, cache=cache,
                    size=size, error=np.abs(a + 0.5 - ref).max(), scale=s,
                )
            if box is not None and sx == int(sx) and sy == int(sy):
                full = Image(path, cam={"imgsz": size, "f": (10, 10)}, datetime=WHEN)
                same(got, full.read()[b[1] : b[3], b[0] : b[2]], "box of resized image")


@st.composite
def edge_case(draw):
    n = draw(st.integers(2, 8)), draw(st.integers(2, 8))
    size = tuple(draw(st.one_of(st.just(m), st.integers(m, 10 * m), st.integers(1, m))) for m in n)
    boxes = []
    for m in size:
        w = draw(st.integers(1, min(m, 3)))
        boxes.append(draw(st.sampled_from([(0, w), (m - w, m), (m // 2, min(m // 2 + w, m))])))
    return {"n": n, "size": size, "x": boxes[0], "y": boxes[1], "bands": draw(st.sampled_from([1, 3]))}


@R.sub(
    edge_case(),
    quick=150,
    thorough=2500,
    rule="single pixels and slivers along the edges of images read larger or smaller "
    "than their file; non-trivial when larger",
)
def edges(c, ctx):
    (nx, ny), size = c["n"], c["size"]
    array = coded(nx, ny, c["bands"], "uint8")
    path = save(array, ".png", "cv2")
    box = (c["x"][0], c["y"][0], c["x"][1], c["y"][1])
    if size[0] > nx or size[1] > ny:
        ctx.hit()
    tiles = []
    for cache in (False, True):
        img = Image(path, cam={"imgsz": size, "f": (10, 10)}, datetime=WHEN)
        got = img.read(box, cache=cache)
        same(got.shape[0:2], (box[3] - box[1], box[2] - box[0]), "size of tile", box=box)
        u, v = positions(got, nx, c["bands"])
        for a, b0, b1, m, n in ((u, box[0], box[2], size[0], nx), (v, box[1], box[3], size[1], ny)):
            ref = (np.arange(b0, b1) + 0.5) * n / m
            ref = ref[None, :] if a is u else ref[:, None]
            check(
                (np.abs(a + 0.5 - ref) <= max(n / m, 1) / 2 + 1 + 1e-6).all(),
                "pixels come from elsewhere in the file", box=box, size=size, n=(nx, ny), cache=cache,
            )
        tiles.append(got)
    if size == (nx, ny):
        same(tiles[0], tiles[1], "tile read from file or cache")


# ---- Metadata --------------------------------------------------------------- #

SIZES = {
    "NIKON CORPORATION NIKON D2X": (23.7, 15.7),
    "NIKON E8700": (8.8, 6.6),
    "Canon Canon EOS 20D": (22.5, 15.0),
}


@st.composite
def metadata(draw):
    make, model = draw(
        st.sampled_from(
            [("NIKON CORPORATION", "NIKON D2X"), ("NIKON", "E8700"), ("Canon", "Canon EOS 20D")]
        )
    )
    cam = {}
    options = {
        "imgsz": st.tuples(st.integers(2, 30), st.integers(2, 30)),
        "f": st.tuples(finite(5, 50), finite(5, 50)),
        "fmm": st.one_of(finite(5, 50), st.tuples(finite(5, 50), finite(5, 50))),
        "sensorsz": st.tuples(finite(5, 50), finite(5, 50)),
        "c": st.tuples(finite(-2, 2), finite(-2, 2)),
        "xyz": st.tuples(finite(-9, 9), finite(-9, 9), finite(-9, 9)),
        "viewdir": st.tuples(finite(-9, 9), finite(-9, 9), finite(-9, 9)),
        "k": finite(-0.1, 0.1),
    }
    for key in options:
        if key == "fmm" and "f" in cam:
            continue
        if draw(st.booleans()):
            cam[key] = draw(options[key])
    return {
        "make": make,
        "model": model,
        "fmm": (draw(st.integers(10, 5000)), 10),
        "n": (draw(st.integers(2, 40)), draw(st.integers(2, 40))),
        "cam": draw(st.sampled_from([cam, cam, cam, cam, None])),
        "camera": draw(st.integers(0, 5)) == 0,
        "datetime": draw(st.booleans()),
        "exif": draw(st.sampled_from(["file", "file", "given"])),
    }


def jpeg(path, c, fmm=None, n=None):
    cv2.imwrite(path, np.zeros((4, 6, 3), "uint8"))
    n = n or c["n"]
    tags = {
        "0th": {
            piexif.ImageIFD.Make: c["make"].encode(),
            piexif.ImageIFD.Model: c["model"].encode(),
        },
        "Exif": {
            piexif.ExifIFD.DateTimeOriginal: b"2014:10:13 02:03:36",
            piexif.ExifIFD.SubSecTimeOriginal: b"28",
            piexif.ExifIFD.PixelXDimension: n[0],
            piexif.ExifIFD.PixelYDimension: n[1],
            piexif.ExifIFD.FocalLength: fmm or c["fmm"],
        },
    }
    piexif.insert(piexif.dump(tags), path)


@R.sub(
    metadata(),
    quick=400,
    thorough=8000,
    rule="any subset of camera arguments over generated metadata; non-trivial when some "
    "arguments come from the metadata and some are given",
)
def arguments(c, ctx):
    path = tmp(".jpg")
    jpeg(path, c)
    kwargs = {}
    n, fmm = c["n"], c["fmm"][0] / c["fmm"][1]
    if c["exif"] == "given":
        # Metadata of another file wins over that of the image itself
        other = tmp(".jpg")
        jpeg(other, c, fmm=(c["fmm"][0] + 7, 10), n=(n[0] + 1, n[1] + 2))
        kwargs["exif"] = Exif(other)
        n, fmm = (n[0] + 1, n[1] + 2), (c["fmm"][0] + 7) / 10
    if c["datetime"]:
        kwargs["datetime"] = WHEN
    cam = c["cam"]
    before = None if cam is None else dict(cam)
    args = dict(cam or {})
    whole = "imgsz" in args and ("f" in args or ("fmm" in args and "sensorsz" in args))
    if c["camera"] and whole:
        camera = Camera(**args)
        img = Image(path, cam=camera, **kwargs)
        check(img.cam is camera, "camera given is used")
    else:
        if cam is not None:
            kwargs["cam"] = cam
        img = Image(path, **kwargs)
    check(cam == before, "arguments changed")
    when = WHEN if c["datetime"] else datetime.datetime(2014, 10, 13, 2, 3, 36, 280000)
    check(img.datetime == when, "capture time", got=img.datetime)
    if c["exif"] == "given":
        check(img.exif is kwargs["exif"], "metadata given is kept")
    elif whole and c["datetime"]:
        check(img.exif is None, "metadata read although not needed")
    if 0 < len(args) and not whole:
        ctx.hit("supplemented")
    # Reference values
    size = args.get("imgsz", n)
    key = (c["make"] + " " + c["model"]).strip()
    sensorsz = args.get("sensorsz", SIZES[key] if not whole else None)
    same(img.cam.imgsz, size, "image size")
    if sensorsz is not None:
        close(img.cam.sensorsz, sensorsz, msg="sensor size")
    if "f" in args:
        close(img.cam.f, args["f"], msg="focal length (pixels)")
    else:
        f = np.broadcast_to(args.get("fmm", fmm), 2)
        close(img.cam.fmm, f, msg="focal length (mm)")
        close(img.cam.f, f * np.array(size) / sensorsz, msg="focal length (pixels)")
    close(img.cam.c, args.get("c", (0, 0)), msg="principal point")
    close(img.cam.xyz, args.get("xyz", (0, 0, 0)), msg="position")
    close(img.cam.viewdir, args.get("viewdir", (0, 0, 0)), msg="view direction")
    close(img.cam.k[0], args.get("k", 0), msg="distortion")
    # Image methods are those of the camera
    xyz = np.array([[1.0, 20.0, 0.5], [-3.0, 40.0, -2.0]])
    same(img.xyz_to_uv(xyz), img.cam.xyz_to_uv(xyz), "projection")
    uv = np.array([[0.5, 1.0], [1.5, 0.5], [-1, 0]])
    same(img.inbounds(uv), img.cam.inframe(uv), "in bounds")
    got = img.uv_to_xyz(uv[:2], depth=3.0)
    close(got, img.cam.uv_to_xyz(uv[:2], directions=False, depth=3.0), msg="world points")


@R.sub(
    st.sampled_from(["datetime", "both"]),
    quick=4,
    thorough=4,
    rule="images without metadata; all non-trivial",
)
def missing(c, ctx):
    ctx.hit()
    path = tmp(".jpg")
    cv2.imwrite(path, np.zeros((4, 6, 3), "uint8"))
    if c == "datetime":
        img = Image(path, cam={"imgsz": (6, 4), "f": 10})
        check(img.datetime is None, "capture time from nowhere")
    else:
        img = Image(path, cam={"imgsz": (6, 4), "f": 10}, datetime=WHEN)
        check(img.datetime == WHEN and img.exif is None, "metadata")


# ---- Writing ---------------------------------------------------------------- #


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.tuples(st.integers(1, 20), st.integers(1, 20)),
            "bands": st.sampled_from([1, 3, 4]),
            "dtype": st.sampled_from(["uint8", "uint16", "int16", "float32"]),
            "ext": st.sampled_from([".tif", ".png"]),
            "factor": st.sampled_from([1, 1, 2]),
            "given": st.booleans(),
            "cached": st.booleans(),
            "driver": st.booleans(),
            "seed": st.integers(0, 10 ** 6),
        }
    ),
    quick=250,
    thorough=5000,
    rule="image data written and read again; non-trivial when resized or not 8-bit",
)
def writes(c, ctx):
    rng = np.random.default_rng(c["seed"])
    nx, ny = c["n"]
    dtype = c["dtype"] if c["ext"] == ".tif" else c["dtype"].replace("int16", "uint16")[-6:]
    dtype = {"uint16": "uint16", "float32": "uint8", "loat32": "uint8"}.get(dtype, dtype)
    if c["ext"] == ".tif":
        dtype = c["dtype"]
    shape = (ny * c["factor"], nx * c["factor"]) + (() if c["bands"] == 1 else (c["bands"],))
    array = rng.integers(0, 250, shape).astype(dtype)
    source = tmp(".tif")
    helpers.write_raster(array, source)
    img = Image(source, cam={"imgsz": (nx, ny), "f": 10}, datetime=WHEN)
    if c["cached"]:
        img.read()
    if c["given"]:
        want = rng.integers(0, 250, shape).astype(dtype)
    else:
        want = img.read()
        if not c["cached"]:
            img.array = None
    path = tmp(c["ext"])
    driver = {".tif": "GTiff", ".png": "PNG"}[c["ext"]] if c["driver"] else None
    img.write(path, array=want.copy() if c["given"] else None, driver=driver)
    if c["factor"] > 1 or dtype != "uint8":
        ctx.hit(dtype, c["ext"], "resized" if c["factor"] > 1 else "as is")
    back = Image(path, cam={"imgsz": want.shape[1::-1], "f": 10}, datetime=WHEN).read()
    same(back, want, "image read back")
    same(back.dtype, want.dtype, "data type")


@R.sub(
    st.sampled_from([("x.abcdef", None), ("x", None), ("x.tif", "NOSUCH")]),
    quick=6,
    thorough=6,
    rule="unknown file formats; all non-trivial",
)
def refused(c, ctx):
    ctx.hit()
    source = tmp(".tif")
    helpers.write_raster(np.zeros((3, 4), "uint8"), source)
    img = Image(source, cam={"imgsz": (4, 3), "f": 10}, datetime=WHEN)
    folder = tempfile.mkdtemp(dir=TMP)
    try:
        path = os.path.join(folder, c[0])
        raises(ValueError, img.write, path, driver=c[1])
        check(not os.path.exists(path), "file written although refused")
    finally:
        shutil.rmtree(folder)


# ---- Projection ------------------------------------------------------------- #


@st.composite
def projections(draw):
    nx, ny = draw(st.integers(2, 14)), draw(st.integers(2, 14))
    f = draw(finite(8, 40))
    source = {
        "imgsz": (nx, ny),
        "f": (f, f * draw(st.sampled_from([1.0, 1.1]))),
        "c": (draw(finite(-1, 1)), draw(finite(-1, 1))),
        "xyz": draw(cams.position()),
        "viewdir": (draw(cams.angle), draw(finite(-80, 80)), draw(st.sampled_from([0.0, 10.0, -90.0]))),
        "k": (draw(st.sampled_from([0.0, 0.0, -0.1, 0.05])), 0.0, 0.0, 0.0, 0.0, 0.0),
        "p": (draw(st.sampled_from([0.0, 0.0, 0.01])), 0.0),
    }
    kind = draw(st.sampled_from(["same", "turned", "turned", "zoomed", "resized", "away"]))
    target = dict(source, k=cams.NO_K, p=(0.0, 0.0))
    v = source["viewdir"]
    if kind == "same":
        target = dict(source)
    elif kind == "turned":
        d = [draw(finite(-8, 8)) for _ in range(3)]
        target["viewdir"] = tuple(a + b for a, b in zip(v, d))
    elif kind == "zoomed":
        s = draw(finite(0.5, 3))
        target["f"] = tuple(x * s for x in source["f"])
    elif kind == "resized":
        target["imgsz"] = (draw(st.integers(2, 20)), draw(st.integers(2, 20)))
    else:
        target["viewdir"] = (v[0] + draw(finite(60, 300)), v[1], v[2])
    return {
        "kind": kind,
        "source": source,
        "target": target,
        "method": draw(st.sampled_from(["linear", "nearest"])),
        "bands": draw(st.sampled_from([1, 3])),
        "dtype": draw(st.sampled_from(["uint8", "uint16", "float32", "float64"])),
        "seed": draw(st.integers(0, 10 ** 6)),
        "moved": draw(st.integers(0, 9)) == 0,
    }


@R.sub(
    projections(),
    quick=300,
    thorough=8000,
    rule="an image and two cameras at one place; non-trivial when some but not all "
    "pixels of the target see the image, or the cameras are the same",
)
def project(c, ctx):
    rng = np.random.default_rng(c["seed"])
    s, t = c["source"], c["target"]
    nx, ny = s["imgsz"]
    shape = (ny, nx) + (() if c["bands"] == 1 else (c["bands"],))
    array = rng.integers(0, 250, shape).astype(c["dtype"])
    path = tmp(".tif")
    helpers.write_raster(array, path)
    img = Image(path, cam=Camera(**s), datetime=WHEN)
    cam = Camera(**t)
    if c["moved"]:
        i = c["seed"] % 3
        cam.xyz = [x + (1 if j == i else 0) for j, x in enumerate(cam.xyz)]
        raises(ValueError, img.project, cam, method=c["method"])
        ctx.hit("moved")
        return
    vector, vector2 = cam.to_array().copy(), img.cam.to_array().copy()
    got = img.project(cam, method=c["method"])
    same(cam.to_array(), vector, "target camera changed")
    same(img.cam.to_array(), vector2, "image camera changed")
    same(img.read(), array, "image changed")
    tx, ty = t["imgsz"]
    check(got.dtype == array.dtype, "data type", got=got.dtype)
    got = got.reshape(ty, tx, -1).astype(float)
    check(got.shape[2] == c["bands"], "bands")
    layers = array.reshape(ny, nx, -1).astype(float)
    if c["kind"] == "same":
        # Undistorting is numerical, so near pixel centers only
        exact = not any(s["k"]) and not any(s["p"])
        if exact:
            ctx.hit("same camera")
            same(got, layers, "image projected to its own camera")
            return
        close(got, layers, 0, 1 if c["dtype"].startswith("u") else 0.1, "own camera")
        return
    u, v = (a.ravel() for a in np.meshgrid(np.arange(tx) + 0.5, np.arange(ty) + 0.5))
    x = (u - tx / 2 - t["c"][0]) / t["f"][0]
    y = (v - ty / 2 - t["c"][1]) / t["f"][1]
    uv, _ = cams.project(s, cams.world(t, x, y, np.ones(len(x))), directions=True)
    pu, pv = uv[:, 0] - 0.5, uv[:, 1] - 0.5
    with np.errstate(all="ignore"):
        inside = (pu >= 1e-5) & (pu <= nx - 1 - 1e-5) & (pv >= 1e-5) & (pv <= ny - 1 - 1e-5)
        # In the outer half pixels, missing or not is not specified
        outside = ~((pu >= -0.501) & (pu <= nx - 0.499) & (pv >= -0.501) & (pv <= ny - 0.499))
    flat = got.reshape(tx * ty, -1)
    integer = c["dtype"].startswith("u")
    if not integer:
        check(np.isnan(flat[outside]).all(), "values outside of the image")
        check(not np.isnan(flat[inside]).any(), "no values inside the image")
    if inside.any() and not inside.all():
        ctx.hit(c["kind"], c["method"])
    for n in np.flatnonzero(inside):
        j, i = int(pu[n]), int(pv[n])
        a, b = pu[n] - j, pv[n] - i
        if c["method"] == "nearest":
            if abs(a - 0.5) < 1e-4 or abs(b - 0.5) < 1e-4:
                continue
            want = layers[i + (b > 0.5), j + (a > 0.5)]
            same(flat[n], want, "nearest pixel")
        else:
            j1, i1 = min(j + 1, nx - 1), min(i + 1, ny - 1)
            want = (
                layers[i, j] * (1 - a) * (1 - b) + layers[i, j1] * a * (1 - b)
                + layers[i1, j] * (1 - a) * b + layers[i1, j1] * a * b
            )
            close(flat[n], want, 1e-6, 1.0 if integer else 0.01, "bilinear value")

"""C07 Raster files: write/open round trip, windows, boxes, lazy reads."""
import os

import numpy as np
import osgeo.gdal
import osgeo.osr
from core import Registry, check, close, raises, same, st
from gens import cells, centers, dyadic_step, grids, quarters

from glimpse import helpers
from glimpse.raster import Grid, Raster

R = Registry("C07")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
_n = [0]


def tmp(ext=".tif"):
    """Reused file name: a fresh file each time without filling the disk."""
    _n[0] = (_n[0] + 1) % 4
    path = os.path.join(TMP, f"r{_n[0]}{ext}")
    for suffix in ("", ".aux.xml"):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)
    return path


DTYPES = ["uint8", "uint16", "int16", "uint32", "int32", "float32", "float64"]
RANGE = {
    "uint8": (0, 255),
    "uint16": (0, 65535),
    "int16": (-32768, 32767),
    "uint32": (0, 2 ** 32 - 1),
    "int32": (-(2 ** 31), 2 ** 31 - 1),
}
CRS = [
    None,
    32633,
    4326,
    3413,
    "+proj=utm +zone=6 +datum=WGS84 +units=m +no_defs",
    "+proj=stere +lat_0=90 +lat_ts=70 +lon_0=-45 +datum=WGS84 +units=m +no_defs",
]


def srs(crs):
    s = osgeo.osr.SpatialReference()
    if isinstance(crs, int):
        s.ImportFromEPSG(crs)
    elif crs.startswith("+"):
        s.ImportFromProj4(crs)
    else:
        s.ImportFromWkt(crs)
    return s


@st.composite
def values(draw, nx, ny, dtype):
    if dtype.startswith("float"):
        el = st.one_of(
            quarters,
            quarters,
            st.sampled_from([0.0, -9999.0, float("nan"), float("nan"), 1e6]),
        )
    else:
        lo, hi = RANGE[dtype]
        el = st.one_of(
            st.integers(max(lo, -20), 20), st.integers(lo, hi), st.sampled_from([lo, hi])
        )
    return draw(cells(nx, ny, el))


@st.composite
def file_case(draw, max_n=6, min_n=1, dtypes=DTYPES):
    g = draw(grids(min_n=min_n, max_n=max_n))
    dtype = draw(st.sampled_from(dtypes))
    z = draw(values(g["nx"], g["ny"], dtype))
    return {"g": g, "dtype": dtype, "z": z}


@st.composite
def roundtrip_case(draw):
    case = draw(file_case())
    g = case["g"]
    case["crs"] = draw(st.sampled_from(CRS))
    case["nan"] = draw(
        st.sampled_from([None, None, -9999, 0, -9999.0, 3.5, -1])
        if case["dtype"].startswith("float")
        else st.sampled_from([None, None, 0, 1, 7])
    )
    # The Erdas driver supports north-up grids only
    north_up = g["xlim"][1] > g["xlim"][0] and g["ylim"][0] > g["ylim"][1]
    case["ext"] = draw(st.sampled_from([".tif", ".tif", ".img" if north_up else ".tif"]))
    case["read_nan"] = draw(st.sampled_from([None, None, 0, 1, 7]))
    return case


def build(case):
    z = np.array(case["z"], dtype=case["dtype"]).reshape(
        case["g"]["ny"], case["g"]["nx"]
    )
    return Raster(z, x=case["g"]["xlim"], y=case["g"]["ylim"], crs=case.get("crs")), z


@R.sub(
    roundtrip_case(),
    quick=700,
    thorough=12000,
    rule="rasters of 7 data types, any orientation, CRS and no-data value, written and "
    "reopened; non-trivial with NaN cells, a no-data value or a CRS",
)
def write_then_open(case, ctx):
    r, z = build(case)
    path = tmp(case["ext"])
    before = z.copy()
    kw = {} if case["nan"] is None else {"nan": case["nan"]}
    r.write(path, **kw)
    same(r.array, before, "writing changed the raster")
    q = Raster.open(path) if case["read_nan"] is None else Raster.open(
        path, nan=case["read_nan"]
    )
    # Before any values are read
    close(q.xlim, case["g"]["xlim"], msg="xlim before read")
    close(q.ylim, case["g"]["ylim"], msg="ylim before read")
    same(np.array(q.size), [case["g"]["nx"], case["g"]["ny"]], "size before read")
    is_float = case["dtype"].startswith("float")
    want = z.copy()
    if case["read_nan"] is not None:
        # explicit value replaces the one of the file
        want = want.astype(float) if not is_float else want
        if case["nan"] is not None and is_float:
            want[np.isnan(want)] = case["nan"]
        want[want == case["read_nan"]] = np.nan
    elif is_float and case["nan"] is not None:
        want[want == case["nan"]] = np.nan
    if case["nan"] is not None or case["crs"] or np.isnan(want.astype(float)).any():
        ctx.hit("nodata" if case["nan"] is not None else "crs/nan")
    same(np.asarray(q.array), want, "values")
    if case["read_nan"] is None:
        check(q.array.dtype == z.dtype, "dtype", got=q.array.dtype, want=z.dtype)
    else:
        check(np.issubdtype(q.array.dtype, np.floating), "not cast to float")
    close(q.xlim, case["g"]["xlim"], msg="xlim")
    close(q.ylim, case["g"]["ylim"], msg="ylim")
    close(q.x, centers(case["g"]["xlim"], case["g"]["nx"]), msg="x")
    close(q.y, centers(case["g"]["ylim"], case["g"]["ny"]), msg="y")
    if case["crs"] is None:
        check(q.crs is None, "crs of a file without one", got=q.crs)
    else:
        check(srs(q.crs).IsSame(srs(case["crs"])), "crs", got=q.crs, want=case["crs"])
    # A second write of what was read gives the same raster again
    if case["read_nan"] is None:
        path2 = tmp(case["ext"])
        q.write(path2, **kw)
        p = Raster.open(path2)
        same(np.asarray(p.array), want, "values after second write")
        check(p == q or np.isnan(want.astype(float)).any(), "rasters differ")


@st.composite
def bands_case(draw):
    g = draw(grids(max_n=5))
    dtype = draw(st.sampled_from(DTYPES))
    n = draw(st.integers(1, 4))
    return {
        "g": g,
        "dtype": dtype,
        "bands": [draw(values(g["nx"], g["ny"], dtype)) for _ in range(n)],
        "nan": draw(st.sampled_from([None, -9999, 0])),
        "crs": draw(st.sampled_from(CRS)),
        "rotation": draw(st.sampled_from([(0, 0), (0.5, 0), (0, -2), (0.25, 0.75), (1, 2)])),
        "form": draw(st.sampled_from([tuple, list])),
    }


@R.sub(
    bands_case(),
    quick=300,
    thorough=5000,
    rule="multiband files; non-trivial with two or more different bands",
)
def bands(case, ctx):
    g = case["g"]
    a = np.dstack([np.array(b, dtype=case["dtype"]) for b in case["bands"]])
    nan = case["nan"] if case["dtype"].startswith("float") else None
    path = tmp()
    dx = (g["xlim"][1] - g["xlim"][0]) / g["nx"]
    dy = (g["ylim"][1] - g["ylim"][0]) / g["ny"]
    transform = (g["xlim"][0], dx, 0, g["ylim"][0], 0, dy)
    helpers.write_raster(a, path, transform=transform, nan=nan)
    if a.shape[2] > 1:
        ctx.hit("multiband")
    for k in range(a.shape[2]):
        want = a[:, :, k].copy()
        if nan is not None:
            want[want == nan] = np.nan
        q = Raster.open(path, band=k + 1)
        same(np.asarray(q.array), want, "band", k=k)
        close(q.xlim, g["xlim"], msg="xlim")
        close(q.ylim, g["ylim"], msg="ylim")
    # Any affine transform, as other programs read it
    path = tmp()
    transform = case["form"]((*transform[:2], case["rotation"][0], transform[3], case["rotation"][1], dy))
    helpers.write_raster(a, path, transform=transform, crs=case["crs"], nan=nan)
    ds = osgeo.gdal.Open(path)
    check(ds.RasterCount == a.shape[2], "number of bands", got=ds.RasterCount)
    close(ds.GetGeoTransform(), transform, msg="affine transform")
    for k in range(a.shape[2]):
        band = ds.GetRasterBand(k + 1)
        same(band.ReadAsArray(), np.where(np.isnan(a[:, :, k]), a[:, :, k] if nan is None else nan, a[:, :, k]).astype(a.dtype), "stored", k=k)
        check(band.GetNoDataValue() == nan, "value for NaN", got=band.GetNoDataValue(), k=k)
    if case["crs"] is None:
        check(not ds.GetProjection(), "no coordinate system", got=ds.GetProjection())
    else:
        written = osgeo.osr.SpatialReference(ds.GetProjection())
        check(written.IsSame(srs(case["crs"])), "coordinate system", got=ds.GetProjection())
    ds = None
    if case["rotation"] != (0, 0):
        ctx.hit("rotated")


@st.composite
def window(draw, g):
    """Optional crop limits, aligned or not, possibly beyond the raster."""
    out = []
    for lim, n in ((g["xlim"], g["nx"]), (g["ylim"], g["ny"])):
        if draw(st.integers(0, 2)) == 0:
            out.append(None)
            continue
        d = (lim[1] - lim[0]) / n
        i = draw(st.integers(0, 4 * n - 2))
        j = draw(st.integers(i + 1, 4 * n))
        if draw(st.integers(0, 5)) == 0:
            i = -3
        if draw(st.integers(0, 5)) == 0:
            j = 4 * n + 5
        pair = [lim[0] + d * i / 4, lim[0] + d * j / 4]
        out.append(tuple(pair[:: draw(st.sampled_from([1, -1]))]))
    return out


def window_cells(lim, n, want):
    """First and last (exclusive) cell which the limits touch."""
    if want is None:
        return 0, n
    d = (lim[1] - lim[0]) / n
    t = sorted((w - lim[0]) / d for w in want)
    # cells with some extent inside the limits
    lo = int(np.clip(np.floor(t[0]), 0, n - 1))
    hi = int(np.clip(np.ceil(t[1]), lo + 1, n))
    return lo, hi


@st.composite
def history_case(draw):
    case = draw(file_case(max_n=7, dtypes=["uint8", "int16", "float32", "float64"]))
    g = case["g"]
    case["window"] = draw(window(g))
    case["nan"] = draw(st.sampled_from([None, None, 0, 3]))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.integers(0, 7))
        if kind == 0:
            ops.append(("clear",))
        elif kind == 1:
            ops.append(("array",))
        elif kind == 2:
            ops.append(("bad",))
        else:
            ops.append(
                (
                    "read",
                    None
                    if kind == 3
                    else tuple(draw(st.integers(0, 63)) for _ in range(4)),
                    draw(st.booleans()),
                )
            )
    case["ops"] = ops
    return case


@R.sub(
    history_case(),
    quick=900,
    thorough=15000,
    rule="files opened with and without crop limits, then random histories of box and "
    "full reads with and without caching and cache clears; non-trivial with a box "
    "smaller than the raster",
)
def read_histories(case, ctx):
    r, z = build(case)
    path = tmp()
    r.write(path)
    g = case["g"]
    xl, yl = case["window"]
    kw = {}
    if xl is not None:
        kw["xlim"] = xl
    if yl is not None:
        kw["ylim"] = yl
    if case["nan"] is not None:
        kw["nan"] = case["nan"]
    q = Raster.open(path, **kw)
    dx = (g["xlim"][1] - g["xlim"][0]) / g["nx"]
    dy = (g["ylim"][1] - g["ylim"][0]) / g["ny"]
    want = z.copy()
    if case["nan"] is not None:
        want = want.astype(float) if not case["dtype"].startswith("float") else want
        want[want == case["nan"]] = np.nan
    # The opened window is the smallest block of cells covering the limits
    c0, c1 = window_cells(g["xlim"], g["nx"], xl)
    r0, r1 = window_cells(g["ylim"], g["ny"], yl)
    same(np.array(q.size), [c1 - c0, r1 - r0], "size of window")
    close(q.xlim, [g["xlim"][0] + c0 * dx, g["xlim"][0] + c1 * dx], msg="xlim")
    close(q.ylim, [g["ylim"][0] + r0 * dy, g["ylim"][0] + r1 * dy], msg="ylim")
    grid = Grid.read(path, xlim=xl, ylim=yl)
    close(grid.xlim, q.xlim, msg="Grid.read xlim")
    close(grid.ylim, q.ylim, msg="Grid.read ylim")
    same(np.array(grid.size), np.array(q.size), "Grid.read size")
    want = want[r0:r1, c0:c1]
    ny, nx = want.shape
    cached = False
    if (ny, nx) != z.shape:
        ctx.label("window")
    for op in case["ops"]:
        if op[0] == "clear":
            q.array = None
            cached = False
            ctx.label("clear")
        elif op[0] == "array":
            same(np.asarray(q.array), want, "array")
            cached = True
        elif op[0] == "bad":
            for box in ([0, 0, nx + 1, ny], [-1, 0, nx, ny]):
                raises(ValueError, q.read, box=box, msg="box out of bounds")
            raises(ValueError, q.read, box=[0.5, 0, nx, ny], msg="fractional box")
        else:
            if op[1] is None:
                box, sel = None, want
            else:
                a, b, c, d = op[1]
                left, top = a % nx, b % ny
                right = left + 1 + c % (nx - left)
                bottom = top + 1 + d % (ny - top)
                box = [left, top, right, bottom]
                sel = want[top:bottom, left:right]
                if sel.shape != want.shape:
                    ctx.hit("box cached" if op[2] else "box uncached")
                    if cached:
                        ctx.label("box after cache")
            got = q.read(box=box, cache=op[2])
            same(np.asarray(got), sel, "read", box=box, cache=op[2])
            if op[2]:
                cached = True
        same(np.array(q.size), [nx, ny], "size after read")
    same(np.asarray(q.array), want, "array at end")
    close(q.x, centers(q.xlim, nx), msg="x at end")
    close(q.y, centers(q.ylim, ny), msg="y at end")


@st.composite
def resample_case(draw):
    case = draw(file_case(max_n=8, dtypes=["int16", "float64"]))
    g = case["g"]
    case["window"] = draw(window(g))
    case["d"] = draw(st.one_of(dyadic_step, st.sampled_from([0.7, 1.3, 7.0, 20.0])))
    return case


@R.sub(
    resample_case(),
    quick=500,
    thorough=8000,
    rule="files opened at a target cell size; non-trivial when the grid is resampled",
)
def target_cell_size(case, ctx):
    r, z = build(case)
    path = tmp()
    r.write(path)
    g = case["g"]
    xl, yl = case["window"]
    q = Raster.open(path, d=case["d"], xlim=xl, ylim=yl)
    grid = Grid.read(path, d=case["d"], xlim=xl, ylim=yl)
    dx = (g["xlim"][1] - g["xlim"][0]) / g["nx"]
    dy = (g["ylim"][1] - g["ylim"][0]) / g["ny"]
    c0, c1 = window_cells(g["xlim"], g["nx"], xl)
    r0, r1 = window_cells(g["ylim"], g["ny"], yl)
    # Same outer bounds as without resampling
    close(q.xlim, [g["xlim"][0] + c0 * dx, g["xlim"][0] + c1 * dx], msg="xlim")
    close(q.ylim, [g["ylim"][0] + r0 * dy, g["ylim"][0] + r1 * dy], msg="ylim")
    nx = abs((c1 - c0) * dx) / case["d"]
    ny = abs((r1 - r0) * dy) / case["d"]
    size = np.array(q.size)
    for got, t in zip(size, (nx, ny)):
        check(t - 1e-6 <= got < t + 1 + 1e-6, "size", got=got, target=t)
    close(grid.xlim, q.xlim, msg="Grid.read xlim")
    close(grid.ylim, q.ylim, msg="Grid.read ylim")
    same(np.array(grid.size), size, "Grid.read size")
    check(np.array_equal(grid.shape, q.array.shape), "shape", got=q.array.shape)
    same(np.array(q.size), size, "size after read")
    # Every value comes from a source cell under (or next to) the target cell
    sub = z[r0:r1, c0:c1]
    if sub.shape != q.array.shape:
        ctx.hit("resampled")
    a = np.asarray(q.array)
    sy, sx = sub.shape[0] / a.shape[0], sub.shape[1] / a.shape[1]
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            i0, i1 = int(np.floor(i * sy - 1e-6)), int(np.ceil((i + 1) * sy + 1e-6))
            j0, j1 = int(np.floor(j * sx - 1e-6)), int(np.ceil((j + 1) * sx + 1e-6))
            block = sub[max(i0, 0) : i1, max(j0, 0) : j1]
            v = a[i, j]
            ok = np.isnan(v) and np.isnan(block.astype(float)).any() or (block == v).any()
            check(ok, "value from elsewhere", at=(i, j), got=v, block=block)


@st.composite
def multiple_case(draw):
    """Files whose window is a whole number of target cells."""
    out = {"step": draw(dyadic_step)}
    for k in "xy":
        out[k] = {
            "factor": draw(st.sampled_from([1, 2, 2, 4])),
            "n": draw(st.integers(1, 4)),
            "before": draw(st.integers(0, 4)),
            "after": draw(st.integers(0, 4)),
            "sign": draw(st.sampled_from([1, -1])),
        }
    out["boxes"] = draw(
        st.lists(
            st.tuples(
                st.tuples(*[st.floats(0, 1) for _ in range(4)]), st.booleans()
            ),
            min_size=1,
            max_size=4,
        )
    )
    out["crop"] = draw(st.booleans())
    return out


@R.sub(
    multiple_case(),
    quick=500,
    thorough=8000,
    rule="windows of files opened at a whole multiple of their cell size, then random "
    "histories of boxes read with and without caching; non-trivial when resampled",
)
def boxes_of_resampled(case, ctx):
    lims, cuts, sizes = [], [], []
    for k in "xy":
        c = case[k]
        before, after = (c["before"], c["after"]) if case["crop"] else (0, 0)
        n = before + c["n"] * c["factor"] + after
        d = case["step"] / c["factor"] * c["sign"]
        lims.append((0, n * d))
        cuts.append((before * d, (before + c["n"] * c["factor"]) * d))
        sizes.append(n)
    nx, ny = sizes
    z = np.arange(nx * ny, dtype="int32").reshape(ny, nx)
    path = tmp()
    Raster(z, x=lims[0], y=lims[1]).write(path)
    kw = dict(xlim=cuts[0], ylim=cuts[1]) if case["crop"] else {}
    exact = all(float(v).is_integer() for v in (case["step"] / case[k]["factor"] * 2 ** 20 for k in "xy"))
    if not exact:
        return  # bounds are not exactly on cell edges
    q = Raster.open(path, d=case["step"], **kw)
    want = Raster.open(path, d=case["step"], **kw).read()
    n = (case["x"]["n"], case["y"]["n"])
    check(want.shape == n[::-1], "shape", got=want.shape)
    cached = False
    for box, cache in case["boxes"]:
        l, t = int(box[0] * n[0] * 0.999), int(box[1] * n[1] * 0.999)
        r, b = l + 1 + int(box[2] * (n[0] - l - 1)), t + 1 + int(box[3] * (n[1] - t - 1))
        got = q.read(box=[l, t, r, b], cache=cache)
        same(got, want[t:b, l:r], "box", cache=cache, cached=cached)
        cached = cached or cache
    same(q.array, want, "array at end")
    if (case["x"]["factor"], case["y"]["factor"]) != (1, 1):
        ctx.hit()


@st.composite
def lazy_case(draw):
    case = draw(file_case(min_n=3, max_n=7, dtypes=["int16", "float32", "float64"]))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(
            st.sampled_from(["shift", "crop", "index", "copy", "box", "grid", "sample"])
        )
        ops.append((kind, tuple(draw(st.integers(0, 63)) for _ in range(4))))
    case["ops"] = ops
    return case


@R.sub(
    lazy_case(),
    quick=500,
    thorough=8000,
    rule="the same operations on a lazily opened file and on the raster in memory; "
    "non-trivial when a mutation comes before the first read",
)
def lazy_equals_memory(case, ctx):
    m, z = build(case)
    path = tmp()
    m.write(path)
    q = Raster.open(path)
    for k, (kind, a) in enumerate(case["ops"]):
        nx, ny = (int(v) for v in m.size)
        if kind == "shift":
            dz = None if a[2] % 2 else a[2]
            if k == 0:
                ctx.hit("shift first")
            q.shift(a[0] / 2, -a[1] / 4, dz)
            m.shift(a[0] / 2, -a[1] / 4, dz)
        elif kind == "crop" and nx > 2 and ny > 2:
            xs = m.xlim[0] + m.d[0] * np.array([a[0] % 2, nx - a[1] % 2])
            ys = m.ylim[0] + m.d[1] * np.array([a[2] % 2, ny - a[3] % 2])
            xs += np.array([0.25, -0.25]) * m.d[0]
            if k == 0:
                ctx.hit("crop first")
            q.crop(xlim=xs, ylim=ys)
            m.crop(xlim=xs, ylim=ys)
        elif kind == "index":
            i, j = a[0] % ny, a[1] % nx
            q, m = q[i:, j:], m[i:, j:]
        elif kind == "copy":
            q, m = q.copy(), m.copy()
        elif kind == "box":
            box = [0, 0, 1 + a[0] % nx, 1 + a[1] % ny]
            got = q.read(box=box, cache=bool(a[2] % 2))
            want = m.read(box=box)
            if np.array(q.size).tolist() == [nx, ny] and k == 0:
                same(np.asarray(got), np.asarray(want), "box")
        elif kind == "grid":
            check(q.grid == m.grid, "grid")
        elif kind == "sample":
            u, v = (a[0] + 0.5) / 64, (a[1] + 0.5) / 64
            p = [[m.xlim[0] + u * nx * m.d[0], m.ylim[0] + v * ny * m.d[1]]]
            close(q.sample(p), m.sample(p), msg="sample")
        close(q.xlim, m.xlim, msg="xlim", kind=kind)
        close(q.ylim, m.ylim, msg="ylim", kind=kind)
        same(np.array(q.size), np.array(m.size), "size", kind=kind)
        close(q.x, m.x, msg="x", kind=kind)
        close(q.y, m.y, msg="y", kind=kind)
    same(np.asarray(q.array), np.asarray(m.array), "values")


@R.sub(
    st.tuples(
        st.sampled_from(["bool", "float16", "int64", "ok"]),
        st.sampled_from([".tif", ".foo", ""]),
        st.sampled_from([None, "GTiff", "NotADriver"]),
    ),
    quick=60,
    thorough=60,
    rule="unsupported data types, extensions and drivers; non-trivial when one is bad",
)
def bad_writes(case, ctx):
    dtype, ext, driver = case
    a = np.array([[1, 0], [1, 1]]).astype("uint8" if dtype == "ok" else dtype)
    path = os.path.join(TMP, "bad" + ext)
    if os.path.exists(path):
        os.remove(path)
    bad = (
        dtype != "ok" or driver == "NotADriver" or (driver is None and ext != ".tif")
    )
    if bad:
        ctx.hit("bad")
        raises(
            ValueError, helpers.write_raster, a, path, driver=driver, msg="not refused"
        )
        check(not os.path.exists(path), "file written despite the error")
    else:
        helpers.write_raster(a, path, driver=driver)
        same(np.asarray(Raster.open(path).array), a, "values")


# ---- Formats ----------------------------------------------------------------- #

FORMATS = {
    # driver: (extension, data types)
    "GTiff": (".tif", ["uint8", "int16", "float64"]),
    "HFA": (".img", ["uint8", "int16", "float64"]),
    "ENVI": ("", ["uint8", "int16", "float64"]),
    "RRASTER": (".grd", ["int16", "float32"]),
    "SAGA": (".sdat", ["int16", "float32"]),
    # (written as a copy of a raster in memory)
    "COG": (".tif", ["uint8", "int16", "float64"]),
    "PNG": (".png", ["uint8"]),
    "GIF": (".gif", ["uint8"]),
}


@st.composite
def format_case(draw):
    driver = draw(st.sampled_from(sorted(FORMATS)))
    ext, dtypes = FORMATS[driver]
    case = draw(file_case(min_n=2, dtypes=dtypes))
    g = case["g"]
    # Square cells, north up
    nx, ny, d = g["nx"], g["ny"], draw(st.sampled_from([1.0, 30.0, 0.5]))
    x0, y0 = draw(st.sampled_from([(0.0, 0.0), (500000.0, 4000000.0), (-64.0, 32.0)]))
    g["xlim"], g["ylim"] = (x0, x0 + nx * d), (y0 + ny * d, y0)
    case["crs"] = draw(st.sampled_from([32606, 32633]))
    case["driver"] = driver
    case["ext"] = ext
    case["guess"] = draw(st.booleans())
    return case


@R.sub(
    format_case(),
    quick=150,
    thorough=2500,
    rule="rasters written in 8 file formats, some of which GDAL can only copy to, named "
    "or guessed from the file name; non-trivial when copied",
)
def formats(case, ctx):
    r, z = build(case)
    driver = case["driver"]
    path = tmp(case["ext"] or ".dat")
    for suffix in (".hdr", ".prj", ".sgrd", ".mgrd", ".gri", ".stx"):
        for p in (path + suffix, os.path.splitext(path)[0] + suffix):
            if os.path.exists(p):
                os.remove(p)
    if driver in ("COG", "PNG", "GIF"):
        ctx.hit(driver)
    guess = case["guess"] and driver in ("HFA", "PNG", "GIF", "SAGA")
    r.write(path, driver=None if guess else driver)
    got = osgeo.gdal.Open(path)
    check(got is not None, "file not readable", driver=driver)
    check(
        got.GetDriver().ShortName == {"COG": "GTiff"}.get(driver, driver),
        "format",
        got=got.GetDriver().ShortName,
        want=driver,
    )
    got = None
    q = Raster.open(path)
    same(np.array(q.size), [case["g"]["nx"], case["g"]["ny"]], "size", driver=driver)
    same(np.asarray(q.array), z, "values", driver=driver)
    close(q.xlim, case["g"]["xlim"], msg="xlim", driver=driver)
    close(q.ylim, case["g"]["ylim"], msg="ylim", driver=driver)
    check(q.crs is not None and srs(q.crs).GetUTMZone() == case["crs"] - 32600, "crs")


def advertised():
    """Extensions, drivers, and whether they write rasters or vectors."""
    out = []
    for i in range(osgeo.gdal.GetDriverCount()):
        d = osgeo.gdal.GetDriver(i)
        meta = d.GetMetadata()
        out.append(
            (
                d.ShortName,
                (meta.get("DMD_EXTENSIONS") or "").split(),
                bool(meta.get("DCAP_RASTER")),
                bool(meta.get("DCAP_VECTOR")),
            )
        )
    return out


ADVERTISED = advertised()
EXTENSIONS = sorted({e for row in ADVERTISED for e in row[1]})


@R.sub(
    st.tuples(
        st.one_of(st.sampled_from(EXTENSIONS), st.sampled_from(["foo", "", "tif "])),
        st.sampled_from([(), (True, True), (True, False), (False, True), (False, False)]),
        st.sampled_from([str, str.upper, str.title]),
        st.sampled_from(["a.%s", "/b/c.d/e.%s", "a.b.%s", "/tmp/x.tif/y.%s"]),
    ),
    quick=250,
    thorough=2500,
    rule="drivers guessed from file names with the extensions of all drivers, for raster "
    "or vector files or both; non-trivial when a driver is found",
)
def guessed_drivers(case, ctx):
    ext, flags, change, name = case
    path = name % change(ext)
    raster, vector = flags or (True, True)
    got = helpers.gdal_driver_from_path(path, *flags)
    if flags:
        named = helpers.gdal_driver_from_path(path, raster=raster, vector=vector)
        check((got and got.ShortName) == (named and named.ShortName), "named arguments")
    # What os.path.splitext leaves of compound extensions
    last = os.path.splitext(path)[1][1:].lower()
    fit = [
        r[0]
        for r in ADVERTISED
        if last in r[1] and ((raster and r[2]) or (vector and r[3]))
    ]
    if fit:
        ctx.hit(f"{raster} {vector}")
        check(got is not None, "no driver found", path=path, want=fit)
        check(got.ShortName in fit, "driver", got=got.ShortName, want=fit)
    else:
        check(got is None, "driver found", path=path, got=got and got.ShortName)


# ---- Rasters not yet read ----------------------------------------------------- #


def after(do, get=lambda r: (r.array, r.xlim, r.ylim, r.x, r.y)):
    def f(r, p):
        do(r, p)
        return get(r)

    return f


def target_grid(p):
    return Grid((3, 2), x=p["xlim"], y=p["ylim"])


USES = {
    "size": lambda r, p: r.size / 2,
    "shape": lambda r, p: r.shape,
    "d": lambda r, p: (r.d, r.min, r.max, r.box2d, r.box3d),
    "X": lambda r, p: (r.x, r.X, r.y, r.Y),
    "tiles": lambda r, p: [(s.start, s.stop) for t in r.tile_indices((2, 3), overlap=(1, 0)) for s in t],
    "inbounds": lambda r, p: r.inbounds(np.array([p["uv"]])),
    "snap": lambda r, p: r.snap_xy(np.array([p["xy"]]), centers=True, edges=True),
    "rowcol": lambda r, p: r.xy_to_rowcol(np.array([p["xy"]]), snap=True),
    "idx": lambda r, p: r.idx_to_rowcol(r.rowcol_to_idx(np.array([[0, 1]]))),
    "uv": lambda r, p: r.uv_to_xyz(r.xyz_to_uv(np.array([p["xy"] + (0,)]))),
    "extent": lambda r, p: r.crop_extent(p["xlim"], p["ylim"]),
    "copy": lambda r, p: after(lambda c, p: None)(r.copy(), p),
    "grid": lambda r, p: (r.grid.x, r.grid.y, r.grid.size),
    "slice": lambda r, p: after(lambda c, p: None)(r[0:2, 1:], p),
    "sample": lambda r, p: r.sample([p["xy"]]),
    "grid sample": lambda r, p: r.sample(([p["xy"][0]], [p["xy"][1]]), grid=True),
    "rasterize": lambda r, p: r.rasterize(np.array([p["xy"]]), np.array([3.0])),
    "crop": after(lambda r, p: r.crop(p["xlim"], p["ylim"])),
    "crop values": after(lambda r, p: r.crop(zlim=(0, 3))),
    "resize": after(lambda r, p: r.resize(2)),
    "shift": after(lambda r, p: r.shift(1, -2, 3)),
    "shift xy": after(lambda r, p: r.shift(1, -2)),
    "limits": after(lambda r, p: setattr(r, "xlim", p["xlim"])),
    "resample": after(lambda r, p: r.resample(target_grid(p), bounds_error=False)),
    "circle": after(lambda r, p: r.fill_circle(p["xy"], 2, 9)),
    "hillshade": lambda r, p: r.hillshade(),
    "crevasses": after(lambda r, p: r.fill_crevasses()),
    "gradient": lambda r, p: r.gradient(),
    "viewshed": lambda r, p: r.viewshed(p["xy"] + (99,)),
    "horizon": lambda r, p: [g.tolist() for g in r.horizon(p["xy"] + (1,), headings=range(0, 360, 45))],
    "zlim": lambda r, p: r.zlim,
    "box": lambda r, p: r.read((0, 0, 1, 1)),
}


@st.composite
def lazy_case(draw):
    g = draw(grids(min_n=2, max_n=6, square=True))
    fx, fy = draw(st.floats(0.05, 0.95)), draw(st.floats(0.05, 0.95))
    at = lambda lim, f: lim[0] + f * (lim[1] - lim[0])  # noqa: E731
    return {
        "g": g,
        "z": draw(cells(g["nx"], g["ny"], quarters)),
        "use": draw(st.sampled_from(sorted(USES))),
        "before": draw(st.sampled_from([None, None, "x", "Y", "d"])),
        "uv": (fx * g["nx"], fy * g["ny"]),
        "xy": (at(g["xlim"], fx), at(g["ylim"], fy)),
        "xlim": (at(g["xlim"], 0.1), at(g["xlim"], 0.4 + fx / 2)),
        "ylim": (at(g["ylim"], fy / 2), at(g["ylim"], 0.9)),
    }


@R.sub(
    lazy_case(),
    quick=300,
    thorough=5000,
    rule="each property and method of a raster opened but not yet read, against the same "
    "raster in memory; all non-trivial",
)
def unread(case, ctx):
    g, use = case["g"], USES[case["use"]]
    ctx.hit(case["use"])
    z = np.array(case["z"], float).reshape(g["ny"], g["nx"])
    path = tmp()
    Raster(z, x=g["xlim"], y=g["ylim"]).write(path)
    results = []
    for r in (Raster(z.copy(), x=g["xlim"], y=g["ylim"]), Raster.open(path)):
        if case["before"]:
            getattr(r, case["before"])
        try:
            out = use(r, case)
        except (ValueError, IndexError) as e:
            out = type(e).__name__
        results.append(out)
    want, got = results
    if isinstance(want, str) or isinstance(got, str):
        check(isinstance(got, str) and got == want, "outcome", got=got, want=want, use=case["use"])
    elif isinstance(want, tuple):
        for a, b in zip(got, want):
            close(a, b, 1e-9, 1e-9, "unread raster", use=case["use"])
    elif case["use"] == "horizon":
        check(got == want, "unread raster", got=got, want=want)
    else:
        close(got, want, 1e-9, 1e-9, "unread raster", use=case["use"])


@R.sub(
    st.tuples(st.sampled_from(sorted(USES)), st.sampled_from(["resample", "equal"])),
    quick=20,
    thorough=40,
    rule="rasters resampled onto and compared to rasters not yet read; all non-trivial",
)
def onto_unread(case, ctx):
    ctx.hit(case[1])
    path = tmp()
    z = np.arange(12.0).reshape(3, 4)
    Raster(z, x=(0, 4), y=(3, 0)).write(path)
    r = Raster(z[:, ::-1] * 2, x=(0, 4), y=(3, 0))
    if case[1] == "resample":
        r.resample(Raster.open(path))
        close(r.array, z[:, ::-1] * 2, 1e-9, 1e-9, "resampled onto the same cells")
    else:
        check(Raster(z, x=(0, 4), y=(3, 0)) == Raster.open(path), "equal")
        check(not r == Raster.open(path), "not equal")
        check(Raster.open(path) == Raster(z, x=(0, 4), y=(3, 0)), "equal")

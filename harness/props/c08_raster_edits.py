"""C08 Raster edit histories against a plain-array model."""
import datetime
import os
import warnings
from fractions import Fraction

import numpy as np
from core import Registry, check, close, raises, same, st
from gens import cells, centers, dyadic_origin, dyadic_step, grids, maybe_nan, quarters, sign

from glimpse.raster import Raster

R = Registry("C08")

NAN = float("nan")


class Model:
    def __init__(self, z, xlim, ylim, crs=None, dt=None):
        self.z = np.array(z, float)
        self.xlim, self.ylim = tuple(xlim), tuple(ylim)
        self.crs, self.dt = crs, dt

    def clone(self):
        return Model(self.z.copy(), self.xlim, self.ylim, self.crs, self.dt)

    @property
    def d(self):
        ny, nx = self.z.shape
        return (
            (self.xlim[1] - self.xlim[0]) / nx,
            (self.ylim[1] - self.ylim[0]) / ny,
        )


def agree(r, m, msg):
    ny, nx = m.z.shape
    same(np.asarray(r.array, float), m.z, msg + ": values")
    check(tuple(r.shape) == (ny, nx), msg + ": shape", got=r.shape)
    same(np.asarray(r.size), [nx, ny], msg + ": size")
    # Coordinates up to 2e7 with cells as small as 0.01
    tol = 1e-9 + 1e-15 * max(np.abs(m.xlim).max(), np.abs(m.ylim).max())
    close(r.xlim, m.xlim, 1e-15, tol, msg + ": xlim")
    close(r.ylim, m.ylim, 1e-15, tol, msg + ": ylim")
    x, y = centers(m.xlim, nx), centers(m.ylim, ny)
    close(r.d, m.d, 1e-9, tol, msg + ": d")
    close(r.x, x, 1e-12, tol, msg + ": x")
    close(r.y, y, 1e-12, tol, msg + ": y")
    close(r.X, np.tile(x, (ny, 1)), 1e-12, tol, msg + ": X")
    close(r.Y, np.tile(y, (nx, 1)).T, 1e-12, tol, msg + ": Y")
    check(r.crs == m.crs, msg + ": crs", got=r.crs, want=m.crs)
    check(r.datetime == m.dt, msg + ": datetime", got=r.datetime)
    # Values stay attached to their coordinates
    xy = np.array([(a, b) for b in y for a in x])
    same(r.sample(xy, order=0), m.z.ravel(), msg + ": values at coordinates")
    if not np.isnan(m.z).any():
        close(r.sample(xy), m.z.ravel(), 1e-9, 2e-6, msg + ": values (linear)")
        close(r.zlim, (m.z.min(), m.z.max()), 0, 0, msg + ": zlim")
        close(
            r.box3d,
            (min(m.xlim), min(m.ylim), m.z.min(), max(m.xlim), max(m.ylim), m.z.max()),
            0,
            tol,
            msg + ": box3d",
        )


op = st.one_of(
    st.tuples(
        st.just("crop"),
        st.tuples(
            *[
                st.one_of(st.none(), st.tuples(st.floats(0, 1), st.floats(0, 1)))
                for _ in range(2)
            ]
        ),
    ),
    st.tuples(st.just("zcrop"), st.tuples(quarters, quarters)),
    st.tuples(
        st.just("shift"),
        st.tuples(
            st.one_of(st.none(), dyadic_origin),
            st.one_of(st.none(), dyadic_origin),
            st.one_of(st.none(), quarters),
        ),
    ),
    st.tuples(st.just("copy"), st.booleans()),
    st.tuples(
        st.just("index"),
        st.tuples(*[st.tuples(st.floats(0, 1), st.floats(0, 1), st.sampled_from([1, 1, 2, 3, -1, -2]), st.sampled_from([None, None, 0, 1])) for _ in range(2)]),
    ),
    st.tuples(st.just("resize"), st.sampled_from([0.5, 2.0, 1.5])),
    st.tuples(
        st.just("assign"),
        st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(-9, 9), st.booleans()),
    ),
    st.tuples(st.just("xlim"), st.tuples(dyadic_origin, dyadic_step, sign)),
    st.tuples(st.just("ylim"), st.tuples(dyadic_origin, dyadic_step, sign)),
    st.tuples(st.just("todata"), st.none()),
    st.tuples(st.just("touch"), st.none()),
)


@st.composite
def history(draw):
    g = draw(grids(max_n=6))
    return {
        "g": g,
        "z": draw(cells(g["nx"], g["ny"], st.one_of(quarters, maybe_nan))),
        "how": draw(st.sampled_from(["lim", "array", "vec"])),
        "meta": draw(st.booleans()),
        "ops": draw(st.lists(op, min_size=1, max_size=8)),
    }


def span(f, n, exact):
    """Non-empty quarter-cell range from two fractions, overshooting a bit."""
    a, b = sorted(int(round(t * (4 * n + 8))) - 4 for t in f)
    a = min(a, 4 * n - 1)
    b = max(b, a + 1, 1)
    if not exact:
        # Cell edges are rounded: keep bounds off them
        a = a + 1 if a >= 0 and a % 4 == 0 else a
        b = b + 1 if b <= 4 * n and b % 4 == 0 else b
        b = max(b, a + 1)
        b = b + 1 if b <= 4 * n and b % 4 == 0 else b
    return a, b


def is_exact(lim, n):
    return Fraction(lim[1] - lim[0]) / n == Fraction((lim[1] - lim[0]) / n) and all(
        (lim[0] + k * (lim[1] - lim[0]) / n) * 64 % 1 == 0 for k in range(n + 1)
    )


@R.sub(
    history(),
    quick=2500,
    thorough=50000,
    rule="histories of crop, shift, slice, copy, resize, assignment, limit changes; "
    "non-trivial with two or more applied edits after coordinates were read",
)
def histories(case, ctx):
    g = case["g"]
    crs = "+init=epsg:32606" if case["meta"] else None
    dt = datetime.datetime(2013, 6, 1) if case["meta"] else None
    m = Model(case["z"], g["xlim"], g["ylim"], crs, dt)
    z = m.z.copy()
    xin, yin = np.array(g["xlim"]), np.array(g["ylim"])
    if case["how"] == "vec" and g["nx"] > 2 and g["ny"] > 2:
        xin, yin = centers(g["xlim"], g["nx"]), centers(g["ylim"], g["ny"])
    x0, y0 = xin.copy(), yin.copy()
    if case["how"] == "lim":
        r = Raster(z, x=g["xlim"], y=g["ylim"], crs=crs, datetime=dt)
    else:
        r = Raster(z, x=xin, y=yin, crs=crs, datetime=dt)
    agree(r, m, "built")
    others = []
    edits = 0
    for name, arg in case["ops"]:
        ny, nx = m.z.shape
        if name == "crop":
            kw = {}
            keep = [slice(None), slice(None)]
            lims = [m.xlim, m.ylim]
            for k, (f, n) in enumerate(zip(arg, (nx, ny))):
                if f is None:
                    continue
                a, b = span(f, n, is_exact(lims[k], n))
                d = m.d[k]
                lim = lims[k]
                kw["xlim" if k == 0 else "ylim"] = [
                    lim[0] + q / 4 * d for q in ((a, b) if f[0] < f[1] else (b, a))
                ]
                lo, hi = max(a, 0) // 4, -(-min(b, 4 * n) // 4)
                keep[1 - k] = slice(lo, hi)
                lims[k] = (lim[0] + lo * d, lim[0] + hi * d)
            r.crop(**kw)
            m.z = m.z[tuple(keep)]
            m.xlim, m.ylim = lims
        elif name == "zcrop":
            r.crop(zlim=arg)
            m.z = m.z.copy()
            with np.errstate(invalid="ignore"):
                m.z[(m.z < min(arg)) | (m.z > max(arg))] = NAN
        elif name == "shift":
            r.shift(*arg)
            m.xlim = tuple(v + (arg[0] or 0) for v in m.xlim)
            m.ylim = tuple(v + (arg[1] or 0) for v in m.ylim)
            m.z = m.z + (arg[2] or 0)
        elif name == "copy":
            other = r.copy()
            agree(other, m, "copy")
            check(other == r or np.isnan(m.z).any(), "copy is equal")
            check(
                not np.shares_memory(other.array, r.array), "copy shares values"
            )
            if arg:
                r, other = other, r
            others.append((other, m.clone()))
            continue
        elif name == "index":
            index, lims, picked = [], [], []
            for (a, b, step, scalar), n, lim, d in zip(
                arg, (ny, nx), (m.ylim, m.xlim), m.d[::-1]
            ):
                i = min(int(a * n), n - 1)
                if scalar is not None:
                    index.append(i - n * scalar)  # counted from start or end
                    rows = [i]
                    step = 1
                else:
                    stop = min(n, i + 1 + int(b * n))
                    if step < 0:
                        # the same cells from last to first
                        sl = slice(stop - 1, i - 1 if i else None, step)
                    else:
                        sl = slice(i, stop, step if step > 1 else None)
                    index.append(sl)
                    rows = list(range(n))[sl]
                picked.append(rows)
                c = centers(lim, n)[rows]
                lims.append((c[0] - d * step / 2, c[-1] + d * step / 2))
            old = r
            agree(old, m, "before slicing")
            others.append((old, m.clone()))
            r = old[index[0], index[1]]
            m.z = m.z[np.ix_(*picked)].copy()
            # (values may be a view: detach before further edits)
            r.array = np.array(r.array)
            m.ylim, m.xlim = lims
        elif name == "resize":
            want = [int(round(n * arg)) for n in m.z.shape]
            if min(want) < 1 or min(m.z.shape) < 2 or np.isnan(m.z).any():
                continue
            if any(abs(n * arg - w) == 0.5 for n, w in zip(m.z.shape, want)):
                continue  # rounding of half cells is not specified
            r.resize(arg)
            check(tuple(r.shape) == tuple(want), "resized shape", got=r.shape)
            z = np.array(r.array, float)
            check(
                z.min() >= m.z.min() - 1e-9 and z.max() <= m.z.max() + 1e-9,
                "resized values outside range",
            )
            if np.ptp(m.z) == 0:
                close(z, np.full(want, m.z.flat[0]), 0, 1e-9, "constant resized")
            m.z = z
        elif name == "assign":
            w, h, v, keep_shape = arg
            shape = m.z.shape if keep_shape else (h, w)
            z = (np.arange(shape[0] * shape[1]).reshape(shape) * 7 % 11 + v) / 2
            r.array = z.copy()
            m.z = z
        elif name in ("xlim", "ylim"):
            n = nx if name == "xlim" else ny
            lim = (arg[0], arg[0] + arg[1] * n)[:: arg[2]]
            setattr(r, name, lim)
            setattr(m, name, tuple(lim))
        elif name == "todata":
            valid = ~np.isnan(m.z)
            if not valid.any():
                raises(ValueError, r.data_extent, msg="no data")
                continue
            rows = np.nonzero(valid.any(axis=1))[0]
            cols = np.nonzero(valid.any(axis=0))[0]
            ext = r.data_extent()
            same(
                [ext[0].start, ext[0].stop, ext[1].start, ext[1].stop],
                [rows[0], rows[-1] + 1, cols[0], cols[-1] + 1],
                "data_extent",
            )
            r.crop_to_data()
            d = m.d
            m.z = m.z[rows[0] : rows[-1] + 1, cols[0] : cols[-1] + 1]
            m.xlim = (m.xlim[0] + cols[0] * d[0], m.xlim[0] + (cols[-1] + 1) * d[0])
            m.ylim = (m.ylim[0] + rows[0] * d[1], m.ylim[0] + (rows[-1] + 1) * d[1])
        elif name == "touch":
            r.x, r.y, r.X, r.Y, r.Zf if min(m.z.shape) > 1 else None
            continue
        edits += 1
        ctx.label(name)
        agree(r, m, f"after {name}")
    for other, om in others:
        agree(other, om, "raster copied or sliced from")
    same(xin, x0, "caller's coordinates unchanged")
    same(yin, y0, "caller's coordinates unchanged")
    if edits >= 2:
        ctx.hit()


@st.composite
def point_case(draw):
    g = draw(grids(max_n=5))
    n = draw(st.integers(1, 12))
    pts = [
        (draw(st.integers(-4, 8 * g["nx"] + 4)) / 8, draw(st.integers(-4, 8 * g["ny"] + 4)) / 8)
        for _ in range(n)
    ]
    return {
        "g": g,
        "pts": pts,
        "values": [draw(quarters) for _ in range(n)],
        "dtype": draw(st.sampled_from(["f8", "u1", "i4"])),
    }


@R.sub(
    point_case(),
    quick=1000,
    thorough=20000,
    rule="points (in, on and outside the edges) averaged into cells; non-trivial when "
    "two points share a cell",
)
def rasterized_points(case, ctx):
    g = case["g"]
    nx, ny = g["nx"], g["ny"]
    raster = Raster(np.ones((ny, nx), case["dtype"]), x=g["xlim"], y=g["ylim"])
    pts = np.array(case["pts"])
    d = ((g["xlim"][1] - g["xlim"][0]) / nx, (g["ylim"][1] - g["ylim"][0]) / ny)
    xy = np.array((g["xlim"][0], g["ylim"][0])) + pts * d
    values = np.array(case["values"])
    groups = {}
    for (u, v), z in zip(pts, values):
        if 0 <= u <= nx and 0 <= v <= ny:
            cell = (min(int(v), ny - 1), min(int(u), nx - 1))
            groups.setdefault(cell, []).append(z)
    want = np.full((ny, nx), NAN)
    for cell, zs in groups.items():
        want[cell] = sum(zs) / len(zs)
    if any(len(zs) > 1 for zs in groups.values()):
        ctx.hit("shared")
    got = raster.rasterize(xy, values)
    close(got, want, 1e-12, 1e-9, "mean of points per cell")
    same(raster.array, np.ones((ny, nx)), "raster unchanged")


@st.composite
def polygon_case(draw):
    g = draw(grids(max_n=8))

    def rect():
        a = draw(st.integers(-2, 4 * g["nx"] - 1))
        b = draw(st.integers(-2, 4 * g["ny"] - 1))
        w = draw(st.integers(1, 4 * g["nx"] + 2))
        h = draw(st.integers(1, 4 * g["ny"] + 2))
        return (a, b, a + w, b + h)

    return {
        "g": g,
        "polygons": [rect() for _ in range(draw(st.integers(1, 3)))],
        "holes": [rect() for _ in range(draw(st.integers(0, 3)))],
        "tri": draw(st.booleans()),
    }


@R.sub(
    polygon_case(),
    quick=600,
    thorough=10000,
    rule="rectangles and triangles (with holes) on rasters of every orientation; "
    "non-trivial when some but not all cells are covered",
)
def rasterized_polygons(case, ctx):
    g = case["g"]
    nx, ny = g["nx"], g["ny"]
    raster = Raster(np.zeros((ny, nx)), x=g["xlim"], y=g["ylim"])
    d = np.array(
        ((g["xlim"][1] - g["xlim"][0]) / nx, (g["ylim"][1] - g["ylim"][0]) / ny)
    )
    o = np.array((g["xlim"][0], g["ylim"][0]))
    eps = 0.03  # keeps edges off the cell centres

    def poly(rect):
        a, b, c, e = (np.array(rect) / 4 + eps).tolist()
        uv = np.array([(a, b), (c, b), (c, e), (a, e)])
        if case["tri"]:
            uv = uv[:3]
        return uv

    def inside(rect, u, v):
        a, b, c, e = (np.array(rect) / 4 + eps).tolist()
        if not (a < u < c and b < v < e):
            return False
        if case["tri"]:
            s = (u - a) / (c - a) - (v - b) / (e - b)
            if abs(s) < 1e-9:
                return None
            return s > 0
        return True

    holes = [o + poly(r) * d for r in case["holes"]] or None
    got = raster.rasterize_polygons([o + poly(r) * d for r in case["polygons"]], holes)
    check(got.shape == (ny, nx) and got.dtype == bool, "mask form", got=got)
    want = np.zeros((ny, nx))
    for i in range(ny):
        for j in range(nx):
            p = [inside(r, j + 0.5, i + 0.5) for r in case["polygons"]]
            h = [inside(r, j + 0.5, i + 0.5) for r in case["holes"]]
            if None in p or None in h:
                want[i, j] = got[i, j]
            else:
                want[i, j] = any(p) and not any(h)
    same(got.astype(float), want, "cells with centre inside", case=case)
    if 0 < want.sum() < nx * ny:
        ctx.hit("partial")


@st.composite
def circle_case(draw):
    g = draw(grids(min_n=3, max_n=14, square=True))
    return {
        "g": g,
        "cell": (draw(st.integers(-2, g["nx"] + 1)), draw(st.integers(-2, g["ny"] + 1))),
        "off": (draw(st.integers(1, 7)), draw(st.integers(1, 7))),
        "r": draw(st.integers(0, 9)),
        "dtype": draw(st.sampled_from(["float64", "float32", "int32", "int16"])),
        "sampled": draw(st.booleans()),
    }


@R.sub(
    circle_case(),
    quick=500,
    thorough=10000,
    rule="filled circles at any centre and radius; non-trivial when some but not all "
    "cells are filled",
)
def circles(case, ctx):
    g = case["g"]
    nx, ny = g["nx"], g["ny"]
    z = np.arange(nx * ny).reshape(ny, nx).astype(case["dtype"])
    raster = Raster(z.copy(), x=g["xlim"], y=g["ylim"])
    d = np.array(raster.d)
    x, y = centers(g["xlim"], nx), centers(g["ylim"], ny)
    xy = np.array([(a, b) for b in y for a in x])
    if case["sampled"]:
        close(raster.sample(xy), z.ravel(), 1e-9, 2e-6, "samples before")
    uv = np.array(case["cell"]) + np.array(case["off"]) / 8
    center = np.array((g["xlim"][0], g["ylim"][0])) + uv * d
    raster.fill_circle(center, case["r"] * abs(d[0]), value=-1)
    # Samples see the filled values
    close(raster.sample(xy), raster.array.ravel(), 1e-9, 2e-6, "samples after")
    # Circles are drawn around the centre of the cell containing the point
    jj, ii = np.meshgrid(np.arange(nx), np.arange(ny))
    # (truncation and flooring differ left of the raster: compare loosely there)
    if min(case["cell"]) < 0:
        return
    dist = np.hypot(jj - case["cell"][0], ii - case["cell"][1])
    filled = raster.array == -1
    check(filled[dist <= case["r"]].all(), "cells within the radius are filled")
    check(not filled[dist >= case["r"] + 1].any(), "cells beyond are not filled")
    same(raster.array[~filled], z[~filled], "other cells unchanged")
    if 0 < filled.sum() < filled.size:
        ctx.hit(f"r={case['r']}")


@st.composite
def gradient_case(draw):
    g = draw(grids(min_n=2, max_n=7))
    return {"g": g, "z": draw(cells(g["nx"], g["ny"], quarters))}


@R.sub(
    gradient_case(),
    quick=600,
    thorough=8000,
    rule="gradients per unit of x and y for either axis direction",
)
def gradients(case, ctx):
    g = case["g"]
    z = np.array(case["z"])
    r = Raster(z, x=g["xlim"], y=g["ylim"])
    x, y = centers(g["xlim"], g["nx"]), centers(g["ylim"], g["ny"])

    def diff(v, c):
        n = len(c)
        out = []
        for i in range(n):
            a, b = max(i - 1, 0), min(i + 1, n - 1)
            out.append((v[b] - v[a]) / (c[b] - c[a]))
        return out

    dzdx, dzdy = r.gradient()
    close(dzdx, [diff(row, x) for row in z], 1e-9, 1e-9, "dz/dx")
    close(dzdy, np.transpose([diff(col, y) for col in z.T]), 1e-9, 1e-9, "dz/dy")
    if np.ptp(z):
        ctx.hit()


@R.sub(
    st.tuples(gradient_case(), st.integers(0, 5)),
    quick=400,
    thorough=5000,
    rule="equality of rasters: same values and limits, and any single difference",
)
def equality(case, ctx):
    c, k = case
    g = c["g"]
    z = np.array(c["z"])
    a = Raster(z.copy(), x=g["xlim"], y=g["ylim"])
    b = Raster(z.copy(), x=g["xlim"], y=g["ylim"])
    check(a == b, "same values and limits are equal")
    check(a.grid == b.grid, "grids equal")
    if k == 0:
        b.shift(dx=1)
        check(a.grid != b.grid, "grids differ")
    elif k == 1:
        b.shift(dy=1)
        check(a.grid != b.grid, "grids differ")
    elif k == 2:
        b.shift(dz=1)
    elif k == 3:
        b.array[-1, -1] += 1
    elif k == 4:
        b.xlim = b.xlim[::-1]
        check(a.grid != b.grid, "grids differ")
    else:
        b.ylim = b.ylim[::-1]
        check(a.grid != b.grid, "grids differ")
    check(not (a == b), "a difference is seen", k=k)
    ctx.hit(k)


@R.sub(
    st.fixed_dictionaries(
        {
            "z": st.lists(
                st.lists(st.integers(0, 9), min_size=2, max_size=4), min_size=2, max_size=4
            ).filter(lambda z: len({len(row) for row in z}) == 1),
            "dtype": st.sampled_from(["uint8", "int16", "int32", "int64", "float32", "float64"]),
            "zlim": st.tuples(st.integers(-1, 10), st.integers(-1, 10)),
            # Values which do not fit in smaller number types
            "large": st.booleans(),
            "sampled": st.booleans(),
            "then": st.sampled_from(["uint8", "int16", "int64", "float32", "float64"]),
        }
    ),
    quick=300,
    thorough=5000,
    rule="values cropped in rasters of any number type; non-trivial when integers are "
    "outside the limits",
)
def crops_values_of_any_type(case, ctx):
    z = np.array(case["z"], dtype=case["dtype"])
    zlim = case["zlim"]
    if case["large"] and case["dtype"] in ("int32", "int64", "float64"):
        z = z * np.array(2 ** 25 + 1, z.dtype)
        zlim = [v * (2 ** 25 + 1) for v in zlim]
    r = Raster(z.copy())
    at = np.stack((r.X, r.Y), axis=-1).reshape(-1, 2)

    def samples(want, msg):
        got = r.sample(at, order=0).reshape(r.shape)
        nan = np.isnan(np.asarray(want, float))
        same(np.isnan(got), nan, msg)
        close(got[~nan], want[~nan], 1e-12, 0, msg)

    if case["sampled"]:
        samples(z, "samples before")
    lo, hi = min(zlim), max(zlim)
    out = (z < lo) | (z > hi)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r.crop(zlim=zlim)
    check(r.shape == z.shape, "shape")
    samples(np.where(out, np.nan, z), "samples after")
    if not out.any():
        check(r.array.dtype == z.dtype, "number type changed", got=r.array.dtype)
    else:
        check(np.issubdtype(r.array.dtype, np.floating), "missing values need floats")
        if z.dtype.kind != "f":
            ctx.hit(case["dtype"])
        else:
            check(r.array.dtype == z.dtype, "number type changed", got=r.array.dtype)
    same(np.isnan(r.array), out, "cells outside the limits")
    same(r.array[~out].astype(float), z[~out].astype(float), "cells inside the limits")
    # Other values, perhaps of another number type
    then = (np.arange(z.size).reshape(z.shape) * 7 % 11).astype(case["then"])
    r.array = then.copy()
    check(r.array.dtype == then.dtype, "number type of the values assigned")
    samples(then, "samples of the values assigned")


# ---- Arrays of rasters from file ---------------------------------------------- #

TMP = os.environ.get("VERIF_SCRATCH", "/tmp")


@st.composite
def file_history(draw):
    g = draw(grids(min_n=2, max_n=5))
    shape = st.tuples(st.integers(1, 6), st.integers(1, 6))
    ops = st.one_of(
        st.tuples(st.just("look"), st.sampled_from(["x", "X", "y", "Y", "d", "size", "sample"])),
        st.tuples(st.just("assign"), st.one_of(shape, st.just((g["ny"], g["nx"])))),
        st.tuples(st.just("clear")),
        st.tuples(st.just("read"), st.booleans()),
        st.tuples(st.just("limits"), dyadic_origin),
    )
    return {
        "g": g,
        "z": draw(cells(g["nx"], g["ny"], quarters)),
        "ops": draw(st.lists(ops, min_size=2, max_size=10)),
    }


@R.sub(
    file_history(),
    quick=300,
    thorough=5000,
    rule="arrays of any size assigned to rasters opened from file and dropped again; "
    "non-trivial when the size changed",
)
def arrays_of_files(case, ctx):
    g = case["g"]
    z = np.array(case["z"], float).reshape(g["ny"], g["nx"])
    path = os.path.join(TMP, "arrays_of_files.tif")
    if os.path.exists(path):
        os.remove(path)
    Raster(z, x=g["xlim"], y=g["ylim"]).write(path)
    r = Raster.open(path)
    now, xlim, ylim = z, tuple(g["xlim"]), tuple(g["ylim"])
    for op in case["ops"]:
        if op[0] == "assign":
            now = np.arange(float(np.prod(op[1]))).reshape(op[1])
            r.array = now.copy()
        elif op[0] == "clear":
            r.array = None
            now = z
        elif op[0] == "read":
            same(np.asarray(r.read(cache=op[1])), now, "read")
        elif op[0] == "limits":
            xlim = tuple(v + op[1] for v in xlim)
            r.xlim = xlim
        elif op[1] == "sample":
            at = np.column_stack((r.x[[0, -1]], r.y[[-1, 0]]))
            close(
                r.sample(at), [now[-1, 0], now[0, -1]], 1e-9, 1e-9, "samples", history=case["ops"]
            )
        else:
            getattr(r, op[1])
        if now.shape != z.shape:
            ctx.hit()
        want = Raster(now, x=xlim, y=ylim)
        if op[0] == "look":
            for key in ("size", "d", "x", "y", "X", "Y"):
                close(getattr(r, key), getattr(want, key), 1e-9, 1e-9, key, history=case["ops"])
    same(np.asarray(r.array), now, "values")
    for key in ("size", "d", "x", "y", "X", "Y"):
        close(getattr(r, key), getattr(want, key), 1e-9, 1e-9, key, history=case["ops"])

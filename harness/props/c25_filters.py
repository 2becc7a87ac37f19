"""C25 Array filters, distributions and masks."""
import itertools
import math
from fractions import Fraction

import numpy as np
from core import Registry, check, close, raises, same, st
from gens import finite

from glimpse import Raster, helpers

R = Registry("C25")

MODES = ["reflect", "nearest", "mirror", "wrap"]


def index(i, n, mode):
    """Index of the cell that stands for cell i of an axis of length n."""
    if 0 <= i < n:
        return i
    if mode == "nearest":
        return min(max(i, 0), n - 1)
    if mode == "wrap":
        return i % n
    if mode == "reflect":
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if n == 1:
        return 0
    i %= 2 * n - 2
    return i if i < n else 2 * n - 2 - i


@st.composite
def arrays(draw, max_n=7):
    ndim = draw(st.sampled_from([2, 2, 2, 1, 3]))
    shape = [draw(st.integers(1, max_n if ndim < 3 else 4)) for _ in range(ndim)]
    n = math.prod(shape)
    dtype = draw(st.sampled_from(["f8", "f8", "f4", "i4", "u1", "i2"]))
    values = draw(st.lists(st.integers(0, 100), min_size=n, max_size=n))
    if dtype != "u1":
        values = [v - 50 for v in values]
    if dtype in ("f8", "f4"):
        values = [v / 4 for v in values]
    scale = draw(st.sampled_from([1, 1, 1, 1e9])) if dtype in ("f8", "f4") else 1
    values = [v * scale for v in values]
    p = draw(st.sampled_from([1, 2, 5]))
    mask = [v > 0 for v in draw(st.lists(st.integers(0, p), min_size=n, max_size=n))]
    nan = dtype in ("f8", "f4") and draw(st.booleans())
    return {
        "shape": tuple(shape),
        "dtype": dtype,
        "values": values,
        "mask": mask if draw(st.integers(0, 5)) else None,
        "nan": nan,
        "fill": draw(st.booleans()),
        "mode": draw(st.sampled_from(MODES)),
    }


def build(c):
    a = np.array(c["values"], dtype=c["dtype"]).reshape(c["shape"])
    mask = None
    if c["mask"] is not None:
        mask = np.array(c["mask"]).reshape(c["shape"])
        if c["nan"]:
            a[~mask] = np.nan
    return a, mask


def neighbors(shape, at, offsets, mode):
    """Index and position of each neighbor of a cell."""
    for offset in itertools.product(*offsets):
        yield (
            tuple(index(i + o, n, mode) for i, o, n in zip(at, offset, shape)),
            offset,
        )


# ---- Filters ---- #


@st.composite
def gaussians(draw):
    c = draw(arrays())
    ndim = len(c["shape"])
    c["sigma"] = draw(
        st.one_of(
            finite(0.3, 2.5), st.lists(finite(0.3, 2.5), min_size=ndim, max_size=ndim)
        )
    )
    c["truncate"] = draw(st.sampled_from([None, 1.0, 2.0]))
    return c


@R.sub(
    gaussians(),
    quick=300,
    thorough=5000,
    rule="arrays of 1 to 3 dimensions, masks, kernels; non-trivial if some cells are excluded",
)
def gaussian_weighs_included_cells(c, ctx):
    a, mask = build(c)
    kwargs = {"sigma": c["sigma"], "mode": c["mode"]}
    if c["truncate"]:
        kwargs["truncate"] = c["truncate"]
    before = a.copy(), None if mask is None else mask.copy()
    with np.errstate(all="ignore"):
        got = helpers.gaussian_filter(
            a if mask is not None else a.astype(float), mask=mask, fill=c["fill"], **kwargs
        )
    same(a, before[0], msg="input changed")
    check(got.shape == a.shape, "shape")
    if mask is not None:
        same(mask, before[1], msg="mask changed")
        check(np.issubdtype(got.dtype, np.floating), "floating point", dtype=got.dtype)
    sigmas = np.broadcast_to(c["sigma"], (a.ndim,))
    radii = [int((c["truncate"] or 4) * s + 0.5) for s in sigmas]
    kernels = []
    for s, r in zip(sigmas, radii):
        k = np.exp(-0.5 * (np.arange(-r, r + 1) / s) ** 2)
        kernels.append(k / k.sum())
    # Every axis is a matrix of the weight of each cell in each other cell
    weights = []
    for n, k, r in zip(a.shape, kernels, radii):
        w = np.zeros((n, n))
        for i in range(n):
            for o in range(-r, r + 1):
                w[i, index(i + o, n, c["mode"])] += k[o + r]
        weights.append(w)

    def blur(x):
        for axis, w in enumerate(weights):
            x = np.moveaxis(np.tensordot(w, x, axes=(1, axis)), 0, axis)
        return x

    included = np.ones(a.shape, bool) if mask is None else mask
    total = blur(included.astype(float))
    value = blur(np.where(included, a, 0).astype(float))
    tol = 2e-5 if c["dtype"] == "f4" else 1e-9
    for at in np.ndindex(*a.shape):
        if not included[at] and not c["fill"]:
            same(got[at], a[at].astype(float), msg="excluded cell kept", at=at)
        elif total[at] > 1e-6:
            w = value[at] / total[at]
            close(got[at], w, rtol=tol, atol=tol * 50, msg="mean of included cells", at=at)
    if mask is not None and mask.any() and not mask.all():
        ctx.hit(c["mode"], "fill" if c["fill"] else "keep", c["dtype"])
        # Excluded values do not matter
        other = a.copy()
        other[~mask] = 7
        with np.errstate(all="ignore"):
            again = helpers.gaussian_filter(other, mask=mask, fill=c["fill"], **kwargs)
        same(again[mask], got[mask], msg="depends on excluded values")


@st.composite
def maxima(draw):
    c = draw(arrays())
    c["dtype"] = draw(st.sampled_from([c["dtype"]] * 3 + ["?"])) if not c["nan"] else c["dtype"]
    ndim = len(c["shape"])
    if c["dtype"] != "u1" and draw(st.integers(0, 3)) == 0:
        # Nothing but great negative values
        big = {"i2": 32000, "i4": 2 * 10**9}.get(c["dtype"], 1e15)
        c["values"] = [-abs(v) - big for v in c["values"]]
    odd = st.sampled_from([1, 3, 5])
    c["size"] = draw(st.one_of(odd, st.lists(odd, min_size=ndim, max_size=ndim).map(tuple)))
    if ndim == 2 and draw(st.integers(0, 3)) == 0:
        foot = draw(st.lists(st.booleans(), min_size=9, max_size=9))
        foot[4] = True
        c["footprint"] = foot
    return c


@R.sub(
    maxima(),
    quick=400,
    thorough=8000,
    rule="arrays of 1 to 3 dimensions, masks, windows; non-trivial if some cells are excluded",
)
def maximum_of_included_cells(c, ctx):
    a, mask = build(c)
    if "footprint" in c:
        foot = np.array(c["footprint"]).reshape(3, 3)
        kwargs = {"footprint": foot}
        offsets = [range(-1, 2)] * 2
    else:
        size = np.broadcast_to(c["size"], (a.ndim,))
        kwargs = {"size": c["size"]}
        offsets = [range(-(s // 2), s // 2 + 1) for s in size]
        foot = np.ones([len(o) for o in offsets], bool)
    kwargs["mode"] = c["mode"]
    before = a.copy()
    got = helpers.maximum_filter(a, mask=mask, fill=c["fill"], **kwargs)
    same(a, before, msg="input changed")
    check(got.shape == a.shape and got.dtype == a.dtype, "form", dtype=got.dtype)
    included = np.ones(a.shape, bool) if mask is None else mask
    for at in np.ndindex(*a.shape):
        near = [
            a[i]
            for i, o in neighbors(a.shape, at, offsets, c["mode"])
            if included[i] and foot[tuple(x + len(r) // 2 for x, r in zip(o, offsets))]
        ]
        want = max(near) if near and (included[at] or c["fill"]) else a[at]
        same(got[at], want, msg="maximum of included cells", at=at, mask=mask)
    if mask is not None and mask.any() and not mask.all():
        ctx.hit(c["mode"], "fill" if c["fill"] else "keep", c["dtype"])
    lo, hi = helpers.numpy_dtype_minmax(a.dtype)
    if a.dtype == bool:
        check((lo, hi) == (False, True), "boolean limits")
    else:
        check(lo <= np.nanmin(a, initial=0) and np.nanmax(a, initial=0) <= hi, "limits")
        info = np.finfo if c["dtype"][0] == "f" else np.iinfo
        check((lo, hi) == (info(c["dtype"]).min, info(c["dtype"]).max), "limits")
    raises(ValueError, helpers.numpy_dtype_minmax, np.dtype("U1"), msg="limits of text")


# ---- Distributions ---- #


@st.composite
def samples(draw, values=None):
    shape = draw(st.sampled_from([(1,), (5,), (2, 3), (4, 4), (3, 2, 2), (30,)]))
    n = math.prod(shape)
    dtype = draw(st.sampled_from(["f8", "i4", "u1", "f4"]))
    top = draw(st.sampled_from([1, 3, 10, 200]))
    v = draw(st.lists(st.integers(0, top), min_size=n, max_size=n))
    tile = draw(st.sampled_from([1] * 29 + [20]))
    return {"shape": shape, "dtype": dtype, "values": v, "tile": tile}


def sample(c):
    a = np.array(c["values"], dtype=c["dtype"]).reshape(c["shape"])
    return np.tile(a, c["tile"])


@R.sub(
    st.fixed_dictionaries(
        {"a": samples(), "b": samples(), "gain": finite(0.1, 20), "bias": finite(-50, 50)}
    ),
    quick=600,
    thorough=12000,
    rule="pairs of arrays; non-trivial if values repeat and the arrays differ in size",
)
def distributions_match(c, ctx):
    a, b = sample(c["a"]), sample(c["b"])
    before = a.copy()
    values, quantiles, inverse = helpers.compute_cdf(a, return_inverse=True)
    two = helpers.compute_cdf(a)
    check(len(two) == 2, "form without inverse")
    same(two[0], values)
    same(two[1], quantiles)
    flat = sorted(a.ravel().tolist())
    check(values.tolist() == sorted(set(flat)), "sorted unique values", got=values)
    for v, q in zip(values, quantiles):
        close(q, sum(x <= v for x in flat) / len(flat), msg="probability of at most v", v=v)
    same(values[np.asarray(inverse).ravel()].reshape(a.shape), a, msg="inverse")
    # Matching
    got = helpers.match_cdf(a, b)
    check(got.shape == a.shape, "shape")
    same(got, helpers.match_cdf(a, helpers.compute_cdf(b)), msg="array or distribution")
    target = sorted(b.ravel().tolist())
    n, m = len(flat), len(target)
    steps = sorted(set(target))
    probs = [Fraction(sum(x <= v for x in target), m) for v in steps]
    for at in np.ndindex(*a.shape):
        q = Fraction(sum(x <= a[at] for x in flat), n)
        if q <= probs[0]:
            want = float(steps[0])
        else:
            k = next(i for i, p in enumerate(probs) if q <= p)
            f = (q - probs[k - 1]) / (probs[k] - probs[k - 1])
            want = float(steps[k - 1] + f * Fraction(steps[k] - steps[k - 1]))
        close(got[at], want, msg="value of the same rank", at=at)
    order = np.argsort(a, axis=None, kind="stable")
    check((np.diff(got.ravel()[order]) >= -1e-9).all(), "order kept")
    check(got.min() >= target[0] - 1e-9 and got.max() <= target[-1] + 1e-9, "range of target")
    close(helpers.match_cdf(a, a), a, msg="matches itself")
    close(helpers.match_cdf(a.astype(float) * c["gain"] + c["bias"], b), got, msg="any scale")
    same(a, before, msg="input changed")
    if len(values) < a.size and n != m:
        ctx.hit("repeats")


@R.sub(
    st.fixed_dictionaries(
        {"a": samples(), "gain": finite(0.1, 20), "bias": finite(-50, 50)}
    ),
    quick=400,
    thorough=8000,
    rule="arrays; non-trivial if not constant",
)
def normalizes(c, ctx):
    a = sample(c["a"])
    if a.min() == a.max():
        return
    ctx.hit("dims%d" % a.ndim, c["a"]["dtype"])
    before = a.copy()
    got = helpers.normalize(a)
    same(a, before, msg="input changed")
    x = a.astype(float)
    mean = math.fsum(x.ravel()) / x.size
    std = math.sqrt(math.fsum((v - mean) ** 2 for v in x.ravel()) / x.size)
    tol = 1e-4 if c["a"]["dtype"] == "f4" else 1e-9
    close(got, (x - mean) / std, rtol=tol, atol=tol, msg="mean 0, variance 1")
    close(helpers.normalize(x * c["gain"] + c["bias"]), (x - mean) / std, 1e-7, 1e-7, "any scale")


# ---- Rasterization ---- #


@st.composite
def points(draw):
    ny, nx = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    n = draw(st.integers(1, 15))
    depth = draw(st.sampled_from([None, 1, 2, 3]))
    one = st.integers(-40, 40).map(lambda i: i / 4)
    value = one if depth is None else st.lists(one, min_size=depth, max_size=depth)
    return {
        "shape": (ny, nx),
        "rows": draw(st.lists(st.integers(0, ny - 1), min_size=n, max_size=n)),
        "cols": draw(st.lists(st.integers(0, nx - 1), min_size=n, max_size=n)),
        "values": draw(st.lists(value, min_size=n, max_size=n)),
        "depth": depth,
        "make": draw(st.sampled_from([list, tuple, np.array])),
        "background": draw(st.sampled_from([float("nan"), 0.0, -7.0])),
        "third": draw(st.booleans()),
    }


@R.sub(
    points(),
    quick=600,
    thorough=12000,
    rule="points on a grid; non-trivial if points share a cell",
)
def cells_hold_means_of_points(c, ctx):
    make = c["make"]
    rows, cols, values = make(c["rows"]), make(c["cols"]), make(c["values"])
    cells = {}
    for r, k, v in zip(c["rows"], c["cols"], c["values"]):
        cells.setdefault((r, k), []).append(v)
    means = {at: np.mean(v, axis=0) for at, v in cells.items()}
    if len(cells) < len(c["rows"]):
        ctx.hit("depth%s" % c["depth"])
    got = helpers.rasterize_points(rows, cols, values, shape=c["shape"])
    order = sorted(means, key=lambda at: at[0] * c["shape"][1] + at[1])
    same(got[0], np.array([r * c["shape"][1] + k for r, k in order]), msg="flat indices")
    close(np.squeeze(got[1]), np.squeeze([means[at] for at in order]), msg="means")
    check(len(got[1]) == len(order), "one mean for each index")
    # In place
    depth = c["depth"]
    shape = c["shape"]
    if depth is not None and depth > 1 or c["third"]:
        shape = (*shape, depth or 1)
    a = np.full(shape, c["background"])
    want = a.copy()
    for at, v in means.items():
        want[at] = np.squeeze(v) if len(shape) == 2 else v
    result = helpers.rasterize_points(rows, cols, values, a=a)
    check(result is None, "returns nothing in place", got=result)
    close(a, want, msg="array of means")
    # Any order
    a = np.full(shape, c["background"])
    helpers.rasterize_points(c["rows"][::-1], c["cols"][::-1], c["values"][::-1], a=a)
    close(a, want, msg="array of means in any order")
    for axis in (0, 1):
        bad = [c["rows"] + [0], c["cols"] + [0]]
        bad[axis][-1] = c["shape"][axis]
        raises(
            ValueError,
            helpers.rasterize_points,
            *bad,
            [*c["values"], c["values"][0]],
            shape=c["shape"],
            msg="point outside the array",
        )


@st.composite
def shapes(draw):
    vertex = st.tuples(st.integers(-8, 44), st.integers(-8, 44))

    @st.composite
    def polygon(draw):
        if draw(st.booleans()):
            x0, y0 = draw(vertex)
            w, h = draw(st.integers(1, 30)), draw(st.integers(1, 30))
            return [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]
        return draw(st.lists(vertex, min_size=3, max_size=7))

    return {
        "polygons": draw(st.lists(polygon(), min_size=0, max_size=5)),
        "holes": draw(st.one_of(st.none(), st.lists(polygon(), max_size=4))),
        "size": (draw(st.integers(1, 9)), draw(st.integers(1, 9))),
        "closed": draw(st.booleans()),
        "kind": draw(st.sampled_from(["tuple", "list", "array", "ints"])),
    }


def inside(polygon, x, y):
    """Whether a point is inside a polygon (None if near the edge)."""
    odd = False
    for (x0, y0), (x1, y1) in zip(polygon, polygon[1:] + polygon[:1]):
        cross = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
        if cross == 0 and min(x0, x1) <= x <= max(x0, x1) and min(y0, y1) <= y <= max(y0, y1):
            return None
        if (y0 > y) != (y1 > y):
            if x < x0 + (x1 - x0) * Fraction(y - y0, y1 - y0):
                odd = not odd
    return odd


@R.sub(
    shapes(),
    quick=400,
    thorough=8000,
    rule="polygons and holes (any shape, also self-crossing); non-trivial if some cells are in and some out",
)
def cells_with_center_in_polygon(c, ctx):
    # Vertices are on multiples of 1/4 (or 1), cell centers on multiples of 1/2
    unit = 1 if c["kind"] == "ints" else 4

    def make(p):
        p = p + p[:1] if c["closed"] else p
        if c["kind"] == "ints":
            return np.array(p)
        p = [(x / 4, y / 4) for x, y in p]
        return {"tuple": tuple, "list": list, "array": np.array}[c["kind"]](p)

    nx, ny = c["size"]
    holes = None if c["holes"] is None else [make(p) for p in c["holes"]]
    if holes and len({len(h) for h in holes}) == 1 and c["kind"] in ("array", "ints"):
        holes = np.array(holes)
    got = helpers.polygons_to_mask([make(p) for p in c["polygons"]], c["size"], holes)
    check(got.shape == (ny, nx) and got.dtype == bool, "form", got=got)
    for i in range(ny):
        for j in range(nx):
            x, y = 2 * j + 1, 2 * i + 1  # halves

            def test(p):
                p = [(Fraction(2 * a, unit), Fraction(2 * b, unit)) for a, b in p]
                return inside(p, Fraction(x), Fraction(y))

            ins = [test(p) for p in c["polygons"]]
            outs = [test(p) for p in c["holes"] or []]
            if None in ins or None in outs:
                continue
            check(
                got[i, j] == (any(ins) and not any(outs)), "cell centre in polygon", at=(i, j)
            )
    if got.any() and not got.all():
        ctx.hit(c["kind"], "holes" if c["holes"] else "no holes")


# ---- Both filters on a raster ---- #


def blur(x, sigma, truncate=4.0, mode="reflect"):
    """Weighted sum of the cells around each cell."""
    r = int(truncate * sigma + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / sigma) ** 2)
    k /= k.sum()
    for axis, n in enumerate(x.shape):
        w = np.zeros((n, n))
        for i in range(n):
            for o in range(-r, r + 1):
                w[i, index(i + o, n, mode)] += k[o + r]
        x = np.moveaxis(np.tensordot(w, x, axes=(1, axis)), 0, axis)
    return x


@st.composite
def crevassed(draw):
    nx, ny = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    return {
        "z": draw(st.lists(st.lists(st.integers(-40, 40), min_size=nx, max_size=nx), min_size=ny, max_size=ny)),
        "mask": draw(st.sampled_from(["none", "array", "array", "callable", "low"])),
        "holes": draw(st.lists(st.tuples(st.integers(0, ny - 1), st.integers(0, nx - 1)), max_size=6)),
        "nan": draw(st.booleans()),
        "fill": draw(st.sampled_from([None, False, True])),
        "size": draw(st.sampled_from([None, 1, 3, 5])),
        "sigma": draw(st.sampled_from([None, 0.5, 1.0, 2.0])),
        "mode": draw(st.sampled_from([None, None, "nearest"])),
    }


@R.sub(
    crevassed(),
    quick=300,
    thorough=6000,
    rule="rasters with crevasses filled, any mask, window and width; non-trivial if some cells are "
    "excluded",
)
def crevasses_are_filled(c, ctx):
    z = np.array(c["z"], dtype=float) / 4
    mask = np.ones(z.shape, bool)
    kwargs = {}
    if c["mask"] in ("array", "callable"):
        for i, j in c["holes"]:
            mask[i, j] = False
        if c["nan"]:
            z[~mask] = np.nan
        kwargs["mask"] = mask.copy()
        if c["mask"] == "callable":
            known = z.copy()
            given = []

            def choose(a):
                given.append(a.copy())
                return ~np.isnan(a) if c["nan"] else mask.copy()

            kwargs["mask"] = choose
    elif c["mask"] == "low":
        mask = z > -5
        kwargs["mask"] = lambda a: a > -5
    if not mask.any():
        return
    if c["fill"] is not None:
        kwargs["fill"] = c["fill"]
    size, sigma, mode = c["size"], c["sigma"], c["mode"] or "reflect"
    if size or c["mode"]:
        kwargs["maximum"] = {"size": size or 5, **({"mode": mode} if c["mode"] else {})}
    if sigma or c["mode"]:
        kwargs["gaussian"] = {"sigma": sigma or 5, **({"mode": mode} if c["mode"] else {})}
    r = Raster(z.copy(), x=(0, z.shape[1]), y=(z.shape[0], 0))
    with np.errstate(all="ignore"):
        r.fill_crevasses(**kwargs)
    check(r.shape == z.shape, "shape", got=r.shape)
    same(r.xlim, (0, z.shape[1]), msg="limits")
    if c["mask"] == "callable":
        check(len(given) == 1, "the mask is made once")
        same(given[0], known, msg="the mask is made from the values")
    # The greatest included cell around each cell, then their weighted mean
    half = (size or 5) // 2
    top = z.copy()
    for at in np.ndindex(*z.shape):
        near = [z[i] for i, _ in neighbors(z.shape, at, [range(-half, half + 1)] * 2, mode) if mask[i]]
        if near and mask[at]:
            top[at] = max(near)
    total = blur(mask.astype(float), sigma or 5.0, mode=mode)
    value = blur(np.where(mask, top, 0), sigma or 5.0, mode=mode)
    sure = total > 1e-6
    if c["fill"]:
        got, want = r.array[sure], (value[sure] / total[sure])
        close(got, want, rtol=1e-9, atol=1e-7, msg="filled")
    else:
        close(r.array[mask], value[mask] / total[mask], rtol=1e-9, atol=1e-7, msg="smoothed")
        same(r.array[~mask], z[~mask], msg="excluded cells kept")
    if not mask.all():
        ctx.hit(c["mask"], "fill" if c["fill"] else "keep")

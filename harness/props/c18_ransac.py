"""C18 RANSAC: samples, consensus, and the polynomial model."""
import itertools
import math

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from core import Registry, check, close, raises, st
from gens import finite

import glimpse
from glimpse.optimize import Cameras, Points, Polynomial, ransac

matplotlib.use("agg")
R = Registry("C18")


class Recorder:
    """Model which records the samples it is fitted to."""

    def __init__(self, size, errors=None, none=()):
        self.size, self.calls, self.kwargs = size, [], []
        self.table, self.none = errors, none

    def fit(self, index, **kwargs):
        self.calls.append(tuple(int(i) for i in index))
        self.kwargs.append(kwargs)
        if len(self.calls) in self.none:
            return None
        return np.array([len(self.calls)])

    def errors(self, params, index=slice(None)):
        return np.full(self.size, 1.0)[index] if self.table is None else self.table[index]


@R.sub(
    st.fixed_dictionaries(
        {
            "size": st.integers(2, 9),
            "n": st.integers(1, 9),
            "iterations": st.one_of(st.integers(1, 20), st.sampled_from([100, 200])),
            "seed": st.integers(0, 2**31),
        }
    ),
    quick=400,
    thorough=8000,
    rule="sample sizes and numbers of iterations; non-trivial if fewer samples are drawn than "
    "there are",
)
def samples_are_distinct(c, ctx):
    size, n = c["size"], c["n"]
    model = Recorder(size)
    np.random.seed(c["seed"])
    raises(
        ValueError, ransac, model, n=n, max_error=0.5, min_inliers=0, iterations=c["iterations"],
        msg="no consensus" if n < size else "sample as large as the data",
    )
    if n >= size:
        check(not model.calls, "nothing is fitted")
        return
    total = math.comb(size, n)
    want = min(total, c["iterations"])
    if want < total:
        ctx.hit("n%d" % n)
    check(len(model.calls) == want, "number of samples", got=len(model.calls), want=want)
    for call in model.calls:
        check(len(call) == len(set(call)) == n, "size of samples", got=call)
        check(all(0 <= i < size for i in call), "range of samples", got=call)
    check(len({frozenset(x) for x in model.calls}) == want, "samples are not repeated")


@R.sub(
    st.fixed_dictionaries({"size": st.integers(3, 6), "seed": st.integers(0, 2**31)}),
    quick=6,
    thorough=60,
    rule="frequency of members in the first samples; always non-trivial",
)
def samples_are_even(c, ctx):
    ctx.hit("size%d" % c["size"])
    np.random.seed(c["seed"])
    counts = np.zeros(c["size"])
    runs = 1500
    for _ in range(runs):
        model = Recorder(c["size"])
        raises(ValueError, ransac, model, n=2, max_error=0.5, min_inliers=0, iterations=1, msg="")
        counts[list(model.calls[0])] += 1
    p = 2 / c["size"]
    z = (counts / runs - p) / np.sqrt(p * (1 - p) / runs)
    check(np.abs(z).max() < 6, "all members are as likely", got=counts)


@st.composite
def clouds(draw):
    deg = draw(st.integers(0, 2))
    size = draw(st.integers(deg + 3, 9))
    xs = draw(st.lists(st.integers(-8, 8), min_size=size, max_size=size, unique=True))
    ys = draw(st.lists(finite(-4, 4), min_size=size, max_size=size))
    return {
        "deg": deg,
        "xy": [(float(x), y) for x, y in zip(xs, ys)],
        "n": draw(st.integers(deg + 1, min(deg + 2, size - 1))),
        "max_error": draw(finite(0.05, 4)),
        "min_inliers": draw(st.integers(0, 4)),
        "seed": draw(st.integers(0, 2**31)),
    }


def lstsq(xy, deg, index):
    xy = np.asarray(xy, dtype=float)[np.asarray(index, dtype=int)]
    return np.linalg.lstsq(np.vander(xy[:, 0], deg + 1), xy[:, 1], rcond=None)[0]


def residuals(xy, params):
    xy = np.asarray(xy, dtype=float)
    y = sum(p * xy[:, 0] ** (len(params) - 1 - i) for i, p in enumerate(params))
    return np.abs(y - xy[:, 1])


@R.sub(
    clouds(),
    quick=500,
    thorough=12000,
    rule="all samples of points and polynomials; non-trivial if some samples have a consensus "
    "and some do not",
)
def finds_the_best_consensus(c, ctx):
    """Differential: exhaustive search over all samples."""
    xy, deg, n, max_error = c["xy"], c["deg"], c["n"], c["max_error"]
    size = len(xy)
    # Whether exactly `min_inliers` more points are enough is not stated
    strict, loose, refused = [], [], 0
    for sample in itertools.combinations(range(size), n):
        e = residuals(xy, lstsq(xy, deg, sample))
        rest = [i for i in range(size) if i not in sample]
        if (np.abs(e[rest] - max_error) < 1e-9).any():
            ctx.label("borderline")
            return
        also = [i for i in rest if e[i] < max_error]
        if len(also) >= c["min_inliers"] and also:
            better = [*sample, *also]
            params = lstsq(xy, deg, better)
            option = (residuals(xy, params)[better].mean(), params)
            loose.append(option)
            if len(also) > c["min_inliers"]:
                strict.append(option)
        else:
            refused += 1
    model = Polynomial(xy, deg=deg) if deg != 1 else Polynomial(xy)
    np.random.seed(c["seed"])
    kwargs = dict(n=n, max_error=max_error, min_inliers=c["min_inliers"], iterations=1000)
    if not loose:
        raises(ValueError, ransac, model, **kwargs, msg="no consensus")
        return
    try:
        params, inliers = ransac(model, **kwargs)
    except ValueError:
        check(not strict, "consensus is found")
        return
    if refused and strict:
        ctx.hit("deg%d" % deg, "n%d" % (n - deg - 1))
    near = []
    for options in (strict, loose):
        best = min((x for x, _ in options), default=0)
        near += [p for x, p in options if x <= best + 1e-9]
    check(any(np.allclose(p, params, rtol=1e-6, atol=1e-6) for p in near), "best consensus",
          got=params, want=near)
    e = residuals(xy, params)
    sure = np.abs(e - max_error) > 1e-9
    got = np.zeros(size, dtype=bool)
    got[inliers] = True
    check(len(set(inliers)) == len(inliers), "inliers are not repeated")
    check((got[sure] == (e < max_error)[sure]).all(), "all inliers", got=inliers)


@st.composite
def outliers(draw):
    deg = draw(st.integers(1, 2))
    good = draw(st.integers(deg + 4, 12))
    bad = draw(st.integers(1, good // 2))
    xs = draw(st.lists(st.integers(-20, 20), min_size=good + bad, max_size=good + bad, unique=True))
    where = draw(st.permutations(range(good + bad)))
    return {
        "deg": deg,
        "xs": xs,
        "bad": sorted(where[:bad]),
        "params": [draw(st.integers(-3, 3)) for _ in range(deg + 1)],
        "off": [draw(st.one_of(finite(5, 900), finite(-900, -5))) for _ in range(bad)],
        "noise": [draw(finite(-0.01, 0.01)) for _ in range(good + bad)],
        "seed": draw(st.integers(0, 2**31)),
    }


@R.sub(
    outliers(),
    quick=300,
    thorough=6000,
    rule="points on a polynomial with outliers; always non-trivial",
)
def outliers_are_left_out(c, ctx):
    x = np.array(c["xs"], float)
    y = np.polyval(c["params"], x) + c["noise"]
    y[c["bad"]] += c["off"]
    size, n = len(x), c["deg"] + 1
    good = np.delete(np.arange(size), c["bad"])
    # Outliers may agree on another polynomial only with a minority
    ctx.hit("deg%d" % c["deg"], "bad%d" % min(len(c["bad"]), 4))
    np.random.seed(c["seed"])
    # Tolerance covers noise amplified by nearby samples
    params, inliers = ransac(
        Polynomial(np.column_stack((x, y)), deg=c["deg"]), n=n, max_error=0.5,
        min_inliers=len(good) - n - 1, iterations=math.comb(size, n),
    )
    found = set(int(i) for i in inliers)
    check(set(good) <= found, "points on the polynomial are inliers", got=inliers, want=good)
    check(len(found - set(good)) <= 1, "outliers are left out", got=inliers, want=good)
    got = np.polyval(params, x[good])
    check(np.abs(got - np.polyval(c["params"], x[good])).max() < 0.5, "polynomial", got=params)


@R.sub(
    st.fixed_dictionaries(
        {
            "size": st.integers(3, 7),
            "none": st.sets(st.integers(1, 14), max_size=8),
            "errors": st.lists(st.integers(0, 4), min_size=7, max_size=7),
            "kwargs": st.sampled_from([{}, {"method": "x"}, {"a": 1, "b": 2}]),
            "seed": st.integers(0, 2**31),
        }
    ),
    quick=300,
    thorough=6000,
    rule="models that cannot always be fitted; non-trivial if some fits fail",
)
def failed_fits_are_skipped(c, ctx):
    size = c["size"]
    model = Recorder(size, errors=np.array(c["errors"][:size]) + 0.25, none=c["none"])
    np.random.seed(c["seed"])
    try:
        params, inliers = ransac(model, n=1, max_error=2, min_inliers=0, iterations=50, **c["kwargs"])
    except ValueError:
        params = None
    samples = [x for x in model.calls if len(x) == 1]
    check(len(samples) == size, "all samples are tried")
    check(all(k == c["kwargs"] for k in model.kwargs), "arguments for fitting")
    good = [i for i in range(size) if c["errors"][i] < 2]
    # Refits follow the samples that can be fitted and have a consensus
    best, want = np.inf, None
    i = 0
    order = []
    while i < len(model.calls):
        sample = model.calls[i]
        check(len(sample) == 1, "samples and refits")
        i += 1
        if i in c["none"]:
            ctx.hit("failed sample")
            continue
        also = [k for k in good if k != sample[0]]
        if not also:
            continue
        check(i < len(model.calls), "consensus is fitted again")
        refit = model.calls[i]
        check(set(refit) == {sample[0], *also} and len(refit) == len(also) + 1, "consensus", got=refit)
        i += 1
        if i in c["none"]:
            ctx.hit("failed consensus")
            continue
        e = np.mean([c["errors"][k] + 0.25 for k in refit])
        order.append((e, i))
        if e < best - 1e-12:
            best, want = e, i
    if want is None:
        check(params is None, "nothing to return")
        return
    check(params is not None, "best fit is returned")
    near = [k for e, k in order if e <= best + 1e-9]
    check(int(params[0]) in near, "best fit is returned", got=params, want=near)
    check(list(inliers) == good, "inliers of the best fit", got=inliers, want=good)


@R.sub(
    clouds(),
    quick=300,
    thorough=6000,
    rule="polynomials and selected points; non-trivial for a selection",
)
def polynomials_are_least_squares(c, ctx):
    xy, deg = np.array(c["xy"]), c["deg"]
    size = len(xy)
    rng = np.random.default_rng(c["seed"])
    index = rng.permutation(size)[: max(c["n"], deg + 1)]
    kind = c["seed"] % 4
    index = [slice(None), index, list(index), slice(0, max(c["n"], deg + 1))][kind]
    if kind:
        ctx.hit("deg%d" % deg, "index%d" % kind)
    which = np.arange(size)[index]
    model = Polynomial(c["xy"], deg=deg)
    check(model.size == size, "size")
    params = model.fit(index)
    close(params, lstsq(xy, deg, which), rtol=1e-6, atol=1e-6, msg="least squares")
    other = rng.normal(0, 1, deg + 1)
    want = sum(p * xy[:, 0] ** (deg - i) for i, p in enumerate(other))
    close(model.predict(other), want, rtol=1e-9, atol=1e-9, msg="predicted")
    close(model.predict(other, index), want[index], rtol=1e-9, atol=1e-9, msg="predicted")
    close(model.errors(other), np.abs(want - xy[:, 1]), rtol=1e-9, atol=1e-9, msg="errors")
    close(model.errors(other, index), np.abs(want - xy[:, 1])[index], rtol=1e-9, atol=1e-9, msg="errors")
    # Plot
    fig = plt.figure()
    try:
        hide = [None, "selected", "unselected", "predicted"][c["seed"] // 4 % 4]
        given = other if c["seed"] % 2 else None
        got = model.plot(params=given, index=index, **({hide: None} if hide else {}))
        rest = np.setdiff1d(np.arange(size), which)
        for key, idx in (("selected", which), ("unselected", rest)):
            if key == hide or not len(idx):
                check(got[key] is None, "hidden", key=key)
            else:
                close(np.sort(got[key].get_offsets(), axis=0), np.sort(xy[idx], axis=0), msg="points")
        if hide == "predicted":
            check(got["predicted"] is None, "hidden")
        else:
            line = np.column_stack(got["predicted"][0].get_data())
            p = params if given is None else other
            order = np.argsort(line[:, 0])
            close(line[order, 1], np.polyval(p, line[order, 0]), rtol=1e-9, atol=1e-9, msg="polynomial")
    finally:
        plt.close(fig)


@R.sub(
    st.fixed_dictionaries(
        {
            "viewdir": st.tuples(finite(-3, 3), finite(-3, 3), finite(-3, 3)),
            "bad": st.lists(st.integers(0, 9), unique=True, min_size=1, max_size=2),
            "off": finite(30, 200),
            "seed": st.integers(0, 2**31),
        }
    ),
    quick=4,
    thorough=60,
    rule="a camera and control points with outliers; always non-trivial",
)
def cameras_are_fitted_to_the_consensus(c, ctx):
    ctx.hit("bad%d" % len(c["bad"]))
    rng = np.random.default_rng(c["seed"])
    uv = np.column_stack((rng.uniform(50, 950, 10), rng.uniform(50, 700, 10)))
    true = glimpse.Camera(imgsz=(1000, 750), f=(900, 900), viewdir=c["viewdir"])
    xyz = true.xyz + true.uv_to_xyz(uv) * rng.uniform(50, 500, (10, 1))
    uv[c["bad"]] += c["off"]
    cam = glimpse.Camera(imgsz=(1000, 750), f=(900, 900))
    model = Cameras([cam], [Points(cam, uv=uv, xyz=xyz)], cam_params=[{"viewdir": True}])
    np.random.seed(c["seed"])
    params, inliers = ransac(model, n=3, max_error=5, min_inliers=4, iterations=20)
    good = np.setdiff1d(np.arange(10), c["bad"])
    check(list(inliers) == list(good), "inliers", got=inliers, want=good)
    close(np.asarray(params), c["viewdir"], atol=1e-3, msg="view direction")

"""C22 Particle filter: statistics, weights, resampling, image likelihoods."""
import datetime
import warnings

import numpy as np
import scipy.interpolate
import scipy.ndimage
from core import Registry, check, close, raises, same, st
from gens import finite

import glimpse
from glimpse.track.motion import Motion

R = Registry("C22")
T0 = datetime.datetime(2020, 1, 1)
DAY = datetime.timedelta(days=1)
METHODS = ("systematic", "stratified", "residual", "choice")


def textured(seed, nx, ny, bands=0, smooth=1.0, integers=False):
    rng = np.random.default_rng(seed)
    layers = []
    for _ in range(max(bands, 1)):
        a = scipy.ndimage.gaussian_filter(rng.normal(0, 1, (ny, nx)), smooth, mode="wrap")
        layers.append(128 + 40 * a / a.std())
    a = np.dstack(layers) if bands else layers[0]
    return np.clip(np.round(a), 0, 255).astype(np.uint8) if integers else a


def tracker(arrays, **kwargs):
    images = [
        glimpse.Raster(
            a, x=(0, a.shape[1]), y=(a.shape[0], 0), datetime=T0 + i * DAY
        )
        for i, a in enumerate(arrays)
    ]
    obs = glimpse.Observer(images, **{k: kwargs.pop(k) for k in ("sigma", "cache") if k in kwargs})
    return glimpse.Tracker([obs], **kwargs)


def empty_tracker(**kwargs):
    return tracker([np.zeros((4, 4)), np.zeros((4, 4))], **kwargs)


@st.composite
def clouds(draw, min_n=1, max_n=60):
    n = draw(st.integers(min_n, max_n))
    return {
        "n": n,
        "seed": draw(st.integers(0, 2**31)),
        "scale": draw(st.sampled_from([1.0, 1e-3, 1e4])),
        "offset": draw(st.sampled_from([0.0, 1.0, 500000.0])),
        "weights": draw(st.sampled_from(["equal", "random", "peaked", "one", "tiny", "integer", "zeros"])),
        "total": draw(st.sampled_from([1.0, 1e-8, 250.0, 3.0])),
    }


def cloud(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    p = rng.normal(0, 1, (n, 6)) * c["scale"] + c["offset"]
    w = {
        "equal": lambda: np.ones(n),
        "random": lambda: rng.uniform(0, 1, n) + 1e-9,
        "peaked": lambda: np.exp(rng.normal(0, 5, n)),
        "one": lambda: np.where(np.arange(n) == rng.integers(n), 1.0, 1e-300),
        "tiny": lambda: np.full(n, 1e-300),
        "integer": lambda: rng.integers(0, 4, n) + (np.arange(n) == 0) * 1.0,
        "zeros": lambda: np.where(rng.uniform(0, 1, n) < 0.5, 0.0, 1.0) + (np.arange(n) == 0),
    }[c["weights"]]()
    if c["weights"] not in ("tiny", "one", "integer"):
        w = w * c["total"]
    return p, w


@R.sub(
    clouds(),
    quick=600,
    thorough=15000,
    rule="particles with all kinds of weights; non-trivial if weights differ",
)
def means_and_spread_are_weighted(c, ctx):
    p, w = cloud(c)
    if c["weights"] not in ("equal", "tiny") and c["n"] > 1:
        ctx.hit(c["weights"])
    t = empty_tracker()
    t.particles, t.weights = p.copy(), w.copy()
    f = [x / sum(w) for x in w]
    mean = sum(fi * pi for fi, pi in zip(f, p))
    d = p - mean
    cov = sum(fi * np.outer(di, di) for fi, di in zip(f, d))
    size = c["scale"] + abs(c["offset"]) * 1e-9
    close(t.particle_mean, mean, rtol=1e-9, atol=1e-9 * size, msg="weighted mean")
    tol = 1e-7 * size**2
    close(t.particle_covariance, cov, rtol=1e-6, atol=tol, msg="weighted covariance")
    sigma = np.sqrt(np.diag(cov))
    close(t.compute_particle_sigma(), sigma, rtol=1e-6, atol=1e-6 * size, msg="weighted sigma")
    close(
        t.compute_particle_sigma(mean=t.particle_mean), sigma, rtol=1e-6, atol=1e-6 * size,
        msg="weighted sigma for a given mean",
    )
    same(t.particles, p, msg="particles are unchanged")
    same(t.weights, w, msg="weights are unchanged")
    t.initialize_weights()
    check(len(t.weights) == c["n"] and (t.weights == t.weights[0]).all() and t.weights[0] > 0,
          "initial weights are equal")
    close(t.particle_mean, p.mean(axis=0), rtol=1e-9, atol=1e-9 * size, msg="initial mean")


@R.sub(
    st.fixed_dictionaries(
        {
            "cloud": clouds(max_n=8),
            "nan": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 5)), max_size=2),
            "viewshed": st.booleans(),
            "hidden": st.lists(st.booleans(), min_size=16, max_size=16),
            "dtype": st.sampled_from(["bool", "uint8", "float"]),
        }
    ),
    quick=400,
    thorough=8000,
    rule="particles over viewsheds; non-trivial if some are hidden or missing",
)
def invalid_particles_are_refused(case, ctx):
    c = case["cloud"]
    rng = np.random.default_rng(c["seed"])
    p = rng.uniform(-1, 1, (c["n"], 6))
    # Within cells of the viewshed
    i, j = rng.integers(0, 4, c["n"]), rng.integers(0, 4, c["n"])
    p[:, 0] = j + rng.uniform(0.1, 0.9, c["n"])
    p[:, 1] = 4 - (i + rng.uniform(0.1, 0.9, c["n"]))
    missing = False
    for k, m in case["nan"]:
        if k < c["n"] and (m >= 2 or not case["viewshed"]):
            p[k, m] = np.nan
            missing = True
    visible = ~np.array(case["hidden"]).reshape(4, 4)
    if rng.uniform() < 0.5:
        visible[i, j] = True
    viewshed = None
    hidden = False
    if case["viewshed"]:
        viewshed = glimpse.Raster(visible.astype(case["dtype"]), x=(0, 4), y=(4, 0))
        hidden = not visible[i, j].all()
    t = empty_tracker(viewshed=viewshed)
    t.particles = p
    if missing or hidden:
        ctx.hit("missing" if missing else "-", "hidden" if hidden else "-")
        raises(ValueError, t.test_particles, msg="invalid particles")
    else:
        ctx.label("valid")
        t.test_particles()


# ---- Weights ---- #


class Scripted(Motion):
    """Motion model with given log likelihoods."""

    def __init__(self, log_likelihoods):
        self.log_likelihoods = log_likelihoods

    def compute_log_likelihoods(self, particles):
        return self.log_likelihoods


class ScriptedTracker(glimpse.Tracker):
    """Tracker with given observer log likelihoods."""

    def compute_observer_log_likelihoods(self, obs, img):
        return None if img is None else self.script[obs][img]


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.integers(1, 6),
            "obs": st.lists(
                st.tuples(st.sampled_from([None, 0, 1]), st.booleans(), st.integers(0, 999)),
                min_size=1, max_size=4,
            ),
            "motion": st.sampled_from(["no", "none", "values"]),
            "scale": st.sampled_from([1.0, 5.0, 200.0, 1e4]),
        }
    ),
    quick=400,
    thorough=8000,
    rule="log likelihoods of several observers and motion models, present or not; non-trivial "
    "if several are present",
)
def weights_are_joint_likelihoods(c, ctx):
    n = c["n"]
    base = empty_tracker()
    t = ScriptedTracker([base.observers[0]] * len(c["obs"]))
    t.particles = np.random.default_rng(0).normal(0, 1, (n, 6))
    t.script, imgs, total, count = {}, [], np.zeros(n), 0
    for k, (img, outside, seed) in enumerate(c["obs"]):
        rng = np.random.default_rng(seed)
        values = [None if outside else rng.exponential(c["scale"], n) for _ in range(2)]
        t.script[k] = values
        imgs.append(img)
        if img is not None and values[img] is not None:
            total, count = total + values[img], count + 1
    model = None
    if c["motion"] == "none":
        model = Scripted(None)
    elif c["motion"] == "values":
        values = np.random.default_rng(7).exponential(c["scale"], n)
        model, total, count = Scripted(values), total + values, count + 1
    t.weights = np.arange(n) + 2.0
    kwargs = {} if model is None else {"motion_model": model}
    t.update_weights(imgs, **kwargs)
    if count > 1:
        ctx.hit("terms%d" % count)
    if count == 0:
        same(t.weights, np.arange(n) + 2.0, msg="nothing observed: weights are kept")
        return
    check(t.weights.shape == (n,) and (t.weights > 0).all(), "weights are positive")
    # Up to a common factor
    some = total - total.min() < 300
    want = np.exp(-(total - total.min()))
    if total.min() < 600:
        got = t.weights / t.weights[np.argmin(total)]
        close(got[some & (total < 650)], want[some & (total < 650)], rtol=1e-6, atol=1e-12,
              msg="product of likelihoods")
        most = 1e-100 + 1.1e-300 / np.exp(-total.min())
        check((got[~some] < most).all(), "unlikely particles")


# ---- Resampling ---- #


def draw_indices(t, p, w, method, default):
    t.particles, t.weights = p.copy(), w.copy()
    # Tell particles apart
    t.particles[:, 5] = np.arange(len(p))
    if default:
        t.resample_method = method
        t.resample_particles()
    else:
        t.resample_method = METHODS[(METHODS.index(method) + 1) % 4]
        t.resample_particles(method=method)
    check(t.particles.shape == p.shape and t.weights.shape == w.shape, "number of particles")
    i = t.particles[:, 5].astype(int)
    same(t.particles[:, :5], p[i, :5], msg="particles are copied whole")
    same(t.weights, w[i], msg="weights stay with their particles")
    return i


@R.sub(
    st.fixed_dictionaries(
        {
            "cloud": clouds(),
            "method": st.sampled_from(METHODS),
            "default": st.booleans(),
            "repeat": st.integers(1, 4),
        }
    ),
    quick=800,
    thorough=20000,
    rule="particles with all kinds of weights; non-trivial if weights differ",
)
def resampling_keeps_likely_particles(case, ctx):
    c, method = case["cloud"], case["method"]
    p, w = cloud(c)
    if c["weights"] not in ("equal", "tiny") and c["n"] > 1:
        ctx.hit(method, c["weights"])
    n = c["n"]
    want = n * w / w.sum()
    t = empty_tracker()
    np.random.seed(c["seed"])
    for _ in range(case["repeat"]):
        i = draw_indices(t, p, w, method, case["default"])
        count = np.bincount(i, minlength=n)
        check((count[w <= w.sum() * 1e-200] == 0).all() or c["weights"] == "tiny",
              "particles of no weight are dropped", count=count, w=w)
        low, high = np.floor(want - 1e-9), np.ceil(want + 1e-9)
        if method == "systematic":
            check(((count >= low) & (count <= high)).all(), "systematic counts", count=count, want=want)
        elif method == "stratified":
            check(((count >= low - 1) & (count <= high + 1)).all(), "stratified counts", count=count, want=want)
        elif method == "residual":
            check((count >= low).all(), "residual counts", count=count, want=want)
        if method in ("systematic", "stratified") or (method == "residual" and (want == low).all()):
            check((np.diff(i) >= 0).all(), "order of particles is kept")


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.integers(2, 12),
            "seed": st.integers(0, 2**31),
            "method": st.sampled_from(METHODS),
            "spread": st.sampled_from([0.5, 1.5]),
            "total": st.sampled_from([1.0, 40.0]),
        }
    ),
    quick=120,
    thorough=2500,
    rule="repeated resampling of the same particles; always non-trivial",
)
def resampling_is_unbiased(c, ctx):
    """On average, particles are drawn in proportion to their weight."""
    ctx.hit(c["method"])
    rng = np.random.default_rng(c["seed"])
    n, m = c["n"], 1500
    w = np.exp(rng.normal(0, c["spread"], n)) * c["total"]
    t = empty_tracker()
    p = rng.normal(0, 1, (n, 6))
    np.random.seed(c["seed"])
    total = np.zeros(n)
    for _ in range(m):
        t.particles, t.weights = p.copy(), w.copy()
        t.particles[:, 5] = np.arange(n)
        t.resample_particles(method=c["method"])
        total += np.bincount(t.particles[:, 5].astype(int), minlength=n)
    want = n * w / w.sum()
    # Binomial spread bounds that of all methods (per particle)
    sd = np.sqrt(np.maximum(want * (1 - want / n), 0.01) / m)
    check(
        (np.abs(total / m - want) < 6.5 * sd + 1e-3).all(), "mean counts", got=total / m,
        want=want, method=c["method"],
    )


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.integers(1, 400),
            "seed": st.integers(0, 2**31),
            "method": st.sampled_from(METHODS[:3]),
            "value": st.sampled_from([0.0, 5e-17, 1 - 2**-53, 1 - 2**-52, 0.5]),
            "weights": st.sampled_from(["equal", "random", "thirds"]),
        }
    ),
    quick=500,
    thorough=12000,
    rule="extreme random numbers (injected); non-trivial for the largest",
)
def resampling_survives_extreme_random_numbers(c, ctx):
    if c["value"] > 0.9:
        ctx.hit(c["method"], c["weights"])
    n = c["n"]
    rng = np.random.default_rng(c["seed"])
    w = {
        "equal": np.full(n, 0.1), "random": rng.uniform(0, 1, n) + 1e-6,
        "thirds": np.where(np.arange(n) % 3, 1 / 3, 1e-3),
    }[c["weights"]]
    t = empty_tracker()
    p = rng.normal(0, 1, (n, 6))
    original = np.random.random

    def fake(size=None):
        return c["value"] if size is None else np.full(size, c["value"])

    np.random.random = fake
    try:
        draw_indices(t, p, w, c["method"], True)
    finally:
        np.random.random = original


# ---- Image likelihoods ---- #


def cdf(a):
    values = np.sort(np.unique(a))
    return values, np.array([(a <= v).mean() for v in values])


def prepare(a, size, histogram=None):
    """Tile as the tracker sees it, and its histogram."""
    a = a.astype(float)
    if a.ndim > 2:
        a = sum(a[:, :, i] for i in range(a.shape[2])) / a.shape[2]
    a = (a - a.mean()) / a.std()
    if histogram is not None:
        values, quantiles = cdf(a)
        a = np.interp(quantiles, histogram[1], histogram[0])[np.searchsorted(values, a)]
    return a - scipy.ndimage.median_filter(a, size=size), cdf(a)


@st.composite
def scenes(draw):
    return {
        "seed": draw(st.integers(0, 500)),
        "bands": draw(st.sampled_from([0, 0, 3, 3, 1, 2, 4])),
        "integers": draw(st.booleans()),
        "tile": (draw(st.integers(5, 12)), draw(st.integers(5, 12))),
        "highpass": draw(st.sampled_from([None, (5, 5), (3, 7)])),
        "degrees": draw(st.sampled_from([None, (3, 3), (1, 1), (3, 1), (1, 3), (2, 5)])),
        "sigma": draw(st.sampled_from([0.3, 1.0, 0.1])),
        "uv": (draw(finite(30, 50)), draw(finite(28, 40))),
        "round": draw(st.sampled_from([None, 1, 2])),
        "shift": (draw(st.integers(-6, 6)), draw(st.integers(-6, 6))),
        "n": draw(st.integers(1, 12)),
        "spread": (draw(st.sampled_from([0.0, 0.3, 2.0, 5.0])), draw(st.sampled_from([0.0, 0.3, 2.0, 5.0]))),
        "cell": draw(st.sampled_from([1.0, 1.0, 2.0])),
        "gain": draw(st.sampled_from([(1.0, 0.0), (0.5, 30.0), (2.0, -10.0)])),
    }


def setup(c):
    nx, ny = 84, 72
    first = textured(c["seed"], nx, ny, c["bands"], integers=c["integers"])
    second = np.roll(first, (c["shift"][1], c["shift"][0]), axis=(0, 1))
    if not c["integers"]:
        second = second * c["gain"][0] + c["gain"][1]
    kwargs = {}
    if c["highpass"] is not None:
        kwargs["highpass"] = {"size": c["highpass"]}
    if c["degrees"] is not None:
        kwargs["interpolation"] = dict(zip(("kx", "ky"), c["degrees"]))
    t = tracker([first, second], sigma=c["sigma"], **kwargs)
    for img in t.observers[0].images:
        img.xlim, img.ylim = (0, nx * c["cell"]), (ny * c["cell"], 0)
    return t, first, second


def world(c, uv):
    uv = np.atleast_2d(uv)
    xyz = np.zeros((len(uv), 6))
    xyz[:, 0] = uv[:, 0] * c["cell"]
    xyz[:, 1] = (72 - uv[:, 1]) * c["cell"]
    return xyz


def center(c):
    uv = np.array(c["uv"])
    return np.round(uv * c["round"]) / c["round"] if c["round"] else uv


@R.sub(
    scenes(),
    quick=400,
    thorough=8000,
    rule="tiles and particles in images; non-trivial if particles are spread out",
)
def likelihoods_compare_tiles(c, ctx):
    """Differential: likelihoods from their description."""
    t, first, second = setup(c)
    rng = np.random.default_rng(c["seed"])
    uv = center(c)
    w, h = c["tile"]
    size = c["highpass"] or (5, 5)
    # Template around the weighted mean of particles
    offsets = rng.normal(0, 1, (c["n"], 2)) * c["spread"]
    weights = rng.uniform(0.5, 2, c["n"])
    p = world(c, uv + offsets)
    t.particles, t.weights = p.copy(), weights
    mean = uv + (offsets * weights[:, None]).sum(axis=0) / weights.sum()
    edge = (mean - np.array(c["tile"]) / 2 + 0.5) % 1
    if np.minimum(edge, 1 - edge).min() < 1e-6:
        # Which pixels are nearest is decided by rounding
        return
    t.initialize_template(obs=0, img=0, tile_size=c["tile"])
    left, top = np.floor(mean - np.array(c["tile"]) / 2 + 0.5).astype(int)
    want, histogram = prepare(first[top : top + h, left : left + w], size)
    template = t.templates[0]
    close(template["tile"], want, rtol=1e-6, atol=1e-6, msg="template tile")
    duv = mean - (left + w / 2, top + h / 2)
    close(template["duv"], duv, atol=1e-6, msg="subpixel offset of the template")
    same(np.asarray(t.observers[0].images[0].read()), first, msg="image is unchanged")
    # Likelihoods of particles moved with the image
    if max(c["spread"]):
        ctx.hit("k%s" % (c["degrees"],), "bands%d" % c["bands"])
    kx, ky = c["degrees"] or (3, 3)
    uv2 = uv + offsets + c["shift"]
    t.particles = world(c, uv2)
    low, high = uv2.min(axis=0) - (w / 2, h / 2), uv2.max(axis=0) + (w / 2, h / 2)
    # Enough cells to interpolate between
    for k, degree, n in ((0, ky, w), (1, kx, h)):
        lack = degree - (high[k] - low[k] - n)
        if lack > 0:
            low[k], high[k] = low[k] - lack / 2, high[k] + lack / 2
    close_call = lambda x: (np.abs(x - np.round(x)) < 1e-6).any()  # noqa: E731
    if close_call(low) or close_call(high):
        return
    low, high = np.floor(low).astype(int), np.ceil(high).astype(int)
    if low.min() < 0 or (high > (84, 72)).any():
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            got = t.compute_observer_log_likelihoods(obs=0, img=1)
        check(got is None and len(caught) == 1, "skipped with a warning", got=got)
        ctx.label("outside")
        return
    got = t.compute_observer_log_likelihoods(obs=0, img=1)
    search, _ = prepare(second[low[1] : high[1], low[0] : high[0]], size, histogram)
    rows, cols = search.shape[0] - h + 1, search.shape[1] - w + 1
    sse = np.array(
        [
            [((search[i : i + h, j : j + w] - want) ** 2).mean() for j in range(cols)]
            for i in range(rows)
        ]
    )
    # Cell (i, j) is where the template point falls if moved there
    u = low[0] + w / 2 + np.arange(cols) + duv[0]
    v = low[1] + h / 2 + np.arange(rows) + duv[1]
    spline = scipy.interpolate.RectBivariateSpline(v, u, sse, kx=kx, ky=ky)
    value = spline.ev(uv2[:, 1], uv2[:, 0]) / (2 * c["sigma"] ** 2)
    tol = 1e-3 * sse.max() / (2 * c["sigma"] ** 2)
    close(got, value, rtol=1e-3, atol=tol, msg="log likelihoods")
    check(t.compute_observer_log_likelihoods(obs=0, img=None) is None, "no image")
    same(np.asarray(t.observers[0].images[1].read()), second, msg="image is unchanged")


@R.sub(
    scenes(),
    quick=300,
    thorough=6000,
    rule="images moved by whole pixels; non-trivial for templates off the pixel grid",
)
def likelihood_peaks_at_the_displacement(c, ctx):
    # NOTE: Small tiles may resemble other parts of the image, once matched in histogram
    c = {**c, "tile": (c["tile"][0] + 10, c["tile"][1] + 10), "integers": False}
    t, first, second = setup(c)
    uv = center(c)
    t.particles, t.weights = world(c, uv), np.ones(1)
    t.initialize_template(obs=0, img=0, tile_size=c["tile"])
    if np.abs(t.templates[0]["duv"]).min() > 0.05:
        ctx.hit("subpixel", "k%s" % (c["degrees"],))
    steps = np.array([(i, j) for i in (-2, -1, -0.5, 0, 0.5, 1, 2) for j in (-2, -1, -0.5, 0, 0.5, 1, 2)])
    t.particles = world(c, uv + c["shift"] + steps)
    got = t.compute_observer_log_likelihoods(obs=0, img=1)
    if got is None:
        return
    truth = np.flatnonzero((steps == 0).all(axis=1))[0]
    check(
        got[truth] <= got.min() + 0.4 * (np.median(got) - got.min()) + 1e-9
        and np.abs(steps[np.argmin(got)]).max() <= 1,
        "most likely where the image moved to", truth=got[truth], best=got.min(),
        at=steps[np.argmin(got)],
    )
    check(got[truth] < 0.7 * np.median(got), "much more likely than elsewhere",
          truth=got[truth], median=np.median(got))
    # Likelihood of each particle does not depend on order
    order = np.random.default_rng(c["seed"]).permutation(len(steps))
    t.particles = t.particles[order]
    close(t.compute_observer_log_likelihoods(obs=0, img=1), got[order], rtol=1e-6, atol=1e-9,
          msg="order of particles")


@R.sub(
    st.fixed_dictionaries(
        {
            "seed": st.integers(0, 500),
            "bands": st.sampled_from([0, 3, 1, 2, 4]),
            "box": st.tuples(st.integers(0, 10), st.integers(0, 10), st.integers(6, 20), st.integers(6, 20)),
            "gain": st.sampled_from([(1.0, 0.0), (0.25, 60.0), (3.0, -100.0)]),
            "size": st.sampled_from([(5, 5), (3, 3), (3, 7)]),
            "histogram": st.sampled_from(["none", "own", "other"]),
            "return": st.booleans(),
        }
    ),
    quick=300,
    thorough=6000,
    rule="tiles of images; non-trivial if matched to a histogram",
)
def tiles_are_normalised(c, ctx):
    first = textured(c["seed"], 40, 36, c["bands"])
    second = first * c["gain"][0] + c["gain"][1]
    t = tracker([first, second], highpass={"size": c["size"]})
    left, top, w, h = c["box"]
    box = (left, top, left + w, top + h)
    raw = first[top : top + h, left : left + w]
    plain, own = prepare(raw, c["size"])
    histogram = None
    if c["histogram"] == "own":
        histogram = own
    elif c["histogram"] == "other":
        histogram = cdf(np.random.default_rng(c["seed"]).normal(0, 2, 50))
    if histogram is not None:
        ctx.hit(c["histogram"])
    want, after = prepare(raw, c["size"], histogram)
    for img in range(2):
        kwargs = {} if histogram is None else {"histogram": histogram}
        got = t.extract_tile(obs=0, img=img, box=box, return_histogram=c["return"], **kwargs)
        if c["return"]:
            got, hist = got
            # Rounding may split equal values
            close(np.interp([0.1, 0.5, 0.9], hist[1], hist[0]), np.interp([0.1, 0.5, 0.9], after[1], after[0]),
                  rtol=1e-4, atol=1e-4 + 3 * np.diff(after[0]).max() / 2, msg="histogram")
        close(got, want, rtol=1e-5, atol=1e-5, msg="tile (brightness and contrast do not matter)")

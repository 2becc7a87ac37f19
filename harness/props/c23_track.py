"""C23 Tracking: which images, when, from where, and what is returned."""
import datetime
import os
import pickle
import warnings

import cv2
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import scipy.ndimage
from core import Registry, check, close, raises, same, st
from gens import finite

import glimpse
from glimpse.track import CartesianMotion, TangentCartesianMotion, Tracks
from glimpse.track.motion import Motion

matplotlib.use("agg")
R = Registry("C23")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
T0 = datetime.datetime(2020, 1, 1)
HOUR = datetime.timedelta(hours=1)
NX, NY = 120, 110

_base = scipy.ndimage.gaussian_filter(np.random.default_rng(5).normal(0, 1, (NY, NX)), 1, mode="wrap")
_base = 128 + 40 * _base / _base.std()


def when(t):
    return T0 + datetime.timedelta(seconds=round(t * 3600))


def image(t, velocity=(0, 0), noise=0, seed=0):
    """Texture moving at a velocity (pixels per hour)."""
    a = np.roll(_base, (int(round(-velocity[1] * t)), int(round(velocity[0] * t))), axis=(0, 1))
    if noise:
        a = a + np.random.default_rng([seed, int(t * 3600)]).normal(0, noise, a.shape)
    return glimpse.Raster(a, x=(0, NX), y=(NY, 0), datetime=when(t))


class Path(Motion):
    """Particles that move alike at constant velocity (and differ in z only)."""

    def __init__(self, xy, velocity, unit=HOUR, n=3, fail=None, seed=None):
        self.xy, self.velocity, self.time_unit, self.n = xy, velocity, unit, n
        self.fail, self.seed = fail, seed
        self.log = []

    def initialize_particles(self):
        self.log.append("start")
        self.step = 0
        p = np.zeros((self.n, 6))
        p[:, :2] = self.xy
        p[:, 2] = np.arange(self.n)
        p[:, 3:5] = self.velocity
        if self.fail == ("start", 0):
            raise ZeroDivisionError("no start")
        return p

    def evolve_particles(self, particles, dt):
        self.log.append(dt)
        self.step += 1
        particles[:, :2] += (dt / self.time_unit) * particles[:, 3:5]
        if self.fail in (("error", self.step), ("nan", self.step)):
            warnings.warn("crack")
        if self.fail == ("error", self.step):
            raise KeyError("no step")
        if self.fail == ("nan", self.step):
            particles[0, 1] = np.nan
        if self.fail == ("warn", self.step):
            warnings.warn("slippery")
            warnings.warn("steep", RuntimeWarning)

    def compute_log_likelihoods(self, particles):
        return None


def nearest(t, ts, maxdt):
    """Indices of equally near images (none if too far)."""
    d = [abs(t - x) for x in ts]
    return [i for i, x in enumerate(d) if x == min(d)] if min(d) <= abs(maxdt) else [None]


half_hours = st.integers(0, 16).map(lambda i: i / 2)


@st.composite
def schedules(draw, max_obs=3):
    obs = [
        sorted(draw(st.lists(half_hours, unique=True, min_size=2, max_size=6)))
        for _ in range(draw(st.integers(1, max_obs)))
    ]
    c = {"obs": obs, "maxdt": draw(st.sampled_from([0.0, 0.0, 0.25, 0.5, 1.0, -0.5]))}
    kind = draw(st.sampled_from(["default", "some", "some", "reverse", "repeat", "unordered"]))
    if kind == "default":
        c["datetimes"] = None
    else:
        values = draw(
            st.lists(
                st.one_of(st.sampled_from(sorted({t for o in obs for t in o})),
                          st.integers(-4, 40).map(lambda i: i / 4)),
                min_size=1, max_size=8,
            )
        )
        if kind != "repeat":
            values = list(dict.fromkeys(values))
        if kind != "unordered":
            values = sorted(values, reverse=kind == "reverse")
        c["datetimes"] = values
    return c


def expected_datetimes(c):
    """Datetimes to track at, or None if refused; whether some are dropped."""
    known = sorted({t for o in c["obs"] for t in o})
    if c["datetimes"] is None:
        return known, set()
    values = c["datetimes"]
    if values != sorted(values) and values != sorted(values, reverse=True):
        return None, set()
    dropped = set()
    unique = list(dict.fromkeys(values))
    if len(unique) < len(values):
        dropped.add("duplicate")
    kept = [t for t in unique if min(abs(t - x) for x in known) <= abs(c["maxdt"])]
    if len(kept) < len(unique):
        dropped.add("unmatched")
    return (kept if len(kept) > 1 else None), dropped


def observers(c, **kwargs):
    return [glimpse.Observer([image(t, **kwargs) for t in o]) for o in c["obs"]]


@R.sub(
    schedules(),
    quick=600,
    thorough=15000,
    rule="observers and datetimes; non-trivial if some datetimes are dropped or match no image "
    "of an observer",
)
def matches_images_to_datetimes(c, ctx):
    t = glimpse.Tracker(observers(c))
    known = sorted({x for o in c["obs"] for x in o})
    check(list(t.datetimes) == [when(x) for x in known], "datetimes of all observers")
    maxdt = c["maxdt"] * HOUR
    want, dropped = expected_datetimes(c)
    if c["datetimes"] is not None:
        given = [when(x) for x in c["datetimes"]]
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            if want is None:
                raises(ValueError, t.parse_datetimes, given, maxdt=maxdt, msg="datetimes")
                return
            got = t.parse_datetimes(given, maxdt=maxdt)
        check(list(got) == [when(x) for x in want], "parsed datetimes", got=got, want=want)
        check(len(caught) == len(dropped), "warns of dropped datetimes", dropped=dropped)
    if dropped:
        ctx.hit(*dropped)
    times = [when(x) for x in want]
    kwargs = {"maxdt": maxdt} if maxdt else {}
    grid = t.match_datetimes(times, **kwargs)
    check(np.shape(grid) == (len(want), len(c["obs"])), "shape of matches")
    for i, x in enumerate(want):
        for j, o in enumerate(c["obs"]):
            options = nearest(x, o, c["maxdt"])
            if options == [None]:
                ctx.hit("none")
            check(grid[i, j] in options, "nearest image", got=grid[i, j], want=options)


# ---- Orchestration ---- #


@st.composite
def runs(draw):
    c = draw(schedules())
    m = draw(st.integers(1, 4))
    c["tracks"] = []
    for _ in range(m):
        fail = draw(
            st.sampled_from([None] * 4 + ["error", "nan", "start", "warn", "outside"])
        )
        step = 0 if fail == "start" else draw(st.integers(1, 3))
        c["tracks"].append(
            {
                "xy": (draw(st.integers(26, 44)) + 0.25, draw(st.integers(24, 40)) + 0.25),
                "velocity": (draw(st.integers(-2, 2)) / 2, draw(st.integers(-2, 2)) / 2),
                "fail": fail and (fail, step),
                "mask": [draw(st.booleans()) for _ in c["obs"]],
                "n": 3,
            }
        )
    c["use_mask"] = draw(st.booleans())
    c["covariances"] = draw(st.booleans())
    c["returns"] = draw(st.sampled_from(["no", "particles", "reduce"]))
    c["parallel"] = draw(st.sampled_from([False] * 6 + [2]))
    c["tile"] = draw(st.sampled_from([(7, 7), (5, 9), None]))
    c["unit"] = draw(st.sampled_from([1, 24]))
    return c


@R.sub(
    runs(),
    quick=220,
    thorough=5000,
    rule="tracks over several observers, with failures; non-trivial if observers or tracks "
    "have different times",
)
def follows_the_schedule(c, ctx):
    want, _ = expected_datetimes(c)
    if want is None:
        return
    unit = c["unit"] * HOUR
    m = len(c["tracks"])
    mask = np.ones((m, len(c["obs"])), dtype=bool)
    if c["use_mask"]:
        mask = np.array([x["mask"] for x in c["tracks"]])
        mask[~mask.any(axis=1)] = True
    # Observed datetimes (matches are unique up to ties)
    matched = np.array(
        [[nearest(t, o, c["maxdt"]) != [None] for o in c["obs"]] for t in want]
    )
    models, spans, leaves = [], [], []
    for k, x in enumerate(c["tracks"]):
        seen = matched[:, mask[k]].any(axis=1)
        if not seen.any():
            return
        spans.append((int(np.argmax(seen)), len(seen) - 1 - int(np.argmax(seen[::-1]))))
        velocity = np.array(x["velocity"])
        fail = x["fail"]
        if fail and fail[0] == "outside":
            velocity = np.array((1000.0, 0.0))
            fail = None
        # Templates must fit in the image: stay put if an observer starts too late
        starts = [int(np.argmax(col)) for col, u in zip(matched.T, mask[k]) if u and col.any()]
        dts = [want[i] - want[spans[-1][0]] for i in starts]
        xy = np.array(x["xy"]) + np.outer(dts, velocity)
        if (xy < 10).any() or (xy > (NX - 10, NY - 10)).any():
            velocity = np.zeros(2)
        leaves.append(bool(abs(velocity[0]) > 100))
        velocity = velocity * c["unit"]
        models.append(Path(x["xy"], velocity, unit=unit, n=x["n"], fail=fail))
    tracker = glimpse.Tracker(observers(c))
    kwargs = {"return_covariances": c["covariances"], "parallel": c["parallel"]}
    if c["datetimes"] is not None:
        kwargs["datetimes"] = [when(t) for t in c["datetimes"]]
    if c["maxdt"]:
        kwargs["maxdt"] = c["maxdt"] * HOUR
    if c["use_mask"]:
        kwargs["observer_mask"] = mask
    if c["returns"] == "particles":
        kwargs["return_particles"] = True
    elif c["returns"] == "reduce":
        kwargs["reduce_particles"] = lambda p, w: (np.nanmax(p[..., 2]), p.shape, w.shape)
    if c["tile"]:
        kwargs["tile_size"] = c["tile"]
    failures = []
    for (a, b), model in zip(spans, models):
        fail = model.fail
        failures.append(
            fail is not None and fail[0] in ("error", "nan", "start") and fail[1] <= b - a
        )
    with warnings.catch_warnings(record=True):
        # Scope of the tracker's own record of warnings
        warnings.simplefilter("always")
        if m == 1 and failures[0]:
            kind = {"start": ZeroDivisionError, "error": KeyError, "nan": ValueError}
            ctx.hit("raised")
            kind = kind[models[0].fail[0]] if not c["parallel"] else Exception
            raises(kind, tracker.track, models, **kwargs, msg="error of a single track")
            return
        tracks = tracker.track(models, **kwargs)
    if m > 1 and (len(c["obs"]) > 1 or c["use_mask"] or any(failures)):
        ctx.hit("tracks%d" % m, "obs%d" % len(c["obs"]))
    ctx.label("parallel%s" % c["parallel"], c["returns"], *{str(x["fail"]) for x in c["tracks"]})
    check(isinstance(tracks, Tracks), "result")
    check(list(tracks.datetimes) == [when(t) for t in want], "datetimes")
    check(tracks.time_unit == unit, "time unit")
    check(tracks.tracker is tracker, "tracker")
    check(tracks.params["motion_models"] is models, "arguments are kept")
    check(tracks.params["tile_size"] == (c["tile"] or (15, 15)), "arguments are kept")
    for i, t in enumerate(want):
        for j, o in enumerate(c["obs"]):
            check(tracks.images[i, j] in nearest(t, o, c["maxdt"]), "images")
    n = len(want)
    check(tracks.means.shape == (m, n, 6), "shape of means")
    for k, x in enumerate(c["tracks"]):
        first, last = spans[k]
        model = models[k]
        velocity = np.array(model.velocity, float)
        path = np.full((n, 6), np.nan)
        sd = np.full((n, 6), np.nan)
        for i in range(first, last + 1):
            dt = (want[i] - want[first]) / c["unit"]
            path[i] = [*(np.array(x["xy"]) + dt * velocity), 1.0, *velocity, 0.0]
            sd[i] = [0, 0, (2 / 3) ** 0.5, 0, 0, 0]
        done = last + 1
        if failures[k]:
            done = first + model.fail[1]
            expect = {"start": ZeroDivisionError, "error": KeyError, "nan": ValueError}
            check(isinstance(tracks.errors[k], expect[model.fail[0]]), "error is kept", got=tracks.errors[k])
            check(np.isnan(tracks.means[k, done:]).all(), "nothing after the error")
            pickle.loads(pickle.dumps(tracks.errors[k]))
        else:
            check(tracks.errors[k] is None, "no error", got=tracks.errors[k])
        check(bool(tracks.success[k]) == (not failures[k]), "success")
        close(tracks.means[k, :done], path[:done], rtol=1e-9, atol=1e-7, msg="path")
        if c["covariances"]:
            check(tracks.sigmas is None, "covariances or sigmas")
            cov = tracks.covariances[k, :done]
            want_cov = np.array([np.diag(s**2) if np.isfinite(s).all() else np.full((6, 6), np.nan) for s in sd])
            close(cov, want_cov[:done].reshape(cov.shape), atol=1e-7, msg="covariances")
        else:
            check(tracks.covariances is None, "covariances or sigmas")
            close(tracks.sigmas[k, :done], sd[:done], atol=1e-6, msg="sigmas")
        close(tracks.xyz_sigma[k, :done], sd[:done, :3], atol=1e-6, msg="position sigmas")
        if c["returns"] == "particles":
            check(tracks.particles.shape == (m, n, 3, 6), "shape of particles")
            p = tracks.particles[k, :done]
            close(p.mean(axis=1), path[:done], rtol=1e-9, atol=1e-7, msg="particles")
            close(np.sort(p[first:done, :, 2], axis=1), np.tile([0.0, 1, 2], (max(done - first, 0), 1)), msg="particles (z)")
            w = tracks.weights[k]
            check(np.isnan(w[:first]).all() and (w[first:done] > 0).all(), "weights")
        else:
            check(tracks.particles is None and tracks.weights is None, "no particles")
        if c["returns"] == "reduce":
            top, shape, wshape = tracks.reduced[k]
            check(shape == (n, 3, 6) and wshape == (n, 3), "particles to reduce")
            check(top == 2 or (failures[k] and done == first), "reduced particles")
        # Steps (seen in this process)
        if not c["parallel"]:
            steps = [(want[i + 1] - want[i]) * HOUR for i in range(first, min(done + bool(failures[k]), last + 1) - 1)]
            check(model.log == ["start"] + steps, "steps in time", got=model.log, want=steps)
        # Warnings
        caught = tracks.warnings[k]
        texts = [str(w.message) for w in caught] if caught is not None else []
        warned = model.fail is not None and model.fail[0] == "warn" and model.fail[1] <= last - first
        if failures[k] and model.fail[0] != "start":
            check("crack" in texts, "warnings of a failing track are kept", got=texts)
        if not failures[k]:
            check(("slippery" in texts) == warned and ("steep" in texts) == warned, "warnings are kept", got=texts)
            observed = leaves[k] and matched[first + 1 : last + 1, mask[k]].any()
            check(any("close to" in t for t in texts) == bool(observed), "skipped images", got=texts)
            if not texts:
                check(caught is None, "no warnings")
    check(len(tracks.errors) == len(tracks.warnings) == m, "one per track")
    check(np.ndim(tracks.errors) == 1 and np.ndim(tracks.warnings) == 1, "one per track")


@R.sub(
    st.fixed_dictionaries(
        {"units": st.lists(st.sampled_from([1, 24]), min_size=2, max_size=3), "parallel": st.just(False)}
    ),
    quick=10,
    thorough=50,
    rule="motion models of different time units; non-trivial if they differ",
)
def time_units_must_agree(c, ctx):
    t = glimpse.Tracker(observers({"obs": [[0, 1, 2]]}))
    models = [Path((35, 32), (0, 0), unit=u * HOUR) for u in c["units"]]
    if len(set(c["units"])) > 1:
        ctx.hit("differ")
        raises(ValueError, t.track, models, msg="time units")
    else:
        t.track(models)


# ---- Particle tracking ---- #


class Seeded(CartesianMotion):
    """Repeatable (whatever is tracked before it)."""

    def initialize_particles(self):
        np.random.seed(self.seed)
        return super().initialize_particles()


class SeededTangent(TangentCartesianMotion):
    def initialize_particles(self):
        np.random.seed(self.seed)
        return super().initialize_particles()


@st.composite
def scenes(draw):
    m = draw(st.integers(1, 3))
    ts = [0]
    for gap in draw(st.lists(st.integers(1, 2), min_size=2, max_size=4)):
        ts.append(ts[-1] + gap)
    obs = [ts]
    if draw(st.booleans()):
        obs.append(
            [t for i, t in enumerate(ts) if i in (0, len(ts) - 1) or draw(st.booleans())]
        )
    top = min(3, 16 // ts[-1])
    return {
        "velocity": (draw(st.integers(-top, top)), draw(st.integers(-top, top))),
        "obs": obs,
        "noise": draw(st.sampled_from([0, 5])),
        "xy": [(draw(finite(50, 70)), draw(finite(45, 65))) for _ in range(m)],
        "seeds": [draw(st.integers(0, 2**31)) for _ in range(m)],
        "model": draw(st.sampled_from([Seeded, SeededTangent])),
        "method": draw(st.sampled_from(["systematic", "stratified", "residual", "choice"])),
        "backward": draw(st.booleans()),
        "error": (draw(st.sampled_from([-1, 0, 1])), draw(st.sampled_from([-1, 0, 1]))),
        "parallel": draw(st.sampled_from([False, False, 2, 3])),
        "seed": draw(st.integers(0, 99)),
    }


def scene(c, obs=None, tracks=None, seed=None):
    obs = [
        glimpse.Observer([image(t, c["velocity"], c["noise"], c["seed"] + j) for t in o])
        for j, o in enumerate(c["obs"] if obs is None else obs)
    ]
    tracker = glimpse.Tracker(obs, resample_method=c["method"])
    models = []
    tracks = range(len(c["xy"])) if tracks is None else tracks
    v = np.add(c["velocity"], c["error"])
    for k in tracks:
        kwargs = {"dem": 0.0, "dem_sigma": 0.0, "n": 600, "xy_sigma": (0.3, 0.3)}
        if c["model"] is Seeded:
            kwargs.update(vxyz=(*v, 0), vxyz_sigma=(1, 1, 0), axyz_sigma=(0.1, 0.1, 0))
        else:
            kwargs.update(vxy=v, vxy_sigma=(1, 1), axy_sigma=(0.1, 0.1))
        model = c["model"](c["xy"][k], HOUR, **kwargs)
        model.seed = c["seeds"][k]
        models.append(model)
    return tracker, models


def times(c, obs=None):
    ts = sorted({t for o in (obs or c["obs"]) for t in o})
    return ts[::-1] if c["backward"] else ts


@R.sub(
    scenes(),
    quick=60,
    thorough=1200,
    rule="moving textures seen by one or two observers; non-trivial if the initial velocity is "
    "wrong",
)
def recovers_motion(c, ctx):
    if any(c["error"]):
        ctx.hit("backward" if c["backward"] else "forward", c["method"])
    ts = times(c)
    tracker, models = scene(c)
    tracks = tracker.track(models, datetimes=[when(t) for t in ts])
    check(all(tracks.success), "no errors", errors=tracks.errors)
    for k in range(len(models)):
        start = np.array(c["xy"][k])
        truth = start + np.outer(np.array(ts) - ts[0], c["velocity"])
        error = np.abs(tracks.xyz[k, :, :2] - truth).max()
        # (rarely above 0.5 pixel)
        check(error < 1.25, "tracks follow the texture", error=error)
        speed = np.abs(tracks.vxyz[k, -1, :2] - c["velocity"]).max()
        check(speed < 0.75, "velocity of the texture", error=speed)


@R.sub(
    scenes(),
    quick=60,
    thorough=1200,
    rule="tracks together and alone; non-trivial if there are several tracks or processes",
)
def tracks_are_independent(c, ctx):
    ts = [when(t) for t in times(c)]
    tracker, models = scene(c)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        together = tracker.track(
            models, datetimes=ts, parallel=c["parallel"], return_particles=True
        )
        if len(models) > 1:
            ctx.hit("tracks", "parallel%s" % c["parallel"])
        for k in range(len(models)):
            # Alone, by a new tracker
            single, model = scene(c, tracks=[k])
            alone = single.track(model, datetimes=ts, return_particles=True)
            for name in ("means", "sigmas", "particles"):
                close(getattr(together, name)[k], getattr(alone, name)[0], rtol=1e-6, atol=1e-6,
                      msg="track alone: " + name)
            # An observer that is masked or matches no datetime does not matter
            other = [*c["obs"], [20, 21]]
            more, model = scene(c, obs=other, tracks=[k])
            close(more.track(model, datetimes=ts).means[0], alone.means[0], rtol=1e-6, atol=1e-6,
                  msg="observer without images at the datetimes")
            masked, model = scene(c, obs=[*c["obs"], c["obs"][0]], tracks=[k])
            mask = np.array([[True] * len(c["obs"]) + [False]])
            got = masked.track(model, datetimes=ts, observer_mask=mask)
            close(got.means[0], alone.means[0], rtol=1e-6, atol=1e-6, msg="masked observer")
            # Again by the same tracker: nothing is left from tracking before
            model = scene(c, tracks=[k])[1]
            again = tracker.track(model, datetimes=ts)
            close(again.means[0], alone.means[0], rtol=1e-6, atol=1e-6, msg="tracked again")


@R.sub(
    st.fixed_dictionaries(
        {
            "times": st.lists(st.integers(0, 6), unique=True, min_size=3, max_size=5).map(sorted),
            "skip": st.integers(0, 4),
            "cache": st.booleans(),
            "tracks": st.integers(1, 2),
            "bands": st.sampled_from([1, 3]),
        }
    ),
    quick=20,
    thorough=200,
    rule="image files; non-trivial if cached",
)
def caches_image_files(c, ctx):
    images = []
    for t in c["times"]:
        path = os.path.join(TMP, f"track-{c['bands']}.png")
        if not os.path.exists(path):
            a = _base.astype(np.uint8)
            cv2.imwrite(path, a if c["bands"] == 1 else np.dstack([a] * 3))
        cam = {"imgsz": (NX, NY), "f": (NX, NX), "xyz": (0, 0, NX), "viewdir": (0, -90, 0)}
        images.append(glimpse.Image(path, cam=cam, datetime=when(t)))
    obs = glimpse.Observer(images, cache=c["cache"])
    tracker = glimpse.Tracker([obs])
    skip = c["skip"] % len(c["times"])
    ts = [when(t) for i, t in enumerate(c["times"]) if i != skip]
    models = [
        CartesianMotion((k, -k), HOUR, dem=0, n=50, xy_sigma=(0.5, 0.5)) for k in range(c["tracks"])
    ]
    tracks = tracker.track(models, datetimes=ts)
    cached = [img.array is not None for img in images]
    want = [c["cache"] and i != skip for i in range(len(images))]
    if c["cache"]:
        ctx.hit("tracks%d" % c["tracks"])
    check(cached == want, "images are cached as asked for", got=cached, want=want)
    check(all(tracks.success), "tracked")
    check(np.abs(tracks.xyz[0, -1, :2]).max() < 2, "still image, still track", got=tracks.xyz[0])


# ---- Tracks ---- #


@st.composite
def results(draw):
    n, m, p = draw(st.integers(1, 3)), draw(st.integers(2, 5)), draw(st.integers(1, 4))
    spans = [
        draw(st.one_of(st.none(), st.tuples(st.integers(0, m - 1), st.integers(0, m - 1)).map(sorted)))
        for _ in range(n)
    ]
    return {
        "n": n, "m": m, "p": p, "spans": spans, "seed": draw(st.integers(0, 9999)),
        "spread": draw(st.sampled_from(["sigmas", "covariances", "none"])),
        "container": draw(st.sampled_from(["array", "tuple"])),
        "errors": draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n))),
        "warnings": draw(st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=n, max_size=n))),
        "index": draw(st.sampled_from(["all", "first", "list", "slice"])),
        "particles": draw(st.booleans()),
        "map_size": (draw(st.integers(2, 30)), draw(st.integers(2, 30))),
    }


def build_tracks(c):
    rng = np.random.default_rng(c["seed"])
    n, m = c["n"], c["m"]
    means = rng.normal(0, 10, (n, m, 6))
    root = rng.normal(0, 1, (n, m, 6, 6))
    cov = np.einsum("abij,abkj->abik", root, root)
    for k, span in enumerate(c["spans"]):
        keep = np.zeros(m, bool)
        if span is not None:
            keep[span[0] : span[1] + 1] = True
        means[k, ~keep] = np.nan
        cov[k, ~keep] = np.nan
    sigmas = np.sqrt(np.einsum("abii->abi", cov))
    f = (lambda x: x) if c["container"] == "array" else tuple
    kwargs = {"means": f(means)}
    if c["spread"] == "sigmas":
        kwargs["sigmas"] = f(sigmas)
    elif c["spread"] == "covariances":
        kwargs["covariances"] = f(cov)
    if c["particles"]:
        kwargs["particles"] = f(rng.normal(0, 1, (n, m, c["p"], 6)))
        kwargs["weights"] = f(rng.uniform(0, 1, (n, m, c["p"])))
    if c["errors"] is not None:
        kwargs["errors"] = tuple(ValueError("x") if e else None for e in c["errors"])
    if c["warnings"] is not None:
        kwargs["warnings"] = tuple(tuple("ab"[:w]) or None for w in c["warnings"])
    times = [T0 + i * HOUR for i in range(m)]
    return Tracks(times, 2 * HOUR, **kwargs), means, sigmas, kwargs, times


@R.sub(
    results(),
    quick=250,
    thorough=4000,
    rule="results of tracking; non-trivial if tracks start or end early",
)
def results_describe_tracks(c, ctx):
    tracks, means, sigmas, kwargs, times = build_tracks(c)
    n, m = c["n"], c["m"]
    if any(s is None or s != [0, m - 1] for s in c["spans"]):
        ctx.hit(c["spread"], c["index"])
    same(tracks.xyz, means[:, :, :3], msg="positions")
    same(tracks.vxyz, means[:, :, 3:], msg="velocities")
    if c["spread"] == "none":
        check(tracks.xyz_sigma is None and tracks.vxyz_sigma is None, "no spread")
    else:
        close(tracks.xyz_sigma, sigmas[:, :, :3], rtol=1e-12, msg="position sigma")
        close(tracks.vxyz_sigma, sigmas[:, :, 3:], rtol=1e-12, msg="velocity sigma")
    if c["errors"] is None:
        check(tracks.success is None, "unknown success")
    else:
        check(list(tracks.success) == [not e for e in c["errors"]], "success")
    if c["warnings"] is not None:
        check(np.shape(tracks.warnings) == (n,), "one element per track")
        check(list(tracks.warnings) == list(kwargs["warnings"]), "warnings")
    if c["particles"]:
        check(tracks.particles.shape == (n, m, c["p"], 6), "particles")
        check(tracks.weights.shape == (n, m, c["p"]), "weights")
    index = {"all": slice(None), "first": [0], "list": list(range(n))[::-1], "slice": slice(0, 2)}[c["index"]]
    which = list(np.arange(n)[index])
    args = () if c["index"] == "all" else (index,)
    valid, first, last = tracks.endpoints(*args)
    spans = [c["spans"][k] for k in which]
    check(list(valid) == [s is not None for s in spans], "tracks with any position")
    check([list(x) for x in zip(first, last)] == [s for s in spans if s is not None], "endpoints",
          got=(first, last), want=spans)
    # Plots
    fig, ax = plt.subplots()
    try:
        tkw = {} if c["index"] == "all" else {"tracks": index}
        sigma = c["spread"] != "none"
        got = tracks.plot_xy(sigma=sigma, **tkw)
        check(len(got["mean"]) == len(which), "one line per track")
        for line, k in zip(got["mean"], which):
            same(np.column_stack(line.get_data()), means[k, :, :2], msg="plotted path")
        xy = np.vstack([np.column_stack(x.get_data()) for x in got["start"]])
        same(xy, means[which, 0, :2], msg="plotted starts")
        check(("sigma" in got) == sigma, "plotted spread")
        for bars, k in zip(got.get("sigma", ()), which):
            keep = np.isfinite(means[k, :, 0])
            at, s = means[k, keep, :2], sigmas[k, keep, :2]
            for axis, segments in enumerate(x.get_segments() for x in bars[2]):
                ends = np.array([x for x in segments if len(x) == 2 and np.isfinite(x).all()]).reshape(-1, 2, 2)
                off = np.zeros((len(at), 2))
                off[:, axis] = s[:, axis]
                close(ends[:, 0], at - off, rtol=1e-6, msg="start of bars")
                close(ends[:, 1], at + off, rtol=1e-6, msg="end of bars")
        for k, q in zip(which, tracks.plot_vxy(**tkw)):
            keep = np.isfinite(means[k, :, 0])
            close(np.asarray(q.U)[keep], means[k, keep, 3], msg="plotted velocity x")
            close(np.asarray(q.V)[keep], means[k, keep, 4], msg="plotted velocity y")
            close(np.column_stack((q.X, q.Y))[keep], means[k, keep, :2], msg="plotted positions")
            check(q.angles == "xy", "arrows point along the velocity", got=q.angles)
        # By default, paths and starts in black
        got = tracks.plot_xy(**tkw)
        check(set(got) == {"mean", "start"}, "plotted by default", got=set(got))
        same_color = matplotlib.colors.same_color
        check(all(same_color(x.get_color(), "black") for x in got["mean"] + got["start"]), "black")
        check(all(x.get_linestyle() == "None" and x.get_marker() == "." for x in got["start"]), "dots")
        # The rest follows the color of the path, unless stated
        got = tracks.plot_xy(mean={"color": "red"}, sigma=sigma, **tkw)
        check(all(same_color(x.get_color(), "red") for x in got["mean"] + got["start"]), "color of path")
        for bars in got.get("sigma", ()):
            check(same_color(bars[2][0].get_color()[0][:3], "red"), "color of spread")
        got = tracks.plot_xy(mean={"color": "red"}, start={"color": "blue", "marker": "s"}, **tkw)
        check(all(same_color(x.get_color(), "blue") and x.get_marker() == "s" for x in got["start"]),
              "stated color")
        check(set(tracks.plot_xy(mean=False, **tkw)) == {"start"}, "only starts")
        check(set(tracks.plot_xy(start=False, **tkw)) == {"mean"}, "only paths")
        dim = c["seed"] % 3
        plt.figure(fig.number)
        fig2, _ = plt.subplots()
        got = tracks.plot_v1d(dim, sigma=sigma, **tkw)
        for line, k in zip(got["mean"], which):
            same(np.asarray(line.get_ydata(), float), means[k, :, 3 + dim], msg="plotted velocity")
        check(set(tracks.plot_v1d(dim, **tkw)) == {"mean"}, "plotted by default")
        if sigma:
            other = tracks.plot_v1d(dim, mean={"color": "red"}, sigma=True, **tkw)
            check(all(same_color(x.get_facecolor()[0][:3], "red") for x in other["sigma"]), "color of spread")
            other = tracks.plot_v1d(dim, mean=False, sigma={"facecolor": "blue"}, **tkw)
            check(set(other) == {"sigma"}, "only spread")
            check(all(same_color(x.get_facecolor()[0][:3], "blue") for x in other["sigma"]), "stated color")
            for poly, k in zip(got["sigma"], which):
                keep = np.isfinite(means[k, :, 0])
                if keep.sum() > 1:
                    y = np.vstack([p.vertices for p in poly.get_paths()])[:, 1]
                    v, s = means[k, keep, 3 + dim], sigmas[k, keep, 3 + dim]
                    close((y.min(), y.max()), ((v - s).min(), (v + s).max()), rtol=1e-6, msg="plotted range")
        plt.close(fig2)
    finally:
        plt.close(fig)


@R.sub(
    results(),
    quick=50,
    thorough=800,
    rule="animations of tracks without images; non-trivial if tracks start or end early",
)
def animates_tracks(c, ctx):
    tracks, means, _, kwargs, times = build_tracks(c)
    rng = np.random.default_rng(c["seed"])
    n, m = c["n"], c["m"]
    grid = np.array([[i if rng.uniform() < 0.8 else None] for i in range(m)], dtype=object)
    tracks.images = grid
    k = 0
    frames = [i for i in range(m) if np.isfinite(means[k, i, 0]) and grid[i, 0] is not None]
    if len(frames) < 2:
        return
    if len(frames) < m:
        ctx.hit("gaps", "particles" if c["particles"] else "-")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        anim = tracks.animate(k, map_size=c["map_size"])
        fig = anim._fig
        try:
            check([int(i) for i in anim.new_frame_seq()] == frames[:-1], "frames",
                  got=list(anim.new_frame_seq()), want=frames)
            for j, i in enumerate(frames[:-1]):
                anim._draw_frame(i)
                ax = fig.axes[0]
                path = np.column_stack(ax.lines[0].get_data())
                same(path, means[k, : i + 1, :2], msg="path so far")
                w, h = c["map_size"]
                close(ax.get_xlim(), means[k, i, 0] + np.array((-w, w)) / 2, msg="view")
                close(ax.get_ylim(), means[k, i, 1] + np.array((-h, h)) / 2, msg="view")
                # Velocity arrow: to the next frame, if known
                scale = 1.0
                if c["particles"]:
                    scale = (times[frames[j + 1]] - times[i]) / (2 * HOUR)
                arrows = [q for q in ax.collections]
                check(len(arrows) == 1 + c["particles"], "arrows of this frame only", got=len(arrows))
                close((arrows[-1].U[0], arrows[-1].V[0]), means[k, i, 3:5] * scale, msg="mean velocity")
                close((arrows[-1].X[0], arrows[-1].Y[0]), means[k, i, :2], msg="arrow from the mean")
                for q in arrows:
                    # Arrows end where the particles would move
                    style = (q.angles, q.scale, q.scale_units)
                    check(style == ("xy", 1, "xy"), "arrows in map units", got=style)
                if c["particles"]:
                    close(arrows[0].U, tracks.particles[k, i, :, 3] * scale, msg="particle velocities")
                    close(arrows[0].V, tracks.particles[k, i, :, 4] * scale, msg="particle velocities")
                    close(arrows[0].X, tracks.particles[k, i, :, 0], msg="particle positions")
                    close(arrows[0].Y, tracks.particles[k, i, :, 1], msg="particle positions")
                    close(np.asarray(arrows[0].get_array()), tracks.weights[k, i], msg="particle weights")
        finally:
            anim._draw_was_started = True
            plt.close(fig)


@st.composite
def filmed_tracks(draw):
    c = draw(results())
    c["m"] = draw(st.integers(3, 6))
    c["spans"] = [
        draw(st.tuples(st.integers(0, c["m"] - 1), st.integers(0, c["m"] - 1)).map(sorted)) for _ in range(c["n"])
    ]
    return {
        **c, "observers": draw(st.integers(1, 2)), "track": draw(st.integers(0, c["n"] - 1)),
        "obs": draw(st.integers(0, 1)), "some": draw(st.booleans()),
        "img_size": draw(st.sampled_from([(10, 10), (21, 8), (7, 16)])),
        "images": draw(st.sampled_from([None, None, True, False])),
        "show_particles": draw(st.sampled_from([None, None, False])),
    }


def frame_image(seed, j, i):
    path = os.path.join(TMP, f"c23-film-{seed}-{j}-{i}.png")
    a = np.random.default_rng([seed, j, i]).integers(0, 255, (60, 80, 3), dtype=np.uint8)
    if not os.path.exists(path):
        cv2.imwrite(path, a[:, :, ::-1])
    cam = {"imgsz": (80, 60), "f": (80.0, 80.0), "xyz": (j, 0, 0), "viewdir": (i / 4, j / 3, 0)}
    return glimpse.Image(path, cam=cam, datetime=T0 + i * HOUR), a


@R.sub(
    filmed_tracks(),
    quick=60,
    thorough=1000,
    rule="animations of tracks on images; non-trivial if tracks start or end early or some times have no image",
)
def animates_tracks_on_images(c, ctx):
    tracks, means, _, kwargs, times = build_tracks(c)
    rng = np.random.default_rng(c["seed"])
    m, k, o = c["m"], c["track"], c["obs"] % c["observers"]
    # In front of the cameras
    for a in (tracks.means, *([tracks.particles] if c["particles"] else [])):
        a[..., :3] = a[..., :3] / 3 + (0, 80, 0)
    means = tracks.means.copy()
    if c["particles"]:
        gone = np.isnan(means[:, :, 0])
        tracks.particles[gone], tracks.weights[gone] = np.nan, np.nan
    films, arrays = [], []
    for j in range(c["observers"]):
        images, pixels = zip(*(frame_image(c["seed"] % 20, j, i) for i in range(m)))
        films.append(glimpse.Observer(list(images)))
        arrays.append(pixels)
    tracks.tracker = glimpse.Tracker(films)
    grid = np.array(
        [[i if rng.uniform() < 0.8 else None for _ in films] for i in range(m)], dtype=object
    )
    tracks.images = grid
    wanted = list(range(m))
    kw = {"obs": o} if o else {}
    if c["some"]:
        wanted = sorted(rng.choice(m, m - 1, replace=False).tolist())
        kw["frames"] = wanted
    for name, key in (("images", "images"), ("particles", "show_particles")):
        if c[key] is not None:
            kw[name] = c[key]
    with_images = c["images"] is not False
    with_particles = c["particles"] and c["show_particles"] is None
    frames = [i for i in wanted if np.isfinite(means[k, i, 0]) and grid[i, o] is not None]
    if len(frames) < 2:
        return
    if len(frames) < m:
        ctx.hit("gaps", "particles" if with_particles else "-", "images" if with_images else "-",
                "second" if o else "first")
    size = np.array(c["img_size"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        anim = tracks.animate(k, map_size=c["map_size"], img_size=c["img_size"], **kw)
        fig = anim._fig
        try:
            check([int(i) for i in anim.new_frame_seq()] == frames[:-1], "frames")
            check(len(fig.axes) == 1 + with_images, "axes")
            for j, i in enumerate(frames[:-1]):
                anim._draw_frame(i)
                ax = fig.axes[0]
                same(np.column_stack(ax.lines[0].get_data()), means[k, : i + 1, :2], msg="path so far")
                scale = (times[frames[j + 1]] - times[i]) / (2 * HOUR)
                close((ax.collections[-1].U[0], ax.collections[-1].V[0]), means[k, i, 3:5] * scale,
                      msg="mean velocity")
                check(len(ax.collections) == 1 + with_particles, "arrows of this frame only")
                limits = None
                if with_particles:
                    w = tracks.weights[k]
                    limits = (np.nanmin(w), np.nanmax(w))
                    same(np.asarray(ax.collections[0].get_array()), tracks.weights[k, i], msg="particle weights")
                    same(ax.collections[0].get_clim(), limits, msg="limits of weights over all times")
                name = f"c23-film-{c['seed'] % 20}-{o}-{i}" if with_images else f"{o} : {i}"
                check([t.get_text() for t in ax.texts] == [name], "name of the image", got=ax.texts)
                if not with_images:
                    continue
                ax = fig.axes[1]
                image = films[o].images[i]
                uv = image.xyz_to_uv(means[k, : i + 1, :3])
                same(np.column_stack(ax.lines[0].get_data()), uv, msg="path so far in the image")
                same(np.ravel(ax.lines[1].get_data()), uv[-1], msg="position in the image")
                close(ax.get_xlim(), uv[-1, 0] + size[0] * np.array((-0.5, 0.5)), msg="image view")
                close(ax.get_ylim(), uv[-1, 1] + size[1] * np.array((0.5, -0.5)), msg="image view")
                check(len(ax.images) == 1, "one tile")
                left, right, bottom, top = (int(round(x)) for x in ax.images[0].get_extent())
                same(np.asarray(ax.images[0].get_array()), arrays[o][i][top:bottom, left:right], msg="tile")
                check((right - left, bottom - top) == tuple(size), "tile size")
                check(np.all(np.abs(((left + right) / 2, (top + bottom) / 2) - uv[-1]) <= 0.5 + 1e-6),
                      "tile at the position")
                check(len(ax.collections) == with_particles, "particles in the image")
                if with_particles:
                    got = ax.collections[0]
                    close(np.asarray(got.get_offsets()), image.xyz_to_uv(tracks.particles[k, i, :, :3]),
                          msg="particles in the image")
                    same(np.asarray(got.get_array()), tracks.weights[k, i], msg="weights in the image")
                    same(got.get_clim(), limits, msg="limits of weights in the image")
        finally:
            anim._draw_was_started = True
            plt.close(fig)

"""C20 Motion models of particles."""
import datetime

import numpy as np
from core import Registry, check, close, same, st
from gens import finite

import glimpse
from glimpse.track import (
    CartesianMotion,
    CylindricalMotion,
    TangentCartesianMotion,
    TangentCylindricalMotion,
)
from glimpse.track.motion import Motion

R = Registry("C20")

KINDS = {
    "basic": Motion,
    "cartesian": CartesianMotion,
    "cylindrical": CylindricalMotion,
    "tangent_cartesian": TangentCartesianMotion,
    "tangent_cylindrical": TangentCylindricalMotion,
}
UNITS = [
    datetime.timedelta(days=1),
    datetime.timedelta(hours=1),
    datetime.timedelta(seconds=30),
    datetime.timedelta(days=365, hours=6),
]


@st.composite
def surfaces(draw, low=-50, high=50):
    """Number, plane, or rough raster (None only where asked for)."""
    kind = draw(st.sampled_from(["number", "plane", "rough"]))
    if kind == "number":
        return {"kind": kind, "z": draw(finite(low, high))}
    if kind == "plane":
        slopes = [draw(finite(-1, 1)), draw(finite(-1, 1))]
        return {"kind": kind, "z": draw(finite(low, high)), "slopes": slopes}
    return {"kind": kind, "seed": draw(st.integers(0, 999)), "low": low, "high": high,
            "flip": draw(st.booleans())}


@st.composite
def sigma_surfaces(draw):
    kind = draw(st.sampled_from(["number", "zero", "half", "rough"]))
    if kind == "rough":
        return {"kind": kind, "seed": draw(st.integers(0, 999)), "low": 0.5, "high": 3.0,
                "flip": draw(st.booleans())}
    if kind == "half":
        return {"kind": kind, "z": draw(finite(0.5, 3)), "x": draw(finite(-3, 3))}
    return {"kind": "number", "z": 0.0 if kind == "zero" else draw(finite(0.25, 3))}


def surface(s):
    """The surface as given to a motion model."""
    if s is None:
        return None
    if s["kind"] == "number":
        return s["z"]
    # Cell size 8 (rough) or 100 (plane)
    if s["kind"] == "plane":
        x = np.arange(-950, 951, 100.0)
        z = s["z"] + s["slopes"][0] * x[None, :] + s["slopes"][1] * x[::-1, None]
        return glimpse.Raster(z, x=(-1000, 1000), y=(1000, -1000))
    if s["kind"] == "half":
        # Zero west of x, positive east of it
        x = np.arange(-995, 1000, 10.0)
        z = np.where(x < s["x"] - 20, 0, s["z"]) * np.ones((200, 1))
        return glimpse.Raster(z, x=(-1000, 1000), y=(1000, -1000))
    z = rough(s)
    if s["flip"]:
        return glimpse.Raster(z[::-1], x=(-1000, 1000), y=(-1000, 1000))
    return glimpse.Raster(z, x=(-1000, 1000), y=(1000, -1000))


def rough(s):
    return np.random.default_rng(s["seed"]).uniform(s["low"], s["high"], (100, 100))


def elevation(s, xy):
    """Value of the surface at points."""
    if s["kind"] == "number":
        return np.full(len(xy), float(s["z"]))
    if s["kind"] == "plane":
        return s["z"] + s["slopes"][0] * xy[:, 0] + s["slopes"][1] * xy[:, 1]
    if s["kind"] == "half":
        x = np.arange(-995, 1000, 10.0)
        return np.interp(xy[:, 0], x, np.where(x < s["x"] - 20, 0, s["z"]))
    z = rough(s)
    u = (xy[:, 0] + 1000) / 20 - 0.5
    v = (1000 - xy[:, 1]) / 20 - 0.5
    i, j = np.floor(v).astype(int), np.floor(u).astype(int)
    a, b = v - i, u - j
    return (
        z[i, j] * (1 - a) * (1 - b) + z[i + 1, j] * a * (1 - b)
        + z[i, j + 1] * (1 - a) * b + z[i + 1, j + 1] * a * b
    )


def triple(draw, lo, hi, n=3, zero=True):
    values = st.one_of(finite(lo, hi), st.just(0.0)) if zero else finite(lo, hi)
    return [draw(values) for _ in range(n)]


def sigmas(draw, hi, n, random):
    """Standard deviations: all zero unless random."""
    if not random:
        return [0.0] * n
    return [draw(st.sampled_from([0.0, 0.3 * hi, hi])) for _ in range(n)]


@st.composite
def models(draw, random=None, kinds=tuple(KINDS), n=None):
    kind = draw(st.sampled_from(kinds))
    if random is None:
        random = draw(st.booleans())
    c = {
        "kind": kind,
        "xy": triple(draw, -50, 50, 2),
        "unit": draw(st.integers(0, len(UNITS) - 1)),
        "n": n or draw(st.sampled_from([1, 2, 7, 40])),
        "seed": draw(st.integers(0, 2**31)),
        "container": draw(st.sampled_from(["tuple", "list", "array"])),
    }
    if kind == "basic":
        c["v_sigma"] = sigmas(draw, 2.0, 3, random)
        return c
    m = 2 if "tangent" in kind else 3
    c["dem"] = draw(surfaces())
    c["dem_sigma"] = draw(sigma_surfaces()) if random else {"kind": "number", "z": 0.0}
    if m == 3 and draw(st.integers(0, 4)) == 0:
        c["dem_sigma"] = None
    c["xy_sigma"] = sigmas(draw, 2.0, 2, random)
    c["v"] = triple(draw, -5, 5, m)
    c["v_sigma"] = sigmas(draw, 2.0, m, random)
    c["a"] = triple(draw, -2, 2, m)
    c["a_sigma"] = sigmas(draw, 1.0, m, random)
    if "cylindrical" in kind:
        # Speed away from zero (unless zero), any direction
        speed = draw(st.sampled_from([0.0, 0.5, 3.0, 8.0]))
        c["v"][:2] = [speed, draw(finite(-7, 7))]
        c["v_sigma"][0] *= 0.1 * speed / 2
        c["a"][1] = draw(st.sampled_from([0.0, 0.3, -1.0]))
    if m == 2:
        c["slope_sigma"] = draw(st.sampled_from([0.0, 0.1, 0.5])) if random else 0.0
    return c


def contain(c, values):
    return {"tuple": tuple, "list": list, "array": np.array}[c["container"]](values)


def build(c, unit=None, **replace):
    c = {**c, **replace}
    unit = UNITS[c["unit"]] if unit is None else unit
    xy = contain(c, c["xy"])
    if c["kind"] == "basic":
        return Motion(xy, unit, n=c["n"], vxyz_sigma=contain(c, c["v_sigma"]))
    names = {
        "cartesian": ("vxyz", "axyz"), "cylindrical": ("vrthz", "arthz"),
        "tangent_cartesian": ("vxy", "axy"), "tangent_cylindrical": ("vrth", "arth"),
    }[c["kind"]]
    kwargs = {"dem": surface(c["dem"]), "n": c["n"], "xy_sigma": contain(c, c["xy_sigma"])}
    kwargs["dem_sigma"] = surface(c["dem_sigma"])
    kwargs[names[0]] = contain(c, c["v"])
    kwargs[names[0] + "_sigma"] = contain(c, c["v_sigma"])
    kwargs[names[1]] = contain(c, c["a"])
    kwargs[names[1] + "_sigma"] = contain(c, c["a_sigma"])
    if "slope_sigma" in c:
        kwargs["slope_sigma"] = c["slope_sigma"]
    if c["kind"] == "cartesian" and c["dem_sigma"] is None:
        del kwargs["dem_sigma"]
    return KINDS[c["kind"]](xy, unit, **kwargs)


def standard_normal(z, what):
    """Columns look like independent standard normal samples."""
    n = len(z)
    check(np.isfinite(z).all(), what + " is finite")
    check(np.all(np.abs(z.mean(axis=0)) < 7 / n**0.5), what + ": mean", got=z.mean(axis=0))
    check(
        np.all(np.abs(z.std(axis=0) - 1) < 7 / (2 * n) ** 0.5),
        what + ": standard deviation", got=z.std(axis=0),
    )
    if z.shape[1] > 1:
        r = np.corrcoef(z.T) - np.eye(z.shape[1])
        check(np.all(np.abs(r) < 7 / n**0.5), what + ": independent components", got=r)
    # Tails: neither constant magnitude nor uniform
    check(abs((z**4).mean() - 3) < 1.5, what + ": kurtosis", got=(z**4).mean())


def follows(values, mean, sigma, what, tol=1e-9):
    """Columns are Normal(mean, sigma), exactly mean where sigma is 0.

    Returns the standardised columns with non-zero sigma.
    """
    out = []
    for i in range(values.shape[1]):
        m, s = np.broadcast_to(mean[i], len(values)), np.broadcast_to(sigma[i], len(values))
        zero = s == 0
        close(values[zero, i], m[zero], rtol=tol, atol=tol * (1 + np.abs(m).max()), msg=what)
        if not zero.any():
            out.append((values[:, i] - m) / s)
    return out


# ---- Initial particles ---- #


@R.sub(
    models(n=3000),
    quick=250,
    thorough=6000,
    rule="all motion models; non-trivial if some position, height or velocity is random, or "
    "the surface varies",
)
def initial_particles_follow_the_distributions(c, ctx):
    if "dem" not in c or c["dem"]["kind"] != "number" or any(c["v_sigma"]):
        ctx.hit(c["kind"], c.get("dem", {"kind": "-"})["kind"])
    model = build(c)
    np.random.seed(c["seed"])
    p = model.initialize_particles()
    check(p.shape == (c["n"], 6) and p.dtype == float, "shape", got=p.shape)
    columns = follows(p[:, :2], c["xy"], c.get("xy_sigma", (0, 0)), "position")
    if c["kind"] == "basic":
        close(p[:, 2], np.zeros(c["n"]), msg="height")
        columns += follows(p[:, 3:], (0, 0, 0), c["v_sigma"], "velocity")
    else:
        z = elevation(c["dem"], p[:, :2])
        sigma = 0.0
        if c["dem_sigma"] is not None:
            sigma = elevation(c["dem_sigma"], p[:, :2])
        columns += follows(p[:, 2:3], [z], [sigma], "height", tol=1e-8)
        if "cylindrical" not in c["kind"]:
            m = len(c["v"])
            columns += follows(p[:, 3 : 3 + m], c["v"], c["v_sigma"], "velocity")
        else:
            speed = np.hypot(p[:, 3], p[:, 4])
            check(speed.min() > 0 or c["v"][0] == 0, "speed is not lost")
            columns += follows(speed[:, None], c["v"][:1], c["v_sigma"][:1], "speed")
            if c["v"][0] > 0:
                th = np.arctan2(p[:, 4], p[:, 3]) - c["v"][1]
                if c["v_sigma"][1] < 0.7:
                    # Wrapping is not an issue for small sigma
                    th = (th + np.pi) % (2 * np.pi) - np.pi
                    columns += follows(th[:, None], [0.0], c["v_sigma"][1:2], "direction", 1e-8)
            else:
                close(p[:, 3:5], np.zeros((c["n"], 2)), msg="at rest")
            if len(c["v"]) == 3:
                columns += follows(p[:, 5:], c["v"][2:], c["v_sigma"][2:], "velocity z")
        if len(c["v"]) == 2:
            close(p[:, 5], np.zeros(c["n"]), msg="no vertical velocity")
    if columns:
        ctx.hit("random")
        standard_normal(np.column_stack(columns), "initial particles")
    # Drawn afresh, apart from earlier particles
    p, given = p.copy(), p
    given += 1
    another = model.initialize_particles()
    if columns:
        check((another != p).any(), "other random numbers, other particles")
    check(not np.shares_memory(another, given), "particles of their own")
    # Repeatable
    np.random.seed(c["seed"])
    close(model.initialize_particles(), p, msg="repeats for the same random seed")
    np.random.seed(c["seed"])
    close(build(c).initialize_particles(), p, msg="repeats for an equal model")


@R.sub(
    st.tuples(
        models(n=3000, random=True, kinds=("cylindrical", "tangent_cylindrical")),
        st.sampled_from([0.0, 0.5, -0.5, 3.0, -8.0]),
        st.sampled_from([0.0, 0.5, 2.0]),
    ),
    quick=100,
    thorough=2500,
    rule="speeds of either sign along a direction; non-trivial if both signs are drawn",
)
def speeds_of_either_sign(args, ctx):
    c, speed, sigma = args
    c = {**c, "v": [speed, *c["v"][1:]], "v_sigma": [sigma, 0.0, *c["v_sigma"][2:]]}
    if sigma > abs(speed) / 3:
        ctx.hit(c["kind"])
    model = build(c)
    np.random.seed(c["seed"])
    p = model.initialize_particles()
    th = c["v"][1]
    along = p[:, 3] * np.cos(th) + p[:, 4] * np.sin(th)
    across = p[:, 4] * np.cos(th) - p[:, 3] * np.sin(th)
    close(across, np.zeros(c["n"]), atol=1e-9, msg="no velocity across the direction")
    columns = follows(along[:, None], [speed], [sigma], "velocity along the direction")
    if columns:
        standard_normal(np.column_stack(columns), "velocity along the direction")


# ---- Evolution ---- #


@st.composite
def steps(draw, **kwargs):
    c = draw(models(**kwargs))
    # Steps in time units: whole microseconds
    c["dt"] = draw(
        st.one_of(
            st.sampled_from([1.0, -1.0, 0.0, 0.5, 2.0, -3.0]), finite(-3, 3)
        )
    )
    c["start"] = draw(st.sampled_from(["initial", "scattered"]))
    return c


def scatter(c, n):
    """Particles away from the initial ones (as after steps and resampling)."""
    rng = np.random.default_rng(c["seed"])
    p = np.column_stack((rng.uniform(-90, 90, (n, 2)), rng.uniform(-60, 60, n), rng.normal(0, 3, (n, 3))))
    if "tangent" in c["kind"]:
        p[:, 5] = 0
    # Some along the axes
    p[1 :: max(n // 5, 2), 4] = 0
    p[2 :: max(n // 7, 2), 3] = 0
    # Some at rest
    p[:: max(n // 3, 2), 3:5] = 0
    return p


def moved(c, p0, p1, t):
    """Relations between particles before and after a step (t time units).

    Returns standardised random accelerations.
    """
    if c["kind"] == "basic":
        close(p1[:, :3], p0[:, :3] + t * p0[:, 3:], rtol=1e-9, atol=1e-7, msg="position")
        same(p1[:, 3:], p0[:, 3:], msg="velocity is constant")
        return []
    m = len(c["a"])
    # Acceleration is constant over a step
    close(
        p1[:, :m] - p0[:, :m] if m == 2 else p1[:, :3] - p0[:, :3],
        t * (p0[:, 3 : 3 + m] + p1[:, 3 : 3 + m]) / 2,
        rtol=1e-7, atol=1e-6, msg="mean of first and last velocity is the velocity of the step",
    )
    if abs(t) < 1e-3:
        return []
    a = (p1[:, 3 : 3 + m] - p0[:, 3 : 3 + m]) / t
    mean = np.array(c["a"], float)
    if "cylindrical" in c["kind"]:
        speed = np.hypot(p0[:, 3], p0[:, 4])
        th = np.where(speed > 0, np.arctan2(p0[:, 4], p0[:, 3]), c["v"][1])
        radial = a[:, 0] * np.cos(th) + a[:, 1] * np.sin(th)
        tangential = -a[:, 0] * np.sin(th) + a[:, 1] * np.cos(th)
        some = speed > 1e-3
        # At rest: only the size of the acceleration is determined
        rest = ~some
        close(
            np.hypot(a[rest, 0], a[rest, 1]) if not c["a_sigma"][0] else [],
            np.full(rest.sum(), abs(mean[0])) if not c["a_sigma"][0] else [],
            rtol=1e-6, atol=1e-2, msg="acceleration at rest",
        )
        b = np.column_stack((radial[some], tangential[some] / speed[some]))
        if m == 3:
            b = np.column_stack((b, a[some, 2]))
        a = b
    if not len(a):
        return []
    return follows(a, mean, c["a_sigma"], "acceleration", tol=1e-5)


@R.sub(
    steps(n=3000),
    quick=250,
    thorough=6000,
    rule="all motion models, time steps and units; non-trivial if particles move",
)
def evolves_particles(c, ctx):
    unit = UNITS[c["unit"]]
    dt = datetime.timedelta(microseconds=round(c["dt"] * unit / datetime.timedelta(microseconds=1)))
    t = dt / unit
    if t:
        ctx.hit(c["kind"], c["start"], "backward" if t < 0 else "forward")
    model = build(c)
    np.random.seed(c["seed"])
    if c["start"] == "initial":
        p = model.initialize_particles()
    else:
        p = scatter(c, c["n"])
    before = p.copy()
    state = np.random.get_state()
    check(model.evolve_particles(p, dt=dt) is None, "evolves in place")
    check(p.shape == before.shape and np.isfinite(p).all(), "all particles are valid")
    columns = moved(c, before, p, t)
    if "tangent" in c["kind"]:
        close(p[:, 5], before[:, 5], msg="vertical velocity")
        h0 = before[:, 2] - elevation(c["dem"], before[:, :2])
        h1 = p[:, 2] - elevation(c["dem"], p[:, :2])
        d = np.hypot(*(p[:, :2] - before[:, :2]).T)
        if c["slope_sigma"] == 0:
            close(h1, h0, rtol=1e-7, atol=1e-6, msg="height above the surface is kept")
        else:
            still = d < 1e-6
            close(h1[still], h0[still], rtol=1e-7, atol=1e-5, msg="height of particles at rest")
            some = d > 1e-4
            slopes = (h1 - h0)[some] / (d[some] * c["slope_sigma"])
            if len(slopes) > 1000:
                ctx.hit("slopes")
                standard_normal(slopes[:, None], "slopes")
                if columns and len(columns[0]) == len(slopes):
                    columns.append(slopes)
    if columns:
        ctx.hit("random")
        standard_normal(np.column_stack(columns), "accelerations and slopes")
    if t == 0:
        close(p, before, rtol=1e-12, atol=1e-6, msg="no time, no motion")
    np.random.set_state(state)
    again = before.copy()
    model.evolve_particles(again, dt=dt)
    # (to rounding, which depends on how memory is aligned)
    close(again, p, rtol=1e-9, atol=1e-9, msg="repeats for the same random state")


@R.sub(
    steps(random=False),
    quick=400,
    thorough=12000,
    rule="motion without randomness; non-trivial if split into steps of different length",
)
def evolution_without_randomness(c, ctx):
    """Closed forms and relations of motion without randomness."""
    unit = UNITS[c["unit"]]
    us = datetime.timedelta(microseconds=1)
    dt = round(c["dt"] * unit / us) * us
    model = build(c)
    p = scatter(c, c["n"])
    if c["start"] == "initial":
        p = model.initialize_particles()
        check((p == p[0]).all(), "initial particles are equal")
    whole = p.copy()
    model.evolve_particles(whole, dt=dt)
    # Each particle evolves alone
    for i in range(0, c["n"], max(1, c["n"] // 3)):
        one = p[i : i + 1].copy()
        model.evolve_particles(one, dt=dt)
        close(one[0], whole[i], rtol=1e-12, atol=1e-9, msg="particles evolve alone")
    # Time units only scale time
    k = 7
    other = {}
    if c["kind"] != "basic" and "cylindrical" not in c["kind"]:
        other = {"a": [x * k * k for x in c["a"]]}
    elif c["kind"] != "basic":
        # Radial acceleration scales by time squared, rotation by time
        other = {"a": [c["a"][0] * k * k, c["a"][1] * k] + [x * k * k for x in c["a"][2:]]}
    scaled = build(c, unit=unit * k, **other)
    q = p.copy()
    q[:, 3:] *= k
    scaled.evolve_particles(q, dt=dt)
    q[:, 3:] /= k
    close(q, whole, rtol=1e-9, atol=1e-6, msg="velocities per longer unit of time")
    if "cylindrical" in c["kind"] and c["a"][1]:
        return
    # Constant acceleration (in a straight line for cylindrical): steps add up
    f = 0.375
    first = round(dt / us * f) * us
    if "cylindrical" in c["kind"]:
        # As long as the direction does not reverse
        a, speed = c["a"][0], np.hypot(p[:, 3], p[:, 4])
        t = dt / unit
        if ((speed + a * t <= 1e-6) | (speed < 1e-6)).any():
            return
    if first and dt - first:
        ctx.hit(c["kind"], "steps")
    steps = p.copy()
    model.evolve_particles(steps, dt=first)
    model.evolve_particles(steps, dt=dt - first)
    close(steps, whole, rtol=1e-7, atol=1e-6, msg="two steps make one")
    model.evolve_particles(steps, dt=-dt)
    close(steps, p, rtol=1e-7, atol=1e-6, msg="backward undoes forward")


# ---- Likelihoods ---- #


@R.sub(
    models(n=60),
    quick=300,
    thorough=8000,
    rule="all motion models; non-trivial if heights have a likelihood",
)
def heights_have_the_stated_likelihood(c, ctx):
    model = build(c)
    p = scatter(c, c["n"])
    p[0, :2] = 0
    p[1, 2] = elevation(c["dem"], p[1:2, :2])[0] if "dem" in c else 0
    before = p.copy()
    got = model.compute_log_likelihoods(p)
    same(p, before, msg="particles are unchanged")
    if c["kind"] not in ("cartesian", "cylindrical") or c["dem_sigma"] is None:
        check(got is None, "no likelihood", got=got)
        return
    ctx.hit(c["dem_sigma"]["kind"])
    z, sigma = elevation(c["dem"], p[:, :2]), elevation(c["dem_sigma"], p[:, :2])
    want = np.zeros(len(p))
    some = sigma > 0
    want[some] = ((p[some, 2] - z[some]) / sigma[some]) ** 2 / 2
    # Ramps from zero amplify rounding
    close(got, want, rtol=1e-5, atol=1e-8, msg="(negative log) likelihood of heights")


# ---- Defaults ---- #


@R.sub(
    models(n=1, random=False),
    quick=100,
    thorough=2000,
    rule="models given only a position, a unit of time and a surface; all non-trivial",
)
def only_what_is_asked_for_is_random(c, ctx):
    ctx.hit(c["kind"])
    unit = UNITS[c["unit"]]
    dem = {"dem": surface(c["dem"])} if "dem" in c else {}
    model = KINDS[c["kind"]](contain(c, c["xy"]), unit, **dem)
    np.random.seed(c["seed"])
    p = model.initialize_particles()
    check(p.shape == (1000, 6), "default number of particles", got=p.shape)
    z = elevation(c["dem"], np.array([c["xy"]])) if dem else np.zeros(1)
    want = np.zeros((1000, 6))
    want[:, 0:2] = c["xy"]
    want[:, 2] = z
    close(p, want, rtol=1e-9, atol=1e-9, msg="at rest at the position")
    # ... and stay there
    for dt in (unit, -3 * unit):
        model.evolve_particles(p, dt=dt)
        close(p, want, rtol=1e-9, atol=1e-9, msg="particles at rest stay")
    if c["kind"] in ("cartesian", "cylindrical"):
        check(model.compute_log_likelihoods(p) is None, "heights have no likelihood by default")

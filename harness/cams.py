"""Camera generators and an independent reference of the camera model."""
import numpy as np
from core import st
from gens import finite


def mostly_zero(lo, hi):
    return st.one_of(st.just(0.0), finite(lo, hi))


@st.composite
def position(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return (0.0, 0.0, 0.0)
    if kind == 1:
        return tuple(draw(st.integers(-50, 50)) * 1.0 for _ in range(3))
    if kind == 2:
        return tuple(draw(finite(-1000, 1000)) for _ in range(3))
    return (
        400000.0 + draw(finite(0, 200000)),
        6700000.0 + draw(finite(0, 100000)),
        draw(finite(0, 3000)),
    )


angle = st.one_of(
    st.sampled_from([0.0, 90.0, -90.0, 180.0, 45.0, 270.0, -30.0, 360.0]),
    finite(-360, 720),
)
pitch = st.one_of(st.sampled_from([0.0, -90.0, 90.0, 30.0, -45.0]), finite(-89, 89))

NO_K = (0.0,) * 6


def coef(lo, hi, zero=True):
    """Distortion coefficient (no denormal or vanishing values)."""
    v = finite(lo, hi).map(lambda x: round(x, 6))
    return st.one_of(st.just(0.0), v) if zero else v


@st.composite
def distortion(draw, kind=None, size=1.0):
    """(k, p) of a given kind; `size` bounds the coefficients."""
    kind = kind or draw(
        st.sampled_from(["none", "k1", "k1", "p", "k123", "k456", "full", "full"])
    )
    k, p = list(NO_K), [0.0, 0.0]
    if kind == "k1":
        k[0] = draw(coef(-0.3, 0.3, zero=False)) * size
    if kind in ("k123", "full"):
        k[0] = draw(coef(-0.2, 0.2)) * size
        k[1] = draw(coef(-0.1, 0.1)) * size
        k[2] = draw(coef(-0.05, 0.05)) * size
    if kind in ("k456", "full"):
        k[3] = draw(coef(-0.1, 0.2)) * size
        k[4] = draw(coef(-0.05, 0.1)) * size
        k[5] = draw(coef(-0.02, 0.05)) * size
    if kind in ("p", "full"):
        p = [draw(coef(-0.02, 0.02)) * size for _ in range(2)]
    return {"k": tuple(k), "p": tuple(p)}


@st.composite
def cameras(draw, kind=None, size=1.0, max_n=4000, min_n=2, correction=True):
    nx = draw(st.one_of(st.integers(min_n, min(max_n, 60)), st.integers(min_n, max_n)))
    ny = draw(st.one_of(st.integers(min_n, min(max_n, 60)), st.integers(min_n, max_n)))
    fx = nx * draw(finite(0.5, 3))
    fy = draw(st.sampled_from([fx, fx, fx * 1.1, fx * 0.8]))
    spec = {
        "imgsz": (nx, ny),
        "f": (fx, fy),
        "c": (draw(mostly_zero(-0.1, 0.1)) * nx, draw(mostly_zero(-0.1, 0.1)) * ny),
        "xyz": draw(position()),
        "viewdir": (draw(angle), draw(pitch), draw(st.one_of(st.just(0.0), angle))),
    }
    spec.update(draw(distortion(kind, size)))
    if correction:
        spec["correction"] = draw(
            st.sampled_from(
                [
                    False,
                    False,
                    False,
                    True,
                    {"refraction": 0.2},
                    {"radius": 1e5},
                    {"radius": 3.4e6, "refraction": 0.0},
                ]
            )
        )
    return spec


# ---- Reference ------------------------------------------------------------- #


def axes(viewdir):
    """Right, down and forward axes of the camera in the world."""
    yaw, tilt, roll = np.deg2rad(np.asarray(viewdir, float))
    forward = np.array(
        (np.sin(yaw) * np.cos(tilt), np.cos(yaw) * np.cos(tilt), np.sin(tilt))
    )
    right = np.array((np.cos(yaw), -np.sin(yaw), 0.0))
    down = np.cross(forward, right)
    return (
        np.cos(roll) * right + np.sin(roll) * down,
        -np.sin(roll) * right + np.cos(roll) * down,
        forward,
    )


def radial_factor(k, r2):
    return (1 + k[0] * r2 + k[1] * r2 ** 2 + k[2] * r2 ** 3) / (
        1 + k[3] * r2 + k[4] * r2 ** 2 + k[5] * r2 ** 3
    )


def distort(k, p, x, y):
    r2 = x * x + y * y
    dr = radial_factor(k, r2)
    return (
        x * dr + 2 * p[0] * x * y + p[1] * (r2 + 2 * x * x),
        y * dr + p[0] * (r2 + 2 * y * y) + 2 * p[1] * x * y,
    )


def to_uv(spec, x, y):
    xd, yd = distort(spec["k"], spec["p"], x, y)
    return np.column_stack(
        (
            xd * spec["f"][0] + spec["imgsz"][0] / 2 + spec["c"][0],
            yd * spec["f"][1] + spec["imgsz"][1] / 2 + spec["c"][1],
        )
    )


def curvature(spec, dx, dy):
    corr = spec.get("correction", False)
    if corr is False:
        return 0.0
    corr = {} if corr is True else corr
    radius = corr.get("radius", 6.3781e6)
    refraction = corr.get("refraction", 0.13)
    return -(1 - refraction) * (dx * dx + dy * dy) / (2 * radius)


def project(spec, xyz, directions=False):
    """Image coordinates and depth of world coordinates (NaN behind)."""
    d = np.array(xyz, float)
    if not directions:
        d = d - np.array(spec["xyz"])
        d[:, 2] += curvature(spec, d[:, 0], d[:, 1])
    right, down, forward = axes(spec["viewdir"])
    X, Y, Z = d @ right, d @ down, d @ forward
    with np.errstate(all="ignore"):
        uv = to_uv(spec, X / Z, Y / Z)
    uv[Z <= 0] = np.nan
    return uv, Z


def world(spec, x, y, depth):
    """World direction of (undistorted) camera coordinates at a depth."""
    right, down, forward = axes(spec["viewdir"])
    x, y, depth = (np.asarray(v, float)[:, None] for v in (x, y, depth))
    return depth * (x * right + y * down + forward)

"""C01 Projection of world to image coordinates against a reference model."""
import cams
import numpy as np
from core import Registry, check, close, same, st
from gens import finite

import glimpse.config
from glimpse import Camera

R = Registry("C01")

cam_point = st.tuples(
    st.one_of(st.sampled_from([0.0, 0.5, -0.25]), finite(-1.2, 1.2)),
    st.one_of(st.sampled_from([0.0, 0.5, -0.25]), finite(-1.2, 1.2)),
    st.one_of(finite(2, 50), finite(50, 20000)),
    st.sampled_from([1, 1, 1, 1, -1]),
)


def tolerance(spec, depth):
    """Image error from rounding of world coordinates of this size."""
    size = 1 + np.abs(spec["xyz"]).max() + np.abs(depth).max()
    return 1e-7 + 1e-14 * size * max(spec["f"]) * 50 / np.abs(depth).min()


def usable(spec, x, y):
    r2 = x * x + y * y
    k = spec["k"]
    return np.abs(1 + k[3] * r2 + k[4] * r2 ** 2 + k[5] * r2 ** 3) > 0.1


@st.composite
def case_points(draw):
    return {
        "cam": draw(cams.cameras()),
        "points": draw(st.lists(cam_point, min_size=1, max_size=8)),
        "matmul": draw(st.booleans()),
        "shift": draw(st.sampled_from([(0, 0, 0), (64, -32, 8), (1024, 2048, 0)])),
    }


def setup(case):
    spec = case["cam"]
    x, y, depth, sgn = np.array(case["points"]).T
    keep = usable(spec, x, y)
    x, y, depth, sgn = x[keep], y[keep], depth[keep], sgn[keep]
    d = cams.world(spec, x, y, depth) * sgn[:, None]
    return spec, d, x, y, depth, sgn


@R.sub(
    case_points(),
    quick=3000,
    thorough=60000,
    rule="random cameras (any orientation, principal point, distortion, corrections) "
    "and world points before and behind; non-trivial with distortion, correction, a "
    "rotated camera or a point behind",
)
def against_reference(case, ctx):
    spec, d, x, y, depth, sgn = setup(case)
    if not len(d):
        return
    cam = Camera(**spec)
    glimpse.config.matmul = case["matmul"]
    try:
        xyz = d + np.array(spec["xyz"])
        before = xyz.copy()
        want, want_depth = cams.project(spec, xyz)
        tol = tolerance(spec, depth)
        uv = cam.xyz_to_uv(xyz)
        same(xyz, before, "input changed")
        uv2, z = cam.xyz_to_uv(xyz, return_depth=True)
        same(uv2, uv, "return_depth changes coordinates")
        ok = np.ones(len(xyz), bool)
        if spec["correction"]:
            # Corrections may move points across the camera plane
            ok = np.abs(want_depth) > 1e-3 * depth
        # amplified by points seen far off axis
        scale = 1 + np.nan_to_num(np.abs(want).max(axis=1)) / max(spec["imgsz"])
        close((uv / scale[:, None])[ok], (want / scale[:, None])[ok], rtol=1e-6, atol=tol * 10, msg="uv", spec=spec)
        close(z, want_depth, rtol=1e-6, atol=1e-6 * np.abs(depth).max(), msg="depth")
        behind = want_depth <= 0
        check((np.isnan(uv).all(axis=1) == behind)[ok].all(), "behind is not NaN")
        if spec["correction"] is False:
            check((cam.infront(xyz) == (want_depth > 0)).all(), "infront")
        # Ray directions have no position or corrections
        got = cam.xyz_to_uv(d, directions=True)
        want, want_depth = cams.project(spec, d, directions=True)
        close(got, want, rtol=1e-6, atol=tol * 10, msg="directions")
        check((cam.infront(d, directions=True) == (want_depth > 0)).all(), "infront d")
        # Independent of the other points
        one = np.vstack([cam.xyz_to_uv(xyz[i : i + 1]) for i in range(len(xyz))])
        close(one, uv, rtol=1e-9, atol=1e-7, msg="one at a time")
    finally:
        glimpse.config.matmul = True
    if any(spec["k"]) or any(spec["p"]):
        ctx.hit("distorted")
    if spec["correction"]:
        ctx.hit("correction")
    if any(spec["viewdir"]):
        ctx.hit("rotated")
    if (sgn < 0).any():
        ctx.hit("behind")


@R.sub(
    case_points(),
    quick=1000,
    thorough=20000,
    rule="metamorphic: moving camera and points together, scaling distances, scaling "
    "the image; non-trivial when a point is in front",
)
def invariances(case, ctx):
    spec, d, x, y, depth, sgn = setup(case)
    if not len(d):
        return
    spec = {**spec, "correction": False}
    tol = 10 * tolerance(spec, depth)
    cam = Camera(**spec)
    uv = cam.xyz_to_uv(d + cam.xyz)
    if (sgn > 0).any():
        ctx.hit()
    moved = Camera(**{**spec, "xyz": np.add(spec["xyz"], case["shift"])})
    close(moved.xyz_to_uv(d + moved.xyz), uv, atol=tol, rtol=1e-6, msg="moved together")
    close(cam.xyz_to_uv(2 * d + cam.xyz), uv, atol=tol, rtol=1e-6, msg="twice as far")
    close(cam.xyz_to_uv(d, directions=True), uv, atol=tol, rtol=1e-6, msg="as directions")
    # A full turn changes nothing
    turned = Camera(**{**spec, "viewdir": np.add(spec["viewdir"], (360, 0, -360))})
    close(turned.xyz_to_uv(d + cam.xyz), uv, atol=tol * 10, rtol=1e-6, msg="full turn")
    # Twice the pixels, same view
    big = Camera(
        **{
            **spec,
            "imgsz": np.multiply(spec["imgsz"], 2),
            "f": np.multiply(spec["f"], 2),
            "c": np.multiply(spec["c"], 2),
        }
    )
    close(big.xyz_to_uv(d + cam.xyz), uv * 2, atol=tol * 2, rtol=1e-6, msg="resized")
    # Yaw turns the world about the vertical
    a = np.deg2rad(37.0)
    # clockwise turn of directions by 37 degrees
    M = np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
    yawed = Camera(**{**spec, "viewdir": np.add(spec["viewdir"], (37.0, 0, 0))})
    close(
        yawed.xyz_to_uv(d @ M.T, directions=True), uv, atol=tol * 10, rtol=1e-6, msg="yaw"
    )


@R.sub(
    st.tuples(cams.angle, st.one_of(cams.pitch, cams.angle), cams.angle),
    quick=500,
    thorough=10000,
    rule="rotation matrices of random view directions; non-trivial when rotated about "
    "two axes or more",
)
def rotation(case, ctx):
    cam = Camera(imgsz=10, f=10, viewdir=case)
    if np.count_nonzero(np.mod(case, 360)) > 1:
        ctx.hit()
    M = cam.R
    close(M, np.array(cams.axes(case)), atol=1e-9, msg="rotation matrix")
    close(M @ M.T, np.eye(3), atol=1e-9, msg="orthonormal")
    close(np.linalg.det(M), 1.0, atol=1e-9, msg="handedness")
    # Derivative with respect to each angle
    h = 1e-3
    for i in range(3):
        hi, lo = list(case), list(case)
        hi[i] += h
        lo[i] -= h
        want = (np.array(cams.axes(hi)) - np.array(cams.axes(lo))) / (2 * h)
        close(cam.Rprime[:, i, :].T, want, atol=1e-8, msg="derivative", i=i)


@R.sub(
    st.fixed_dictionaries(
        {
            "points": st.lists(
                st.tuples(
                    st.integers(-8, 8), st.sampled_from([-4, 0, 0, 2]), st.integers(-8, 8)
                ),
                min_size=1,
                max_size=6,
            ),
            "xyz": st.tuples(*[st.integers(-100, 100)] * 3),
            "k1": st.sampled_from([0.0, 0.1]),
        }
    ),
    quick=300,
    thorough=3000,
    rule="integer points before, behind and on the plane of a camera looking north; "
    "non-trivial with a point on the plane",
)
def camera_plane(case, ctx):
    cam = Camera(imgsz=(12, 8), f=10, xyz=case["xyz"], k=case["k1"])
    d = np.array(case["points"])
    on = d[:, 1] == 0
    if on.any():
        ctx.hit()
    uv, z = cam.xyz_to_uv(d + np.array(case["xyz"]), return_depth=True)
    same(z, d[:, 1].astype(float), "depth")
    check((np.isnan(uv).all(axis=1) == (d[:, 1] <= 0)).all(), "not in front is NaN")
    check(not np.isinf(uv).any(), "infinite image coordinates")
    check((cam.infront(d + np.array(case["xyz"])) == (d[:, 1] > 0)).all(), "infront")
    check(not cam.inframe(uv)[d[:, 1] <= 0].any(), "behind the camera but in frame")

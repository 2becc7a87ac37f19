"""C02 Image to world coordinates invert the projection."""
import cams
import numpy as np
from core import Registry, check, close, same, st
from gens import finite

import glimpse.config
from glimpse import Camera

R = Registry("C02")

image_point = st.one_of(
    st.tuples(finite(0, 1), finite(0, 1)),
    st.tuples(st.sampled_from([0.0, 0.25, 0.5, 1.0]), finite(0, 1)),
    st.tuples(finite(0, 1), st.sampled_from([0.0, 0.5, 0.75, 1.0])),
    st.just("principal"),
    st.tuples(st.just("cx"), finite(0, 1)),
    st.tuples(finite(0, 1), st.just("cy")),
)


def image_points(spec, points):
    n = np.array(spec["imgsz"], float)
    c = n / 2 + np.array(spec["c"])
    out = []
    for p in points:
        if p == "principal":
            out.append(c)
        else:
            u = c[0] if p[0] == "cx" else p[0] * n[0]
            v = c[1] if p[1] == "cy" else p[1] * n[1]
            out.append((u, v))
    return np.array(out, dtype=float)


@R.sub(
    st.tuples(
        cams.cameras(kind="none", correction=False),
        st.lists(st.sampled_from(["k1", "k1", "k1", "k2", "k4", "p1"]), min_size=1, max_size=2, unique=True),
        st.integers(1, 300), st.sampled_from([1, -1]), finite(1, 10),
        st.lists(image_point, min_size=1, max_size=6),
        finite(0.5, 5000),
    ),
    quick=500,
    thorough=10000,
    rule="cameras whose distortion is nearly none, to any degree; non-trivial below 1e-6",
)
def vanishing_distortion(case, ctx):
    spec, names, e, s, digits, points, depth = case
    # Fields of view in which even the largest of these distortions are moderate
    f = max(spec["imgsz"]) * 1.5
    spec = {**spec, "f": (f, f * 1.1)}
    k, p = [0.0] * 6, [0.0] * 2
    value = s * min(digits * 10.0**-e, 0.05)
    for name in names:
        (k if name[0] == "k" else p)[int(name[1]) - 1] = value
    if abs(value) < 1e-6:
        ctx.hit(*names)
    uv = image_points(spec, points)
    got = Camera(**{**spec, "k": tuple(k), "p": tuple(p)})
    plain = Camera(**{**spec, "k": (0.0,) * 6, "p": (0.0,) * 2})
    with np.errstate(all="ignore"):
        d = got.uv_to_xyz(uv)
        xyz = got.uv_to_xyz(uv, directions=False, depth=depth)
    close(got.xyz_to_uv(d, directions=True), uv, 0, 1e-6, "image point of the ray")
    tol = 1e-6 + 1e-12 * (np.abs(spec["xyz"]).max() + depth) * f / depth
    close(got.xyz_to_uv(xyz), uv, 0, tol, "image point of the world point")
    if abs(value) < 1e-11:
        close(plain.xyz_to_uv(d, directions=True), uv, 0, 1e-6, "undistorted")


@st.composite
def inverse_case(draw):
    spec = draw(cams.cameras(size=0.5, correction=False))
    # Keep distortion moderate (invertible, contracting) over the whole frame
    corner = np.hypot(
        (spec["imgsz"][0] / 2 + abs(spec["c"][0])) / spec["f"][0],
        (spec["imgsz"][1] / 2 + abs(spec["c"][1])) / spec["f"][1],
    )
    if corner > 0.7:
        s = corner / 0.7
        spec["f"] = (spec["f"][0] * s, spec["f"][1] * s)
    n = draw(st.integers(1, 6))
    return {
        "cam": spec,
        "uv": [draw(image_point) for _ in range(n)],
        "depth": draw(
            st.one_of(
                st.sampled_from([1, 1.0, 10, 2.5]),
                finite(0.5, 5000),
                st.lists(finite(0.5, 5000), min_size=n, max_size=n),
                st.lists(st.just(1.0), min_size=n, max_size=n),
            )
        ),
        "matmul": draw(st.booleans()),
    }


@R.sub(
    inverse_case(),
    quick=3000,
    thorough=60000,
    rule="image points (centre, edges, on the principal axes) of cameras with moderate "
    "distortion, unprojected to a depth and projected back; non-trivial with distortion",
)
def image_to_world(case, ctx):
    spec = case["cam"]
    cam = Camera(**spec)
    glimpse.config.matmul = case["matmul"]
    try:
        uv = image_points(spec, case["uv"])
        before = uv.copy()
        if any(spec["k"]) or any(spec["p"]):
            ctx.hit("distorted")
        depth = case["depth"]
        vec = isinstance(depth, list)
        if vec:
            depth = np.array(depth)
            ctx.label("vector depth")
        size = 1 + np.abs(spec["xyz"]).max()
        dmin = np.min(depth)
        tol = 1e-6 + 1e-14 * (size + np.max(depth)) * max(spec["f"]) * 50 / dmin
        # Directions with unit distance along the optical axis
        d = cam.uv_to_xyz(uv)
        check(d.shape == (len(uv), 3), "shape", got=d.shape)
        _, _, forward = cams.axes(spec["viewdir"])
        close(d @ forward, np.ones(len(uv)), atol=1e-9, msg="unit depth")
        close(cam.xyz_to_uv(d, directions=True), uv, atol=1e-6, msg="directions back")
        want, _ = cams.project({**spec, "correction": False}, d, directions=True)
        close(want, uv, atol=1e-6, msg="directions back (reference)")
        check(cam.infront(d, directions=True).all(), "ray behind the camera")
        # Depth scales the rays
        dd = cam.uv_to_xyz(uv, depth=depth)
        scale = depth[:, None] if vec else depth
        close(dd, d * scale, rtol=1e-9, atol=1e-9, msg="depth scales rays")
        # World coordinates
        xyz = cam.uv_to_xyz(uv, directions=False, depth=depth)
        close(xyz, dd + np.array(spec["xyz"]), rtol=1e-9, atol=1e-9, msg="position added")
        back, z = cam.xyz_to_uv(xyz, return_depth=True)
        close(back, uv, atol=tol, msg="round trip", spec=spec)
        close(z, np.broadcast_to(depth, (len(uv),)), rtol=1e-9, atol=1e-8 * size, msg="depth")
        same(uv, before, "input changed")
    finally:
        glimpse.config.matmul = True


@st.composite
def world_case(draw):
    spec = draw(cams.cameras(size=0.5, correction=False))
    return {
        "cam": spec,
        "points": draw(
            st.lists(
                st.tuples(
                    st.one_of(st.just(0.0), finite(-0.5, 0.5)),
                    st.one_of(st.just(0.0), finite(-0.5, 0.5)),
                    finite(1, 10000),
                ),
                min_size=1,
                max_size=6,
            )
        ),
    }


@R.sub(
    world_case(),
    quick=2000,
    thorough=40000,
    rule="world points in view, projected and unprojected to their depth; non-trivial "
    "with distortion",
)
def world_to_image(case, ctx):
    spec = case["cam"]
    cam = Camera(**spec)
    if any(spec["k"]) or any(spec["p"]):
        ctx.hit("distorted")
    x, y, depth = np.array(case["points"]).T
    xyz = cams.world(spec, x, y, depth) + np.array(spec["xyz"])
    uv, z = cam.xyz_to_uv(xyz, return_depth=True)
    size = 1 + np.abs(xyz).max()
    close(
        cam.uv_to_xyz(uv, directions=False, depth=z),
        xyz,
        rtol=0,
        atol=1e-7 * max(1, depth.max()) + 1e-12 * size,
        msg="world round trip",
        spec=spec,
    )


@st.composite
def k1_case(draw):
    k1 = draw(
        st.one_of(
            finite(-0.9, 0.9).map(lambda v: round(v, 6)),
            st.sampled_from([1e-8, -1e-8, 0.5, -0.5, -1.0, 2.0, 1e-4, -1e-4]),
        )
    )
    rmax = 2.0 if k1 >= 0 else min(2.0, 0.98 / np.sqrt(3 * abs(k1) + 1e-12))
    return {
        "k1": k1,
        "points": draw(
            st.lists(
                st.tuples(
                    st.one_of(st.just(0.0), finite(0, rmax)),
                    st.one_of(
                        st.sampled_from([0.0, 90.0, 180.0, 270.0, -90.0]), finite(0, 360)
                    ),
                ),
                min_size=1,
                max_size=8,
            )
        ),
    }


@R.sub(
    k1_case().filter(lambda c: c["k1"] != 0),
    quick=2000,
    thorough=30000,
    rule="first-order radial distortion of any strength up to where it stops being "
    "invertible, directions on and off the axes; non-trivial off centre",
)
def strong_radial(case, ctx):
    cam = Camera(imgsz=(2000, 1000), f=1000, k=case["k1"])
    r, a = np.array(case["points"]).T
    x, y = r * np.cos(np.deg2rad(a)), r * np.sin(np.deg2rad(a))
    # exactly on the axes
    x[np.isin(a, (90.0, 270.0, -90.0))] = 0.0
    y[np.isin(a, (0.0, 180.0))] = 0.0
    if (r > 0).any():
        ctx.hit("k1<0" if case["k1"] < 0 else "k1>0")
    xd, yd = cams.distort((case["k1"],) + (0.0,) * 5, (0.0, 0.0), x, y)
    uv = np.column_stack((xd * 1000 + 1000, yd * 1000 + 500))
    xyz = cam.uv_to_xyz(uv)
    # slope of the distortion bounds the conditioning
    slope = 1 + 3 * case["k1"] * r ** 2
    tol = 1e-7 / np.maximum(slope, 1e-3).min()
    close(xyz[:, 0], x, atol=tol, msg="x", k1=case["k1"])
    close(xyz[:, 1], np.ones(len(x)), atol=1e-9, msg="depth")
    close(xyz[:, 2], -y, atol=tol, msg="z", k1=case["k1"])


@R.sub(
    st.fixed_dictionaries(
        {
            "imgsz": st.tuples(st.integers(40, 400), st.integers(40, 400)),
            "focal": finite(0.6, 3),
            "ratio": st.sampled_from([1.0, 1.0, 0.25, 4.0]),
            "kind": st.sampled_from(
                ["none", "plus", "inside", "outside", "p", "p row", "p column"]
            ),
            "sign": st.sampled_from([-1, 1]),
            "t": finite(0.05, 0.9),
        }
    ),
    quick=400,
    thorough=5000,
    rule="cameras with reversible and clearly irreversible distortion; non-trivial when "
    "distorted",
)
def reversible(case, ctx):
    nx, ny = case["imgsz"]
    f = case["focal"] * max(nx, ny)
    f = (f, f * case["ratio"])
    half = max(nx / (2 * f[0]), ny / (2 * f[1]))
    corner = np.hypot(nx / (2 * f[0]), ny / (2 * f[1]))
    k1, p = 0.0, (0.0, 0.0)
    want = True
    if case["kind"] == "plus":
        k1 = case["t"]
    elif case["kind"] == "p":
        p = (0.02 / corner * case["t"], -0.02 / corner * case["t"])
    elif case["kind"] == "inside":
        # turning point 1 / sqrt(3 |k1|) inside the frame
        k1 = -1 / (3 * (half * min(case["t"], 0.85)) ** 2)
        want = False
    elif case["kind"] in ("p row", "p column"):
        # Along the row, x + 3 p2 x^2 turns at 1 / (6 |p2|), on one side only
        i = case["kind"] == "p column"
        turn = (nx, ny)[i] / (2 * f[i]) * min(case["t"], 0.85)
        p = (0.0, case["sign"] / (6 * turn)) if not i else (case["sign"] / (6 * turn), 0.0)
        want = False
    elif case["kind"] == "outside":
        k1 = -1 / (3 * (corner * (1.05 + case["t"])) ** 2)
    if case["kind"] != "none":
        ctx.hit(case["kind"])
    cam = Camera(imgsz=(nx, ny), f=f, k=k1, p=p)
    check(bool(cam.reversible()) == want, "reversible", k1=k1, want=want)


@R.sub(
    st.fixed_dictionaries(
        {
            "xyz": cams.position(),
            "angles": st.lists(
                st.tuples(
                    st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0]), finite(0, 359.99)),
                    st.one_of(st.sampled_from([0.0, 45.0, -30.0]), finite(-89, 89)),
                    finite(0.5, 5000),
                ),
                min_size=1,
                max_size=6,
            ),
        }
    ),
    quick=800,
    thorough=15000,
    rule="azimuth, altitude and distance to world coordinates and back; non-trivial "
    "away from the cardinal directions",
)
def spherical(case, ctx):
    cam = Camera(imgsz=10, f=10, xyz=case["xyz"])
    a = np.array(case["angles"])
    before = a.copy()
    az, alt = np.deg2rad(a[:, 0]), np.deg2rad(a[:, 1])
    if (a[:, 0] % 90).any():
        ctx.hit()
    unit = np.column_stack(
        (np.sin(az) * np.cos(alt), np.cos(az) * np.cos(alt), np.sin(alt))
    )
    size = 1 + np.abs(case["xyz"]).max()
    close(cam.spherical_to_xyz(a[:, :2]), unit, atol=1e-9, msg="directions")
    xyz = cam.spherical_to_xyz(a)
    close(xyz, unit * a[:, 2:] + case["xyz"], atol=1e-8, rtol=1e-12, msg="coordinates")
    back = cam.xyz_to_spherical(xyz)

    def compare(got, want, tol, msg):
        close((got[:, 0] - want[:, 0] + 180) % 360 - 180, np.zeros(len(want)), atol=tol, msg=msg)
        close(got[:, 1], want[:, 1], atol=tol, msg=msg)
        check(((got[:, 0] >= 0) & (got[:, 0] <= 360)).all(), "azimuth range")

    compare(back, a, 1e-6 + 1e-13 * size * 60 / a[:, 2].min() * 1e2, "angles round trip")
    close(back[:, 2], a[:, 2], atol=1e-8 * size, msg="distance")
    back = cam.xyz_to_spherical(unit, directions=True)
    check(back.shape == (len(a), 2), "distances of directions", shape=back.shape)
    compare(back, a[:, :2], 1e-5, "directions")
    same(a, before, "input changed")

"""C28 Orientation of the cameras of an observer from matches between its images."""
import contextlib
import datetime
import io
import os
import shutil
import tempfile
import warnings

import cv2
import numpy as np
import scipy.sparse
from core import Registry, check, close, same, st
import cams as ref
from gens import finite

import glimpse
from glimpse.optimize import ObserverCameras, RotationMatchesXYZ

R = Registry("C28")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
PATH = os.path.join(TMP, "orient.jpg")


def image(i, spec):
    if not os.path.exists(PATH):
        cv2.imwrite(PATH, np.zeros((15, 20), np.uint8))
    return glimpse.Image(
        PATH, cam=spec, datetime=datetime.datetime(2020, 1, 1) + i * datetime.timedelta(1)
    )


@st.composite
def observers(draw):
    n = draw(st.integers(2, 4))
    spread = draw(st.sampled_from([0.0, 0.5, 3.0, 10.0]))
    return {
        "n": n,
        "viewdir": (draw(finite(-180, 180)), draw(finite(-35, 35)), draw(finite(-20, 20))),
        "spread": spread,
        "error": draw(st.sampled_from([0.05, 0.5, 1.5])),
        "anchors": draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=2)),
        "default_anchor": draw(st.booleans()),
        "graph": draw(st.sampled_from(["all", "chain", "star"])),
        "points": draw(st.integers(8, 25)),
        "seed": draw(st.integers(0, 9999)),
        "format": draw(st.sampled_from(["coo", "csr", "dense"])),
        "k": draw(st.sampled_from([0.0, 0.05])),
        "weight": draw(st.sampled_from([None, 1e4])),
        "noise": draw(st.sampled_from([0.0, 0.0, 0.5])),
    }


def unit(x):
    return x / np.linalg.norm(x, axis=1, keepdims=True)


def build(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    base = {
        "imgsz": (300, 200), "f": (400.0, 410.0), "c": (2.0, -1.0),
        "k": (c["k"], 0, 0, 0, 0, 0), "p": (0.0, 0.0), "xyz": (10.0, 20.0, 5.0),
    }
    truth = np.array(c["viewdir"]) + rng.uniform(-1, 1, (n, 3)) * c["spread"]
    anchors = [0] if c["default_anchor"] else c["anchors"]
    start = truth + rng.uniform(-1, 1, (n, 3)) * c["error"]
    start[anchors] = truth[anchors]
    specs = [{**base, "viewdir": tuple(v)} for v in truth]
    pairs = {
        "all": [(i, j) for i in range(n) for j in range(i + 1, n)],
        "chain": [(i, i + 1) for i in range(n - 1)],
        "star": [(0, j) for j in range(1, n)],
    }[c["graph"]]
    observer = glimpse.Observer(
        [image(i, {**base, "viewdir": tuple(v)}) for i, v in enumerate(start)]
    )
    grid = np.full((n, n), None, dtype=object)
    data = []
    for i, j in pairs:
        # Directions seen by both cameras
        m = 0
        d = np.zeros((0, 3))
        middle = {**base, "viewdir": tuple((truth[i] + truth[j]) / 2)}
        d = unit(ref.world(middle, rng.uniform(-0.3, 0.3, c["points"]), rng.uniform(-0.2, 0.2, c["points"]), np.ones(c["points"])))
        uvs = []
        for k in (i, j):
            uv, depth = ref.project(specs[k], d, directions=True)
            uvs.append(uv + rng.normal(0, 1, uv.shape) * c["noise"])
        grid[i, j] = RotationMatchesXYZ(
            (observer.images[i].cam, observer.images[j].cam), uvs=uvs
        )
        data.append((i, j, grid[i, j]))
    if c["format"] != "dense":
        rows, cols, values = zip(*data)
        matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)), shape=(n, n))
        matches.data = np.empty(len(data), dtype=object)
        matches.data[:] = values
        if c["format"] == "csr":
            grid = np.full((n, n), None, dtype=object)
    if c["format"] == "coo":
        given = matches
    else:
        given = np.full((n, n), None, dtype=object)
        for i, j, m in data:
            given[i, j] = m
    return observer, given, data, truth, start, anchors


def objective(viewdirs, c, data, start, anchors, weight):
    """Sum of absolute differences of the rays of matches."""
    total = sum(weight / 2 * ((viewdirs[i] - start[i]) ** 2).sum() for i in anchors)
    for i, j, m in data:
        rays = []
        for k, xy in zip((i, j), m.xys):
            spec = {"viewdir": tuple(viewdirs[k])}
            rays.append(unit(ref.world(spec, xy[:, 0], xy[:, 1], np.ones(len(xy)))))
        total += np.abs(rays[0] - rays[1]).sum()
    return total


def check_gradient(model, kwargs, fun, start):
    """The gradient at the start, which a fit of no iterations returns."""
    with contextlib.redirect_stdout(io.StringIO()):
        result = model.fit(options={"maxiter": 0}, **kwargs)
    jac = np.asarray(result.get("jac", ()))
    if jac.shape != (start.size,) or not np.array_equal(result.x, start.ravel()):
        return
    h = 1e-5
    here = fun(start)
    for k in range(start.size):
        step = np.zeros(start.size)
        step[k] = h
        step = step.reshape(start.shape)
        up, down = (fun(start + step) - here) / h, (here - fun(start - step)) / h
        # (nothing to compare with where a difference changes sign)
        if abs(up - down) < 1e-6 + 1e-3 * abs(up):
            close(jac[k], (up + down) / 2, rtol=5e-3, atol=1e-5, msg=f"gradient {k}")


@R.sub(
    observers(),
    quick=120,
    thorough=2500,
    rule="observers with perturbed view directions; non-trivial if the cameras point in "
    "different directions",
)
def fit_recovers_orientations(c, ctx):
    observer, matches, data, truth, start, anchors = build(c)
    if c["spread"]:
        ctx.hit(c["graph"], "spread%s" % c["spread"], "noise" if c["noise"] else "exact")
    model = ObserverCameras(
        observer, matches=matches, anchors=None if c["default_anchor"] else c["anchors"]
    )
    kwargs = {} if c["weight"] is None else {"anchor_weight": c["weight"]}
    weight = c["weight"] or 1e6
    with contextlib.redirect_stdout(io.StringIO()):
        result = model.fit(**kwargs)
    for img, v in zip(observer.images, start):
        same(img.cam.viewdir, v, msg="fit() changed a camera")
    check_gradient(model, kwargs, lambda v: objective(v, c, data, start, anchors, weight), start)
    values = np.asarray(result.x).reshape(-1, 3)
    want = objective(values, c, data, start, anchors, weight)
    close(result.fun, want, rtol=1e-6, atol=1e-7, msg="objective")
    before = objective(start, c, data, start, anchors, weight)
    check(result.fun <= before + 1e-9, "no worse than the start", got=result.fun, before=before)
    if not c["noise"]:
        # Distorted image coordinates are inverted approximately
        tol = 2e-2 if c["k"] else 1e-3
        error = np.abs(values - truth).max()
        check(error < tol, "view directions are recovered", error=error)
    else:
        at_truth = objective(truth, c, data, start, anchors, weight)
        check(result.fun <= at_truth * 1.05 + 1e-6, "as good as the truth", got=result.fun, want=at_truth)
    # Set and reset
    model.set_cameras(values)
    for img, v in zip(observer.images, values):
        same(img.cam.viewdir, v, msg="set view direction")
    model.reset_cameras()
    for img, v in zip(observer.images, start):
        same(img.cam.viewdir, v, msg="reset view direction")


# ---- From the images themselves ---- #


def panorama(c):
    """Texture of the sky: value at any azimuth and altitude (in degrees)."""
    rng = np.random.default_rng(c["seed"])
    a = np.zeros((480, 640))
    for size in (4, 10, 24):
        a += cv2.GaussianBlur(rng.standard_normal(a.shape), (0, 0), size) * size
    a = (a - a.min()) / (a.max() - a.min())
    return (a * 255).astype(np.float32)


def view(sky, spec):
    """Image of the sky."""
    nx, ny = spec["imgsz"]
    u, v = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
    x = (u.ravel() - nx / 2) / spec["f"][0]
    y = (v.ravel() - ny / 2) / spec["f"][1]
    d = unit(ref.world(spec, x, y, np.ones(x.size)))
    azimuth = np.degrees(np.arctan2(d[:, 0], d[:, 1]))
    altitude = np.degrees(np.arcsin(d[:, 2]))
    # 10 pixels per degree around (0, 0)
    i = (azimuth * 10 + 320).reshape(ny, nx).astype(np.float32)
    j = (240 - altitude * 10).reshape(ny, nx).astype(np.float32)
    return cv2.remap(sky, i, j, cv2.INTER_LINEAR).round().astype(np.uint8)


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.integers(2, 3),
            "seed": st.integers(0, 9999),
            "views": st.lists(
                st.tuples(finite(-4, 4), finite(-3, 3), finite(-3, 3)), min_size=3, max_size=3
            ),
            "errors": st.lists(
                st.tuples(finite(-1, 1), finite(-1, 1), finite(-1, 1)), min_size=3, max_size=3
            ),
            "anchor": st.integers(0, 1),
            "folder": st.booleans(),
        }
    ),
    quick=20,
    thorough=300,
    rule="cameras turned in front of a distant texture, oriented from their images alone; all "
    "non-trivial",
)
def orients_cameras_from_their_images(c, ctx):
    ctx.hit("n%d" % c["n"], "files" if c["folder"] else "memory")
    sky = panorama(c)
    base = {"imgsz": (240, 180), "f": (600.0, 600.0), "xyz": (1.0, 2.0, 3.0)}
    truth = np.array(c["views"][: c["n"]])
    start = truth + c["errors"][: c["n"]]
    start[c["anchor"]] = truth[c["anchor"]]
    folder = tempfile.mkdtemp(dir=TMP)
    try:
        images = []
        for i in range(c["n"]):
            path = os.path.join(folder, "view%d.png" % i)
            cv2.imwrite(path, view(sky, {**base, "viewdir": tuple(truth[i])}))
            images.append(
                glimpse.Image(
                    path, cam={**base, "viewdir": tuple(start[i])},
                    datetime=datetime.datetime(2020, 1, 1 + i),
                )
            )
        model = ObserverCameras(glimpse.Observer(images), anchors=[c["anchor"]])
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            files = {"path": folder, "clear_keypoints": True} if c["folder"] else {}
            model.build_keypoints(**files)
            if c["folder"]:
                check(all(k is None for k in model.matcher.keypoints), "keypoints kept in files")
                files = {"keypoints_path": folder}
            model.build_matches(max_ratio=0.7, matcher=cv2.BFMatcher(), **files)
            data = list(model.matches.data)
            check(len(data) == c["n"] * (c["n"] - 1) // 2, "every pair is matched")
            check(all(type(m) is RotationMatchesXYZ for m in data), "type of matches")
            if any(m.size < 15 for m in data):
                ctx.label("few matches")
                return
            result = model.fit()
        got = np.asarray(result.x).reshape(-1, 3)
        for img, v in zip(images, start):
            same(img.cam.viewdir, v, msg="fit() changed a camera")
        # Directions in which the cameras point, and roll
        error = np.abs(got - truth)
        check(error[:, :2].max() < 0.1 and error[:, 2].max() < 0.5, "view directions", error=error.tolist())
    finally:
        shutil.rmtree(folder)

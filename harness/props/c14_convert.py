"""C14 Conversion between camera models: external formulas, exact and best-fitting."""
import copy

import cams
import cv2
import numpy as np
import scipy.optimize
from core import Registry, check, close, raises, same, st
from gens import finite

from glimpse import Camera
from glimpse.convert import Converter
from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler

R = Registry("C14")
NAMES = {"agisoft": Agisoft, "matlab": Matlab, "opencv": OpenCV, "photomodeler": PhotoModeler}


def r6(lo, hi):
    return st.one_of(st.just(0.0), finite(lo, hi).map(lambda x: round(x, 6)))


sizes = st.tuples(st.integers(2, 4000), st.integers(2, 4000))


@st.composite
def external(draw, size=1.0, kind=None, extras=True):
    """External camera: (kind, arguments) with distortion up to `size`."""
    kind = kind or draw(st.sampled_from(list(NAMES)))
    n = draw(sizes)
    f = max(n) * draw(finite(0.6, 2))
    offset = tuple(draw(cams.mostly_zero(-0.05, 0.05)) * v for v in n)

    def s(lim):
        return draw(r6(-lim * size, lim * size))

    if kind == "agisoft":
        args = dict(f=f, cx=offset[0], cy=offset[1], k1=s(0.2), k2=s(0.1), k3=s(0.05), p1=s(0.02), p2=s(0.02))
        args["b1"] = draw(st.one_of(st.just(0.0), finite(-0.1, 0.1))) * f
        if extras:
            args.update(k4=s(0.02), b2=s(0.01) * f)
    elif kind == "matlab":
        args = dict(
            fc=(f, f * draw(st.sampled_from([1.0, 1.05]))),
            kc=(s(0.2), s(0.1), s(0.02), s(0.02), s(0.05)),
        )
        if draw(st.booleans()):
            args["cc"] = tuple((v - 1) / 2 + o for v, o in zip(n, offset))
        if extras:
            args["alpha_c"] = s(0.01)
    elif kind == "opencv":
        args = dict(
            fx=f, fy=f * draw(st.sampled_from([1.0, 1.05])),
            k1=s(0.2), k2=s(0.1), k3=s(0.05), k4=s(0.1), k5=s(0.05), k6=s(0.02), p1=s(0.02), p2=s(0.02),
        )
        if draw(st.booleans()):
            args.update(cx=n[0] / 2 + offset[0], cy=n[1] / 2 + offset[1])
        if extras:
            args.update(s1=s(0.01), s2=s(0.01), s3=s(0.01), s4=s(0.01))
    else:
        # Millimeters, in which the coefficients are smaller
        fw = draw(finite(5, 40))
        fh = fw * n[1] / n[0]
        focal = max(fw, fh) * draw(finite(0.6, 2))
        args = dict(
            focal=focal, fw=fw, fh=fh,
            xp=fw / 2 * (1 + draw(cams.mostly_zero(-0.1, 0.1))),
            yp=fh / 2 * (1 + draw(cams.mostly_zero(-0.1, 0.1))),
        )
        if extras:
            h = max(fw, fh) / 2
            args.update(
                k1=s(0.1) / h ** 2, k2=s(0.05) / h ** 4, k3=s(0.02) / h ** 6,
                p1=s(0.02) / h, p2=s(0.02) / h,
            )
    return {"kind": kind, "imgsz": n, "args": args}


def make(x):
    return NAMES[x["kind"]](imgsz=x["imgsz"], **x["args"])


def forward(x, xy):
    """Image coordinates of normalized camera coordinates (not PhotoModeler)."""
    a = {k: v for k, v in x["args"].items()}
    X, Y = xy[:, 0], xy[:, 1]
    w, h = x["imgsz"]
    if x["kind"] == "opencv":
        K = np.array([[a["fx"], 0, a.get("cx", w / 2)], [0, a["fy"], a.get("cy", h / 2)], [0, 0, 1]])
        keys = ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")
        D = np.array([a.get(k, 0.0) for k in keys])
        pts = np.column_stack((X, Y, np.ones(len(X))))[:, None, :]
        return cv2.projectPoints(pts, np.zeros(3), np.zeros(3), K, D)[0][:, 0, :]
    r2 = X * X + Y * Y
    if x["kind"] == "agisoft":
        g = [a.get(k, 0.0) for k in ("k1", "k2", "k3", "k4")]
        d = 1 + g[0] * r2 + g[1] * r2 ** 2 + g[2] * r2 ** 3 + g[3] * r2 ** 4
        p1, p2 = a["p1"], a["p2"]
        x_ = X * d + (p1 * (r2 + 2 * X ** 2) + 2 * p2 * X * Y)
        y_ = Y * d + (p2 * (r2 + 2 * Y ** 2) + 2 * p1 * X * Y)
        u = w / 2 + a["cx"] + x_ * a["f"] + x_ * a["b1"] + y_ * a.get("b2", 0.0)
        return np.column_stack((u, h / 2 + a["cy"] + y_ * a["f"]))
    kc = a["kc"]
    d = 1 + kc[0] * r2 + kc[1] * r2 ** 2 + kc[4] * r2 ** 3
    x_ = X * d + 2 * kc[2] * X * Y + kc[3] * (r2 + 2 * X ** 2)
    y_ = Y * d + kc[2] * (r2 + 2 * Y ** 2) + 2 * kc[3] * X * Y
    # Origin at the center of the first pixel
    cc = a.get("cc", ((w - 1) / 2, (h - 1) / 2))
    u = a["fc"][0] * (x_ + a.get("alpha_c", 0.0) * y_) + cc[0]
    return np.column_stack((u + 0.5, a["fc"][1] * y_ + cc[1] + 0.5))


def backward(x, uv):
    """Normalized camera coordinates of image coordinates (PhotoModeler)."""
    a = x["args"]
    w, h = x["imgsz"]
    # Photo space: millimeters from the principal point, y upwards
    X = uv[:, 0] / w * a["fw"] - a["xp"]
    Y = -(uv[:, 1] / h * a["fh"] - a["yp"])
    r2 = X * X + Y * Y
    d = a.get("k1", 0) * r2 + a.get("k2", 0) * r2 ** 2 + a.get("k3", 0) * r2 ** 3
    p1, p2 = a.get("p1", 0), a.get("p2", 0)
    x_ = X + X * d + p1 * (r2 + 2 * X * X) + 2 * p2 * X * Y
    y_ = Y + Y * d + p2 * (r2 + 2 * Y * Y) + 2 * p1 * X * Y
    return np.column_stack((x_, -y_)) / a["focal"]


def intrinsics(cam):
    return np.concatenate([np.ravel(v) for v in (cam.imgsz, cam.f, cam.c, cam.k, cam.p)])


def spec_of(cam):
    return {
        "imgsz": tuple(cam.imgsz), "f": tuple(cam.f), "c": tuple(cam.c),
        "k": tuple(cam.k), "p": tuple(cam.p),
    }


def norm_points(cam_or_n, f, k=25, seed=0):
    """Normalized coordinates over the frame."""
    n = np.array(cam_or_n, float)
    rng = np.random.default_rng(seed)
    return (rng.random((k, 2)) - 0.5) * n / f


# ---- Models ----------------------------------------------------------------- #


@R.sub(
    st.tuples(external(), finite(0.7, 1.4), cams.mostly_zero(-5, 5), st.integers(1, 12), st.integers(0, 10 ** 6)),
    quick=600,
    thorough=15000,
    rule="an external camera of any kind and an ideal camera; non-trivial when the external "
    "camera has distortion, skew or affinity",
)
def models(c, ctx):
    x, s, offset, k, seed = c
    n = x["imgsz"]
    xcam = make(x)
    f = max(n) * s
    cam = Camera(imgsz=n, f=(f, f * 1.1), c=(offset, -offset))
    rng = np.random.default_rng(seed)
    uv = rng.random((k, 2)) * n
    if seed % 3 == 0:
        uv[0] = (n[0] / 2 + offset, n[1] / 2 - offset)
    got = Converter(xcam, cam, uv=uv.tolist() if seed % 2 else uv).residuals()
    if x["kind"] == "photomodeler":
        xy = backward(x, uv)
        want = cams.to_uv(spec_of(cam), xy[:, 0], xy[:, 1]) - uv
    else:
        xy = (uv - np.array(n) / 2 - (offset, -offset)) / cam.f
        want = uv - forward(x, xy)
    if any(np.any(np.array(v) != 0) for key, v in x["args"].items() if key[0] in "kpsb" or key == "alpha_c"):
        ctx.hit(x["kind"])
    close(got, want, 1e-9, 1e-7, "residuals", kind=x["kind"])


@R.sub(
    st.tuples(external(size=0.4), cams.cameras(size=0.3, max_n=4000, correction=False), st.integers(0, 10 ** 6)),
    quick=200,
    thorough=5000,
    rule="an external camera and a distorted camera; all non-trivial",
)
def distorted(c, ctx):
    x, spec, seed = c
    n = x["imgsz"]
    f = max(n) * 1.5
    spec = dict(spec, imgsz=n, f=(f, f), c=(0.0, 0.0))
    cam = Camera(**{k: v for k, v in spec.items()})
    rng = np.random.default_rng(seed)
    uv = (0.1 + 0.8 * rng.random((6, 2))) * n
    before = cam.to_array()
    got = Converter(make(x), cam, uv=uv).residuals()
    same(cam.to_array(), before, "camera changed")
    ctx.hit(x["kind"])
    if x["kind"] == "photomodeler":
        xy = backward(x, uv)
        want = cams.to_uv(spec, xy[:, 0], xy[:, 1]) - uv
        close(got, want, 1e-9, 1e-7, "residuals")
        return
    # Undistort by fixed-point iterations
    xy0 = (uv - np.array(n) / 2) / f
    xy = xy0.copy()
    for _ in range(200):
        d = np.column_stack(cams.distort(spec["k"], spec["p"], xy[:, 0], xy[:, 1]))
        xy = xy + (xy0 - d)
    if not np.allclose(d, xy0, atol=1e-10):
        return
    want = cams.to_uv(spec, xy[:, 0], xy[:, 1]) - forward(x, xy)
    close(got, want, 1e-6, 2e-3 * max(n) / 1000 + 1e-6, "residuals", kind=x["kind"])


# ---- Exact ------------------------------------------------------------------ #


@st.composite
def representable(draw):
    kind = draw(st.sampled_from(list(NAMES)))
    spec = draw(cams.cameras(size=1.0, correction=False, kind={"opencv": "full", "photomodeler": "none"}.get(kind)))
    if kind in ("agisoft", "matlab"):
        spec["k"] = spec["k"][:3] + (0.0, 0.0, 0.0)
    sensor = None
    if kind == "photomodeler":
        fw = draw(finite(5, 40))
        sensor = (fw, fw * draw(finite(0.5, 1)))
        f = draw(finite(5, 50))
        spec["f"] = tuple(f * n / s for n, s in zip(spec["imgsz"], sensor))
    return {"kind": kind, "spec": spec, "sensorsz": sensor, "optimize": draw(st.booleans())}


@R.sub(
    representable(),
    quick=400,
    thorough=10000,
    rule="cameras that the other model represents exactly; non-trivial with distortion or offset",
)
def exact(c, ctx):
    spec, kind = c["spec"], c["kind"]
    cam = Camera(**spec, sensorsz=c["sensorsz"])
    if kind == "photomodeler":
        # The same focal length in millimeters
        cam.fmm = (cam.fmm[0], cam.fmm[0])
        spec = dict(spec, f=tuple(cam.f))
    before = cam.to_array()
    kw = {} if kind == "opencv" else {"optimize": c["optimize"]}
    xcam = NAMES[kind].from_camera(cam, **kw)
    same(cam.to_array(), before, "camera changed by conversion")
    if any(spec["k"]) or any(spec["p"]) or any(spec["c"]):
        ctx.hit(kind)
    check(tuple(xcam.imgsz) == tuple(spec["imgsz"]), "image size")
    # External camera by its own formula
    keys = {k: v for k, v in vars(xcam).items() if not k.startswith("_") and k != "imgsz"}
    x = {"kind": kind, "imgsz": spec["imgsz"], "args": keys}
    scale = max(max(spec["imgsz"]), max(spec["f"]))
    if kind == "photomodeler":
        rng = np.random.default_rng(1)
        uv = rng.random((20, 2)) * spec["imgsz"]
        xy = backward(x, uv)
        got = uv
    else:
        xy = norm_points(spec["imgsz"], spec["f"])
        got = forward(x, xy)
    want = cams.to_uv(spec, xy[:, 0], xy[:, 1])
    close(got, want, 1e-9, 1e-9 * scale, "converted camera projects differently")
    before = dict(vars(xcam))
    back = xcam.to_camera(optimize=c["optimize"])
    check(vars(xcam) == before, "external camera changed by conversion")
    close(intrinsics(back), intrinsics(cam), 1e-9, 1e-9 * scale, "round trip", kind=kind)
    if kind == "photomodeler":
        close(back.sensorsz, cam.sensorsz, 1e-12, 1e-12, "sensor size")
    res = Converter(xcam, back).residuals()
    if not any(spec["k"]) and not any(spec["p"]):
        close(res, np.zeros(res.shape), 0, 1e-9 * scale, "residuals of exact conversion")


@R.sub(
    external(extras=False),
    quick=300,
    thorough=6000,
    rule="external cameras without the terms that cameras lack; non-trivial with distortion",
)
def exact_back(c, ctx):
    xcam = make(c)
    before = dict(vars(xcam))
    cam = xcam.to_camera()
    check(vars(xcam) == before, "external camera changed by conversion")
    spec = spec_of(cam)
    scale = max(max(spec["imgsz"]), max(spec["f"]))
    check(tuple(cam.imgsz) == tuple(c["imgsz"]), "image size")
    if any(cam.k != 0) or any(cam.p != 0):
        ctx.hit(c["kind"])
    if c["kind"] == "photomodeler":
        uv = np.random.default_rng(1).random((20, 2)) * c["imgsz"]
        xy = backward(c, uv)
    else:
        xy = norm_points(spec["imgsz"], spec["f"])
        uv = forward(c, xy)
    close(uv, cams.to_uv(spec, xy[:, 0], xy[:, 1]), 1e-9, 1e-9 * scale, "converted camera projects differently")


# ---- Best fit --------------------------------------------------------------- #


def ssr(converter):
    return float(np.sum(converter.residuals() ** 2))


CAM_PARAMS = {"f": 2, "c": 2, "k": 6, "p": 2}
X_PARAMS = {
    "agisoft": {k: 1 for k in ("f", "cx", "cy", "k1", "k2", "k3", "p1", "p2", "b1", "k4", "b2")},
    "matlab": {"fc": 2, "cc": 2, "kc": 5, "alpha_c": 1},
    "opencv": {k: 1 for k in ("fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "s1")},
    "photomodeler": {k: 1 for k in ("focal", "xp", "yp", "k1", "k2", "p1", "p2")},
}


@st.composite
def selections(draw, lengths, max_n=2):
    """Parameters by name: all, one index or several; with the mask of each."""
    names = draw(st.lists(st.sampled_from(list(lengths)), min_size=1, max_size=max_n, unique=True))
    params, masks = {}, {}
    for name in names:
        n = lengths[name]
        form = draw(st.sampled_from(["all", "one", "list", "none"]))
        if form == "all":
            params[name], on = True, range(n)
        elif form == "one":
            i = draw(st.integers(0, n - 1))
            params[name], on = i, [i]
        elif form == "list":
            on = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1)))
            params[name] = on
        else:
            params[name], on = False, []
        masks[name] = [i in on for i in range(n)]
    return {"params": params, "masks": masks}


@st.composite
def fits(draw):
    x = draw(external(size=0.2))
    which = draw(st.sampled_from(["cam", "xcam"]))
    lengths = CAM_PARAMS if which == "cam" else X_PARAMS[x["kind"]]
    return {
        "x": x,
        "which": which,
        "select": draw(selections(lengths)),
        "k": draw(r6(-0.05, 0.05)),
        "f": draw(finite(0.95, 1.05)),
        "uv": draw(st.integers(9, 40)),
    }


@R.sub(
    fits(),
    quick=250,
    thorough=5000,
    rule="a converter and any selection of parameters of either camera; non-trivial when "
    "the residuals were reduced",
)
def fitted(c, ctx):
    xcam, xcam0 = make(c["x"]), make(c["x"])
    cam = xcam.to_camera(optimize=False)
    cam.f = cam.f * c["f"]
    cam.k = [c["k"]]
    conv = Converter(xcam, cam, uv=c["uv"])
    first = ssr(conv)
    cam0, x0 = {k: np.array(getattr(cam, k)) for k in ("imgsz", "xyz", "viewdir", "f", "c", "k", "p")}, dict(vars(xcam))
    params, masks = c["select"]["params"], c["select"]["masks"]
    if not any(any(m) for m in masks.values()):
        return
    if not np.isfinite(first):
        return
    getattr(conv, "optimize_" + c["which"])(params, max_nfev=20)
    check(conv.cam is cam and conv.xcam is xcam, "cameras replaced")
    last = ssr(conv)
    check(last <= first * (1 + 1e-9) + 1e-12, "residuals grew", first=first, last=last)
    if last < first * 0.99:
        ctx.hit(c["x"]["kind"], c["which"], *(str(type(v).__name__) for v in params.values()))
    for k, v in cam0.items():
        now = np.array(getattr(cam, k))
        fixed = np.ones(len(v), bool)
        if c["which"] == "cam" and k in masks:
            fixed = ~np.array(masks[k])
        same(now[fixed], v[fixed], f"camera parameter {k} changed although not selected")
    for k, v in x0.items():
        now, v = np.atleast_1d(getattr(xcam, k)), np.atleast_1d(v)
        fixed = np.ones(len(v), bool)
        if c["which"] == "xcam" and k in masks:
            fixed = ~np.array(masks[k])
        same(np.shape(now), np.shape(v), f"length of {k}")
        same(now[fixed], v[fixed], f"external parameter {k} changed although not selected")
    # The original to which the camera can be reset is still that it was built with
    cam.reset()
    fresh = xcam0.to_camera(optimize=False)
    for k in cam0:
        same(np.array(getattr(cam, k)), np.array(getattr(fresh, k)), f"{k} after a reset")


@R.sub(
    st.tuples(external(size=0.2), st.booleans(), st.sampled_from(["f", "c", "k"]), st.integers(0, 1), finite(0.01, 0.05)),
    quick=150,
    thorough=3000,
    rule="one changed parameter, found again by optimization; all non-trivial",
)
def recovered(c, ctx):
    x, bounded, name, i, d = c
    xcam = make({**x, "args": {k: v for k, v in x["args"].items() if k not in ("k4", "b2", "alpha_c", "s1", "s2", "s3", "s4")}})
    if x["kind"] == "photomodeler":
        for k in ("k1", "k2", "k3", "p1", "p2"):
            setattr(xcam, k, 0)
    cam = xcam.to_camera()
    if x["kind"] == "photomodeler":
        cam.k, cam.p = 0, 0
    ctx.hit(x["kind"], name)
    value = np.array(getattr(cam, name))
    changed = value.copy()
    changed[i] += d * (value[i] if name == "f" else max(x["imgsz"]) if name == "c" else 1)
    setattr(cam, name, changed)
    uv = (0.05 + 0.9 * np.random.default_rng(0).random((50, 2))) * x["imgsz"]
    conv = Converter(xcam, cam, uv=uv)
    kwargs = {}
    if bounded:
        # Bounds are respected
        lo, hi = sorted((changed[i], (changed[i] + value[i]) / 2))
        kwargs["bounds"] = ([lo], [hi])
        cam.__setattr__(name, np.where(np.arange(len(value)) == i, (lo + hi) / 2, changed))
    conv.optimize_cam({name: i if d < 0.03 else [i]}, **kwargs)
    got = getattr(cam, name)[i]
    if bounded:
        check(lo <= got <= hi, "outside of bounds", got=got, bounds=(lo, hi))
    else:
        tol = 1e-3 * (1 if name == "k" else max(cam.f))
        check(abs(got - value[i]) <= tol, "parameter not recovered", got=got, want=value[i], name=name)


@st.composite
def automatic(draw):
    kind = draw(st.sampled_from(list(NAMES)))
    to = draw(st.booleans()) or kind == "opencv"
    x = draw(external(size=0.2, kind=kind))
    if draw(st.sampled_from([True, False, True])):
        # Only one coefficient which cannot be converted exactly
        a = x["args"]
        alone = [k for k in ("k4", "b2", "alpha_c", "s1", "s2", "s3", "s4", "k1", "k2", "k3", "p1", "p2") if k in a]
        if kind in ("agisoft", "opencv", "matlab"):
            alone = [k for k in alone if k in ("b2", "alpha_c", "s1", "s2", "s3", "s4") or (kind, k) == ("agisoft", "k4")]
        keep = draw(st.sampled_from(alone)) if alone else None
        for k in alone:
            if k != keep:
                a[k] = 0.0
            elif k == "b2":
                a[k] = a["f"] * 0.02
            elif kind != "photomodeler":
                a[k] = draw(st.sampled_from([-0.02, 0.02]))
    spec = draw(cams.cameras(size=0.2, correction=False))
    aspect = draw(st.booleans())
    if not to and draw(st.sampled_from([True, False, True])):
        # Only distortion of one kind
        of = ["k456"] if kind in ("agisoft", "matlab") else ["p", "p", "k1", "k456", "k123"]
        spec.update(draw(cams.distortion(draw(st.sampled_from(of)), size=0.3)))
        if any(spec["p"]):
            spec["p"] = tuple(v + 1e-3 for v in spec["p"])
        aspect = aspect and draw(st.booleans())
    return {"to": to, "x": x, "spec": spec, "optimize": draw(st.sampled_from([True, True, False])), "uv": draw(st.integers(9, 60)), "aspect": aspect}


@R.sub(
    automatic(),
    quick=150,
    thorough=4000,
    rule="conversions of cameras that are not representable; non-trivial when optimization "
    "was asked for and reduced the residuals",
)
def best(c, ctx):
    converts_best(c, ctx)


def converts_best(c, ctx):
    kind = c["x"]["kind"]
    if c["to"]:
        xcam = make(c["x"])
        before = dict(vars(xcam))
        first = xcam.to_camera(optimize=False)
        if not np.isfinite(ssr(Converter(xcam, first, uv=c["uv"]))):
            return
        cam = xcam.to_camera(optimize=c["optimize"], uv=c["uv"], max_nfev=150)
        check(vars(xcam) == before, "external camera changed by conversion")
        a = ssr(Converter(xcam, first, uv=c["uv"]))
        b = ssr(Converter(xcam, cam, uv=c["uv"]))
        allowed = set()
        x = vars(xcam)
        if kind == "agisoft":
            if x["k4"]:
                allowed |= {"k"}
            if x["b2"]:
                allowed |= {"f", "c", "k"}
        elif kind == "matlab" and x["alpha_c"]:
            allowed = {"f", "c", "k", "p"}
        elif kind == "opencv" and any(x[k] for k in ("s1", "s2", "s3", "s4")):
            allowed = {"k", "p"}
        elif kind == "photomodeler":
            if x["k1"] or x["k2"] or x["k3"]:
                allowed |= {"k"}
            if x["p1"] or x["p2"]:
                allowed |= {"p"}
        for k in ("imgsz", "f", "c", "k", "p"):
            if k not in allowed or not c["optimize"]:
                same(getattr(cam, k), getattr(first, k), f"{k} changed", kind=kind)
    else:
        spec = dict(c["spec"])
        # Square pixels (exactly), so that equal focal lengths are equal in mm
        sensor = tuple(n / 64 for n in spec["imgsz"])
        if not c["aspect"]:
            spec["f"] = (spec["f"][0],) * 2
        cam = Camera(**spec, sensorsz=sensor)
        before = cam.to_array()
        first = NAMES[kind].from_camera(cam, optimize=False)
        if not np.isfinite(ssr(Converter(first, cam, uv=c["uv"]))):
            return
        xcam = NAMES[kind].from_camera(cam, optimize=c["optimize"], uv=c["uv"], max_nfev=150)
        same(cam.to_array(), before, "camera changed by conversion")
        a = ssr(Converter(first, cam, uv=c["uv"]))
        b = ssr(Converter(xcam, cam, uv=c["uv"]))
        allowed = set()
        if kind == "agisoft" and any(cam.k[3:]):
            allowed = {"k1", "k2", "k3"}
        elif kind == "matlab" and any(cam.k[3:]):
            allowed = {"kc"}
        elif kind == "photomodeler":
            if cam.fmm[0] != cam.fmm[1]:
                allowed |= {"focal", "fw", "fh", "xp", "yp"}
            if any(cam.k):
                allowed |= {"k1", "k2", "k3"}
            if any(cam.p):
                allowed |= {"p1", "p2"}
        for k, v in vars(first).items():
            if k not in allowed or not c["optimize"]:
                same(getattr(xcam, k), v, f"{k} changed", kind=kind)
    check(b <= a * (1 + 1e-9) + 1e-9, "residuals grew", first=a, last=b, kind=kind)
    if c["optimize"] and b < a * 0.99:
        ctx.hit(kind, "to camera" if c["to"] else "from camera")
    if c["optimize"] and allowed and a > 1e-3:
        # Much of what could be gained is gained
        target = copy.deepcopy(first)
        conv = Converter(xcam, target, uv=c["uv"]) if c["to"] else Converter(target, cam, uv=c["uv"])
        keys = sorted(allowed)
        shapes = [np.shape(getattr(target, k)) for k in keys]
        x0 = np.concatenate([np.ravel(getattr(target, k)).astype(float) for k in keys])
        cuts = np.cumsum([int(np.prod(sh)) for sh in shapes])[:-1]

        def fun(x):
            for k, sh, v in zip(keys, shapes, np.split(x, cuts)):
                setattr(target, k, tuple(v) if sh else float(v[0]))
            r = conv.residuals().ravel()
            return r if np.isfinite(r).all() else np.full(r.shape, 1e6)

        # A fit is local and may stop early: ask for a clear gain only where a far
        # shorter search already finds one
        own = 2 * scipy.optimize.least_squares(fun, x0, max_nfev=10).cost
        part = 0.5 if "name" in c else 0.75
        if own < (0.8 if "name" in c else 0.4) * a:
            ctx.label("can be fitted")
            check(b <= part * a + (1 - part) * own, "residuals of the fit", first=a, last=b, possible=own, kind=kind)


@st.composite
def lone(draw):
    """Conversions with exactly one reason for them not to be exact."""
    to, kind, name = draw(
        st.sampled_from(
            [(True, "agisoft", k) for k in ("k4", "b2")]
            + [(True, "matlab", "alpha_c")]
            + [(True, "opencv", k) for k in ("s1", "s2", "s3", "s4")]
            + [(True, "photomodeler", k) for k in ("k1", "k2", "k3", "p1", "p2")]
            + [(False, k, i) for k in ("agisoft", "matlab") for i in ("k4", "k5", "k6")]
            + [(False, "photomodeler", i) for i in ("k1", "k2", "k4", "p1", "p2", "aspect")]
        )
    )
    n = draw(st.tuples(st.integers(100, 900), st.integers(100, 900)))
    n = (n[0], int(min(max(n[1], 0.7 * n[0]), 1.4 * n[0])))
    f = draw(finite(0.8, 2)) * max(n)
    sign = draw(st.sampled_from([-1, 1]))
    x = draw(external(size=0.0, kind=kind))
    spec = {"imgsz": n, "f": (f, f), "c": (0.0, 0.0), "xyz": (0.0, 0.0, 0.0),
            "viewdir": (0.0, 0.0, 0.0), "k": (0.0,) * 6, "p": (0.0, 0.0)}
    if to:
        x = dict(x, imgsz=n)
        a = {k: 0.0 for k in x["args"] if np.ndim(x["args"][k]) == 0}
        a.update({k: v if k not in ("kc",) else (0.0,) * 5 for k, v in x["args"].items() if k not in a})
        value = 0.02 * sign
        if kind == "agisoft":
            a["f"] = f
            value = f * value if name == "b2" else value
        elif kind == "matlab":
            a.update(fc=(f, f), cc=(n[0] / 2, n[1] / 2))
        elif kind == "opencv":
            a.update(fx=f, fy=f, cx=n[0] / 2, cy=n[1] / 2)
        else:
            w, h = n[0] / 64, n[1] / 64
            a.update(focal=f / 64, fw=w, fh=h, xp=w / 2, yp=h / 2)
            r = f / 64
            value = 0.02 * sign / {"k1": r**2, "k2": r**4, "k3": r**6, "p1": r, "p2": r}[name]
        a[name] = value
        x["args"] = a
    elif name == "aspect":
        spec["f"] = (f, f * draw(finite(1.05, 1.2)))
    else:
        value = draw(finite(0.01, 0.05)) * sign
        k, p = [0.0] * 6, [0.0] * 2
        (k if name[0] == "k" else p)[int(name[1]) - 1] = value
        spec.update(k=tuple(k), p=tuple(p))
    return {"to": to, "x": x, "spec": spec, "optimize": True, "uv": 25,
            "aspect": True, "name": name}


@R.sub(
    lone(),
    quick=140,
    thorough=3000,
    rule="conversions with one coefficient that is not representable; non-trivial when "
    "optimization reduced the residuals",
)
def best_alone(c, ctx):
    converts_best(c, ctx)


# ---- Points ----------------------------------------------------------------- #


@R.sub(
    st.tuples(sizes, st.integers(1, 2000), st.integers(0, 3)),
    quick=200,
    thorough=4000,
    rule="image sizes and numbers of points; non-trivial with several rows and columns",
)
def points(c, ctx):
    n, k, other = c
    cam = Camera(imgsz=n, f=max(n))
    xcam = OpenCV(imgsz=n, fx=1.0, fy=1.0)
    if other:
        size = (n[0] + (other != 2), n[1] + (other != 1))
        raises(ValueError, Converter, OpenCV(imgsz=size, fx=1.0, fy=1.0), cam)
    uv = Converter(xcam, cam, uv=k).uv
    x, y = np.unique(uv[:, 0]), np.unique(uv[:, 1])
    check(len(uv) == len(x) * len(y), "not a grid", n=len(uv))
    check(len(np.unique(uv, axis=0)) == len(uv), "repeated points")
    if len(x) > 1 and len(y) > 1:
        ctx.hit()
    d = (n[0] * n[1] / k) ** 0.5
    for v, side in ((x, n[0]), (y, n[1])):
        # Evenly spaced, half a space from the edges, about d apart
        m = len(v)
        close(v, (np.arange(m) + 0.5) * side / m, 1e-9, 1e-9, "spacing")
        check(abs(m - side / d) <= 0.5 + 1e-9 or (m == 1 and side < d), "number of points", got=m, want=side / d)


@R.sub(
    cams.cameras(correction=False),
    quick=20,
    thorough=200,
    rule="cameras without a sensor size; all non-trivial",
)
def no_sensor(c, ctx):
    ctx.hit()
    raises(ValueError, PhotoModeler.from_camera, Camera(**c))

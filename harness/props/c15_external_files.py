"""C15 Calibration files of other software: every parameter is read."""
import io
import os

import numpy as np
from core import Registry, check, close, raises, st

from glimpse.convert.cameras import Agisoft, Matlab, OpenCV, PhotoModeler

R = Registry("C15")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")

number = st.one_of(
    st.just(0.0),
    st.integers(-5000, 5000).map(float),
    st.floats(-1e4, 1e4, allow_nan=False),
    st.floats(-1e-3, 1e-3, allow_nan=False),
).map(lambda x: x + 0.0)
positive = st.floats(1, 1e4, allow_nan=False)
sizes = st.tuples(st.integers(1, 10000), st.integers(1, 10000))


def style(draw):
    return draw(st.sampled_from(["r", "e", "g", "E3"]))


def text(x, how):
    """Number as text and the number that it stands for."""
    s = {
        "r": repr(float(x)),
        "e": f"{x:.9e}",
        "g": f"{x:.12g}",
        # As written on Windows, with three digits in the exponent
        "E3": f"{x:.6e}".split("e")[0] + "e" + f"{int(f'{x:.6e}'.split('e')[1]):+04d}",
    }[how]
    return s, float(s)


def write(name, content):
    path = os.path.join(TMP, name)
    with open(path, "w") as fp:
        fp.write(content)
    return path


# ---- Agisoft ---------------------------------------------------------------- #

AGISOFT = ["cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2"]


@st.composite
def agisoft(draw):
    keys = draw(st.lists(st.sampled_from(AGISOFT), unique=True, max_size=10))
    return {
        "imgsz": draw(sizes),
        "f": draw(positive),
        "values": {k: draw(number) for k in keys},
        "style": draw(st.sampled_from(["r", "e", "g"])),
        "order": draw(st.randoms(use_true_random=False)).random(),
        "projection": draw(st.sampled_from(["frame", "frame", None, "fisheye", "spherical"])),
        "extra": draw(st.booleans()),
        "wrap": draw(st.booleans()),
        "file": draw(st.booleans()),
        "none": draw(st.integers(0, 9)) == 0,
    }


@R.sub(
    agisoft(),
    quick=300,
    thorough=6000,
    rule="generated Agisoft files; non-trivial with three or more distortion parameters",
)
def reads_agisoft(c, ctx):
    want = {k: 0 for k in AGISOFT}
    items = [("width", str(c["imgsz"][0])), ("height", str(c["imgsz"][1]))]
    for k, v in [("f", c["f"])] + list(c["values"].items()):
        s, want[k] = text(v, c["style"])
        items.append((k, s))
    np.random.default_rng(int(c["order"] * 1e6)).shuffle(items)
    if c["projection"]:
        items.insert(0, ("projection", c["projection"]))
    if c["extra"]:
        items += [("date", "2020-05-06T21:47:42Z"), ("k9", "5"), ("skew", "7")]
    tag = "other" if c["none"] else "calibration"
    body = f"<{tag}>\n" + "".join(f"  <{k}>{v}</{k}>\n" for k, v in items) + f"</{tag}>"
    if c["wrap"]:
        body = f"<document><sensor>{body}</sensor></document>"
    xml = '<?xml version="1.0" encoding="UTF-8"?>\n' + body
    source = write("agisoft.xml", xml) if c["file"] else io.StringIO(xml)
    if c["none"] or c["projection"] in ("fisheye", "spherical"):
        ctx.hit("refused")
        raises(ValueError, Agisoft.from_xml, source)
        return
    got = Agisoft.from_xml(source)
    check(tuple(got.imgsz) == c["imgsz"], "image size", got=got.imgsz)
    check(all(isinstance(v, int) for v in got.imgsz), "image size is whole")
    for k, v in want.items():
        check(getattr(got, k) == v, "parameter", name=k, got=getattr(got, k), want=v)
    if len(c["values"]) > 2:
        ctx.hit("read")


# ---- Matlab ----------------------------------------------------------------- #


@st.composite
def matlab(draw):
    def several(n):
        return [draw(number) for _ in range(n)]

    return {
        "imgsz": draw(sizes),
        "values": {
            k: several(n)
            for k, n in {
                "fc": 2, "cc": 2, "alpha_c": 1, "kc": 5,
                "fc_error": 2, "cc_error": 2, "alpha_c_error": 1, "kc_error": 5,
            }.items()
        },
        "style": draw(st.sampled_from(["r", "e", "g", "E3"])),
        "order": draw(st.permutations(range(9))),
        "extra": draw(st.booleans()),
    }


@R.sub(
    matlab(),
    quick=300,
    thorough=6000,
    rule="generated Matlab reports; all non-trivial",
)
def reads_matlab(c, ctx):
    ctx.hit()
    want, blocks = {}, []
    for k, v in c["values"].items():
        pairs = [text(x, c["style"]) for x in v]
        want[k] = tuple(p[1] for p in pairs)
        if len(v) == 1:
            blocks.append(f"%-- {k} parameter:\n{k} = {pairs[0][0]};\n")
        else:
            blocks.append(f"%-- {k} parameters:\n{k} = [ " + " ; ".join(p[0] for p in pairs) + " ];\n")
    blocks.append(f"%-- Image size:\nnx = {c['imgsz'][0]};\nny = {c['imgsz'][1]};\n")
    blocks = [blocks[i] for i in c["order"]]
    txt = "% Intrinsic and Extrinsic Camera Parameters\n\n" + "\n".join(blocks)
    if c["extra"]:
        txt += "\n%-- Extrinsics\nn_ima = 2;\nest_fc = [ 1 ; 1 ];\nomc_1 = [ 1e+00 ; 2 ; 3 ];\n"
    path = write("Calib_Results.m", txt)
    a = Matlab.from_report(path)
    check(tuple(a.imgsz) == c["imgsz"], "image size", got=a.imgsz)
    for k in ("fc", "cc", "kc"):
        check(tuple(getattr(a, k)) == want[k], "parameter", name=k, got=getattr(a, k), want=want[k])
    check(a.alpha_c == want["alpha_c"][0], "skew", got=a.alpha_c)
    b = Matlab.from_report(path, sigmas=True)
    for k in ("fc", "cc", "kc"):
        # Uncertainties are reported as three standard deviations
        close(getattr(b, k), np.array(want[k + "_error"]) / 3, 1e-12, 0, "standard deviation of " + k)
    close(b.alpha_c, want["alpha_c_error"][0] / 3, 1e-12, 0, "standard deviation of skew")


# ---- OpenCV ----------------------------------------------------------------- #

OPENCV = ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")


@st.composite
def opencv(draw):
    return {
        "imgsz": draw(sizes),
        "f": (draw(positive), draw(positive)),
        "c": (draw(number), draw(number)),
        "d": draw(st.lists(number, max_size=14)),
        "nocoefs": draw(st.booleans()),
        "style": draw(st.sampled_from(["r", "e", "g", "short"])),
        "per": draw(st.integers(1, 5)),
        "names": draw(st.booleans()),
        "file": draw(st.booleans()),
        "none": draw(st.integers(0, 9)) == 0,
        "arrays": draw(st.sampled_from(["list", "array"])),
    }


def opencv_text(x, how):
    if how == "short":
        # As in files by OpenCV: "0." and "1."
        s = repr(float(x)) if x != int(x) or abs(x) > 1e9 else f"{int(x)}."
        return s, float(s)
    return text(x, how)


@R.sub(
    opencv(),
    quick=400,
    thorough=8000,
    rule="generated OpenCV files and arrays; non-trivial with several coefficients",
)
def reads_opencv(c, ctx):
    K = [c["f"][0], 0.0, c["c"][0], 0.0, c["f"][1], c["c"][1], 0.0, 0.0, 1.0]
    pairs = [opencv_text(v, c["style"]) for v in K]
    dpairs = [opencv_text(v, c["style"]) for v in c["d"]]

    def data(pairs):
        words = [p[0] for p in pairs]
        rows = [" ".join(words[i : i + c["per"]]) for i in range(0, len(words), c["per"])]
        return "\n      " + "\n      ".join(rows)

    def matrix(name, pairs, rows, cols):
        return (
            f'<{name} type_id="opencv-matrix">\n  <rows>{rows}</rows>\n  <cols>{cols}</cols>\n'
            f"  <dt>d</dt>\n  <data>{data(pairs)}</data></{name}>\n"
        )

    coefs = not (c["nocoefs"] or not dpairs)
    xml = '<?xml version="1.0"?>\n<opencv_storage>\n'
    if c["names"]:
        xml += '<calibration_time>"Mon 1. Jan"</calibration_time>\n<image_width>7</image_width>\n'
    if not c["none"]:
        xml += matrix("camera_matrix", pairs, 3, 3)
    if coefs:
        xml += matrix("distortion_coefficients", dpairs, len(dpairs), 1)
    xml += "</opencv_storage>\n"
    source = write("opencv.xml", xml) if c["file"] else io.StringIO(xml)
    if c["none"]:
        ctx.hit("refused")
        raises(ValueError, OpenCV.from_xml, source, imgsz=c["imgsz"])
        return
    K = [p[1] for p in pairs]
    d = [p[1] for p in dpairs] if coefs else []
    if len(d) > 1:
        ctx.hit(f"{len(d)} coefficients")
    array = np.array if c["arrays"] == "array" else (lambda v: v)
    cams = [
        OpenCV.from_xml(source, imgsz=c["imgsz"]),
        OpenCV.from_arrays(array([K[0:3], K[3:6], K[6:9]]), array(d), c["imgsz"]),
    ]
    full = (d + [0.0] * 12)[:12]
    for x in cams:
        check(tuple(x.imgsz) == c["imgsz"], "image size")
        check((x.fx, x.fy, x.cx, x.cy) == (K[0], K[4], K[2], K[5]), "camera matrix", got=vars(x))
        for k, v in zip(OPENCV, full):
            check(getattr(x, k) == v, "coefficient", name=k, got=getattr(x, k), want=v)
        close(x.cameraMatrix, [K[0:3], K[3:6], K[6:9]], 0, 0, "camera matrix")
        close(x.distCoeffs, full, 0, 0, "coefficients")
        again = OpenCV.from_arrays(x.cameraMatrix, x.distCoeffs, x.imgsz)
        check(vars(again) == vars(x), "round trip of arrays")


# ---- PhotoModeler ----------------------------------------------------------- #

PM = {
    "focal": ("Focal Length", "Focal", " mm"),
    "xp": ("Xp - principal point x", "Xp", " mm"),
    "yp": ("Yp - principal point y", "Yp", " mm"),
    "fw": ("Fw - format width", "Fw", " mm"),
    "fh": ("Fh - format height", "Fh", " mm"),
    "k1": ("K1 - radial distortion 1", "K1", ""),
    "k2": ("K2 - radial distortion 2", "K2", ""),
    "k3": ("K3 - radial distortion 3", "K3", ""),
    "p1": ("P1 - decentering distortion 1", "P1", ""),
    "p2": ("P2 - decentering distortion 2", "P2", ""),
}


@st.composite
def photomodeler(draw):
    return {
        "imgsz": draw(sizes),
        "values": {k: draw(number) for k in PM},
        "sigmas": {k: draw(st.one_of(st.none(), number.map(abs))) for k in PM},
        "style": draw(st.sampled_from(["r", "E3", "e", "g"])),
        "indent": draw(st.integers(1, 15)),
        "tail": draw(st.booleans()),
    }


@R.sub(
    photomodeler(),
    quick=300,
    thorough=6000,
    rule="generated PhotoModeler reports; non-trivial when some deviations are missing",
)
def reads_photomodeler(c, ctx):
    pad = " " * c["indent"]
    txt = "\nStatus Report Tree\n\nProject Name: D300-28-FF.pmr\n\n"
    txt += "Precisions / Standard Deviations\n   Camera Calibration Standard Deviations\n"
    txt += f"{pad}Camera1: NIKON D300 [28.00]\n"
    want, sigmas = {}, {}
    for k, (label, short, unit) in PM.items():
        s, want[k] = text(c["values"][k], c["style"])
        txt += f"{pad}{label}\n{pad}   Value: {s}{unit}\n"
        sigmas[k] = 0.0
        if c["sigmas"][k] is not None:
            s, sigmas[k] = text(c["sigmas"][k], c["style"])
            txt += f"{pad}   Deviation: {short}: {s}{unit}\n"
    if c["tail"]:
        txt += "\nQuality\n   Photographs\n      Total Number: 12\n      Maximum: 0.340 pixels\n"
    path = write("CalibrationReport.txt", txt)
    n = sum(v is None for v in c["sigmas"].values())
    if 0 < n < 10:
        ctx.hit()
    for flag, ref in ((False, want), (True, sigmas)):
        got = PhotoModeler.from_report(path, imgsz=c["imgsz"], sigmas=flag)
        check(tuple(got.imgsz) == c["imgsz"], "image size")
        for k, v in ref.items():
            check(getattr(got, k) == v, "parameter", name=k, sigmas=flag, got=getattr(got, k), want=v)


# ---- Defaults --------------------------------------------------------------- #


@R.sub(
    sizes,
    quick=50,
    thorough=500,
    rule="cameras with defaults; all non-trivial",
)
def defaults(c, ctx):
    ctx.hit()
    x = OpenCV(c, 3.0, 4.0)
    check((x.cx, x.cy) == (c[0] / 2, c[1] / 2), "principal point at the center")
    check((OpenCV(c, 3.0, 4.0, cx=0, cy=0).cx, OpenCV(c, 3.0, 4.0, cx=0, cy=0).cy) == (0, 0), "zero is kept")
    m = Matlab(c, (3.0, 4.0))
    check(tuple(m.cc) == ((c[0] - 1) / 2, (c[1] - 1) / 2), "principal point at the center")
    check(tuple(m.kc) == (0,) * 5 and m.alpha_c == 0, "no distortion")

"""C19 Keypoints: detection, matching, and the matches of image sequences."""
import contextlib
import datetime
import io
import os
import pickle
import shutil
import tempfile

import cv2
import numpy as np
import scipy.ndimage
from core import Registry, check, close, raises, same, st
from gens import finite

import glimpse
from glimpse.optimize import (
    KeypointMatcher,
    Matches,
    ObserverCameras,
    RotationMatches,
    RotationMatchesXY,
    RotationMatchesXYZ,
    detect_keypoints,
    match_keypoints,
)

R = Registry("C19")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
T0 = datetime.datetime(2020, 1, 1)
N = 90
METHODS = {"sift": cv2.SIFT, "orb": cv2.ORB}


def texture(seed, n=N, bands=0):
    rng = np.random.default_rng(seed)
    a = scipy.ndimage.gaussian_filter(rng.normal(0, 1, (n, n) + ((bands,) if bands else ())),
                                      (2, 2) + ((0,) if bands else ()))
    return np.clip(128 + 50 * a / a.std(), 0, 255).astype(np.uint8)


def plain(k):
    """Keypoints as numbers."""
    return [(*x.pt, x.size, x.angle, x.response, x.octave, x.class_id) for x in k[0]]


def equal_keypoints(a, b):
    if a is None or b is None:
        return a is b
    if a[1] is None or b[1] is None:
        return a[1] is b[1] and len(a[0]) == len(b[0]) == 0
    return plain(a) == plain(b) and np.array_equal(a[1], b[1])


# ---- Detection ---- #


@R.sub(
    st.fixed_dictionaries(
        {
            "seed": st.integers(0, 9999),
            "method": st.sampled_from(["sift", "orb"]),
            "bands": st.sampled_from([0, 0, 3]),
            "mask": st.one_of(st.none(), st.tuples(st.integers(0, 45), st.integers(0, 45), st.integers(46, N), st.integers(46, N))),
            "mask_type": st.sampled_from([bool, int, np.uint8, list]),
            "dtype": st.sampled_from([np.uint8, float, list]),
            "root": st.booleans(),
            "n": st.sampled_from([None, 5, 20]),
            "blank": st.sampled_from([False] * 5 + [True]),
        }
    ),
    quick=200,
    thorough=3000,
    rule="textured and blank images; non-trivial if masked or root-normalised",
)
def detects_keypoints(c, ctx):
    a = texture(c["seed"], bands=c["bands"])
    if c["blank"]:
        a[...] = 100
    kwargs = {} if c["n"] is None else {"nfeatures": c["n"]}
    mask, m8 = None, None
    if c["mask"]:
        x0, y0, x1, y1 = c["mask"]
        m8 = np.zeros((N, N), dtype=np.uint8)
        m8[y0:y1, x0:x1] = 1
        mask = m8.astype(bool).tolist() if c["mask_type"] is list else m8.astype(c["mask_type"])
    given = a.tolist() if c["dtype"] is list else a.astype(c["dtype"])
    root = c["root"] and c["method"] == "sift"
    method = METHODS[c["method"]]
    keypoints, d = detect_keypoints(given, mask=mask, method=method, root=root, **kwargs)
    want, wd = method.create(**kwargs).detectAndCompute(a, mask=m8)
    check(plain((keypoints, d)) == plain((want, wd)), "keypoints")
    if c["blank"] or wd is None:
        check(len(keypoints) == 0 and d is None, "no keypoints")
        return
    if mask is not None or root:
        ctx.hit(c["method"], "root%s" % root)
    check(len(keypoints) == len(d), "one descriptor per keypoint")
    if mask is not None:
        for k in keypoints:
            u, v = k.pt
            check(x0 - 1 <= u <= x1 + 1 and y0 - 1 <= v <= y1 + 1, "keypoints in the mask", got=k.pt)
    if root:
        close(np.linalg.norm(d, axis=1), np.ones(len(d)), rtol=1e-3, msg="normalised descriptors")
        w = wd.astype(float)
        close(d, np.sqrt(w / w.sum(axis=1, keepdims=True)), rtol=1e-3, atol=1e-4, msg="root descriptors")
    else:
        same(d, wd, msg="descriptors")


# ---- Matching ---- #


@st.composite
def descriptors(draw, size):
    """Few values: some distances are equal, but the nearest is unique (see below)."""
    return [
        [draw(st.integers(0, 9)) for _ in range(4)] for _ in range(size)
    ]


@st.composite
def pairs(draw):
    na, nb = draw(st.integers(0, 8)), draw(st.integers(0, 8))
    c = {"a": draw(descriptors(na)), "b": draw(descriptors(nb))}
    # Some descriptors of the first reappear in the second
    for k in range(min(na, nb)):
        if draw(st.booleans()):
            c["b"][k] = list(c["a"][draw(st.integers(0, na - 1))])
    quarters = st.integers(0, 400).map(lambda i: i / 4)
    c["pa"] = [(draw(quarters), draw(quarters)) for _ in range(na)]
    c["pb"] = [(draw(quarters), draw(quarters)) for _ in range(nb)]
    c["cross_check"] = draw(st.booleans())
    c["max_ratio"] = draw(st.sampled_from([None, None, 0.3, 0.6, 0.8, 0.95]))
    c["max_distance"] = draw(st.sampled_from([None, None, 5.0, 30.0, 60.0, 200.0]))
    c["return_ratios"] = draw(st.booleans())
    return c


def keypoints(points, d):
    k = [cv2.KeyPoint(float(x), float(y), 1.0) for x, y in points]
    return k, (np.array(d, dtype=np.float32) if len(d) else None)


@R.sub(
    pairs(),
    quick=1200,
    thorough=30000,
    rule="two sets of keypoints; non-trivial if some match and some are refused",
)
def matches_keypoints(c, ctx):
    """Differential: brute-force search of nearest descriptors."""
    ka, kb = keypoints(c["pa"], c["a"]), keypoints(c["pb"], c["b"])
    kwargs = {k: c[k] for k in ("cross_check", "max_ratio", "max_distance", "return_ratios")}
    kwargs = {k: v for k, v in kwargs.items() if v not in (None, False)}
    # The default matcher is approximate
    kwargs["matcher"] = cv2.BFMatcher()
    got = match_keypoints(ka, kb, **kwargs)
    check(len(got) == 2 + c["return_ratios"], "returned values")
    need = 2 if c["max_ratio"] or c["return_ratios"] else 1
    na, nb = len(c["a"]), len(c["b"])
    for x in got[:2]:
        check(np.shape(x) == (len(got[0]), 2), "shape of coordinates", got=np.shape(x))
    for x in got[2:]:
        check(np.shape(x) == (len(got[0]),), "one ratio for each match", got=np.shape(x), want=len(got[0]))
    if na < need or nb < need:
        check(len(got[0]) == 0, "too few keypoints")
        return
    a, b = np.array(c["a"], float), np.array(c["b"], float)
    d = np.linalg.norm(a[:, None] - b[None], axis=2)
    pa, pb = np.float32(c["pa"]).astype(float), np.float32(c["pb"]).astype(float)
    nearest = [set(np.flatnonzero(row == row.min())) for row in d]
    back = [set(np.flatnonzero(col == col.min())) for col in d.T]
    # What each keypoint may be matched to, and whether it must be
    may, must, ratios = [], [], []
    for i in range(na):
        first = np.sort(d[i])
        tie = len(nearest[i]) > 1
        options, sure = set(nearest[i]), True
        ratio = None
        if need == 2:
            ratio = first[0] / first[1] if first[1] else 1.0
        if c["cross_check"]:
            options = {j for j in options if i in back[j]}
            sure &= not tie and len(back[min(nearest[i])]) == 1
        if c["max_ratio"] is not None:
            if abs(ratio - c["max_ratio"]) < 1e-5:
                sure = False
            elif ratio > c["max_ratio"]:
                options = set()
        if c["max_distance"] is not None:
            away = {j: np.hypot(*(pa[i] - pb[j])) for j in options}
            if any(abs(x - c["max_distance"]) < 1e-4 for x in away.values()) or tie:
                sure = False
            options = {j for j in options if away[j] < c["max_distance"] + 1e-4}
        may.append(options)
        must.append(sure and bool(options))
        ratios.append(ratio)
    # Coordinates identify keypoints only if different
    row = 0
    for i in range(na):
        candidates = [j for j in may[i]]
        if row < len(got[0]) and (got[0][row] == pa[i]).all() and any(
            (got[1][row] == pb[j]).all() for j in candidates
        ):
            if c["return_ratios"]:
                close(got[2][row], ratios[i], rtol=1e-4, atol=1e-5, msg="ratio")
            row += 1
            continue
        check(not must[i], "keypoint is matched to its nearest", i=i, got=got, want=may[i])
    check(row == len(got[0]), "only matches that meet the conditions", got=got, want=may)
    if row and row < na:
        ctx.hit("cross%s" % c["cross_check"], "ratio%s" % bool(c["max_ratio"]), "distance%s" % bool(c["max_distance"]))


@R.sub(
    st.tuples(
        st.integers(2, 9), st.integers(0, 3), st.integers(0, 3), st.integers(0, 9999), st.booleans(),
        st.sampled_from([None, 0.6, 0.9]), st.sampled_from([None, 40.0, 80.0]), st.booleans(),
    ),
    quick=200,
    thorough=4000,
    rule="the default matcher and descriptors of which some are in both sets; non-trivial if some are not",
)
def matches_copies(case, ctx):
    """The default matcher is approximate, but not for identical descriptors."""
    n, extra_a, extra_b, seed, cross, max_ratio, max_distance, return_ratios = case
    rng = np.random.default_rng(seed)
    pool = np.unique(rng.integers(0, 99, (40, 8)), axis=0)
    pool = pool[rng.permutation(len(pool))]
    # Keypoints without a copy must have no match of their own
    if not cross:
        extra_a = 0
    elif extra_a:
        extra_b = 0
    order = rng.permutation(n)
    a = np.vstack((pool[:n], pool[n : n + extra_a]))
    b = np.vstack((pool[:n][order], pool[20 : 20 + extra_b]))
    pa, pb = (np.float32(rng.uniform(0, 100, (len(x), 2))).astype(float) for x in (a, b))
    kwargs = {"cross_check": cross, "max_ratio": max_ratio, "max_distance": max_distance}
    kwargs = {k: v for k, v in kwargs.items() if v}
    uva, uvb, *ratios = match_keypoints(
        keypoints(pa, a), keypoints(pb, b), return_ratios=return_ratios, **kwargs
    )
    wa, wb = pa[:n], pb[np.argsort(order)]
    if max_distance:
        near = np.hypot(*(wa - wb).T) < max_distance
        wa, wb = wa[near], wb[near]
    if extra_a or len(wa) < n:
        ctx.hit("cross" if cross else "-", "ratio" if max_ratio else "-")
    same(uva, wa, msg="first of pairs")
    same(uvb, wb, msg="second of pairs")
    check(len(ratios) == return_ratios, "ratios are returned", got=ratios)
    for x in ratios:
        same(np.asarray(x, float), np.zeros(len(wa)), msg="ratios of copies")


# ---- Image sequences ---- #

_dir = None


def files(bands=0):
    """Overlapping image files."""
    global _dir
    if _dir is None or not os.path.isdir(_dir):
        _dir = tempfile.mkdtemp(dir=TMP)
        big = texture(7, 140, 3)
        for i in range(6):
            crop = big[2 * i : 2 * i + N, 5 * i : 5 * i + N]
            cv2.imwrite(os.path.join(_dir, "img%d-3.png" % i), crop)
            cv2.imwrite(os.path.join(_dir, "img%d-0.png" % i), crop[:, :, 0])
    return [os.path.join(_dir, "img%d-%d.png" % (i, bands)) for i in range(6)]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def camera(i, fixed=True):
    return glimpse.Camera(
        imgsz=(N, N), f=(N + 5, N + 5), viewdir=(3.0 * i, 0, 0), xyz=(0, 0, 0) if fixed else (i, 0, 0)
    )


def images(c):
    return [
        glimpse.Image(p, cam=camera(i), datetime=T0 + t * datetime.timedelta(hours=1))
        for i, (p, t) in enumerate(zip(files(c.get("bands", 0)), c["times"]))
    ]


times = st.lists(st.integers(0, 8), min_size=2, max_size=6).map(sorted)


@st.composite
def keypoint_runs(draw):
    c = {
        "times": draw(times),
        "bands": draw(st.sampled_from([0, 3])),
        "clahe": draw(st.sampled_from([False, True, {"clipLimit": 3.0, "tileGridSize": (4, 4)}])),
        "masks": draw(st.sampled_from(["none", "one", "each"])),
        "n": draw(st.sampled_from([None, 8])),
        "root": draw(st.booleans()),
        "path": draw(st.booleans()),
        "in_file": draw(st.sets(st.integers(0, 5))),
        "in_memory": draw(st.sets(st.integers(0, 5))),
        "cached": draw(st.sets(st.integers(0, 5))),
        "overwrite": draw(st.booleans()),
        "clear_images": draw(st.booleans()),
        "clear_keypoints": draw(st.booleans()),
        "parallel": draw(st.sampled_from([False] * 5 + [2])),
        "brief": draw(st.booleans()),
    }
    if not c["path"]:
        c["clear_keypoints"] = False
    return c


def marker(i, kind):
    """Keypoints unlike any detected."""
    return [cv2.KeyPoint(i + 0.5, kind, 3.0, 4.0, 5.0, 6, 7)], np.full((1, 128), i, dtype=np.float32)


@R.sub(
    keypoint_runs(),
    quick=120,
    thorough=2500,
    rule="images with keypoints in memory, in files or neither; non-trivial if some are kept "
    "and some detected",
)
def builds_keypoints(c, ctx):
    imgs = images(c)
    n = len(imgs)
    matcher = KeypointMatcher(imgs, clahe=c["clahe"])
    folder = tempfile.mkdtemp(dir=TMP)
    kwargs = {k: c[k] for k in ("overwrite", "clear_images", "clear_keypoints", "parallel", "root")}
    if c["brief"]:
        # Leave out what has its default value
        defaults = {"overwrite": False, "clear_images": True, "clear_keypoints": False, "parallel": False}
        kwargs = {k: v for k, v in kwargs.items() if k not in defaults or v != defaults[k]}
    if c["n"]:
        kwargs["nfeatures"] = c["n"]
    masks = [None] * n
    if c["masks"] != "none":
        masks = []
        for i in range(n):
            m = np.zeros((N, N), dtype=np.uint8)
            m[5 : 60 + (i if c["masks"] == "each" else 0), 10 + (i if c["masks"] == "each" else 0) :] = 1
            masks.append(m)
        kwargs["masks"] = masks[0] if c["masks"] == "one" else masks
    if c["path"]:
        kwargs["path"] = folder
    clahe = None
    if c["clahe"]:
        clahe = cv2.createCLAHE(**({} if c["clahe"] is True else c["clahe"]))
    in_file = [c["path"] and i in c["in_file"] for i in range(n)]
    in_memory = [i in c["in_memory"] for i in range(n)]
    names = [os.path.join(folder, os.path.basename(x.path)[:-4] + ".pkl") for x in imgs]
    try:
        for i in range(n):
            if in_file[i]:
                with open(names[i], "wb") as f:
                    pickle.dump(marker(i, 1.0), f)
        if any(in_memory):
            matcher.keypoints = [marker(i, 2.0) if in_memory[i] else None for i in range(n)]
        for i, img in enumerate(imgs):
            if i in c["cached"]:
                img.read(cache=True)
        cached = [img.array is not None for img in imgs]
        with quiet():
            matcher.build_keypoints(**kwargs)
        check(len(matcher.keypoints) == n, "one element per image")
        detected = []
        for i in range(n):
            detect = c["overwrite"] or not (in_file[i] or in_memory[i])
            detected.append(detect)
            if detect:
                a = cv2.imread(imgs[i].path, cv2.IMREAD_UNCHANGED)
                if a.ndim > 2:
                    a = a.mean(axis=2).astype(np.uint8)
                if clahe is not None:
                    a = clahe.apply(a)
                args = {"nfeatures": c["n"]} if c["n"] else {}
                want = detect_keypoints(a, mask=masks[i], root=c["root"], **args)
            else:
                want = marker(i, 2.0) if in_memory[i] else marker(i, 1.0)
            if c["clear_keypoints"]:
                check(matcher.keypoints[i] is None, "keypoints are cleared")
            else:
                check(equal_keypoints(matcher.keypoints[i], want), "keypoints of the image", i=i,
                      detect=detect)
            check(os.path.isfile(names[i]) == c["path"], "files", i=i)
            if c["path"]:
                with open(names[i], "rb") as f:
                    stored = pickle.load(f)
                if in_file[i] and not detect:
                    want = marker(i, 1.0)
                check(equal_keypoints(stored, want), "keypoints in files", i=i, detect=detect)
            if not c["parallel"]:
                keep = cached[i] and not (c["clear_images"] and detect)
                if not detect or c["clear_images"]:
                    check((imgs[i].array is not None) == keep, "images are cleared", i=i)
        if any(detected) and not all(detected):
            ctx.hit("path%s" % c["path"], "parallel%s" % c["parallel"])
    finally:
        shutil.rmtree(folder)


@st.composite
def match_runs(draw):
    n = draw(st.integers(2, 6))
    c = {
        "times": sorted(draw(st.integers(0, 8)) for _ in range(n)),
        "maxdt": draw(st.sampled_from([None, None, 0, 1, 2, 2.5, 5])),
        "seq": draw(st.one_of(st.none(), st.lists(st.integers(-2, 6), max_size=3))),
        "imgs": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, n - 1), unique=True, max_size=3))),
        "weights": draw(st.booleans()),
        "mtype": draw(st.sampled_from([None, None, RotationMatches, RotationMatchesXY, RotationMatchesXYZ])),
        "filter": draw(st.sampled_from([None, None, {"max_distance": 8}, {"min_weight": 1.3}, {"n_best": 5}])),
        "cross_check": draw(st.booleans()),
        "max_ratio": draw(st.sampled_from([None, 0.7])),
        "path": draw(st.booleans()),
        "from_files": draw(st.booleans()),
        "clear_keypoints": draw(st.booleans()),
        "clear_matches": draw(st.sampled_from([False] * 4 + [True])),
        "overwrite": draw(st.booleans()),
        "existing": draw(st.sets(st.tuples(st.integers(0, 5), st.integers(0, 5)), max_size=5)),
        "parallel": draw(st.sampled_from([False] * 5 + [2])),
        "brief": draw(st.booleans()),
        "drop": draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=2)),
        "drop_one": draw(st.booleans()),
        "min_matches": draw(st.integers(0, 4)),
    }
    if c["clear_matches"]:
        c["path"] = True
    if c["filter"] and "max_distance" not in c["filter"]:
        c["weights"] = True
    elif c["mtype"] in (RotationMatchesXY, RotationMatchesXYZ):
        # (distances would not be in pixels)
        c["filter"] = None
    return c


_detected = {}


def detected(path):
    if path not in _detected:
        _detected[path] = detect_keypoints(cv2.imread(path, cv2.IMREAD_UNCHANGED), nfeatures=25)
    return _detected[path]


def expected_pairs(c, n):
    pairs = set()
    for i in range(n):
        for j in range(i + 1, n):
            near = c["maxdt"] is not None and c["times"][j] - c["times"][i] <= c["maxdt"]
            if c["maxdt"] is None and c["seq"] is None:
                near = True
            if c["seq"] is not None and j - i in c["seq"]:
                near = True
            if c["imgs"] is not None and i not in c["imgs"] and j not in c["imgs"]:
                near = False
            if near:
                pairs.add((i, j))
    return pairs


def content(m):
    out = [np.asarray(m.uvs[0] if m.uvs is not None else []), np.asarray(m.uvs[1] if m.uvs is not None else [])]
    return out


@R.sub(
    match_runs(),
    quick=250,
    thorough=5000,
    rule="sequences of images and ways of pairing them; non-trivial if some pairs are left out",
)
def builds_matches(c, ctx):
    imgs = images(c)
    n = len(imgs)
    matcher = KeypointMatcher(imgs)
    folder, kfolder = tempfile.mkdtemp(dir=TMP), tempfile.mkdtemp(dir=TMP)
    names = [os.path.basename(x.path)[:-4] for x in imgs]
    keys = [detected(x.path) for x in imgs]
    kwargs = {k: c[k] for k in ("weights", "cross_check", "max_ratio", "overwrite", "clear_keypoints",
                                "clear_matches", "parallel", "seq", "imgs", "mtype", "filter")}
    if c["brief"]:
        # Leave out what has its default value
        defaults = {"weights": False, "overwrite": False, "clear_keypoints": True, "clear_matches": False,
                    "parallel": False, "seq": None, "imgs": None, "mtype": None, "filter": None}
        kwargs = {k: v for k, v in kwargs.items() if k not in defaults or v != defaults[k]}
    if c["maxdt"] is not None:
        kwargs["maxdt"] = c["maxdt"] * datetime.timedelta(hours=1)
    kwargs["matcher"] = cv2.BFMatcher()
    if c["path"]:
        kwargs["path"] = folder
    want_pairs = expected_pairs(c, n)
    fake = np.array([[10.0, 20.0], [30.0, 45.0]])
    try:
        if c["from_files"]:
            for name, k in zip(names, keys):
                with open(os.path.join(kfolder, name + ".pkl"), "wb") as f:
                    pickle.dump(k, f)
            raises(ValueError, matcher.build_matches, msg="keypoints are required")
            kwargs["keypoints_path"] = kfolder
        else:
            matcher.keypoints = list(keys)
        existing = {p for p in c["existing"] if p in want_pairs} if c["path"] else set()
        for i, j in existing:
            m = Matches((camera(8), camera(9)), uvs=(fake, fake + 1),
                        weights=np.array([2.0, 1.5]) if c["weights"] else None)
            with open(os.path.join(folder, names[i] + "-" + names[j] + ".pkl"), "wb") as f:
                pickle.dump(m, f)
        with quiet():
            matcher.build_matches(**kwargs)
        reference = {}
        for i, j in want_pairs:
            if (i, j) in existing and not c["overwrite"]:
                reference[i, j] = (fake, fake + 1, np.array([0.5, 1 / 1.5]))
            else:
                reference[i, j] = match_keypoints(
                    keys[i], keys[j], cross_check=c["cross_check"], max_ratio=c["max_ratio"],
                    return_ratios=True, matcher=cv2.BFMatcher(),
                )
                if not c["weights"] and c["max_ratio"] is None:
                    reference[i, j] = match_keypoints(
                        keys[i], keys[j], cross_check=c["cross_check"], matcher=cv2.BFMatcher()
                    )
        if len(want_pairs) < n * (n - 1) / 2:
            ctx.hit("maxdt%s" % (c["maxdt"] is not None), "seq%s" % (c["seq"] is not None),
                    "imgs%s" % (c["imgs"] is not None))
        # Files
        want_files = {names[i] + "-" + names[j] + ".pkl" for i, j in want_pairs} if c["path"] else set()
        check(set(os.listdir(folder)) == want_files, "files of matches", got=os.listdir(folder))
        for i, j in want_pairs if c["path"] else ():
            with open(os.path.join(folder, names[i] + "-" + names[j] + ".pkl"), "rb") as f:
                m = pickle.load(f)
            check(type(m) is Matches, "stored matches")
            for k in range(2):
                close(np.asarray(m.uvs[k]).reshape(-1, 2), reference[i, j][k], msg="stored matches")
        if c["clear_matches"]:
            check(matcher.matches is None, "matches are cleared")
            return
        # Matrix
        check(matcher.matches.shape == (n, n), "shape of matches", got=matcher.matches.shape)
        rows, cols = matcher.matches.row, matcher.matches.col
        check(len(rows) == len(cols) == len(matcher.matches.data) == len(want_pairs), "number of pairs",
              got=list(zip(rows, cols)), want=want_pairs)
        check(set(zip(rows.tolist(), cols.tolist())) == want_pairs, "pairs", got=list(zip(rows, cols)), want=want_pairs)
        sizes = {}
        for i, j, m in zip(rows.tolist(), cols.tolist(), matcher.matches.data):
            check(type(m) is (c["mtype"] or Matches), "type of matches", got=type(m))
            check(m.cams[0] is imgs[i].cam and m.cams[1] is imgs[j].cam, "cameras of matches")
            ua, ub = reference[i, j][:2]
            w = 1 / reference[i, j][2] if c["weights"] else None
            keep = np.arange(len(ua))
            if c["filter"]:
                if "max_distance" in c["filter"]:
                    keep = keep[np.linalg.norm(ua - ub, axis=1) <= 8]
                elif "min_weight" in c["filter"]:
                    keep = keep[w >= 1.3]
                else:
                    keep = np.argsort(-w)[:5]
                    if len(w) > 5 and np.sum(w >= np.sort(w)[-5]) != 5:
                        return  # ties
            a = np.column_stack((m.uvs[0].reshape(-1, 2), m.uvs[1].reshape(-1, 2)))
            b = np.column_stack((ua[keep], ub[keep])).reshape(-1, 4)
            check(len(a) == len(b), "matches of the pair", got=len(a), want=len(b))
            if c["filter"] is not None:
                a, b = a[np.lexsort(a.T)], b[np.lexsort(b.T)]
            close(a, b, msg="matches of the pair")
            if c["weights"]:
                close(np.sort(m.weights), np.sort(w[keep]), rtol=1e-6, msg="weights")
            else:
                check(m.weights is None, "weights")
            sizes[i, j] = len(keep)
        # Counts
        points = [sum(s for p, s in sizes.items() if i in p) for i in range(n)]
        others = [sum(s > 0 for p, s in sizes.items() if i in p) for i in range(n)]
        check(list(matcher.matches_per_image()) == points, "matched points per image")
        check(list(matcher.images_per_image()) == others, "matched images per image")
        # Breaks
        forward = [sum(p[0] == i for p in want_pairs) for i in range(n - 1)]
        want = [i for i, k in enumerate(forward) if k < max(1, min(c["min_matches"], n - 1 - i))]
        got = matcher.match_breaks(min_matches=c["min_matches"])
        check(list(got) == want, "breaks", got=got, want=want, forward=forward)
        if not c["parallel"] and c["clear_keypoints"] and not c["from_files"]:
            check(all(k is None for k in matcher.keypoints), "keypoints are cleared")
        # Drop images
        drop = c["drop"][:1] if c["drop_one"] else c["drop"]
        left = {p for p in want_pairs if not set(p) & set(drop)}
        before = {p: m for p, m in zip(zip(rows.tolist(), cols.tolist()), matcher.matches.data)}
        stays = sorted({i for p in left for i in p})
        kept_keys = matcher.keypoints
        matcher.drop_images(drop[0] if c["drop_one"] else drop)
        check([x.path for x in matcher.images] == [imgs[i].path for i in stays], "images left")
        check(matcher.matches.shape == (len(stays),) * 2, "shape of matches left")
        got = dict(zip(zip(matcher.matches.row.tolist(), matcher.matches.col.tolist()), matcher.matches.data))
        new = {(stays.index(i), stays.index(j)): before[i, j] for i, j in left}
        check(set(got) == set(new), "pairs left", got=set(got), want=set(new))
        check(all(got[p] is new[p] for p in new), "matches left")
        check(list(matcher.matches_per_image()) == [sum(m.size for p, m in new.items() if i in p) for i in range(len(stays))], "counts left")
        if left and left != want_pairs:
            ctx.hit("dropped")
        # Keypoints follow their images
        if stays:
            if not c["clear_keypoints"]:
                for k, i in zip(matcher.keypoints, stays):
                    check(k is None or equal_keypoints(k, keys[i]), "keypoints of images left")
                check(len(matcher.keypoints) == len(stays), "keypoints of images left")
            if not c["clear_keypoints"] and not c["from_files"]:
                with quiet():
                    matcher.build_matches(matcher=cv2.BFMatcher())
                for i, j, m in zip(matcher.matches.row, matcher.matches.col, matcher.matches.data):
                    a, b = match_keypoints(keys[stays[i]], keys[stays[j]], matcher=cv2.BFMatcher())
                    close(m.uvs[0], a, msg="matched again")
                    close(m.uvs[1], b, msg="matched again")
        check(kept_keys is not None, "keypoints")
    finally:
        shutil.rmtree(folder)
        shutil.rmtree(kfolder)


@R.sub(
    st.fixed_dictionaries(
        {
            "times": times,
            "mtype": st.sampled_from([Matches, RotationMatches, RotationMatchesXY, RotationMatchesXYZ]),
            "clear_uvs": st.booleans(),
            "parallel": st.sampled_from([False, False, 2]),
            "filter": st.sampled_from([{}, {"max_distance": 8}, {"min_weight": 1.3}]),
            "clear_weights": st.booleans(),
            "observer": st.booleans(),
        }
    ),
    quick=80,
    thorough=1500,
    rule="conversion and filtering of all matches; non-trivial if in parallel or cleared",
)
def converts_and_filters_matches(c, ctx):
    if c["observer"]:
        c = {**c, "times": list(range(len(c["times"])))}
    imgs = images(c)
    n = len(imgs)
    if c["observer"]:
        orient = ObserverCameras(glimpse.Observer(imgs))
        matcher = orient.matcher
        check([x is y for x, y in zip(matcher.images, imgs)] == [True] * n, "images of the observer")
    else:
        matcher = KeypointMatcher(imgs)
    raises(ValueError, matcher.convert_matches, Matches, msg="no matches yet")
    raises(ValueError, matcher.filter_matches, msg="no matches yet")
    raises(ValueError, matcher.matches_per_image, msg="no matches yet")
    matcher.keypoints = [detected(x.path) for x in imgs]
    if c["parallel"] or c["clear_uvs"] or c["clear_weights"]:
        ctx.hit(c["mtype"].__name__)
    with quiet():
        kwargs = dict(weights=True, matcher=cv2.BFMatcher())
        if c["observer"]:
            orient.build_matches(**kwargs)
            check(orient.matches is matcher.matches, "matches of the observer")
            check(all(type(m) is RotationMatchesXYZ for m in matcher.matches.data), "types for orientation")
            matcher.keypoints = [detected(x.path) for x in imgs]
        matcher.build_matches(**kwargs)
        uvs = {p: (m.uvs[0].copy(), m.uvs[1].copy(), m.weights.copy()) for p, m in
               zip(zip(matcher.matches.row.tolist(), matcher.matches.col.tolist()), matcher.matches.data)}
        matcher.filter_matches(clear_weights=c["clear_weights"], parallel=c["parallel"], **c["filter"])
        expected = {}
        for p, (a, b, w) in uvs.items():
            keep = np.ones(len(a), dtype=bool)
            if "max_distance" in c["filter"]:
                keep = np.linalg.norm(a - b, axis=1) <= 8
            if "min_weight" in c["filter"]:
                keep = w >= 1.3
            expected[p] = (a[keep], b[keep], None if c["clear_weights"] else w[keep])
        matcher.convert_matches(c["mtype"], clear_uvs=c["clear_uvs"], parallel=c["parallel"])
    check(set(zip(matcher.matches.row.tolist(), matcher.matches.col.tolist())) == set(expected), "pairs")
    for i, j, m in zip(matcher.matches.row, matcher.matches.col, matcher.matches.data):
        a, b, w = expected[i, j]
        check(type(m) is c["mtype"], "type")
        check(m.cams[0] is imgs[i].cam and m.cams[1] is imgs[j].cam, "cameras of matches")
        check(m.size == len(a), "number of matches", got=m.size, want=len(a))
        cleared = c["clear_uvs"] and c["mtype"] in (RotationMatchesXY, RotationMatchesXYZ)
        if cleared:
            check(m.uvs is None, "image coordinates are cleared")
        else:
            close(m.uvs[0], a, msg="image coordinates")
            close(m.uvs[1], b, msg="image coordinates")
        if c["mtype"] is not Matches:
            for k, uv in ((0, a), (1, b)):
                cam = m.cams[k]
                close(m.xys[k], (uv - np.array(cam.imgsz) / 2) / cam.f, atol=1e-9, msg="camera coordinates")
        if w is None:
            check(m.weights is None, "weights are cleared")
        else:
            close(m.weights, w, msg="weights")


@R.sub(
    st.fixed_dictionaries({"times": st.lists(st.integers(0, 4), min_size=1, max_size=6),
                           "same": st.booleans()}),
    quick=60,
    thorough=500,
    rule="orders and names of images; non-trivial if refused",
)
def invalid_sequences_are_refused(c, ctx):
    if c["times"] != sorted(c["times"]):
        ctx.hit("order")
        raises(ValueError, KeypointMatcher, images(c), msg="order of images")
        return
    imgs = images(c)
    if c["same"] and len(imgs) > 1:
        ctx.hit("names")
        other = os.path.join(TMP, "other")
        os.makedirs(other, exist_ok=True)
        path = shutil.copy(imgs[0].path, other)
        imgs[-1] = glimpse.Image(path, cam=camera(0), datetime=imgs[-1].datetime)
        matcher = KeypointMatcher(imgs)
        with quiet():
            raises(ValueError, matcher.build_keypoints, msg="names of images")
            matcher.keypoints = [detected(x.path) for x in imgs]
            raises(ValueError, matcher.build_matches, msg="names of images")
    else:
        matcher = KeypointMatcher(imgs)
        raises(ValueError, matcher.build_keypoints, clear_keypoints=True, msg="path is required")
        raises(ValueError, matcher.build_keypoints, path=imgs[0].path, msg="path is a file")
        raises(ValueError, matcher.build_matches, msg="no keypoints")
        for i in range(len(imgs)):
            matcher.keypoints = [None if k == i else detected(x.path) for k, x in enumerate(imgs)]
            with quiet():
                raises(ValueError, matcher.build_matches, msg="keypoints of one image are missing")
        matcher.keypoints = [detected(x.path) for x in imgs]
        raises(ValueError, matcher.build_matches, clear_matches=True, msg="path is required")
        raises(ValueError, matcher.build_matches, path=imgs[0].path, msg="path is a file")

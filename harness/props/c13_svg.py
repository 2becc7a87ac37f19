"""C13 Annotations in SVG files: vertices, transforms, structure, round trips."""
import io
import os
import warnings
import xml.etree.ElementTree as ET

import numpy as np
from core import Registry, Violation, check, close, raises, st

from glimpse import svg

R = Registry("C13")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")

number = st.one_of(
    st.integers(-1000, 1000),
    st.integers(-4000, 4000).map(lambda i: i / 8),
    st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: x + 0.0),
    st.sampled_from([0, 1e-7, 2.5e20, -3e-12, 0.1, -0.5]),
)
point = st.tuples(number, number)
points = st.lists(point, min_size=1, max_size=6)


def same_points(got, want, msg, exact=True, **info):
    check(isinstance(got, list), msg + ": not a list of points", got=got)
    check(len(got) == len(want), msg + ": number of points", got=got, want=want, **info)
    if exact:
        check(got == want, msg, got=got, want=want, **info)
        types = [[type(v) for v in p] for p in got]
        check(types == [[type(v) for v in p] for p in want], msg + ": number types", got=got)
    else:
        scale = max([1.0] + [abs(v) for p in want for v in p])
        close(np.array(got, float), np.array(want, float), 1e-9, 1e-9 * scale, msg, **info)


def vertices(tag, xy):
    """Vertices of an element built from points."""
    if tag in ("path", "polyline"):
        return list(xy)
    if tag == "polygon":
        closed = len(xy) > 1 and xy[0] == xy[-1]
        xy = list(xy[:-1]) if closed else list(xy)
        return xy if len(xy) == 1 or xy[0] == xy[-1] else xy + xy[:1]
    if tag == "line":
        return [xy[0], xy[-1]]
    if tag == "circle":
        return [xy[0]]
    x, y = min(p[0] for p in xy), min(p[1] for p in xy)
    w, h = max(p[0] for p in xy) - x, max(p[1] for p in xy) - y
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]


SHAPES = ["path", "polyline", "polygon", "line", "circle", "rect"]

# ---- Paths ------------------------------------------------------------------ #

NARGS = {"M": 2, "L": 2, "T": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "A": 7, "Z": 0}
short_number = st.one_of(st.integers(-99, 99), st.integers(-400, 400).map(lambda i: i / 8))


@st.composite
def paths(draw):
    segments = [(draw(st.sampled_from("Mm")), [draw(st.lists(short_number, min_size=2, max_size=2))])]
    n = draw(st.integers(0, 2))
    segments[0][1].extend(draw(st.lists(short_number, min_size=2, max_size=2)) for _ in range(n))
    cmds = draw(st.lists(st.sampled_from("LLHVCSQATZMlhvcsqatzm"), max_size=6))
    if draw(st.sampled_from([False, False, True])):
        # Several subpaths, which are closed
        cmds = [*cmds[:2], *draw(st.sampled_from(["ZM", "zm", "Zm", "M", "m"])), *cmds[2:], draw(st.sampled_from("Zz"))]
    for cmd in cmds:
        k = NARGS[cmd.upper()]
        reps = 1 if k == 0 else draw(st.integers(1, 3))
        groups = []
        for _ in range(reps):
            args = draw(st.lists(short_number, min_size=k, max_size=k))
            if cmd in "Aa":
                args[3:5] = draw(st.sampled_from([[0, 0], [0, 1], [1, 0], [1, 1]]))
            groups.append(args)
        segments.append((cmd, groups))
    style = draw(st.sampled_from([", ", ",", " ", "\n\t", "tight"]))
    return {
        "segments": segments,
        "style": style,
        "lead": draw(st.sampled_from(["", "", " ", "\n   "])),
        "gap": draw(st.sampled_from(["", " ", "\n"])),
        "trail": draw(st.sampled_from(["", " ", "\n"])),
    }


def numbers(args, style, arcs=False):
    """Text of numbers, in the tightest form allowed or with separators."""
    text = [repr(a) for a in args]
    if style != "tight":
        return style.join(text)
    out = ""
    for i, t in enumerate(text):
        if "." in t:
            sign = "-" if t.startswith("-") else ""
            body = t.lstrip("-")
            body = body[1:] if body.startswith("0.") else body
            t = sign + body
        flag = arcs and i % 7 in (4, 5)  # follows a flag, which is a single digit
        if i and not flag and not t.startswith("-") and not (t.startswith(".") and "." in text[i - 1]):
            out += " "
        out += t
    return out


def walk(segments):
    """Vertices of a path (reference)."""
    xy, start = [], None
    for cmd, groups in segments:
        rel = cmd.islower()
        kind = cmd.upper()
        if kind == "Z":
            xy.append(start)
            continue
        for i, args in enumerate(groups):
            x, y = xy[-1] if xy else (0, 0)
            dx, dy = (x, y) if rel else (0, 0)
            if kind == "H":
                p = (args[0] + dx, y)
            elif kind == "V":
                p = (x, args[0] + dy)
            else:
                p = (args[-2] + dx, args[-1] + dy)
            if kind == "M" and i == 0:
                start = p
            xy.append(p)
    return xy


@R.sub(
    paths(),
    quick=600,
    thorough=15000,
    rule="a path of any commands, absolute and relative, in any spacing; non-trivial when "
    "relative commands, curves or several subpaths occur",
)
def path_data(c, ctx):
    d = c["lead"]
    for cmd, groups in c["segments"]:
        body = numbers([a for g in groups for a in g], c["style"], cmd in "Aa")
        d += c["gap"] + cmd + c["gap"] + body
    d = d + c["trail"]
    kinds = {s[0] for s in c["segments"]}
    if len(c["segments"]) > 2 and kinds & set("lhvcsqatzmCSQAZ"):
        ctx.hit(*sorted(kinds))
    want = walk(c["segments"])
    got = svg.Points.from_element("path", d=d).xy
    same_points(got, want, "vertices of path", exact=False, d=d)
    e = svg.svg(svg.path(d))
    got = svg.read(io.StringIO(svg.write(e)))["path"]
    same_points(got, want, "vertices of path in file", exact=False, d=d)


@R.sub(
    st.tuples(points, st.sampled_from([", ", ",", " ", "\n\t", "tight"]), st.sampled_from(["", " ", "\n"])),
    quick=200,
    thorough=4000,
    rule="point lists of polylines and polygons in any spacing; non-trivial with several points",
)
def point_lists(c, ctx):
    xy = [tuple(round(v, 3) if isinstance(v, float) and abs(v) < 1e5 else 7 for v in p) for p in c[0]]
    text = c[2] + numbers([v for p in xy for v in p], c[1]) + c[2]
    if len(xy) > 1:
        ctx.hit()
    got = svg.Points.from_element("polyline", points=text).xy
    same_points(got, xy, "points of polyline", exact=c[1] != "tight", text=text)
    got = svg.Points.from_element("polygon", points=text).xy
    want = xy if xy[0] == xy[-1] else xy + xy[:1]
    same_points(got, want, "points of polygon", exact=c[1] != "tight", text=text)


# ---- Elements --------------------------------------------------------------- #


@R.sub(
    st.tuples(points, st.booleans(), st.sampled_from(SHAPES + ["image", "svg"])),
    quick=400,
    thorough=8000,
    rule="points written as an element and read again; non-trivial when the element keeps all points",
)
def elements(c, ctx):
    xy, close_it, tag = c
    if close_it:
        xy = xy + xy[:1]
    p = svg.Points(list(xy))
    attrs = p.to_element(tag)
    check(p.xy == xy, "points changed")
    check(all(isinstance(v, str) for v in attrs.values()), "attributes are text", attrs=attrs)
    # Other attributes are ignored
    back = svg.Points.from_element(tag, fill="none", id="x", **attrs).xy
    want = vertices(tag, xy)
    if tag in ("path", "polygon") and len(want) > 1 and want[0] == want[-1]:
        # Closed: the last point is the first, whatever its number type
        want = want[:-1] + [back[-1]] if back and back[-1] == want[-1] else want
    exact = tag not in ("rect", "image", "svg")
    same_points(back, want, "points read back", exact=exact, tag=tag, attrs=attrs)
    if tag in ("path", "polyline", "polygon"):
        ctx.hit(tag, "closed" if xy[0] == xy[-1] else "open")
    box = svg.Points(xy).bbox()
    xs, ys = [a for a, _ in xy], [b for _, b in xy]
    want = {"x": min(xs), "y": min(ys), "width": max(xs) - min(xs), "height": max(ys) - min(ys)}
    check(box == want, "bounding box", box=box, want=want)
    check(svg.Points(xy).closed() == (len(xy) < 2 or xy[0] == xy[-1]), "closed")


@R.sub(
    st.sampled_from(["magic", "g", "ellipse", "text", "Path"]),
    quick=10,
    thorough=10,
    rule="unsupported elements and transforms; all non-trivial",
)
def refused(c, ctx):
    ctx.hit()
    raises(ValueError, svg.Points.from_element, c)
    raises(ValueError, svg.Points([(0, 0)]).to_element, c)
    raises(ValueError, svg.Points([(0, 0)]).transform, f"{c}(1)")
    raises(ValueError, svg.Points([(0, 0)]).transform, f"translate(1 1){c}(1)")


# ---- Transforms ------------------------------------------------------------- #

small = st.integers(-40, 40).map(lambda i: i / 4)
positive = st.sampled_from([0.25, 0.5, 2, 4, 1, 1.5])


@st.composite
def transforms(draw, image=False):
    """Transform attribute and its matrix (lists only of functions that commute)."""
    kind = draw(st.sampled_from(["translate", "scale", "matrix", "translates", "scales", "none"]))
    sep = draw(st.sampled_from([" ", ",", ", "]))
    size = positive if image else st.one_of(positive, small)

    def one(kind):
        if kind == "translate":
            args = draw(st.lists(small, min_size=1, max_size=2))
            tx, ty = (args + [0])[:2]
            m = np.array([[1, 0, tx], [0, 1, ty], [0, 0, 1]], float)
        elif kind == "scale":
            args = draw(st.lists(size, min_size=1, max_size=2))
            m = np.diag([args[0], args[-1], 1]).astype(float)
        else:
            args = draw(st.lists(small, min_size=6, max_size=6))
            if image:
                args[0:4] = [draw(positive), 0, 0, draw(positive)]
            a, b, c, d, e, f = args
            m = np.array([[a, c, e], [b, d, f], [0, 0, 1]], float)
        return f"{kind}({sep.join(repr(v) for v in args)})", m

    if kind == "none":
        return None, np.eye(3)
    if kind in ("translates", "scales"):
        parts = [one(kind[:-1]) for _ in range(draw(st.integers(2, 3)))]
        m = np.eye(3)
        for p in parts:
            m = p[1] @ m
        return draw(st.sampled_from(["", " ", ", "])).join(p[0] for p in parts), m
    return one(kind)


@R.sub(
    st.tuples(points, transforms()),
    quick=300,
    thorough=6000,
    rule="points and a transform; non-trivial when the transform is not the identity",
)
def transform(c, ctx):
    xy, (text, m) = c
    if text:
        ctx.hit(text.split("(")[0])
    got = svg.Points(xy).transform(text or "").xy
    want = [tuple((m @ np.array([x, y, 1.0]))[:2]) for x, y in xy]
    same_points(got, want, "transformed points", exact=False, transform=text)


# ---- Documents -------------------------------------------------------------- #

names = st.one_of(
    st.sampled_from(["gcp", "coast", "a", "b", "path", "g"]),
    st.text(st.sampled_from("abö_-:<>&\"'{}1 "), min_size=1, max_size=6),
)


def attributes(draw, name, image=False):
    t, m = draw(transforms(image=image))
    attrib = {}
    if t:
        attrib["transform"] = t
    if draw(st.integers(0, 2)) > 0:
        attrib["id"] = name
    if draw(st.integers(0, 3)) == 0:
        attrib["label"] = draw(names)
    return attrib, m


@st.composite
def shapes(draw):
    tag = draw(st.sampled_from(SHAPES))
    attrib, m = attributes(draw, draw(names))
    return ("shape", tag, draw(points), attrib, m)


@st.composite
def images(draw):
    attrib, m = attributes(draw, draw(names), image=True)
    return (
        "image",
        tuple(draw(st.sampled_from([1, 2, 8, 12.5, 100])) for _ in range(2)),
        draw(st.one_of(st.none(), st.tuples(small, small))),
        attrib,
        m,
        draw(st.one_of(st.none(), st.just("photo.jpg"))),
    )


other = names.map(lambda n: ("other", "title", {"id": n}, n))


@st.composite
def groups(draw, children):
    attrib, m = attributes(draw, draw(names), image=True)
    return ("g", draw(st.lists(children, max_size=4)), attrib, m)


trees = st.recursive(st.one_of(shapes(), shapes(), other), lambda s: groups(s), max_leaves=8)


@st.composite
def documents(draw):
    children = draw(st.lists(trees, min_size=0, max_size=5))
    image = draw(st.one_of(st.none(), images(), images()))
    where = None
    if image is not None:
        if draw(st.booleans()):
            attrib, m = attributes(draw, draw(names), image=True)
            image = ("g", [image], attrib, m)
        added = [image]
        if draw(st.integers(0, 3)) == 0:
            # Another image below or above
            added.append(draw(images()))
        for image in added:
            where = draw(st.integers(0, len(children)))
            children = children[:where] + [image] + children[where:]
    # Attributes of the document
    root, root_m = {}, np.eye(3)
    if draw(st.integers(0, 3)) == 0:
        root, root_m = attributes(draw, draw(names), image=True)
        if draw(st.booleans()):
            root.update(width="7", height="9.5")
    return {
        "root": root,
        "root_m": root_m.tolist(),
        "children": children,
        "image": image is not None,
        "key": draw(st.sampled_from([None, "id", "id", "label"])),
        "imgsz": draw(st.sampled_from([None, None, (12, 8), (100, 50)])) if image else None,
        "indent": draw(st.sampled_from([None, 0, -1, 4, "\t", ""])),
        "file": draw(st.booleans()),
        "xmlns": draw(st.booleans()),
    }


def build(node):
    if node[0] == "shape":
        _, tag, xy, attrib, _ = node
        if tag == "path":
            return svg.path(list(xy), **attrib)
        e = ET.Element(tag, attrib={**svg.Points(list(xy)).to_element(tag), **attrib})
        return e
    if node[0] == "image":
        _, (w, h), xy, attrib, _, href = node
        extra = {} if xy is None else {"x": repr(xy[0]), "y": repr(xy[1])}
        return svg.image(w, h, href=href, **extra, **attrib)
    if node[0] == "other":
        e = ET.Element(node[1], attrib=node[2])
        e.text = node[3]
        return e
    return svg.g(*[build(n) for n in node[1]], **node[2])


def image_vertices(node):
    (w, h), xy = node[1], node[2] or (0, 0)
    x, y = xy
    return [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]


def apply(m, xy):
    return [tuple((m @ np.array([x, y, 1.0]))[:2]) for x, y in xy]


def find_image(nodes, m=np.eye(3)):
    """The last (top) image of a document, and its corners."""
    for n in nodes[::-1]:
        if n[0] == "g":
            found = find_image(n[1], m @ n[3])
            if found:
                return found
        elif n[0] == "image":
            xy = apply(m @ n[4], image_vertices(n))
            return n, xy
    return None


def model(node, key, m):
    """(name, content) of a node: vertices or a dictionary."""
    if node[0] == "shape":
        name = (node[3].get(key) if key else None) or node[1]
        return name, apply(m @ node[4], vertices(node[1], node[2]))
    if node[0] == "image":
        name = (node[3].get(key) if key else None) or "image"
        return name, apply(m @ node[4], image_vertices(node))
    if node[0] == "other":
        return (node[2].get(key) if key else None) or node[1], {}
    name = (node[2].get(key) if key else None) or "g"
    return name, collect(node[1], key, m @ node[3])


def collect(nodes, key, m):
    out = {}
    for name, value in [model(n, key, m) for n in nodes]:
        out.setdefault(name, []).append(value)
    return {k: v[0] if len(v) == 1 else v for k, v in out.items()}


def is_points(v):
    return isinstance(v, list) and len(v) and isinstance(v[0], tuple)


def compare(got, want, image_m, where="", n=None):
    if is_points(want):
        n[0] += 1
        same_points(got, apply(image_m, want), f"points of {where or 'svg'}", exact=False)
    elif isinstance(want, list):
        check(isinstance(got, list) and len(got) == len(want), f"list {where}", got=got, want=want)
        for i, (a, b) in enumerate(zip(got, want)):
            compare(a, b, image_m, f"{where}[{i}]", n)
    else:
        check(isinstance(got, dict), f"group {where}", got=got)
        check(list(got) == list(want), f"names in {where or 'svg'}", got=list(got), want=list(want))
        for k in want:
            compare(got[k], want[k], image_m, f"{where}/{k}", n)


@R.sub(
    documents(),
    quick=700,
    thorough=15000,
    rule="a document of nested groups, shapes, transforms and an image, written and read; "
    "non-trivial with shapes in groups or an image",
)
def documents_read(c, ctx):
    nodes = c["children"]
    root_m = np.array(c["root_m"])
    e = svg.svg(*[build(n) for n in nodes], **c["root"])
    for k, v in c["root"].items():
        check(e.get(k) == v, "attribute of the document", key=k, got=e.get(k))
    before = ET.tostring(e)
    if c["file"]:
        path = os.path.join(TMP, "annotations.svg")
        check(svg.write(e, path=path, indent=c["indent"]) is None, "text returned with path")
        with open(path, encoding="utf-8") as fp:
            text = fp.read()
        source = path
    else:
        text = svg.write(e, indent=c["indent"])
        source = io.StringIO(text)
    check(ET.tostring(e) == before, "writing changed the elements")
    check(text == svg.write(e, indent=c["indent"]), "text differs")
    if c["indent"] is None:
        check("\n" not in text, "not on a single line")
    root = ET.fromstring(text)
    check(root.tag == "{http://www.w3.org/2000/svg}svg", "root element", tag=root.tag)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = svg.read(source, key=c["key"], imgsz=c["imgsz"])
    want = collect(nodes, c["key"], root_m)
    m = np.eye(3)
    if c["image"]:
        node, xy = find_image(nodes, root_m)
        size = c["imgsz"] or node[1]
        (x0, y0), (x1, y1) = xy[0], xy[2]
        # Upper-left corner of the image to (0, 0), its size to that asked for
        sx, sy = size[0] / (x1 - x0), size[1] / (y1 - y0)
        m = np.array([[sx, 0, -x0 * sx], [0, sy, -y0 * sy], [0, 0, 1]])
        if "width" not in c["root"]:
            check(root.get("width") == str(node[1][0]), "width of svg")
            check(root.get("height") == str(node[1][1]), "height of svg")
    n = [0]
    compare(got, want, m, n=n)
    if n[0] > 1:
        ctx.hit("image" if c["image"] else "no image", f"key {c['key']}")
        if any(x[0] == "g" for x in nodes):
            ctx.label("groups")


@R.sub(
    st.tuples(st.sampled_from(["none", "two", "nested", "noimage"]), st.integers(1, 9)),
    quick=20,
    thorough=60,
    rule="documents that cannot be read; all non-trivial",
)
def unreadable(c, ctx):
    ctx.hit(c[0])
    text = {
        "none": "<a><path d='M 0,0' /></a>",
        "two": "<a><svg /><svg /></a>",
        "nested": "<svg><g><svg /></g></svg>",
        "noimage": "<svg><path d='M 0,0' /></svg>",
    }[c[0]]
    kw = {"imgsz": (c[1], 4)} if c[0] == "noimage" else {}
    raises(ValueError, svg.read, io.StringIO(text), **kw)


# ---- Known ------------------------------------------------------------------ #


@R.probe("transform-list-order")
def transform_list_order():
    """SVG applies the functions of a transform list from right to left."""
    got = svg.Points([(1, 2)]).transform("translate(1,2)scale(2)").xy
    if got != [(3, 6)]:
        raise Violation(f"translate(1,2)scale(2) of (1, 2) is {got}, not (3, 6)")


# ---- Missing attributes ---- #

DEFAULTS = {
    "line": ("x1", "y1", "x2", "y2"),
    "circle": ("cx", "cy"),
    "rect": ("x", "y", "width", "height"),
    "image": ("x", "y", "width", "height"),
}


@R.sub(
    st.tuples(
        st.sampled_from(list(DEFAULTS)),
        st.lists(short_number, min_size=4, max_size=4),
        st.lists(st.booleans(), min_size=4, max_size=4),
        st.booleans(),
    ),
    quick=200,
    thorough=3000,
    rule="elements without some of their position attributes, and elements without points; "
    "non-trivial when some are missing",
)
def missing_attributes_are_zero(c, ctx):
    tag, values, keep, text = c
    full = dict(zip(DEFAULTS[tag], values))
    given = {
        k: v for (k, v), ok in zip(full.items(), keep) if ok or k in ("width", "height")
    }
    if len(given) < len(full):
        ctx.hit(tag)
    full = {k: given.get(k, 0) for k in full}
    if text:
        given = {k: str(v) for k, v in given.items()}
        full = {k: str(v) for k, v in full.items()}
    got = svg.Points.from_element(tag, **given).xy
    same_points(got, svg.Points.from_element(tag, **full).xy, "points", tag=tag, given=given)
    v = {k: float(x) for k, x in full.items()}
    if tag == "line":
        want = [(v["x1"], v["y1"]), (v["x2"], v["y2"])]
    elif tag == "circle":
        want = [(v["cx"], v["cy"])]
    else:
        x, y, w, h = (v[k] for k in DEFAULTS[tag])
        want = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
    check([tuple(map(float, p)) for p in got] == want, "position", tag=tag, got=got, want=want)
    # Without points
    attrs = svg.Points([]).to_element(tag)
    check({k: float(x) for k, x in attrs.items()} == dict.fromkeys(DEFAULTS[tag], 0), "no points",
          tag=tag, attrs=attrs)
    check(svg.Points([]).to_element("svg") == {}, "no points of svg")
    check(svg.Points.from_element("svg").xy == [], "svg without box")
    for other in ("path", "polyline"):
        back = svg.Points.from_element(other, **svg.Points([]).to_element(other)).xy
        check(back == [] and svg.Points.from_element(other).xy == [], "no points of " + other)
    check(svg.Points([]).bbox() is None, "box without points")

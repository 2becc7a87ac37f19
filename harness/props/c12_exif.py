"""C12 Image metadata: parsed values, histories of edits, other content kept."""
import copy
import datetime
import os

import cv2
import numpy as np
import piexif
from core import Registry, check, close, raises, same, st

from glimpse import Exif

R = Registry("C12")
# Width and height (mm) of the sensors of the supported cameras, as published
SENSOR_SIZES = {
    "NIKON CORPORATION NIKON D2X": (23.7, 15.7),
    "NIKON CORPORATION NIKON D200": (23.6, 15.8),
    "NIKON CORPORATION NIKON D300S": (23.6, 15.8),
    "NIKON E8700": (8.8, 6.6),
    "Canon Canon EOS 20D": (22.5, 15.0),
    "Canon Canon EOS 40D": (22.2, 14.8),
}
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")
_n = [0]


def tmp(ext):
    _n[0] = (_n[0] + 1) % 4
    path = os.path.join(TMP, f"e{_n[0]}{ext}")
    if os.path.exists(path):
        os.remove(path)
    return path


def image(ext, seed=0, nx=8, ny=6):
    path = tmp(ext)
    a = np.random.default_rng(seed).integers(0, 256, (ny, nx, 3)).astype("uint8")
    assert cv2.imwrite(path, a)
    return path


text = st.one_of(
    st.sampled_from(["NIKON CORPORATION", "NIKON D200", "Canon", "x", "2014:10:13"]),
    st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=12),
    st.text(st.sampled_from("äöü日本 abc"), min_size=2, max_size=6).map(lambda s: "a" + s + "b"),
).map(lambda s: s.encode())
short = st.integers(1, 65535)
long_ = st.integers(1, 2 ** 32 - 1)
rational = st.one_of(
    *[st.tuples(st.integers(1, 10 ** 6), st.integers(1, 10 ** 4))] * 5,
    st.tuples(st.integers(0, 2), st.just(0)),  # unknown (e.g. focal length of manual lenses)
)
srational = st.tuples(st.integers(-(10 ** 6), 10 ** 6), st.integers(1, 10 ** 4))
TAGS = {
    ("0th", "Make"): text,
    ("0th", "Model"): text,
    ("0th", "Software"): text,
    ("0th", "DateTime"): text,
    ("0th", "Orientation"): st.integers(1, 8),
    ("0th", "XResolution"): rational,
    ("Exif", "ExposureTime"): rational,
    ("Exif", "FNumber"): rational,
    ("Exif", "FocalLength"): rational,
    ("Exif", "ISOSpeedRatings"): short,
    ("Exif", "PixelXDimension"): long_,
    ("Exif", "PixelYDimension"): long_,
    ("Exif", "ExposureBiasValue"): srational,
    ("Exif", "LensModel"): text,
    ("Exif", "SubjectDistance"): rational,
    ("Exif", "Flash"): st.integers(0, 65535),
    ("GPS", "GPSLatitude"): st.tuples(rational, rational, rational),
    ("GPS", "GPSLatitudeRef"): st.sampled_from([b"N", b"S"]),
    ("GPS", "GPSAltitude"): rational,
    ("GPS", "GPSAltitudeRef"): st.integers(0, 1),
    ("Interop", "InteroperabilityIndex"): st.sampled_from([b"R98", b"THM"]),
}
CODES = {"0th": piexif.ImageIFD, "Exif": piexif.ExifIFD, "GPS": piexif.GPSIFD, "Interop": piexif.InteropIFD}


def expected(value):
    """Value of a tag as documented: text, number (if known) or tuple of these."""
    if isinstance(value, bytes):
        return value.decode()
    if isinstance(value, tuple) and len(value) == 2:
        return value[0] / value[1] if value[1] else None
    return value


@st.composite
def tagsets(draw, keys=tuple(TAGS)):
    chosen = draw(st.lists(st.sampled_from(keys), unique=True, max_size=len(keys)))
    return {key: draw(TAGS[key]) for key in chosen}


def write_tags(path, tags, thumbnail=None):
    groups = {"Exif": {}}  # the encoder needs it
    for (group, tag), value in tags.items():
        groups.setdefault(group, {})[getattr(CODES[group], tag)] = value
    if thumbnail:
        groups["1st"] = {piexif.ImageIFD.Compression: 6}
        groups["thumbnail"] = thumbnail
    piexif.insert(piexif.dump(groups), path)


def user_tags(exif):
    """Tags without those that the encoding itself adds."""
    return {
        (group, tag): value
        for group, tags in exif.tags.items()
        if group in CODES
        for tag, value in tags.items()
        if tag not in ("ExifTag", "GPSTag", "InteroperabilityTag")
    }


def pixels_of(path):
    return cv2.imread(path, cv2.IMREAD_COLOR | cv2.IMREAD_IGNORE_ORIENTATION)


# ---- Parsed values ---------------------------------------------------------- #


@st.composite
def parsed(draw):
    when = draw(st.datetimes(datetime.datetime(1900, 1, 1), datetime.datetime(2100, 1, 1)))
    digits = draw(st.integers(0, 6))
    return {
        "tags": draw(tagsets()),
        "camera": draw(
            st.one_of(
                st.none(),
                st.sampled_from(
                    [("NIKON CORPORATION", "NIKON D2X"), ("NIKON CORPORATION", "NIKON D200"),
                     ("NIKON CORPORATION", "NIKON D300S"), ("NIKON", "E8700"),
                     ("Canon", "Canon EOS 20D"), ("Canon", "Canon EOS 40D"), ("Canon", "EOS 20D")]
                ),
            )
        ),
        "pad": draw(st.sampled_from(["", "", " ", "   "])),
        "when": draw(st.one_of(st.none(), st.just(when.replace(microsecond=0)))),
        "subsec": "".join(str(draw(st.integers(0, 9))) for _ in range(digits)),
        "ext": draw(st.sampled_from([".jpg", ".jpg", ".webp"])),
        "drop": draw(st.integers(0, 2)) == 0,
    }


@R.sub(
    parsed(),
    quick=500,
    thorough=12000,
    rule="any set of tags in a file; non-trivial when some parsed values are set and some are missing",
)
def values(c, ctx):
    tags = {} if c["drop"] else dict(c["tags"])
    if c["camera"]:
        tags["0th", "Make"] = (c["camera"][0] + c["pad"]).encode()
        tags["0th", "Model"] = (c["camera"][1] + c["pad"]).encode()
    if c["when"]:
        tags["Exif", "DateTimeOriginal"] = c["when"].strftime("%Y:%m:%d %H:%M:%S").rjust(19, "0").encode()
    if c["subsec"]:
        tags["Exif", "SubSecTimeOriginal"] = c["subsec"].encode()
    path = image(c["ext"])
    write_tags(path, tags)
    e = Exif(path)
    for (group, tag) in list(TAGS) + [("Exif", "SubSecTimeOriginal")]:
        got = e.parse_tag(tag, group=group)
        if (group, tag) in tags:
            want = expected(tags[group, tag])
            check(got == want and type(got) is type(want), "parsed tag", tag=tag, got=got, want=want)
        else:
            check(got is None, "value of missing tag", tag=tag, got=got)
        if group == "Exif":
            check(e.parse_tag(tag) == got, "tags are looked up in Exif by default")
    check(e.parse_tag("NoSuchTag") is None and e.parse_tag("Make", group="None") is None, "unknown tags")

    def num(tag, kind):
        v = tags.get(("Exif", tag))
        v = None if v is None else expected(v)
        return None if v is None else kind(v)

    want = {
        "fmm": num("FocalLength", float),
        "aperture": num("FNumber", float),
        "exposure": num("ExposureTime", float),
        "iso": num("ISOSpeedRatings", int),
        "make": tags["0th", "Make"].decode() if ("0th", "Make") in tags else None,
        "model": tags["0th", "Model"].decode() if ("0th", "Model") in tags else None,
    }
    x, y = num("PixelXDimension", int), num("PixelYDimension", int)
    want["imgsz"] = (x, y) if x and y else None
    want["sensorsz"] = None
    if want["make"] and want["model"]:
        want["sensorsz"] = SENSOR_SIZES.get(want["make"].strip() + " " + want["model"].strip())
        if c["camera"]:
            check((want["sensorsz"] is None) == (c["camera"][1] == "EOS 20D"), "known cameras")
    want["datetime"] = None
    if c["when"]:
        micro = int(c["subsec"].ljust(6, "0")) if c["subsec"] else 0
        want["datetime"] = c["when"].replace(microsecond=micro)
    for key, value in want.items():
        got = getattr(e, key)
        check(got == value, "parsed value", key=key, got=got, want=value)
        check(value is None or type(got) is type(value), "type of parsed value", key=key, got=got)
    n = sum(v is not None for v in want.values())
    if 0 < n < len(want):
        ctx.hit("datetime" if c["when"] else "no datetime", f"subsec {len(c['subsec'])}")


# ---- Histories -------------------------------------------------------------- #


def thumb():
    ok, buf = cv2.imencode(".jpg", np.full((4, 4, 3), 90, "uint8"))
    assert ok
    return buf.tobytes()


@st.composite
def edits(draw):
    keys = list(TAGS)
    key = st.sampled_from(keys)
    op = st.one_of(
        key.flatmap(lambda k: st.tuples(st.just("set"), st.just(k), TAGS[k])),
        key.flatmap(lambda k: st.tuples(st.just("set"), st.just(k), TAGS[k])),
        st.tuples(st.just("drop"), key),
        st.tuples(st.just("insert")),
        st.tuples(st.just("reload"), st.booleans()),
        st.tuples(st.just("dump")),
        st.tuples(st.just("move")),
        st.tuples(st.just("clear")),
    )
    return {
        "tags": draw(tagsets()),
        "thumbnail": draw(st.booleans()),
        "keep": draw(st.booleans()),
        "ext": draw(st.sampled_from([".jpg", ".jpg", ".webp"])),
        "seed": draw(st.integers(0, 1000)),
        "ops": draw(st.lists(op, min_size=1, max_size=10)),
    }


@R.sub(
    edits(),
    quick=400,
    thorough=10000,
    rule="a history of tag edits, dumps, insertions and reads of files; non-trivial when an "
    "edit is inserted and read again",
)
def histories(c, ctx):
    path = image(c["ext"], c["seed"])
    thumbnail = thumb() if c["thumbnail"] and c["ext"] == ".jpg" else None
    write_tags(path, c["tags"], thumbnail)
    pixels = pixels_of(path)
    if thumbnail:
        # The encoder drops some headers of the thumbnail
        thumbnail = Exif(path, thumbnail=True).tags["thumbnail"]
        check(cv2.imdecode(np.frombuffer(thumbnail, "uint8"), 1).shape == (4, 4, 3), "thumbnail")
    e = Exif(path, thumbnail=c["keep"])
    model = dict(c["tags"])  # of the object
    model_thumb = thumbnail if c["keep"] else None
    stored, stored_thumb = dict(model), thumbnail  # of the file
    edited = False
    for op in c["ops"] + [("insert",), ("reload", True)]:
        if op[0] == "set":
            e.tags.setdefault("Exif", {})  # the encoder needs it
            e.tags.setdefault(op[1][0], {})[op[1][1]] = op[2]
            model[op[1]] = op[2]
            edited = True
        elif op[0] == "drop":
            e.tags.get(op[1][0], {}).pop(op[1][1], None)
            model.pop(op[1], None)
        elif op[0] == "clear":
            e.tags = {}
            model, model_thumb = {}, None
        elif op[0] == "dump":
            before = copy.deepcopy(e.tags)
            first = e.dump()
            check(e.tags == before, "dump changed the tags")
            check(isinstance(first, bytes) and first == e.dump(), "dump repeats")
        elif op[0] == "insert":
            before = copy.deepcopy(e.tags)
            e.insert(path)
            check(e.tags == before, "insert changed the tags")
            stored, stored_thumb = dict(model), model_thumb
            if edited:
                ctx.hit("inserted")
        elif op[0] == "move":
            # To another image
            path = image(c["ext"], c["seed"] + 1)
            if c["ext"] == ".webp":
                write_tags(path, {})
            pixels = pixels_of(path)
            stored, stored_thumb = {}, None
        else:
            e = Exif(path, thumbnail=op[1])
            model, model_thumb = dict(stored), stored_thumb if op[1] else None
            if not op[1]:
                check("thumbnail" not in e.tags and "1st" not in e.tags, "thumbnail dropped")
        check(user_tags(e) == model, "tags", op=op, got=user_tags(e), want=model)
        check((e.tags.get("thumbnail") or None) == model_thumb, "thumbnail", op=op)
        same(pixels_of(path), pixels, "pixels of the image")
        disk = Exif(path, thumbnail=True)
        check(user_tags(disk) == stored, "tags in file", op=op, got=user_tags(disk), want=stored)
        check((disk.tags.get("thumbnail") or None) == stored_thumb, "thumbnail in file", op=op)


@R.sub(
    st.tuples(
        tagsets(),
        st.sampled_from(["group", "tag"]),
        st.sampled_from(["0th", "Exif", "GPS", "Interop", "1st"]),
        st.sampled_from(["Unknown", "exif", "iso", "FooBar", "make"]),
    ),
    quick=100,
    thorough=2000,
    rule="tags with an unknown group or name; all non-trivial",
)
def invalid(c, ctx):
    ctx.hit(c[1])
    path = image(".jpg")
    write_tags(path, c[0])
    with open(path, "rb") as fp:
        content = fp.read()
    e = Exif(path)
    if c[1] == "group":
        e.tags[c[3]] = {}
    else:
        e.tags.setdefault(c[2], {})[c[3]] = 1
    before = copy.deepcopy(e.tags)
    raises(ValueError, e.dump, msg="invalid tags")
    raises(ValueError, e.insert, path, msg="invalid tags")
    check(e.tags == before, "tags changed")
    with open(path, "rb") as fp:
        check(fp.read() == content, "file changed although refused")

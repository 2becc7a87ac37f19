"""C26 JSON and pickle files, paths and lists."""
import datetime
import gzip
import json
import os
import pathlib
import pickle

import numpy as np
from core import Registry, check, close, raises, same, st
from gens import finite

import glimpse
from glimpse import helpers

R = Registry("C26")
TMP = os.environ.get("VERIF_SCRATCH", "/tmp")

number = st.one_of(
    st.integers(-(10**18), 10**18),
    st.floats(allow_nan=False, allow_infinity=False),
    st.integers(-99, 99),
)
# Text that looks like JSON is the interesting kind
text = st.one_of(
    st.text(max_size=8),
    st.text(alphabet='[]{}", \\:\n\ta1é', max_size=14),
    st.sampled_from(["[1, 2]", "[", "]", '"', "\\", '\\"', "a, b", "[\n  1,\n  2\n]", "],[", '", "']),
)
scalar = st.one_of(number, number, text, st.booleans(), st.none())
array = st.lists(scalar, max_size=6)
tree = st.recursive(
    st.one_of(scalar, array, array),
    lambda inner: st.one_of(
        st.dictionaries(text, inner, max_size=4),
        st.lists(st.dictionaries(text, inner, max_size=3), min_size=1, max_size=3),
    ),
    max_leaves=12,
)
nested = st.recursive(
    scalar, lambda inner: st.one_of(st.lists(inner, max_size=4), st.dictionaries(text, inner, max_size=3)), max_leaves=12
)
options = st.fixed_dictionaries(
    {
        "indent": st.sampled_from([None, 0, 1, 2, 4, "\t"]),
        "separators": st.sampled_from([None, (",", ":"), (", ", ": "), (",", ": ")]),
        "sort_keys": st.booleans(),
        "ensure_ascii": st.booleans(),
    }
)


def scratch(name):
    return os.path.join(TMP, "c26", name)


def expected(obj, kw, flat, level=0):
    """Text of an object without directly nested arrays."""
    indent = kw["indent"]
    unit = " " * indent if isinstance(indent, int) else indent
    plain = dict(ensure_ascii=kw["ensure_ascii"], sort_keys=kw["sort_keys"])
    item, key = kw["separators"] or ((", ", ": ") if indent is None else (",", ": "))
    line = "" if indent is None else "\n" + unit * (level + 1)
    end = "" if indent is None else "\n" + unit * level
    if isinstance(obj, dict):
        if not obj:
            return "{}"
        items = sorted(obj.items()) if kw["sort_keys"] else obj.items()
        return (
            "{" + line
            + (item + line).join(
                json.dumps(k, **plain) + key + expected(v, kw, flat, level + 1) for k, v in items
            )
            + end + "}"
        )
    if isinstance(obj, list):
        if not obj:
            return "[]"
        if flat and indent is not None and not any(isinstance(v, dict) for v in obj):
            sep = kw["separators"][0] if kw["separators"] else ", "
            return "[" + sep.join(json.dumps(v, **plain) for v in obj) + "]"
        return (
            "[" + line
            + (item + line).join(expected(v, kw, flat, level + 1) for v in obj)
            + end + "]"
        )
    return json.dumps(obj, **plain)


def trees_equal(a, b):
    """Equality that tells 1 from 1.0 and True."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(trees_equal(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(trees_equal(x, y) for x, y in zip(a, b))
    return a == b


@R.sub(
    st.fixed_dictionaries(
        {"obj": tree, "kw": options, "flat": st.booleans(), "folder": st.booleans(), "kind": st.sampled_from([str, pathlib.Path])}
    ),
    quick=600,
    thorough=15000,
    rule="trees of objects, arrays and text that looks like JSON; non-trivial if arrays are flattened",
)
def json_round_trip(c, ctx):
    kw = {k: v for k, v in c["kw"].items() if v is not None}
    obj, flat = c["obj"], c["flat"]
    got = helpers.write_json(obj, flat_arrays=flat, **kw)
    if not c["kw"]["sort_keys"]:
        check(trees_equal(json.loads(got), obj), "reads back", got=got)
    check(json.loads(got) == obj, "reads back", got=got)
    want = expected(obj, c["kw"], flat)
    check(got == want, "text", got=got, want=want)
    if flat and c["kw"]["indent"] is not None and "[" in got:
        ctx.hit("indent=%r" % c["kw"]["indent"])
    # File
    folder = scratch("a%d" % c["folder"])
    path = c["kind"](os.path.join(folder, "b", "x.json") if c["folder"] else folder + ".json")
    result = helpers.write_json(obj, path=path, flat_arrays=flat, **kw)
    check(result is None, "returns nothing", got=result)
    check(trees_equal(helpers.read_json(path), json.loads(got)), "reads file back")
    check(
        json.dumps(helpers.read_json(path, parse_float=str)) == json.dumps(json.loads(got, parse_float=str)),
        "passes options on",
    )


@R.sub(
    st.fixed_dictionaries({"obj": nested, "kw": options}),
    quick=400,
    thorough=10000,
    rule="arrays nested in any way; non-trivial if arrays are in arrays",
)
def nested_arrays_read_back(c, ctx):
    kw = {k: v for k, v in c["kw"].items() if v is not None}
    got = helpers.write_json(c["obj"], flat_arrays=True, **kw)
    check(json.loads(got) == c["obj"], "reads back", got=got)

    def deep(x):
        if isinstance(x, dict):
            return any(deep(v) for v in x.values())
        return isinstance(x, list) and (
            any(isinstance(v, list) for v in x) or any(deep(v) for v in x)
        )

    if deep(c["obj"]) and kw.get("indent") is not None:
        ctx.hit()


# ---- Pickles ---- #


@st.composite
def pickles(draw):
    return {
        "obj": draw(nested),
        "array": draw(st.lists(finite(-9, 9), max_size=5)),
        "dtype": draw(st.sampled_from(["f8", "f4", "i2", "?", "datetime64[s]", "O"])),
        "gz": draw(st.booleans()),
        "protocol": draw(st.sampled_from([None, 0, 2, 4])),
        "folder": draw(st.booleans()),
        "kind": draw(st.sampled_from([str, pathlib.Path])),
        "repeat": draw(st.integers(1, 2)),
    }


@R.sub(
    pickles(),
    quick=300,
    thorough=6000,
    rule="trees and arrays; non-trivial if compressed or in a new folder",
)
def pickles_read_back(c, ctx):
    obj = {
        "tree": c["obj"],
        "array": np.array([int(x) for x in c["array"]]).astype(c["dtype"]),
        "time": datetime.datetime(2020, 1, 2, 3, 4, 5, 6),
        "set": {1, (2, 3)},
    }
    kw = {} if c["protocol"] is None else {"protocol": c["protocol"]}
    parts = ["p%d" % os.getpid()] + (["new", "folder"] if c["folder"] else [])
    path = c["kind"](scratch(os.path.join(*parts, "x.pkl")))
    if c["gz"] or c["folder"]:
        ctx.hit("gz" if c["gz"] else "plain")
    for _ in range(c["repeat"]):
        helpers.write_pickle(obj, path, gz=c["gz"], **kw)
    with open(path, "rb") as fp:
        data = fp.read()
    check((data[:2] == b"\x1f\x8b") == c["gz"], "compressed as asked")
    raw = gzip.decompress(data) if c["gz"] else data
    for got in (helpers.read_pickle(path, gz=c["gz"]), pickle.loads(raw)):
        check(trees_equal(got["tree"], obj["tree"]), "tree")
        check(got["array"].dtype == obj["array"].dtype, "dtype")
        check(np.array_equal(got["array"], obj["array"]), "array")
        check(got["time"] == obj["time"] and got["set"] == obj["set"], "values")
    if c["protocol"] is not None:
        check(raw[:1] == b"\x80" and raw[1] == c["protocol"] or c["protocol"] == 0, "protocol")
    os.remove(path)


@st.composite
def objects(draw):
    n = draw(st.integers(2, 6))
    return {
        "vector": [
            *draw(st.lists(finite(-50, 50), min_size=6, max_size=6)),
            *draw(st.lists(st.integers(20, 60), min_size=2, max_size=2)),
            *draw(st.lists(finite(30, 90), min_size=2, max_size=2)),
            *draw(st.lists(finite(-2, 2), min_size=2, max_size=2)),
            *draw(st.lists(finite(-0.05, 0.05), min_size=6, max_size=6)),
            *draw(st.lists(finite(-0.005, 0.005), min_size=2, max_size=2)),
        ],
        "z": draw(st.lists(st.lists(finite(-9, 9), min_size=n, max_size=n), min_size=2, max_size=5)),
        "points": draw(st.lists(st.tuples(finite(-0.9, 0.9), finite(-0.9, 0.9), finite(1, 9)), min_size=1, max_size=4)),
        "warm": draw(st.booleans()),
        "gz": draw(st.booleans()),
        "datetime": draw(st.booleans()),
    }


@R.sub(
    objects(),
    quick=150,
    thorough=2000,
    rule="cameras, rasters and images, before and after use; non-trivial if used before",
)
def objects_pickle(c, ctx):
    v = c["vector"]
    cam = glimpse.Camera(
        xyz=v[:3], viewdir=v[3:6], imgsz=v[6:8], f=v[8:10], c=v[10:12], k=v[12:18], p=v[18:]
    )
    z = np.array(c["z"])
    time = datetime.datetime(2020, 1, 1) if c["datetime"] else None
    raster = glimpse.Raster(z, x=(0, 10), y=(20, 0), datetime=time)
    observer = glimpse.Observer(
        [
            glimpse.Image("missing%d.jpg" % i, cam=cam.copy(), datetime=datetime.datetime(2020, 1, 1 + i))
            for i in range(2)
        ],
        sigma=0.3,
    )
    uvw = np.array(c["points"])
    xyz = cam.xyz + uvw @ cam.R
    at = np.column_stack((uvw[:, 0] + 5, uvw[:, 1] * 5 + 10))
    if c["warm"]:
        ctx.hit()
        cam.xyz_to_uv(xyz)
        raster.sample(at)
    path = scratch("objects.pkl")
    helpers.write_pickle([cam, raster, observer], path, gz=c["gz"])
    cam2, raster2, observer2 = helpers.read_pickle(path, gz=c["gz"])
    same(cam2.to_array(), cam.to_array(), msg="camera")
    same(cam2.xyz_to_uv(xyz), cam.xyz_to_uv(xyz), msg="projection")
    same(raster2.array, raster.array, msg="raster")
    same(raster2.sample(at), raster.sample(at), msg="sample")
    check(raster2.datetime == time, "datetime")
    same([*raster2.xlim, *raster2.ylim], [*raster.xlim, *raster.ylim], msg="limits")
    check(observer2.sigma == observer.sigma, "sigma")
    check(list(observer2.datetimes) == list(observer.datetimes), "datetimes")
    same(observer2.images[1].cam.to_array(), cam.to_array(), msg="observer camera")
    cam2.resize(0.5)
    cam2.reset()
    same(cam2.to_array(), cam.to_array(), msg="camera as it was made")
    # Independent
    cam2.xyz = cam2.xyz + 1
    raster2.array[0, 0] += 1
    same(cam.to_array()[:3], np.array(v[:3]), msg="camera unchanged")
    close(raster.array, z, msg="raster unchanged")


# ---- Paths and lists ---- #

part = st.text(alphabet="abAB1_- é", min_size=1, max_size=4)


@R.sub(
    st.fixed_dictionaries(
        {
            "folders": st.lists(st.one_of(part, st.just("a.b"), st.just("..")), max_size=3),
            "root": st.booleans(),
            "name": part,
            "extensions": st.lists(part, max_size=4),
            "n": st.one_of(st.just(True), st.just(False), st.integers(0, 5)),
        }
    ),
    quick=400,
    thorough=8000,
    rule="paths; non-trivial if they have extensions to remove",
)
def paths_strip(c, ctx):
    base = ".".join([c["name"], *c["extensions"]])
    path = os.path.join(*(["/"] if c["root"] else []), *c["folders"], base)
    n = len(c["extensions"]) if c["n"] is True else int(c["n"])
    keep = max(len(c["extensions"]) - n, 0)
    want = ".".join([c["name"], *c["extensions"][:keep]])
    got = helpers.strip_path(path, extensions=c["n"])
    check(got == want, "name", got=got, want=want)
    if c["n"] is True:
        check(helpers.strip_path(path) == want, "all extensions by default")
    if c["extensions"] and n:
        ctx.hit()


@R.sub(
    st.fixed_dictionaries(
        {
            "x": st.one_of(
                st.none(), st.integers(-9, 9), finite(-9, 9),
                st.lists(st.integers(-9, 9), max_size=6),
            ),
            "make": st.sampled_from([list, tuple, np.array, iter]),
            "length": st.one_of(st.none(), st.integers(1, 9)),
            "default": st.one_of(st.none(), st.integers(-3, 3)),
            "dtype": st.sampled_from([None, float, int, str]),
        }
    ),
    quick=600,
    thorough=10000,
    rule="numbers and lists; non-trivial if repeated, padded or cut",
)
def lists_format(c, ctx):
    x, length, default, dtype = c["x"], c["length"], c["default"], c["dtype"]
    arg = x if not isinstance(x, list) else c["make"](x)
    before = list(x) if isinstance(x, list) else None

    def run():
        return helpers.format_list(arg, length=length, default=default, dtype=dtype)

    if x is None:
        check(run() is None, "None")
        return
    items = x if isinstance(x, list) else [x]
    n = len(items)
    if length is None or n == length:
        want = items
    elif n > length:
        want = items[:length]
    elif default is not None:
        want = items + [default] * (length - n)
    elif n == 0:
        want = []
    elif length % n:
        ctx.hit("error")
        raises(ValueError, run, msg="length is not a multiple")
        return
    else:
        want = items * (length // n)
    if len(want) != n:
        ctx.hit()
    if dtype:
        want = [dtype(v) for v in (np.array(want) if c["make"] is np.array and isinstance(x, list) and dtype is not str else want)]
    got = run()
    check(isinstance(got, list) and got == want or (dtype is str and len(got) == len(want)), "list", got=got, want=want)
    if dtype:
        check(all(type(v) is dtype for v in got), "types", got=got)
    if before is not None:
        check(x == before, "input changed")


@R.sub(
    st.fixed_dictionaries(
        {
            "values": st.lists(st.integers(0, 200), min_size=1, max_size=6),
            "dtype": st.sampled_from(["f8", "f4", "i4", "u1", "?"]),
            "kind": st.sampled_from(["array", "matrix", "scalar", "native", "list"]),
        }
    ),
    quick=300,
    thorough=3000,
    rule="arrays and numbers; non-trivial if numpy",
)
def numbers_become_native(c, ctx):
    a = np.array(c["values"]).astype(c["dtype"])
    native = {"f": float, "i": int, "u": int, "?": bool, "b": bool}[c["dtype"][0]]
    if c["kind"] == "list":
        got = helpers.numpy_to_native(c["values"])
        check(got is c["values"], "left as is")
        return
    if c["kind"] == "native":
        for v in (c["values"][0], "a", None, {"a": 1}):
            check(helpers.numpy_to_native(v) is v, "left as is")
        return
    ctx.hit(c["kind"], c["dtype"])
    if c["kind"] == "scalar":
        got = helpers.numpy_to_native(a[0])
        check(type(got) is native and got == a[0], "scalar", got=got)
        return
    b = a if c["kind"] == "array" else a.reshape(1, -1)
    got = helpers.numpy_to_native(b)
    check(isinstance(got, list) and np.array_equal(np.array(got), b), "list", got=got)
    flat = got if c["kind"] == "array" else got[0]
    check(all(type(v) is native for v in flat), "types", got=flat)
    json.dumps(got)

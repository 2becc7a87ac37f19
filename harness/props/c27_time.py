"""C27 Datetimes: distances, ranges and selections."""
import datetime
import os
import time

import numpy as np
from core import Registry, check, close, raises, same, st

from glimpse import helpers

R = Registry("C27")

US = datetime.timedelta(microseconds=1)
ZONES = ["UTC", "America/Anchorage", "Europe/Berlin", "Asia/Kathmandu", "Australia/Lord_Howe"]


class Zone:
    """Local time zone of the process."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.before = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *_):
        if self.before is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.before
        time.tzset()


base = st.sampled_from(
    [
        # Daylight saving time changes
        datetime.datetime(2020, 3, 8, 1, 30),
        datetime.datetime(2020, 3, 29, 1, 30),
        datetime.datetime(2020, 10, 25, 1, 30),
        datetime.datetime(2020, 11, 1, 0, 30),
        datetime.datetime(2020, 4, 4, 15, 0),
        datetime.datetime(1970, 1, 1),
        datetime.datetime(1969, 12, 31, 23, 59, 59, 999999),
        datetime.datetime(2016, 2, 28, 23),
        datetime.datetime(1901, 5, 6),
        datetime.datetime(2199, 12, 31),
    ]
)
# Steps of a microsecond to days
gap = st.one_of(
    st.integers(0, 20).map(lambda x: x * 10**6),
    st.integers(0, 9),
    st.integers(0, 4).map(lambda x: x * 3600 * 10**6),
    st.integers(0, 10**12),
)
offset = st.one_of(st.none(), st.just(0), st.sampled_from([-540, 60, 345]))


def at(start, us, zone=None):
    t = start + us * US
    if zone is not None:
        t = t.replace(tzinfo=datetime.timezone.utc).astimezone(
            datetime.timezone(datetime.timedelta(minutes=zone))
        )
    return t


@R.sub(
    st.fixed_dictionaries(
        {
            "base": base,
            "x": st.lists(gap, min_size=1, max_size=5),
            "y": st.lists(gap, min_size=1, max_size=5),
            "zones": st.lists(st.sampled_from([0, -540, 60, 345]), min_size=10, max_size=10),
            "aware": st.booleans(),
            "local": st.sampled_from(ZONES),
            "make": st.sampled_from([list, tuple, np.array]),
        }
    ),
    quick=500,
    thorough=10000,
    rule="datetimes (with or without time zones) in any local time zone; non-trivial if the local time zone is not UTC",
)
def distances_are_seconds_between(c, ctx):
    zones = iter(c["zones"] if c["aware"] else [None] * 10)
    x = [at(c["base"], v, next(zones)) for v in c["x"]]
    y = [at(c["base"], v, next(zones)) for v in c["y"]]
    with Zone(c["local"]):
        got = helpers.pairwise_distance_datetimes(c["make"](x), c["make"](y))
        back = helpers.pairwise_distance_datetimes(c["make"](y), c["make"](x))
    want = np.array([[abs(a - b) / 1e6 for b in c["y"]] for a in c["x"]])
    # Exact to the microsecond
    close(got, want, rtol=1e-15, atol=1e-9, msg="seconds between datetimes", local=c["local"])
    close(back, want.T, rtol=1e-15, atol=1e-9, msg="symmetric")
    if c["local"] != "UTC":
        ctx.hit("aware" if c["aware"] else "naive")


@R.sub(
    st.fixed_dictionaries(
        {
            "base": base,
            "zone": offset,
            "span": st.one_of(gap, st.just(0)),
            "step": st.one_of(gap, st.integers(1, 10**7)),
            "sign": st.sampled_from([1, -1]),
            "multiple": st.one_of(st.none(), st.integers(0, 20)),
            "local": st.sampled_from(ZONES),
        }
    ),
    quick=500,
    thorough=10000,
    rule="spans and steps; non-trivial if more than one datetime fits",
)
def ranges_are_evenly_spaced(c, ctx):
    step = c["step"] or 1
    span = c["span"]
    if c["multiple"] is not None:
        span = step * c["multiple"]
    elif span // step > 300:
        step = span // 300 + 1
    start = at(c["base"], 0, c["zone"])
    stop = at(c["base"], c["sign"] * span, c["zone"])
    with Zone(c["local"]):
        got = helpers.datetime_range(start, stop, c["sign"] * step * US)
        check(
            helpers.datetime_range(start, at(c["base"], -c["sign"], c["zone"]), c["sign"] * step * US) == [],
            "nothing before start",
        )
    want = [start + n * c["sign"] * step * US for n in range(span // step + 1)]
    check(list(got) == want, "start, start + step, ... up to stop", got=len(got), want=len(want))
    if len(want) > 1:
        ctx.hit("aligned" if span % step == 0 else "not aligned")


@st.composite
def neighbor_cases(draw):
    n = draw(st.integers(1, 8))
    return {
        "x": sorted(draw(st.lists(st.integers(-30, 30), min_size=n, max_size=n))),
        "y": draw(st.lists(st.integers(-80, 80), max_size=8)),
        "dtype": draw(st.sampled_from(["i8", "f8", "datetime", "datetime64[s]"])),
        "make": draw(st.sampled_from([list, tuple, np.array])),
    }


@R.sub(
    neighbor_cases(),
    quick=500,
    thorough=10000,
    rule="sorted values (some equal); non-trivial if some are between",
)
def nearest_of_sorted(c, ctx):
    x, y = c["x"], [v / 2 if c["dtype"] == "f8" else v for v in c["y"]]
    if c["dtype"] == "datetime":
        t0 = datetime.datetime(2020, 1, 1)
        a = [at(t0, v * 10**6) for v in x]
        b = [at(t0, v * 10**6) for v in y]
    else:
        a, b = np.array(x).astype(c["dtype"]), np.array(y).astype(c["dtype"])
    if not y:
        b = np.array(b, dtype=object if c["dtype"] == "datetime" else c["dtype"])
        a = np.array(a)
    got = helpers.sorted_nearest(c["make"](a), c["make"](b) if y else b)
    check(len(got) == len(y), "one index for each")
    for i, v in zip(got, y):
        check(0 <= i < len(x), "index", got=i)
        check(abs(x[i] - v) == min(abs(w - v) for w in x), "nearest", value=v, got=x[i])
    if any(x[0] < v < x[-1] for v in y):
        ctx.hit(c["dtype"])


@st.composite
def selections(draw):
    gaps = draw(
        st.lists(
            st.one_of(st.integers(0, 5), st.integers(0, 40), st.integers(5, 6)), max_size=9
        )
    )
    times = list(np.cumsum([0, *gaps]) * 250000)
    lo, hi = 0, int(times[-1])
    t = st.integers(lo // 250000 - 12, hi // 250000 + 12).map(lambda v: v * 250000)
    snap = draw(st.one_of(st.none(), st.integers(1, 12).map(lambda v: v * 250000), st.integers(3, 10**7)))
    if snap:
        snap = max(snap, (hi + 2000000) // 150)
    return {
        "base": draw(base),
        "zone": draw(offset),
        "times": [int(v) for v in times],
        "start": draw(st.one_of(st.none(), t)),
        "end": draw(st.one_of(st.none(), t)),
        "snap": snap,
        "maxdt": draw(st.one_of(st.none(), st.just(0), st.integers(0, 20).map(lambda v: v * 125000))),
        "origin": draw(st.one_of(st.none(), st.integers(-50, 50).map(lambda v: v * 250000))),
        "make": draw(st.sampled_from([list, tuple, np.array])),
        "local": draw(st.sampled_from(ZONES)),
    }


@R.sub(
    selections(),
    quick=800,
    thorough=20000,
    rule="datetimes (with repeats and gaps) and criteria; non-trivial if some but not all are selected on an interval",
)
def selects_matching_datetimes(c, ctx):
    times = c["times"]
    t = [at(c["base"], v, c["zone"]) for v in times]
    lo, hi, snap = c["start"], c["end"], c["snap"]
    kw = {}
    if lo is not None:
        kw["start"] = at(c["base"], lo, c["zone"])
    if hi is not None:
        kw["end"] = at(c["base"], hi, c["zone"])
    if snap is not None:
        kw["snap"] = snap * US
    if c["maxdt"] is not None:
        kw["maxdt"] = c["maxdt"] * US
    if c["origin"] is not None:
        kw["origin"] = at(c["base"], c["origin"], c["zone"])
    elif c["zone"] is not None:
        kw["origin"] = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    arg = c["make"](t)

    def run():
        with Zone(c["local"]):
            return helpers.select_datetimes(arg, **kw)

    # Default bounds reach the first and last datetimes from one interval away
    reach = snap or 0
    first = times[0] - reach if lo is None else lo
    last = times[-1] + reach if hi is None else hi
    if first > last:
        raises(ValueError, run, msg="start after end")
        ctx.label("empty")
        return
    got = run()
    check(got.shape == (len(t),) and got.dtype == bool, "mask", got=got)
    check(list(arg) == t, "input changed")
    inside = [first <= v <= last for v in times]
    if snap is None:
        check(got.tolist() == inside, "within start and end", got=got, want=inside)
        return
    if c["origin"] is not None:
        origin = c["origin"]
    else:
        origin = (datetime.datetime(1970, 1, 1) - c["base"]) // US
    maxdt = snap / 2 if c["maxdt"] is None else c["maxdt"]
    k = first + (origin - first) % snap
    must, may = set(), set()
    while k <= last:
        d = [abs(v - k) for v in times]
        best = min(d)
        # NOTE: Half of an odd number of microseconds may be rounded
        near = [i for i, v in enumerate(d) if v == best]
        if abs(best - maxdt) <= 0.5 and c["maxdt"] is None and snap % 2:
            may |= set(near)
        elif best <= maxdt:
            (must if len(near) == 1 else may).update(near)
            if len(near) > 1:
                check(any(got[i] or not inside[i] for i in near), "one of the nearest", at=near)
        k += snap
    for i in range(len(t)):
        if i in must:
            check(got[i] == inside[i], "nearest to an interval", at=i, got=got)
        elif i not in may:
            check(not got[i], "not nearest to any interval", at=i, got=got)
        elif not inside[i]:
            check(not got[i], "outside start and end", at=i, got=got)
    if got.any() and not got.all():
        ctx.hit("origin" if c["origin"] is not None else "epoch")

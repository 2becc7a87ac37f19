"""Shared generators. Everything drawn is plain Python data."""
import numpy as np
from core import st

# Dyadic numbers: sums, differences and halves of these are exact in float64.
dyadic_step = st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 3.0, 5.0, 10.0, 12.5])
dyadic_origin = st.one_of(
    st.integers(-64, 64).map(float),
    st.integers(-4096, 4096).map(lambda i: i / 8),
    st.sampled_from([0.0, 500000.0, 6789000.0]),
)
sign = st.sampled_from([1, -1])


def finite(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


@st.composite
def grids(draw, min_n=1, max_n=8, square=False):
    """Grid spec with exact arithmetic: (nx, ny, xlim, ylim)."""
    nx = draw(st.integers(min_n, max_n))
    ny = draw(st.integers(min_n, max_n))
    dx = draw(dyadic_step)
    dy = dx if square else draw(dyadic_step)
    x0, y0 = draw(dyadic_origin), draw(dyadic_origin)
    sx, sy = draw(sign), draw(st.sampled_from([-1, -1, 1]))
    xlim = (x0, x0 + nx * dx)[::sx]
    ylim = (y0, y0 + ny * dy)[::sy]
    return {"nx": nx, "ny": ny, "xlim": tuple(xlim), "ylim": tuple(ylim)}


def centers(lim, n):
    d = (lim[1] - lim[0]) / n
    return np.array([lim[0] + d * (i + 0.5) for i in range(n)])


def cells(nx, ny, elements):
    return st.lists(
        st.lists(elements, min_size=nx, max_size=nx), min_size=ny, max_size=ny
    )


small_ints = st.integers(-20, 20)
quarters = st.integers(-200, 200).map(lambda i: i / 4)
maybe_nan = st.one_of(quarters, quarters, quarters, st.just(float("nan")))

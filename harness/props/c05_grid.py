"""C05 Grid coordinates, indices and extents agree."""
import numpy as np
from core import Registry, check, close, raises, same, st
from gens import centers, dyadic_origin, dyadic_step, grids, sign

from glimpse.raster import Grid

R = Registry("C05")


def build(g, how="lim"):
    nx, ny, xlim, ylim = g["nx"], g["ny"], g["xlim"], g["ylim"]
    x, y = centers(xlim, nx), centers(ylim, ny)
    if how == "vec" and nx > 2 and ny > 2:
        return Grid((nx, ny), x=x, y=y)
    if how == "mat" and nx > 2 and ny > 2:
        return Grid((nx, ny), x=np.tile(x, (ny, 1)), y=np.tile(y, (nx, 1)).T)
    if how == "array":
        return Grid((nx, ny), x=np.array(xlim), y=np.array(ylim))
    return Grid((nx, ny), x=xlim, y=ylim)


def agree(grid, nx, ny, xlim, ylim, msg):
    """All views of the grid describe the same cells."""
    dx, dy = (xlim[1] - xlim[0]) / nx, (ylim[1] - ylim[0]) / ny
    x, y = centers(xlim, nx), centers(ylim, ny)
    same(np.asarray(grid.size), [nx, ny], msg + ": size")
    check(tuple(grid.shape) == (ny, nx), msg + ": shape", got=grid.shape)
    close(grid.xlim, xlim, 0, 1e-9, msg + ": xlim")
    close(grid.ylim, ylim, 0, 1e-9, msg + ": ylim")
    close(grid.d, (dx, dy), 1e-12, 1e-12, msg + ": d")
    close(grid.x, x, 1e-12, 1e-9, msg + ": x")
    close(grid.y, y, 1e-12, 1e-9, msg + ": y")
    close(grid.X, np.tile(x, (ny, 1)), 1e-12, 1e-9, msg + ": X")
    close(grid.Y, np.tile(y, (nx, 1)).T, 1e-12, 1e-9, msg + ": Y")
    lo = (min(xlim), min(ylim))
    hi = (max(xlim), max(ylim))
    close(grid.min, lo, 0, 1e-9, msg + ": min")
    close(grid.max, hi, 0, 1e-9, msg + ": max")
    close(grid.box2d, lo + hi, 0, 1e-9, msg + ": box2d")


how = st.sampled_from(["lim", "vec", "mat", "array"])


@R.sub(
    st.fixed_dictionaries({"g": grids(), "how": how}),
    quick=1500,
    thorough=20000,
    rule="random size, origin, cell size, axis directions and constructor form; "
    "non-trivial when a reversed axis or a non-square grid",
)
def coordinates(case, ctx):
    g = case["g"]
    grid = build(g, case["how"])
    nx, ny = g["nx"], g["ny"]
    agree(grid, nx, ny, g["xlim"], g["ylim"], "built")
    if nx != ny or g["xlim"][0] > g["xlim"][1]:
        ctx.hit(case["how"])
    # Every cell: index <-> map <-> image <-> flat
    rc = np.array([(i, j) for i in range(ny) for j in range(nx)])
    xy = grid.rowcol_to_xy(rc)
    close(xy, [(grid.x[j], grid.y[i]) for i, j in rc], 1e-12, 1e-9, "rowcol_to_xy")
    same(grid.xy_to_rowcol(xy, snap=True), rc, "xy_to_rowcol(snap)")
    close(grid.xy_to_rowcol(xy), rc, 1e-9, 1e-9, "xy_to_rowcol")
    same(grid.rowcol_to_idx(rc), np.arange(nx * ny), "rowcol_to_idx")
    same(grid.idx_to_rowcol(np.arange(nx * ny)), rc, "idx_to_rowcol")
    uv = grid.xyz_to_uv(xy)
    close(uv, rc[:, ::-1] + 0.5, 1e-12, 1e-9, "xyz_to_uv at centres")
    back = grid.uv_to_xyz(uv)
    check(back.shape == (len(rc), 3), "uv_to_xyz shape")
    close(back[:, :2], xy, 1e-12, 1e-9, "uv_to_xyz inverts xyz_to_uv")
    check(np.isnan(back[:, 2]).all(), "uv_to_xyz z is missing")
    corners = grid.uv_to_xyz(np.array([(0.0, 0.0), (float(nx), float(ny))]))
    close(
        corners[:, :2],
        [(g["xlim"][0], g["ylim"][0]), (g["xlim"][1], g["ylim"][1])],
        1e-12,
        1e-9,
        "image corners are the limits",
    )


@R.sub(
    st.fixed_dictionaries(
        {
            "g": grids(),
            # Positions in quarter cells, inside or on the boundary (and beyond)
            "pts": st.lists(
                st.tuples(st.integers(-6, 38), st.integers(-6, 38)),
                min_size=1,
                max_size=8,
            ),
            "inbounds": st.booleans(),
        }
    ),
    quick=1500,
    thorough=20000,
    rule="points at quarter-cell positions incl. edges, corners and outside; "
    "non-trivial when a point lies on a cell edge",
)
def snapping(case, ctx):
    g = case["g"]
    grid = build(g)
    nx, ny = g["nx"], g["ny"]
    pts = np.array(case["pts"], float) / 4
    origin = np.array((g["xlim"][0], g["ylim"][0]))
    d = np.array(
        ((g["xlim"][1] - origin[0]) / nx, (g["ylim"][1] - origin[1]) / ny)
    )
    xy = origin + pts * d
    n = np.array((nx, ny), float)
    if (pts % 1 == 0).any():
        ctx.hit("edge")
    inside = ((pts >= 0) & (pts <= n)).all(axis=1)
    same(grid.inbounds_xy(xy), inside, "inbounds_xy")
    same(grid.inbounds(pts), inside, "inbounds")
    gx, gy = grid.inbounds_xy((xy[:, 0], xy[:, 1]), grid=True)
    same(gx, (pts[:, 0] >= 0) & (pts[:, 0] <= n[0]), "inbounds_xy grid x")
    same(gy, (pts[:, 1] >= 0) & (pts[:, 1] <= n[1]), "inbounds_xy grid y")
    # Edges: nearest integer, ties to the higher index
    close(
        grid.snap_xy(xy, edges=True),
        origin + np.floor(pts + 0.5) * d,
        0,
        1e-9,
        "snap to edges",
    )
    close(
        grid.snap_xy(xy, edges=True, centers=True),
        origin + np.floor(pts * 2 + 0.5) / 2 * d,
        0,
        1e-9,
        "snap to edges and centres",
    )
    # Centres: points on edges go to higher index, outer edge goes inside
    cell = np.floor(pts)
    if case["inbounds"]:
        cell = np.where(pts == n, n - 1, cell)
    close(
        grid.snap_xy(xy, centers=True, inbounds=case["inbounds"]),
        origin + (cell + 0.5) * d,
        0,
        1e-9,
        "snap to centres",
    )
    same(
        grid.xy_to_rowcol(xy[inside], snap=True, inbounds=case["inbounds"]),
        cell[inside][:, ::-1].astype(int),
        "xy_to_rowcol(snap)",
    )
    raises(ValueError, grid.snap_xy, xy, msg="snap to nothing")


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.tuples(st.integers(1, 30), st.integers(1, 30)),
            "uv": st.tuples(st.integers(-20, 140), st.integers(-20, 140)),
            "size": st.tuples(st.integers(1, 15), st.integers(1, 15)),
        }
    ),
    quick=1500,
    thorough=20000,
    rule="boxes around arbitrary centres; non-trivial when the box fits",
)
def boxes(case, ctx):
    grid = Grid(case["n"])
    uv = np.array(case["uv"]) / 4
    size = case["size"]
    lo = uv - np.array(size) / 2
    hi = uv + np.array(size) / 2
    if (lo < 0).any() or (hi > case["n"]).any():
        raises(IndexError, grid.snap_box, uv, size, msg="box beyond bounds")
        return
    ctx.hit("fits")
    box = grid.snap_box(uv, size)
    close(box[2:] - box[:2], size, 0, 0, "snapped box keeps its size")
    check((box == np.floor(box)).all(), "box is on cell edges", box=box)
    check((np.abs(box[:2] - lo) <= 0.5).all(), "box moved too far", box=box)
    check((box[:2] >= 0).all() and (box[2:] <= case["n"]).all(), "box outside", box=box)


@st.composite
def crop_case(draw):
    g = draw(grids(min_n=1, max_n=8))
    out = {"g": g}
    for key, n in (("xlim", g["nx"]), ("ylim", g["ny"])):
        if draw(st.booleans()):
            out[key] = None
            continue
        # Bounds in quarter cells with positive overlap with the grid
        a = draw(st.integers(-8, 4 * n - 1))
        b = draw(st.integers(max(a, 0) + 1, 4 * n + 8))
        flip = draw(st.booleans())
        out[key] = (b, a) if flip else (a, b)
    return out


@R.sub(
    crop_case(),
    quick=2500,
    thorough=40000,
    rule="crop bounds at quarter cells, overshooting, reversed or on edges; "
    "non-trivial when the crop removes cells",
)
def crop_window(case, ctx):
    g = case["g"]
    grid = build(g)
    args, want = {}, {}
    for key, n in (("xlim", g["nx"]), ("ylim", g["ny"])):
        lim = g[key]
        d = (lim[1] - lim[0]) / n
        if case[key] is None:
            args[key] = None
            want[key] = (0, n - 1)
            continue
        args[key] = [lim[0] + q / 4 * d for q in case[key]]
        a, b = sorted(case[key])
        a, b = max(a, 0), min(b, 4 * n)
        want[key] = (a // 4, -(-b // 4) - 1)
    before = (grid.xlim.copy(), grid.ylim.copy())
    xlim, ylim, rows, cols = grid.crop_extent(**args)
    same(cols, want["xlim"], "columns of crop", case=case)
    same(rows, want["ylim"], "rows of crop", case=case)
    for key, got, n in (("xlim", xlim, g["nx"]), ("ylim", ylim, g["ny"])):
        lim = g[key]
        d = (lim[1] - lim[0]) / n
        lo, hi = want[key]
        close(
            got, (lim[0] + lo * d, lim[0] + (hi + 1) * d), 0, 1e-9, "bounds of " + key
        )
        if (lo, hi) != (0, n - 1):
            ctx.hit(key)
    same(grid.xlim, before[0], "crop_extent does not move the grid")
    same(grid.ylim, before[1], "crop_extent does not move the grid")


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.tuples(st.integers(1, 40), st.integers(1, 40)),
            "size": st.tuples(st.integers(1, 50), st.integers(1, 50)),
            "overlap": st.tuples(st.integers(0, 4), st.integers(0, 4)),
        }
    ),
    quick=1500,
    thorough=20000,
    rule="grid, tile and overlap sizes; non-trivial when more than one tile",
)
def tiles(case, ctx):
    nx, ny = case["n"]
    grid = Grid((nx, ny))
    size = np.array(case["size"])
    tiles = grid.tile_indices(size)
    count = np.zeros((ny, nx), int)
    for s in tiles:
        check(count[s].size > 0, "empty tile", tile=s)
        count[s] += 1
    check((count == 1).all(), "tiles partition the grid", count=count)
    if len(tiles) > 1:
        ctx.hit("tiles>1")
    # Overlapping tiles: same tiles, extended towards the start
    overlap = [
        min(o, min(t[1 - k].stop - t[1 - k].start for t in tiles))
        for k, o in enumerate(case["overlap"])
    ]
    over = grid.tile_indices(size, overlap=overlap)
    check(len(over) == len(tiles), "same number of tiles")
    for a, b in zip(tiles, over):
        for k in (0, 1):
            o = overlap[1 - k]
            start = a[k].start - (o if a[k].start else 0)
            check(
                (b[k].start, b[k].stop) == (start, a[k].stop),
                "overlap extends tile",
                a=a,
                b=b,
                overlap=overlap,
            )


step = st.one_of(
    st.tuples(st.just("resize"), st.sampled_from([0.5, 2.0, 1.5, 3.0, 1.0])),
    st.tuples(st.just("size"), st.tuples(st.integers(1, 6), st.integers(1, 6))),
    st.tuples(
        st.just("shift"),
        st.tuples(
            st.one_of(st.none(), dyadic_origin), st.one_of(st.none(), dyadic_origin)
        ),
    ),
    st.tuples(st.just("xlim"), st.tuples(dyadic_origin, dyadic_step, sign)),
    st.tuples(st.just("ylim"), st.tuples(dyadic_origin, dyadic_step, sign)),
    st.tuples(st.just("copy"), st.none()),
    st.tuples(
        st.just("touch"), st.lists(st.sampled_from(["x", "y", "X", "Y"]), min_size=1)
    ),
)


@R.sub(
    st.fixed_dictionaries(
        {"g": grids(max_n=5), "how": how, "ops": st.lists(step, max_size=8)}
    ),
    quick=1200,
    thorough=20000,
    rule="histories of resize, size, shift, limit changes, copies and reads of the "
    "lazily computed coordinates; non-trivial when a change follows a read",
)
def histories(case, ctx):
    g = case["g"]
    xin, yin = np.array(g["xlim"]), np.array(g["ylim"])
    if case["how"] == "array":
        grid = Grid((g["nx"], g["ny"]), x=xin, y=yin)
    else:
        grid = build(g, case["how"])
    model = [g["nx"], g["ny"], tuple(g["xlim"]), tuple(g["ylim"])]
    others = []
    read = False
    for op, arg in case["ops"]:
        if op == "resize":
            # Half cells round up
            n = [int(np.floor(v * arg + 0.5)) for v in model[:2]]
            if min(n) < 1:
                continue
            grid.resize(arg)
            model[:2] = n
        elif op == "size":
            grid.size = arg
            model[:2] = list(arg)
        elif op == "shift":
            grid.shift(*arg)
            model[2] = tuple(v + (arg[0] or 0) for v in model[2])
            model[3] = tuple(v + (arg[1] or 0) for v in model[3])
        elif op in ("xlim", "ylim"):
            k = 0 if op == "xlim" else 1
            lim = (arg[0], arg[0] + arg[1] * model[k])[:: arg[2]]
            setattr(grid, op, lim)
            model[2 + k] = tuple(lim)
        elif op == "copy":
            others.append((grid, list(model)))
            grid = grid.copy()
            check(grid == others[-1][0], "copy equals original")
        elif op == "touch":
            for name in arg:
                getattr(grid, name)
            read = True
            continue
        if read and op != "copy":
            ctx.hit(op + " after read")
        agree(grid, *model, f"after {op}")
    for other, m in others:
        agree(other, *m, "grid it was copied from")
    same(xin, g["xlim"], "caller's limits unchanged")
    same(yin, g["ylim"], "caller's limits unchanged")
    for bad in ((0, 0), (1.0,), ("a", "b")):
        raises(ValueError, setattr, grid, "xlim", bad, msg="bad limits")
    for bad in ((0, 1), (1.5, 2), (1, 2, 3)):
        raises(ValueError, setattr, grid, "size", bad, msg="bad size")


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.tuples(st.integers(1, 400), st.integers(1, 400)),
            "lim": st.tuples(
                *[st.floats(-1e6, 1e6, allow_nan=False) for _ in range(2)],
                *[st.floats(1e-3, 1e4) for _ in range(2)],
            ),
            "signs": st.tuples(sign, sign),
            "pts": st.lists(
                st.tuples(st.floats(0, 1), st.floats(0, 1)), min_size=1, max_size=10
            ),
        }
    ),
    quick=1000,
    thorough=20000,
    rule="arbitrary float origins and cell sizes, points well inside cells",
)
def general_floats(case, ctx):
    nx, ny = case["n"]
    x0, y0, dx, dy = case["lim"]
    xlim = (x0, x0 + nx * dx)[:: case["signs"][0]]
    ylim = (y0, y0 + ny * dy)[:: case["signs"][1]]
    grid = Grid((nx, ny), x=xlim, y=ylim)
    ctx.hit("general")
    # Points away from cell edges
    f = np.array(case["pts"])
    cell = np.minimum(np.floor(f * (nx, ny)), (nx - 1, ny - 1))
    uv = cell + 0.1 + 0.8 * (f * 997.31 % 1)
    d = np.array(((xlim[1] - xlim[0]) / nx, (ylim[1] - ylim[0]) / ny))
    xy = np.array((xlim[0], ylim[0])) + uv * d
    tol = 1e-6 * max(1, abs(x0), abs(y0)) * 1e-3
    close(grid.uv_to_xyz(uv)[:, :2], xy, 1e-9, tol, "uv_to_xyz")
    close(grid.uv_to_xyz(grid.xyz_to_uv(xy))[:, :2], xy, 1e-9, tol, "round trip")
    same(grid.xy_to_rowcol(xy, snap=True), cell[:, ::-1].astype(int), "cell of point")
    every = np.arange(nx * ny) if nx * ny < 500 else np.arange(0, nx * ny, 97)
    rc = np.column_stack((every // nx, every % nx))
    same(grid.xy_to_rowcol(grid.rowcol_to_xy(rc), snap=True), rc, "cells of centres")
    # Crops with bounds inside of cells
    i, j = np.sort(cell[[0, -1], 0]), np.sort(cell[[0, -1], 1])
    bx = xlim[0] + (i + (0.3, 0.7)) * d[0]
    by = ylim[0] + (j + (0.3, 0.7)) * d[1]
    nxlim, nylim, rows, cols = grid.crop_extent(xlim=bx, ylim=by)
    same(rows, j.astype(int), "rows of crop")
    same(cols, i.astype(int), "columns of crop")
    close(nxlim, xlim[0] + (i + (0, 1)) * d[0], 1e-9, tol, "x bounds of crop")
    close(nylim, ylim[0] + (j + (0, 1)) * d[1], 1e-9, tol, "y bounds of crop")
    _, _, rows, cols = grid.crop_extent()
    same(rows, (0, ny - 1), "rows of no crop")
    same(cols, (0, nx - 1), "columns of no crop")
    # Points on or within rounding of the outer edges stay in bounds
    for k, (lim, n) in enumerate(((xlim, nx), (ylim, ny))):
        for end, other in (lim, lim[::-1]):
            near = [end, np.nextafter(end, other), end + (other - end) * 1e-17]
            pts = np.tile((cell[0] + 0.5) * d + (xlim[0], ylim[0]), (3, 1))
            pts[:, k] = near
            check(grid.inbounds_xy(pts).all(), "edge is in bounds", pts=pts)
            got = grid.xy_to_rowcol(pts, snap=True)[:, 1 - k]
            same(got, np.full(3, 0 if end == lim[0] else n - 1), "cell at the edge")
    rc = cell[:, ::-1].astype(int)
    idx = grid.rowcol_to_idx(rc)
    same(idx, rc[:, 0] * nx + rc[:, 1], "flat index is row-major")
    same(grid.idx_to_rowcol(idx), rc, "idx_to_rowcol")
    close(
        grid.rowcol_to_xy(rc),
        np.column_stack((grid.x[rc[:, 1]], grid.y[rc[:, 0]])),
        1e-9,
        tol,
        "rowcol_to_xy is the cell centre",
    )


# ---- Forms of arguments ---- #


@R.sub(
    st.fixed_dictionaries(
        {
            "n": st.tuples(st.integers(1, 6), st.integers(1, 6)),
            "square": st.booleans(),
            "x": st.booleans(),
            "y": st.booleans(),
            "lims": st.tuples(dyadic_origin, dyadic_step, sign),
            "bad": st.sampled_from([0, -1, 1.5, 2.0, (1, 0), (2, -3), (2, 2, 2), (1.0, 2), ((1, 2),), "3"]),
            "bad_limits": st.sampled_from([0, (1,), (1, 1), (1, 2, 3), ("a", "b"), ((1, 2),), (None, 1), (-2.5, -2.5)]),
        }
    ),
    quick=300,
    thorough=3000,
    rule="sizes given as one number, limits left out, equality, invalid sizes and limits; "
    "non-trivial when something is left out",
)
def arguments(case, ctx):
    nx, ny = case["n"]
    size = (nx, ny)
    if case["square"]:
        ny = nx
        size = nx
    start, step, s = case["lims"]
    xlim, ylim = (start, start + s * step * nx), (start - 1, start - 1 - s * step * ny)
    kwargs = {}
    if case["x"]:
        kwargs["x"] = xlim
    if case["y"]:
        kwargs["y"] = ylim
    if len(kwargs) < 2 or case["square"]:
        ctx.hit("square" if case["square"] else "two")
    grid = Grid(size, **kwargs)
    # By default, cells of size 1 from 0
    lims = xlim if case["x"] else (0, nx), ylim if case["y"] else (0, ny)
    agree(grid, nx, ny, *lims, "built")
    # Equal if all the same
    other = Grid((nx, ny), x=lims[0], y=lims[1])
    check(bool(grid == other), "same grids are equal")
    other.x, other.X, other.Y  # noqa: B018
    check(bool(grid == other) and bool(other == grid.copy()), "same grids are equal")
    a, b = lims
    for differs in (
        Grid((nx + 1, ny), x=a, y=b), Grid((nx, ny + 2), x=a, y=b), Grid((nx, ny), x=a[::-1], y=b),
        Grid((nx, ny), x=a, y=b[::-1]), Grid((nx, ny), x=(a[0], a[1] + 9 * step), y=b),
        Grid((nx, ny), x=a, y=(b[0] - 99 * step, b[1])),
    ):
        check(not grid == differs and not differs == grid, "other grids differ")
    # Size assigned
    grid.size = nx + 2
    agree(grid, nx + 2, nx + 2, *lims, "resized")
    # Invalid values are refused and change nothing
    bad = case["bad"]
    raises(ValueError, Grid, bad, msg="invalid size accepted")
    for name in ("size", "xlim", "ylim"):
        raises(ValueError, setattr, grid, name, bad if name == "size" else case["bad_limits"],
               msg="invalid value accepted")
    agree(grid, nx + 2, nx + 2, *lims, "unchanged")
    if np.shape(case["bad_limits"]) in ((), (1,), (2,)):
        raises(ValueError, Grid, (2, 2), x=case["bad_limits"], msg="invalid limits accepted")
        raises(ValueError, Grid, (2, 2), y=case["bad_limits"], msg="invalid limits accepted")

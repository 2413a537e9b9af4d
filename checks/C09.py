"""C09: internally generated meshes tile the rectangle exactly."""
import numpy as np

from mc import env

BOUNDS = {"quick": "all n_x, n_y in 1..7 plus 14 larger pairs (up to 16512 cells), cells of aspect ratio up to 1e18; x 12 limit pairs in x and y (one at a time free) x list/tuple/array limits; "
                   "all ordered pairs of 12 generations on one object and on two objects; written test mesh on/off",
          "thorough": "all n_x, n_y in 1..16 x all pairs of limits; all ordered triples of generations"}
ASSUMPTIONS = ["interior grid coordinates may carry rounding errors (1e-12 of the coordinate scale); corners and shared corners may not"]
SHARDS = {"quick": 6, "thorough": 8}

LIM = [(0, 1), (-1, 1), (-3.5, -1.25), (0.1, 0.7), (5, 6.5), (-0.3, 0.4), (0, 1e-6), (1e-3, 1.1e-3), (-1e6, 1e6), (100.0, 100.1),
       (1 / 3, 2 / 3), (-7, 0)]


def verify(ctx, cells, mesh, xl, yl, nx, ny, what, tags=None):
    cells = np.asarray(cells)
    ctx.obs(what, cells)
    ctx.check(cells.shape == (nx * ny, 4, 2), f"{what}: cells have shape {cells.shape}")
    ctx.check(cells.dtype == np.float64, f"{what}: cells have dtype {cells.dtype}")
    X = np.empty((nx + 1, ny + 1)) * np.nan
    Y = X.copy()
    sx, sy = float(xl[1]) - float(xl[0]), float(yl[1]) - float(yl[0])
    tolx = 1e-12 * max(abs(xl[0]), abs(xl[1]), sx)
    toly = 1e-12 * max(abs(yl[0]), abs(yl[1]), sy)
    area = 0.0
    for k in range(nx * ny):
        i, j = divmod(k, ny)
        c = cells[k]
        # counter-clockwise rectangle
        a = 0.5 * sum(c[m][0] * c[(m + 1) % 4][1] - c[(m + 1) % 4][0] * c[m][1] for m in range(4))
        xs, ys = sorted(set(c[:, 0])), sorted(set(c[:, 1]))
        ctx.check(len(xs) == 2 and len(ys) == 2 and len({tuple(p) for p in c}) == 4,
                  f"{what}: cell {k} is not an axis-parallel rectangle: {c.tolist()}")
        # signed area relative to a corner: exact sign even far from the origin
        d = c - c[0]
        s = 0.5 * sum(d[m][0] * d[(m + 1) % 4][1] - d[(m + 1) % 4][0] * d[m][1] for m in range(4))
        ctx.check(s > 0, f"{what}: cell {k} is not counter-clockwise: {c.tolist()}")
        area += s
        for (ii, xv) in ((i, xs[0]), (i + 1, xs[1])):
            for (jj, yv) in ((j, ys[0]), (j + 1, ys[1])):
                # corners shared exactly by all cells meeting there
                if np.isnan(X[ii, jj]):
                    X[ii, jj], Y[ii, jj] = xv, yv
                ctx.check(X[ii, jj] == xv and Y[ii, jj] == yv,
                          f"{what}: cell {k} (column {i}, row {j}) does not meet its neighbours at grid corner {ii, jj}: "
                          f"{(xv, yv)} vs {(X[ii, jj], Y[ii, jj])}")
        del a
    ctx.check(X[0, 0] == xl[0] and X[nx, ny] == xl[1] and Y[0, 0] == yl[0] and Y[nx, ny] == yl[1],
              f"{what}: domain corners {X[0,0], Y[0,0], X[nx,ny], Y[nx,ny]}, requested {xl} x {yl}")
    ctx.check(np.all(X == X[:, :1]) and np.all(Y == Y[:1, :]), f"{what}: grid lines are not straight")
    ctx.check(np.all(np.diff(X[:, 0]) > 0) and np.all(np.diff(Y[0]) > 0), f"{what}: cells overlap")
    ctx.check(np.abs(X[:, 0] - (float(xl[0]) + sx * np.arange(nx + 1) / nx)).max() <= tolx, f"{what}: columns are not equal")
    ctx.check(np.abs(Y[0] - (float(yl[0]) + sy * np.arange(ny + 1) / ny)).max() <= toly, f"{what}: rows are not equal")
    if mesh is not None:
        verify_mesh(ctx, mesh, cells, what)


def verify_mesh(ctx, mesh, cells, what):
    q = np.asarray(mesh.cells_dict["quad"])
    P = np.asarray(mesh.points)
    ctx.check(q.shape == (len(cells), 4), f"{what}: mesh object has {q.shape} cells, expected {len(cells)}")
    ctx.check(q.min() >= 0 and q.max() < len(P), f"{what}: mesh object refers to missing points")
    for k, c in enumerate(cells):
        ctx.check({tuple(p[:2]) for p in P[q[k]]} == {tuple(p) for p in c},
                  f"{what}: mesh object's cell {k} is {P[q[k]].tolist()}, the cell is {c.tolist()}")


def gen(nx, ny, xl, yl, obj=None, opt=True, nb=12, out=None):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    g = obj or Geometry_2D("quadrilateral", "internal", 4, 3, out or env.scratch.fresh("g"), opt)
    return (g,) + tuple(g.generate_quad_mesh_internal(xl, yl, nx, ny, nb))


def h_one(pairs, both, LIM=LIM):
    def h(ctx):
        nx, ny = ctx.choose("cells", pairs, free=True)
        xl = ctx.choose("x limits", LIM)
        yl = ctx.choose("y limits", LIM[::-1] if both else LIM)
        as_ = ctx.choose("limits given as", [tuple, list, np.array])
        ctx.commit()
        a, b = as_(xl), as_(yl)
        g, cells, bd = gen(nx, ny, a, b)
        verify(ctx, cells, g.mesh, xl, yl, nx, ny, f"{nx}x{ny} on {xl}x{yl}")
        ctx.equal(np.asarray(a), np.asarray(as_(xl)), "limits changed")
        ctx.check(np.array_equal(np.asarray(g.cell_points), cells), "cell_points differ from the returned cells")
        return nx, ny, xl, yl
    return h


THIN = [(1, 1), (2, 3), (1, 50), (50, 1)]
THINLIM = [(0, 1), (0, 1e-6), (-1e-9, 2e-9), (0.5, 0.5 + 2.0**-20), (-1e6, 1e6), (0, 1e-12), (3.0, 3.0001)]


GEN = [(2, 3, LIM[0], LIM[1]), (3, 2, LIM[1], LIM[0]), (1, 1, LIM[2], LIM[3]), (1, 4, LIM[8], LIM[6]), (4, 1, LIM[5], LIM[2]),
       (2, 2, LIM[10], LIM[10]), (3, 3, LIM[11], LIM[4]), (5, 2, LIM[0], LIM[7]), (2, 3, LIM[1], LIM[0]), (6, 6, LIM[9], LIM[9]),
       (1, 2, LIM[3], LIM[11]), (7, 3, LIM[4], LIM[5])]


def h_history(depth):
    def h(ctx):
        seq = [ctx.choose(f"generation {i}", range(len(GEN)), free=True) for i in range(depth)]
        same = ctx.choose("on", ["one object", "an object each"], free=True)
        ctx.commit()
        obj, kept = None, []
        for k in seq:
            nx, ny, xl, yl = GEN[k]
            g, cells, bd = gen(nx, ny, xl, yl, obj if same == "one object" else None)
            obj = g
            verify(ctx, cells, g.mesh, xl, yl, nx, ny, f"generation {k} in {seq} {same}")
            kept.append((cells, cells.copy(), bd, {t: v.copy() for t, v in bd.items()}, k, g.mesh))
            for c, c0, b, b0, kk, m in kept:
                ctx.check(np.array_equal(c, c0), f"cells of generation {kk} changed by a later one ({seq}, {same})")
                ctx.check(set(b) == set(b0) and all(np.array_equal(b[t], b0[t]) for t in b0),
                          f"boundary points of generation {kk} changed by a later one ({seq}, {same})")
                verify_mesh(ctx, m, c0, f"mesh object of generation {kk} after {seq}")
        return tuple(seq), same
    return h


def h_full(ctx):
    """With the evaluation mesh written through gmsh."""
    nx, ny = ctx.choose("cells", [(2, 1), (1, 3)])
    xl, yl = ctx.choose("limits", [((0, 1), (0, 1)), ((-2, 1), (0.5, 1.0))])
    again = ctx.choose("generated twice", [False, True])
    ctx.commit()
    g, cells, bd = gen(nx, ny, xl, yl, opt=False)
    if again:
        g, cells, bd = gen(nx, ny, xl, yl, obj=g)
    verify(ctx, cells, g.mesh, xl, yl, nx, ny, f"{nx}x{ny} on {xl}x{yl} with evaluation mesh")
    return nx, ny, xl, again


def harnesses(tier):
    if tier == "quick":
        pairs = [(2, 3)] + [(a, b) for a in range(1, 8) for b in range(1, 8)] + [(1, 40), (40, 1), (17, 23), (30, 30), (13, 11), (64, 2), (101, 53), (3, 257), (300, 2), (1, 1024), (600, 1), (129, 128)]
        return [("one", h_one(pairs, False), 1), ("thin", h_one(THIN, False, THINLIM), 2), ("history", h_history(2), None), ("written", h_full, None)]
    pairs = [(a, b) for a in range(1, 17) for b in range(1, 17)] + [(1, 100), (100, 1), (49, 51), (97, 3), (300, 2), (1, 2000), (1500, 1), (200, 130)]
    return [("one", h_one(pairs, True), 2), ("thin", h_one(THIN + [(7, 200), (200, 7)], True, THINLIM), None), ("history", h_history(3), None), ("written", h_full, None)]

"""C11: cells of mesh files."""
import itertools
import os

import numpy as np

from mc import env, meshfile, ref

BOUNDS = {"quick": "every strictly convex quadrilateral of the 3x3 lattice in all 8 vertex cycles; 2-cell meshes in all 8x8 cycles; "
                   "720 vertex numberings, 6 section orders, 8 coordinate maps, spare vertices: <=2 deviations; all ordered pairs of "
                   "reads of 9 files on one object and two; meshes up to 40x30 cells in 5 shapes, 4 cycle patterns, 3 listings",
          "thorough": "strips of 70000 cells; 4x4 lattice; <=3 deviations; all ordered triples of reads"}
ASSUMPTIONS = ["cells of the file are strictly convex", "meshio parses .mesh sections correctly", "files are two-dimensional, or three-dimensional with z=0"]
SHARDS = {"quick": 6, "thorough": 8}

CYC = [tuple((s + d * k) % 4 for k in range(4)) for d in (1, -1) for s in range(4)]
ORDERS = list(itertools.permutations(["Vertices", "Edges", "Quadrilaterals"]))
ORDERS.sort(key=lambda o: o != ("Vertices", "Edges", "Quadrilaterals"))
MAPS = [(1, 0, 0), (0.1, 5, -3), (1e-5, 0, 0), (1e4, -2e4, 1.0), (-1.0, 0.25, 0.25), (1 / 3, 1e-3, -1 / 7), (2.0**-30, 0, 0), (2.0**30, 3, 5)]


def geo(out=None, source="external"):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    return Geometry_2D("quadrilateral", source, 4, 3, out or env.scratch.fresh("m"))


def verify(ctx, cells, want, what):
    cells = np.asarray(cells)
    ctx.obs("cells", cells)
    ctx.check(cells.shape == (len(want), 4, 2), f"{what}: cells have shape {cells.shape}, expected {(len(want), 4, 2)}")
    for k, w in enumerate(want):
        c = [tuple(p) for p in cells[k].tolist()]
        w = [tuple(p) for p in w]
        ctx.check(sorted(c) == sorted(w), f"{what}: cell {k} has vertices {c}, the file's are {w}")
        ctx.check(ref.is_convex_ccw(c), f"{what}: cell {k} is not counter-clockwise: {c}")


def h_single(lattice):
    def h(ctx):
        q = ctx.choose("cell", lattice, free=True)
        d = ctx.choose("orientation", [1, -1], free=True)
        s, ox, oy = ctx.choose("coordinates", MAPS)
        order = ctx.choose("sections", ORDERS)
        bd = ctx.choose("sampling", ["uniform", "lhs"])
        dim = ctx.choose("dimension of the file", [3, 2])
        ctx.commit()
        q = [(ox + s * x, oy + s * y) for x, y in q]
        f = os.path.join(env.scratch.path, "single.mesh")
        idx = (0, 1, 2, 3) if d == 1 else (0, 3, 2, 1)
        meshfile.write(f, q, [idx + (0,)], [(0, 1, 5), (1, 2, 6), (2, 3, 5), (3, 0, 7)], order, dim=dim)
        g = geo(env.scratch.path)
        cells, _ = g.read_mesh(f, 1, bd, 1)
        verify(ctx, cells, [q], f"cell {q} orientation {d}")
        return d, s
    return h


BASE = [(0, 0), (2, 0.25), (4, 0), (0.5, 2), (2.25, 1.5), (3.5, 3)]
CELLS = [(0, 1, 4, 3), (1, 2, 5, 4)]
BD = [(0, 1, 1), (1, 2, 1), (2, 5, 2), (5, 4, 3), (4, 3, 3), (3, 0, 4)]


def h_two(ctx):
    a = ctx.choose("cycle of cell 0", CYC, free=True)
    b = ctx.choose("cycle of cell 1", CYC, free=True)
    swap = ctx.choose("cells listed", [(0, 1), (1, 0)])
    perm = ctx.permutation("vertex number", range(6))
    s, ox, oy = ctx.choose("coordinates", MAPS)
    order = ctx.choose("sections", ORDERS)
    spare = ctx.choose("spare vertices", [0, 1, 3])
    style = ctx.choose("layout", [0, 1, 2])
    refs = ctx.choose("cell references", [(0, 0), (3, 9), (5, 1)])
    level = ctx.choose("boundary refinement", [0, 1, 3])
    dim = ctx.choose("dimension of the file", [3, 2])
    fine = ctx.choose("mesh refinement argument", [1, 0, 3])
    ctx.commit()
    P = [(ox + s * x, oy + s * y) for x, y in BASE]
    pos = {v: i for i, v in enumerate(perm)}
    verts = [P[v] for v in perm] + [(99.0 + k, -7.0) for k in range(spare)]
    quads = []
    for c in swap:
        cyc = (a, b)[c]
        quads.append(tuple(pos[CELLS[c][k]] for k in cyc) + (refs[c],))
    f = os.path.join(env.scratch.path, "two.mesh")
    meshfile.write(f, verts, quads, [(pos[u], pos[v], t) for u, v, t in BD], order, style=style, dim=dim)
    g = geo(env.scratch.path)
    cells, _ = g.read_mesh(f, level, "uniform", fine)
    verify(ctx, cells, [[P[v] for v in CELLS[c]] for c in swap], f"two cells, cycles {a} {b}, listed {swap}, numbering {perm}")
    m = g.mesh
    ctx.check(np.array_equal(np.asarray(m.points)[:, :2], np.array(verts)), "mesh object's points are not those of the file")
    ctx.check(np.array_equal(np.asarray(m.cells_dict["quad"]), np.array([q[:4] for q in quads])), "mesh object's cells are not those of the file")
    ctx.check(np.array_equal(np.asarray(g.cell_points), np.asarray(cells)), "stored cells differ from the returned ones")
    return a, b, swap, perm


def grid_file(path, nx, ny, rev=False, skew=0.0, ox=0.0, dim=3):
    vid = lambda i, j: i * (ny + 1) + j
    verts = [(ox + i + skew * j, j * 0.5 - 0.125 * skew * i) for i in range(nx + 1) for j in range(ny + 1)]
    quads = [(vid(i, j), vid(i + 1, j), vid(i + 1, j + 1), vid(i, j + 1), 0) for j in range(ny) for i in range(nx)]
    if rev:
        quads = [(q[2], q[1], q[0], q[3], 1) for q in quads[::-1]]
    edges = [(vid(i, 0), vid(i + 1, 0), 1000) for i in range(nx)] + [(vid(nx, j), vid(nx, j + 1), 1001) for j in range(ny)]
    edges += [(vid(i + 1, ny), vid(i, ny), 1002) for i in range(nx)] + [(vid(0, j + 1), vid(0, j), 1003) for j in range(ny)]
    meshfile.write(path, verts, quads, edges, dim=dim)
    grid_file.last = (verts, quads, edges)
    return [[verts[k] for k in q[:4]] for q in quads]


FILES = [(1, 1, False, 0, 0), (2, 1, False, 0.25, 0), (2, 1, True, 0.25, 0), (1, 2, False, 0, -3), (3, 3, True, 0.1, 1), (1, 1, True, 0, 8),
         (5, 2, False, -0.3, 0), (12, 9, False, 0.05, 0), (2, 1, False, 0.25, 10)]


def h_reread(depth):
    def h(ctx):
        seq = [ctx.choose(f"read {i}", range(len(FILES)), free=True) for i in range(depth)]
        same = ctx.choose("on", ["one object", "an object each"], free=True)
        path = ctx.choose("file name", ["own", "shared"], free=True)
        ctx.commit()
        d = env.scratch.fresh("rr")
        g, kept = None, []
        for n, k in enumerate(seq):
            f = os.path.join(d, "m.mesh" if path == "shared" else f"m{k}.mesh")
            want = grid_file(f, *FILES[k])
            if g is None or same != "one object":
                g = geo(d)
            cells, bd = g.read_mesh(f, 1, "uniform", 1)
            verify(ctx, cells, want, f"read {n} of {seq} ({same}, {path} file names)")
            ctx.check(sorted(int(t) for t in bd) == [1000, 1001, 1002, 1003], f"boundary tags after {seq[:n+1]}: {sorted(bd)}")
            nb = FILES[k][0] * 2 + 1
            ctx.check(len(bd[1000]) == nb, f"read {n} of {seq}: tag 1000 has {len(bd[1000])} points, expected {nb}")
            kept.append((cells, want, bd, {t: np.array(v) for t, v in bd.items()}))
            for c, w, b, b0 in kept:
                verify(ctx, c, w, f"cells of an earlier read after {seq[:n+1]}")
                ctx.check(set(b) == set(b0) and all(np.array_equal(b[t], b0[t]) for t in b0), f"boundary of an earlier read changed after {seq[:n+1]}")
        return tuple(seq), same
    return h


def h_large(sizes):
    """Meshes with many cells, each listed in another vertex cycle; spare sections; awkward shapes."""
    def h(ctx):
        nx, ny = ctx.choose("grid", sizes, free=True)
        cyc = ctx.choose("vertex cycles", ["all the same", "alternating", "pseudo-random", "clockwise"])
        shape = ctx.choose("shape of the cells", ["skew", "flat", "tall", "far away", "graded"])
        listed = ctx.choose("cells listed", ["in order", "backwards", "scattered"])
        more = ctx.choose("further sections", ["none", "triangle", "corners", "inner edges"])
        ctx.commit()
        vid = lambda i, j: j * (nx + 1) + i
        ax, ay, ox = {"skew": (1.0, 0.5, 0.0), "flat": (1.0, 1e-4, 0.0), "tall": (2.0**-10, 3.0, 0.0), "far away": (0.5, 0.5, 1e5), "graded": (1.0, 1.0, 0.0)}[shape]
        t = (lambda i, n: (i / n) ** 3 * n) if shape == "graded" else (lambda i, n: float(i))
        sk = 0.25 if shape in ("skew", "far away") else 0.0
        verts = [(ox + ax * t(i, nx) + sk * ax * j, ay * t(j, ny)) for j in range(ny + 1) for i in range(nx + 1)]
        n = nx * ny
        pos = {"in order": list(range(n)), "backwards": list(range(n))[::-1], "scattered": sorted(range(n), key=lambda c: (c * 7919 + 13) % 10007)}[listed]
        quads, want = [], []
        for c in pos:
            i, j = c % nx, c // nx
            q = (vid(i, j), vid(i + 1, j), vid(i + 1, j + 1), vid(i, j + 1))
            k = CYC[{"all the same": 1, "alternating": c % 2 * 4 + c % 3, "pseudo-random": (c * 5 + c // 7) % 8, "clockwise": 4}[cyc]]
            quads.append(tuple(q[m] for m in k) + (c % 5,))
            want.append([verts[m] for m in q])
        edges = [(vid(i, 0), vid(i + 1, 0), 1) for i in range(nx)] + [(vid(0, j), vid(0, j + 1), 2) for j in range(ny)]
        if more == "inner edges" and nx > 1:
            edges += [(vid(1, j), vid(1, j + 1), 77) for j in range(ny)]
        extra = {"triangle": [("Triangles", ["Triangles", "1", "1 2 3 4"])], "corners": [("Corners", ["Corners", "2", "1", "2"])]}.get(more, [])
        f = os.path.join(env.scratch.path, "large.mesh")
        meshfile.write(f, verts, quads, edges, [e[0] for e in extra if more == "triangle"] and ["Vertices", "Triangles", "Edges", "Quadrilaterals"]
                       or ["Vertices", "Edges", "Quadrilaterals"] + [e[0] for e in extra], extra)
        g = geo(env.scratch.path)
        cells, bd = g.read_mesh(f, 0, "uniform", 1)
        verify(ctx, cells, want, f"{nx}x{ny} cells, {shape}, {cyc}, {listed}, {more}")
        ctx.check(sorted(map(int, bd)) == sorted({e[2] for e in edges}), f"boundary tags {sorted(bd)}")
        return nx, ny, cyc, shape, listed, more
    return h


def h_strip(lengths):
    """Very many vertices: a strip of cells, every cell with its own width, listed in scattered order."""
    def h(ctx):
        n = ctx.choose("cells", lengths, free=True)
        ctx.commit()
        xs = np.cumsum(1.0 + np.arange(n + 1) % 7 / 8.0)
        verts = [(float(x), 0.0) for x in xs] + [(float(x), 1.0 + 0.5 * (i % 3)) for i, x in enumerate(xs)]
        quads, want = [], []
        for k in range(n):
            c = (k * 7919) % n if n % 7919 else k
            q = (c, c + 1, n + 2 + c, n + 1 + c)
            quads.append(tuple(q[m] for m in CYC[(c * 5 + c // 7) % 8]) + (0,))
            want.append([verts[m] for m in q])
        edges = [(n + 1 + i, n + 2 + i, 3) for i in (0, n // 2, n - 1)] + [(n, 2 * n + 1, 4)]
        f = os.path.join(env.scratch.path, "strip.mesh")
        meshfile.write(f, verts, quads, edges)
        cells, bd = geo(env.scratch.path).read_mesh(f, 0, "uniform", 1)
        verify(ctx, cells, want, f"strip of {n} cells")
        for tag in (3, 4):
            got = {tuple(map(float, p[:2])) for p in bd[tag]}
            ctx.check(got == {verts[v] for a, b, t in edges if t == tag for v in (a, b)}, f"strip of {n} cells: points of tag {tag} are {sorted(got)}")
        return n
    return h


def harnesses(tier):
    hs = harnesses_(tier) + [("strip", h_strip([20000] if tier == "quick" else [20000, 70000]), None)]
    return hs + [("large", h_large([(4, 3), (16, 17), (1, 65), (40, 30)] if tier == "quick" else [(4, 3), (16, 17), (1, 65), (65, 2), (32, 32), (120, 90), (1, 1)]),
                  1 if tier == "quick" else 3)]


def harnesses_(tier):
    L = ref.lattice_quads(3)
    if tier == "quick":
        return [("lattice cells", h_single(L), 1), ("two cells", h_two, 1), ("numberings", h_free(h_two), 2), ("reads", h_reread(2), None)]
    return [("lattice cells", h_single(ref.lattice_quads(4)), 1), ("two cells", h_two, 2), ("numberings", h_free(h_two), 4), ("reads", h_reread(3), None)]


def h_free(fn):
    """The same harness with the cycles counted as deviations, for more deviations elsewhere."""
    def h(ctx):
        real = ctx.choose
        ctx.choose = lambda name, options, free=False: real(name, options, False)
        return fn(ctx)
    return h

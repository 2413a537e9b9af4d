"""C14: solution files."""
import itertools
import os

import numpy as np

from mc import env, meshfile
from checks.C11 import geo, FILES, grid_file

BOUNDS = {"quick": "1..4 columns x 12 value patterns x name menus x 4 external meshes and 2 internal ones: <=2 deviations; all write sequences of "
                   "length 3 over {good, other names, too few names, too many names, over an existing file}, with the outcome of each read back by an independent parser; points, quadrilaterals and edges of the solution file against the mesh file read last, over all sequences of 1..2 reads of a menu of grids (2-D and 3-D files); all ordered pairs of generated rectangles; up to 33 columns, 1271 points, unusual names and types",
          "thorough": "<=3 deviations; sequences of length 4"}
ASSUMPTIONS = ["names contain no white space (the legacy VTK format cannot express it)", "solutions have one row per point of the file"]
SHARDS = {"quick": 6, "thorough": 8}


def parse(path):
    """Independent reader of the legacy ASCII VTK dialect: (header lines incl. mesh, [(name, values)])."""
    with open(path) as f:
        lines = f.read().split("\n")
    k = [i for i, l in enumerate(lines) if l.strip().startswith("POINT_DATA")]
    if len(k) != 1:
        raise ValueError(f"{len(k)} POINT_DATA sections")
    head = lines[:k[0]]
    n = int(lines[k[0]].split()[1])
    toks = " ".join(lines[k[0] + 1:]).split()
    fields, i = [], 0
    while i < len(toks):
        if toks[i] != "SCALARS":
            raise ValueError(f"unexpected token {toks[i]!r}")
        name, i = toks[i + 1], i + 3
        if toks[i] not in ("LOOKUP_TABLE", "1"):
            raise ValueError(f"unexpected token {toks[i]!r}")
        i += 1 if toks[i] == "1" else 0
        i += 2
        vals = []
        while i < len(toks) and toks[i] not in ("SCALARS",):
            vals.append(float(toks[i]))
            i += 1
        fields.append((name, np.array(vals)))
    return head, n, fields


def parse_mesh(path):
    with open(path) as f:
        toks = f.read().split("\n")
    out = []
    for l in toks:
        if l.strip().startswith("POINT_DATA"):
            break
        out.append(l)
    return out


def points_of(head):
    """Coordinates and cells listed in the file, as numbers."""
    t = "\n".join(head)
    i = [k for k, l in enumerate(head) if l.startswith("POINTS")][0]
    n = int(head[i].split()[1])
    rest = " ".join(head[i + 1:]).split()
    return np.array([float(v) for v in rest[:3 * n]]).reshape(n, 3)


PATTERN = {
    "ramp": lambda n, c: np.arange(n) + 0.1 * c,
    "irrational": lambda n, c: np.sin(np.arange(n) * 1.7 + c) / 3,
    "tiny": lambda n, c: 5e-324 * (1 + np.arange(n)) * (c + 1),
    "huge": lambda n, c: 1.7e308 * np.cos(np.arange(n) + c),
    "neg zero": lambda n, c: np.where(np.arange(n) % 2 == c % 2, -0.0, 0.0),
    "ulp": lambda n, c: 1 + (np.arange(n) + c) * 2.0**-52,
    "nan": lambda n, c: np.where(np.arange(n) == c, np.nan, 1.0 / (np.arange(n) + 3)),
    "inf": lambda n, c: np.where(np.arange(n) == c, np.inf, np.where(np.arange(n) == c + 1, -np.inf, -2.5)),
    "const": lambda n, c: np.full(n, 1 / 3 + c),
    "ints": lambda n, c: (-1) ** np.arange(n) * 1e15 + np.arange(n) + c,
    "mixed": lambda n, c: (-10.0) ** (np.arange(n) * 7 % 30 - 15 + c),
    "zero": lambda n, c: np.zeros(n),
}
NAMES = [["u"], ["u", "v"], ["Sol", "Exact", "Error"], ["Error", "Exact", "Sol"], ["POINT_DATA2", "x1", "SCALAR", "u"], ["a_b", "a-b"], ["u", "u2", "u3", "u4"], ["_u", "u_", "__"]]


def same(a, b):
    return a.shape == b.shape and np.array_equal(a.view(np.int64) if a.dtype == np.float64 else a, b.view(np.int64)) or (
        a.shape == b.shape and all((np.isnan(x) and np.isnan(y)) or (x == y and np.signbit(x) == np.signbit(y)) for x, y in zip(a, b)))


def judge(ctx, path, src, sol, names, what):
    ctx.check(os.path.exists(path), f"{what}: no file written")
    try:
        head, n, fields = parse(path)
    except Exception as e:
        ctx.fail(f"{what}: file cannot be parsed: {e}")
    ctx.obs("file", (n, [f[0] for f in fields], [np.nan_to_num(f[1]) for f in fields]))
    ctx.check(head == parse_mesh(src), f"{what}: the mesh in the file is not that of the domain")
    ctx.check(n == len(points_of(head)) == len(sol), f"{what}: {n} data points for {len(points_of(head))} mesh points, solution has {len(sol)} rows")
    ctx.check([f[0] for f in fields] == list(names), f"{what}: fields {[f[0] for f in fields]}, expected {list(names)}")
    for c, (nm, v) in enumerate(fields):
        w = np.asarray(sol[:, c], dtype=np.float64)
        ctx.check(same(np.asarray(v), w), lambda: f"{what}: field {nm} reads back {v.tolist()[:5]}, written {w.tolist()[:5]}")


def setup(ctx, kind):
    d = env.scratch.fresh("vtk")
    if kind.startswith("internal"):
        g = geo(d, "internal")
        xl, yl, nx = ((0, 1), (0, 1), 2) if kind.endswith("A") else ((-2.0, -1.5), (3, 3.5), 1)
        g.generate_quad_mesh_internal(xl, yl, nx, 1, 8)
        src = os.path.join(d, "internal.vtk")
    else:
        k = int(kind.split()[1])
        f = os.path.join(d, "m.mesh")
        grid_file(f, *FILES[k])
        g = geo(d)
        g.read_mesh(f, 1, "uniform", 1)
        src = os.path.join(d, "external.vtk")
    with open(src, "rb") as fh:
        raw = fh.read()
    return d, g, src, raw


def unchanged(ctx, src, raw, what):
    with open(src, "rb") as fh:
        ctx.check(fh.read() == raw, f"{what}: the domain's own mesh file was modified")


KINDSX = ["external 1", "external 2", "external 4", "external 6", "internal A", "internal B"]


def h_write(ctx):
    names = ctx.choose("names", NAMES, free=True)
    pat = ctx.choose("values", sorted(PATTERN), free=True)
    kind = ctx.choose("mesh", KINDSX)
    lay = ctx.choose("layout", ["C", "F", "strided", "float32"])
    nm = ctx.choose("names given as", [list, tuple])
    out = ctx.choose("folder", ["own", "output folder"])
    twice = ctx.choose("written twice", [False, True])
    ctx.commit()
    d, g, src, raw = setup(ctx, kind)
    n = len(points_of(parse_mesh(src)))
    with np.errstate(all="ignore"):
        sol = np.stack([PATTERN[pat](n, c) for c in range(len(names))], axis=1).astype(np.float64)
    if lay == "F":
        sol = np.asfortranarray(sol)
    elif lay == "strided":
        sol = np.repeat(sol, 2, axis=0)[::2]
    elif lay == "float32":
        with np.errstate(all="ignore"):
            sol = sol.astype(np.float32)
    keep = sol.copy()
    o = env.scratch.fresh("o") if out == "own" else d
    for k in range(2 if twice else 1):
        g.write_vtk(sol, o, "sol.vtk", nm(names))
    judge(ctx, os.path.join(o, "sol.vtk"), src, keep, names, f"{kind}, {pat} values, names {names}, {lay}")
    unchanged(ctx, src, raw, f"{kind} {names}")
    ctx.check(np.array_equal(sol, keep, equal_nan=True), "the solution array was modified")
    ctx.check(sorted(os.listdir(o)) == sorted(set(os.listdir(d)) | {"sol.vtk"} if o == d else ["sol.vtk"]), f"files {sorted(os.listdir(o))}")
    return kind, pat, tuple(names)


def h_seq(depth):
    ops = ["good a", "other names a", "three columns b", "too few names a", "too many names b", "no names c", "same file b"]

    def h(ctx):
        kind = ctx.choose("mesh", ["external 1", "external 4"], free=True)
        seq = [ctx.choose(f"write {i}", ops, free=True) for i in range(depth)]
        ctx.commit()
        d, g, src, raw = setup(ctx, kind)
        o = env.scratch.fresh("o")
        n = len(points_of(parse_mesh(src)))
        model = {}
        for i, op in enumerate(seq):
            f = {"a": "a.vtk", "b": "b.vtk", "c": "c.vtk"}[op[-1]]
            cols = 3 if op.startswith("three") else 2
            sol = np.stack([PATTERN["irrational"](n, 10 * i + c) for c in range(cols)], axis=1)
            names = {"good a": ["u", "v"], "other names a": ["p", "q"], "three columns b": ["r", "s", "t"], "too few names a": ["u"],
                     "too many names b": ["u", "v", "w"], "no names c": [], "same file b": ["u", "v"]}[op]
            if len(names) != cols:
                ctx.raises(ValueError, lambda: g.write_vtk(sol, o, f, names), f"{cols} columns with names {names} accepted in {seq}")
            else:
                g.write_vtk(sol, o, f, names)
                model[f] = (sol.copy(), names)
            ctx.check(sorted(os.listdir(o)) == sorted(model), f"files {sorted(os.listdir(o))} after {seq[:i+1]}, expected {sorted(model)}")
            for q, (s, nms) in model.items():
                judge(ctx, os.path.join(o, q), src, s, nms, f"{q} after {seq[:i+1]}")
            unchanged(ctx, src, raw, f"after {seq[:i+1]}")
        return kind, tuple(seq)
    return h


def h_points(ctx):
    """Evaluation points offered = points of the file, row by row."""
    kind = ctx.choose("mesh", KINDSX[:4] + ["external 0", "external 3", "external 5", "external 7"] + KINDSX[4:])
    before = ctx.choose("a solution was written before", [False, True])
    again = ctx.choose("asked twice, first answer overwritten", [False, True])
    ctx.commit()
    d, g, src, raw = setup(ctx, kind)
    P = points_of(parse_mesh(src))
    if before:
        g.write_vtk(np.ones((len(P), 1)) * 5, d, "other.vtk", ["z"])
    t = np.asarray(g.get_test_points())
    if again:
        t[...] = -1
        t = np.asarray(g.get_test_points())
    ctx.obs("points", t)
    ctx.check(t.ndim == 2 and t.shape[1] == 2, f"{kind}: test points have shape {t.shape}")
    if kind.startswith("internal"):
        # exactly the uniform n_x*n_y grid of the rectangle, x fastest
        xl, yl = (g.x_limits, g.y_limits)
        X, Y = np.meshgrid(np.linspace(*xl, 4), np.linspace(*yl, 3))
        want = np.stack([X.ravel(), Y.ravel()], 1)
        got = sorted(map(tuple, np.round(t, 12)))
        ctx.check(got == sorted(map(tuple, np.round(want, 12))), f"{kind}: test points are not the 4 x 3 grid of the domain")
        g.write_vtk(t[:, :1] * 2 + t[:, 1:], d, "sol.vtk", ["u"])
        head, n, fields = parse(os.path.join(d, "sol.vtk"))
        ok = len(fields) == 1 and len(fields[0][1]) == len(t)
        ctx.check(ok, f"{kind}: the field evaluated at the test points does not read back", key="internal-field")
        ctx.check(len(t) == len(P) and np.abs(t - P[:, :2]).max() < 1e-6,
                  f"{kind}: get_test_points offers {len(t)} grid points while the solution file holds {len(P)} gmsh points", key="internal-rowcount")
    else:
        ctx.check(t.shape == (len(P), 2) and np.array_equal(t, P[:, :2]), f"{kind}: test points are not the points of the file, row by row")
    return kind, before, again


def cells_of(head):
    i = [k for k, l in enumerate(head) if l.startswith("CELLS")][0]
    n = int(head[i].split()[1])
    t = " ".join(head[i + 1:]).split()
    out, p = [], 0
    for _ in range(n):
        m = int(t[p])
        out.append(tuple(int(v) for v in t[p + 1:p + 1 + m]))
        p += 1 + m
    return out


def h_domain(depth):
    """The file's mesh is that of the mesh file read last: vertices in their order, every quadrilateral and edge."""
    def h(ctx):
        seq = [ctx.choose(f"mesh {i}", range(len(FILES))) for i in range(ctx.choose("reads", range(1, depth + 1), free=True))]
        dim = ctx.choose("dimension of the files", [3, 2])
        path = ctx.choose("file name", ["own", "shared"])
        ctx.commit()
        d = env.scratch.fresh("vtk")
        g = geo(d)
        for i, k in enumerate(seq):
            f = os.path.join(d, "m.mesh" if path == "shared" else f"m{i}.mesh")
            grid_file(f, *FILES[k], dim=dim)
            verts, quads, edges = grid_file.last
            g.read_mesh(f, 1, "uniform", 1)
            what = f"mesh {FILES[k]} after reading {seq[:i]}"
            V = np.array(verts, float)
            t = np.asarray(g.get_test_points())
            ctx.obs(("points", k), t)
            ctx.check(t.shape == V.shape and np.array_equal(t, V), f"{what}: test points are not the vertices of the mesh file")
            sol = np.stack([PATTERN["irrational"](len(V), i), V[:, 0] - V[:, 1]], axis=1)
            o = env.scratch.fresh("o")
            g.write_vtk(sol, o, "s.vtk", ["u", "v"])
            judge(ctx, os.path.join(o, "s.vtk"), os.path.join(d, "external.vtk"), sol, ["u", "v"], what)
            head = parse(os.path.join(o, "s.vtk"))[0]
            P = points_of(head)
            ctx.check(P.shape == (len(V), 3) and np.array_equal(P[:, :2], V) and not P[:, 2].any(), f"{what}: points of the solution file differ from the mesh")
            c = cells_of(head)
            ctx.check(sorted(x for x in c if len(x) == 4) == sorted(tuple(q[:4]) for q in quads), f"{what}: quadrilaterals of the solution file differ from the mesh")
            ctx.check(sorted(x for x in c if len(x) == 2) == sorted(tuple(e[:2]) for e in edges), f"{what}: edges of the solution file differ from the mesh")
        return tuple(seq), dim, path
    return h


def h_regen(ctx):
    """Internal meshes: the file describes the rectangle generated last."""
    R = [((0, 1), (0, 1)), ((-2.0, -1.5), (3, 3.5)), ((0, 1), (0, 2))]
    seq = [ctx.choose(f"rectangle {i}", R, free=True) for i in range(2)]
    ctx.commit()
    d = env.scratch.fresh("vtk")
    g = geo(d, "internal")
    for xl, yl in seq:
        g.generate_quad_mesh_internal(xl, yl, 2, 1, 8)
        src = os.path.join(d, "internal.vtk")
        P = points_of(parse_mesh(src))
        box = [P[:, 0].min(), P[:, 0].max(), P[:, 1].min(), P[:, 1].max()]
        ctx.close(box, [*xl, *yl], f"mesh file of rectangle {xl}x{yl} in {seq}", tol=1e-9)
        sol = np.stack([PATTERN["ramp"](len(P), 1)], axis=1)
        g.write_vtk(sol, d, "s.vtk", ["u"])
        judge(ctx, os.path.join(d, "s.vtk"), src, sol, ["u"], f"rectangle {xl}x{yl} in {seq}")
    return tuple(seq)


def h_types(ctx):
    """Names/columns mismatch for all small counts leaves no trace."""
    cols = ctx.choose("columns", range(0, 5), free=True)
    nn = ctx.choose("names", range(0, 6), free=True)
    pre = ctx.choose("target exists", [False, True], free=True)
    ctx.commit()
    d, g, src, raw = setup(ctx, "external 1")
    o = env.scratch.fresh("o")
    n = len(points_of(parse_mesh(src)))
    f = os.path.join(o, "s.vtk")
    if pre:
        with open(f, "w") as fh:
            fh.write("precious")
    sol = np.arange(n * cols, dtype=float).reshape(n, cols)
    names = [f"f{k}" for k in range(nn)]
    if cols != nn:
        ctx.raises(ValueError, lambda: g.write_vtk(sol, o, "s.vtk", names), f"{cols} columns, {nn} names accepted")
        ctx.check(os.path.exists(f) == pre, "a file appeared")
        if pre:
            ctx.check(open(f).read() == "precious", f"{cols} columns, {nn} names: the existing file was touched")
    else:
        g.write_vtk(sol, o, "s.vtk", names)
        judge(ctx, f, src, sol, names, f"{cols} columns")
    unchanged(ctx, src, raw, "mismatch")
    ctx.obs("types", (cols, nn))
    return cols, nn, pre


def h_large(ctx):
    """Many columns, many points, unusual file and field names, integer and read-only solutions."""
    cols = ctx.choose("columns", [3, 1, 7, 12, 33], free=True)
    grid = ctx.choose("mesh", [(3, 2), (1, 1), (40, 30), (101, 1)], free=True)
    style = ctx.choose("field names", ["plain", "long", "unicode", "numbers", "same start", "repeated"])
    file = ctx.choose("file name", ["s.vtk", "s", "a.b.vtk", "with blank.vtk", "POINT_DATA.vtk", "sub/s.vtk"])
    folder = ctx.choose("folder given as", ["text", "path", "relative"])
    dtype = ctx.choose("values", ["float64", "int64", "int32", "float32", "read only", "wide range"])
    ctx.commit()
    from pathlib import Path
    d = env.scratch.fresh("vtk")
    f = os.path.join(d, "m.mesh")
    grid_file(f, *grid)
    g = geo(d)
    g.read_mesh(f, 0, "uniform", 1)
    src = os.path.join(d, "external.vtk")
    with open(src, "rb") as fh:
        raw = fh.read()
    n = len(points_of(parse_mesh(src)))
    v = np.modf((np.arange(1, n * cols + 1) * 0.6180339887498949) % 1.0 + 1 / 3)[0].reshape(n, cols) - 0.5
    if dtype == "wide range":
        v = v * 10.0 ** (np.arange(n * cols).reshape(n, cols) % 600 - 300)
    sol = (v * 1e6).astype(np.dtype(dtype)) if "int" in dtype else v.astype(np.float32) if dtype == "float32" else v
    if dtype == "read only":
        sol.setflags(write=False)
    names = {"plain": [f"u{k}" for k in range(cols)], "long": [f"{'x' * 300}{k}" for k in range(cols)], "unicode": [f"Lösung_{k}_é" for k in range(cols)],
             "numbers": [f"{k}" for k in range(cols)], "same start": ["u" * (k + 1) for k in range(cols)], "repeated": ["u"] * cols}[style]
    o = env.scratch.fresh("o")
    if file.startswith("sub/"):
        os.mkdir(os.path.join(o, "sub"))
    back = os.getcwd()
    try:
        if folder == "relative":
            os.chdir(os.path.dirname(o))
        g.write_vtk(sol, {"text": o, "path": Path(o), "relative": os.path.basename(o)}[folder], file, names)
    finally:
        os.chdir(back)
    what = f"{cols} columns ({style} names, {dtype}) on {n} points to {file!r} ({folder})"
    judge(ctx, os.path.join(o, file), src, np.asarray(sol, dtype=np.float64), names, what)
    unchanged(ctx, src, raw, what)
    got = sorted(os.path.relpath(os.path.join(r, x), o) for r, _, fs in os.walk(o) for x in fs)
    ctx.check(got == [file], f"{what}: files {got}")
    return cols, grid, style, file, folder, dtype


def harnesses(tier):
    return harnesses_(tier) + [("large", h_large, 1 if tier == "quick" else 3)]


def harnesses_(tier):
    b = 1 if tier == "quick" else 3
    return [("write", h_write, b), ("sequences", h_seq(3 if tier == "quick" else 4), None), ("test points", h_points, None), ("regenerate", h_regen, None), ("domain", h_domain(2 if tier == "quick" else 3), 2 if tier == "quick" else 4), ("mismatch", h_types, None)]

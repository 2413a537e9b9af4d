"""C32: what the package reports about its objects (printed tables and counters) is true of them."""
import contextlib
import os
import re
import sys

import numpy as np

from mc import build, env, meshfile
from checks import tiny
from checks.C11 import ORDERS, geo
from checks.C12 import ALPHA, Q1, Q2

BOUNDS = {"quick": "mesh files: all 3^4 tag assignments of one cell and 2^6 of two cells x refinement 0..3 x 2 samplings, grids up to 33x20, every ordered pair of reads; internal meshes "
                   "with and without files; spaces: 6 cell lists x orders 2..6 x 5 families x 2 rules x 2 transforms x boundary dictionaries x plot, <=2 deviations, all ordered pairs of "
                   "7 spaces, drawn twice; models: 4 kinds x 2 precisions x 6 sizes, unknowns of 1..3 coefficients, all ordered pairs; all tables of <=3 rows over 15 values; "
                   "size complaints of write_vtk for 0..4 columns x 0..4 names; studies of 1..3 trials",
          "thorough": "<=3 deviations, tables of 4 rows, ordered triples"}
ASSUMPTIONS = ["texts given to print_table hold no console markup", "the console is wide enough for the table (100 columns)", "the optional package optuna is a stand-in"]
SHARDS = {"quick": 8, "thorough": 8}


# ------------------------------------------------------------------ capturing and reading
class Captured:
    def __init__(self):
        self.out = self.err = ""


@contextlib.contextmanager
def capture():
    """Everything written to the descriptors 1 and 2, by Python or not."""
    c = Captured()
    files = [open(os.path.join(env.scratch.path, f"cap{fd}_{os.getpid()}"), "w+b") for fd in (1, 2)]
    flush()
    saved = [os.dup(1), os.dup(2)]
    for f, fd in zip(files, (1, 2)):
        os.dup2(f.fileno(), fd)
    try:
        yield c
    finally:
        flush()
        for s, fd in zip(saved, (1, 2)):
            os.dup2(s, fd)
            os.close(s)
        c.out, c.err = (read(f) for f in files)


def flush():
    for s in (sys.stdout, sys.stderr):
        with contextlib.suppress(Exception):
            s.flush()


def read(f):
    f.seek(0)
    t = f.read().decode("utf-8", "replace")
    f.close()
    return re.sub("\x1b\\[[0-9;]*[A-Za-z]", "", t)


def squeeze(s):
    return re.sub(r"[\s:=]+", " ", s).strip().lower()


def said(text, label):
    """What follows the label on every line that holds it."""
    out = []
    for line in text.splitlines():
        s = squeeze(line)
        k = s.find(squeeze(label))
        if k >= 0:
            out.append(s[k + len(squeeze(label)):].strip())
    return out


def numbers(s):
    return [float(x) for x in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?(?:e[+-]?\d+)?", s)]


def rows(text):
    out = []
    for line in text.splitlines():
        if re.search("[|│┃]", line):
            cells = [x.strip() for x in re.split("[|│┃]", line)]
            while cells and not cells[0]:
                cells.pop(0)
            while cells and not cells[-1]:
                cells.pop()
            out.append(cells)
    return out


def count(ctx, text, label, want, what):
    """Every statement about `label` states the number(s) `want`, and there is one."""
    want = [float(w) for w in np.atleast_1d(want)]
    s = said(text, label)
    ctx.check(bool(s), f"{what}: nothing is reported about '{label}'")
    for x in s:
        ctx.check(numbers(x) == want, f"{what}: reports '{label}' as '{x}', it is {want if len(want) > 1 else want[0]}")


def table(ctx, text, want, what, key=0):
    """want: {label: text of the value}; each label has exactly the stated row."""
    R = {}
    for r in rows(text):
        if len(r) > 1:
            R.setdefault(r[key], []).append([x.replace(" ", "") for x in r[key + 1:]])
    for label, v in want.items():
        ctx.check(label in R, f"{what}: no row for '{label}'")
        for r in R[label]:
            ctx.check(r[:len(v)] == [str(x).replace(" ", "") for x in v], f"{what}: reports '{label}' as {r}, it is {v}")


# ------------------------------------------------------------------ meshes
def report_read(ctx, text, verts, edges, n_cells, bd, vtk, what):
    count(ctx, text, "number of cells", n_cells, what)
    count(ctx, text, "number of points per cell", 4, what)
    count(ctx, text, "bound points before refinement", len({tuple(verts[v]) for e in edges for v in e[:2]}), what)
    got = {int(k): len(v) for k, v in bd.items()}
    R = [(int(r[0]), int(r[1])) for r in rows(text) if len(r) == 2 and re.fullmatch(r"-?\d+", r[0]) and re.fullmatch(r"\d+", r[1])]
    ctx.check(sorted(R) == sorted(got.items()), f"{what}: the table of boundary points states {R}, the dictionary holds {got}")
    count(ctx, text, "bound pts after refinement", sum(got.values()), what)
    announced(ctx, text, [vtk], what)


def announced(ctx, text, files, what):
    got = [os.path.normpath(m.strip()) for m in re.findall(r"(?i)generated\s+at\s+(.*)", text)]
    ctx.check(sorted(got) == sorted(os.path.normpath(f) for f in files), f"{what}: announces the files {got}, written are {files}")
    for f in files:
        ctx.check(os.path.isfile(f), f"{what}: {f} was announced and does not exist")


def grid(nx, ny):
    vid = lambda i, j: j * (nx + 1) + i
    verts = [(i + 0.25 * j, 0.5 * j + 0.0625 * i) for j in range(ny + 1) for i in range(nx + 1)]
    quads = [(vid(i, j), vid(i + 1, j), vid(i + 1, j + 1), vid(i, j + 1), 0) for j in range(ny) for i in range(nx)]
    E = [(vid(i, 0), vid(i + 1, 0)) for i in range(nx)] + [(vid(nx, j), vid(nx, j + 1)) for j in range(ny)]
    E += [(vid(i + 1, ny), vid(i, ny)) for i in range(nx)] + [(vid(0, j + 1), vid(0, j)) for j in range(ny)]
    return dict(verts=verts, quads=quads, edges=E)


def read_one(ctx, Q, tags, level, method, what, g=None, order=ORDERS[0], scale=(1, 0, 0)):
    s, ox, oy = scale
    verts = [(ox + s * x, oy + s * y) for x, y in Q["verts"]]
    edges = [e + (t,) for e, t in zip(Q["edges"], tags)]
    out = env.scratch.fresh("rep")
    f = os.path.join(out, "in.mesh")
    meshfile.write(f, verts, Q["quads"], edges, order)
    if g is None:
        g = geo(out)
    g.output_folder = out
    with capture() as c:
        cells, bd = g.read_mesh(f, level, method, 1)
    report_read(ctx, c.out, verts, edges, len(Q["quads"]), bd, os.path.join(out, "external.vtk"), what)
    ctx.obs("read", (len(cells), sorted((int(k), len(v)) for k, v in bd.items())))
    return g


def h_read(Q, ntags, levels):
    def h(ctx):
        tags = [ctx.choose(f"tag of edge {i}", range(ntags), free=True) for i in range(len(Q["edges"]))]
        level = ctx.choose("refinement", levels)
        method = ctx.choose("sampling", ["uniform", "lhs"])
        alpha = ctx.choose("tag numbers", ALPHA)
        order = ctx.choose("sections", ORDERS)
        scale = ctx.choose("coordinates", [(1, 0, 0), (0.5, -8, 2), (1024, 1, 1), (1 / 3, 7, 7)])
        ctx.commit()
        tags = [alpha[t] for t in tags]
        read_one(ctx, Q, tags, level, method, f"file with edges tagged {tags}, refinement {level}, {method}", order=order, scale=scale)
        return tuple(tags), level, method
    return h


GRIDS = [(1, 1), (2, 1), (5, 3), (1, 40), (33, 20)]


def h_grids(ctx):
    nx, ny = ctx.choose("grid", GRIDS, free=True)
    how = ctx.choose("tags", ["one", "alternating", "each its own"], free=True)
    level = ctx.choose("refinement", [0, 1, 3, 5], free=True)
    method = ctx.choose("sampling", ["uniform", "lhs"], free=True)
    ctx.commit()
    Q = grid(nx, ny)
    tags = [{"one": 5, "alternating": 10 + k % 3, "each its own": 100 + k}[how] for k in range(len(Q["edges"]))]
    read_one(ctx, Q, tags, level, method, f"{nx}x{ny} grid, tags {how}, refinement {level}, {method}")
    return nx, ny, how, level, method


READS = [(Q1, [7, 7, 8, 9], 1, "uniform"), (Q2, [1, 1, 2, 2, 3, 3], 0, "lhs"), (grid(3, 2), [4] * 10, 2, "uniform"), (Q1, [5] * 4, 3, "lhs"), (Q2, list(range(6)), 2, "uniform")]


def h_reads(depth):
    def h(ctx):
        seq = [ctx.choose(f"read {i}", range(len(READS)), free=True) for i in range(depth)]
        same = ctx.choose("on", ["one object", "an object each"], free=True)
        ctx.commit()
        g = None
        for i, k in enumerate(seq):
            Q, tags, level, method = READS[k]
            g = read_one(ctx, Q, tags, level, method, f"read {i} of {seq} on {same}", g if same == "one object" else None)
        return tuple(seq), same
    return h


def h_internal(ctx):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    seq = [ctx.choose(f"generation {i}", [(2, 3, 8, False), (1, 1, 4, True), (4, 2, 0, False), (3, 3, 13, True)], free=True) for i in range(2)]
    same = ctx.choose("on", ["one object", "an object each"], free=True)
    ctx.commit()
    g = None
    for i, (nx, ny, nb, opt) in enumerate(seq):
        out = env.scratch.fresh("int")
        if g is None or same == "an object each":
            g = Geometry_2D("quadrilateral", "internal", 3, 2, out, opt)
        g.output_folder, g.is_optimized = out, opt
        with capture() as c:
            g.generate_quad_mesh_internal((0, 1), (-1, 2), nx, ny, nb)
        want = [] if opt else [os.path.join(out, "internal.msh"), os.path.join(out, "internal.vtk")]
        ctx.obs("files", sorted(os.listdir(out)))
        announced(ctx, c.out, want, f"generation {i} of {seq} on {same}")
    return tuple(seq), same


# ------------------------------------------------------------------ spaces
BD = [{1000: 3, 7: 1}, {1000: 1}, {1000: 4, 1001: 4, 1002: 4, 1003: 4}, {5: 40}, {0: 2, -3: 5, 9: 1}]
LISTS = [["unit", "trap"], ["kite"], ["para", "rect", "unit", "trap", "kite"], ["tiny"] * 3, ["unit"] * 12]
PARAS = [["unit", "para"], ["rect"], ["para", "rect", "unit", "tiny", "unit"], ["tiny"] * 3, ["unit"] * 12]


def space_of(spec, out):
    cells, order, fam, qorder, qtype, tr, bd, plot = spec
    # the first point of every tag is the same corner
    boundary = {t: np.array([[0.25 * k * (i > 0) + 0.0625 * i, 0.125 * i - k * (i > 0)] for i in range(n)]) for k, (t, n) in enumerate(bd.items())}
    return build.space([build.CELLS[c] for c in cells], order, fam, qorder, qtype, tr, boundary=boundary, output_path=out, plot=plot), boundary


def report_space(ctx, spec, what):
    cells, order, fam, qorder, qtype, tr, bd, plot = spec
    out = env.scratch.fresh("sp")
    with capture() as c:
        s, boundary = space_of(spec, out)
    nb = sum(bd.values())
    nt, nq = order**2, len(np.asarray(s.get_quadrature_weights(0)))
    ctx.obs("space", (len(cells), nq, nb))
    ctx.check(nq == qorder**2, f"{what}: {nq} quadrature points per cell, the rule has {qorder**2}")
    table(ctx, c.out, {"Number of Cells": [len(cells)], "Number of Quadrature Points": [len(cells) * nq], "Number of Dirichlet Boundary Points": [nb],
                       "Quadrature Order": [qorder], "FE Order": [order], "FE Type": [fam], "FE Transformation Type": [tr],
                       "Shape function Matrix Shape": [(nt, nq)], "Shape function Gradient Matrix Shape": [(nt, nq)],
                       "Quadrature Weights Shape": [np.shape(s.get_quadrature_weights(0))],
                       "Quadrature Points Shape": [np.shape(s.fe_cell[0].quad_xi)], "Jacobian Matrix Shape": [np.shape(s.fe_cell[0].jacobian)],
                       "Quadrature Actual Coordinates Shape": [(nq, 2)], "Forcing Function Shape": [np.shape(s.get_forcing_function_values(0))]}, what)
    count(ctx, c.out, "total number of dirichlet boundary points", nb, what)
    count(ctx, c.out, "shape of dirichlet-x", (nb, 2), what)
    x, y = s.dirichlet_boundary_data
    count(ctx, c.out, "shape of y", np.shape(np.array(y)), what)
    ctx.check(s.n_cells == len(cells) and s.total_dofs == len(cells) * nq and s.total_dirichlet_dofs == nb,
              f"{what}: counters say {s.n_cells} cells, {s.total_dofs} quadrature and {s.total_dirichlet_dofs} Dirichlet points; they are {len(cells)}, {len(cells) * nq}, {nb}")
    bars = re.findall(r"(\d+)\s*/\s*(\d+)\s*\[", c.err)
    ctx.check(not bars or tuple(map(int, bars[-1])) in ((len(cells), len(cells)), (0, len(cells))) or int(bars[-1][1]) == len(cells),
              f"{what}: the progress bar ends at {bars[-1:]}, there are {len(cells)} cells")
    if plot:
        count(ctx, c.out, "total number of cells", len(cells), what)
        count(ctx, c.out, "total number of quadrature points", len(cells) * nq, what)
        count(ctx, c.out, "total number of boundary points", nb, what)
        ctx.check(s.total_boundary_dofs == nb, f"{what}: counter says {s.total_boundary_dofs} boundary points, there are {nb}")
    return s


def h_space(orders):
    def h(ctx):
        k = ctx.choose("cells", range(len(LISTS)), free=True)
        order = ctx.choose("order", orders, free=True)
        fam = ctx.choose("family", ["legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain"])
        qorder = ctx.choose("quadrature", [3, 4, 5, 8])
        qtype = ctx.choose("rule", ["gauss-legendre", "gauss-jacobi"])
        tr = ctx.choose("transform", ["bilinear", "affine"])
        bd = ctx.choose("boundary points", BD)
        ctx.commit()
        cells = (PARAS if tr == "affine" else LISTS)[k]
        spec = (cells, order, fam, qorder, qtype, tr, bd, False)
        report_space(ctx, spec, f"space {spec}")
        return k, order, fam, qorder, qtype, tr, tuple(bd)
    return h


SPACES = [(["unit", "trap"], 2, "legendre", 3, "gauss-legendre", "bilinear", BD[0], True), (["kite"], 3, "jacobi", 4, "gauss-jacobi", "bilinear", BD[1], False),
          (["para", "rect", "unit"], 2, "legendre_special", 3, "gauss-jacobi", "affine", BD[2], True), (["trap"] * 7, 4, "legendre", 6, "gauss-legendre", "bilinear", BD[3], False),
          (["unit"], 5, "jacobi", 3, "gauss-legendre", "affine", BD[4], True), (["kite", "unit", "kite"], 2, "legendre", 5, "gauss-jacobi", "bilinear", BD[0], False),
          (["unit"], 2, "jacobi", 3, "gauss-jacobi", "bilinear", BD[3], True)]


def h_spaces(depth):
    def h(ctx):
        seq = [ctx.choose(f"space {i}", range(len(SPACES)), free=True) for i in range(depth)]
        ctx.commit()
        for i, k in enumerate(seq):
            s = report_space(ctx, SPACES[k], f"space {i} of {seq}")
            if SPACES[k][-1]:
                # drawn once more: the same numbers again
                with capture() as c:
                    s.generate_plot(env.scratch.fresh("again"))
                count(ctx, c.out, "total number of boundary points", sum(SPACES[k][6].values()), f"space {i} of {seq} drawn again")
                count(ctx, c.out, "total number of quadrature points", len(SPACES[k][0]) * SPACES[k][3] ** 2, f"space {i} of {seq} drawn again")
                ctx.check(s.total_boundary_dofs == sum(SPACES[k][6].values()) and s.total_dofs == len(SPACES[k][0]) * SPACES[k][3] ** 2,
                          f"space {i} of {seq} drawn again: counters {s.total_boundary_dofs}, {s.total_dofs}")
        return tuple(seq)
    return h


# ------------------------------------------------------------------ models
SIZES = [dict(), dict(n_cells=1, n_test=1, n_quad=1, n_dir=1, n_sens=1), dict(n_cells=3, n_test=4, n_quad=9, n_dir=12, n_sens=7), dict(n_cells=7, n_test=2, n_quad=5, n_dir=3),
         dict(n_cells=4, n_test=4, n_quad=4, n_dir=16), dict(n_cells=12, n_test=9, n_quad=25, n_dir=40)]
GUESS = [{"eps": 1.5}, {"eps": -0.25, "b_x": 3.0}, {"eps": 2, "b_x": 0.125, "b_y": 1024.0}]


def report_model(ctx, kind, dt, size, guess, what):
    D = tiny.data(dt, **size)
    kw = dict(inverse=dict(guess), loss="cd2d_inv" if len(guess) > 1 else None) if kind == "inverse" else {}
    with capture() as c:
        m = tiny.model(kind, D, **kw)
    nc, nt, nq = D.val.shape
    nd = D.xd.shape[0]
    ctx.obs("model", (kind, nc, nt, nq, nd))
    name = lambda *s: ["(" + ",".join(map(str, s)) + ")", repr_dtype(dt)]
    table(ctx, c.out, {"input_tensor": name(nc * nq, 2), "force_matrix": name(nt, nc), "pre_multiplier_grad_x": name(nc, nt, nq), "pre_multiplier_grad_y": name(nc, nt, nq),
                       "pre_multiplier_val": name(nc, nt, nq), "dirichlet_input": name(nd, 2), "dirichlet_actual": name(nd, 1)}, what)
    if kind == "inverse":
        text = c.out + c.err
        for k, v in guess.items():
            lines = [l for l in text.splitlines() if re.search(rf"Key\s*:\s*{k}\s", l)]
            ctx.check(len(lines) == 1, f"{what}: {len(lines)} lines report the unknown {k}")
            tail = re.split(r"(?i)numpy\s*=", lines[0].split("Value", 1)[1])[-1]
            ctx.check(numbers(tail) == [float(v)], f"{what}: reports the unknown {k} as '{lines[0]}', the guess is {v}")
    return m


def repr_dtype(dt):
    return str(dt).replace(" ", "")


def h_model(ctx):
    import tensorflow as tf
    kind = ctx.choose("model", tiny.KINDS, free=True)
    dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
    size = ctx.choose("sizes", SIZES, free=True)
    guess = ctx.choose("guess", GUESS if kind == "inverse" else GUESS[:1], free=True)
    ctx.commit()
    report_model(ctx, kind, dt, size, guess, f"{kind} model, {dt.name}, sizes {size}, guess {guess}")
    return kind, dt.name, tuple(size.values()), tuple(guess)


def h_models(depth):
    def h(ctx):
        import tensorflow as tf
        menu = [(k, d, s) for k in tiny.KINDS for d, s in ((tf.float64, 2), (tf.float32, 3))]
        seq = [ctx.choose(f"model {i}", range(len(menu)), free=True) for i in range(depth)]
        ctx.commit()
        for i, k in enumerate(seq):
            kind, dt, s = menu[k]
            report_model(ctx, kind, dt, SIZES[s], GUESS[1 + i % 2], f"model {i} of {[menu[j][0] for j in seq]}")
        return tuple(seq)
    return h


# ------------------------------------------------------------------ tables
def VALUES():
    import tensorflow as tf
    return [(3, "3"), (0.5, "0.5000"), ("text", "text"), (1.23456789, "1.2346"), (-2e-7, "-0.0000"), (np.float64(1234.56785), "1234.5678"), (np.float32(0.25), "0.25"), (np.int64(-7), "-7"),
            ((4, 9), "(4,9)"), (None, "None"), (True, "True"), ("a b c", "abc"), (1e6, "1000000.0000"), (np.float64(0.99999), "1.0000"), (tf.TensorShape([2, 3]), "(2,3)")]


def h_table(depth):
    def h(ctx):
        from fastvpinns.utils.print_utils import print_table
        V = VALUES()
        n = ctx.choose("rows", range(depth + 1), free=True)
        pick = [ctx.choose(f"value {i}", range(len(V)), free=True) for i in range(n)]
        as_ = ctx.choose("given as", [list, tuple], free=n < 3)
        title, heads = ctx.choose("headings", [("A title", ["Name", "Value"]), ("", ["first column", "second column"])], free=n < 3)
        ctx.commit()
        keys, vals = as_(f"row {i}" for i in range(n)), as_(V[k][0] for k in pick)
        with capture() as c:
            r = print_table(title, list(heads), keys, vals)
        R = [[x.replace(" ", "") for x in r] for r in rows(c.out)]
        R = [r for r in R if len(r) > 1]
        want = [[h.replace(" ", "") for h in heads]] + [[f"row{i}", V[k][1]] for i, k in enumerate(pick)]
        ctx.obs("table", R)
        ctx.check(r is None, f"print_table returned {r!r}")
        ctx.check(R == want, f"table of {[V[k][0] for k in pick]} reads {R}, expected {want}")
        ctx.check(title in re.sub(r"\s+", " ", c.out), f"table has no title '{title}'")
        ctx.check(list(keys) == [f"row {i}" for i in range(n)] and len(vals) == n, "the lists given were changed")
        return tuple(pick), title
    return h


def h_vtk(ctx):
    nc = ctx.choose("columns", range(5), free=True)
    nn = ctx.choose("names", range(5), free=True)
    ctx.commit()
    if nc == nn:
        return nc, nn
    out = env.scratch.fresh("vtk")
    g = read_one(ctx, Q1, [1, 1, 2, 2], 0, "uniform", "mesh of the solution file")
    raised = None
    with capture() as c:
        try:
            g.write_vtk(np.zeros((4, nc)), out, "s.vtk", [f"n{i}" for i in range(nn)])
        except ValueError as e:
            raised = e
    what = f"{nc} columns with {nn} names"
    ctx.obs("complaint", type(raised).__name__)
    ctx.check(raised is not None, f"{what} were accepted")
    ctx.check(not os.listdir(out), f"{what}: rejected, and {os.listdir(out)} written")
    s = said(c.out, "num columns in solution")
    if s:
        ctx.check(numbers(s[0]) == [nc, nn], f"{what}: complaint says '{s[0]}'")
    return nc, nn


# ------------------------------------------------------------------ studies
PARAMS = [{"a": 3, "rate": 0.25, "type": "tanh"}, {"a": 17, "rate": 0.0625, "type": "relu"}, {"a": 5, "rate": 0.5, "type": "selu"}]


def h_study(ctx):
    import types as t
    from checks import C29
    C29.stubs()
    n = ctx.choose("trials", [1, 2, 3], free=True)
    rank = ctx.permutation("order of the values", range(n), free=True)
    ndev = ctx.choose("graphics devices", [0, 1, 3], free=True)
    ctx.commit()
    from fastvpinns.hyperparameter_tuning.optuna_tuner import OptunaTuner
    trials = [t.SimpleNamespace(value=0.5 + 0.125 * rank[i], params=dict(PARAMS[i]), number=i) for i in range(n)]
    best = min(trials, key=lambda x: x.value)
    C29.STUDY[0] = lambda *a, **k: t.SimpleNamespace(optimize=lambda *a, **k: None, best_trial=best, best_params=dict(best.params), best_value=best.value, trials=trials)
    with C29.Devices(ndev), capture() as c:
        tuner = OptunaTuner(n_trials=n, n_epochs=1)
        got = tuner.run()
    what = f"study of {n} trials with values {[x.value for x in trials]}"
    ctx.obs("study", got)
    ctx.check(got == best.params, f"{what}: returned {got}, the best trial has {best.params}")
    count(ctx, c.out, "available gpus", ndev, what)
    count(ctx, c.out, "value", best.value, what)
    for k, v in best.params.items():
        s = said(c.out, f"  {k}:")
        s = [squeeze(l)[len(k):].strip() for l in c.out.splitlines() if squeeze(l).split(" ")[0] == k]
        ctx.check(s == [squeeze(str(v))], f"{what}: reports {k} as {s}, the best trial has {v}")
    return n, tuple(rank), ndev


def harnesses(tier):
    q = tier == "quick"
    return [("files, one cell", h_read(Q1, 3, [1, 0, 2, 3]), 1 if q else 3), ("files, two cells", h_read(Q2, 2, [1, 0, 2]), 1 if q else 2), ("grids", h_grids, None),
            ("reads", h_reads(2 if q else 3), None), ("internal meshes", h_internal, None), ("spaces", h_space([2, 3, 4, 6] if q else [2, 3, 4, 5, 6, 8]), 2 if q else 3),
            ("several spaces", h_spaces(2), None), ("models", h_model, None), ("several models", h_models(2), None), ("tables", h_table(3 if q else 4), 0),
            ("complaints", h_vtk, None), ("studies", h_study, None)]

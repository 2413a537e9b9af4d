"""C28: every sequence of plotting calls writes exactly the announced files, draws the given data, and leaves everything else alone."""
import os

import numpy as np

from mc import env
from mc.explorer import Skip, digest

BOUNDS = {"quick": "all ordered pairs of 9 utility routines x 2 data sets each x same/other output name x user figure {none, open, open in between} x folder {plain, with "
                   "blank, nested}; every routine x 18 data layouts (up to 60001 values); up to 40 curves and 120 figures; mesh plots up to 132 cells; mesh plots: all pairs over {space plot of 4 meshes with 1-20 tags, residual plot x 3}; "
                   "every routine rendered once for real",
          "thorough": "all triples of routines"}
ASSUMPTIONS = ["figures are inspected when their canvas is asked to print; except in the rendering harness the file written then is a stand-in holding a digest of the figure",
               "mesh plots may leave their figures open (not promised)"]
SHARDS = {"quick": 8, "thorough": 8}

# ------------------------------------------------------------------ canvas seam
saved = []
real_print = [None]
mode = ["stub"]


def picture(fig):
    """What is drawn: lines, points, polygons, texts per axes."""
    from matplotlib.text import Text
    from matplotlib.patches import Polygon
    from matplotlib.collections import PathCollection
    out = {"lines": [], "points": [], "polygons": [], "texts": sorted({t.get_text() for t in fig.findobj(Text) if t.get_text()}), "lim": [], "contour": []}
    for ax in fig.axes:
        if getattr(ax, "_colorbar", None) is not None or ax.get_label() == "<colorbar>":
            continue
        b = ax.dataLim
        out["lim"].append([b.x0, b.x1, b.y0, b.y1])
        for ln in ax.get_lines():
            out["lines"].append((np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)))
        for c in ax.collections:
            if isinstance(c, PathCollection):
                out["points"].append(np.asarray(c.get_offsets(), float))
            elif hasattr(c, "zmin") and hasattr(c, "levels"):
                out["contour"].append((float(c.zmin), float(c.zmax), len(c.levels)))
            elif hasattr(c, "get_segments"):
                for s in c.get_segments():
                    out["lines"].append((np.asarray(s)[:, 0], np.asarray(s)[:, 1]))
        for p in ax.patches:
            if isinstance(p, Polygon):
                out["polygons"].append((np.asarray(p.get_xy(), float), tuple(np.round(p.get_facecolor(), 9))))
    return out


def install():
    from matplotlib.backend_bases import FigureCanvasBase
    if real_print[0] is None:
        real_print[0] = FigureCanvasBase.print_figure

        def print_figure(self, filename, *a, **k):
            pic = picture(self.figure)
            saved.append((os.fspath(filename) if not hasattr(filename, "write") else "stream", pic))
            if mode[0] == "real" or hasattr(filename, "write"):
                k["dpi"] = 40
                return real_print[0](self, filename, *a, **k)
            with open(filename, "w") as f:
                f.write(digest([pic[k] for k in sorted(pic)]))
        FigureCanvasBase.print_figure = print_figure


def series(k, n=7):
    return np.round(1.5 + np.cos(1.1 * np.arange(n) + k), 4)


XY = (np.linspace(-1, 2, 5), np.linspace(10, 14, 4))


class Routine:
    def __init__(self, name, call, files, args, expect):
        self.name, self.call, self.files, self.args, self.expect = name, call, files, args, expect

    def __repr__(self):
        return self.name


def line(ys, x=None):
    ys = np.asarray(ys, float)
    return (np.arange(len(ys), dtype=float) if x is None else np.asarray(x, float), ys)


def routines():
    import fastvpinns.utils.plot_utils as p

    def contour_args(k):
        X, Y = np.meshgrid(*XY)
        return [X, Y, np.sin(X + k) * Y]

    R = [
        Routine("plot_loss_function", lambda o, n, a: p.plot_loss_function(a[0], o), lambda n: ["loss_function.png"], lambda k: [list(series(k))],
                lambda a, n: [{"lines": [line(a[0])]}]),
        Routine("plot_array", lambda o, n, a: p.plot_array(a[0], o, n, "the title", x_label="my x", y_label="my y"), lambda n: [n + ".png"], lambda k: [series(k + 10)],
                lambda a, n: [{"lines": [line(a[0])], "texts": ["the title", "my x", "my y"]}]),
        Routine("plot_array defaults", lambda o, n, a: p.plot_array(a[0], o, n, "T2"), lambda n: [n + ".png"], lambda k: [series(k + 20)],
                lambda a, n: [{"lines": [line(a[0])], "texts": ["T2", "Epochs", "Loss"]}]),
        Routine("plot_multiple_loss_function", lambda o, n, a: p.plot_multiple_loss_function(a[0], o, n, a[1], "ylab", "titel"), lambda n: [n + ".png"],
                lambda k: [[list(series(k + 30)), series(k + 31, 4), list(series(k + 32, 9))], ["first", "second", "third"]],
                lambda a, n: [{"lines": [line(s) for s in a[0]], "texts": a[1] + ["ylab", "titel", "Epochs"]}]),
        Routine("plot_inverse_test_loss_function", lambda o, n, a: p.plot_inverse_test_loss_function(a[0], o), lambda n: ["test_inverse_loss_function.png"],
                lambda k: [list(series(k + 40))], lambda a, n: [{"lines": [line(a[0])]}]),
        Routine("plot_test_loss_function", lambda o, n, a: p.plot_test_loss_function(a[0], o), lambda n: ["test_loss_function.png"], lambda k: [list(series(k + 50))],
                lambda a, n: [{"lines": [line(a[0])]}]),
        Routine("plot_test_loss_function prefix", lambda o, n, a: p.plot_test_loss_function(a[0], o, n), lambda n: [n + "_test_loss_function.png"],
                lambda k: [list(series(k + 60))], lambda a, n: [{"lines": [line(a[0])]}]),
        Routine("plot_test_time_loss_function", lambda o, n, a: p.plot_test_time_loss_function(a[0], a[1], o), lambda n: ["test_time_loss_function.png"],
                lambda k: [np.cumsum(series(k + 70)), list(series(k + 71))], lambda a, n: [{"lines": [line(a[1], a[0])]}]),
        Routine("plot_contour", lambda o, n, a: p.plot_contour(*a, o, n, "contour title"), lambda n: [n + ".png"], contour_args,
                lambda a, n: [{"texts": ["contour title"], "contour": [(a[2].min(), a[2].max())], "lim": [[-1, 2, 10, 14]]}]),
        Routine("plot_inverse_param_function", lambda o, n, a: p.plot_inverse_param_function(a[0], "epsilon", a[1], o, n), lambda n: [n + ".png", n + "_absolute_error.png"],
                lambda k: [series(k + 80), 0.75 + 0.1 * k],
                lambda a, n: [{"lines": [line(a[0])], "level": a[1], "texts": ["epsilon"]}, {"lines": [line(np.abs(np.asarray(a[0]) - a[1]))], "texts": ["Epochs"]}]),
    ]
    return R


def copyargs(a):
    return [x.copy() if isinstance(x, np.ndarray) else [y.copy() if isinstance(y, np.ndarray) else list(y) if isinstance(y, list) else y for y in x] if isinstance(x, list) else x for x in a]


def same(a, b):
    return digest(a) == digest(b)


def has_line(pic, want):
    return any(len(x) == len(want[0]) and np.allclose(x, want[0], rtol=1e-12) and np.allclose(y, want[1], rtol=1e-12) for x, y in pic["lines"])


def check_picture(ctx, pic, exp, what):
    for w in exp.get("lines", []):
        ctx.check(has_line(pic, w), f"{what}: the curve {w[1].tolist()} is not in the figure; drawn: {[y.tolist() for _, y in pic['lines']]}")
    if "lines" in exp and "level" not in exp:
        ctx.check(len(pic["lines"]) == len(exp["lines"]), f"{what}: {len(pic['lines'])} curves drawn instead of {len(exp['lines'])}")
    if "level" in exp:
        ctx.check(any(np.allclose(y, exp["level"]) and len(x) >= 2 and x[0] != x[-1] for x, y in pic["lines"]), f"{what}: the actual value {exp['level']} is not drawn")
    for t in exp.get("texts", []):
        ctx.check(any(t in s for s in pic["texts"]), f"{what}: text {t!r} is missing, figure has {pic['texts']}")
    if "contour" in exp:
        ctx.check(len(pic["contour"]) == 1, f"{what}: {len(pic['contour'])} contour sets")
        lo, hi, _ = pic["contour"][0]
        ctx.check(np.allclose([lo, hi], exp["contour"][0]), f"{what}: contours of values in {lo, hi}, data in {exp['contour'][0]}")
    if "lim" in exp:
        ctx.check(len(pic["lim"]) == 1 and np.allclose(pic["lim"][0], exp["lim"][0]), f"{what}: axes cover {pic['lim']}, data cover {exp['lim']}")


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def folder(ctx, opts, free):
    k = ctx.choose("folder", opts, free=free)
    base = env.scratch.fresh("plots")
    d = {"plain": "out", "with blank": "my out", "nested": "a/b.c/d"}[k]
    out = os.path.join(base, d)
    os.makedirs(out)
    with open(os.path.join(out, "other.png"), "w") as f:
        f.write("kept")
    with open(os.path.join(base, "outside.txt"), "w") as f:
        f.write("kept")
    return base, out


def user_figure():
    import matplotlib.pyplot as plt
    f = plt.figure()
    plt.plot([0, 1, 4], [5, 6, 7])
    plt.title("mine")
    return f


def run_call(ctx, base, out, r, name, k, what, figs, real=False):
    import matplotlib.pyplot as plt
    args = r.args(k)
    keep = copyargs(args)
    before, cwd = tree(base), sorted(os.listdir("."))
    fig0, cur0 = plt.get_fignums(), (plt.gcf().number if plt.get_fignums() else None)
    pics0 = {n: picture(plt.figure(n)) for n in fig0}
    if cur0 is not None:
        plt.figure(cur0)
    rc = {k: repr(v) for k, v in plt.rcParams.items()}
    saved.clear()
    r.call(out, name, args)
    after = tree(base)
    rel = os.path.relpath(out, base)
    want = {os.path.normpath(os.path.join(rel, f)) for f in r.files(name)}
    ctx.obs(f"{r.name} {name}", sorted(after))
    ctx.check(set(after) == set(before) | want, f"{what}: folder has {sorted(set(after) - set(before))} new, announced {sorted(want)}; lost {sorted(set(before) - set(after))}")
    ctx.check(sorted(os.listdir(".")) == cwd, f"{what}: wrote into the working directory")
    for f in before:
        if f not in want:
            ctx.check(after[f] == before[f], f"{what}: changed the file {f}")
    ctx.check(same(args, keep), f"{what}: changed its input data")
    ctx.check(plt.get_fignums() == fig0, f"{what}: open figures before {fig0}, after {plt.get_fignums()}")
    if cur0 is not None:
        ctx.check(plt.gcf().number == cur0, f"{what}: the user's current figure changed")
    for n in fig0:
        ctx.check(same(picture(plt.figure(n)), pics0[n]), f"{what}: drew into a figure of the user")
    if cur0 is not None:
        plt.figure(cur0)
    ctx.check({k: repr(v) for k, v in plt.rcParams.items()} == rc, f"{what}: changed the global plot settings")
    for f, exp in zip(r.files(name), r.expect(keep, name)):
        ps = [p for path, p in saved if os.path.realpath(path) == os.path.realpath(os.path.join(out, f))]
        ctx.check(len(ps) >= 1, f"{what}: {f} was not printed from a figure")
        check_picture(ctx, ps[-1], exp, f"{what} ({f})")
        if not real:
            ctx.check(after[os.path.normpath(os.path.join(rel, f))].decode() == digest([ps[-1][k] for k in sorted(ps[-1])]), f"{what}: {f} does not hold the figure of the last call")


def h_seq(depth):
    def h(ctx):
        install()
        mode[0] = "stub"
        R = routines()
        seq = [ctx.choose(f"call {i}", range(len(R)), free=True) for i in range(depth)]
        names = ["name"] + [ctx.choose(f"output name {i}", ["name", "other.v1"], free=(depth == 2)) for i in range(1, depth)]
        fig = ctx.choose("user figure", ["none", "open before", "opened in between"], free=True)
        base, out = folder(ctx, ["plain", "with blank", "nested"], False)
        ctx.commit()
        import matplotlib.pyplot as plt
        import shutil
        figs = []
        try:
            if fig == "open before":
                figs.append(user_figure())
            for i, c in enumerate(seq):
                if i == 1 and fig == "opened in between":
                    figs.append(user_figure())
                run_call(ctx, base, out, R[c], names[i], i, f"calls {[R[j].name for j in seq]} names {names}, user figure {fig}: call {i}", figs)
        finally:
            plt.close("all")
            shutil.rmtree(base, ignore_errors=True)
        return tuple(seq), tuple(names), fig
    return h


def h_data(ctx):
    """Layouts of the data to be plotted."""
    install()
    mode[0] = "stub"
    import fastvpinns.utils.plot_utils as p
    which = ctx.choose("routine", ["plot_loss_function", "plot_array", "plot_inverse_test_loss_function", "plot_test_loss_function", "plot_test_time_loss_function",
                                   "plot_multiple_loss_function", "plot_inverse_param_function"], free=True)
    data = ctx.choose("data", ["list", "array", "single value", "integers", "with zeros", "with negatives", "single precision", "tuple", "constant", "1500 values", "10000 values", "60001 values", "tiny", "huge",
                                "diverged", "diverged later", "column", "strided"], free=True)
    ctx.commit()
    base = series(3, 6)
    y = {"list": list(base), "array": base, "single value": [0.5], "integers": [3, 1, 2], "with zeros": [1.0, 0.0, 0.5], "with negatives": [1.0, -2.0, 0.5],
         "1500 values": series(1, 1500), "10000 values": list(series(2, 10000)), "60001 values": series(4, 60001), "tiny": base * 1e-14, "huge": base * 1e15,
         "diverged": [1.0, np.nan, 2.0, np.inf, 3.0], "diverged later": [1.0, 0.5] + [np.nan] * 4, "column": base.reshape(-1, 1), "strided": np.repeat(base, 3)[::3],
         "single precision": base.astype(np.float32), "tuple": tuple(base), "constant": [0.5] * 4}[data]
    x = np.arange(1, len(y) + 1) * 0.25
    d = env.scratch.fresh("data")
    import shutil
    calls = {"plot_loss_function": lambda: p.plot_loss_function(y, d), "plot_array": lambda: p.plot_array(y, d, "f", "t"), "plot_inverse_test_loss_function": lambda: p.plot_inverse_test_loss_function(y, d),
             "plot_test_loss_function": lambda: p.plot_test_loss_function(y, d), "plot_test_time_loss_function": lambda: p.plot_test_time_loss_function(x, y, d),
             "plot_multiple_loss_function": lambda: p.plot_multiple_loss_function([y, [1.0, 2.0]], d, "f", ["a", "b"], "y", "t", x_label="steps"),
             "plot_inverse_param_function": lambda: p.plot_inverse_param_function(y, "eps", 0.4, d, "f")}
    saved.clear()
    keep = np.array(y, copy=True)
    try:
        calls[which]()
        w = line(np.asarray(y, float).ravel(), x if which == "plot_test_time_loss_function" else None)
        ctx.obs(which, w[1][:50])
        ctx.check(len(saved) == (2 if which == "plot_inverse_param_function" else 1), f"{which} with {data}: {len(saved)} figures printed")
        ctx.check(any(len(a) == len(w[0]) and np.allclose(a, w[0]) and np.allclose(b, w[1], rtol=1e-7, atol=0, equal_nan=True) for a, b in saved[0][1]["lines"]),
                  f"{which} with {data}: data {w[1][:20].tolist()} (of {len(w[1])}) not drawn")
        if which == "plot_inverse_param_function":
            ctx.check(any(len(b) == len(w[1]) and np.allclose(b, np.abs(w[1] - 0.4), rtol=1e-6, atol=1e-9, equal_nan=True) for _, b in saved[1][1]["lines"]), f"{which} with {data}: absolute error not drawn")
            ctx.check(any(np.allclose(b, 0.4) for _, b in saved[0][1]["lines"] ), f"{which} with {data}: actual value not drawn")
        ctx.check(np.array_equal(np.asarray(y), keep, equal_nan=True), f"{which} changed its data")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return which, data


def h_many(ctx):
    """Many curves in one figure, many figures in one run, large grids."""
    install()
    mode[0] = "stub"
    import fastvpinns.utils.plot_utils as p
    import matplotlib.pyplot as plt
    import shutil
    case = ctx.choose("case", ["1 curve", "2 curves", "12 curves", "40 curves", "60 figures", "grid 3x200", "grid 150x120", "grid constant", "grid with hole", "grid of large values", "grid of tiny values", "levels"], free=True)
    ctx.commit()
    d = env.scratch.fresh("many")
    saved.clear()
    try:
        with np.errstate(all="ignore"):
            if case.endswith(("curve", "curves")):
                n = int(case.split()[0])
                ys = [series(k, 3 + 5 * k % 17) for k in range(n)]
                p.plot_multiple_loss_function(ys, d, "f", [f"curve no {k}" for k in range(n)], "y", "t")
                check_picture(ctx, saved[0][1], {"lines": [line(y) for y in ys], "texts": [f"curve no {k}" for k in range(n)]}, case)
            elif case == "60 figures":
                for k in range(60):
                    p.plot_loss_function(series(k), d)
                    p.plot_test_loss_function(series(k + 1), d, f"p{k}")
                    check_picture(ctx, saved[-2][1], {"lines": [line(series(k))]}, f"figure {2 * k}")
                    check_picture(ctx, saved[-1][1], {"lines": [line(series(k + 1))]}, f"figure {2 * k + 1}")
                ctx.check(sorted(os.listdir(d)) == sorted(["loss_function.png"] + [f"p{k}_test_loss_function.png" for k in range(60)]), f"{case}: files {sorted(os.listdir(d))}")
            else:
                nx, ny = {"grid 3x200": (3, 200), "grid 150x120": (150, 120)}.get(case, (9, 7))
                X, Y = np.meshgrid(np.linspace(-2, 3, nx), np.linspace(100, 101, ny))
                Z = np.sin(X) * (Y - 100.5)
                if case == "grid constant":
                    Z = Z * 0 + 2.5
                if case == "grid with hole":
                    Z[2:4, 3:5] = np.nan
                Z = Z * {"grid of large values": 3e6, "grid of tiny values": 1e-9}.get(case, 1.0)
                keep = Z.copy()
                p.plot_contour(X, Y, Z, d, "c", "a title")
                pic = saved[0][1]
                ctx.check(len(pic["contour"]) == 1 and "a title" in pic["texts"], f"{case}: {len(pic['contour'])} contour sets, texts {pic['texts']}")
                ctx.check(np.allclose(pic["contour"][0][:2], [np.nanmin(Z), np.nanmax(Z)], rtol=1e-6, atol=0), f"{case}: contours of values in {pic['contour'][0][:2]}, data in {np.nanmin(Z), np.nanmax(Z)}")
                if case not in ("grid with hole", "grid constant"):
                    ctx.check(np.allclose(pic["lim"][0], [-2, 3, 100, 101]), f"{case}: axes cover {pic['lim']}")
                ctx.check(np.array_equal(Z, keep, equal_nan=True), f"{case}: data changed")
        ctx.obs(case, sorted(os.listdir(d))[:20])
        ctx.check(plt.get_fignums() == [], f"{case}: figures left open {plt.get_fignums()}")
    finally:
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    return case


# ------------------------------------------------------------------ mesh plots


def build(kind, out):
    """-> (geometry, space, cells, boundary dict)"""
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.FE.fespace2d import Fespace2D
    if kind.startswith("internal"):
        nx, ny = [int(v) for v in kind.split()[1].split("x")]
        g = Geometry_2D("quadrilateral", "internal", 3, 3, out)
        cells, bd = g.generate_quad_mesh_internal([0, 2], [-1, 1], nx, ny, 12)
    else:
        from mc import meshfile
        path = os.path.join(out, "m.mesh")
        n = 5
        verts = [(i * 0.5, j * 0.25 + 0.02 * i) for j in range(n + 1) for i in range(n + 1)]
        quads = [(j * (n + 1) + i, j * (n + 1) + i + 1, (j + 1) * (n + 1) + i + 1, (j + 1) * (n + 1) + i, 0) for j in range(n) for i in range(n)]
        ring = [i for i in range(n + 1)] + [j * (n + 1) + n for j in range(1, n + 1)] + [n * (n + 1) + i for i in range(n - 1, -1, -1)] + [j * (n + 1) for j in range(n - 1, 0, -1)]
        edges = [(a, b, (k % 20) + 1 if kind == "20 tags" else 7) for k, (a, b) in enumerate(zip(ring, ring[1:] + ring[:1]))]
        meshfile.write(path, verts, quads, edges)
        g = Geometry_2D("quadrilateral", "external", 3, 3, out)
        cells, bd = g.read_mesh(path, boundary_point_refinement_level=2, bd_sampling_method="uniform", refinement_level=0)
        os.remove(path)
    f = {t: (lambda x, y: x + y) for t in bd}
    s = Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bd, cell_type=g.mesh_type, fe_order=2, fe_type="legendre", quad_order=3, quad_type="gauss-legendre",
                  fe_transformation_type="bilinear", bound_function_dict=f, bound_condition_dict={t: "dirichlet" for t in bd}, forcing_function=lambda x, y: x,
                  output_path=out, generate_mesh_plot=False)
    return g, s, cells, bd


_built = {}


def rows(a):
    return sorted(tuple(np.round(r, 9)) for r in np.asarray(a, float).reshape(-1, 2))


def ring_of(xy):
    """Vertices of a closed polygon, independent of start and direction."""
    p = [tuple(np.round(r, 9)) for r in xy]
    if len(p) > 1 and p[0] == p[-1]:
        p = p[:-1]
    return min(tuple(q[i:] + q[:i]) for q in (p, p[::-1]) for i in range(len(q)))


LOSS = {"increasing": lambda n: np.arange(n) + 1.0, "equal": lambda n: np.ones(n), "mixed": lambda n: np.round(np.cos(2.3 * np.arange(n)), 3)}


def h_mesh(depth):
    kinds = ["internal 3x2", "internal 1x1", "one tag", "20 tags"] + (["internal 12x11"] if depth == 1 else [])
    ops = [("space", k) for k in kinds] + [("residual", v) for v in LOSS] + ([("residual 12x11", v) for v in LOSS] if depth == 1 else [])

    def h(ctx):
        install()
        mode[0] = "stub"
        seq = [ctx.choose(f"call {i}", ops, free=True) for i in range(depth)]
        ctx.commit()
        import matplotlib.pyplot as plt
        import shutil
        base = env.scratch.fresh("meshplots")
        try:
            for i, (op, arg) in enumerate(seq):
                k = arg if op == "space" else "internal 12x11" if "12" in op else "internal 3x2"
                if k not in _built:
                    d = env.scratch.fresh("mesh")
                    _built[k] = build(k, d)
                g, s, cells, bd = _built[k]
                cells0, bd0 = np.array(cells, copy=True), {t: np.array(p, copy=True) for t, p in bd.items()}
                before = tree(base)
                saved.clear()
                what = f"calls {seq}: call {i} ({op} {arg})"
                if op == "space":
                    out = os.path.join(base, k.replace(" ", "_"))
                    os.makedirs(out, exist_ok=True)
                    s.generate_plot(out)
                    want = {os.path.relpath(os.path.join(out, f), base) for f in ("mesh.png", "mesh.svg")}
                else:
                    loss = LOSS[arg](len(cells))
                    keep = loss.copy()
                    g.output_folder = base
                    fn = {} if arg == "increasing" else {"filename": "res"}
                    g.plot_adaptive_mesh(cells, loss, 10 + i, **fn)
                    want = {f"{fn.get('filename', 'cell_residual')}_{10 + i}.png"}
                    ctx.check(np.array_equal(loss, keep), f"{what}: residuals changed")
                after = tree(base)
                ctx.obs(op, sorted(after))
                ctx.check(set(after) == set(before) | want, f"{what}: new files {sorted(set(after) - set(before))}, announced {sorted(want)}")
                ctx.check(all(after[f] == before[f] for f in before if f not in want), f"{what}: another file was changed")
                ctx.check(np.array_equal(cells, cells0) and set(bd) == set(bd0) and all(np.array_equal(bd[t], bd0[t]) for t in bd), f"{what}: mesh data were changed")
                for path, pic in saved:
                    outlines = {ring_of(np.column_stack(ln)) for ln in pic["lines"] if len(ln[0]) == 5}
                    wanted = {ring_of(c) for c in np.asarray(cells, float)}
                    ctx.check(outlines == wanted, f"{what}: outlines of {len(outlines)} cells drawn in {os.path.basename(path)}, {len(outlines & wanted)} of the mesh's {len(wanted)}")
                    if op == "space":
                        pts = {tuple(r) for p in pic["points"] for r in np.round(p, 9)}
                        quad = {tuple(r) for c in range(s.n_cells) for r in np.round(s.get_quadrature_actual_coordinates(c), 9)}
                        bpts = {tuple(r) for p in bd0.values() for r in np.round(np.asarray(p)[:, :2], 9)}
                        ctx.check(pts == quad | bpts, f"{what}: {len(pts - quad - bpts)} foreign points drawn, {len((quad | bpts) - pts)} quadrature or boundary points missing")
                        for t in bd0:
                            ctx.check(any(str(t) in x for x in pic["texts"]), f"{what}: tag {t} is not in the legend")
                    else:
                        col = {ring_of(xy): c for xy, c in pic["polygons"]}
                        ctx.check(set(col) == wanted, f"{what}: {len(col)} cells filled instead of {len(wanted)}")
                        cs = [col[ring_of(c)] for c in np.asarray(cells, float)]
                        for a in range(len(cs)):
                            for b in range(a):
                                if loss[a] != loss[b] and abs(loss[a] - loss[b]) <= 0.03 * np.ptp(loss):
                                    continue  # the colour map has finitely many colours
                                ctx.check((cs[a] == cs[b]) == (loss[a] == loss[b]), f"{what}: colours of cells {b} and {a} do not tell residuals {loss[b]} and {loss[a]} apart")
                plt.close("all")
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return tuple(seq)
    return h


def h_real(ctx):
    """The files are really images."""
    install()
    R = routines()
    c = ctx.choose("routine", list(range(len(R))) + ["space", "residual"], free=True)
    ctx.commit()
    mode[0] = "real"
    import matplotlib.pyplot as plt
    import shutil
    base, out = env.scratch.fresh("real"), None
    try:
        if isinstance(c, int):
            run_call(ctx, base, base, R[c], "real name", 0, R[c].name, [], real=True)
        else:
            g, s, cells, _ = build("internal 3x2", base)
            for f in os.listdir(base):
                os.remove(os.path.join(base, f))
            g.output_folder = base
            s.generate_plot(base) if c == "space" else g.plot_adaptive_mesh(cells, LOSS["mixed"](len(cells)), 3)
        t = tree(base)
        ctx.check(len(t) >= 1, f"{c}: no file")
        for f, data in t.items():
            ok = data[:8] == b"\x89PNG\r\n\x1a\n" and data[-8:-4] == b"IEND" if f.endswith(".png") else b"<svg" in data and b"</svg>" in data
            ctx.check(ok, f"{c}: {f} is not a complete image")
        ctx.obs(str(c), sorted(t))
    finally:
        mode[0] = "stub"
        plt.close("all")
        shutil.rmtree(base, ignore_errors=True)
    return str(c)


def harnesses(tier):
    d = 2 if tier == "quick" else 3
    return [("sequences of utility plots", h_seq(d), 0 if tier == "quick" else 1), ("folders and names", h_seq(1), None), ("data layouts", h_data, None), ("many curves", h_many, None), ("mesh plots", h_mesh(2 if tier == "quick" else 3), None), ("larger mesh plots", h_mesh(1), None), ("rendered", h_real, None)]

"""C05: every history of per-cell queries and in-place changes of their results."""
import numpy as np

from mc import build, ref

BOUNDS = {"quick": "2 cells, 8 scalar / 8 vector query kinds, each result left alone or overwritten: all sequences of 2 followed "
                   "by an audit of every query (effective depth 3+16); all invalid indices before/after; 2 spaces interleaved; meshes of 9..130 distinct cells and cells of 1089 points, every answer overwritten and asked for again",
          "thorough": "all sequences of 3 followed by the audit; 3 cells"}
ASSUMPTIONS = ["absolute correctness of the baseline is decided by C04/C06; here the baseline is additionally compared with the "
               "reference tables once per process"]
SHARDS = {"quick": 8, "thorough": 8}

KINDS = {
    "val": lambda f, c: f.get_shape_function_val(c),
    "gx": lambda f, c: f.get_shape_function_grad_x(c),
    "gy": lambda f, c: f.get_shape_function_grad_y(c),
    "gxref": lambda f, c: f.get_shape_function_grad_x_ref(c),
    "gyref": lambda f, c: f.get_shape_function_grad_y_ref(c),
    "coord": lambda f, c: f.get_quadrature_actual_coordinates(c),
    "weight": lambda f, c: f.get_quadrature_weights(c),
}
SCALAR = dict(KINDS, force=lambda f, c: f.get_forcing_function_values(c))
VECTOR = dict(KINDS, force0=lambda f, c: f.get_forcing_function_values_vector(c, 0),
              force1=lambda f, c: f.get_forcing_function_values_vector(c, 1))
NAMES = ["trap", "para", "kite"]


def make(mode, n, shift=0):
    if n > 3:
        from checks.C06 import many
        cells = many(n)
    elif n < 0:
        # two cells with many points and many test functions
        cells = [build.CELLS[k] for k in NAMES[:2]]
        f = (lambda x, y: 1 + 2 * x - y * x) if mode == "scalar" else (lambda x, y: (1 + x * y, y - 3 * x))
        return build.space(cells, {-1: 2, -2: 5}[n], "legendre", {-1: 33, -2: 22}[n], "gauss-legendre", "bilinear", forcing=f), cells
    else:
        cells = [build.CELLS[k] for k in (NAMES[shift:] + NAMES[:shift])[:n]]
    f = (lambda x, y: 1 + 2 * x - y * x) if mode == "scalar" else (lambda x, y: (1 + x * y, y - 3 * x))
    return build.space(cells, 2, "legendre", 3, "gauss-legendre", "bilinear", forcing=f), cells


_base = {}


def baseline(ctx, mode, n, shift=0):
    k = (mode, n, shift)
    if k not in _base:
        fs, cells = make(mode, n, shift)
        b = {}
        for c, cell in enumerate(cells):
            for nm, q in (SCALAR if mode == "scalar" else VECTOR).items():
                b[nm, c] = np.array(q(fs, c), dtype=float, copy=True)
            R = ref.RefMap(np.array(cell))
            xi, eta = R.inv(b["coord", c])
            v, vx, vy = ref.basis_table("legendre", 5 if n == -2 else 2, xi, eta)[:3]
            px, py = R.phys_grad(vx, vy, xi, eta)
            w = b["weight", c].reshape(-1)
            x, y = b["coord", c].T
            for nm, want in (("val", v * w), ("gx", px * w), ("gy", py * w), ("gxref", vx), ("gyref", vy)):
                ctx.close(b[nm, c], want, f"fresh space: {nm} of cell {c}", tol=1e-9)
            fsrc = {"force": 1 + 2 * x - y * x, "force0": 1 + x * y, "force1": y - 3 * x}
            for nm in fsrc:
                if (nm, c) in b:
                    ctx.close(b[nm, c], ((v * w) @ fsrc[nm])[:, None], f"fresh space: {nm} of cell {c}", tol=1e-9)
        _base[k] = b
    return _base[k]


def same(ctx, got, want, what):
    ctx.close(got, want, what, tol=1e-13)


def h_hist(n, depth):
    def h(ctx):
        mode = ctx.choose("source", ["scalar", "vector"])
        Q = SCALAR if mode == "scalar" else VECTOR
        ops = [(k, c) for k in Q for c in range(n)]
        hist = [(ctx.choose(f"query {i}", ops), ctx.choose(f"then overwrite result {i}", [True, False])) for i in range(depth)]
        ctx.commit()
        base = baseline(ctx, mode, n)
        fs, _ = make(mode, n)
        held = []
        for (k, c), scribble in hist:
            r = Q[k](fs, c)
            same(ctx, r, base[k, c], f"query {k} of cell {c} after {hist}")
            ctx.obs((k, c, scribble), r)
            if scribble:
                r[...] = -7.5
            else:
                held.append((r, k, c))
        for (k, c) in ops:
            same(ctx, Q[k](fs, c), base[k, c], f"audit: query {k} of cell {c} after {hist}")
        for r, k, c in held:
            same(ctx, r, base[k, c], f"an earlier answer ({k}, cell {c}) changed after {hist}")
        return mode, len(held)
    return h


def h_bounds(counts):
    def h(ctx):
        mode = ctx.choose("source", ["scalar", "vector"])
        n = ctx.choose("cells", counts)
        Q = SCALAR if mode == "scalar" else VECTOR
        k = ctx.choose("query", list(Q))
        first = ctx.choose("first", ["invalid", "valid"])
        ctx.commit()
        base = baseline(ctx, mode, n)
        fs, _ = make(mode, n)
        bad = [-1, -2, -n, -n - 1, n, n + 1, 10 * n + 7, 10**9, np.int64(n), np.int64(-1)]
        for rnd in (0, 1):
            if (first == "invalid") == (rnd == 0):
                for i in bad:
                    ctx.raises(ValueError, lambda: Q[k](fs, i), f"query {k} of cell {i} in a space of {n} cells")
            else:
                for i in range(n):
                    same(ctx, Q[k](fs, i), base[k, i], f"query {k} of cell {i}")
                    same(ctx, Q[k](fs, np.int64(i)), base[k, i], f"query {k} of cell np.int64({i})")
            ctx.obs((k, n, rnd), rnd)
        return mode, n, k
    return h


def h_many(counts):
    """Longer meshes: every cell queried, every answer overwritten, all of it queried again in another order."""
    def h(ctx):
        mode = ctx.choose("source", ["scalar", "vector"])
        n = ctx.choose("cells", counts)
        Q = SCALAR if mode == "scalar" else VECTOR
        k = ctx.choose("query", list(Q) + ["all"])
        step = ctx.choose("second pass in steps of", [1, -1, 7])
        ctx.commit()
        base = baseline(ctx, mode, n)
        fs, cells = make(mode, n)
        n = len(cells)
        ks = list(Q) if k == "all" else [k]
        st = next(d for d in (abs(step), 5, 3, 11, 1) if d == 1 or n % d)
        for ps in (range(n), [(st * i) % n for i in range(n)][::1 if step > 0 else -1]):
            for c in ps:
                for q in ks:
                    r = Q[q](fs, c)
                    same(ctx, r, base[q, c], f"query {q} of cell {c} of {n}")
                    r[...] = 123.0
        for c in (0, n // 2, n - 1):
            for q in Q:
                same(ctx, Q[q](fs, c), base[q, c], f"audit: query {q} of cell {c} of {n} after overwriting every answer of {k}")
        for i in (-1, n, -n):
            ctx.raises(ValueError, lambda: Q[ks[0]](fs, i), f"query {ks[0]} of cell {i} in a space of {n} cells")
        ctx.obs((mode, n, k, step), n)
        return mode, n, k, step
    return h


def h_two(n):
    """Two spaces alive at once; results of one overwritten while the other is queried."""
    def h(ctx):
        ma = ctx.choose("space A", ["scalar", "vector"])
        mb = ctx.choose("space B", ["scalar", "vector"])
        QA, QB = (SCALAR if m == "scalar" else VECTOR for m in (ma, mb))
        a = ctx.choose("query A", [(k, c) for k in QA for c in range(n)])
        b = ctx.choose("query B", [(k, c) for k in QB for c in range(n)])
        ctx.commit()
        A, B = baseline(ctx, ma, n), baseline(ctx, mb, n, 1)
        fa, _ = make(ma, n)
        fb, _ = make(mb, n, 1)
        r = QA[a[0]](fa, a[1])
        same(ctx, r, A[a], f"space A {a}")
        r[...] = 99.0
        s = QB[b[0]](fb, b[1])
        ctx.obs((a, b), s)
        same(ctx, s, B[b], f"space B {b} after overwriting {a} of A")
        s[...] = 11.0
        same(ctx, QA[a[0]](fa, a[1]), A[a], f"space A {a} again")
        same(ctx, QB[b[0]](fb, b[1]), B[b], f"space B {b} again")
        return ma, mb
    return h


def harnesses(tier):
    if tier == "quick":
        return [("histories", h_hist(2, 2), None), ("bounds", h_bounds([1, 2, 3, 10, 70]), None), ("two spaces", h_two(2), 2),
                ("many cells", h_many([33, 130, 9, -1, -2]), 2)]
    return [("histories", h_hist(2, 3), None), ("histories, 3 cells", h_hist(3, 2), None),
            ("bounds", h_bounds([1, 2, 3, 10, 70, 260]), None), ("two spaces", h_two(3), None),
            ("many cells", h_many([33, 130, 9, -1, -2, 16, 65, 257, 1030]), None)]

"""C15: stacked training tensors."""
import itertools

import numpy as np

from mc import build, ref

BOUNDS = {"quick": "all ordered meshes of 1..3 distinct cells out of 4 (and one 7-cell mesh) x 5 (order, quad) pairs incl. n_test == n_quad x "
                   "2 precisions x 2 maps; all ordered pairs of handlers over 6 configurations, queried in both orders, results of the space overwritten or not; meshes of 4..101 distinct cells x 4 orders and one of 1030 cells, also equal-area, micro and very large cells",
          "thorough": "all ordered meshes of 1..4 cells out of 6; pairs over 12 configurations"}
ASSUMPTIONS = ["the reference tables are those of C02/C04, evaluated at the delivered coordinates", "1e-9 / 2e-6 relative tolerance for float64 / float32 (tables), 3e-13 / 4e-7 (coordinates)"]
SHARDS = {"quick": 6, "thorough": 8}

DISC = [(2, 3), (3, 3), (4, 4), (3, 4), (2, 5), (4, 3), (6, 4)]
SRC = lambda x, y: 1.0 + 2 * x - y + 0.5 * x * y


def judge(ctx, dh, cells, order, qo, dt, src, what, kind="legendre"):
    import tensorflow as tf
    n, nq, nt = len(cells), qo * qo, order * order
    T = {"x_pde": dh.x_pde_list, "val": dh.shape_val_mat_list, "gx": dh.grad_x_mat_list, "gy": dh.grad_y_mat_list, "f": dh.forcing_function_list}
    want = {"x_pde": (n * nq, 2), "val": (n, nt, nq), "gx": (n, nt, nq), "gy": (n, nt, nq), "f": (nt, n)}
    for k, v in T.items():
        ctx.check(tuple(v.shape) == want[k], f"{what}: tensor {k} has shape {tuple(v.shape)}, expected {want[k]}")
        ctx.check(v.dtype == dt, f"{what}: tensor {k} is {v.dtype}, requested {dt}")
    A = {k: np.asarray(v, dtype=np.float64) for k, v in T.items()}
    ctx.obs(what[:8], (A["x_pde"], A["val"], A["f"]))
    tol = 1e-9 if dt == tf.float64 else 5e-6
    ts, ws = (np.polynomial.legendre.leggauss(qo))
    for c, cell in enumerate(cells):
        R = ref.RefMap(np.array(cell))
        p = A["x_pde"][c * nq:(c + 1) * nq]
        xi, eta = R.inv(p)
        h = np.abs(np.array(cell)).max()
        # every Gauss point exactly once, in whatever order
        gi = [np.argmin(np.abs(ts - a)) for a in xi]
        gj = [np.argmin(np.abs(ts - a)) for a in eta]
        size = np.abs(np.array(cell) - np.array(cell).mean(0)).max()
        dev = max(np.abs(ts[gi] - xi).max(), np.abs(ts[gj] - eta).max())
        ctx.check(dev < 1e3 * tol * max(1, h / size) and len(set(zip(gi, gj))) == nq,
                  f"{what}: rows {c*nq}..{(c+1)*nq-1} of the coordinates are not the quadrature points of cell {c}")
        xi, eta = ts[gi], ts[gj]
        w = ws[gi] * ws[gj] * np.abs(R.det(xi, eta))
        v, vx, vy = ref.basis_table(kind, order, xi, eta)[:3]
        px, py = R.phys_grad(vx, vy, xi, eta)
        for k, tab in (("val", v * w), ("gx", px * w), ("gy", py * w)):
            s = max(1e-300, float(np.abs(tab).max()))
            ctx.close(A[k][c] / s, tab / s, f"{what}: block {c} of {k}", tol=10 * tol)
        q = R.fwd(xi, eta)
        eps = 3e-13 if dt == tf.float64 else 4e-7
        ctx.check(np.abs(p - q).max() <= eps * max(h, size), lambda: f"{what}: coordinates of cell {c} are off by {np.abs(p - q).max():.1e}")
        fv = (v * w) @ np.broadcast_to(src(q[:, 0], q[:, 1]), w.shape)
        s = max(np.abs(v * w).max(), np.abs(fv).max())
        ctx.close(A["f"][:, c] / s, fv / s, f"{what}: load column {c}", tol=100 * tol)


def mk(names, order, qo, dt, transform="bilinear", src=SRC):
    from fastvpinns.data.datahandler2d import DataHandler2D
    cells = [build.CELLS_ALL[n] for n in names]
    fs = build.space(cells, order, "legendre", qo, "gauss-legendre", transform, forcing=src)
    return fs, DataHandler2D(fs, None, dt), cells


XTRA = [("wide", "high"), ("wide2", "diamond", "high"), ("micro", "unit"), ("micro2",), ("unit", "micro2", "mega"), ("far", "trap"), ("high", "high", "wide"), ("unit", "rhombus", "rhombus2"), ("sym", "half", "turned"), ("symtrap", "sym"), ("unit", "unit")]


def h_mesh(pool, maxn):
    combos = [c for r in range(1, maxn + 1) for c in itertools.permutations(pool, r)] + [tuple(pool) + tuple(pool[:3])] + XTRA

    def h(ctx):
        import tensorflow as tf
        names = ctx.choose("cells", combos, free=True)
        order, qo = ctx.choose("order, quad order", DISC, free=True)
        dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
        tr = ctx.choose("map", ["bilinear", "affine"])
        if tr == "affine" and any(n not in build.AFFINE_ALL for n in names):
            from mc.explorer import Skip
            raise Skip()
        ctx.commit()
        fs, dh, cells = mk(names, order, qo, dt, tr)
        judge(ctx, dh, cells, order, qo, dt, SRC, f"{names} order {order} quad {qo} {dt.name}")
        ctx.check(dh.fespace is fs, "handler's space")
        return names, order, qo, dt.name
    return h


CONF = [(("trap",), 2, 3, 64), (("para", "trap"), 2, 3, 32), (("kite", "para"), 3, 3, 64), (("trap", "para"), 2, 3, 64), (("para",), 3, 4, 32),
        (("kite", "trap"), 2, 3, 64), (("rect", "unit", "trap"), 2, 3, 64), (("unit",), 2, 3, 64), (("rect",), 2, 3, 32), (("trap", "para"), 3, 3, 32),
        (("kite",), 4, 4, 64), (("para", "kite"), 2, 5, 64)]


def h_pair(m):
    def h(ctx):
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        a = ctx.choose("first", CONF[:m], free=True)
        b = ctx.choose("second", CONF[:m], free=True)
        shared = ctx.choose("spaces", ["own", "one space, two handlers"], free=True)
        scrib = ctx.choose("space queried and overwritten in between", [False, True], free=True)
        ctx.commit()
        D = {32: tf.float32, 64: tf.float64}
        src2 = SRC if shared != "own" else (lambda x, y: 3.0 - x * x + 0 * y)
        fa, ha, ca = mk(*a[:3], D[a[3]])
        if scrib:
            for q in ("get_shape_function_val", "get_shape_function_grad_x", "get_quadrature_actual_coordinates", "get_forcing_function_values"):
                getattr(fa, q)(0)[...] = 1e9
        if shared == "own":
            fb, hb, cb = mk(*b[:3], D[b[3]], src=src2)
        else:
            hb, cb = DataHandler2D(fa, None, D[b[3]]), ca
            b = a[:3] + (b[3],)
        judge(ctx, hb, cb, b[1], b[2], D[b[3]], src2, f"second handler {b} beside {a}")
        judge(ctx, ha, ca, a[1], a[2], D[a[3]], SRC, f"first handler {a} beside {b}")
        return a, b, shared, scrib
    return h


def h_many(counts, discs):
    """Longer meshes, including those whose cell count equals the number of points or test functions."""
    def h(ctx):
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        from checks.C06 import many
        n = ctx.choose("cells", counts, free=True)
        order, qo = ctx.choose("order, quad order", discs, free=True)
        kind = ctx.choose("family", ref.BASES)
        dt = ctx.choose("precision", [tf.float64, tf.float32])
        ctx.commit()
        cells = many(n)
        fs = build.space(cells, order, kind, qo, "gauss-legendre", "bilinear", forcing=SRC)
        judge(ctx, DataHandler2D(fs, None, dt), cells, order, qo, dt, SRC, f"{n} cells {kind}{order} quad {qo} {dt.name}", kind)
        return n, order, qo, kind, dt.name
    return h


def harnesses(tier):
    if tier == "quick":
        m = h_many([4, 9, 16, 25, 40, 101], [(2, 3), (3, 4), (4, 5), (5, 7)])
    else:
        m = h_many([4, 8, 9, 10, 16, 17, 25, 33, 36, 49, 65, 101, 130, 257], [(2, 3), (3, 3), (3, 4), (4, 5), (5, 6), (6, 8), (7, 9)])
    return harnesses_(tier) + [("many cells", m, 1), ("very many cells", h_many([1030], [(2, 3)]), 0), ("many points", h_many([1, 3], [(2, 11), (7, 12), (11, 12)] if tier == "quick" else [(2, 11), (7, 12), (11, 12), (12, 11), (5, 20), (16, 17)]), 1 if tier == "quick" else 2)]


def harnesses_(tier):
    if tier == "quick":
        return [("meshes", h_mesh(("trap", "para", "unit", "rect"), 3), 1), ("pairs", h_pair(6), None)]
    return [("meshes", h_mesh(("trap", "para", "kite", "rect", "unit", "tiny"), 4), 1), ("pairs", h_pair(12), None)]

"""C18: PDE losses, entry by entry."""
import itertools

import numpy as np

from checks import tiny

BOUNDS = {"quick": "6 losses x sizes (1..3 cells, 1..3 test functions, 1..4 points) x every pair (test-table entry, prediction entry) and every "
                   "load entry of those sizes as one-hot tensors with distinguishable values, plus generic dense tensors; 9 coefficient sets; "
                   "all sequences of 3 calls over 6 (loss inputs, coefficients, shapes, precision) settings per loss; 8 larger dense tensor shapes (up to 65 cells, 144 functions, 400 points) x 7 magnitudes; one entry not a number",
          "thorough": "sizes to 4x4x5; sequences of 4"}
ASSUMPTIONS = ["the residual is bilinear in (test tables, predictions) and affine in the load, which the dense tensors confirm"]
SHARDS = {"quick": 8, "thorough": 8}

LOSSES = ["poisson", "helmholtz", "cd2d", "poisson_inv", "cd2d_inv", "cd2d_dom"]
COEF = [dict(eps=1.25, b_x=0.75, b_y=-0.5, c=2.0, k=1.5), dict(eps=-2.0, b_x=0.0, b_y=3.0, c=-1.0, k=-0.5), dict(eps=0.0, b_x=0.0, b_y=0.0, c=1.0, k=2.0),
        dict(eps=1.0, b_x=1.0, b_y=0.0, c=0.0, k=0.0), dict(eps=1.0, b_x=0.0, b_y=1.0, c=0.0, k=1.0), dict(eps=3.0, b_x=0.25, b_y=-8.0, c=0.5, k=0.25),
        dict(eps=1e-6, b_x=1e3, b_y=-1e3, c=1e-2, k=30.0), dict(eps=2e4, b_x=-1e5, b_y=3e5, c=7e4, k=450.0),
        dict(eps=-1e-8, b_x=1e-7, b_y=2e-7, c=-3e-8, k=1e-4)]


def reference(loss, T, C, co):
    """Loops only."""
    nc, nt, nq = T["val"].shape
    out = np.zeros(nc)
    for c in range(nc):
        s = 0.0
        for t in range(nt):
            R = 0.0
            for q in range(nq):
                u, ux, uy = T["u"][c, q], T["ux"][c, q], T["uy"][c, q]
                v, vx, vy = T["val"][c, t, q], T["gx"][c, t, q], T["gy"][c, t, q]
                a = vx * ux + vy * uy
                if loss in ("poisson", "poisson_inv"):
                    R += C["eps"] * a
                elif loss == "helmholtz":
                    R += -C["eps"] * a + C["k"] ** 2 * v * u
                else:
                    e = co[c, q] if loss == "cd2d_dom" else C["eps"]
                    R += e * a + (C["b_x"] * ux + C["b_y"] * uy) * v + C["c"] * u * v
            R -= T["f"][t, c]
            s += R * R
        out[c] = s / nt
    return out


def call(loss, T, C, co, dt):
    import tensorflow as tf
    K = lambda a: tf.constant(a, dtype=dt)
    kw = dict(test_shape_val_mat=K(T["val"]), test_grad_x_mat=K(T["gx"]), test_grad_y_mat=K(T["gy"]), pred_nn=K(T["u"]),
              pred_grad_x_nn=K(T["ux"]), pred_grad_y_nn=K(T["uy"]), forcing_function=K(T["f"]),
              bilinear_params={k: K(C[k]) for k in tiny.need(loss)})
    if loss.endswith("_inv"):
        kw["inverse_params_dict"] = {"eps": tf.Variable(C["eps"], dtype=dt)}
    if loss.endswith("_dom"):
        kw["inverse_params_list"] = [K(co)]
    before = {k: np.array(v) for k, v in kw.items() if hasattr(v, "numpy")}
    r = tiny.loss_fn(loss)(**kw)
    assert all(np.array_equal(before[k], np.asarray(kw[k]), equal_nan=True) for k in before)
    return r


def dense(nc, nt, nq, k=0):
    g = lambda shape, j: np.round(np.modf((np.arange(1, np.prod(shape) + 1) * 0.6180339887 + 0.3 * j + 0.11 * k) * (1 + 0.1 * j))[0] * 2 - 1, 5).reshape(shape)
    return {"val": g((nc, nt, nq), 1), "gx": g((nc, nt, nq), 2), "gy": g((nc, nt, nq), 3), "u": g((nc, nq), 4), "ux": g((nc, nq), 5), "uy": g((nc, nq), 6),
            "f": g((nt, nc), 7)}, 1.5 + g((nc, nq), 8)


def zero(nc, nt, nq):
    T, co = dense(nc, nt, nq)
    return {k: np.zeros_like(v) for k, v in T.items()}, co


def judge(ctx, r, want, dt, what):
    import tensorflow as tf
    ctx.check(r.dtype == dt, f"{what}: loss is {r.dtype}, inputs are {dt}")
    a = np.asarray(r, float)
    ctx.check(a.shape == want.shape, f"{what}: loss has shape {a.shape}, expected one entry per cell {want.shape}")
    s = max(1e-300, np.abs(want).max())
    tol = 1e-11 if dt == tf.float64 else 5e-5
    ctx.close(a / s, want / s, what, tol=tol)
    ctx.obs(what[:8], a)


def h_entries(sizes):
    """All entry positions of one size, all of them in one execution per (loss, size, coefficient set)."""
    def h(ctx):
        import tensorflow as tf
        loss = ctx.choose("loss", LOSSES, free=True)
        nc, nt, nq = ctx.choose("cells, tests, points", sizes, free=True)
        ci = ctx.choose("coefficients", range(len(COEF)))
        dt = ctx.choose("precision", [tf.float64, tf.float32])
        ctx.commit()
        C = COEF[ci]
        Td, co = dense(nc, nt, nq)
        Td, co = ({k: v.astype(dt.as_numpy_dtype).astype(float) for k, v in Td.items()}, co.astype(dt.as_numpy_dtype).astype(float))
        C32 = {k: float(np.array(v, dt.as_numpy_dtype)) for k, v in C.items()}
        judge(ctx, call(loss, Td, C, co, dt), reference(loss, Td, C32, co), dt, f"{loss} {nc}x{nt}x{nq} {C} dense")
        # one-hot load
        for t, c in itertools.product(range(nt), range(nc)):
            T, _ = zero(nc, nt, nq)
            T["f"][t, c] = 2.0
            want = np.zeros(nc)
            want[c] = 4.0 / nt
            judge(ctx, call(loss, T, C, co, dt), want, dt, f"{loss} {nc}x{nt}x{nq}: unit load of test function {t} in cell {c}")
        # a test-table entry against a prediction entry, same and different cell/point
        term = {"gx": "ux", "gy": "uy"}
        for A, B in itertools.product(("val", "gx", "gy"), ("u", "ux", "uy")):
            for (c, t, q) in itertools.product(range(nc), range(nt), range(nq)):
                T, _ = zero(nc, nt, nq)
                T[A][c, t, q] = 2.0
                T[B][:, :] = np.arange(1, nc * nq + 1).reshape(nc, nq)
                want = reference(loss, T, C32, co)
                a = np.asarray(call(loss, T, C, co, dt), float)
                s = max(1.0, np.abs(want).max())
                ctx.close(a / s, want / s, f"{loss} {nc}x{nt}x{nq} {C}: {A}[{c},{t},{q}] against {B}", tol=1e-11 if dt == tf.float64 else 5e-5)
        return loss, nc, nt, nq, ci
    return h


def h_big(sizes):
    """Larger tensors (also with coinciding dimensions) and values of any magnitude."""
    def h(ctx):
        import tensorflow as tf
        loss = ctx.choose("loss", LOSSES, free=True)
        size = ctx.choose("cells, tests, points", sizes, free=True)
        dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
        ci = ctx.choose("coefficients", range(len(COEF)))
        mag = ctx.choose("magnitude of (tables, predictions, load)", [(1, 1, 1), (1e-9, 1, 1e-9), (1, 1e-7, 1e-7), (1e6, 1e3, 1e9), (1, 1, 0), (0, 1, 1), (1e-3, 1e-3, 1)])
        ctx.commit()
        T, co = dense(*size, k=ci)
        f = lambda a: np.asarray(a, dt.as_numpy_dtype).astype(float)
        T = {k: f(v * mag[0 if k in ("val", "gx", "gy") else 2 if k == "f" else 1]) for k, v in T.items()}
        co = f(co)
        C = {k: float(f(v)) for k, v in COEF[ci].items()}
        judge(ctx, call(loss, T, COEF[ci], co, dt), reference(loss, T, C, co), dt, f"{loss} {size} {C} magnitudes {mag}")
        return loss, size, dt.name, ci, mag
    return h


def h_diverged(sizes):
    """An entry that is not a number makes the loss of its own cell not a number, and of no other."""
    def h(ctx):
        import tensorflow as tf
        loss = ctx.choose("loss", LOSSES, free=True)
        size = ctx.choose("cells, tests, points", sizes, free=True)
        where = ctx.choose("entry of", ["u", "ux", "uy", "f", "val", "gx", "gy"], free=True)
        bad = ctx.choose("entry", [np.nan, np.inf, -np.inf], free=True)
        dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
        ctx.commit()
        T, co = dense(*size)
        f = lambda a: np.asarray(a, dt.as_numpy_dtype).astype(float)
        T, co = {k: f(v) for k, v in T.items()}, f(co)
        C = {k: float(f(v)) for k, v in COEF[0].items()}
        want = reference(loss, T, C, co)
        if not (loss.startswith("poisson") and where in ("u", "val")):  # the Poisson forms do not read these
            for c in range(size[0]):
                t, q = (2 * c) % size[1], (3 * c + 1) % size[2]
                S = {k: v.copy() for k, v in T.items()}
                if where == "f":
                    S["f"][t, c] = bad
                elif where in ("u", "ux", "uy"):
                    S[where][c, q] = bad
                else:
                    S[where][c, t, q] = bad
                r = np.asarray(call(loss, S, COEF[0], co, dt), float)
                what = f"{loss} {size} {dt.name}: {where} of cell {c} has an entry {bad}"
                ctx.check(r.shape == want.shape and not np.isfinite(r[c]), f"{what}: loss of the cell is {r.reshape(-1)[c]!r}")
                o = [k for k in range(size[0]) if k != c]
                ctx.close(r[o], want[o], f"{what}: loss of the other cells", 1e-11 if dt == tf.float64 else 5e-5)
        ctx.obs(loss, where)
        return loss, size, where, str(bad), dt.name
    return h


def h_seq(depth):
    S = [((2, 3, 4), 0, 64), ((2, 3, 4), 1, 64), ((1, 3, 4), 5, 64), ((2, 3, 4), 0, 32), ((3, 2, 2), 3, 64), ((2, 3, 4), 6, 64)]

    def h(ctx):
        import tensorflow as tf
        loss = ctx.choose("loss", LOSSES, free=True)
        seq = [ctx.choose(f"call {i}", range(len(S)), free=True) for i in range(depth)]
        ctx.commit()
        for n, k in enumerate(seq):
            size, ci, bits = S[k]
            dt = tf.float64 if bits == 64 else tf.float32
            T, co = dense(*size, k=n)
            f = lambda a: np.asarray(a, dt.as_numpy_dtype).astype(float)
            T, co = {k_: f(v) for k_, v in T.items()}, f(co)
            C = {k_: float(f(v)) for k_, v in COEF[ci].items()}
            judge(ctx, call(loss, T, COEF[ci], co, dt), reference(loss, T, C, co), dt, f"{loss} call {n} of {[S[j] for j in seq]}")
        return loss, tuple(seq)
    return h


BIG = [(12, 9, 16), (9, 9, 9), (4, 16, 4), (65, 2, 3), (1, 36, 49), (2, 1, 400), (3, 100, 5), (2, 144, 9), (130, 4, 9), (16, 4, 16), (33, 25, 36)]


def harnesses(tier):
    if tier == "quick":
        return [("entries", h_entries([(2, 3, 4), (1, 1, 1), (3, 2, 2), (2, 2, 2), (1, 3, 1), (3, 1, 4), (3, 3, 3)]), 1), ("sequences", h_seq(3), None),
                ("larger", h_big(BIG[:8]), 1), ("diverged", h_diverged([(3, 2, 4), (1, 1, 1)]), None)]
    return [("entries", h_entries(list(itertools.product(range(1, 5), range(1, 5), range(1, 6)))), 1), ("sequences", h_seq(4), None),
            ("larger", h_big(BIG), 2), ("diverged", h_diverged([(3, 2, 4), (1, 1, 1), (9, 4, 9)]), None)]

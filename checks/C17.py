"""C17: sensor data."""
import itertools
import os

import numpy as np

from mc import build, env
from checks.C09 import gen

BOUNDS = {"quick": "internal: counts 1..30 and 6 larger (up to 1000) x 8 domains x 5 solutions x 5 stratum offsets x 3 column orders x direct/handler, 2 "
                   "precisions: <=2 deviations; external: every selection of 3 rows from a 4-row file and of 1..2 rows from 1..5-row files, "
                   "counts up to 50 beyond; all ordered pairs of requests",
          "thorough": "<=4 deviations; selections of 5 rows from 4"}
ASSUMPTIONS = ["row selection of the file sampler is answered through numpy.random.randint; a sampler that does not consult it is judged on its own draws",
               "the picture written beside the data is replaced by a stand-in (C28 covers plots)"]
SHARDS = {"quick": 8, "thorough": 8}
OFF = [0.5, 0.0, 1 - 2.0**-53, 0.25, 0.875]
DOM = [((0, 1), (0, 1)), ((-2, 3), (5, 6)), ((0.1, 0.2), (-7, 9)), ((-1, 1), (-0.125, 0.125)), ((100, 101), (0, 1)), ((-5, -4), (-3, 0)),
       ((0, 1e-3), (0, 1e3)), ((3, 4), (-1, 0))]
SOL = [lambda x, y: 3 * x - 7 * y + x * y, lambda x, y: np.sin(5 * x) * np.cos(0.1 * y), lambda x, y: x + 0 * y, lambda x, y: 10.0 * y + 0 * x,
       lambda x, y: (x - 2 * y) ** 2 + 1]


def stub():
    import matplotlib.pyplot as plt
    plt.savefig = lambda *a, **k: None
    plt.tight_layout = lambda *a, **k: None


def handler(fs, dt):
    from fastvpinns.data.datahandler2d import DataHandler2D
    return DataHandler2D(fs, None, dt)


_sp = {}


def sp(dom, nx, ny):
    k = (dom, nx, ny)
    if k not in _sp:
        g, cells, bd = gen(nx, ny, *dom)
        _sp[k] = build.space(cells, 2, "legendre", 3, mesh=g.mesh, boundary=bd)
    return _sp[k]


def judge_int(ctx, pts, val, n, dom, f, tol, what):
    pts, val = np.asarray(pts, float), np.asarray(val, float)
    ctx.obs(what[:8], (pts, val))
    ctx.check(pts.ndim == 2 and pts.shape[1] == 2, f"{what}: points have shape {pts.shape}")
    ctx.check(pts.shape == (n, 2) and val.reshape(-1).shape == (n,), f"{what}: {pts.shape[0]} points and {val.size} values, requested {n}")
    (a, b), (c, d) = dom
    for k, lo, hi in ((0, a, b), (1, c, d)):
        t = max(abs(lo), abs(hi)) * max(tol, 1e-15)
        ctx.check(pts[:, k].min() >= lo - t and pts[:, k].max() <= hi + t, f"{what}: coordinate {k} leaves [{lo},{hi}]: {pts[:, k].min()!r}..{pts[:, k].max()!r}")
        if n >= 8:
            m = 0.5 * (lo + hi)
            ctx.check((pts[:, k] <= m).any() and (pts[:, k] >= m).any(), f"{what}: coordinate {k} samples only part of [{lo},{hi}]")
    want = f(pts[:, 0], pts[:, 1])
    tol = max(tol, 1e-15)
    dx, dy = (4 * tol * np.maximum(1e-300, np.abs(pts[:, k])) for k in (0, 1))
    var = sum(np.abs(f(pts[:, 0] + i * dx, pts[:, 1] + j * dy) - want) for i in (-1, 1) for j in (-1, 1))
    L = np.maximum(1.0, np.abs(want))
    ctx.check(np.all(np.abs(val.reshape(-1) - want) <= var + max(tol * 4, 1e-13) * L), f"{what}: values are not the exact solution at their own points")


def h_int(counts):
    def h(ctx):
        import tensorflow as tf
        stub()
        n = ctx.choose("count", counts, free=True)
        dom = ctx.choose("domain", DOM)
        nx, ny = ctx.choose("cells", [(2, 3), (1, 1), (4, 1)])
        k = ctx.choose("solution", range(len(SOL)))
        via = ctx.choose("through", ["handler64", "handler32", "space"])
        off = ctx.choose("offset in stratum", OFF)
        rot = ctx.choose("column order", [1, -1, 0])
        ctx.commit()
        env.lhs_offset, env.lhs_rotate = off, rot
        fs = sp(dom, nx, ny)
        what = f"{n} sensors on {dom} through {via}, design {off}/{rot}, solution {k}"
        if via == "space":
            p, v = fs.get_sensor_data(SOL[k], n)
            judge_int(ctx, p, v, n, dom, SOL[k], 1e-15, what)
        else:
            dt = tf.float64 if via.endswith("64") else tf.float32
            dh = handler(fs, dt)
            p, v = dh.get_sensor_data(SOL[k], n, "internal")
            ctx.check(p.dtype == dt and v.dtype == dt, f"{what}: tensors are {p.dtype} {v.dtype}")
            ctx.check(tuple(v.shape) == (p.shape[0], 1), f"{what}: values have shape {tuple(v.shape)}")
            # single precision: compare against the solution with its Lipschitz error
            judge_int(ctx, p, v, n, dom, SOL[k], 1e-15 if dt == tf.float64 else 1e-6, what)
        return n, dom, via
    return h


TABLE = [(0.1, 5.0, -1 / 3), (0.25, -2.0, 7.125), (1e-3, 3.5, 1e6), (-8.0, 0.0, 2 / 7), (4.0, 4.5, 0.0)]


def csv(path, rows, extra):
    with open(path, "w") as f:
        f.write("x,y,u" + (",extra" if extra else "") + "\n")
        for r in rows:
            f.write(",".join(repr(v) for v in r) + (",99.5" if extra else "") + "\n")


class Select:
    """Stand-in for the row selection of the file sampler."""
    def __init__(self, idx):
        self.idx, self.used = idx, False

    def __enter__(self):
        self.real = np.random.randint

        def randint(low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            if self.idx is None or size is None or int(np.prod(size)) != len(self.idx):
                return self.real(low, high, size, dtype)
            self.used = True
            # the sampler's own range decides: extremes included
            a = np.array([lo + min(i, hi - lo - 1) for i in self.idx], dtype=dtype)
            return a.reshape(size)

        np.random.randint = randint
        return self

    def __exit__(self, *a):
        np.random.randint = self.real


def h_ext(cases):
    def h(ctx):
        import tensorflow as tf
        nrows, count = ctx.choose("file rows, sensors", cases, free=True)
        idx = [ctx.choose(f"row {i}", range(nrows), free=True) for i in range(count)] if count <= 5 else None
        extra = ctx.choose("extra column", [False, True])
        via = ctx.choose("through", ["handler64", "handler32", "space"])
        ctx.commit()
        f = os.path.join(env.scratch.path, "s.csv")
        csv(f, TABLE[:nrows], extra)
        fs = sp(DOM[0], 1, 1)
        bogus = lambda x, y: 1e9 + 0 * x
        what = f"{count} sensors from a file of {nrows} rows, selection {idx}, through {via}"
        with Select(idx) as s:
            if via == "space":
                p, v = fs.get_sensor_data_external(bogus, count, f)
                tol = 0
            else:
                dt = tf.float64 if via.endswith("64") else tf.float32
                p, v = handler(fs, dt).get_sensor_data(bogus, count, "external", f)
                ctx.check(p.dtype == dt and v.dtype == dt and tuple(v.shape) == (p.shape[0], 1), f"{what}: tensors {p.dtype} {tuple(v.shape)}")
                tol = 0 if dt == tf.float64 else 1e-6
        p, v = np.asarray(p, float), np.asarray(v, float).reshape(-1)
        ctx.obs("ext", (p, v))
        ctx.check(p.shape == (count, 2) and v.shape == (count,), f"{what}: {p.shape} points, {v.shape} values")
        T = np.array(TABLE[:nrows])
        for q, u in zip(p, v):
            d = np.abs(T - np.array([q[0], q[1], u])) <= tol * np.maximum(1, np.abs(T))
            ctx.check(d.all(axis=1).any(), f"{what}: {q.tolist()} with value {u} is not a row of the file")
        return nrows, count, via
    return h


def h_seq(depth):
    reqs = [("int", 5, 0, 0), ("int", 12, 1, 1), ("int", 1, 2, 4), ("ext", 3, 4, 0), ("ext", 2, 5, 1), ("ext", 7, 3, 0)]

    def h(ctx):
        stub()
        seq = [ctx.choose(f"request {i}", reqs, free=True) for i in range(depth)]
        ctx.commit()
        kept = []
        import tensorflow as tf
        for r in seq:
            if r[0] == "int":
                _, n, d, k = r
                p, v = handler(sp(DOM[d], 2, 3), tf.float64).get_sensor_data(SOL[k], n, "internal")
                judge_int(ctx, p, v, n, DOM[d], SOL[k], 1e-15, f"{r} in {seq}")
            else:
                _, n, rows, e = r
                f = os.path.join(env.scratch.path, "s.csv")
                csv(f, TABLE[::-1][:rows], e)
                p, v = handler(sp(DOM[0], 2, 3), tf.float64).get_sensor_data(None, n, "external", f)
                T = np.array(TABLE[::-1][:rows])
                ctx.check(tuple(p.shape) == (n, 2) and tuple(v.shape) == (n, 1), f"{r} in {seq}: shapes {p.shape} {v.shape}")
                for q in np.hstack([np.asarray(p), np.asarray(v)]):
                    ctx.check((T == q).all(axis=1).any(), f"{r} in {seq}: {q.tolist()} is not a row of the file")
            kept.append((np.asarray(p), np.array(p), np.asarray(v), np.array(v)))
            ctx.check(all(np.array_equal(a, b) and np.array_equal(c, d) for a, b, c, d in kept), f"earlier sensor data changed in {seq}")
        return tuple(seq)
    return h


def harnesses(tier):
    if tier == "quick":
        return [("internal", h_int(list(range(1, 31)) + [50, 97, 100, 200, 501, 1000]), 1), ("internal, 2 deviations", h_int([1, 10, 23, 50]), 2),
                ("external", h_ext([(4, 3), (1, 1), (1, 2), (2, 2), (3, 2), (5, 2), (2, 40), (5, 50), (5, 1)]), 1), ("requests", h_seq(2), None)]
    return [("internal", h_int(list(range(1, 61)) + [97, 100, 200, 500]), 2), ("internal, 4 deviations", h_int([1, 7, 50]), 4),
            ("external", h_ext([(4, 5), (5, 4), (4, 3), (1, 1), (1, 2), (2, 5), (3, 2), (5, 2), (2, 40), (5, 50), (5, 1)]), 1), ("requests", h_seq(4), None)]

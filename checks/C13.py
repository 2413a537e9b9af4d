"""C13: Dirichlet data, pairing of points and values."""
import itertools

import numpy as np

from mc import build

BOUNDS = {"quick": "every ordered choice of 1..3 tags out of 5 x point counts 1..4 per tag x coinciding corner points x 4 result kinds of "
                   "the functions x 2-/3-column points x precision: <=1 deviation (<=2 for one and two tags); all call sequences of length 3 over 7 calls "
                   "with the returned lists overwritten or not; 1..1100 points per tag x 1..12 tags",
          "thorough": "ordered choices of 1..4 tags, <=3 deviations; sequences of length 5"}
ASSUMPTIONS = ["condition functions are deterministic"]
SHARDS = {"quick": 8, "thorough": 8}

TAGS = [1000, 1001, 3, 0, -7]


def value(tag, x, y, comp=0):
    return 100.0 * TAGS.index(tag) + 7.0 * comp + 3 * x - 5 * y + x * y * (1 + comp)


def points(tag, n, shared, cols):
    k = TAGS.index(tag)
    p = [[0.25 * k + 0.125 * i, 1.0 - 0.3 * i * (k + 1) + 0.01 * k] for i in range(n)]
    if shared:
        p[0] = [0.5, -0.5]
    p = np.array(p)
    return np.hstack([p, np.zeros((n, 1))]) if cols == 3 else p


def fun(tag, kind, ncomp=None):
    if ncomp:
        return lambda x, y: tuple(value(tag, x, y, c) for c in range(ncomp))
    if kind == "scalar":
        return lambda x, y: value(tag, x, y)
    if kind == "array":
        return lambda x, y: np.array([value(tag, x, y)])
    if kind == "broadcast":
        return lambda x, y: np.ones_like(x) * value(tag, x, y)
    return lambda x, y: np.float64(value(tag, x, y))


def expect(bd, comp=0):
    return sorted((float(p[0]), float(p[1]), float(value(t, p[0], p[1], comp))) for t, ps in bd.items() for p in ps)


def judge(ctx, xs, ys, bd, comp, what, tol=0.0):
    xs = np.asarray(xs, float)
    ys = np.asarray(ys, float).reshape(-1)
    n = sum(len(p) for p in bd.values())
    ctx.obs(what[:12], (xs, ys))
    ctx.check(xs.shape == (n, 2) and ys.shape == (n,), f"{what}: {xs.shape} points and {ys.shape} values, expected {n}")
    got = sorted((float(a[0]), float(a[1]), float(b)) for a, b in zip(xs, ys))
    want = expect(bd, comp)
    if tol:
        # compare the pairing after rounding to the handler's precision
        used = [False] * n
        for g in got:
            k = [i for i in range(n) if not used[i] and all(abs(g[m] - want[i][m]) <= tol * max(1, abs(want[i][m])) for m in range(3))]
            ctx.check(bool(k), f"{what}: (x, y, value) = {g} does not belong to any boundary point")
            used[k[0]] = True
    else:
        for a, b in zip(got, want):
            ctx.check(np.allclose(a, b, rtol=1e-14, atol=1e-14), f"{what}: got (x, y, value) = {a}, expected {b}")


def h_sets(ntags, counts):
    combos = [c for r in range(1, ntags + 1) for c in itertools.permutations(TAGS, r)]
    combos.sort(key=lambda c: len(c) != 2)

    def h(ctx):
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        tags = ctx.choose("tags in insertion order", combos, free=True)
        ns = [ctx.choose(f"points of tag {t}", counts) for t in tags]
        shared = ctx.choose("coinciding points", [False, True])
        kind = ctx.choose("function returns", ["scalar", "array", "broadcast", "np"])
        cols = ctx.choose("point columns", [2, 3])
        forder = ctx.choose("functions registered", ["same order", "reversed", "among others", "before others"])
        dt = ctx.choose("precision", [tf.float64, tf.float32])
        nc = ctx.choose("components", [None, 2, 3])
        ctx.commit()
        bd = {t: points(t, n, shared, cols) for t, n in zip(tags, ns)}
        keep = {t: p.copy() for t, p in bd.items()}
        fd = {t: fun(t, kind, nc) for t in (tags[::-1] if forder == "reversed" else tags)}
        if "others" in forder:  # functions of tags this mesh does not have
            wrong = {t: (lambda x, y: 12345.0) if nc is None else (lambda x, y: (12345.0,) * nc) for t in [-99, 1, 2, 999, 1002, 5000] + TAGS}
            fd = {**fd, **{t: g for t, g in wrong.items() if t not in fd}} if forder == "before others" else {**wrong, **fd}
        fs = build.space([build.UNIT], 2, "legendre", 3, boundary=bd, bfun=fd)
        what = f"tags {tags} counts {ns} function {kind}"
        if nc is None:
            judge(ctx, *fs.generate_dirichlet_boundary_data(), bd, 0, "data: " + what)
            dh = DataHandler2D(fs, None, dt)
            x, y = dh.get_dirichlet_input()
            ctx.check(x.dtype == dt and y.dtype == dt, f"{what}: tensors are {x.dtype}, {y.dtype}, requested {dt}")
            ctx.check(tuple(y.shape) == (sum(ns), 1), f"{what}: values have shape {y.shape}")
            judge(ctx, x, y, bd, 0, "tensors: " + what, tol=1e-14 if dt == tf.float64 else 1e-6)
        else:
            for c in list(range(nc)) + [0]:
                judge(ctx, *fs.generate_dirichlet_boundary_data_vector(c), bd, c, f"component {c}: " + what)
        ctx.check(all(np.array_equal(bd[t], keep[t]) for t in keep) and list(bd) == list(tags), f"{what}: boundary points changed")
        ctx.check(fs.total_dirichlet_dofs == sum(ns), f"{what}: reports {fs.total_dirichlet_dofs} Dirichlet points")
        return tags, tuple(ns), nc
    return h


def h_seq(depth):
    calls = [("data", 0), ("component", 0), ("component", 1), ("component", 2), ("tensors", 32), ("tensors", 64), ("attribute", 0)]

    def h(ctx):
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        vec = ctx.choose("condition", ["scalar", "vector"], free=True)
        ok = [c for c in calls if (c[0] in ("component", )) == (vec == "vector")]
        seq = [(ctx.choose(f"call {i}", ok, free=True), ctx.choose(f"overwrite result {i}", [False, True], free=True)) for i in range(depth)]
        ctx.commit()
        bd = {3: points(3, 2, True, 2), 1000: points(1000, 3, True, 2)}
        fs = build.space([build.UNIT], 2, "legendre", 3, boundary=bd, bfun={t: fun(t, "scalar", 3 if vec == "vector" else None) for t in bd})
        hs = {64: DataHandler2D(fs, None, tf.float64), 32: DataHandler2D(fs, None, tf.float32)} if vec == "scalar" else {}
        first = {}
        for (c, a), scrib in seq:
            if c == "data":
                x, y = fs.generate_dirichlet_boundary_data()
            elif c == "attribute":
                x, y = fs.dirichlet_boundary_data
                x, y = [np.array(p) for p in x], [np.array(p) for p in y]
            elif c == "component":
                x, y = fs.generate_dirichlet_boundary_data_vector(a)
            else:
                x, y = hs[a].get_dirichlet_input()
            judge(ctx, x, y, bd, a if c == "component" else 0, f"call {c},{a} in {seq}", tol=1e-6 if a == 32 else 0)
            key = (c, a)
            cur = (np.array(x, float), np.array(y, float))
            if key in first:
                ctx.check(np.array_equal(cur[0], first[key][0]) and np.array_equal(cur[1], first[key][1]), f"call {c},{a} differs from before in {seq}")
            first.setdefault(key, cur)
            if scrib and isinstance(x, list):
                for p in x:
                    p[...] = 77
                for p in y:
                    p[...] = -77
                del x[1:], y[:1]
        return tuple(seq)
    return h


def h_many(counts, ntags):
    """Long boundaries and many tags."""
    def h(ctx):
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        n = ctx.choose("points per tag", counts, free=True)
        nt = ctx.choose("tags", ntags, free=True)
        order = ctx.choose("tag order", ["up", "down", "mixed"], free=True)
        nc = ctx.choose("components", [None, 2], free=True)
        ctx.commit()
        tags = [(7 * k) % 97 for k in range(nt)]
        tags = sorted(tags) if order == "up" else sorted(tags)[::-1] if order == "down" else tags
        bd = {t: np.array([[t + i / 1024, 1.0 - i * 2.0**-7] for i in range(n + k % 3)]) for k, t in enumerate(tags)}
        val = lambda t, x, y, c: t * 1000.0 + x + 2 * y * (c + 1)
        fd = {t: (lambda x, y, t=t: val(t, x, y, 0)) if nc is None else (lambda x, y, t=t: [val(t, x, y, c) for c in range(nc)]) for t in sorted(tags)}
        fs = build.space([build.UNIT], 2, "legendre", 3, boundary=bd, bfun=fd)
        tot = sum(len(p) for p in bd.values())
        for c in range(nc or 1):
            want = sorted((p[0], p[1], val(t, p[0], p[1], c)) for t, ps in bd.items() for p in ps)
            rows = []
            if nc is None:
                x, y = fs.generate_dirichlet_boundary_data()
                rows.append((x, y, 0))
                rows.append((*DataHandler2D(fs, None, tf.float64).get_dirichlet_input(), 0))
            else:
                rows.append((*fs.generate_dirichlet_boundary_data_vector(c), 0))
            for x, y, _ in rows:
                x, y = np.asarray(x, float), np.asarray(y, float).reshape(-1)
                ctx.check(x.shape == (tot, 2) and y.shape == (tot,), f"{nt} tags of {n} points: {x.shape} points, {y.shape} values, expected {tot}")
                got = sorted(zip(x[:, 0], x[:, 1], y))
                ctx.close(np.array(got), np.array(want), f"{nt} tags of {n} points, component {c}", tol=1e-13)
        ctx.obs((n, nt, order), tot)
        return n, nt, order, nc
    return h


def harnesses(tier):
    m = ("many", h_many([1, 17, 130, 1100], [1, 4, 12]) if tier == "quick" else h_many([1, 2, 16, 17, 33, 65, 130, 257, 1100, 5000], [1, 2, 4, 5, 9, 12, 33]), None)
    return harnesses_(tier) + [m]


def harnesses_(tier):
    if tier == "quick":
        return [("tag sets", h_sets(3, [2, 1, 3, 4]), 1), ("one and two tags", h_sets(2, [2, 1, 3]), 2), ("sequences", h_seq(3), None)]
    return [("tag sets", h_sets(4, [2, 1, 3, 4]), 3), ("sequences", h_seq(4), None)]

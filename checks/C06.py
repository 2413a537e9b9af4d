"""C06: load vectors for all monomial sources, components and request histories."""
import itertools

import numpy as np

from mc import build, ref

BOUNDS = {"quick": "all monomials x^i y^j, i+j<=3, signed pairs; all 6 cells alone and 6 ordered pairs/triples; 5 families, orders 2..4, quad 3..6: "
                   "<=2 deviations; all request sequences of length 3 over (cell, component); meshes of 9..65 distinct cells, every cell judged",
          "thorough": "full product, orders 2..6; sequences of length 4"}
ASSUMPTIONS = ["relative tolerance 1e-9"]
SHARDS = {"quick": 4, "thorough": 8}


def expected(cell, kind, order, fs, c, f):
    xy = np.asarray(fs.get_quadrature_actual_coordinates(c), float)
    w = np.asarray(fs.get_quadrature_weights(c), float).reshape(-1)
    xi, eta = ref.RefMap(np.array(cell)).inv(xy)
    v = ref.basis_table(kind, order, xi, eta)[0]
    return (v * w) @ np.broadcast_to(f(xy[:, 0], xy[:, 1]), w.shape), float(np.abs(w).sum())


def mono(i, j, s=1.0):
    f = lambda x, y: s * x**i * y**j
    f.__name__ = f"{s}*x^{i}*y^{j}"
    return f


MONO = [mono(i, j) for i in range(4) for j in range(4 - i)]
CONST = lambda x, y: 2.5
EXTRA = [CONST, lambda x, y: np.sin(3 * x) * np.exp(-y), lambda x, y: 0.0 * x, mono(5, 0, -1e6), mono(0, 5, 1e-6),
         mono(4, 0), mono(2, 2), lambda x, y: x * x + y * y, lambda x, y: np.cos(x) * np.cos(y), lambda x, y: np.abs(x) + np.abs(y) - 1.0,
         lambda x, y: np.cos(37 * x + 5 * y * y) * np.sin(29 * y - x * x) + np.cos(90 * x * y)]
MESHES = [(n,) for n in build.CELLS] + [("trap", "para"), ("para", "trap"), ("kite", "tiny"), ("rect", "unit", "kite"),
                                        ("unit", "kite", "rect"), ("tiny", "rect"), ("wide", "high"), ("high", "diamond", "wide2"), ("micro", "unit", "micro2"), ("mega", "trap"),
                                        ("far",), ("sliver",), ("sym",), ("half", "sym"), ("turned", "symtrap"), ("rhombus", "unit", "rhombus2"), ("symtrap",)]


def h_scalar(orders, quads):
    def h(ctx):
        f = ctx.choose("source", MONO + EXTRA, free=True)
        names = ctx.choose("cells", MESHES)
        kind = ctx.choose("family", ref.BASES)
        order = ctx.choose("fe order", orders)
        qo = ctx.choose("quad order", quads)
        rule = ctx.choose("rule", ref.QUADS)
        ctx.commit()
        cells = [build.CELLS_ALL[n] for n in names]
        fs = build.space(cells, order, kind, qo, rule, "bilinear", forcing=f)
        for c, cell in enumerate(cells):
            want, s = expected(cell, kind, order, fs, c, f)
            got = np.asarray(fs.get_forcing_function_values(c), float)
            ctx.obs(("force", c), got)
            sc = max(s * 1e-3, float(np.abs(want).max()))
            ctx.close(got / sc, want[:, None] / sc, f"load vector of cell {c} of {names} ({kind}{order} {rule}{qo})", tol=1e-8)
        return names, kind, order, qo, rule
    return h


def vec(kinds):
    f0, f1, f2 = (kinds + kinds)[:3]
    return lambda x, y: (f0(x, y), f1(x, y), f2(x, y))


def h_vector(orders, quads):
    def h(ctx):
        a = ctx.choose("component 0", MONO, free=True)
        b = ctx.choose("component 1", [MONO[3], CONST, MONO[1], EXTRA[1], EXTRA[-1]], free=True)
        wrap = ctx.choose("returned as", ["tuple", "list", "array"])
        names = ctx.choose("cells", MESHES[6:] + MESHES[:2])
        kind = ctx.choose("family", ref.BASES)
        order = ctx.choose("fe order", orders)
        qo = ctx.choose("quad order", quads)
        ctx.commit()
        cells = [build.CELLS_ALL[n] for n in names]

        def f(x, y):
            r = (a(x, y), b(x, y) + 0 * x, -1.5 * x + y)
            return r if wrap == "tuple" else list(r) if wrap == "list" else np.array(r)

        fs = build.space(cells, order, kind, qo, "gauss-legendre", "bilinear", forcing=f)
        for c, cell in enumerate(cells):
            for comp in (0, 1, 2):
                want, s = expected(cell, kind, order, fs, c, lambda x, y: f(x, y)[comp])
                got = np.asarray(fs.get_forcing_function_values_vector(c, comp), float)
                ctx.obs(("vforce", c, comp), got)
                sc = max(s * 1e-3, float(np.abs(want).max()))
                ctx.close(got / sc, want[:, None] / sc, f"component {comp} of cell {c} of {names}", tol=1e-8)
        return names, kind, order
    return h


def h_seq(depth):
    """Every sequence of (cell, component) requests: each answer is the one a fresh space gives."""
    def h(ctx):
        reqs = [(c, k) for c in range(2) for k in range(3)]
        seq = [ctx.choose(f"request {i}", reqs) for i in range(depth)]
        ctx.commit()
        names = ("trap", "para")
        cells = [build.CELLS_ALL[n] for n in names]
        F = (lambda x, y: x, lambda x, y: 1 + y * y, lambda x, y: x * y - 4)
        fs = build.space(cells, 2, "legendre", 4, forcing=lambda x, y: [g(x, y) for g in F])
        for c, k in seq:
            got = np.asarray(fs.get_forcing_function_values_vector(c, k), float)
            want, _ = expected(cells[c], "legendre", 2, fs, c, F[k])
            ctx.obs((c, k), got)
            ctx.close(got, want[:, None], f"component {k} of cell {c} in sequence {seq}", tol=1e-10)
        return tuple(seq)
    return h


def many(n):
    """n different cells in a row (every load vector is different)."""
    return [((i * 1.0, 0.0), (i + 1.0, 0.125 * (i % 3)), (i + 1.25, 1.0 + 0.0625 * i), (float(i), 1.0)) for i in range(n)]


def h_many(counts):
    """Longer meshes: all loads in order, then again in another order, both kinds of source."""
    def h(ctx):
        n = ctx.choose("cells", counts)
        order2 = ctx.choose("second pass", ["forward", "backward", "stride"])
        comps = ctx.choose("components", [(0, 1), (1, 0), (1,), "scalar"])
        ctx.commit()
        cells = many(n)
        F = (lambda x, y: 1 + 2 * x, lambda x, y: y * y - x)
        scalar = comps == "scalar"
        fs = build.space(cells, 2, "legendre", 4, forcing=F[0] if scalar else (lambda x, y: (F[0](x, y), F[1](x, y))))
        step = next(s for s in (7, 5, 3, 11, 13) if n % s)
        passes = [range(n), {"forward": range(n), "backward": range(n)[::-1], "stride": [(step * i) % n for i in range(n)]}[order2]]
        want = {(c, k): expected(cells[c], "legendre", 2, fs, c, F[k])[0] for c in range(n) for k in range(2)}
        for p in passes:
            for c in p:
                for k in ((0,) if scalar else comps):
                    got = fs.get_forcing_function_values(c) if scalar else fs.get_forcing_function_values_vector(c, k)
                    ctx.close(got, want[c, k][:, None], f"load of cell {c} of {n}, component {k}, {order2}", tol=1e-10)
        ctx.obs((n, order2, str(comps)), want[n - 1, 0])
        return n, order2, comps
    return h


def harnesses(tier):
    hs = harnesses_(tier)
    hs += [("high order", h_scalar([11] if tier == "quick" else [10, 11, 15], [12]), 0), ("high order vector", h_vector([11, 12] if tier == "quick" else [11, 12, 16, 20], [12]), 1)]
    return hs + [("many cells", h_many([9, 10, 17, 33, 65] if tier == "quick" else [9, 10, 11, 16, 17, 18, 33, 65, 66, 129, 130, 257, 300]), None)]


def harnesses_(tier):
    if tier == "quick":
        return [("scalar", h_scalar([2, 3, 4], [4, 3, 6]), 1), ("vector", h_vector([2, 3], [4, 3]), 1), ("sequences", h_seq(3), None)]
    return [("scalar", h_scalar([2, 3, 4, 6], [4, 3, 6]), 3), ("vector", h_vector([2, 3, 4], [4, 3]), 3), ("sequences", h_seq(4), None)]

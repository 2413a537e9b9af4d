"""C01: quadrature exactness, by enumeration of all orders and all basis monomials."""
import numpy as np
from numpy.polynomial import legendre as L

BOUNDS = {"quick": "orders 3..40 and 50, 64, 65, 100, 128, all Legendre products of the exactness space; orders 160, 257, 301, all P_i against 6 P_j; all ordered pairs of 10 rules",
          "thorough": "orders 3..80 and 100, 128, 129, 200, 256; orders up to 513 against 6 P_j; all ordered pairs of 26 rules"}
ASSUMPTIONS = ["floating point comparison at 1e-11 absolute on moments of Legendre products"]
SHARDS = {"quick": 1, "thorough": 4}


def degree(fam, n):
    return 2 * n - 1 if fam == "gauss-legendre" else 2 * n - 3


def verify(ctx, fam, n, w, xi, eta, what):
    w, xi, eta = (np.asarray(a, dtype=np.float64) for a in (w, xi, eta))
    for nm, a in (("weights", w), ("xi", xi), ("eta", eta)):
        ctx.check(a.shape == (n * n,), f"{what}: {nm} has shape {a.shape}, expected {(n*n,)}")
        ctx.check(bool(np.all(np.isfinite(a))), f"{what}: non-finite {nm}")
    ctx.check(bool(np.all(w > 0)), f"{what}: non-positive weight")
    ctx.check(abs(w.sum() - 4) < 1e-11, f"{what}: weights sum to {w.sum()!r}")
    ctx.check(max(np.abs(xi).max(), np.abs(eta).max()) <= 1 + 1e-14, f"{what}: point outside the reference square")
    d = degree(fam, n)
    A, B = L.legvander(xi, d), L.legvander(eta, d)
    M = np.einsum("qi,qj->ij", A * w[:, None], B)
    M[0, 0] -= 4
    i, j = np.unravel_index(np.abs(M).argmax(), M.shape)
    ctx.check(abs(M[i, j]) < 1e-11, f"{what}: integral of P{i}(xi)P{j}(eta) is off by {M[i, j]!r}")
    ctx.stats.comparisons += M.size
    if fam == "gauss-jacobi":
        for s in (-1, 1):
            for t in (-1, 1):
                ctx.check(bool(np.any((xi == s) & (eta == t))), f"{what}: corner ({s},{t}) is not a point")
    # distinct points
    ctx.check(len({(round(a, 12), round(b, 12)) for a, b in zip(xi, eta)}) == n * n, f"{what}: repeated points")


def get(fam, n, via):
    if via == "class":
        from fastvpinns.FE.quadratureformulas_quad2d import Quadratureformulas_Quad2D
        q = Quadratureformulas_Quad2D(n, fam)
        return q.get_quad_values() + (q.get_num_quad_points(),)
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    return FE2DSetupMain("quadrilateral", 2, "legendre", n, fam).assign_quadrature_rules() + (n * n,)


def h_exact(orders):
    def h(ctx):
        fam = ctx.choose("family", ["gauss-legendre", "gauss-jacobi"])
        n = ctx.choose("order", orders)
        via = ctx.choose("via", ["class", "setup"])
        ctx.commit()
        w, xi, eta, num = get(fam, n, via)
        ctx.check(num == n * n, f"{fam} order {n}: reports {num} points")
        ctx.obs("build", (w, xi, eta))
        verify(ctx, fam, n, w, xi, eta, f"{fam} order {n}")
        return (fam, n)
    return h


def h_pairs(menu):
    """Histories build-build with the result of the first overwritten in between."""
    def h(ctx):
        a = ctx.choose("first", menu)
        b = ctx.choose("second", menu)
        spoil = ctx.choose("overwrite the first rule's arrays", [False, True])
        ctx.commit()
        r1 = get(*a, "class")
        keep = [np.array(x) for x in r1[:3]]
        ctx.obs(("build", a), r1[0])
        if spoil:
            for x in r1[:3]:
                x *= 0.5
        r2 = get(*b, "class")
        ctx.obs(("build", b), r2[0])
        verify(ctx, *b, *r2[:3], f"{b} built after {a}")
        if not spoil:
            for x, y, nm in zip(r1[:3], keep, ("weights", "xi", "eta")):
                ctx.equal(x, y, f"{nm} of {a} after building {b}")
        return (a, b)
    return h


def h_far(orders):
    """Large orders: all P_i against a few P_j, in both variables."""
    def h(ctx):
        fam = ctx.choose("family", ["gauss-legendre", "gauss-jacobi"])
        n = ctx.choose("order", orders)
        ctx.commit()
        w, xi, eta, num = get(fam, n, "class")
        what, d = f"{fam} order {n}", degree(fam, n)
        ctx.check(num == n * n, f"{what}: reports {num} points")
        for nm, a in (("weights", w), ("xi", xi), ("eta", eta)):
            ctx.check(np.shape(a) == (n * n,) and bool(np.all(np.isfinite(a))), f"{what}: {nm} has shape {np.shape(a)}, expected {(n*n,)}")
        ctx.obs("build", (w[:50], xi[:50], eta[:50]))
        ctx.check(bool(np.all(w > 0)) and max(np.abs(xi).max(), np.abs(eta).max()) <= 1 + 1e-14, f"{what}: weight not positive or point outside")
        # the moments in xi of P_0..P_d, by the recurrence, against P_j(eta) for a few j; then the roles exchanged
        for u, v, nm in ((xi, eta, "xi"), (eta, xi, "eta")):
            J = [0, 1, n - 1, n, d - 1, d]
            E = np.stack([np.ones(1)[0] * L.legval(v, [0] * j + [1]) for j in J]) * w
            p0, p1 = np.ones_like(u), u.copy()
            for i in range(d + 1):
                m = E @ p0
                m[0] -= 4 if i == 0 else 0
                k = int(np.abs(m).argmax())
                ctx.check(abs(m[k]) < 1e-10, f"{what}: integral of P{i}({nm})P{J[k]} of the other variable is off by {m[k]!r}")
                p0, p1 = p1, ((2 * i + 3) * u * p1 - (i + 1) * p0) / (i + 2)
            ctx.stats.comparisons += 6 * (d + 1)
        return fam, n
    return h


def harnesses(tier):
    m = [3, 4, 5, 7, 12] if tier == "quick" else list(range(3, 16))
    menu = [(f, n) for n in m for f in ("gauss-legendre", "gauss-jacobi")]
    return [("exact", h_exact(list(range(3, 41)) + [50, 64, 65, 100, 128] if tier == "quick" else list(range(3, 81)) + [100, 128, 129, 200, 256]), None), ("pairs", h_pairs(menu), None),
            ("far orders", h_far([160, 257, 301] if tier == "quick" else [160, 257, 301, 350, 400, 512, 513]), None)]

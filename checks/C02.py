"""C02: test functions and their derivatives against exact polynomials."""
import numpy as np

from mc import ref

BOUNDS = {"quick": "5 family names x orders 2..20 (2..32 and 36, 48, 64 for legendre/jacobi/chebyshev_2) x 6 kinds x 121 grid points; batches of 1..20000 points in sequence; "
                   "pairs of orders interleaved; single points, repeated evaluation",
          "thorough": "orders 2..20 (2..40) x 6 kinds x 529 points; pairs 2..8"}
ASSUMPTIONS = ["relative tolerance 1e-9 (1e-6 above order 12 for the two families evaluated from power-form "
               "coefficients, whose rounding grows with the order)"]
SHARDS = {"quick": 4, "thorough": 8}
KINDS = ("value", "gradx", "grady", "gradxx", "gradxy", "gradyy")


def make(kind, order):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    return FE2DSetupMain("quadrilateral", order, kind, 5, "gauss-legendre").assign_basis_function()


def grid(m):
    t = np.array(sorted(set(np.linspace(-1, 1, m)) | {0.3, -0.7, 0.98765, -0.987}))
    a, b = np.meshgrid(t, t)
    return a.ravel(), b.ravel()


def tol(kind, order):
    if order <= 12 or kind in ("legendre", "jacobi", "chebyshev_2"):
        return 1e-9
    return 1e-6


def h_table(m, top):
    def h(ctx):
        kind = ctx.choose("family", ref.BASES)
        order = ctx.choose("order", range(2, top[0] + 1 if kind in ("legendre", "jacobi", "chebyshev_2") else top[1] + 1))
        ctx.commit()
        xi, eta = grid(m)
        b = make(kind, order)
        want = ref.basis_table(kind, order, xi, eta)
        for k, w in zip(KINDS, want):
            got = getattr(b, k)(xi, eta)
            ctx.obs(k, got)
            ctx.close(got, w, f"{kind} order {order} {k}", tol=tol(kind, order))
        if kind != "jacobi_plain":
            t = np.linspace(-1, 1, 9)
            for s in (-1.0, 1.0):
                for x, y in ((np.full(9, s), t), (t, np.full(9, s))):
                    v = b.value(x, y)
                    ctx.check(float(np.abs(v).max()) < 1e-11, f"{kind} order {order}: test function non-zero on the boundary")
        q = np.polynomial.legendre.leggauss(order + 2)[0]
        a, c = np.meshgrid(q, q)
        V = np.asarray(b.value(a.ravel(), c.ravel()))
        V = V / np.linalg.norm(V, axis=1)[:, None]
        s = np.linalg.svd(V, compute_uv=False)
        ctx.check(s[-1] > 1e-8, f"{kind} order {order}: test functions are linearly dependent (sigma_min {s[-1]:.1e})")
        return (kind, order)
    return h


def h_pairs(orders):
    """Two bases alive at once, evaluated alternately; inputs and results overwritten in between."""
    def h(ctx):
        a = (ctx.choose("family A", ref.BASES), ctx.choose("order A", orders))
        b = (ctx.choose("family B", ref.BASES), ctx.choose("order B", orders))
        ctx.commit()
        A, B = make(*a), make(*b)
        xi, eta = np.array([-1.0, -0.4, 0.25, 1.0]), np.array([0.6, -1.0, 0.25, -0.8])
        for k in range(6):
            for who, o in ((a, A), (b, B), (a, A)):
                x, y = xi.copy(), eta.copy()
                got = getattr(o, KINDS[k])(x, y)
                ctx.obs((who, KINDS[k]), got)
                ctx.close(got, ref.basis_table(*who, xi, eta)[k], f"{who} {KINDS[k]} with {a},{b} alive", tol=1e-9)
                ctx.equal(x, xi, f"{KINDS[k]} changed its point array")
                got *= 0.0
        return (a, b)
    return h


def h_batch(orders):
    """The table of a set of points is the concatenation of the tables of its parts (and single points work)."""
    def h(ctx):
        kind = ctx.choose("family", ref.BASES)
        order = ctx.choose("order", orders)
        cut = ctx.choose("split", [1, 2, 5, 6])
        rev = ctx.choose("reversed", [False, True])
        ctx.commit()
        xi = np.array([-1.0, -0.5, 0.0, 0.125, 0.9, 1.0, 0.3])
        eta = np.array([0.2, 1.0, -1.0, 0.0, -0.3, 1.0, 0.3])
        if rev:
            xi, eta = xi[::-1].copy(), eta[::-1].copy()
        b = make(kind, order)
        for k in KINDS:
            whole = np.asarray(getattr(b, k)(xi, eta))
            parts = np.hstack([getattr(b, k)(xi[:cut], eta[:cut]), getattr(b, k)(xi[cut:], eta[cut:])])
            ctx.obs(k, whole)
            ctx.close(parts, whole, f"{kind} order {order} {k} split at {cut}", tol=1e-13)
        return (kind, order, cut, rev)
    return h


def h_large(tops, sizes):
    """Batches from one point to thousands, and evaluation again with other batches in between."""
    def h(ctx):
        kind = ctx.choose("family", ref.BASES)
        order = ctx.choose("order", tops)
        sz = ctx.choose("batch sizes", sizes)
        ends = ctx.choose("first and last point shared", [False, True])
        ctx.commit()
        b = make(kind, order)
        for j, n in enumerate(sz):
            # deterministic points spread over the square, none repeated, in no sorted order, other ones in every batch
            i = np.arange(n) + 17.3 * j
            xi, eta = 2 * ((0.5 + i * 0.6180339887498949) % 1.0) - 1, 2 * ((0.25 + i * 0.7548776662466927) % 1.0) - 1
            if ends and n > 2:
                xi[[0, -1]], eta[[0, -1]] = [-1.0, 1.0], [-1.0, 1.0]
            want = ref.basis_table(kind, order, xi, eta)
            for k, w in zip(KINDS, want):
                got = np.asarray(getattr(b, k)(xi, eta))
                ctx.check(got.shape == w.shape, f"{kind} order {order} {k} at {n} points has shape {got.shape}")
                ctx.close(got, w, f"{kind} order {order} {k} at {n} points (batches {sz})", tol=tol(kind, order))
            ctx.obs((n,), want[0][:, :1])
        return (kind, order, sz, ends)
    return h


def h_high(orders):
    """High orders of the families whose evaluation is stable there."""
    def h(ctx):
        kind = ctx.choose("family", ["legendre", "jacobi", "chebyshev_2"])
        order = ctx.choose("order", orders)
        ctx.commit()
        t = np.array([-1.0, -0.999, -0.61, -0.123, 0.0, 0.0371, 0.5, 0.987, 1.0])
        xi, eta = t, np.roll(t, 4)
        b = make(kind, order)
        for k, w in zip(KINDS, ref.basis_table(kind, order, xi, eta)):
            got = getattr(b, k)(xi, eta)
            ctx.obs(k, got)
            ctx.close(got, w, f"{kind} order {order} {k}", tol=1e-9)
        return (kind, order)
    return h


def harnesses(tier):
    q = tier == "quick"
    return [("large", h_large([2, 3, 5, 10] if q else range(2, 13), [(1, 2500, 1), (64, 65, 64), (1024,), (4100, 3), (20000, 2), (9, 9, 9), (25, 36, 25), (16, 100, 16, 100)] if q else
                              [(1, 2500, 1), (64, 65, 64), (1024,), (4100, 3), (10000,), (40000, 1), (9, 8, 7, 6, 5, 4, 3, 2, 1), (25, 36, 25)]), None),
            ("high orders", h_high([36, 48, 64] if q else [36, 41, 48, 56, 64, 80]), None),
            ("table", h_table(7 if q else 19, (32, 20) if q else (40, 20)), None),
            ("pairs", h_pairs([2, 3, 4] if q else [2, 3, 4, 5, 7]), None),
            ("batch", h_batch([2, 3, 5] if q else [2, 3, 4, 5, 6, 9]), None)]

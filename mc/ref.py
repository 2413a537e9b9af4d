"""Boring reference models, written independently of the package.

Polynomials are exact (``fractions.Fraction`` coefficients); cell geometry is
exact for the lattice cells that are enumerated; numpy is used only to evaluate
the exact results at the implementation's (floating point) points.
"""
from fractions import Fraction as F
from functools import lru_cache

import numpy as np

BASES = ("legendre", "jacobi", "legendre_special", "chebyshev_2", "jacobi_plain")
QUADS = ("gauss-legendre", "gauss-jacobi")


@lru_cache(None)
def legendre(n):
    a, b = (F(1),), (F(0), F(1))
    if n == 0:
        return a
    for k in range(1, n):
        c = [F(0)] + [F(2 * k + 1, k + 1) * x for x in b]
        for i, x in enumerate(a):
            c[i] -= F(k, k + 1) * x
        a, b = b, tuple(c)
    return b


@lru_cache(None)
def chebyshev(n):
    a, b = (F(1),), (F(0), F(1))
    if n == 0:
        return a
    for k in range(1, n):
        c = [F(0)] + [2 * x for x in b]
        for i, x in enumerate(a):
            c[i] -= x
        a, b = b, tuple(c)
    return b


def psub(a, b):
    n = max(len(a), len(b))
    return tuple((a[i] if i < len(a) else F(0)) - (b[i] if i < len(b) else F(0)) for i in range(n))


def pder(a):
    return tuple(i * x for i, x in enumerate(a))[1:] or (F(0),)


def pmul(a, b):
    c = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                c[i + j] += x * y
    return tuple(c)


def pint(a):
    """Integral over [-1, 1]."""
    return sum((2 * x / (i + 1) for i, x in enumerate(a) if i % 2 == 0), F(0))


def peval_exact(a, x):
    r = F(0)
    for k in reversed(a):
        r = r * x + k
    return r


@lru_cache(None)
def _leg_series(a):
    """Legendre-series coefficients of a power-basis polynomial (exact), for stable evaluation."""
    a = list(a)
    out = [F(0)] * len(a)
    for n in range(len(a) - 1, -1, -1):
        p = legendre(n)
        c = a[n] / p[n]
        out[n] = c
        if c:
            for i, x in enumerate(p):
                a[i] -= c * x
    return np.array([float(c) for c in out])


def peval(a, x):
    return np.polynomial.legendre.legval(np.asarray(x, dtype=np.float64), _leg_series(tuple(a)))


@lru_cache(None)
def basis_1d(kind, n):
    """The n-th (1-based) documented one dimensional test function."""
    if kind == "jacobi_plain":
        return legendre(n - 1)
    if kind == "chebyshev_2":
        return psub(chebyshev(n + 1), chebyshev(n - 1))
    return psub(legendre(n + 1), legendre(n - 1))


def basis_table(kind, order, xi, eta):
    """value, d/dxi, d/deta, d2/dxi2, d2/dxideta, d2/deta2 : each (order**2, npts)."""
    xi, eta = np.asarray(xi, float), np.asarray(eta, float)
    ps = [basis_1d(kind, n) for n in range(1, order + 1)]
    d1 = [pder(p) for p in ps]
    d2 = [pder(p) for p in d1]
    A = [np.array([peval(p, xi) for p in fam]) for fam in (ps, d1, d2)]
    B = [np.array([peval(p, eta) for p in fam]) for fam in (ps, d1, d2)]

    def t(a, b):
        return (a[:, None, :] * b[None, :, :]).reshape(order * order, -1)

    return t(A[0], B[0]), t(A[1], B[0]), t(A[0], B[1]), t(A[2], B[0]), t(A[1], B[1]), t(A[0], B[2])


# ---------------------------------------------------------------- geometry
REFV = ((-1, -1), (1, -1), (1, 1), (-1, 1))


class RefMap:
    """Vertex-interpolating bilinear map of a quadrilateral; affine cells are its parallelogram case."""

    def __init__(self, cell):
        c = np.asarray(cell, dtype=np.float64)
        self.cell = c
        s = np.array(REFV, dtype=np.float64)
        self.a0 = c.mean(axis=0)
        self.a1 = (s[:, 0:1] * c).mean(axis=0)
        self.a2 = (s[:, 1:2] * c).mean(axis=0)
        self.a3 = ((s[:, 0] * s[:, 1])[:, None] * c).mean(axis=0)

    def fwd(self, xi, eta):
        xi, eta = np.asarray(xi, float), np.asarray(eta, float)
        return np.stack([self.a0[k] + self.a1[k] * xi + self.a2[k] * eta + self.a3[k] * xi * eta
                         for k in (0, 1)], axis=-1)

    def jac(self, xi, eta):
        """dx/dxi, dx/deta, dy/dxi, dy/deta"""
        xi, eta = np.asarray(xi, float), np.asarray(eta, float)
        return (self.a1[0] + self.a3[0] * eta, self.a2[0] + self.a3[0] * xi,
                self.a1[1] + self.a3[1] * eta, self.a2[1] + self.a3[1] * xi)

    def det(self, xi, eta):
        a, b, c, d = self.jac(xi, eta)
        return a * d - b * c

    def inv(self, xy):
        """Newton inverse of the map at physical points xy (n,2)."""
        xy = np.asarray(xy, dtype=np.float64)
        xi = np.zeros(len(xy))
        eta = np.zeros(len(xy))
        for _ in range(60):
            r = self.fwd(xi, eta) - xy
            a, b, c, d = self.jac(xi, eta)
            det = a * d - b * c
            dxi = (d * r[:, 0] - b * r[:, 1]) / det
            de = (-c * r[:, 0] + a * r[:, 1]) / det
            xi, eta = xi - dxi, eta - de
            if max(np.abs(dxi).max(), np.abs(de).max()) < 1e-15:
                break
        return xi, eta

    def phys_grad(self, gxi, geta, xi, eta):
        a, b, c, d = self.jac(xi, eta)
        det = a * d - b * c
        return (d * gxi - c * geta) / det, (-b * gxi + a * geta) / det


def area(cell):
    c = [(F(float(p[0])), F(float(p[1]))) for p in cell]
    s = F(0)
    for i in range(len(c)):
        x0, y0 = c[i]
        x1, y1 = c[(i + 1) % len(c)]
        s += x0 * y1 - x1 * y0
    return s / 2


def is_convex_ccw(cell):
    c = [(F(float(p[0])), F(float(p[1]))) for p in cell]
    for i in range(4):
        (x0, y0), (x1, y1), (x2, y2) = c[i], c[(i + 1) % 4], c[(i + 2) % 4]
        if (x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1) <= 0:
            return False
    return True


def poly_integral(cell, i, j):
    """Exact integral of x^i y^j over a polygon (Green's theorem, exact rationals)."""
    c = [(F(float(p[0])), F(float(p[1]))) for p in cell]
    tot = F(0)
    # int x^i y^j dA = 1/(i+1) \oint x^{i+1} y^j dy
    for k in range(len(c)):
        (x0, y0), (x1, y1) = c[k], c[(k + 1) % len(c)]
        dx, dy = x1 - x0, y1 - y0
        if dy == 0:
            continue
        # polynomial in t on [0,1]: (x0+dx t)^{i+1} (y0+dy t)^j dy
        p = (F(1),)
        for _ in range(i + 1):
            p = pmul(p, (x0, dx))
        for _ in range(j):
            p = pmul(p, (y0, dy))
        tot += dy * sum((a / (m + 1) for m, a in enumerate(p)), F(0))
    return tot / (i + 1)


def lattice_quads(n, m=None):
    """Every strictly convex CCW quadrilateral with vertices on an n x m lattice, every start vertex."""
    import itertools

    m = m or n
    pts = [(x, y) for x in range(n) for y in range(m)]
    out = []
    for comb in itertools.combinations(pts, 4):
        for perm in itertools.permutations(comb[1:]):
            cell = (comb[0],) + perm
            if is_convex_ccw(cell):
                for r in range(4):
                    out.append(tuple(cell[r:] + cell[:r]))
    return out


def is_parallelogram(cell):
    (a, b), (c, d), (e, f), (g, h) = cell
    return a + e == c + g and b + f == d + h

"""C08: the weak residual of an exact solution vanishes from geometry to loss."""
import numpy as np

from mc import build, ref
from checks import tiny

BOUNDS = {"quick": "10 monomials x^i y^j (i+j<=3) + 1 mixed polynomial x 6 losses (free); 4 coefficient sets, 11 meshes (internal "
                   "grids, affine and bilinear cells, mixed), 4 families, orders 2..4, 2 rules, 2 maps, 2 precisions, 3 source "
                   "perturbations: <=1 deviation; meshes of cells moved from affine by 1e-6..0.2 and of skew, equal-area and micro cells",
          "thorough": "<=3 deviations; orders 2..6"}
ASSUMPTIONS = ["quadrature order chosen so that every integrand is integrated exactly (C01)", "source terms are vectorisable"]
SHARDS = {"quick": 6, "thorough": 8}
FAMS = [f for f in ref.BASES if f != "jacobi_plain"]


class Poly:
    """sum of c * x^i y^j with derivatives."""
    def __init__(self, d):
        self.d = {k: float(v) for k, v in d.items() if v}

    def __call__(self, x, y):
        r = 0.0 * x * y
        for (i, j), c in self.d.items():
            r = r + c * x**i * y**j
        return r

    def dx(self):
        return Poly({(i - 1, j): c * i for (i, j), c in self.d.items() if i})

    def dy(self):
        return Poly({(i, j - 1): c * j for (i, j), c in self.d.items() if j})

    def __add__(self, o):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __rmul__(self, s):
        return Poly({k: s * v for k, v in self.d.items()})

    def __mul__(self, o):
        r = {}
        for (i, j), a in self.d.items():
            for (k, l), b in o.d.items():
                r[i + k, j + l] = r.get((i + k, j + l), 0) + a * b
        return Poly(r)

    def __repr__(self):
        return "+".join(f"{c:g}x^{i}y^{j}" for (i, j), c in self.d.items()) or "0"


SOL = [Poly({(i, j): 1 + 0.5 * i - 0.25 * j}) for i in range(4) for j in range(4 - i)]
SOL.append(Poly({(0, 0): 1, (1, 0): -2, (0, 1): 0.5, (1, 1): 3, (2, 1): -1, (0, 3): 0.75}))
LOSSES = ["poisson", "helmholtz", "cd2d", "poisson_inv", "cd2d_inv", "cd2d_dom"]
COEF = [dict(eps=1.25, b_x=0.75, b_y=-0.5, c=2.0, k=1.5), dict(eps=-0.5, b_x=-2.0, b_y=3.0, c=-1.0, k=-2.5),
        dict(eps=1.0, b_x=0.0, b_y=0.0, c=0.0, k=0.0), dict(eps=1e-3, b_x=100.0, b_y=0.125, c=7.0, k=10.0)]
MESHES = ["grid 2x1", "trap", "kite", "para", "rect", "tiny", "grid 3x2", "trap kite para", "para trap", "grid 1x3 wide", "rect para"]


MESHES += ["near 1e-2", "near 1e-5", "grid 4x3", "skew 3x4", "wide high", "diamond wide2", "micro2", "micro", "sliver", "sym half", "unit rhombus rhombus2", "turned sym", "symtrap"]
COMBOS = [(m, "bilinear") for m in MESHES] + [(m, "affine") for m in MESHES if not any(
    k in ("trap", "kite", "near", "micro", "symtrap") for k in m.split())]


def mesh_of(name):
    if name.startswith("near"):
        e = float(name.split()[1])
        return np.array([build.near("para", 2, e, -e), build.near("unit", 0, -e, 0.0), build.near("rect", 1, e, e)]), False
    if name.startswith("skew"):
        nx, ny = map(int, name.split()[1].split("x"))
        p = lambda i, j: (i - 0.5 * j, 0.25 * i + 0.75 * j)
        return np.array([(p(i, j), p(i + 1, j), p(i + 1, j + 1), p(i, j + 1)) for j in range(ny) for i in range(nx)]), True
    if name.startswith("grid"):
        from fastvpinns.Geometry.geometry_2d import Geometry_2D
        g = Geometry_2D("quadrilateral", "internal", 5, 5, ".", True)
        nx, ny = map(int, name.split()[1].split("x"))
        xl, yl = ((-3.0, 5.0), (0.25, 0.75)) if "wide" in name else ((-0.5, 1.0), (1.0, 3.0))
        cells, _ = g.generate_quad_mesh_internal(xl, yl, nx, ny, 8)
        return np.array(cells), True
    ns = name.split()
    return np.array([build.CELLS_ALL[n] for n in ns]), all(n in build.AFFINE_ALL for n in ns)


def strong(loss, u, c):
    lap = u.dx().dx() + u.dy().dy()
    if loss in ("poisson", "poisson_inv"):
        return -c["eps"] * lap
    if loss == "helmholtz":
        return c["eps"] * lap + c["k"] ** 2 * u
    conv = c["b_x"] * u.dx() + c["b_y"] * u.dy() + c["c"] * u
    if loss in ("cd2d", "cd2d_inv"):
        return -c["eps"] * lap + conv
    e = EPS_FIELD
    return -1.0 * ((e * u.dx()).dx() + (e * u.dy()).dy()) + conv


EPS_FIELD = Poly({(0, 0): 1.5, (1, 0): 0.25, (0, 1): -0.5})


def exact_moments(cells, kind, order, g):
    """(cells, n_test) exact integrals of g*v by a high order tensor rule built here."""
    t, w = np.polynomial.legendre.leggauss(14)
    X, Y = [a.ravel() for a in np.meshgrid(t, t)]
    W = np.outer(w, w).ravel()
    V = ref.basis_table(kind, order, X, Y)[0]
    out = []
    for c in cells:
        R = ref.RefMap(c)
        p = R.fwd(X, Y)
        out.append(V @ (W * np.abs(R.det(X, Y)) * g(p[:, 0], p[:, 1])))
    return np.array(out)


def h_end(orders):
    def h(ctx):
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        u = ctx.choose("solution", SOL, free=True)
        loss = ctx.choose("loss", LOSSES, free=True)
        pert = ctx.choose("perturbation of the source", [None, Poly({(0, 0): 0.5}), Poly({(1, 0): 1, (0, 1): -2})], free=True)
        mname, tr = ctx.choose("mesh and map", COMBOS)
        kind = ctx.choose("family", FAMS)
        order = ctx.choose("fe order", orders)
        rule = ctx.choose("rule", ref.QUADS)
        ci = ctx.choose("coefficients", range(len(COEF)))
        dt = ctx.choose("precision", [tf.float64, tf.float32])
        if pert is not None and (u is not SOL[-1] and u is not SOL[4]):
            from mc.explorer import Skip
            raise Skip()
        cells, affine = mesh_of(mname)
        ctx.commit()
        C = COEF[ci]
        f = strong(loss, u, C)
        src = f if pert is None else f + pert
        qo = max((order + 8) // 2 + 1, 6)
        fs = build.space(cells, order, kind, qo, rule, tr, forcing=lambda x, y: src(x, y))
        dh = DataHandler2D(fs, None, dt)
        xy = np.asarray(dh.x_pde_list, dtype=np.float64)
        n = len(cells)
        T = lambda a: tf.constant(np.reshape(a, (n, qo * qo)), dtype=dt)
        x, y = xy.T
        ux, uy = u.dx()(x, y), u.dy()(x, y)
        kw = dict(test_shape_val_mat=dh.shape_val_mat_list, test_grad_x_mat=dh.grad_x_mat_list, test_grad_y_mat=dh.grad_y_mat_list,
                  pred_nn=T(u(x, y)), pred_grad_x_nn=T(ux), pred_grad_y_nn=T(uy), forcing_function=dh.forcing_function_list,
                  bilinear_params=dh.get_bilinear_params_dict_as_tensors(lambda: {k: C[k] for k in tiny.need(loss)}))
        if loss.endswith("_inv"):
            kw["inverse_params_dict"] = dh.get_inverse_params(lambda: {"eps": C["eps"]})
        if loss.endswith("_dom"):
            kw["inverse_params_list"] = [T(EPS_FIELD(x, y))]
        got = np.asarray(tiny.loss_fn(loss)(**kw), float).reshape(-1)
        ctx.obs("loss", got)
        ctx.check(got.shape == (n,), f"one residual per cell expected, got {got.shape}")
        # magnitude of what cancels
        gx = np.abs(np.asarray(dh.grad_x_mat_list, float)).sum(-1).max(-1)
        gy = np.abs(np.asarray(dh.grad_y_mat_list, float)).sum(-1).max(-1)
        vv = np.abs(np.asarray(dh.shape_val_mat_list, float)).sum(-1).max(-1)
        co = max(abs(v) for v in C.values())
        big = 1 + np.abs(ux).max() + np.abs(uy).max() + np.abs(u(x, y)).max() + np.abs(src(x, y)).max()
        S = (gx + gy + vv) * big * max(co, co**2) * (3 if loss.endswith("dom") else 1)
        eps = 1e-12 if dt == tf.float64 else 1e-5
        what = f"{loss} u={u!r} on {mname} ({kind}{order}, {rule}{qo}, {tr}, {C})"
        if pert is None:
            for c in range(n):
                ctx.check(np.isfinite(got[c]) and got[c] <= (eps * S[c]) ** 2 * 10,
                          f"{what}: residual of the exact solution in cell {c} is {np.sqrt(abs(got[c])):.3e} (rounding level {eps*S[c]:.1e})")
        else:
            want = (exact_moments(cells, kind, order, pert) ** 2).mean(axis=1)
            for c in range(n):
                e = eps * S[c]
                ctx.check(abs(np.sqrt(max(got[c], 0)) - np.sqrt(want[c])) <= 10 * e + (1e-9 if dt == tf.float64 else 1e-4) * np.sqrt(want[c]),
                          f"{what}: source perturbed by {pert!r}: loss of cell {c} {got[c]!r}, predicted {want[c]!r}")
        return loss, repr(u), pert is None, mname
    return h


def harnesses(tier):
    return [("end to end", h_end([2, 3, 4] if tier == "quick" else [2, 3, 4, 6]), 1 if tier == "quick" else 3)]

"""C07: full product of valid and invalid discretisation settings."""
import os

import numpy as np

from mc import build, env, ref
from mc.explorer import Skip
from checks.C04 import verify_cell

BOUNDS = {"quick": "space: 6 cell types x 9 orders x 9 families x 7 quad orders x 5 rules x 5 maps, <=3 deviations from the valid default "
                   "family/rule/map; setup objects at both sides of both bounds; orders that are no integers; about 900 names near the supported ones; 6 orders x 7 quad orders x 5 families x 2 rules x 2 maps accepted and used; geometry, reader, handler and model settings: full product",
          "thorough": "space settings <=4 deviations; every order 2..16 and quad order 3..17 accepted and used"}
ASSUMPTIONS = ["a clear error is a ValueError (settings) or TypeError (tensor type)", "accepted spaces are judged by the C04 oracle"]
SHARDS = {"quick": 8, "thorough": 8}

BADSTR = ["", "Legendre", "gauss", "unknown", None]


def h_space(ctx):
    ct = ctx.choose("cell type", ["quadrilateral", "triangle", "hexahedron", "Quadrilateral", "", None])
    kind = ctx.choose("family", list(ref.BASES) + ["Legendre", "legendre ", "chebyshev", "", None])
    order = ctx.choose("fe order", [2, 3, 1, 0, -1, -2, 1000, 1001, 10**6])
    qo = ctx.choose("quad order", [3, 4, 2, 1, 0, -3, 10000, 10**7])
    rule = ctx.choose("rule", list(ref.QUADS) + ["Gauss-Legendre", "gauss", "", None])
    tr = ctx.choose("map", ["bilinear", "affine", "Affine", "bi-linear", "", None])
    ctx.commit()
    ok = (ct == "quadrilateral" and kind in ref.BASES and 2 <= order < 1000 and 3 <= qo <= 9999 and rule in ref.QUADS
          and tr in ("bilinear", "affine"))
    cells = [build.PARA, build.RECT] if tr == "affine" else [build.TRAP, build.PARA]
    what = f"cell_type={ct!r} fe_type={kind!r} fe_order={order} quad_order={qo} quad_type={rule!r} map={tr!r}"
    mk = lambda: build.space(cells, order, kind, qo, rule, tr, cell_type=ct)
    if not ok:
        if ct == "quadrilateral" and (order >= 1000 or qo >= 10000):  # a space that accepts these would take for ever to build
            from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain

            def both():
                s = FE2DSetupMain(ct, order, kind, qo, rule)
                if order >= 1000:
                    s.assign_basis_function()
                if qo >= 10000:
                    s.assign_quadrature_rules()
            ctx.raises(ValueError, both, "unsupported request accepted by the set-up: " + what)
        ctx.raises(ValueError, mk, "unsupported request accepted: " + what)
        ctx.obs("rejected", (ct, kind, order, qo, rule, tr))
        return "rejected"
    fs = mk()
    for c, cell in enumerate(cells):
        verify_cell(ctx, fs, c, cell, kind, order, qo, tr, what)
    return kind, order, qo, rule, tr


def near_names():
    """Every string one edit away from a supported name, its prefixes, and names used elsewhere for the same things."""
    sup = {"family": list(ref.BASES), "rule": list(ref.QUADS), "map": ["affine", "bilinear"], "cell type": ["quadrilateral"],
           "mesh source": ["internal", "external"], "mesh type": ["quadrilateral"], "sampling": ["uniform", "lhs"]}
    alias = {"family": "chebyshev chebyshev2 chebyshev_1 chebyshev_3 chebyshev1 jacobi_special jacobi_2 legendre_plain legendre_2 legendre-special lagrange "
                       "hermite monomial bernstein lobatto integrated_legendre hierarchical gegenbauer sine fourier nurbs p1 q1 Q1 QN parmoon polynomial default auto none",
             "rule": "gauss-lobatto lobatto legendre jacobi gauss gauss_legendre gauss_jacobi gausslegendre gauss-legendre-lobatto gauss-jacobi-lobatto "
                     "gauss-radau radau gauss-chebyshev chebyshev clenshaw-curtis newton-cotes trapezoidal simpson midpoint gauss-kronrod uniform gll gl default auto none",
             "map": "affin quad_affine quadaffin linear isoparametric iso bi_linear bi-linear biquadratic trilinear quadratic identity quad quad_bilinear "
                    "parametric default auto none reference",
             "cell type": "quad quads quad4 rectangle square triangle tri tetrahedron hexahedron hex quadrangle quadrilaterals line 2d Quad default",
             "mesh source": "gmsh file mesh generated external_file extern intern int ext read auto default none internal_mesh",
             "mesh type": "quad quads quad4 rectangle square triangle tri hexahedron hex quadrangle quadrilaterals line 2d default",
             "sampling": "random latin latin_hypercube sobol halton grid equidistant linear gauss chebyshev uniform_random none default auto LHS"}
    out = []
    for k, names in sup.items():
        c = set(alias[k].split())
        for n in names:
            c |= {n[:i] + n[i + 1:] for i in range(len(n))} | {n[:i] + n[i + 1] + n[i] + n[i + 2:] for i in range(len(n) - 1)}
            c |= {n[:i] for i in range(len(n))} | {n[i:] for i in range(1, len(n))} | {n + x for x in (" ", "s", "_", "1", "2", "_2d", "\n")}
            c |= {" " + n, n.upper(), n.capitalize(), n.title(), n.swapcase(), n + n, n.replace("-", "_"), n.replace("_", "-"), n.replace("-", " "), n.replace("_", " "),
                  n.replace("-", ""), n.replace("_", ""), n[::-1]}
            c |= {n + "_" + m for m in names} | {n + "-" + m for m in names}
        out += [(k, x) for x in sorted(c - set(names))]
    return out


def h_names(ctx):
    """A name that is not supported is rejected however close to a supported one it is."""
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.FE.FE2D_Cell import FE2D_Cell
    k, x = ctx.choose("setting and name", near_names(), free=True)
    ctx.commit()
    v = {"family": "legendre", "rule": "gauss-jacobi", "map": "bilinear", "cell type": "quadrilateral", k: x}
    if k in ("mesh source", "mesh type"):
        mt, mg = (x, "internal") if k == "mesh type" else ("quadrilateral", x)
        ctx.raises(ValueError, lambda: Geometry_2D(mt, mg, 5, 4, env.scratch.fresh("geo"), True), f"geometry accepts {k} {x!r}")
    elif k == "sampling":
        out = env.scratch.fresh("geo")
        f = os.path.join(out, "m.mesh")
        with open(f, "w") as fh:
            fh.write(MESH)
        for lv in (0, 2):
            ctx.raises(ValueError, lambda: Geometry_2D("quadrilateral", "external", 5, 4, out).read_mesh(f, lv, x, 1), f"reader accepts sampling {x!r} at level {lv}")
    else:
        def setup():
            s = FE2DSetupMain(v["cell type"], 3, v["family"], 4, v["rule"])
            if k == "family":
                s.assign_basis_function()
            elif k == "map":
                s.assign_fe_transformation(x, np.array(build.TRAP, float))
            else:
                s.assign_quadrature_rules()
        ctx.raises(ValueError, setup, f"set-up accepts {k} {x!r}")
        ctx.raises(ValueError, lambda: FE2D_Cell(np.array(build.TRAP, float), v["cell type"], 3, v["family"], 4, v["rule"], v["map"], lambda x, y: x),
                   f"cell accepts {k} {x!r}")
        ctx.raises(ValueError, lambda: build.space([build.TRAP], 3, v["family"], 4, v["rule"], v["map"], cell_type=v["cell type"]), f"space accepts {k} {x!r}")
    ctx.obs(k, x)
    return k, x


def nodes(rule, n):
    P = np.polynomial.legendre.Legendre.basis
    if rule == "gauss-jacobi":
        return np.concatenate(([-1.0], np.sort(P(n - 1).deriv().roots().real), [1.0]))
    return np.sort(P(n).roots().real)


def h_used(orders, quads):
    def h(ctx):
        order = ctx.choose("fe order", orders, free=True)
        qo = ctx.choose("quad order", quads, free=True)
        kind = ctx.choose("family", ref.BASES, free=True)
        rule = ctx.choose("rule", list(ref.QUADS), free=True)
        tr = ctx.choose("map", ["bilinear", "affine"], free=True)
        ctx.commit()
        cell = build.TRAP if tr == "bilinear" else build.PARA
        fs = build.space([cell], order, kind, qo, rule, tr)
        verify_cell(ctx, fs, 0, cell, kind, order, qo, tr, f"{kind}{order} {rule}{qo} {tr}")
        x = nodes(rule, qo)
        X, Y = (a.ravel() for a in np.meshgrid(x, x))
        xi, eta = ref.RefMap(cell).inv(np.asarray(fs.get_quadrature_actual_coordinates(0), float))
        d = np.hypot(xi[:, None] - X, eta[:, None] - Y)
        ctx.check(d.min(0).max() < 1e-8 and d.min(1).max() < 1e-8, f"{kind}{order} {rule}{qo} {tr}: the points are not those of the requested rule")
        return kind, order, qo, rule, tr
    return h


def h_setup(ctx):
    """The set-up object alone reaches the upper bounds without building huge tables."""
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    order = ctx.choose("fe order", [2, 3, 20, 200, 999, 1, 0, -5, 1000, 1001, 10**5])
    kind = ctx.choose("family", list(ref.BASES) + BADSTR)
    bad = not (2 <= order < 1000) or kind not in ref.BASES
    if bad:
        ctx.raises(ValueError, lambda: FE2DSetupMain("quadrilateral", order, kind, 3, "gauss-legendre").assign_basis_function(),
                   f"set-up accepts fe_order={order} fe_type={kind!r}")
        ctx.obs("rejected", (order, kind))
        return "rejected"
    b = FE2DSetupMain("quadrilateral", order, kind, 3, "gauss-legendre").assign_basis_function()
    ctx.obs("accepted", (order, kind))
    ctx.check(b.num_shape_functions == order**2, f"fe_order={order} gives {b.num_shape_functions} test functions")
    if order <= 3:
        xi, eta = np.array([0.3, -0.7, 0.9]), np.array([-0.2, 0.4, 1.0])
        ctx.close(b.value(xi, eta), ref.basis_table(kind, order, xi, eta)[0], f"family {kind!r} really used")
    return order, kind


def h_fractional(ctx):
    """Orders that are no integers are rejected, never rounded to one; integer types of numpy are integers."""
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    which = ctx.choose("setting", ["fe order", "quad order"])
    v = ctx.choose("value", [4.5, 3.999, 5.000001, "4", np.float64(4.25), np.float32(3.5), float("nan"), float("inf"), None, np.int64(4), np.int32(5), (3,)])
    rule = ctx.choose("rule", list(ref.QUADS))
    kind = ctx.choose("family", ref.BASES)
    via = ctx.choose("through", ["set-up", "space"])
    ctx.commit()
    fo, qo = (v, 4) if which == "fe order" else (3, v)
    what = f"{which} {v!r} with {kind}, {rule}"

    def mk():
        if via == "space":
            return build.space([build.TRAP, build.PARA], fo, kind, qo, rule)
        s = FE2DSetupMain("quadrilateral", fo, kind, qo, rule)
        b, q = s.assign_basis_function(), s.assign_quadrature_rules()
        return b, q, b.value(np.array([0.25]), np.array([-0.5]))
    if isinstance(v, np.integer):
        r = mk()
        if via == "space":
            verify_cell(ctx, r, 0, build.TRAP, kind, int(fo), int(qo), "bilinear", what)
        else:
            ctx.check(r[0].num_shape_functions == fo**2 and np.size(r[1][0]) == qo * qo, f"{what}: not the requested orders")
    else:
        ctx.raises((ValueError, TypeError, OverflowError), mk, f"{what}: accepted")
    ctx.obs(what, via)
    return which, repr(v), rule, kind, via


def h_quadsetup(ctx):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    q = ctx.choose("quad order", [3, 4, 5, 10, 30, 2, 1, 0, -1, 10000, 12345, 10**9])
    rule = ctx.choose("rule", list(ref.QUADS) + BADSTR)
    ct = ctx.choose("cell type", ["quadrilateral", "triangle", "Quadrilateral", None])
    tr = ctx.choose("map", ["affine", "bilinear", "Affine", "", None])
    s = lambda: FE2DSetupMain(ct, 3, "legendre", q, rule)
    if 3 <= q <= 9999 and rule in ref.QUADS and ct == "quadrilateral":
        w, xi, eta = s().assign_quadrature_rules()
        ctx.check(np.size(w) == q * q, f"quad_order={q} gives {np.size(w)} points")
        corner = (np.abs(np.abs(xi) - 1) < 1e-12) & (np.abs(np.abs(eta) - 1) < 1e-12)
        ctx.check(corner.sum() == (4 if rule == "gauss-jacobi" else 0), f"{rule} of order {q} is not the rule used")
        ctx.obs("rule", w)
    else:
        ctx.raises(ValueError, lambda: s().assign_quadrature_rules(), f"set-up accepts quad_order={q} rule={rule!r} cell={ct!r}")
    if tr in ("affine", "bilinear") and ct == "quadrilateral":
        t = s_valid(ct).assign_fe_transformation(tr, np.array(build.PARA))
        xi, eta = np.array([-1.0, 0.5, 0.0]), np.array([1.0, 0.25, 0.0])
        got = np.array([t.get_original_from_ref(a, b) for a, b in zip(xi, eta)])
        ctx.close(got.reshape(3, 2), ref.RefMap(build.PARA).fwd(xi, eta), f"{tr} map")
    else:
        ctx.raises(ValueError, lambda: s_valid(ct).assign_fe_transformation(tr, np.array(build.PARA)), f"set-up accepts map={tr!r} cell={ct!r}")
    ctx.obs("done", (q, rule, ct, tr))
    return q, rule, ct, tr


def s_valid(ct):
    from fastvpinns.FE.fe2d_setup_main import FE2DSetupMain
    return FE2DSetupMain(ct, 3, "legendre", 3, "gauss-legendre")


MESH = """MeshVersionFormatted 2
Dimension
3
Vertices
6
0 0 0 0
1 0 0 0
2 0 0 0
0 1 0 0
1 1 0 0
2 1 0 0
Edges
2
1 2 7
6 3 9
Quadrilaterals
2
1 2 5 4 0
2 3 6 5 0
End
"""


def h_geometry(ctx):
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    mt = ctx.choose("mesh type", ["quadrilateral", "triangle", "Quadrilateral", "quad", "", None])
    mg = ctx.choose("mesh source", ["external", "internal", "External", "gmsh", "", None])
    ext = ctx.choose("file extension", [".mesh", ".msh", ".vtk", "", ".MESH", ".mesh.bak"])
    bd = ctx.choose("boundary sampling", ["uniform", "lhs", "Uniform", "random", "", None])
    ref_l = ctx.choose("reader refinement level", [1, 0, 2])
    bd_l = ctx.choose("boundary refinement level", [2, 0, 1, 3])
    ctx.commit()
    out = env.scratch.fresh("geo")
    mk = lambda: Geometry_2D(mt, mg, 5, 4, out)
    if mt != "quadrilateral" or mg not in ("internal", "external"):
        ctx.raises(ValueError, mk, f"geometry accepts mesh_type={mt!r} method={mg!r}")
        ctx.obs("rejected", (mt, mg))
        return "rejected"
    if mg == "internal":
        if bd != "uniform" or ext != ".mesh" or (ref_l, bd_l) != (1, 2):
            raise Skip()
        g = Geometry_2D(mt, mg, 5, 4, out, True)
        cells, b = g.generate_quad_mesh_internal((0, 1), (0, 1), 2, 1, 8)
        ctx.check(cells.shape == (2, 4, 2), "internal source")
        return "internal"
    f = os.path.join(out, "m" + ext)
    with open(f, "w") as fh:
        fh.write(MESH)
    g = mk()
    if ext != ".mesh" or bd not in ("uniform", "lhs"):
        ctx.raises(ValueError, lambda: g.read_mesh(f, bd_l, bd, ref_l),
                   f"reader accepts extension {ext!r} sampling {bd!r} at levels {bd_l},{ref_l}")
        ctx.obs("rejected", (ext, bd))
        return "rejected"
    cells, b = g.read_mesh(f, bd_l, bd, ref_l)
    ctx.obs("read", cells)
    ctx.check(cells.shape == (2, 4, 2) and sorted(int(k) for k in b) == [7, 9], "external source")
    n = {int(k): np.asarray(v)[:, :2] for k, v in b.items()}
    if bd == "uniform":
        ctx.close(np.sort(n[7][:, 0]), np.linspace(0, 1, 2**bd_l + 1), "uniform sampling used")
    else:
        ctx.check(all(v.shape == (2**bd_l + 1, 2) for v in n.values()), "lhs sampling delivers its count")
    return mt, mg, ext, bd, ref_l, bd_l


def h_dtype(ctx):
    import tensorflow as tf
    from checks import tiny
    dt = ctx.choose("dtype", [tf.float32, tf.float64, "float32", "float64", np.float32, np.float64, np.dtype("float64"), None, 32, float])
    who = ctx.choose("object", ["handler", "dense", "hard", "inverse", "domain"])
    good = isinstance(dt, tf.DType)
    if who == "handler":
        from fastvpinns.data.datahandler2d import DataHandler2D
        fs = build.space([build.TRAP], 2, "legendre", 3)
        mk = lambda: DataHandler2D(fs, None, dt)
        if good:
            ctx.check(mk().x_pde_list.dtype == dt, "handler precision")
        else:
            ctx.raises(TypeError, mk, f"handler accepts dtype {dt!r}")
    else:
        D = tiny.data(dt if good else tf.float32)
        mk = lambda: tiny.model(who, D, dtype=dt)
        if good:
            m = mk()
            ctx.check(m(D.x[:3]).dtype == dt, f"{who} model output precision")
        else:
            ctx.raises(TypeError, mk, f"{who} model accepts dtype {dt!r}")
    ctx.obs(who, repr(dt))
    return who, repr(dt)


def harnesses(tier):
    q = tier == "quick"
    return [("setup", h_setup, None, {"split": False}), ("quad setup", h_quadsetup, 2 if q else None, {"split": False}),
            ("near names", h_names, None), ("space", h_space, 3 if q else 4),
            ("fractional", h_fractional, None), ("geometry", h_geometry, 3 if q else None), ("dtype", h_dtype, None, {"split": False}),
            ("used", h_used([2, 3, 5, 8, 11, 14], [3, 4, 5, 8, 11, 13, 16]) if q else h_used(range(2, 17), range(3, 18)), None)]

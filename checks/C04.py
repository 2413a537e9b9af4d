"""C04: assembled cell tables, order-agnostic in the quadrature points."""
import numpy as np

from mc import ref, build

BOUNDS = {"quick": "all 1- and 2-cell meshes over 6 cells in every order, all 3-cell meshes over 3 cells; 5 families, orders 2..4, "
                   "quad orders 3..6, 2 rules, 2 maps: full product over (cells, map), <=2 deviations in the discretisation; "
                   "one-cell product of all discretisations with orders 2..6; near-affine, skew, tiny and large cells in pairs; twin cells 1e-8..1e-3 apart, cells of size 1e-9; grids up to 540 cells",
          "thorough": "<=4 deviations (full product); orders 2..8"}
ASSUMPTIONS = ["relative tolerance 1e-9", "bilinear inverse by Newton iteration (converges on convex cells)"]
SHARDS = {"quick": 6, "thorough": 8}


def verify_cell(ctx, fs, c, cell, kind, order, qo, transform, what, s=1.0):
    """cell: the cell divided by s"""
    w = np.asarray(fs.get_quadrature_weights(c), float)
    xy = np.asarray(fs.get_quadrature_actual_coordinates(c), float)
    V = np.asarray(fs.get_shape_function_val(c), float)
    GX = np.asarray(fs.get_shape_function_grad_x(c), float)
    GY = np.asarray(fs.get_shape_function_grad_y(c), float)
    ctx.obs(("cell", c), (w, xy, V, GX, GY))
    w, xy, V, GX, GY = w / s**2, xy / s, V / s**2, GX / s, GY / s
    nq, nt = qo * qo, order * order
    w = w.reshape(-1)
    ctx.check(w.shape == (nq,) and xy.shape == (nq, 2), f"{what}: weights {w.shape} points {xy.shape}, expected {nq} points")
    for nm, a in (("val", V), ("grad_x", GX), ("grad_y", GY)):
        ctx.check(a.shape == (nt, nq), f"{what}: {nm} has shape {a.shape}, expected {(nt, nq)}")
    cell = np.array(cell, float)
    R = ref.RefMap(cell)
    xi, eta = R.inv(xy)
    ctx.check(max(np.abs(xi).max(), np.abs(eta).max()) < 1 + 1e-9, f"{what}: quadrature point outside the cell")
    A = float(abs(ref.area(cell)))
    ctx.check(abs(w.sum() - A) < 1e-11 * A, f"{what}: weights sum to {w.sum()!r}, cell area is {A!r}")
    d = np.abs(cell).max()
    # exact for bilinear integrands up to total degree 2*qo-3-1 in each reference variable
    for i in range(3):
        for j in range(3 - i):
            if i + j + 1 <= 2 * qo - 3:
                e = float(ref.poly_integral([tuple(p) for p in cell], i, j)) * np.sign(float(ref.area(cell)))
                g = float((w * xy[:, 0] ** i * xy[:, 1] ** j).sum())
                ctx.check(abs(g - e) < 1e-10 * A * max(1, d) ** (i + j), f"{what}: cell integral of x^{i}y^{j} is {g!r}, exact {e!r}")
    v, vx, vy = ref.basis_table(kind, order, xi, eta)[:3]
    px, py = R.phys_grad(vx, vy, xi, eta)
    for nm, got, want in (("val", V, v), ("grad_x", GX, px), ("grad_y", GY, py)):
        s = max(1e-300, float(np.abs(want * w).max()))
        ctx.close(got / s, want * w / s, f"{what}: {nm} table", tol=1e-8)
    if True:
        # reference gradients are those at the same reference points, unweighted
        RX = np.asarray(fs.get_shape_function_grad_x_ref(c), float)
        RY = np.asarray(fs.get_shape_function_grad_y_ref(c), float)
        ctx.close(RX, vx, f"{what}: reference xi-gradient", tol=1e-8)
        ctx.close(RY, vy, f"{what}: reference eta-gradient", tol=1e-8)


def config(ctx, orders, quads, free):
    kind = ctx.choose("family", ref.BASES, free=free)
    order = ctx.choose("fe order", orders, free=free)
    qo = ctx.choose("quad order", quads, free=free)
    rule = ctx.choose("rule", ref.QUADS, free=free)
    return kind, order, qo, rule


def h_mesh(combos, orders, quads):
    def h(ctx):
        names = ctx.choose("cells", combos, free=True)
        transform = ctx.choose("map", ["bilinear", "affine"], free=True)
        kind, order, qo, rule = config(ctx, orders, quads, False)
        if transform == "affine" and any(n not in build.AFFINE_ALL for n in names):
            from mc.explorer import Skip
            raise Skip()
        ctx.commit()
        cells = [build.CELLS_ALL[n] for n in names]
        fs = build.space(cells, order, kind, qo, rule, transform)
        ctx.check(fs.n_cells == len(cells), f"reports {fs.n_cells} cells")
        for c, cell in enumerate(cells):
            verify_cell(ctx, fs, c, cell, kind, order, qo, transform, f"{names} {transform} {kind}{order} {rule}{qo} cell {c}")
        return names, transform, kind, order, qo, rule
    return h


def h_disc(orders, quads):
    def h(ctx):
        kind, order, qo, rule = config(ctx, orders, quads, True)
        names, transform = ctx.choose("cell", [(("trap", "kite"), "bilinear"), (("para", "rect"), "affine")])
        ctx.commit()
        cells = [build.CELLS_ALL[n] for n in names]
        fs = build.space(cells, order, kind, qo, rule, transform)
        for c, cell in enumerate(cells):
            verify_cell(ctx, fs, c, cell, kind, order, qo, transform, f"{names} {transform} {kind}{order} {rule}{qo} cell {c}")
        return kind, order, qo, rule, names
    return h


def h_near(eps):
    """Nearly affine cells: the tables follow the distortion however small it is."""
    def h(ctx):
        name = ctx.choose("cell", list(build.AFFINE))
        e = ctx.choose("relative size of the move", eps)
        corner = ctx.choose("corner", range(4))
        mv = ctx.choose("direction", [(1, 0), (0, 1), (-1, 1), (1, 1)])
        ctx.commit()
        d = e * float(np.ptp(np.array(build.CELLS[name]), axis=0).min())
        cell = build.near(name, corner, d * mv[0], d * mv[1])
        cells = [cell, build.CELLS[name]]
        fs = build.space(cells, 2, "legendre", 4, "gauss-legendre", "bilinear")
        for c, cl in enumerate(cells):
            verify_cell(ctx, fs, c, cl, "legendre", 2, 4, "bilinear", f"{name} corner {corner} moved by {e} {mv}: cell {c}")
        return name, e, corner, mv
    return h


def h_twin(shifts):
    """Two cells of one mesh that differ by very little, and meshes of very small cells: each has its own tables."""
    def h(ctx):
        name = ctx.choose("cell", ["unit", "trap", "para", "kite"])
        e = ctx.choose("distance of the twin", shifts)
        how = ctx.choose("twin", ["moved in x", "moved in y", "one corner moved", "scaled"])
        order = ctx.choose("cells", ["twin last", "twin first", "twin between"])
        s = ctx.choose("scale", [1.0, 1e-9, 1e-5])
        transform = ctx.choose("map", ["bilinear", "affine"])
        if transform == "affine" and (name not in build.AFFINE_ALL or how == "one corner moved"):
            from mc.explorer import Skip
            raise Skip()
        ctx.commit()
        A = np.array(build.CELLS_ALL[name], float)
        B = A.copy()
        if how == "moved in x":
            B[:, 0] += e
        elif how == "moved in y":
            B[:, 1] -= e
        elif how == "scaled":
            B *= 1 + e
        else:
            B[2] += (e, e)
        A, B = s * A, s * B
        cells = {"twin last": [A, B], "twin first": [B, A], "twin between": [A, B, A]}[order]
        fs = build.space([[tuple(map(float, p)) for p in c] for c in cells], 2, "legendre", 4, "gauss-legendre", transform)
        for c, cell in enumerate(cells):
            what = f"{name} {how} by {e} ({order}) scale {s} {transform}: cell {c}"
            verify_cell(ctx, fs, c, [tuple(p) for p in cell / s], "legendre", 2, 4, transform, what, s)
        return name, e, how, order, s, transform
    return h


def h_big(counts):
    """Larger meshes: a grid of distinct cells, every cell checked."""
    def h(ctx):
        nx, ny = ctx.choose("grid", counts)
        skew = ctx.choose("skewed", [False, True])
        u, o = ctx.choose("spacing and origin", [(1.0, 0.0), (1 / 3, 0.1)])
        ctx.commit()
        P = lambda i, j: (o + u * (i * 1.0 + (0.25 * j if skew else 0)), o + u * (j * 0.5 + (0.125 * (i % 3) if skew else 0)))
        cells = [(P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)) for i in range(nx) for j in range(ny)]
        fs = build.space(cells, 2, "legendre", 3, "gauss-jacobi", "bilinear")
        ctx.check(fs.n_cells == len(cells), "number of cells")
        for c, cell in enumerate(cells):
            verify_cell(ctx, fs, c, cell, "legendre", 2, 3, "bilinear", f"grid {nx}x{ny} cell {c}")
        return nx, ny, skew
    return h


XTRA = [(n,) for n in build.EXTRA] + [("wide", "high"), ("high", "wide2"), ("high", "diamond", "wide"), ("micro", "mega"), ("micro2", "unit"), ("far", "trap"), ("wide2", "wide", "high"),
     ("unit", "rhombus"), ("rhombus2", "rhombus", "unit"), ("turned", "half"), ("symtrap", "sym"), ("half", "micro2")]


def harnesses(tier):
    import itertools
    n = list(build.CELLS)
    combos = [(a,) for a in n] + list(itertools.permutations(n, 2)) + [(a, a) for a in n[:2]]
    combos += XTRA
    combos += list(itertools.permutations(["rect", "para", "tiny"], 3)) + list(itertools.permutations(["trap", "unit", "kite"], 3))
    if tier == "quick":
        return [("mesh", h_mesh(combos, [2, 3, 4], [4, 3, 5]), 1),
                ("near affine", h_near([1e-2, 1e-4, 1e-6]), None),
                ("discretisation", h_disc([2, 3, 4, 5, 6], [3, 4, 6, 9]), None),
                ("twins", h_twin([1e-8, 1e-6, 1e-3]), None),
                ("grids", h_big([(2, 3), (1, 17), (9, 12), (20, 27)]), None)]
    return [("mesh", h_mesh(combos, [2, 3, 4], [4, 3, 5]), None),
            ("near affine", h_near([0.2, 0.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7]), None),
            ("discretisation", h_disc([2, 3, 4, 5, 6, 7, 8], [3, 4, 5, 6, 7, 8, 9, 10]), None),
            ("twins", h_twin([1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]), None),
            ("grids", h_big([(2, 3), (1, 17), (9, 12), (20, 15), (33, 1), (40, 30)]), None)]

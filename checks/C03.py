"""C03: reference-to-physical maps on every lattice quadrilateral."""
import numpy as np

from mc import ref, build

BOUNDS = {"quick": "all strictly convex quadrilaterals on the 3x3 and 2x4 lattices, all start vertices, both orientations, "
                   "6 placements; all affine parallelograms on 4x4; 25+6 reference points; near-affine quadrilaterals: each corner of a parallelogram moved by 1e-7..0.2; tiny and huge placements",
          "thorough": "4x4 lattice (all), 5x5 parallelograms, 10 placements"}
ASSUMPTIONS = ["relative tolerance 1e-10 (scaled by the placement)"]
SHARDS = {"quick": 4, "thorough": 8}

PLACE = [(1.0, 1.0, 0.0, 0.0, 0.0), (0.25, 0.25, -3.0, 7.0, 0.0), (10.0, 1.0, 100.0, -1.0, 0.0),
         (1.0, 1.0, -0.5, -0.5, 0.7), (1e-3, 1e-3, 0.0, 0.0, 2.1), (1e3, 1e3, -1e3, 5e2, 0.0),
         (1.0, 1e-2, 0.0, 0.0, 0.3), (2.0, -3.0, 1.0, 1.0, 0.0), (2.0**-22, 2.0**-22, 0.0, 0.0, 0.4), (2.0**22, 2.0**21, 5.0, -7.0, 0.0)]


def place(cell, p):
    sx, sy, dx, dy, r = p
    c = np.array(cell, dtype=np.float64) * [sx, sy] + [dx, dy]
    if r:
        R = np.array([[np.cos(r), -np.sin(r)], [np.sin(r), np.cos(r)]])
        c = c @ R.T
    return c


G = np.array([-1.0, -0.55, 0.0, 0.31, 1.0])
XI, ETA = (a.ravel() for a in np.meshgrid(G, G))


def verify(ctx, T, cell, cls):
    R = ref.RefMap(cell)
    size = float(np.abs(cell - cell.mean(axis=0)).max())
    off = float(np.abs(cell).max())
    for (x, y), v in zip(ref.REFV, cell):
        got = np.asarray(T.get_original_from_ref(float(x), float(y)))
        ctx.check(got.shape == (2,) and np.abs(got - v).max() <= 1e-12 * (size + off),
                  f"{cls}: reference corner ({x},{y}) is sent to {got}, cell corner is {v}")
    # one vectorised, the rest point by point: the two ways the package calls it
    want = R.fwd(XI, ETA)
    got = np.stack([np.asarray(T.get_original_from_ref(a, b)) for a, b in zip(XI, ETA)])
    ctx.obs("map", got)
    ctx.close((got - cell[0]) / size, (want - cell[0]) / size, f"{cls}: physical points", tol=1e-11 * (1 + off / size))
    want = np.abs(R.det(XI, ETA)) / size**2
    got = np.array([np.ravel(T.get_jacobian(a, b))[0] for a, b in zip(XI, ETA)], dtype=float) / size**2
    ctx.obs("jacobian", got)
    ctx.close(got, want, f"{cls}: Jacobian", tol=1e-11 * (1 + off / size))
    # derivative of monomials xi^a eta^b, all at once as 'test functions'
    fam = [(a, b) for a in range(4) for b in range(4)]
    for q in range(0, len(XI), 4):
        x, y = XI[q:q + 1], ETA[q:q + 1]
        gx = np.array([a * x ** max(a - 1, 0) * y**b if a else 0 * x for a, b in fam])
        gy = np.array([b * x**a * y ** max(b - 1, 0) if b else 0 * x for a, b in fam])
        kx, ky = gx.copy(), gy.copy()
        ox, oy = T.get_orig_from_ref_derivative(gx, gy, XI[q], ETA[q])
        wx, wy = R.phys_grad(kx, ky, XI[q], ETA[q])
        ctx.close(np.asarray(ox) * size, wx * size, f"{cls}: d/dx at ({XI[q]},{ETA[q]})", tol=1e-9 * (1 + off / size))
        ctx.close(np.asarray(oy) * size, wy * size, f"{cls}: d/dy at ({XI[q]},{ETA[q]})", tol=1e-9 * (1 + off / size))
        ctx.check(np.array_equal(gx, kx) and np.array_equal(gy, ky), f"{cls}: gradient conversion changed its input")
    # all points in one call, as the cell set-up does
    gx = np.array([a * XI ** max(a - 1, 0) * ETA**b if a else 0 * XI for a, b in fam])
    gy = np.array([b * XI**a * ETA ** max(b - 1, 0) if b else 0 * XI for a, b in fam])
    ox, oy = T.get_orig_from_ref_derivative(gx, gy, XI, ETA)
    wx, wy = R.phys_grad(gx, gy, XI, ETA)
    ctx.obs("grad", (ox, oy))
    ctx.close(np.asarray(ox) * size, wx * size, f"{cls}: d/dx, all points at once", tol=1e-9 * (1 + off / size))
    ctx.close(np.asarray(oy) * size, wy * size, f"{cls}: d/dy, all points at once", tol=1e-9 * (1 + off / size))


def second(ctx, T, cell):
    """Affine: for u(x,y) quadratic/cubic, feed its reference second derivatives, expect the physical ones."""
    R = ref.RefMap(cell)
    c0 = cell[0]
    size = float(np.abs(cell - cell.mean(axis=0)).max())
    a, b, c, d = R.jac(0.0, 0.0)
    for (i, j) in ((2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2), (0, 3)):
        p = R.fwd(XI, ETA)
        X, Y = (p[:, 0] - c0[0]) / size, (p[:, 1] - c0[1]) / size
        uxx = (i * (i - 1) * X ** max(i - 2, 0) * Y**j) if i > 1 else 0 * X
        uyy = (j * (j - 1) * X**i * Y ** max(j - 2, 0)) if j > 1 else 0 * X
        uxy = (i * j * X ** max(i - 1, 0) * Y ** max(j - 1, 0)) if i and j else 0 * X
        A, B, C, D = a / size, b / size, c / size, d / size
        r20 = A * A * uxx + 2 * A * C * uxy + C * C * uyy
        r11 = A * B * uxx + (A * D + B * C) * uxy + C * D * uyy
        r02 = B * B * uxx + 2 * B * D * uxy + D * D * uyy
        oxx, oxy, oyy = T.get_orig_from_ref_second_derivative(r20[None], r11[None], r02[None], XI, ETA)
        cond = 1.0 / max(1e-12, abs(A * D - B * C)) ** 2
        ctx.obs(("second", i, j), (np.asarray(oxx) * size**2))
        for nm, o, w in (("xx", oxx, uxx), ("xy", oxy, uxy), ("yy", oyy, uyy)):
            ctx.close(np.asarray(o)[0] * size**2, w, f"affine: second derivative {nm} of x^{i}y^{j}", tol=1e-10 * max(1, cond))


def h_bilinear(cells, places):
    def h(ctx):
        cell = ctx.choose("cell", cells, free=True)
        pl = ctx.choose("placement", places)
        flip = ctx.choose("clockwise", [False, True])
        ctx.commit()
        from fastvpinns.FE.quad_bilinear import QuadBilinear
        c = place(cell[::-1] if flip else cell, pl)
        verify(ctx, QuadBilinear(c.copy()), c, "bilinear")
        return cell, pl, flip
    return h


def h_near(eps):
    """Nearly affine cells: one or two corners of a parallelogram moved by very little (or stretched far)."""
    def h(ctx):
        name = ctx.choose("cell", list(build.AFFINE), free=True)
        e = ctx.choose("relative size of the move", eps, free=True)
        mv = [(ctx.choose(f"corner {i} dx", [0, 1, -1]), ctx.choose(f"corner {i} dy", [0, 1, -1])) for i in range(4)]
        ctx.commit()
        from fastvpinns.FE.quad_bilinear import QuadBilinear
        c = np.array(build.CELLS[name])
        c = c + e * np.abs(c - c.mean(axis=0)).min() * np.array(mv, float)
        verify(ctx, QuadBilinear(c.copy()), c, "bilinear")
        return name, e, tuple(mv)
    return h


def h_affine(cells, places):
    def h(ctx):
        cell = ctx.choose("cell", cells, free=True)
        pl = ctx.choose("placement", places)
        flip = ctx.choose("clockwise", [False, True])
        ctx.commit()
        from fastvpinns.FE.quad_affine import QuadAffin
        c = place(cell[::-1] if flip else cell, pl)
        T = QuadAffin(c.copy())
        verify(ctx, T, c, "affine")
        second(ctx, T, c)
        return cell, pl, flip
    return h


def h_two(cells):
    """Two maps alive at once, queried alternately."""
    def h(ctx):
        k1 = ctx.choose("kind 1", ["bilinear", "affine"])
        k2 = ctx.choose("kind 2", ["bilinear", "affine"])
        c1 = ctx.choose("cell 1", cells)
        c2 = ctx.choose("cell 2", cells)
        ctx.commit()
        from fastvpinns.FE.quad_bilinear import QuadBilinear
        from fastvpinns.FE.quad_affine import QuadAffin
        K = {"bilinear": QuadBilinear, "affine": QuadAffin}
        a, b = np.array(c1, float), np.array(c2, float)
        A, B = K[k1](a.copy()), K[k2](b.copy())
        verify(ctx, A, a, k1)
        verify(ctx, B, b, k2)
        verify(ctx, A, a, k1)
        return k1, k2, c1, c2
    return h


def harnesses(tier):
    if tier == "quick":
        q = ref.lattice_quads(3) + ref.lattice_quads(2, 4)
        par = [c for c in ref.lattice_quads(4) if ref.is_parallelogram(c)]
        places = PLACE[:4] + PLACE[-2:]
    else:
        q = ref.lattice_quads(4)
        par = [c for c in ref.lattice_quads(5) if ref.is_parallelogram(c)]
        places = PLACE
    q = q + [c for n, c in build.CELLS_ALL.items() if n not in ("micro", "micro2", "mega", "far")]
    par = par + [build.CELLS_ALL[n] for n in build.AFFINE_ALL if n not in ("micro2",)]
    two = [((0, 0), (1, 0), (1, 1), (0, 1)), ((1, 0), (3, 1), (2, 3), (0, 2)), ((2, 1), (4, 2), (3, 4), (1, 3))]
    return [("bilinear", h_bilinear(q, places), 1),
            ("near affine", h_near([1e-2, 1e-4, 1e-7, 0.2] if tier == "quick" else [0.2, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-9]),
             2 if tier == "quick" else 3),
            ("affine", h_affine(par, places), 1), ("two maps", h_two(two), None)]

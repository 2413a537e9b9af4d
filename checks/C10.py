"""C10: boundary points of internal meshes, for every answer of the random design."""
import numpy as np

from mc import env
from mc.explorer import Skip
from checks.C09 import LIM as LIM9, gen

LIM = LIM9 + [(0.0, 2e-9), (-3e-12, 5e-12), (1e8, 1e8 + 3), (-1e-30, 1e-30)]

BOUNDS = {"quick": "all requests 4..24 and 13 larger ones x 16 limit pairs per axis x 4 cell counts x 5 stratum offsets x 3 column "
                   "orders of the random design seam: <=2 deviations; all ordered pairs of requests on one object",
          "thorough": "full product over limits and seam answers, requests 4..64"}
ASSUMPTIONS = ["pyDOE.lhs returns one value per stratum in [0,1): the seam answers with the ends and the middle of each stratum; "
               "an implementation that does not consult it is judged on its own samples"]
SHARDS = {"quick": 6, "thorough": 8}
OFF = [0.5, 0.0, 1 - 2.0**-53, 0.25, 1e-12]


def verify(ctx, bd, xl, yl, n, what):
    bd = {int(k): np.asarray(v) for k, v in bd.items()}
    ctx.check(sorted(bd) == [1000, 1001, 1002, 1003], f"{what}: tags {sorted(bd)}")
    k = n // 4
    for tag, axis, val, lo, hi in ((1000, 1, yl[0], *xl), (1001, 0, xl[1], *yl), (1002, 1, yl[1], *xl), (1003, 0, xl[0], *yl)):
        p = bd[tag]
        ctx.check(p.shape == (k, 2), f"{what}: tag {tag} has points of shape {p.shape}, expected {(k, 2)}")
        ctx.check(p.dtype == np.float64, f"{what}: tag {tag} has dtype {p.dtype}")
        ctx.check(np.all(p[:, axis] == val), f"{what}: tag {tag} is not on its side: {p.tolist()[:3]}")
        f = p[:, 1 - axis]
        t = 4e-16 * max(abs(lo), abs(hi))
        ctx.check(np.all(f >= lo - t) and np.all(f <= hi + t), f"{what}: tag {tag} leaves its side [{lo},{hi}]: {f.min()!r}..{f.max()!r}")
        ctx.check(len(np.unique(f)) == k or (hi - lo) < 1e-9 * max(abs(lo), abs(hi)), f"{what}: tag {tag} repeats points")
        if k >= 8:
            m = 0.5 * (lo + hi)
            ctx.check((f <= m).any() and (f >= m).any(), f"{what}: tag {tag} samples only part of its side")


def h_one(ns, bound_all):
    def h(ctx):
        n = ctx.choose("points", ns, free=True)
        xl = ctx.choose("x limits", LIM)
        yl = ctx.choose("y limits", LIM[::-1])
        nx, ny = ctx.choose("cells", [(2, 3), (1, 1), (5, 2), (9, 1)])
        off = ctx.choose("offset in stratum", OFF)
        rot = ctx.choose("column order", [1, -1, 0])
        ctx.commit()
        env.lhs_offset, env.lhs_rotate = off, rot
        g, cells, bd = gen(nx, ny, xl, yl, nb=n)
        ctx.obs("boundary", [bd[t] for t in sorted(bd)])
        verify(ctx, bd, xl, yl, n, f"{n} points on {xl}x{yl} ({nx}x{ny} cells, design {off}/{rot})")
        verify(ctx, g.bd_dict, xl, yl, n, f"stored dictionary: {n} points on {xl}x{yl}")
        return n, xl, yl, off
    return h


REQ = [(4, LIM[0], LIM[1]), (7, LIM[1], LIM[0]), (40, LIM[2], LIM[3]), (400, LIM[8], LIM[6]), (13, LIM[5], LIM[9]), (16, LIM[0], LIM[1])]


def h_hist(depth):
    def h(ctx):
        seq = [ctx.choose(f"request {i}", range(len(REQ)), free=True) for i in range(depth)]
        off = ctx.choose("offset", OFF[:3])
        ctx.commit()
        env.lhs_offset = off
        g, kept = None, []
        for k in seq:
            n, xl, yl = REQ[k]
            g, cells, bd = gen(2, 2, xl, yl, obj=g, nb=n)
            ctx.obs(("request", k), [bd[t] for t in sorted(bd)])
            kept.append((bd, k))
            for b, kk in kept:
                verify(ctx, b, REQ[kk][1], REQ[kk][2], REQ[kk][0], f"request {kk} in {seq}")
        return tuple(seq), off
    return h


def h_real(ns):
    """The real sampler (seeded), so that the seam is not the only design seen."""
    def h(ctx):
        n = ctx.choose("points", ns, free=True)
        s = ctx.choose("seed", range(4), free=True)
        ctx.commit()
        import pyDOE
        seam = pyDOE.lhs
        import fastvpinns.Geometry.geometry_2d as G
        old = getattr(G, "lhs", None)
        np.random.seed(1000 * env.SEED + s)
        try:
            if old is not None:
                G.lhs = seam.real
            g, cells, bd = gen(3, 2, (-1.5, 2.0), (0.25, 0.5), nb=n)
        finally:
            if old is not None:
                G.lhs = old
        verify(ctx, bd, (-1.5, 2.0), (0.25, 0.5), n, f"real design, {n} points, seed {s}")
        ctx.obs("n", n)
        return n
    return h


def harnesses(tier):
    if tier == "quick":
        ns = list(range(4, 25)) + [31, 32, 33, 40, 63, 64, 100, 127, 400, 1000, 2003, 4096, 10001, 40000]
        return [("design", h_one(ns, False), 2), ("history", h_hist(2), None), ("real sampler", h_real([4, 9, 33, 128, 5000]), None)]
    ns = list(range(4, 65)) + [100, 127, 255, 400, 1000, 2003, 4096, 10001, 50000]
    return [("design", h_one(ns, True), 4), ("history", h_hist(3), None), ("real sampler", h_real(range(4, 40)), None)]

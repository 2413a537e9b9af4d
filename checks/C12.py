"""C12: boundary points of mesh files."""
import itertools
import os

import numpy as np

from mc import env, meshfile
from checks.C11 import geo, ORDERS

BOUNDS = {"quick": "all 3^4 tag assignments of a 4-edge cell and all 2^6 of a 2-cell mesh x refinement 0..3 x 2 sampling methods x 4 "
                   "stratum offsets x edge orders/directions/section orders/tag alphabets: <=2 deviations; all ordered pairs of reads; grids with up to "
                   "242 boundary edges and tags, refinement up to 4; graded meshes with edges down to 2e-7 of the longest, refinement up to 3; one cell with refinement up to 11",
          "thorough": "all 3^6 assignments, all edge orders up to 3 displacements, refinement 0..6, <=3 deviations"}
ASSUMPTIONS = ["a random design may coincide at a shared vertex only for the extreme offsets; exact counts are required for the others"]
SHARDS = {"quick": 6, "thorough": 8}

ALPHA = [(1000, 1001, 7), (0, 1, 2), (3, -1, 123456), (9, 8, 1000), (1, 10, 100)]
Q1 = dict(verts=[(0, 0), (2, 0.5), (3, 2.25), (-0.5, 1.75)], quads=[(0, 1, 2, 3, 0)], edges=[(0, 1), (1, 2), (2, 3), (3, 0)])
Q2 = dict(verts=[(0, 0), (2, 0.25), (4, 0), (0.5, 2), (2.25, 1.5), (3.5, 3)], quads=[(0, 1, 4, 3, 0), (1, 2, 5, 4, 0)],
          edges=[(0, 1), (1, 2), (2, 5), (5, 4), (4, 3), (3, 0)])
OFF = [0.5, 0.25, 0.0, 1 - 2.0**-53]


def segment(p, q, n):
    return [(p[0] + (q[0] - p[0]) * k / n, p[1] + (q[1] - p[1]) * k / n) for k in range(n + 1)]


def verify(ctx, bd, edges, verts, level, method, exact, what):
    """edges: [(a, b, tag)] ; bd: returned dictionary"""
    got = {int(k): np.asarray(v, float) for k, v in bd.items()}
    ctx.obs("boundary", [(k, np.sort(got[k][:, :2], axis=0)) for k in sorted(got)])
    ctx.check(sorted(got) == sorted({t for *_, t in edges}), f"{what}: tags {sorted(got)}, the file has {sorted({t for *_, t in edges})}")
    n = 2**level
    sc = max(max(abs(x), abs(y)) for x, y in verts)
    for tag, p in got.items():
        ctx.check(p.ndim == 2 and p.shape[1] >= 2, f"{what}: tag {tag} has shape {p.shape}")
        ctx.check(p.shape[1] == 2 or np.all(p[:, 2:] == 0), f"{what}: tag {tag} leaves the plane")
        p = p[:, :2]
        mine = [(verts[a], verts[b]) for a, b, t in edges if t == tag]
        if method == "uniform":
            want = []
            for a, b in mine:
                for w in segment(a, b, n):
                    if not any(abs(w[0] - v[0]) + abs(w[1] - v[1]) < 1e-9 * sc for v in want):
                        want.append(w)
            d = np.abs(p[:, None, :] - np.array(want)[None]).sum(-1)
            ctx.check(len(p) == len(want), f"{what}: tag {tag} has {len(p)} points, equidistant refinement has {len(want)}")
            ctx.check(np.all(d.min(1) < 1e-12 * sc) and np.all(d.min(0) < 1e-12 * sc),
                      f"{what}: tag {tag} points {p.tolist()} are not the refinement {want}")
            for a, b in mine:
                for v in (a, b):
                    ctx.check(any(tuple(r) == tuple(map(float, v)) for r in p), f"{what}: tag {tag} misses vertex {v} exactly")
        else:
            tot = (n + 1) * len(mine)
            ctx.check(len(p) == tot if exact else len(p) <= tot, f"{what}: tag {tag} has {len(p)} random points, requested {tot}")
            used = np.zeros(len(mine), int)
            for r in p:
                ok = []
                for k, (a, b) in enumerate(mine):
                    a, b = np.array(a, float), np.array(b, float)
                    e = b - a
                    t = float((r - a) @ e / (e @ e))
                    if -1e-12 <= t <= 1 + 1e-12 and np.abs(a + t * e - r).max() < 1e-12 * sc:
                        ok.append(k)
                ctx.check(bool(ok), f"{what}: random point {r.tolist()} of tag {tag} is on none of its edges {mine}")
                used[ok] += 1
            if exact:
                ctx.check(np.all(used >= n + 1), f"{what}: tag {tag}: edges carry {used.tolist()} points, requested {n+1} each")


def run_case(ctx, Q, tags, perm, dirs, level, method, order, alpha, off, scale, read=None, dim=3):
    edges = [Q["edges"][i] + (alpha[tags[i]],) for i in range(len(tags))]
    edges = [(e[1], e[0], e[2]) if d else e for e, d in zip(edges, dirs)]
    edges = [edges[i] for i in perm]
    s, ox, oy = scale
    verts = [(ox + s * x, oy + s * y) for x, y in Q["verts"]]
    f = os.path.join(env.scratch.path, "b.mesh")
    meshfile.write(f, verts, Q["quads"], edges, order, dim=dim)
    env.lhs_offset = off
    g = read or geo(env.scratch.path)
    what = f"edges {edges} refinement {level} {method} sections {order}"
    cells, bd = g.read_mesh(f, level, method, 1)
    verify(ctx, bd, edges, verts, level, method, off in OFF[:2], what)
    verify(ctx, g.bd_dict, edges, verts, level, method, off in OFF[:2], "stored dictionary: " + what)
    return g, bd


def h_tags(Q, ntags, levels):
    ne = len(Q["edges"])

    def h(ctx):
        tags = [ctx.choose(f"tag of edge {i}", range(ntags), free=True) for i in range(ne)]
        level = ctx.choose("refinement", levels)
        method = ctx.choose("sampling", ["uniform", "lhs"])
        perm = ctx.permutation("edge order", range(ne))
        dirs = [ctx.choose(f"edge {i} reversed", [0, 1]) for i in range(ne)]
        order = ctx.choose("sections", ORDERS)
        alpha = ctx.choose("tag numbers", ALPHA)
        off = ctx.choose("stratum offset", OFF)
        scale = ctx.choose("coordinates", [(1, 0, 0), (0.5, -8, 2), (2.0**-12, 0, 0), (1024, 1, 1), (2.0**-18, 0, 0), (2.0**-8, 512, -64)])
        dim = ctx.choose("dimension of the file", [3, 2])
        ctx.commit()
        run_case(ctx, Q, tags, perm, dirs, level, method, order, alpha, off, scale, dim=dim)
        return tuple(tags), level, method
    return h


CASES = [(Q1, (0, 0, 1, 2), 1, "uniform"), (Q1, (0, 1, 0, 1), 0, "lhs"), (Q2, (0, 0, 1, 1, 2, 2), 2, "uniform"), (Q2, (2, 1, 0, 2, 1, 0), 1, "lhs"),
         (Q1, (2, 2, 2, 2), 3, "uniform"), (Q2, (0, 0, 0, 0, 0, 0), 0, "uniform"), (Q2, (1, 1, 1, 0, 0, 0), 2, "lhs")]


def h_reads(depth):
    def h(ctx):
        seq = [ctx.choose(f"read {i}", range(len(CASES)), free=True) for i in range(depth)]
        ctx.commit()
        g, kept = None, []
        for k in seq:
            Q, tags, level, method = CASES[k]
            g, bd = run_case(ctx, Q, tags, range(len(tags)), [0] * len(tags), level, method, ORDERS[0], ALPHA[k % 5], 0.5, (1, 0, 0), read=g)
            kept.append((bd, {t: np.array(v) for t, v in bd.items()}))
            for b, b0 in kept:
                ctx.check(set(b) == set(b0) and all(np.array_equal(b[t], b0[t]) for t in b0), f"an earlier boundary dictionary changed in {seq}")
        return tuple(seq)
    return h


def h_large(sizes):
    """Many edges per tag, on grids: sides with tags of their own, one tag for all, every edge its own tag, inner edges too."""
    def h(ctx):
        nx, ny = ctx.choose("grid", sizes, free=True)
        how = ctx.choose("tags", ["sides", "one", "alternating", "each its own", "sides and inner"], free=True)
        level = ctx.choose("refinement", [0, 1, 2, 4])
        method = ctx.choose("sampling", ["uniform", "lhs"], free=True)
        listed = ctx.choose("edges listed", ["around", "scattered"])
        s, ox = ctx.choose("coordinates", [(1.0, 0.0), (0.1, -3.0), (2.0**-12, 0.0), (1 / 3, 1000.0)])
        ctx.commit()
        vid = lambda i, j: j * (nx + 1) + i
        verts = [(ox + s * (i + 0.25 * j), s * (0.5 * j + 0.0625 * i)) for j in range(ny + 1) for i in range(nx + 1)]
        quads = [(vid(i, j), vid(i + 1, j), vid(i + 1, j + 1), vid(i, j + 1), 0) for j in range(ny) for i in range(nx)]
        E = [(vid(i, 0), vid(i + 1, 0), 0) for i in range(nx)] + [(vid(nx, j), vid(nx, j + 1), 1) for j in range(ny)]
        E += [(vid(i + 1, ny), vid(i, ny), 2) for i in range(nx)[::-1]] + [(vid(0, j + 1), vid(0, j), 3) for j in range(ny)[::-1]]
        if how == "sides and inner":
            E += [(vid(i, 1), vid(i + 1, 1), 9) for i in range(nx)]
        tag = {"one": lambda k, t: 5, "alternating": lambda k, t: 10 + k % 3, "each its own": lambda k, t: 100 + k}.get(how, lambda k, t: 1000 + t)
        edges = [(a, b, tag(k, t)) for k, (a, b, t) in enumerate(E)]
        if listed == "scattered":
            edges = sorted(edges, key=lambda e: (e[0] * 7919 + e[1] * 104729) % 1009)
        f = os.path.join(env.scratch.path, "l.mesh")
        meshfile.write(f, verts, quads, edges)
        env.lhs_offset = 0.375
        g = geo(env.scratch.path)
        _, bd = g.read_mesh(f, level, method, 1)
        verify(ctx, bd, edges, verts, level, method, True, f"{nx}x{ny} grid, tags {how}, refinement {level}, {method}, {listed}, coordinates {s} {ox}")
        return nx, ny, how, level, method, listed, s
    return h


def h_fine(levels):
    """Deep refinement: one tag per edge, or one tag for all edges."""
    def h(ctx):
        level = ctx.choose("refinement", levels, free=True)
        method = ctx.choose("sampling", ["uniform", "lhs"], free=True)
        one = ctx.choose("one tag for all edges", [False, True], free=True)
        s, ox = ctx.choose("coordinates", [(1.0, 0.0), (1 / 3, -7.0)])
        ctx.commit()
        verts = [(ox + s * x, s * y) for x, y in Q1["verts"]]
        edges = [(a, b, 5 if one else 10 + k) for k, (a, b) in enumerate(Q1["edges"])]
        f = os.path.join(env.scratch.path, "fine.mesh")
        meshfile.write(f, verts, Q1["quads"], edges)
        env.lhs_offset = 0.375
        g = geo(env.scratch.path)
        _, bd = g.read_mesh(f, level, method, 1)
        what = f"refinement {level} {method} one tag: {one} coordinates {s} {ox}"
        n = 2**level
        ctx.obs("points", [(k, len(v)) for k, v in sorted(bd.items())])
        ctx.check(sorted(bd) == sorted({t for *_, t in edges}), f"{what}: tags {sorted(bd)}")
        for tag, p in bd.items():
            p = np.asarray(p, float)[:, :2]
            mine = [(np.array(verts[a], float), np.array(verts[b], float)) for a, b, t in edges if t == tag]
            want = len(mine) * n + (len(mine) == 1) if method == "uniform" else len(mine) * (n + 1)
            ctx.check(len(p) == want, f"{what}: tag {tag} has {len(p)} points, expected {want}")
            for a, b in mine:
                e = b - a
                t = (p - a) @ e / (e @ e)
                on = (np.abs(a + t[:, None] * e - p).max(1) < 1e-12 * (1 + abs(ox))) & (t > -1e-12) & (t < 1 + 1e-12)
                t = np.sort(t[on])
                if method == "uniform":
                    ctx.check(len(t) == n + 1 and np.abs(t - np.arange(n + 1) / n).max() < 1e-11, f"{what}: edge {a}-{b} carries {len(t)} points, not the {n + 1} equidistant ones")
                else:
                    ctx.check(len(t) == n + 1, f"{what}: edge {a}-{b} carries {len(t)} points, requested {n + 1}")
                p = p[~on] if method != "uniform" else p
            ctx.check(method == "uniform" or len(p) == 0, f"{what}: {len(p)} points of tag {tag} are on none of its edges")
        return level, method, one, s
    return h


def h_graded(ratios):
    """Strongly graded meshes: very short edges next to long ones, on one tag or on several."""
    def h(ctx):
        r = ctx.choose("shortest edge", ratios, free=True)
        level = ctx.choose("refinement", [0, 1, 2, 3], free=True)
        one = ctx.choose("one tag for all edges", [False, True], free=True)
        where = ctx.choose("short cells", ["left", "right", "middle"])
        method = ctx.choose("sampling", ["uniform", "lhs"])
        ctx.commit()
        xs = {"left": [0.0, r, 3 * r, 1.0], "right": [0.0, 1 - 3 * r, 1 - r, 1.0], "middle": [0.0, 0.5, 0.5 + r, 1.0]}[where]
        verts = [(x, 0.0) for x in xs] + [(x, 1.0) for x in xs]
        quads = [(i, i + 1, i + 5, i + 4, 0) for i in range(3)]
        E = [(i, i + 1) for i in range(3)] + [(3, 7)] + [(i + 5, i + 4) for i in (2, 1, 0)] + [(4, 0)]
        edges = [(a, b, 5 if one else 10 + k) for k, (a, b) in enumerate(E)]
        f = os.path.join(env.scratch.path, "graded.mesh")
        meshfile.write(f, verts, quads, edges)
        env.lhs_offset = 0.375
        _, bd = geo(env.scratch.path).read_mesh(f, level, method, 1)
        verify(ctx, bd, edges, verts, level, method, False, f"graded mesh {xs} refinement {level} one tag: {one} {method}")
        return r, level, one, where, method
    return h


def harnesses(tier):
    hs = harnesses_(tier)
    hs.append(("graded", h_graded([1e-2, 1e-4, 1e-6, 2e-7] if tier == "quick" else [1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 2e-7]), None))
    hs.append(("fine", h_fine([7, 9, 10, 11] if tier == "quick" else [7, 8, 9, 10, 11, 12, 13]), None))
    return hs + [("large", h_large([(5, 3), (1, 40), (33, 20), (120, 1)] if tier == "quick" else [(5, 3), (1, 40), (33, 20), (64, 1), (50, 50), (120, 1), (300, 10)]), 1 if tier == "quick" else 2)]


def harnesses_(tier):
    if tier == "quick":
        return [("one cell", h_tags(Q1, 3, [1, 0, 2, 3]), 1), ("one cell, 2 deviations", free_off(h_tags(Q1, 3, [1, 0, 2, 3])), 3),
                ("two cells", h_tags(Q2, 2, [1, 0, 2]), 1), ("reads", h_reads(2), None)]
    return [("one cell", h_tags(Q1, 3, [1, 0, 2, 3, 4, 5, 6]), 2), ("two cells", h_tags(Q2, 3, [1, 0, 2, 3, 4]), 1),
            ("two cells, 3 deviations", free_off(h_tags(Q2, 3, [1, 0, 2, 3])), 3), ("reads", h_reads(3), None)]


def free_off(fn):
    from checks.C11 import h_free
    return h_free(fn)

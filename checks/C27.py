"""C27: absolute and relative L1 / L2 / maximum errors against their definitions (exact rational arithmetic where possible)."""
import math
from fractions import Fraction

import numpy as np

from mc.explorer import Skip

BOUNDS = {"quick": "all pairs of vectors of length 1..3 over {0, 1, -2, 0.5, 3} and of length 4 over {0, 1, -2} (float64 and integers); 18 layout pairs x 3 precisions on all "
                   "pairs of length 4 over {1, -2} plus 6 long vectors up to 300000 entries; near-equal vectors at 7 magnitudes; entries that are not finite",
          "thorough": "all pairs of length 4 over 5 values, of length 5 over 3 values; layouts on all pairs of length 4 over 3 values"}
ASSUMPTIONS = ["relative to an exact solution that is identically zero only a result that is not finite is right (0/0, x/0)"]
SHARDS = {"quick": 8, "thorough": 8}
NAMES = ("l2", "linf", "l2 relative", "linf relative", "l1", "l1 relative")


def definition(u, v):
    """Exact sums; only the final root and division are floating point."""
    u, v = [Fraction(float(a)) for a in u], [Fraction(float(a)) for a in v]
    n = len(u)
    d = [abs(a - b) for a, b in zip(u, v)]
    l1, li, l2 = sum(d) / n, max(d), sum(x * x for x in d) / n
    e1, ei, e2 = sum(abs(a) for a in u) / n, max(abs(a) for a in u), sum(a * a for a in u) / n
    q = lambda a, b: None if b == 0 else float(a / b)
    r = lambda a, b: None if b == 0 else math.sqrt(a / b)
    return (math.sqrt(l2), float(li), r(l2, e2), q(li, ei), float(l1), q(l1, e1))


def fns():
    from fastvpinns.utils import compute_utils as c
    return (c.compute_l2_error, c.compute_linf_error, c.compute_l2_error_relative, c.compute_linf_error_relative, c.compute_l1_error, c.compute_l1_error_relative)


def compare(ctx, u, v, want, what, tol):
    from fastvpinns.utils.compute_utils import compute_errors_combined
    bu, bv = u.copy(), v.copy()
    with np.errstate(all="ignore"):
        single = [f(u, v) for f in fns()]
        comb = compute_errors_combined(u, v)
    ctx.obs(what, [w for w in want])
    ctx.check(isinstance(comb, tuple) and len(comb) == 6, f"{what}: combined report has {len(comb)} entries")
    for k in range(6):
        for got, who in ((single[k], "function"), (comb[k], "combined report")):
            ctx.check(np.ndim(got) == 0, f"{what}: {NAMES[k]} ({who}) is not a number")
            if want[k] is not None:
                ctx.check(abs(float(got) - want[k]) <= tol * max(want[k], 1e-300 if tol < 1e-10 else 1e-6) + (0 if want[k] else 1e-300),
                          f"{what}: {NAMES[k]} ({who}) is {got!r}, definition gives {want[k]!r}")
            else:
                # relative to nothing: no finite number is right
                ctx.check(not np.isfinite(float(got)), f"{what}: {NAMES[k]} ({who}) is {got!r} although the exact solution is zero")
    ctx.check(np.array_equal(u, bu, equal_nan=True) and np.array_equal(v, bv, equal_nan=True) and u.shape == bu.shape and v.shape == bv.shape, f"{what}: inputs were modified")


def h_values(n, alphabet):
    def h(ctx):
        u = [ctx.choose(f"exact {i}", alphabet, free=True) for i in range(n)]
        v0 = ctx.choose("approximate 0", alphabet, free=True)
        rest = [ctx.choose(f"approximate {i}", alphabet, free=True) for i in range(1, n)]
        ctx.commit()
        v = [v0] + rest
        compare(ctx, np.array(u, float), np.array(v, float), definition(u, v), f"exact {u}, approximate {v}", 1e-14)
        if all(float(a).is_integer() for a in u + v):
            compare(ctx, np.array(u, int), np.array(v, int), definition(u, v), f"integers exact {u}, approximate {v}", 1e-14)
        return tuple(u), tuple(v)
    return h


LAYOUTS = {"row": lambda a: a, "column": lambda a: a.reshape(-1, 1), "one row": lambda a: a.reshape(1, -1), "matrix": lambda a: a.reshape(2, -1) if a.size % 2 == 0 else a,
           "rank 3": lambda a: a.reshape(1, -1, 1), "strided": lambda a: np.repeat(a, 2)[::2], "reversed": lambda a: a[::-1].copy()[::-1],
           "read only": lambda a: np.frombuffer(a.tobytes(), a.dtype),
           "matrix by columns": lambda a: np.asfortranarray(a.reshape(2, -1)) if a.size % 2 == 0 else a,
           "transposed matrix": lambda a: a.reshape(2, -1).T.copy().T if a.size % 2 == 0 else a,
           "reversed matrix": lambda a: a[::-1].reshape(2, -1).copy()[::-1, ::-1] if a.size % 2 == 0 else a,
           "rank 3 by columns": lambda a: np.asfortranarray(a.reshape(-1, 2, 1) if a.size % 2 == 0 else a),
           "every second column": lambda a: np.repeat(a, 2).reshape(2, -1)[:, ::2] if a.size % 2 == 0 else a}
PAIRS = [("row", "row"), ("column", "row"), ("row", "column"), ("column", "column"), ("matrix", "matrix"), ("one row", "column"), ("rank 3", "row"), ("strided", "reversed"),
         ("read only", "strided"), ("matrix", "column"),
         ("matrix", "matrix by columns"), ("matrix by columns", "matrix"), ("transposed matrix", "row"), ("matrix by columns", "transposed matrix"), ("column", "reversed matrix"),
         ("rank 3 by columns", "matrix"), ("every second column", "matrix by columns"), ("reversed matrix", "rank 3 by columns")]


def h_layout(n, alphabet):
    def h(ctx):
        pair = ctx.choose("layouts", PAIRS, free=True)
        dt = ctx.choose("precision", [(np.float64, np.float64), (np.float32, np.float32), (np.float64, np.float32)], free=True)
        u = [ctx.choose(f"exact {i}", alphabet, free=True) for i in range(n)]
        v = [ctx.choose(f"approximate {i}", alphabet, free=True) for i in range(n)]
        ctx.commit()
        compare(ctx, LAYOUTS[pair[0]](np.array(u, dt[0])), LAYOUTS[pair[1]](np.array(v, dt[1])), definition(u, v), f"{pair} {dt[0].__name__}/{dt[1].__name__} exact {u}, approximate {v}",
                1e-14 if dt[1] == np.float64 else 1e-6)
        return pair, str(dt), tuple(u), tuple(v)
    return h


def h_long(ctx):
    n = ctx.choose("length", [5, 10, 101, 1024, 4097, 70000, 300001], free=True)
    pair = ctx.choose("layouts", PAIRS, free=True)
    pat = ctx.choose("pattern", ["generic", "one wrong entry", "last wrong", "equal", "negative exact", "opposite"], free=True)
    dt = ctx.choose("precision", [np.float64, np.float32], free=True)
    if n > 100000 and (pair not in PAIRS[:5:2] or pat not in ("generic", "one wrong entry")):
        raise Skip()
    ctx.commit()
    u = np.round(np.sin(1.7 * np.arange(n) + 0.3) * 3, 4).astype(dt)
    v = np.round(u + 0.25 * np.cos(np.arange(n) * 0.9), 4).astype(dt)
    if pat == "one wrong entry":
        v = u.copy()
        v[n // 3] += 2
    elif pat == "last wrong":
        v = u.copy()
        v[-1] -= 5
    elif pat == "equal":
        v = u.copy()
    elif pat == "negative exact":
        u, v = -np.abs(u) - dt(1), v * dt(0.1)
    elif pat == "opposite":
        v = -u
    compare(ctx, LAYOUTS[pair[0]](u), LAYOUTS[pair[1]](v), definition(u, v), f"{n} entries {pair} {pat} {dt.__name__}", 1e-12 if dt == np.float64 else 2e-5)
    return n, pair, pat, dt.__name__


def h_scale(ctx):
    s = ctx.choose("magnitude", [1.0, 1e-12, 1e-6, 1e6, 1e12, 1e100, 1e-100], free=True)
    e = ctx.choose("relative error", [0.0, 1.0, 1e-3, 1e-6, 1e-9, 0.5, 2.0, 1e5], free=True)
    sign = ctx.choose("sign", [1.0, -1.0], free=True)
    ctx.commit()
    u = sign * s * np.array([1.0, -2.0, 0.5, 3.0])
    v = u * (1 + e * np.array([1.0, -1.0, 0.25, 0.0]))
    compare(ctx, u, v, definition(u, v), f"magnitude {s} relative error {e}", 1e-13)
    return s, e, sign


def h_diverged(ctx):
    """A network that has diverged is never reported with finite errors."""
    from fastvpinns.utils.compute_utils import compute_errors_combined
    n = ctx.choose("length", [1, 2, 5, 64, 1000], free=True)
    bad = ctx.choose("entry", [np.nan, np.inf, -np.inf], free=True)
    at = ctx.choose("position", ["first", "last", "middle", "all"], free=True)
    dt = ctx.choose("precision", [np.float64, np.float32], free=True)
    ctx.commit()
    u = (np.sin(1.7 * np.arange(n) + 0.3) * 3).astype(dt)
    v = u.copy()
    v[{"first": slice(0, 1), "last": slice(n - 1, n), "middle": slice(n // 2, n // 2 + 1), "all": slice(None)}[at]] = bad
    with np.errstate(all="ignore"):
        got = [float(f(u.copy(), v.copy())) for f in fns()] + [float(x) for x in compute_errors_combined(u.copy(), v.copy())]
    ctx.obs("errors", [str(g) for g in got])
    for k, g in enumerate(got):
        ctx.check(not np.isfinite(g), f"{n} entries, {at} of them {bad} ({dt.__name__}): {NAMES[k % 6]} is reported as {g!r}")
    return n, str(bad), at, dt.__name__


def harnesses(tier):
    five, three = [0.0, 1.0, -2.0, 0.5, 3.0], [0.0, 1.0, -2.0]
    common = [("long vectors", h_long, None), ("magnitudes", h_scale, None), ("diverged", h_diverged, None)]
    if tier == "quick":
        return [(f"length {n}", h_values(n, five), None) for n in (1, 2, 3)] + [("length 4", h_values(4, three), None), ("layouts", h_layout(4, [1.0, -2.0]), None)] + common
    return [(f"length {n}", h_values(n, five), None) for n in (1, 2, 3, 4)] + [("length 5", h_values(5, three), None), ("layouts", h_layout(4, three), None)] + common

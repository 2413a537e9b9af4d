"""C16: conversion of parameter dictionaries."""
import itertools

import numpy as np

from mc import build

BOUNDS = {"quick": "all dictionaries over <=1 key and 13 values (numbers, arrays, lists), all ordered sets of 2..4 keys with <=1 deviating value; all "
                   "sequences of 3 conversions over {bilinear, inverse} x {float32, float64} x {shared, fresh} dictionary, result overwritten or not; every key name of a menu (the names the code itself uses, prefixes of each other, empty, unicode)",
          "thorough": "all <=2-key dictionaries in full, <=3 deviating values else; sequences of 4"}
ASSUMPTIONS = ["values are what tf.constant accepts in the requested precision"]
SHARDS = {"quick": 4, "thorough": 8}

KEYS = ["eps", "b_x", "b_y", "c"]


def vals():
    return [1.5, 0, -3, 1, 1e-30, 1e30, 1 / 3, np.float64(0.1), np.float32(0.25), np.array(2.75), np.array([1.0, -2.0, 0.1]),
            [0.5, 7], (1.0, 2.0)]


_h = {}


def handler(dt):
    from fastvpinns.data.datahandler2d import DataHandler2D
    if dt not in _h:
        fs = build.space([build.UNIT], 2, "legendre", 3)
        _h[dt] = DataHandler2D(fs, None, dt)
    return _h[dt]


def snap(d):
    return {k: (type(v), v.tolist() if hasattr(v, "tolist") else v, id(v)) for k, v in d.items()}


def judge(ctx, got, want, dt, what):
    import tensorflow as tf
    ctx.check(isinstance(got, dict) and list(got) == list(want), f"{what}: keys {list(got)}, expected {list(want)}")
    for k, v in got.items():
        ctx.check(tf.is_tensor(v) and v.dtype == dt, f"{what}: {k} is {type(v).__name__} {getattr(v, 'dtype', '')}, requested {dt}")
        w = np.asarray(want[k], dtype=np.float64).astype(dt.as_numpy_dtype)
        g = np.asarray(v)
        ctx.check(g.shape == w.shape and np.array_equal(g, w), f"{what}: {k} = {g!r}, expected {w!r}")
    ctx.obs(what[:10], {k: np.asarray(v) for k, v in got.items()})


def h_dicts(n, kb):
    def h(ctx):
        import tensorflow as tf
        kind = ctx.choose("conversion", ["bilinear", "inverse"], free=True)
        dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
        keys = ctx.choose("keys", [k for r in range(0, n + 1) for k in itertools.permutations(KEYS, r)][::-1], free=True)
        V = vals()
        d = {k: V[ctx.choose(f"value of {k}", range(len(V)), free=len(keys) <= kb)] for k in keys}
        ctx.commit()
        before = snap(d)
        plain = {k: np.array(v, dtype=float) for k, v in d.items()}
        h_ = handler(dt)
        conv = h_.get_bilinear_params_dict_as_tensors if kind == "bilinear" else h_.get_inverse_params
        r = conv(lambda: d)
        judge(ctx, r, plain, dt, f"{kind} {dt.name} of {d}")
        ctx.check(snap(d) == before, f"{kind}: the user's dictionary {list(d)} was modified")
        ctx.check(r is not d, f"{kind}: the user's own dictionary is handed out")
        return kind, keys
    return h


def h_seq(depth):
    ops = [(k, dt, own) for k in ("bilinear", "inverse") for dt in (64, 32) for own in ("shared", "fresh")]

    def h(ctx):
        import tensorflow as tf
        seq = [(ctx.choose(f"conversion {i}", ops, free=True), ctx.choose(f"result {i} overwritten", [False, True])) for i in range(depth)]
        ctx.commit()
        D = {32: tf.float32, 64: tf.float64}
        # 1/3 and 0.1 lose digits in single precision: a converted dictionary that is fed back is visible
        base = {"eps": 1 / 3, "b_x": 0.1, "b_y": np.array([0.1, -0.7]), "c": 16777217}
        shared = dict(base)
        results = []
        for (kind, dt, own), scrib in seq:
            src = shared if own == "shared" else dict(base)
            before = snap(src)
            h_ = handler(D[dt])
            r = (h_.get_bilinear_params_dict_as_tensors if kind == "bilinear" else h_.get_inverse_params)(lambda: src)
            judge(ctx, r, base, D[dt], f"{kind} {dt} {own} in {seq}")
            ctx.check(snap(src) == before, f"the user's dictionary was modified by {kind} {dt} in {seq}")
            results.append((r, dt))
            if scrib:
                for k in list(r):
                    r[k] = None
                r["new"] = 1
                results.pop()
            for q, t in results:
                judge(ctx, q, base, D[t], f"earlier result in {seq}")
            ctx.check(snap(src) == before, f"writing into the result changed the user's dictionary in {seq}")
        return tuple(seq)
    return h


def h_keys(ctx):
    """Any key names, any number of entries."""
    import tensorflow as tf
    kind = ctx.choose("conversion", ["bilinear", "inverse"], free=True)
    dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
    names = ctx.choose("names", [["k"], ["nu", "rho"], ["eps_1", "eps"], ["lambda", "K", "k"], ["a b", "", "dtype", "self"], ["c", "b_y", "b_x", "eps", "k"],
                                 [f"p{i}" for i in range(12)], [f"p{i}" for i in range(70)][::-1], ["Eps", "EPS", "eps"]], free=True)
    start = ctx.choose("values from", range(13), free=True)
    ctx.commit()
    V = vals()
    d = {k: V[(start + i) % len(V)] for i, k in enumerate(names)}
    before = snap(d)
    plain = {k: np.array(v, dtype=float) for k, v in d.items()}
    h_ = handler(dt)
    r = (h_.get_bilinear_params_dict_as_tensors if kind == "bilinear" else h_.get_inverse_params)(lambda: d)
    judge(ctx, r, plain, dt, f"{kind} {dt.name} of {d}")
    ctx.check(snap(d) == before and list(d) == names, f"{kind}: the user's dictionary {names} was modified")
    return kind, tuple(names), start


def h_change(ctx):
    """The user's functions are asked anew every time: a changed coefficient is seen by the next conversion."""
    import tensorflow as tf
    D = {32: tf.float32, 64: tf.float64}
    seq = [ctx.choose(f"conversion {i}", [(k, s) for k in ("bilinear", "inverse") for s in ("same handler", "new handler")], free=True) for i in range(3)]
    chg = [ctx.choose(f"change {i}", ["value", "none", "key added", "key removed", "array changed"], free=True) for i in range(3)]
    dt = ctx.choose("precision", [64, 32])
    new = ctx.choose("dictionary", ["fresh each time", "the same object"])
    ctx.commit()
    state = {"eps": 1 / 3, "b_x": 0.1, "b": np.array([0.5, 1.5])}
    fun = (lambda: dict(state)) if new == "fresh each time" else (lambda: state)
    h_ = handler(D[dt])
    old = []
    for n, ((kind, who), c) in enumerate(zip(seq, chg)):
        g = h_ if who == "same handler" else handler(D[dt])
        before = snap(state)
        r = (g.get_bilinear_params_dict_as_tensors if kind == "bilinear" else g.get_inverse_params)(fun)
        plain = {k: np.array(v, float) for k, v in state.items()}
        judge(ctx, r, plain, D[dt], f"conversion {n} of {seq} after {chg[:n]}")
        ctx.check(snap(state) == before, f"the user's dictionary was modified by {seq[:n + 1]}")
        old.append((r, plain))
        if c == "value":
            state["eps"] = 0.7 + n
        elif c == "key added":
            state[f"c{n}"] = 2.0**-n
        elif c == "key removed":
            state.pop("b_x", None)
        elif c == "array changed":
            state["b"][0] += 1.0
        for q, p in old:
            judge(ctx, q, p, D[dt], f"earlier result after the change {c} in {seq}")
    return tuple(seq), tuple(chg), dt, new


def harnesses(tier):
    return harnesses_(tier) + [("changing values", h_change, 1 if tier == "quick" else None), ("key names", h_keys, None)]


def harnesses_(tier):
    if tier == "quick":
        return [("dictionaries", h_dicts(4, 1), 1), ("sequences", h_seq(3), None)]
    return [("dictionaries", h_dicts(4, 2), 3), ("sequences", h_seq(4), 1)]

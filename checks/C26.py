"""C26: save / restore at every stop point continues the uninterrupted run; models rebuilt from a configuration are equivalent and independent."""
import os

import numpy as np

from mc import env
from mc.explorer import Skip
from checks import tiny

BOUNDS = {"quick": "4 models x 3-4 settings x every stop point 0..2 of a run of 3 steps (most with scheduler) x restore into {fresh model, model of another seed trained 1 or "
                   "2 steps, the same model after going on} x {one checkpoint, overwritten checkpoint, two checkpoints restored in both orders}; "
                   "37 settings rebuilt from their configuration, both models continued in all 6 interleavings of 2+2 steps; configuration taken after 0..2 steps x {once, twice rebuilt}; every constructor argument of a menu found again in the rebuilt model, with the same outputs",
          "thorough": "runs of 6 steps, all settings; configuration after 0..3 steps, interleavings of 3+3 steps"}
ASSUMPTIONS = ["checkpoints in TensorFlow format (the format that includes the optimiser state)", "torn checkpoint files are TensorFlow's responsibility and not explored"]
SHARDS = {"quick": 8, "thorough": 8}

LRS = dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=2, decay_rate=0.5, staircase=False)


def settings(kind):
    last = 2 if kind == "domain" else 1
    out = [{}, {"layers": [2, 2, 3, last], "activation": "sigmoid", "lr": LRS}, {"attention": True, "lr": dict(LRS, staircase=True)}, {"layers": [2, last], "dt": 32}, {"activation": "sin"},
           {"lr": dict(LRS, use_lr_scheduler=False, initial_learning_rate=0.2)}, {"activation": "softplus", "lr": dict(LRS, decay_rate=0.9, decay_steps=1)}]
    if kind == "hard":
        out += [{"hard": h} for h in ("lift", "dep", "none")]
    if kind in ("dense", "hard"):
        out += [{"loss": "cd2d"}, {"loss": "helmholtz"}]
    if kind == "inverse":
        out += [{"loss": "cd2d_inv", "inverse": {"eps": 0.25, "spare": 2.0}}]
    return out


CASES = [(k, s) for k in tiny.KINDS for s in settings(k)]


def setup(kind, cfg):
    import tensorflow as tf
    cfg = dict(cfg)
    dt = tf.float32 if cfg.pop("dt", 64) == 32 else tf.float64
    cfg.setdefault("lr", LRS)
    if cfg.get("activation") == "sin":
        cfg["activation"] = tf.sin
    D = tiny.data(dt, 1, 2, 3, 3, 2, salt=6)
    loss = cfg.get("loss") or tiny.DEFAULT_LOSS[kind]
    return D, dt, cfg, tiny.params(loss, dt)[1]


def step(m, pt, k):
    import tensorflow as tf
    r = m.train_step(beta=tf.constant([10.0, 3.0][k % 2], m.tensor_dtype if hasattr(m, "tensor_dtype") else tf.float64), bilinear_params_dict=pt)
    o = [tiny.num(r[k]) for k in sorted(r) if k != "inverse_params"]
    if "inverse_params" in r:
        o += [tiny.num(r["inverse_params"][k]) for k in sorted(r["inverse_params"])]
    return o


def state(m, D, kind):
    o = [m(D.x).numpy().ravel(), m(D.xd).numpy().ravel()] + [w.ravel() for w in tiny.weights_np(m)]
    if kind == "inverse":
        o += [np.array([tiny.num(m.inverse_params_dict[k]) for k in sorted(m.inverse_params_dict)])]
    return np.concatenate(o)


def tol(dt):
    return 1e-11 if dt.name == "float64" else 1e-4


_runs = {}


def uninterrupted(c, n):
    """States 0..n and step results of the run without interruption."""
    if (c, n) not in _runs:
        kind, cfg = CASES[c]
        D, dt, cfg, pt = setup(kind, cfg)
        m = tiny.model(kind, D, seed=1, **cfg)
        S, R = [state(m, D, kind)], []
        for k in range(n):
            R.append(step(m, pt, k))
            S.append(state(m, D, kind))
        _runs[c, n] = S, R
    return _runs[c, n]


def h_save(cases, n):
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("model", cases, free=True)
        stop = ctx.choose("stop after", range(n), free=True)
        target = ctx.choose("restore into", ["fresh", "trained 1", "trained 2", "same model going on"], free=True)
        style = ctx.choose("checkpoints", ["one", "overwritten", "two, newer restored first"], free=True)
        if style != "one" and (stop == 0 or (n <= 3 and (stop == 1 or target in ("trained 1", "same model going on")))):
            raise Skip()
        if stop == 0 and target != "fresh":
            raise Skip()  # before the first step there is no optimiser state that could be saved
        ctx.commit()
        kind, cfg = CASES[c]
        what = f"{CASES[c]} stopped after {stop}, restored into {target} ({style})"
        tf.config.run_functions_eagerly(True)
        d = env.scratch.fresh("ckpt")
        try:
            S, R = uninterrupted(c, n)
            D, dt, cfg, pt = setup(kind, cfg)
            m = tiny.model(kind, D, seed=1, **cfg)
            path = os.path.join(d, "weights")
            for k in range(stop):
                if style == "overwritten" and k == stop - 1:
                    m.save_weights(path)
                step(m, pt, k)
                if style.startswith("two") and k == 0:
                    m.save_weights(os.path.join(d, "old"))
            m.save_weights(path)
            ctx.close(state(m, D, kind), S[stop], f"{what}: saving changed the model", tol(dt))
            if target == "same model going on":
                t = m
                step(t, pt, 0)
            else:
                t = tiny.model(kind, D, seed=5, **cfg)
                for k in range({"fresh": 0, "trained 1": 1, "trained 2": 2}[target]):
                    step(t, pt, k)
            rounds = [(path, stop)] if not style.startswith("two") else [(path, stop), (os.path.join(d, "old"), 1)]
            for p, at in rounds:
                t.load_weights(p)
                ctx.close(state(t, D, kind), S[at], f"{what}: outputs, weights and coefficients after restoring the checkpoint of step {at}", tol(dt))
                for k in range(at, n):
                    r = step(t, pt, k)
                    ctx.obs(f"step {k}", r)
                    ctx.close(r, R[k], f"{what}: result of step {k} after resuming from step {at}", tol(dt))
                    ctx.close(state(t, D, kind), S[k + 1], f"{what}: state after step {k}, resumed from step {at}", tol(dt))
        finally:
            tf.config.run_functions_eagerly(False)
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        return c, stop, target, style
    return h


def copy_weights(a, b, kind):
    for x, y in zip(tiny.net_weights(a), tiny.net_weights(b)):
        y.assign(x)
    if kind == "inverse":
        for k, v in a.inverse_params_dict.items():
            b.inverse_params_dict[k].assign(v)


def h_config(before, per, cases):
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("model", cases, free=True)
        k0 = ctx.choose("configuration taken after", range(before + 1))
        twice = ctx.choose("rebuilt", ["once", "twice"])
        order, left = [], [per, per]
        while sum(left):
            w = ctx.choose(f"slot {len(order)}", [i for i in (0, 1) if left[i]], free=True)
            order.append(w)
            left[w] -= 1
        ctx.commit()
        kind, cfg = CASES[c]
        what = f"{CASES[c]} rebuilt {twice} after {k0} steps, continued in order {order}"
        tf.config.run_functions_eagerly(True)
        try:
            D, dt, cfg, pt = setup(kind, cfg)

            def fresh():
                return tiny.model(kind, D, seed=1, **cfg)

            m = fresh()
            for k in range(k0):
                step(m, pt, k)
            s0 = state(m, D, kind)
            conf = m.get_config()
            names = sorted(conf)
            tiny.set_seed(11)
            b = tiny.cls(kind).from_config(conf)
            ctx.check(sorted(conf) == names, f"{what}: the configuration was changed by rebuilding")
            if twice == "twice":
                b = tiny.cls(kind).from_config(b.get_config())
            ctx.close(state(m, D, kind), s0, f"{what}: rebuilding changed the original model", tol(dt))
            shapes = [[tuple(w.shape) for w in tiny.net_weights(x)] for x in (m, b)]
            ctx.check(shapes[0] == shapes[1], f"{what}: layers {shapes[1]} instead of {shapes[0]}")
            ctx.check([w.dtype for w in tiny.net_weights(m)] == [w.dtype for w in tiny.net_weights(b)], f"{what}: precision changed")
            ctx.check(not any(v is w for v in b.variables for w in m.variables), f"{what}: the rebuilt model holds variables of the original")
            ctx.check(len(b.trainable_variables) == len(m.trainable_variables), f"{what}: {len(b.trainable_variables)} unknowns instead of {len(m.trainable_variables)}")
            if kind == "inverse":
                ctx.check(set(m.inverse_params_dict) == set(b.inverse_params_dict), f"{what}: other unknown coefficients")
            # reference: two models built by the constructor, one trained k0 steps, never in contact
            one, two = fresh(), fresh()
            for k in range(k0):
                step(one, pt, k)
            copy_weights(m, b, kind)
            copy_weights(m, two, kind)
            ctx.close(state(b, D, kind), s0, f"{what}: same weights, other outputs", tol(dt))
            pos = [0, 0]
            for n, w in enumerate(order):
                model, ref = ((m, one), (b, two))[w]
                k = (k0 if w == 0 else 0) + pos[w]
                got, want = step(model, pt, k), step(ref, pt, k)
                pos[w] += 1
                ctx.obs(f"{'original' if w == 0 else 'rebuilt'} step", got)
                ctx.close(got, want, f"{what}: step {pos[w]} of the {'original' if w == 0 else 'rebuilt'} model", tol(dt))
                for x, y, nm in ((m, one, "original"), (b, two, "rebuilt")):
                    ctx.close(state(x, D, kind), state(y, D, kind), f"{what}: state of the {nm} model after {n + 1} steps", tol(dt))
        finally:
            tf.config.run_functions_eagerly(False)
        return c, k0, twice, tuple(order)
    return h


def same(a, b):
    import tensorflow as tf
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    if tf.is_tensor(a) or isinstance(a, (np.ndarray, tf.Variable)):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if callable(a):
        return callable(b) and all(abs(float(a(tf.constant(v))) - float(b(tf.constant(v)))) < 1e-6 for v in (-1.5, 0.3, 2.0))
    return bool(a == b)


def h_settings(ctx):
    """What the constructor was given is what the configuration records and what the rebuilt model has; build and evaluate only."""
    import tensorflow as tf
    kind = ctx.choose("model", tiny.KINDS, free=True)
    layers = ctx.choose("layers", [[2, 3, 1], [2, 3, 2], [2, 2, 3], [2, 1], [2, 4], [2, 3, 3, 3, 2], [2, 5, 4, 3, 2, 1], [2, 16, 16, 1]], free=True)
    hessian = ctx.choose("hessian", [False, True])
    att = ctx.choose("attention", [False, True])
    act = ctx.choose("activation", ["tanh", "sigmoid", "linear", "elu", "softplus", "swish", "sine function"])
    dt = ctx.choose("precision", [tf.float64, tf.float32])
    lr = ctx.choose("learning rate", [dict(LRS, use_lr_scheduler=u, staircase=s) for u in (True, False) for s in (True, False)] + [dict(LRS, decay_steps=1000, initial_learning_rate=1e-5, note="x")])
    inv = ctx.choose("unknown constants", [{"eps": 1.5}, {"eps": 0.25, "b": -1.0}, {"eps": 0.0}]) if kind == "inverse" else None
    cells = ctx.choose("cells", [1, 2, 3])
    nsens = ctx.choose("sensors", [3, 1, 40])
    twice = ctx.choose("rebuilt", ["once", "twice"])
    ctx.commit()
    D = tiny.data(dt, cells, 2, 3, 4, nsens, salt=3)
    p = {"n_cells": cells, "other": [1, 2]}
    if kind == "domain" and layers[-1] == 1:
        raise Skip()
    m = tiny.model(kind, D, layers=list(layers), lr=lr, attention=att, activation=tf.sin if act == "sine function" else act, inverse=inv and dict(inv), seed=2, hard="lift", extra={"hessian": hessian, "params_dict": p})
    what = f"{kind} {layers} hessian={hessian} attention={att} {act} {dt.name} {lr} {inv} cells={cells} sensors={nsens}"
    conf = m.get_config()
    given = {"layer_dims": list(layers), "hessian": hessian, "use_attention": att, "learning_rate_dict": dict(lr), "params_dict": p, "tensor_dtype": dt}
    for k, v in given.items():
        if k in conf:
            got = list(conf[k]) if k == "layer_dims" else conf[k]
            ctx.check(same(v, got), f"{what}: the configuration records {k} = {conf[k]!r}, the model was built with {v!r}")
    tiny.set_seed(11)
    b = tiny.cls(kind).from_config(conf)
    if twice == "twice":
        b = tiny.cls(kind).from_config(b.get_config())
    again = b.get_config()
    ctx.check(set(again) == set(conf), f"{what}: the rebuilt model has the settings {sorted(again)}, the original {sorted(conf)}")
    for k in conf:
        if k in ("name", "inverse_params_dict"):
            continue
        ctx.check(same(conf[k], again[k]), f"{what}: rebuilt model has {k} = {again[k]!r} instead of {conf[k]!r}")
    shapes = [[tuple(w.shape) for w in tiny.net_weights(x)] for x in (m, b)]
    ctx.check(shapes[0] == shapes[1], f"{what}: rebuilt with layers {shapes[1]} instead of {shapes[0]}")
    copy_weights(m, b, kind)
    X = tf.concat([D.x, D.xd, D.xs], 0)
    ctx.close(b(X).numpy(), m(X).numpy(), f"{what}: same weights, other outputs", tol(dt))
    ctx.check(b(X).dtype == dt, f"{what}: precision {b(X).dtype}")
    rates = [float(np.asarray(x.optimizer.learning_rate)) if not callable(x.optimizer._learning_rate) else [float(x.optimizer._learning_rate(k)) for k in (0, 1, 2, 5)] for x in (m, b)]
    ctx.obs("rates", rates[0])
    ctx.check(rates[0] == rates[1], f"{what}: rebuilt with learning rates {rates[1]} instead of {rates[0]}")
    return kind, tuple(layers), hessian, att, act, dt.name, repr(lr), repr(inv), cells, nsens, twice


def harnesses(tier):
    allc = list(range(len(CASES)))
    if tier == "quick":
        few = [i for i in allc if CASES[i][1] in ({}, settings("dense")[1], settings("domain")[1], {"attention": True, "lr": dict(LRS, staircase=True)})
               or "inverse" in CASES[i][1]]
        return [("save and restore", h_save(few, 3), None), ("rebuild", h_config(2, 2, allc), 0), ("rebuild later", h_config(2, 1, few), None),
                ("settings", h_settings, 1)]
    return [("save and restore", h_save(allc, 6), None), ("rebuild", h_config(3, 3, allc), None), ("settings", h_settings, 3)]

"""C21: the rate used at step k is the configured constant or exponential decay, for all network models."""
import numpy as np

from mc.explorer import Skip
from checks import tiny
from checks.C20 import check_step

BOUNDS = {"quick": "4 models x {constant, decay} x initial rate 0.05/0.4 x decay interval 0.75/1/2/2.5/3/5 x factor 0.5/0.9/1/1.5 x staircase on/off/not given (where "
                   "optional), each for 6 steps in eager mode (deviation bound 2 from the default settings); 8 settings x every history of 4 "
                   "out of {step, evaluate, step with another penalty} in graph mode; 2-step windows at steps 99, 1000 and 20000 of longer runs",
          "thorough": "full product of the settings, 12 steps; histories of 6"}
ASSUMPTIONS = ["the rate is observed through the weight change of one Adam update (see C20), relative tolerance 5e-5"]
SHARDS = {"quick": 8, "thorough": 8}


def settings(ctx, free):
    kind = ctx.choose("model", tiny.KINDS, free=True)
    use = ctx.choose("scheduler", [True, False, np.True_, np.False_], free=free)
    lr = {"initial_learning_rate": ctx.choose("initial rate", [0.05, 0.4], free=free), "use_lr_scheduler": use,
          "decay_steps": ctx.choose("interval", [2, 1, 3, 5, 2.5, 0.75], free=free), "decay_rate": ctx.choose("factor", [0.5, 0.9, 1, 1.5], free=free)}
    st = ctx.choose("staircase", [False, True, np.True_] + (["absent"] if kind in ("dense", "domain") else []), free=True)
    if st != "absent":
        lr["staircase"] = st
    return kind, lr


def h_eager(steps, free):
    def h(ctx):
        import tensorflow as tf
        kind, lr = settings(ctx, free)
        ctx.commit()
        given = dict(lr)
        tf.config.run_functions_eagerly(True)
        try:
            P = tiny.Pair(kind, {"lr": lr, "layers": [2, 2] if kind == "domain" else [2, 1]}, tf.float64, (1, 2, 2, 2, 2), salt=3)
            P.adam = tiny.Adam()
            for k in range(steps):
                pre, inv = P.ws(), P.inv()
                p, _ = P.step(tf.constant(10.0, tf.float64))
                check_step(ctx, P, k, pre, inv, p, 10.0, f"{kind} {lr}: step {k} (expected rate {tiny.schedule(lr, k)})")
        finally:
            tf.config.run_functions_eagerly(False)
        ctx.equal(lr == given, True, "settings of the caller unchanged")
        return kind, repr(lr)
    return h


GRAPH = [("dense", dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=2, decay_rate=0.5, staircase=True)),
         ("hard", dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=2, decay_rate=0.5, staircase=False)),
         ("inverse", dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=3, decay_rate=0.9, staircase=True)),
         ("domain", dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=1, decay_rate=0.5, staircase=False)),
         ("dense", dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=3, decay_rate=0.5)),
         ("hard", dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=2, decay_rate=0.5, staircase=True)),
         ("inverse", dict(initial_learning_rate=0.05, use_lr_scheduler=False, decay_steps=1, decay_rate=0.5, staircase=False)),
         ("domain", dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=2, decay_rate=0.5))]
_pairs = {}


def h_graph(depth):
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(GRAPH)), free=True)
        if not ctx.replay and c % ctx.nshards != ctx.shard:
            raise Skip()
        seq = [ctx.choose(f"operation {i}", ["step", "evaluate", "step with penalty 0.5"], free=True) for i in range(depth)]
        if seq[-1] == "evaluate":
            raise Skip()
        kind, lr = GRAPH[c]
        if c not in _pairs:
            _pairs[c] = tiny.Pair(kind, {"lr": lr}, tf.float64, (1, 2, 2, 2, 2))
        P = _pairs[c]
        P.reset()
        k = 0
        for n, op in enumerate(seq):
            if op == "evaluate":
                P.m(P.D.xd)
                P.m.predict(P.D.xs.numpy(), verbose=0) if n == 0 and k == 0 and depth < 5 else P.m(P.D.xs)
                continue
            b = 10.0 if op == "step" else 0.5
            pre, inv = P.ws(), P.inv()
            p, _ = P.step(tf.constant(b, tf.float64))
            check_step(ctx, P, k, pre, inv, p, b, f"{kind} {lr}: operation {n} of {seq} (expected rate {tiny.schedule(lr, k)})")
            k += 1
        return c, tuple(seq)
    return h


def h_far(firsts, steps):
    """Far into the training: the step counter of the optimiser is moved on, then some steps are taken."""
    def h(ctx):
        import tensorflow as tf
        k0 = ctx.choose("steps taken before", firsts, free=True)
        kind = ctx.choose("model", tiny.KINDS, free=True)
        use = ctx.choose("scheduler", [True, False])
        init = ctx.choose("initial rate", [0.05, 1e-3, 1.0, 2.5, 30.0])
        ds = ctx.choose("interval", [100, 7, 1000, 1, 100000])
        dr = ctx.choose("factor", [0.5, 0.97, 1.001, 1e-4])
        st = ctx.choose("staircase", [False, True])
        ctx.commit()
        lr = {"initial_learning_rate": init, "use_lr_scheduler": use, "decay_steps": ds, "decay_rate": dr, "staircase": st}
        if use and not 1e-12 < tiny.schedule(lr, k0) < 1e3:
            raise Skip()
        tf.config.run_functions_eagerly(True)
        try:
            P = tiny.Pair(kind, {"lr": dict(lr), "layers": [2, 2] if kind == "domain" else [2, 1]}, tf.float64, (1, 2, 2, 2, 2), salt=3)
            P.adam = tiny.Adam()
            P.m.optimizer.build(P.m.trainable_variables)
            P.m.optimizer.iterations.assign(k0)
            P.adam.t = k0
            for k in range(k0, k0 + steps):
                pre, inv = P.ws(), P.inv()
                p, _ = P.step(tf.constant(10.0, tf.float64))
                check_step(ctx, P, k, pre, inv, p, 10.0, f"{kind} {lr}: step {k} (expected rate {tiny.schedule(lr, k)})")
        finally:
            tf.config.run_functions_eagerly(False)
        return k0, kind, repr(lr)
    return h


def harnesses(tier):
    q = tier == "quick"
    return harnesses_(tier) + [("far steps", h_far([99, 1000, 20000] if q else [9, 49, 99, 499, 999, 1000, 9999, 20000, 10**6], 2 if q else 3), 1 if q else 3)]


def harnesses_(tier):
    if tier == "quick":
        return [("settings", h_eager(6, False), 2), ("histories", h_graph(4), None)]
    return [("settings", h_eager(12, True), None), ("histories", h_graph(6), None)]

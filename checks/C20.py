"""C20: every unknown moves by exactly one Adam update on the true gradient, and nothing else moves."""
import numpy as np

from mc.explorer import Skip
from checks import tiny
from checks.C19 import CONF, more, perturb, beta_of, at_state
from checks.C25 import h_field

BOUNDS = {"quick": "12 model configurations x every history of 3 operations out of {step with penalty 10 / 0 / 0.5, step with changed coefficients, external "
                   "weight change} in graph mode; 51 configurations (kind x loss x attention x activation x architecture x precision x sizes x "
                   "constraint) x histories of 2 in eager mode on fresh models; runs of 60 steps, every step judged; "
                   "special states, step counters, penalty and coefficient forms of C19; 12 and 24 unknown constants, one constant per cell as a tensor",
          "thorough": "histories of 5 in graph mode; 3 in eager mode"}
ASSUMPTIONS = ["gradients of the reference loss by complex-step differentiation (exact to rounding); Adam with the documented Keras defaults",
               "float32: entries whose gradient is below 1e-3 of the largest one are only checked to stay within one learning rate"]
SHARDS = {"quick": 8, "thorough": 8}
OPS = ["step t10", "step t0", "step coefs", "perturb", "step t0.5"]


def check_step(ctx, P, k, pre, inv, p, b, what):
    g, gi = P.ref.gradient(pre, p, inv, b)
    vals = {i: w for i, w in enumerate(pre)}
    grads = dict(enumerate(g))
    for key, v in inv.items():
        vals[key], grads[key] = v, gi[key]
    want = P.adam.step(tiny.schedule(P.lr, k), vals, grads)
    lr = tiny.schedule(P.lr, k)
    post = P.ws()
    pinv = P.inv()
    ctx.obs("step", [post, pinv])
    ctx.check(len(post) == len(pre) and set(pinv) == set(inv), f"{what}: the set of unknowns changed")
    big = max([np.max(np.abs(a)) for a in g if a.size] + [abs(v) for v in gi.values()] + [1e-30])
    for key, w in want.items():
        got = np.asarray(post[key] if key in range(len(post)) else pinv[key], dtype=float)
        w = np.asarray(w, dtype=float)
        err = np.abs(got - w)
        ctx.check(got.shape == w.shape, f"{what}: shape of unknown {key} changed")
        if P.dt.name == "float64":
            # Keras rounds the moment decay rates to single precision: 1 - beta_2**t is off by 1.3e-5
            ok = err <= P.adam.slack(lr, key, 1e-10 * big) + 1e-14 * np.abs(w) + 1e-300
        else:
            significant = np.abs(grads[key]) > 1e-3 * big
            ok = np.where(significant, err <= 5e-3 * lr + 1e-6 * np.abs(w), err <= 3 * lr)
        ctx.check(bool(np.all(ok)), lambda: f"{what}: unknown {key} is {got.tolist()} after the step, one Adam update on the gradient gives {w.tolist()}")


def drive(ctx, P, seq, what):
    tv = len(P.m.trainable_variables)
    ctx.check(tv == len(P.ws()) + len(P.inv()), f"{what}: {tv} trainable variables for {len(P.ws())} weights and {len(P.inv())} coefficients")
    k = 0
    for n, op in enumerate(seq):
        if op == "perturb":
            perturb(P, n)
            continue
        b, arg = beta_of(op, P.dt)
        pre, inv = P.ws(), P.inv()
        p, _ = P.step(arg, -2.0 if op == "step coefs" else 1.0)
        check_step(ctx, P, k, pre, inv, p, b, f"{what}: operation {n} ({op}) of {seq if len(seq) < 20 else len(seq)}")
        k += 1


_pairs = {}


def h_graph(depth, confs):
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        if not ctx.replay and c % ctx.nshards != ctx.shard:
            raise Skip()
        seq = [ctx.choose(f"operation {i}", OPS, free=True) for i in range(depth)]
        if seq[-1] == "perturb":
            raise Skip()
        key = repr(confs[c])
        if key not in _pairs:
            kind, cfg, bits = confs[c]
            _pairs[key] = tiny.Pair(kind, cfg, tf.float64 if bits == 64 else tf.float32)
        P = _pairs[key]
        P.reset()
        drive(ctx, P, seq, f"{confs[c]}")
        return c, tuple(seq)
    return h


def h_eager(depth):
    confs = more()

    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        seq = [ctx.choose(f"operation {i}", OPS, free=True) for i in range(depth)]
        if seq[-1] == "perturb":
            raise Skip()
        ctx.commit()
        kind, cfg, bits, size = confs[c]
        tf.config.run_functions_eagerly(True)
        try:
            P = tiny.Pair(kind, cfg, tf.float64 if bits == 64 else tf.float32, size or (2, 3, 4, 5, 3), salt=c)
            P.adam = tiny.Adam()
            drive(ctx, P, seq, f"{confs[c]} (eager, fresh)")
        finally:
            tf.config.run_functions_eagerly(False)
        return c, tuple(seq)
    return h


def judge_state(ctx, P, k, ws, inv, p, b, r, s, what):
    check_step(ctx, P, k, ws, inv, p, b, what)


def h_long(steps, confs):
    """One long run per configuration: every step is judged (a small learning rate keeps the run regular)."""
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        if not ctx.replay and c % ctx.nshards != ctx.shard:
            raise Skip()
        kind, cfg, bits = confs[c]
        P = tiny.Pair(kind, cfg, tf.float64, (1, 2, 3, 3, 2))
        P.adam = tiny.Adam()
        drive(ctx, P, ["step t10", "step t0.5", "step t10"] * (steps // 3), f"{confs[c]} long run")
        return c
    return h


def harnesses(tier):
    hs = harnesses_(tier)
    hs.append(("states", at_state(judge_state, 2, [0, 9, 99, 499, 999, 4999, 20000]), 1 if tier == "quick" else 2))
    hs.append(("many and tensor unknowns", h_field(2), None))
    return hs + [("long runs", h_long(60 if tier == "quick" else 600, CONF[:8]), None)]


def harnesses_(tier):
    if tier == "quick":
        return [("graph histories", h_graph(3, CONF), None), ("eager histories", h_eager(2), None)]
    return [("graph histories", h_graph(5, CONF), None), ("eager histories", h_eager(3), None)]

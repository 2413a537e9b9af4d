"""C19: reported losses against the model state before each step."""
import numpy as np

from mc.explorer import Skip
from checks import tiny

BOUNDS = {"quick": "8 model configurations x every history of 3 operations (12 x 2) out of {step with tensor penalty 10 / 0.5 / 0, python penalty 2, "
                   "no penalty given, changed coefficients, external weight change} in graph mode on models reset in between; 55 configurations (kind x loss "
                   "x attention x activation x architecture x precision x sizes x constraint), one operation each, in eager mode on fresh models; runs of 120 steps, every step judged; "
                   "10 special states (magnitudes 0..1e7, exact fit, saturation) x step counters up to 20000 x 7 penalty forms x 6 coefficient forms: <=1 deviation; data with an entry that is not finite",
          "thorough": "12 configurations x histories of 4 in graph mode; 55 x histories of 2 in eager mode"}
ASSUMPTIONS = ["reference in float64 by explicit loops; 1e-9 (float64) / 2e-4 (float32) relative tolerance",
               "graph-mode histories start from a state restored by assigning all model and optimiser variables"]
SHARDS = {"quick": 8, "thorough": 8}

CONF = [("dense", {}, 64), ("hard", {}, 64), ("inverse", {}, 64), ("domain", {}, 64),
        ("dense", {"loss": "cd2d", "attention": True}, 64), ("dense", {"loss": "helmholtz", "layers": [2, 1]}, 32),
        ("inverse", {"loss": "cd2d_inv", "inverse": {"eps": 0.5}}, 64), ("hard", {"loss": "cd2d", "hard": "lift", "act": "sigmoid"}, 64),
        ("domain", {"layers": [2, 2, 3, 2], "act": "sin"}, 64), ("inverse", {"attention": True}, 32), ("hard", {"hard": "dep", "attention": True}, 64),
        ("dense", {"layers": [2, 4, 3, 2, 1], "act": "softplus", "loss": "cd2d"}, 64)]


def more():
    out = []
    for kind, losses in (("dense", ("poisson", "helmholtz", "cd2d")), ("hard", ("poisson", "helmholtz", "cd2d")), ("inverse", ("poisson_inv", "cd2d_inv")),
                         ("domain", ("cd2d_dom",))):
        last = 2 if kind == "domain" else 1
        for loss in losses:
            out += [(kind, {"loss": loss}, 64, None), (kind, {"loss": loss, "attention": True}, 64, None), (kind, {"loss": loss}, 32, None)]
        for sz in ((1, 1, 1, 1, 1), (3, 2, 1, 2, 4), (1, 4, 4, 6, 2)):
            out.append((kind, {}, 64, sz))
        out += [(kind, {"layers": [2, last]}, 64, None), (kind, {"layers": [2, 3, 2, last], "act": "elu"}, 64, (2, 2, 4, 3, 3))]
        out += [(kind, {"layers": [2, 8, 8, last]}, 64, (12, 3, 4, 70, 40)), (kind, {}, 64, (9, 9, 9, 9, 9)), (kind, {"layers": [2, 5, 4, 5, last]}, 64, (2, 4, 2, 257, 130)), (kind, {}, 64, (1, 2, 3, 1100, 700))]
        if kind == "hard":
            out += [(kind, {"hard": h, "loss": "cd2d"}, 64, None) for h in ("none", "lift", "dep", "add")]
    return out


OPS = ["step t10", "step t0.5", "step py2", "step default", "step coefs", "perturb", "step t0"]


def perturb(P, k):
    for i, v in enumerate(tiny.net_weights(P.m)):
        a = v.numpy()
        v.assign((a + 0.2 * np.cos(1.3 * np.arange(a.size).reshape(a.shape) + i + k)).astype(a.dtype))
    if P.kind == "inverse":
        for v in P.m.inverse_params_dict.values():
            v.assign_add(np.asarray(0.3, v.dtype.as_numpy_dtype))


def beta_of(op, dt):
    import tensorflow as tf
    if op == "step t10":
        return 10.0, tf.constant(10.0, dt)
    if op == "step t0.5":
        return 0.5, tf.constant(0.5, dt)
    if op == "step t0":
        return 0.0, tf.constant(0.0, dt)
    if op == "step py2":
        return 2.0, 2
    if op == "step default":
        return 10.0, None
    return 3.0, tf.constant(3.0, dt)


KEYS = {"dense": {"loss_pde", "loss_dirichlet", "loss"}, "hard": {"loss_pde", "loss_dirichlet", "loss"},
        "inverse": {"loss_pde", "loss_dirichlet", "loss", "sensor_loss", "inverse_params"}, "domain": {"loss_pde", "loss_dirichlet", "loss", "sensor_loss"}}


def drive(ctx, P, seq, what):
    for n, op in enumerate(seq):
        if op == "perturb":
            perturb(P, n)
            ctx.obs(op, P.ws())
            continue
        b, arg = beta_of(op, P.dt)
        ws, inv = P.ws(), P.inv()
        p, r = P.step(arg, -2.0 if op == "step coefs" else 1.0)
        want = P.ref.losses(ws, p, inv, b)
        got = {k: r[k] for k in r if k != "inverse_params"}
        ctx.check(KEYS[P.kind] <= set(r), f"{what}: step reports {sorted(r)}")
        got = {k: tiny.num(v) for k, v in got.items() if k in want}
        ctx.obs(op, sorted(got.items()))
        s = max(1.0, abs(want["loss"]))
        for k, w in want.items():
            ctx.check(abs(got[k] - w) <= P.tol * max(s if k == "loss" else 1.0, abs(w)),
                      f"{what}: operation {n} ({op}) of {seq if len(seq) < 20 else len(seq)}: {k} reported {got[k]!r}, model state before the step gives {w!r}")


_pairs = {}


def h_graph(depth, confs):
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        seq = [ctx.choose(f"operation {i}", OPS, free=True) for i in range(depth)]
        if seq[-1] == "perturb":
            raise Skip()
        # one configuration per shard: its trace is reused
        if not ctx.replay and c % ctx.nshards != ctx.shard:
            raise Skip()
        if c not in _pairs:
            kind, cfg, bits = confs[c]
            _pairs[c] = tiny.Pair(kind, cfg, tf.float64 if bits == 64 else tf.float32)
        P = _pairs[c]
        P.reset()
        drive(ctx, P, seq, f"{confs[c]}")
        return c, tuple(seq)
    return h


def h_eager(depth):
    confs = more()

    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        seq = [ctx.choose(f"operation {i}", OPS, free=True) for i in range(depth)]
        if seq[-1] == "perturb":
            raise Skip()
        ctx.commit()
        kind, cfg, bits, size = confs[c]
        tf.config.run_functions_eagerly(True)
        try:
            P = tiny.Pair(kind, cfg, tf.float64 if bits == 64 else tf.float32, size or (2, 3, 4, 5, 3), salt=c)
            drive(ctx, P, seq, f"{confs[c]} (eager, fresh)")
        finally:
            tf.config.run_functions_eagerly(False)
        return c, tuple(seq)
    return h


WIDE = [(k, {"layers": [2, 20, 2 if k == "domain" else 1]}, 64) for k in tiny.KINDS]
STATES = ["generic", "small", "tiny", "large", "zero", "zero weights", "saturated", "fitted", "huge", "large biases"]
SCALE = {"small": 1e-4, "tiny": 1e-9, "large": 1e4, "huge": 1e7}


def build_pair(conf, state, salt=0):
    """A model whose data have the magnitude of the state."""
    import tensorflow as tf
    kind, cfg, bits = conf[:3]
    dt = tf.float64 if bits == 64 else tf.float32
    k = SCALE.get(state, 0.0 if state == "zero" else 1.0)

    def change(D):
        D.f, D.ud, D.us = (t * tf.constant(k, t.dtype) for t in (D.f, D.ud, D.us))

    P = tiny.Pair(kind, cfg, dt, (2, 3, 4, 5, 3), salt=salt, change=change)
    w = {"zero": 0.0, "zero weights": 0.0, "saturated": 25.0, "small": 1e-4, "tiny": 1e-9}.get(state, 1.0)
    if w != 1.0:
        for v in tiny.net_weights(P.m):
            v.assign(np.asarray(v.numpy() * w, v.dtype.as_numpy_dtype))
    if state == "large biases":
        for v in tiny.net_weights(P.m)[1::2]:
            v.assign(np.asarray(v.numpy() * 150, v.dtype.as_numpy_dtype))
    if state == "fitted":
        # boundary and sensor data are exactly what the network gives now
        fit = {t: P.m(x)[:, 0:1] for x, t in ((P.D.xd, "ud"), (P.D.xs, "us"))}
        P = tiny.Pair(kind, cfg, dt, (2, 3, 4, 5, 3), salt=salt, change=lambda D: [setattr(D, t, u) for t, u in fit.items()])
    return P, {"small": 1e-4, "tiny": 1e-9, "zero": 0.0, "large": 1e4, "huge": 1e7}.get(state, 1.0)


PENALTIES = ["tensor 10", "tensor 1e6", "tensor 1e-6", "numpy scalar", "int", "variable", "negative"]


def penalty(name, dt):
    import tensorflow as tf
    n = dt.as_numpy_dtype
    return {"tensor 10": (10.0, tf.constant(10.0, dt)), "tensor 1e6": (1e6, tf.constant(1e6, dt)), "tensor 1e-6": (float(n(1e-6)), tf.constant(1e-6, dt)),
            "numpy scalar": (3.5, n(3.5)), "int": (7.0, 7), "variable": (2.25, tf.Variable(2.25, dtype=dt)), "negative": (-1.5, tf.constant(-1.5, dt))}[name]


def at_state(judge, steps, firsts, conf=None):
    """Fresh models in special states: magnitudes, exact fits, far in the run, every form of the penalty and the coefficients."""
    confs = conf or [c for c in CONF if c[2] == 64] + WIDE

    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        state = ctx.choose("state", STATES)
        k0 = ctx.choose("steps taken before", firsts)
        pen = ctx.choose("penalty", PENALTIES)
        co = ctx.choose("coefficients", ["tensors", "zero", "numbers", "extra entries", "variables", "large"])
        guess = ctx.choose("unknown coefficient", ["as set", 0.0, -2.0, 1e3] if confs[c][0] == "inverse" else ["as set"])
        if state in ("tiny", "small", "zero") and (confs[c][1].get("hard") in ("lift", "add", "dep")):
            raise Skip()
        ctx.commit()
        tf.config.run_functions_eagerly(True)
        try:
            P, s = build_pair(confs[c], state, c)
            P.adam = tiny.Adam()
            if guess != "as set":
                for v in P.m.inverse_params_dict.values():
                    v.assign(np.asarray(guess, v.dtype.as_numpy_dtype))
            if k0:
                P.m.optimizer.build(P.m.trainable_variables)
                P.m.optimizer.iterations.assign(k0)
                P.adam.t = k0
            b, arg = penalty(pen, P.dt)
            scale = {"zero": 0.0, "large": 1e4}.get(co, 1.0)
            p, pt = tiny.params(P.lossname, P.dt, scale)
            if co == "numbers":
                pt = dict(p)
            if co == "variables":
                pt = {k: tf.Variable(v) for k, v in pt.items()}
            if co == "extra entries":
                pt = {**{k: tf.constant(55.0, P.dt) for k in ("alpha", "z", "beta", "force", "lam")}, **pt}
            for i in range(steps):
                ws, inv = P.ws(), P.inv()
                r = P.m.train_step(beta=arg, bilinear_params_dict=pt)
                judge(ctx, P, k0 + i, ws, inv, p, b, r, s * max(scale, 1.0) * max(1.0, abs(guess) if guess != "as set" else 1.0),
                      f"{confs[c]} in state {state!r}, {k0} steps before, penalty {pen}, coefficients {co}, unknown {guess}: step {i}")
        finally:
            tf.config.run_functions_eagerly(False)
        return c, state, k0, pen, co
    return h


def judge_losses(ctx, P, k, ws, inv, p, b, r, s, what):
    want = P.ref.losses(ws, p, inv, b)
    got = {q: tiny.num(r[q]) for q in want}
    ctx.obs("losses", sorted(got.items()))
    for q, w in want.items():
        t = 1e-10 * (max(1.0, abs(b)) if q == "loss" else 1.0)
        ctx.check(abs(got[q] - w) <= t * max(abs(w), s * s), f"{what}: {q} reported {got[q]!r}, model state before the step gives {w!r}")


def h_diverged(ctx):
    """Data that are not a number are never reported as a finite loss."""
    import tensorflow as tf
    c = ctx.choose("configuration", range(len(CONF)), free=True)
    which = ctx.choose("data", ["f", "ud", "us", "x", "xd", "xs"], free=True)
    bad = ctx.choose("entry", [np.nan, np.inf], free=True)
    mode = ctx.choose("execution", ["eager", "graph"], free=True)
    kind, cfg, bits = CONF[c]
    if which in ("us", "xs") and kind not in ("inverse", "domain") or which in ("ud", "xd") and kind == "hard" or which in ("x", "xd", "xs") and not np.isnan(bad):
        raise Skip()
    if mode == "graph" and (bad is not np.nan and not np.isnan(bad)):
        raise Skip()
    ctx.commit()

    def change(D):
        a = getattr(D, which).numpy().copy()
        a[-1, -1] = bad
        setattr(D, which, tf.constant(a))
    tf.config.run_functions_eagerly(mode == "eager")
    try:
        P = tiny.Pair(kind, cfg, tf.float64 if bits == 64 else tf.float32, (2, 3, 4, 5, 3), salt=c, change=change)
        p, r = P.step()
    finally:
        tf.config.run_functions_eagerly(False)
    part = {"f": "loss_pde", "x": "loss_pde", "ud": "loss_dirichlet", "xd": "loss_dirichlet", "us": "sensor_loss", "xs": "sensor_loss"}[which]
    ctx.obs(part, which)
    for k in (part, "loss"):
        ctx.check(not np.isfinite(tiny.num(r[k])), f"{CONF[c]} {mode}: {which} has an entry {bad}, {k} is reported as {r[k]}")
    return c, which, str(bad), mode


def h_long(steps, confs):
    """One long run per configuration: every step is judged."""
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        pat = ctx.choose("operations", [("step default",), ("step t10", "step t0.5", "step coefs")], free=True)
        if not ctx.replay and c % ctx.nshards != ctx.shard:
            raise Skip()
        kind, cfg, bits = confs[c]
        if c not in _pairs:
            _pairs[c] = tiny.Pair(kind, cfg, tf.float64 if bits == 64 else tf.float32)
        P = _pairs[c]
        P.reset()
        drive(ctx, P, [pat[i % len(pat)] for i in range(steps)], f"{confs[c]} long run")
        return c, pat
    return h


def harnesses(tier):
    hs = harnesses_(tier)
    hs.append(("states", at_state(judge_losses, 2, [0, 9, 99, 499, 999, 4999, 20000]), 1 if tier == "quick" else 2))
    hs.append(("diverged", h_diverged, None))
    return hs + [("long runs", h_long(120 if tier == "quick" else 1100, CONF[:8] if tier == "quick" else CONF), None)]


def harnesses_(tier):
    if tier == "quick":
        return [("graph histories", h_graph(3, CONF[:8]), None), ("graph histories, more models", h_graph(2, CONF[8:] + CONF[:4]), None),
                ("eager histories", h_eager(1), None)]
    return [("graph histories", h_graph(4, CONF), None), ("eager histories", h_eager(2), None)]

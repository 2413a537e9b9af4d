"""C23: output of a hard-constrained network = constraint(points, raw network output) in every state."""
import numpy as np

from mc.explorer import Skip
from checks import tiny

BOUNDS = {"quick": "7 configurations (constraint none/multiplicative/lift/output dependent/additive, attention, activation, precision) x every history of 4 "
                   "operations out of {step, step with penalty 1000, external weight change, evaluation as tensor/array/predict} in graph mode; all "
                   "5 constraints x 8 architectures x attention x precision x {boundary data valid, boundary data not a number, other boundary size} in eager mode",
          "thorough": "histories of 6 in graph mode; 4 steps in eager mode"}
ASSUMPTIONS = ["raw network output from the independent float64 network of checks/tiny.py"]
SHARDS = {"quick": 8, "thorough": 8}

CONF = [({"hard": "mult"}, 64), ({"hard": "lift", "loss": "cd2d"}, 64), ({"hard": "dep", "attention": True}, 64), ({"hard": "add", "act": "sigmoid"}, 64),
        ({"hard": "none", "loss": "helmholtz"}, 64), ({"hard": "mult", "layers": [2, 3, 2, 1]}, 32), ({"hard": "lift", "layers": [2, 1]}, 64)]
PTS = np.array([[0.0, 0.3], [1 / 3, 1.0], [0.7, -0.2], [0.0, 1.0], [-1.5, 0.1]])
OPS = ["step", "step penalty 1000", "perturb", "evaluate"]


def perturb(P, k):
    for i, v in enumerate(tiny.net_weights(P.m)):
        a = v.numpy()
        v.assign((np.cos(1.7 * np.arange(a.size).reshape(a.shape) + i + 3 * k)).astype(a.dtype))


def points(ctx, P, what, how=("tensor",)):
    import tensorflow as tf
    ws = P.ws()
    tol = 1e-11 if P.dt == tf.float64 else 5e-5
    for name, x in (("quadrature points", P.ref.x), ("other points", PTS), ("one point", PTS[1:2]), ("boundary points", P.ref.xd),
                    ("as many other points as there are quadrature points", 0.3 - 0.8 * P.ref.x[::-1]), ("quadrature points in reverse", P.ref.x[::-1]),
                    ("as many other points as there are boundary points", np.arange(2.0 * len(P.ref.xd)).reshape(-1, 2) % 7 / 5 - 0.4)):
        if not np.all(np.isfinite(x)):
            continue
        want = P.ref.output(ws, x)
        for h in how:
            if h == "tensor":
                got = P.m(tf.constant(x, P.dt))
            elif h == "array":
                got = P.m(x if P.dt == tf.float64 else x.astype(np.float32))
            else:
                got = P.m.predict(tf.constant(x, P.dt), verbose=0)
            if h != "predict":
                ctx.check(got.dtype == P.dt, f"{what}: output at the {name} ({h}) has type {got.dtype}, requested {P.dt}")
            got = np.asarray(got)
            ctx.close(got, want, f"{what}: output at the {name} given as {h}", tol)
            if P.cfg.get("hard", "mult") == "mult":
                z = np.isclose(x[:, 0], 0, atol=0) | (x[:, 1] == 1)
                ctx.check(bool(np.all(got[z] == 0)), f"{what}: the constrained output does not vanish on the constrained boundary")
        ctx.obs(name, want)


def step(ctx, P, beta, what):
    ws = P.ws()
    p, r = P.step(beta)
    want = P.ref.losses(ws, p, {}, 0.0)
    ctx.check(tiny.num(r["loss_dirichlet"]) == 0.0, f"{what}: a boundary loss of {r['loss_dirichlet']} is reported")
    for k in ("loss_pde", "loss"):
        ctx.check(abs(tiny.num(r[k]) - want["loss_pde"]) <= P.tol * max(1.0, abs(want["loss_pde"])),
                  f"{what}: {k} {tiny.num(r[k])!r} is not the PDE loss of the constrained output {want['loss_pde']!r}")


_pairs = {}


def h_graph(depth):
    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(CONF)), free=True)
        if not ctx.replay and c % ctx.nshards != ctx.shard:
            raise Skip()
        seq = [ctx.choose(f"operation {i}", OPS, free=True) for i in range(depth)]
        cfg, bits = CONF[c]
        if c not in _pairs:
            _pairs[c] = tiny.Pair("hard", cfg, tf.float64 if bits == 64 else tf.float32)
        P = _pairs[c]
        P.reset()
        for n, op in enumerate(seq):
            what = f"{cfg}: operation {n} ({op}) of {seq}"
            if op.startswith("step"):
                step(ctx, P, tf.constant(1000.0 if "1000" in op else 10.0, P.dt), what)
            elif op == "perturb":
                perturb(P, n)
            points(ctx, P, what, ("tensor", "array", "predict") if op == "evaluate" and n == depth - 1 and "perturb" not in seq else ("tensor",))
        return c, tuple(seq)
    return h


def h_eager(steps):
    def h(ctx):
        import tensorflow as tf
        cfg = {"hard": ctx.choose("constraint", ["mult", "none", "lift", "dep", "add"], free=True),
               "layers": ctx.choose("layers", [[2, 3, 1], [2, 1], [2, 1, 1], [2, 2, 2, 1], [2, 4, 1], [2, 1, 3, 1], [2, 2, 3, 2, 1], [2, 48, 1]], free=True)}
        if ctx.choose("attention", [False, True]):
            cfg["attention"] = True
        dt = ctx.choose("precision", [tf.float64, tf.float32])
        bd = ctx.choose("boundary data", ["valid", "not a number", "large", "none"])
        sz = {"valid": 5, "not a number": 5, "large": 9, "none": 0}[bd]
        ctx.commit()
        tf.config.run_functions_eagerly(True)
        try:
            P = tiny.Pair("hard", cfg, dt, (2, 2, 3, max(sz, 1), 2), salt=2)
            if bd in ("not a number", "none"):
                # the boundary data take no part in the training of a hard-constrained network
                D = P.D
                nan = [D.x, D.xd * np.nan, D.ud * np.nan] if sz else [D.x, D.xd[:0], D.ud[:0]]
                P.m = tiny.model("hard", D, hard=cfg["hard"], layers=cfg["layers"], attention=cfg.get("attention", False), extra={"input_tensors_list": nan})
            before = P.ws()
            what = f"{cfg} {dt.name} boundary data {bd}"
            points(ctx, P, f"{what}: initial", ("tensor", "array"))
            for k in range(steps):
                step(ctx, P, tf.constant([10.0, 0.0, 1e3][k % 3], dt), f"{what}: step {k}")
                points(ctx, P, f"{what}: after step {k}")
            ctx.check(any(not np.array_equal(a, b) for a, b in zip(before, P.ws())), f"{what}: training changed no weight")
            for s in (1e4, 1e3, 1e-12):
                # very large, then very small raw output
                for v in tiny.net_weights(P.m)[-2:]:
                    v.assign(v * s)
                points(ctx, P, f"{what}: last layer scaled by {s}")
            for v in tiny.net_weights(P.m)[-2:]:
                v.assign(v * 1e8)
            step(ctx, P, tf.constant(10.0, dt), f"{what}: step with a large raw output")
            points(ctx, P, f"{what}: after a step with a large raw output")
        finally:
            tf.config.run_functions_eagerly(False)
        return repr(cfg), dt.name, bd
    return h


def h_undefined(ctx):
    """A constraint without a finite value somewhere is passed on as it is."""
    import tensorflow as tf
    dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
    where = ctx.choose("points", ["inside and outside", "outside", "on the edge"], free=True)
    layers = ctx.choose("layers", [[2, 3, 1], [2, 1], [2, 48, 1]], free=True)
    mode = ctx.choose("execution", ["eager", "graph"], free=True)
    ctx.commit()

    def f(inputs, out):
        return tf.math.log(inputs[:, 0:1]) * out + 1.0
    tf.config.run_functions_eagerly(mode == "eager")
    try:
        D = tiny.data(dt, 1, 2, 3, 3, 2)
        m = tiny.model("hard", D, layers=layers, extra={"hard_constraint_function": f})
        x = {"inside and outside": [[0.5, 0.2], [-0.5, 0.2], [2.0, -1.0], [0.0, 0.0]], "outside": [[-1.0, 0.0], [-2.0, 3.0]], "on the edge": [[0.0, 0.3]]}[where]
        x = np.array(x)
        n = tiny.ref_forward(tiny.weights_np(m), x)
        with np.errstate(all="ignore"):
            want = np.log(x[:, 0:1]) * n + 1.0
        got = np.asarray(m(tf.constant(x, dt)), float)
        what = f"{layers} {dt.name} {mode} {where}"
        ctx.obs("output", want)
        fin = np.isfinite(want)
        ctx.check(got.shape == want.shape and np.array_equal(np.isnan(got), np.isnan(want)) and np.array_equal(np.isinf(got), np.isinf(want)),
                  f"{what}: output {got.ravel()}, constraint of the raw output {want.ravel()}")
        ctx.close(got[fin], want[fin], what, 1e-11 if dt == tf.float64 else 5e-5)
    finally:
        tf.config.run_functions_eagerly(False)
    return where, dt.name, tuple(layers), mode


def harnesses(tier):
    if tier == "quick":
        return [("graph histories", h_graph(4), None), ("configurations", h_eager(2), 2), ("undefined", h_undefined, None)]
    return [("undefined", h_undefined, None), ("graph histories", h_graph(6), None), ("configurations", h_eager(4), None)]

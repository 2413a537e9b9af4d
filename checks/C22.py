"""C22: every interleaving of two models that share their inputs gives each the trajectory it has alone."""
import numpy as np

from mc.explorer import Skip, Violated
from checks import tiny

BOUNDS = {"quick": "all interleavings of {build, step, step} of two models built from the same tensors, lists and dictionaries: all 10 pairs of model kinds "
                   "x 2 settings of the second in eager mode, 4 same-kind pairs in graph mode; {build, evaluate, step, evaluate} for 4 pairs (eager); building, evaluating and training with every constructor argument of a menu leaves all objects of the caller as they were",
          "thorough": "16 ordered pairs x {build, step, evaluate, step with changed penalty, external weight change, step} (924 interleavings per pair and "
                      "setting); 6 pairs {build, step, evaluate, step} in graph mode"}
ASSUMPTIONS = ["the initialisers are seeded right before each build, so a model's initial state does not depend on the schedule",
               "interleavings at operation granularity in one thread (TensorFlow models are not documented as thread safe)"]
SHARDS = {"quick": 8, "thorough": 8}


class Shared:
    def __init__(self, dt):
        D = self.D = tiny.data(dt, 1, 2, 3, 3, 3, salt=5)
        self.objects = {
            "input_tensors_list": [D.x, D.xd, D.ud], "orig_factor_matrices": [D.val, D.gx, D.gy], "force_function_list": D.f,
            "params_dict": {"n_cells": D.n_cells, "extra": 3},
            "learning_rate_dict": dict(initial_learning_rate=0.05, use_lr_scheduler=True, decay_steps=2, decay_rate=0.5, staircase=True),
            "learning_rate_dict_2": dict(initial_learning_rate=0.3, use_lr_scheduler=False, decay_steps=1, decay_rate=0.1, staircase=False),
            "sensor_list": [D.xs, D.us], "inverse_params_dict": {"eps": 1.5}, "layer_dims": [2, 2, 1], "layer_dims_domain": [2, 2, 2]}
        self.coef = {k: v for loss in ("cd2d", "helmholtz") for k, v in tiny.params(loss, dt)[1].items()}
        self.before = self.picture()

    def picture(self):
        def f(x):
            if isinstance(x, dict):
                return {k: (f(v), type(v).__name__) for k, v in x.items()}
            if isinstance(x, list):
                return [(f(v), id(v)) for v in x]
            return np.asarray(x).tolist()
        return f(self.objects), f(self.coef)

    def build(self, kind, who, variant):
        o = self.objects
        ex = {k: o[k] for k in ("input_tensors_list", "orig_factor_matrices", "force_function_list", "params_dict", "learning_rate_dict")}
        ex["layer_dims"] = o["layer_dims_domain" if kind == "domain" else "layer_dims"]
        if kind in ("inverse", "domain"):
            ex["sensor_list"] = o["sensor_list"]
        if kind == "inverse":
            ex["inverse_params_dict"] = o["inverse_params_dict"]
        mk = {}
        if variant == 1 and who:
            # the second model differs in settings the first one must not pick up
            mk = dict(activation="sigmoid", hard="lift")
            ex["learning_rate_dict"] = o["learning_rate_dict_2"]
            if kind == "dense":
                mk["attention"] = True
            if kind in ("dense", "hard"):
                mk["loss"] = "cd2d"
        if variant == 2 and who:
            # the second model is given less than the first
            mk = dict(hard="none")
        return tiny.model(kind, self.D, seed=7 + who, extra=ex, **mk)


def operate(S, m, kind, who, variant, op):
    """-> (model, observation)"""
    import tensorflow as tf
    if op == "build":
        m = S.build(kind, who, variant)
        return m, observe(m, kind)
    if op == "step" or op == "step5":
        kw = {"beta": tf.constant(5.0, S.D.dt)} if op == "step5" else {}
        r = m.train_step(bilinear_params_dict=S.coef, **kw)
        o = {k: tiny.num(v) for k, v in r.items() if k != "inverse_params"}
        if "inverse_params" in r:
            o["inverse_params"] = {k: tiny.num(v) for k, v in r["inverse_params"].items()}
        return m, (o, observe(m, kind))
    if op == "perturb":
        for v in tiny.net_weights(m):
            v.assign(v * 0.5 + 0.1)
        return m, observe(m, kind)
    return m, (m(S.D.x).numpy().tolist(), m(S.D.xs).numpy().tolist())


def observe(m, kind):
    o = [w.tolist() for w in tiny.weights_np(m)]
    if kind == "inverse":
        o.append({k: tiny.num(v) for k, v in m.inverse_params_dict.items()})
    return o


def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return bool(abs(a - b) <= 1e-10 * max(1.0, abs(a)))


_alone = {}


def alone(kind, who, variant, program, graph):
    key = (kind, who, variant, tuple(program), graph)
    if key not in _alone:
        from mc import pristine
        _alone[key] = pristine.call("checks.C22", "undisturbed", kind, who, variant, list(program), graph)
    return _alone[key]


def undisturbed(kind, who, variant, program, graph):
    """The model's observations in a process of its own."""
    import tensorflow as tf
    tf.config.run_functions_eagerly(not graph)
    S = Shared(tf.float64)
    m, out = None, []
    for op in program:
        m, o = operate(S, m, kind, who, variant, op)
        out.append(o)
    return out + [observe(m, kind)]


def harness(program, pairs, graph, variants=("different settings", "same settings", "no constraint")):
    def h(ctx):
        import tensorflow as tf
        a, b = ctx.choose("models", pairs, free=True)
        variant = {"different settings": 1, "same settings": 0, "no constraint": 2}[ctx.choose("second model", variants, free=True)]
        if variant == 2 and b != "hard":
            raise Skip()
        order, left = [], [len(program)] * 2
        while sum(left):
            w = ctx.choose(f"slot {len(order)}", [i for i in (0, 1) if left[i]], free=True)
            order.append(w)
            left[w] -= 1
        ctx.commit()
        kinds = (a, b)
        tf.config.run_functions_eagerly(not graph)
        try:
            want = [alone(kinds[w], w, variant, program, graph) for w in (0, 1)]
            S = Shared(tf.float64)
            ms, pos = [None, None], [0, 0]
            for n, w in enumerate(order):
                op = program[pos[w]]
                ms[w], o = operate(S, ms[w], kinds[w], w, variant, op)
                ctx.obs(f"{'AB'[w]} {op}", o)
                ctx.check(close(o, want[w][pos[w]]), lambda: f"{kinds} schedule {order}: {'AB'[w]}'s operation {pos[w]} ({op}) observed {o}, alone it gives {want[w][pos[w]]}")
                pos[w] += 1
                ctx.check(S.picture() == S.before, f"{kinds} schedule {order}: {'AB'[w]}'s operation {pos[w]} ({op}) changed the caller's objects")
            for w in (0, 1):
                last = observe(ms[w], kinds[w])
                ctx.check(close(last, want[w][-1]), f"{kinds} schedule {order}: final state of {'AB'[w]} was changed by the other model")
        finally:
            tf.config.run_functions_eagerly(False)
        return kinds, variant, tuple(order)
    return h


def h_objects(ctx):
    """Building, evaluating and training leaves every object of the caller as it was, whatever it holds - also when the model refuses it."""
    import tensorflow as tf
    kind = ctx.choose("model", tiny.KINDS, free=True)
    lr = ctx.choose("learning rate settings", [(s, st, st_none) for s in (True, False) for st in (True, False) for st_none in (False, True)])
    layers = ctx.choose("layers", [[2, 2, 1], [2, 2, 2], [2, 1], [2, 2], [2, 2, 2, 2, 1], [2, 3, 4, 2], [2, 2, 3], [3, 2, 1], (2, 2, 1), (2, 3, 2)])
    att = ctx.choose("attention", [False, True])
    act = ctx.choose("activation", ["tanh", "linear"])
    inv = ctx.choose("unknown constants", [{"eps": 1.5}, {"eps": 0.0}, {"eps": -2}, {"eps": np.float32(0.5)}, {"eps": 1e-9, "extra": 3.0}])
    data = ctx.choose("data", ["tensors", "unscaled", "numpy sensors", "single precision model"])
    ctx.commit()
    S = Shared(tf.float64)
    o = S.objects
    s, st, extra = lr
    o["learning_rate_dict"] = dict(initial_learning_rate=0.05, use_lr_scheduler=s, decay_steps=3, decay_rate=0.25, staircase=st)
    if extra:
        o["learning_rate_dict"].update(decay_rate=1.0, decay_steps=1, initial_learning_rate=1.0, note="x")
    o["layer_dims"] = o["layer_dims_domain"] = layers
    o["inverse_params_dict"] = inv
    if data == "unscaled":
        o["input_tensors_list"] = [t * 50.0 for t in o["input_tensors_list"]]
        o["force_function_list"] = o["force_function_list"] * 1e4
    elif data == "numpy sensors":
        o["sensor_list"] = [t.numpy() for t in o["sensor_list"]]
    S.before = S.picture()
    what = f"{kind} learning rate {lr} layers {layers} attention={att} {act} {inv} {data}"
    tf.config.run_functions_eagerly(True)
    ran = "-"
    try:
        try:
            ex = {k: o[k] for k in ("input_tensors_list", "orig_factor_matrices", "force_function_list", "params_dict", "learning_rate_dict", "layer_dims")}
            if kind in ("inverse", "domain"):
                ex["sensor_list"] = o["sensor_list"]
            if kind == "inverse":
                ex["inverse_params_dict"] = inv
            m = tiny.model(kind, S.D, extra=ex, attention=att, activation=act,
                           dtype=tf.float32 if data == "single precision model" else "of data")
            ran = "built"
            ctx.check(S.picture() == S.before, f"{what}: building the model changed the caller's objects: {diff(S)}")
            m(S.D.x)
            ran = "evaluated"
            m.train_step(bilinear_params_dict=S.coef)
            m.train_step(beta=tf.constant(2.0, S.D.dt), bilinear_params_dict=S.coef)
            ran = "trained"
        except Violated:
            raise
        except Exception as e:  # settings that are no valid model: what matters is that nothing of the caller's changed
            ran += f" {type(e).__name__}"
        ctx.obs("ran", ran)
        ctx.check(S.picture() == S.before, f"{what}: ({ran}) changed the caller's objects: {diff(S)}")
        if layers in ([2, 2, 1], [2, 2, 2]) and len(layers) == 3 and (layers[-1] == 2) == (kind == "domain") and data != "single precision model":
            ctx.check(ran == "trained", f"{what}: only {ran}")
    finally:
        tf.config.run_functions_eagerly(False)
    return kind, lr, tuple(layers), att, act, repr(inv), data


def diff(S):
    (a, c), (b, d) = S.picture(), S.before
    return [(k, b[k], a[k]) for k in b if a.get(k) != b[k]][:1] + [k for k in d if c.get(k) != d[k]]


K = tiny.KINDS
ALL = [(a, b) for a in K for b in K]
TEN = [(a, b) for i, a in enumerate(K) for b in K[i:]]
SAME = [(k, k) for k in K]
SIX = SAME + [("dense", "hard"), ("inverse", "domain")]


def harnesses(tier):
    from mc import pristine
    pristine.start()
    if tier == "quick":
        return [("eager", harness(["build", "step", "step"], TEN, False), None),
                ("eager evaluations", harness(["build", "evaluate", "step", "evaluate"], SAME[:3], False, ("different settings",)), None),
                ("graph", harness(["build", "step", "step"], SAME, True, ("different settings",)), None), ("objects of the caller", h_objects, 1)]
    return [("eager", harness(["build", "step", "evaluate", "step5", "perturb", "step"], ALL, False), None),
            ("graph", harness(["build", "step", "evaluate", "step"], SIX, True), None), ("objects of the caller", h_objects, 3)]

"""C29: tuning trials train exactly what was suggested; concurrent trials under every schedule within the preemption bound give the serial results."""
import inspect
import os
import sys
import threading
import types

import numpy as np

from mc import env
from mc.explorer import Skip
from checks import tiny

BOUNDS = {"quick": "every suggestion at {first, low/high end, middle} with at most 1 deviation x epochs 2 (0, 1, 5 as deviations), with 0/1/3 graphics devices; study runs of "
                   "0-3 trials x jobs x devices; two concurrent trials: all schedules with at most 1 preemption over every suggestion, file-system call, user function (evaluations "
                   "by point at call 1, 2, 10, 37, 144, 500) and training step (graph mode for the two serial orders, eager for the others)",
          "thorough": "2 deviations; all schedules with at most 2 preemptions"}
ASSUMPTIONS = ["the optional packages optuna and the user's problem module are stand-ins (optuna is not installed)",
               "kernel initialisers are replaced by a function of the shape, so that results do not depend on the order of random draws",
               "graphics devices are simulated: device selection is recorded"]
SHARDS = {"quick": 8, "thorough": 8}


# ------------------------------------------------------------------ user's problem module
def rhs(x, y):
    return np.cos(2.0 * x) * (1.0 + y) + 0.5


def exact_solution(x, y):
    return np.sin(1.3 * x + 0.4) * (y + 0.2)


def bd(c):
    def f(x, y):
        at(f"boundary {c}")
        return c + x * y
    return f


BFUN = {1000: bd(0.1), 1001: bd(0.4), 1002: bd(-0.3), 1003: bd(0.7)}
EPS = 1.25

point = threading.local()  # the scheduler of the current thread, if it is scheduled


SPARSE = (1, 2, 10, 37, 144, 500)


def at(what):
    s = getattr(point, "sched", None)
    if s is not None:
        # functions evaluated point by point are scheduling points at a few of their calls only
        s.calls[what] = s.calls.get(what, 0) + 1
        if what.split()[0] in ("rhs", "boundary") and s.calls[what] not in SPARSE:
            return
        s.yield_(what)


def stubs():
    if "sin_cos" in sys.modules and getattr(sys.modules["sin_cos"], "verif", False):
        return
    m = types.ModuleType("sin_cos")
    m.verif = True

    def user(name, f):
        def g(*a):
            at(name)
            return f(*a)
        g.__name__ = name
        setattr(m, name, g)
    user("rhs", rhs)
    user("exact_solution", exact_solution)
    user("get_boundary_function_dict", lambda: dict(BFUN))
    user("get_bound_cond_dict", lambda: {k: "dirichlet" for k in BFUN})
    user("get_bilinear_params_dict", lambda: {"eps": EPS})
    sys.modules["sin_cos"] = m
    o = types.ModuleType("optuna")
    o.create_study = lambda *a, **k: STUDY[0](*a, **k)
    sys.modules["optuna"] = o


STUDY = [None]
made = []  # (thread name, model, bound arguments)


def seams():
    """Spies on the model class, deterministic initialisers, yield points."""
    import tensorflow as tf
    from fastvpinns.model.model import DenseModel
    if getattr(DenseModel, "_verif", False):
        return
    DenseModel._verif = True
    init, step = DenseModel.__init__, DenseModel.train_step
    sig = inspect.signature(init)

    def __init__(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        init(self, *a, **k)
        made.append((threading.current_thread().name, self, dict(b.arguments)))

    DenseModel.__init__ = __init__

    class Step:
        """Descriptor around the compiled step: a scheduling point before every training step."""
        def __get__(self, obj, cls=None):
            f = step.__get__(obj, cls)
            if obj is None:
                return f

            def g(*a, **k):
                at("train_step")
                steps[id(obj)] = steps.get(id(obj), 0) + 1
                return f(*a, **k)
            return g
    DenseModel.train_step = Step()

    def glorot(self, shape, dtype=None, **kw):
        n = int(np.prod(shape))
        lim = np.sqrt(6.0 / (shape[0] + shape[1]))
        v = lim * (2 * np.modf((np.arange(n) + 1) * 0.6180339887498949 + 0.1 * shape[0])[0] - 1)
        return tf.constant(v.reshape(shape), dtype=dtype or tf.float32)
    tf.keras.initializers.GlorotUniform.__call__ = glorot
    for mod, name in ((os, "mkdir"), (os.path, "exists"), (os.path, "isdir"), (os, "remove"), (os, "rmdir"), (os, "rename")):
        real = getattr(mod, name)

        def spy(p, *a, _r=real, _n=name, **k):
            if not os.path.isabs(str(p)) or str(p).startswith(env.scratch.path):
                at(f"{_n}")
            return _r(p, *a, **k)
        setattr(mod, name, spy)


steps = {}


class Trial:
    """Answers suggestions; `answer(name, kind, options)` decides."""

    def __init__(self, number, answer):
        self.number, self.answer, self.params = number, answer, {}

    def _s(self, name, options):
        at(f"suggest {name}")
        v = self.answer(name, options)
        self.params[name] = v
        return v

    def suggest_int(self, name, low, high, step=1, log=False):
        return self._s(name, _ints(name, low, high))

    def suggest_categorical(self, name, choices):
        return self._s(name, list(choices))

    def suggest_float(self, name, low, high, step=None, log=False):
        return self._s(name, [high, low, float(np.sqrt(low * high)) if log else 0.5 * (low + high)])

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    def suggest_loguniform(self, name, low, high):
        return self.suggest_float(name, low, high, log=True)


def _ints(name, low, high):
    first = {"n_layers": 2}.get(name, low)
    second = {"n_cells_y": low + 1}.get(name, None)
    opts = [first] if second is None else [second, first]
    return [v for v in dict.fromkeys(opts + [low, low + 1, (low + high) // 2, high]) if low <= v <= high]


EXPECT = ["n_cells_x", "n_cells_y", "n_boundary_points", "fe_order", "fe_type", "quad_order", "quad_type", "n_layers", "initial_learning_rate", "decay_steps", "decay_rate"]


# ------------------------------------------------------------------ reference
_ref = {}


def reference(p, epochs):
    """The same training composed by hand from the library's public building blocks."""
    key = repr(sorted(p.items())) + repr(epochs)
    if key in _ref:
        return _ref[key]
    import tensorflow as tf
    from fastvpinns.Geometry.geometry_2d import Geometry_2D
    from fastvpinns.FE.fespace2d import Fespace2D
    from fastvpinns.data.datahandler2d import DataHandler2D
    from fastvpinns.model.model import DenseModel
    from fastvpinns.physics.poisson2d import pde_loss_poisson
    out = env.scratch.fresh("ref")
    g = Geometry_2D("quadrilateral", "internal", 100, 100, out)
    cells, bpts = g.generate_quad_mesh_internal([0, 1], [0, 1], p["n_cells_x"], p["n_cells_y"], p["n_boundary_points"])
    s = Fespace2D(mesh=g.mesh, cells=cells, boundary_points=bpts, cell_type="quadrilateral", fe_order=p["fe_order"], fe_type=p["fe_type"], quad_order=p["quad_order"],
                  quad_type=p["quad_type"], fe_transformation_type="bilinear", bound_function_dict=BFUN, bound_condition_dict={k: "dirichlet" for k in BFUN},
                  forcing_function=rhs, output_path=out, generate_mesh_plot=False)
    d = DataHandler2D(s, g, dtype=tf.float32)
    xd, ud = d.get_dirichlet_input()
    layers = [2] + [p[f"layer_{i}"] for i in range(p["n_layers"])] + [1]
    lr = dict(initial_learning_rate=p["initial_learning_rate"], use_lr_scheduler=True, decay_steps=p["decay_steps"], decay_rate=p["decay_rate"])
    m = DenseModel(layer_dims=layers, learning_rate_dict=lr, params_dict={"n_cells": p["n_cells_x"] * p["n_cells_y"]}, loss_function=pde_loss_poisson,
                   input_tensors_list=[d.x_pde_list, xd, ud], orig_factor_matrices=[d.shape_val_mat_list, d.grad_x_mat_list, d.grad_y_mat_list],
                   force_function_list=d.forcing_function_list, tensor_dtype=tf.float32, use_attention=False, activation="tanh", hessian=False)
    made.pop()
    data = [np.asarray(t) for t in (d.x_pde_list, xd, ud, d.shape_val_mat_list, d.grad_x_mat_list, d.grad_y_mat_list, d.forcing_function_list)]
    w0 = tiny.weights_np(m)
    tf.config.run_functions_eagerly(True)
    try:
        for _ in range(epochs):
            m.train_step(beta=tf.constant(10.0), bilinear_params_dict={"eps": tf.constant(EPS, tf.float32)})
    finally:
        tf.config.run_functions_eagerly(False)
    w1 = tiny.weights_np(m)
    t = np.stack(np.meshgrid(np.linspace(0, 1, 100), np.linspace(0, 1, 100)), -1).reshape(-1, 2)
    u = tiny.ref_forward(w1, t)[:, 0]
    e = exact_solution(t[:, 0], t[:, 1])
    _ref[key] = data, w0, w1, float(np.sqrt(((u - e) ** 2).sum() / (e**2).sum())), lr
    return _ref[key]


def judge(ctx, what, p, epochs, value, rec):
    data, w0, w1, err, lr = reference(p, epochs)
    missing = [k for k in EXPECT + [f"layer_{i}" for i in range(p.get("n_layers", 0))] if k not in p]
    ctx.check(not missing, f"{what}: {missing} are not suggested")
    _, m, a = rec
    ctx.obs("trained", w1)
    got = [a["input_tensors_list"][0], a["input_tensors_list"][1], a["input_tensors_list"][2], *a["orig_factor_matrices"], a["force_function_list"]]
    for nm, x, w in zip(("quadrature points", "boundary points", "boundary values", "test functions", "x gradients", "y gradients", "right-hand side"), got, data):
        ctx.close(np.asarray(x), w, f"{what}: {nm} of the training problem", 1e-5)
    w = tiny.weights_np(m)
    ctx.check([x.shape for x in w] == [x.shape for x in w1], f"{what}: layers {[x.shape for x in w]} instead of {[x.shape for x in w1]}")
    n = steps.get(id(m), 0)
    ctx.check(n == epochs, f"{what}: {n} training steps instead of {epochs}")
    for i, (x, y) in enumerate(zip(w, w1)):
        ctx.check(bool(np.mean(np.abs(x - y) > 0.05 * p["initial_learning_rate"] + 1e-6) <= 0.02), f"{what}: weight array {i} after training differs from the reference training")
    given = a["learning_rate_dict"]
    ctx.check(all(given[k] == lr[k] for k in lr) and given.get("staircase", True) is True, f"{what}: the network was given the learning settings {given}, suggested {lr}")
    ctx.check(np.ndim(value) == 0 and np.isfinite(value) and abs(float(value) - err) <= 1e-4 * err + 2.0 * p["initial_learning_rate"] * 0.02,
              f"{what}: returned {value!r}, the relative L2 error of the reference is {err!r}")
    # and the error of the very model that was trained
    t = np.stack(np.meshgrid(np.linspace(0, 1, 100), np.linspace(0, 1, 100)), -1).reshape(-1, 2)
    u = tiny.ref_forward(w, t)[:, 0]
    e = exact_solution(t[:, 0], t[:, 1])
    own = float(np.sqrt(((u - e) ** 2).sum() / (e**2).sum()))
    ctx.check(abs(float(value) - own) <= 1e-4 * own, f"{what}: returned {value!r}, the relative L2 error of the trained network is {own!r}")


class Devices:
    """n simulated graphics devices; selection is recorded."""

    def __init__(self, n):
        self.n, self.used, self.grown = n, [], []

    def __enter__(self):
        import contextlib
        import tensorflow as tf
        self.real = tf.config.list_physical_devices, tf.device, tf.config.experimental.set_memory_growth
        fake = [f"GPU {i}" for i in range(self.n)]
        tf.config.list_physical_devices = lambda t=None: list(fake) if t == "GPU" else self.real[0](t)

        def device(name):
            if "GPU" in str(name):
                self.used.append(name)
                if not fake:
                    raise RuntimeError("there is no GPU")
                return contextlib.nullcontext()
            return self.real[1](name)
        tf.device = device
        tf.config.experimental.set_memory_growth = lambda d, v: self.grown.append(d)
        return self

    def __exit__(self, *a):
        import tensorflow as tf
        tf.config.list_physical_devices, tf.device, tf.config.experimental.set_memory_growth = self.real


def prepare(eager):
    import tensorflow as tf
    stubs()
    seams()
    tf.config.run_functions_eagerly(eager)
    made.clear()
    steps.clear()
    os.chdir(env.scratch.fresh("tune"))


def finish():
    import shutil
    import tensorflow as tf
    tf.config.run_functions_eagerly(False)
    d = os.getcwd()
    os.chdir(env.scratch.path)
    shutil.rmtree(d, ignore_errors=True)


def h_single(ctx):
    """One trial; with and without graphics devices, through the tuner or directly."""
    ndev = ctx.choose("graphics devices", [0, 1, 3])
    via = ctx.choose("called", ["objective", "tuner"])
    num = ctx.choose("trial number", [0, 4])
    epochs = ctx.choose("epochs", [2, 0, 1, 5])
    answers = {}
    cand = {"n_cells_x": [2, 3, 10], "n_cells_y": [3, 2, 10], "n_boundary_points": [100, 101, 550, 1000], "fe_order": [2, 3, 8], "fe_type": ["legendre", "jacobi"],
            "quad_order": [3, 4, 15], "quad_type": ["gauss-legendre", "gauss-jacobi"], "n_layers": [2, 1, 5], "initial_learning_rate": [1e-2, 1e-5, 3e-4],
            "decay_steps": [1000, 10000, 2345], "decay_rate": [0.9, 0.99, 0.95], "layer_0": [10, 100], "layer_1": [11, 100], "layer_2": [12, 70], "layer_3": [13], "layer_4": [14]}
    for k, v in cand.items():
        answers[k] = ctx.choose(k, v)
    ctx.commit()
    prepare(False if ndev == 0 and via == "tuner" else True)
    try:
        from fastvpinns.hyperparameter_tuning.objective import objective
        from fastvpinns.hyperparameter_tuning.optuna_tuner import OptunaTuner
        seen = {}

        def answer(name, options):
            ctx.check(name not in seen, f"{name} is suggested twice")
            seen[name] = options
            return answers[name] if name in answers else options[0]
        t = Trial(num, answer)
        with Devices(ndev) as dev:
            if via == "tuner":
                value = OptunaTuner(n_trials=1, n_jobs=1, n_epochs=epochs).objective_wrapper(t)
            else:
                value = objective(t, epochs)
        what = f"{t.params} epochs {epochs} via {via} with {ndev} devices"
        ctx.check(len(made) == 1, f"{what}: {len(made)} models were built")
        judge(ctx, what, t.params, epochs, value, made[0])
        if via == "tuner" and ndev:
            ctx.check([str(u).rsplit(":", 1)[-1] for u in dev.used] == [str(num % ndev)], f"{what}: trial {num} used devices {dev.used}")
        if not ndev:
            ctx.check(dev.used == [], f"{what}: selected {dev.used} without a graphics device")
        return repr(sorted(t.params.items())), ndev, via, epochs
    finally:
        finish()


# ------------------------------------------------------------------ studies
def h_study(ctx):
    ndev = ctx.choose("graphics devices", [0, 2], free=True)
    jobs = ctx.choose("jobs", [1, 4, -1], free=True)
    n = ctx.choose("trials", [1, 0, 3], free=True)
    epochs = ctx.choose("epochs", [1, 3], free=True)
    ctx.commit()
    prepare(True)
    log = {}
    try:
        from fastvpinns.hyperparameter_tuning.optuna_tuner import OptunaTuner
        trials = []

        class Study:
            def __init__(self, study_name=None, direction="minimize", **k):
                log["name"], log["direction"] = study_name, direction

            def optimize(self, fn, n_trials=None, n_jobs=1, **k):
                log["n_trials"], log["n_jobs"] = n_trials, n_jobs
                for i in range(n_trials):
                    t = Trial(i, lambda name, options, i=i: ([3e-4, 1e-2, 1e-3][i] if name == "initial_learning_rate" else options[0]))
                    t.value = fn(t)
                    trials.append(t)

            @property
            def best_trial(self):
                if not trials:
                    b = Trial(0, None)
                    b.value = 0.0
                    return b
                return min(trials, key=lambda t: t.value)

            @property
            def best_params(self):
                return dict(self.best_trial.params)

        STUDY[0] = Study
        with Devices(ndev):
            best = OptunaTuner(n_trials=n, study_name="my study", n_jobs=jobs, n_epochs=epochs).run()
        what = f"study of {n} trials, {jobs} jobs, {ndev} devices, {epochs} epochs"
        ctx.obs("study", sorted(log.items(), key=repr))
        ctx.check(log["name"] == "my study" and log["direction"] == "minimize", f"{what}: study created as {log}")
        ctx.check(log["n_trials"] == n, f"{what}: {log['n_trials']} trials run")
        ctx.check(log["n_jobs"] == jobs if not ndev else log["n_jobs"] <= ndev, f"{what}: {log['n_jobs']} parallel jobs")
        ctx.check(len(made) == n, f"{what}: {len(made)} models built")
        for t, rec in zip(trials, made):
            judge(ctx, f"{what}: trial {t.number}", t.params, epochs, t.value, rec)
        want = min(trials, key=lambda t: t.value).params if trials else {}
        ctx.check(best == want, f"{what}: best parameters {best}, expected {want}")
        return ndev, jobs, n, epochs
    finally:
        finish()


# ------------------------------------------------------------------ concurrent trials
class Stuck(Exception):
    pass


class Scheduler:
    """Runs one thread at a time; control changes hands at the preset preemptions and when a thread ends."""

    def __init__(self, n, first, preemptions):
        self.n, self.first, self.pre = n, first, set(preemptions)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.where = ["start"] * n
        self.alive = [True] * n
        self.err, self.val = [None] * n, [None] * n
        self.trace = []

    def body(self, i, fn):
        point.sched = _Here(self, i)
        self.go[i].acquire()
        try:
            self.val[i] = fn()
        except BaseException as e:  # noqa
            self.err[i] = e
        point.sched = None
        self.alive[i] = False
        self.back.release()

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), name=f"trial {i}", daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        cur = self.first
        while any(self.alive):
            if not self.alive[cur] or (len(self.trace) in self.pre and self.alive[1 - cur]):
                cur = 1 - cur
            self.trace.append((cur, self.where[cur]))
            self.go[cur].release()
            if not self.back.acquire(timeout=300):
                raise Stuck(f"thread {cur} did not come back from {self.where[cur]}")
        for t in ts:
            t.join(30)


class _Here:
    def __init__(self, s, i):
        self.s, self.i, self.calls = s, i, {}

    def yield_(self, what):
        s, i = self.s, self.i
        s.where[i] = what
        s.back.release()
        s.go[i].acquire()


def answers_of(i):
    base = {"n_cells_x": [2, 3][i], "n_cells_y": [2, 2][i], "fe_order": [2, 3][i], "quad_order": [3, 4][i], "fe_type": ["legendre", "jacobi"][i], "n_layers": [1, 2][i],
            "layer_0": [10, 12][i], "layer_1": 11, "initial_learning_rate": [1e-2, 3e-3][i], "decay_steps": [1000, 2000][i], "decay_rate": 0.9 + 0.05 * i,
            "n_boundary_points": [100, 120][i], "quad_type": "gauss-legendre"}
    return lambda name, options: base.get(name, options[0])


_len = {}


def concurrent(same, first, pre, eager):
    from fastvpinns.hyperparameter_tuning.objective import objective
    trials = [Trial(i, answers_of(0 if same else i)) for i in (0, 1)]
    s = Scheduler(2, first, pre)
    s.run([lambda t=t: objective(t, 1) for t in trials])
    return trials, s


def length(same):
    """Number of scheduling points of the serial run."""
    if same not in _len:
        prepare(True)
        try:
            _len[same] = len(concurrent(same, 0, (), True)[1].trace)
        finally:
            finish()
    return _len[same]


def h_threads(bound):
    def h(ctx):
        stubs()
        same = ctx.choose("second trial", ["other suggestions", "same suggestions"], free=True) == "same suggestions"
        first = ctx.choose("first thread", [0, 1], free=True)
        pre, L = [], length(same)
        for i in range(bound):
            # control is taken from the running thread before its (position)-th resumption
            lo = pre[-1] + 1 if pre else 1
            k = ctx.choose(f"preemption {i} at", ["none"] + list(range(lo, L + 1)), free=True)
            if k == "none":
                break
            pre.append(k)
        ctx.commit()
        prepare(bool(pre))
        try:
            trials, s = concurrent(same, first, pre, True)
            what = f"schedule {compact(s.trace)}"
            ctx.obs("schedule", [k for k, _ in s.trace])
            for i in (0, 1):
                if s.err[i] is not None:
                    ctx.fail(f"{what}: trial {i} raised {type(s.err[i]).__name__}: {s.err[i]}", key=f"threads:{type(s.err[i]).__name__}")
            for i in (0, 1):
                mine = [r for r in made if r[0] == f"trial {i}"]
                ctx.check(len(mine) == 1, f"{what}: trial {i} built {len(mine)} models")
                judge(ctx, f"{what}: trial {i}", trials[i].params, 1, s.val[i], mine[0])
            return same, compact(s.trace)
        finally:
            finish()
    return h


def compact(trace):
    out = []
    for k, w in trace:
        if not out or out[-1][0] != k:
            out.append((k, w))
    return tuple(out)


def harnesses(tier):
    b = 1 if tier == "quick" else 2
    return [("single trial", h_single, b), ("studies", h_study, None), ("concurrent trials", h_threads(b), None)]

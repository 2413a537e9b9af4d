"""Small complete uses of every part of the library, with everything they deliver observed.

A job is built from settings.  `prepare` creates what the job works on (in a folder of its own), `run` performs
the operation and returns all results as plain data; `inputs` is a picture of what belongs to the caller.
"""
import hashlib
import os

import numpy as np

from mc import build, env
from checks import tiny


def file(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return hashlib.blake2b(f.read(), digest_size=12).hexdigest()


def plain(x):
    """Results as nested lists of numbers and text (exact)."""
    if isinstance(x, dict):
        return [[repr(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, bytes, int, bool)):
        return x
    a = np.asarray(x)
    return [list(a.shape), str(a.dtype), [float(v) for v in a.ravel()]]


def equal(a, b, tol=0.0):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a))
    return type(a) == type(b) and a == b


def difference(a, b, tol=0.0, path=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, tol, f"{path}/{i}")
            if d:
                return d
        return None
    return None if equal(a, b, tol) else f"at {path}: {str(a)[:120]} instead of {str(b)[:120]}"


class Job:
    settings = {}  # name -> menu, the first entry is the default
    same_object = True  # the operation can be repeated on the same subject
    tol = 0.0

    def __init__(self, **cfg):
        self.cfg = {k: v[0] for k, v in self.settings.items()}
        self.cfg.update(cfg)
        for k, v in self.cfg.items():
            setattr(self, k, v)

    def __repr__(self):
        d = {k: v for k, v in self.cfg.items() if v != self.settings[k][0]}
        return type(self).__name__ + (repr(d) if d else "")

    def prepare(self, d, call=None):
        """-> subject; `call(f)` wraps every function handed to the library."""
        raise NotImplementedError

    def go(self, s):
        """Perform the operation; what it returned, as objects."""
        raise NotImplementedError

    def run(self, s):
        s["raw"] = self.go(s)
        return plain(s["raw"])

    def again(self, s):
        """What the objects of an earlier operation say now."""
        return self.run(s)

    def inputs(self, s):
        return []

    def outputs(self, s):
        """Files the operation writes."""
        return []


def ident(f):
    return f


class ReadMesh(Job):
    def again(self, s):
        return plain(s["raw"])

    settings = {"mesh": [2, 0, 3, 5, 8], "level": [1, 0, 2], "sampling": ["uniform", "lhs"], "dim": [3, 2]}

    def prepare(self, d, call=ident):
        from checks.C11 import geo, grid_file, FILES
        s = {"d": d, "f": os.path.join(d, "m.mesh"), "o": os.path.join(d, "out")}
        os.makedirs(s["o"], exist_ok=True)
        grid_file(s["f"], *FILES[self.mesh], dim=self.dim)
        s["g"] = geo(s["o"])
        return s

    def go(self, s):
        cells, bd = s["g"].read_mesh(s["f"], self.level, self.sampling, 1)
        return ([cells, {int(k): bd[k] for k in sorted(bd)}, s["g"].get_test_points(), file(self.outputs(s)[0])])

    def inputs(self, s):
        return [file(s["f"])]

    def outputs(self, s):
        return [os.path.join(s["o"], "external.vtk")]


class Generate(Job):
    settings = {"x": [(0, 1), (-2.0, -1.5)], "y": [(0, 1), (3, 3.5)], "nx": [2, 3], "ny": [1, 2], "nb": [8, 12]}

    def prepare(self, d, call=ident):
        from checks.C11 import geo
        s = {"d": d, "o": os.path.join(d, "out")}
        os.makedirs(s["o"], exist_ok=True)
        s["g"] = geo(s["o"], "internal")
        s["args"] = [list(self.x), list(self.y)]
        return s

    def go(self, s):
        cells, bd = s["g"].generate_quad_mesh_internal(*s["args"], self.nx, self.ny, self.nb)
        return ([cells, {int(k): bd[k] for k in sorted(bd)}, s["g"].get_test_points(), file(self.outputs(s)[0])])

    def inputs(self, s):
        return plain(s["args"])

    def outputs(self, s):
        return [os.path.join(s["o"], "internal.vtk"), os.path.join(s["o"], "internal.msh")]


class WriteSolution(Job):
    settings = {"mesh": [2, 0, 3], "names": [("u", "v"), ("w",), ("p", "q", "r")], "values": [1, 2]}

    def prepare(self, d, call=ident):
        from checks.C11 import geo, grid_file, FILES
        s = {"d": d, "f": os.path.join(d, "m.mesh"), "o": os.path.join(d, "out"), "src": os.path.join(d, "src")}
        os.makedirs(s["o"], exist_ok=True)
        os.makedirs(s["src"], exist_ok=True)
        grid_file(s["f"], *FILES[self.mesh])
        s["g"] = geo(s["src"])
        s["g"].read_mesh(s["f"], 0, "uniform", 1)
        n = len(s["g"].get_test_points())
        s["sol"] = np.stack([np.sin(np.arange(n) * 1.7 + c + self.values) / 3 for c in range(len(self.names))], axis=1)
        return s

    def go(self, s):
        s["g"].write_vtk(s["sol"], s["o"], "sol.vtk", list(self.names))
        return ([file(os.path.join(s["o"], "sol.vtk"))])

    def inputs(self, s):
        return plain([file(s["f"]), file(os.path.join(s["src"], "external.vtk")), s["sol"]])

    def outputs(self, s):
        return [os.path.join(s["o"], "sol.vtk")]


SOURCES = [lambda x, y: np.cos(2 * x) * (1 + y) + 0.5, lambda x, y: x - 3 * y * y]
MESHES = [("trap", "kite"), ("unit",), ("rect", "para", "unit")]


class Space(Job):
    settings = {"order": [2, 3], "family": ["legendre", "jacobi"], "quad": [3, 4], "rule": ["gauss-legendre", "gauss-jacobi"],
                "transform": ["bilinear", "affine"], "source": [0, 1], "mesh": [0, 1, 2]}
    same_object = False

    def prepare(self, d, call=ident):
        cells = [build.CELLS[n] for n in MESHES[self.mesh]]
        return {"cells": np.array(cells), "bd": {5: np.array([[0.0, 0.1], [0.5, 0.25]])}, "f": call(SOURCES[self.source])}

    def make(self, s):
        return build.space(s["cells"], self.order, self.family, self.quad, self.rule, self.transform, forcing=s["f"], boundary=s["bd"])

    def go(self, s):
        s["fs"] = self.make(s)
        return self.collect(s)

    def again(self, s):
        return plain(self.collect(s))

    def collect(self, s):
        fs, out = s["fs"], []
        for c in range(len(s["cells"])):
            out.append([fs.get_shape_function_val(c), fs.get_shape_function_grad_x(c), fs.get_shape_function_grad_y(c), fs.get_shape_function_grad_x_ref(c),
                        fs.get_shape_function_grad_y_ref(c), fs.get_quadrature_actual_coordinates(c), fs.get_quadrature_weights(c), fs.get_forcing_function_values(c)])
        return out

    def inputs(self, s):
        return plain([s["cells"], s["bd"]])


class Source(Space):
    """Load vectors asked from an existing space; components of vector valued problems on request."""
    settings = dict(Space.settings, component=[None, 0, 1])
    same_object = True

    def prepare(self, d, call=ident):
        on = [False]
        real = SOURCES[self.source]
        if self.component is not None:
            scalar = real
            real = lambda x, y: [scalar(x, y), 2 - scalar(y, x)]
        bombed = call(real)
        s = super().prepare(d)
        s["f"] = lambda x, y: (bombed if on[0] else real)(x, y)
        s["fs"] = self.make(s)
        on[0] = True
        return s

    def go(self, s):
        fs = s["fs"]
        n = range(len(s["cells"]))
        f = fs.get_forcing_function_values if self.component is None else (lambda c: fs.get_forcing_function_values_vector(c, self.component))
        return [[f(c) for c in n], [fs.get_shape_function_val(c) for c in n], [fs.get_quadrature_weights(c) for c in n]]

    def again(self, s):
        return self.run(s)


class Boundary(Job):
    settings = {"tags": [(5, 9), (9, 5), (7,)], "points": [3, 2], "component": [None, 0, 1]}

    def fun(self, t):
        if self.component is not None:
            return lambda x, y: [100.0 * t + x, 200.0 * t - y]
        return lambda x, y: 100.0 * t + 3 * x - 5 * y

    def prepare(self, d, call=ident):
        bd = {t: np.array([[0.25 * t + 0.125 * i, 1 - 0.3 * i] for i in range(self.points)]) for t in self.tags}
        return {"fs": build.space([build.UNIT], boundary=bd, bfun={t: call(self.fun(t)) for t in self.tags}), "bd": bd}

    def go(self, s):
        if self.component is not None:
            return s["fs"].generate_dirichlet_boundary_data_vector(self.component)
        return s["fs"].generate_dirichlet_boundary_data()

    def inputs(self, s):
        return plain(s["bd"])


class Handler(Job):
    def again(self, s):
        return plain(s["raw"])

    settings = {"bits": [64, 32], "mesh": [0, 1, 2], "order": [2, 3], "quad": [3, 4], "source": [0, 1]}
    same_object = False

    def prepare(self, d, call=ident):
        cells = [build.CELLS[n] for n in MESHES[self.mesh]]
        on, real = [False], SOURCES[self.source]
        bombed = call(real)
        bd = {5: np.array([[0.0, 0.1], [0.5, 0.25]])}
        b = call(lambda x, y: x - 2 * y)
        fs = build.space(np.array(cells), self.order, "jacobi", self.quad, forcing=lambda x, y: (bombed if on[0] else real)(x, y), boundary=bd, bfun={5: b})
        on[0] = True
        return {"fs": fs, "p": call(lambda: {"eps": 1.3, "c": 2})}

    def go(self, s):
        import tensorflow as tf
        from fastvpinns.data.datahandler2d import DataHandler2D
        h = DataHandler2D(s["fs"], None, tf.float64 if self.bits == 64 else tf.float32)
        return ([h.x_pde_list, h.shape_val_mat_list, h.grad_x_mat_list, h.grad_y_mat_list, h.forcing_function_list, h.get_dirichlet_input(),
                      h.get_bilinear_params_dict_as_tensors(s["p"]), h.get_inverse_params(s["p"])])


class Sensors(Job):
    settings = {"kind": ["internal", "external"], "count": [4, 9], "solution": [0, 1], "rows": [4, 3]}

    def prepare(self, d, call=ident):
        import tensorflow as tf
        from checks.C09 import gen
        from fastvpinns.data.datahandler2d import DataHandler2D
        from checks.C17 import csv, TABLE
        from checks import C28
        C28.install()
        C28.mode[0] = "stub"
        g, cells, bd = gen(2, 1, (0, 1), (0, 2))
        fs = build.space(cells, 2, "legendre", 3, mesh=g.mesh, boundary=bd)
        s = {"h": DataHandler2D(fs, None, tf.float64), "u": call([lambda x, y: x - y * y, lambda x, y: np.sin(x + y)][self.solution]), "d": d}
        if self.kind == "external":
            s["csv"] = os.path.join(d, "s.csv")
            csv(s["csv"], TABLE[:self.rows], False)
        return s

    def go(self, s):
        if not s.get("free"):
            np.random.seed(7)
        here = os.getcwd()
        os.chdir(s["d"])
        try:
            return [s["h"].get_sensor_data(s["u"], self.count, self.kind, s.get("csv")), file("sensor_points.png") if self.kind == "internal" else None]
        finally:
            os.chdir(here)

    def inputs(self, s):
        return [file(s["csv"])] if "csv" in s else []


class Train(Job):
    """Three training steps of a fresh model."""
    settings = {"kind": ["dense", "hard", "inverse", "domain"], "graph": [False, True], "attention": [False, True], "bits": [64, 32], "layers": [(2, 3), (2,), (2, 3, 2)],
                "constraint": ["mult", "none"], "activation": ["tanh", "sigmoid"], "rate": ["constant", "decay"], "loss": [None, "cd2d"]}
    tol = 1e-10

    def prepare(self, d, call=ident):
        import tensorflow as tf
        dt = tf.float64 if self.bits == 64 else tf.float32
        D = tiny.data(dt, 1, 2, 3, 3, 3, salt=5)
        name = self.loss or tiny.DEFAULT_LOSS[self.kind]
        extra = {}
        if self.kind == "hard" or self.constraint == "none":
            extra["hard_constraint_function"] = None if self.constraint == "none" else call(tiny.hc_mult())
        kind = "hard" if self.constraint == "none" else self.kind
        last = 2 if kind == "domain" else 1
        lr = dict(initial_learning_rate=0.02, use_lr_scheduler=True, decay_steps=2, decay_rate=0.5, staircase=True) if self.rate == "decay" else None
        m = tiny.model(kind, D, loss=call(tiny.loss_fn(name)), attention=self.attention, extra=extra, layers=[*self.layers, last], seed=3, activation=self.activation, lr=lr)
        return {"m": m, "D": D, "p": tiny.params(name, dt)[1], "n": 0, "dt": dt}

    def state(self, s):
        m = s["m"]
        o = [w.tolist() for w in tiny.weights_np(m)] + [int(m.optimizer.iterations.numpy())]
        if self.kind == "inverse":
            o.append({k: tiny.num(v) for k, v in m.inverse_params_dict.items()})
        return plain(o)

    def step(self, s):
        import tensorflow as tf
        tf.config.run_functions_eagerly(not self.graph)
        try:
            r = s["m"].train_step(beta=tf.constant([10.0, 0.5, 3.0][s["n"]], s["dt"]), bilinear_params_dict=s["p"])
        finally:
            tf.config.run_functions_eagerly(False)
        s["n"] += 1
        return [[k, tiny.num(r[k])] for k in sorted(r) if k != "inverse_params"]

    def go(self, s):
        out = []
        while s["n"] < 3:
            out.append(self.step(s))
        return ([out[-1], self.state(s)])


class Errors(Job):
    settings = {"n": [5, 40], "scale": [1.0, 1e-3], "call": [0, 1]}

    def prepare(self, d, call=ident):
        a = np.cos(np.arange(self.n) * 1.3) * self.scale
        return {"a": a, "b": a + 0.1 * np.sin(np.arange(self.n) + self.call)}

    def go(self, s):
        from fastvpinns.utils.compute_utils import compute_errors_combined, compute_l2_error, compute_linf_error
        return ([compute_errors_combined(s["a"], s["b"]), compute_l2_error(s["a"], s["b"]), compute_linf_error(s["a"], s["b"])])

    def inputs(self, s):
        return plain([s["a"], s["b"]])


class Plot(Job):
    """Every plotting routine of the utilities, pictures observed."""
    settings = {"routine": list(range(10)), "data": [1, 2]}

    def prepare(self, d, call=ident):
        from checks import C28
        C28.install()
        C28.mode[0] = "stub"
        R = C28.routines()[self.routine]
        return {"d": d, "R": R, "a": R.args(self.data)}

    def go(self, s):
        from checks import C28
        C28.saved.clear()
        s["R"].call(s["d"], "plot", s["a"])
        return ([[os.path.relpath(f, s["d"]), C28.digest([p[k] for k in sorted(p)])] for f, p in C28.saved] + [file(f) for f in self.outputs(s)])

    def inputs(self, s):
        from checks import C28
        return [C28.digest(s["a"])]

    def outputs(self, s):
        return [os.path.join(s["d"], f) for f in s["R"].files("plot")]


class MeshPlot(Job):
    def again(self, s):
        return plain(s["raw"])

    settings = {"mesh": [0, 1, 2], "order": [2, 3]}
    same_object = False

    def prepare(self, d, call=ident):
        from checks import C28
        C28.install()
        C28.mode[0] = "stub"
        return {"d": d, "cells": np.array([build.CELLS[n] for n in MESHES[self.mesh]])}

    def go(self, s):
        from checks import C28
        C28.saved.clear()
        build.space(s["cells"], self.order, output_path=s["d"], plot=True)
        return ([[os.path.relpath(f, s["d"]), C28.digest([p[k] for k in sorted(p)])] for f, p in C28.saved] + [file(f) for f in self.outputs(s)])

    def inputs(self, s):
        return plain(s["cells"])

    def outputs(self, s):
        return [os.path.join(s["d"], f) for f in ("mesh.png", "mesh.svg")]


class ResidualPlot(Job):
    settings = {"mesh": [0, 1, 2], "epoch": [10, 20]}

    def prepare(self, d, call=ident):
        from checks import C28
        from checks.C11 import geo
        C28.install()
        C28.mode[0] = "stub"
        return {"d": d, "g": geo(d), "cells": [np.array(build.CELLS[n]) for n in MESHES[self.mesh]], "epoch": self.epoch, "loss": [0.5 + k * self.epoch for k in range(len(MESHES[self.mesh]))]}

    def go(self, s):
        from checks import C28
        C28.saved.clear()
        s["g"].plot_adaptive_mesh(s["cells"], s["loss"], self.epoch)
        return ([[os.path.relpath(f, s["d"]), C28.digest([p[k] for k in sorted(p)])] for f, p in C28.saved] + [file(f) for f in self.outputs(s)])

    def inputs(self, s):
        return plain([s["cells"], s["loss"]])

    def outputs(self, s):
        return [os.path.join(s["d"], f) for f in [f"cell_residual_{s['epoch']}.png"] if os.path.exists(os.path.join(s["d"], f))]


ALL = [ReadMesh, Generate, WriteSolution, Space, Source, Boundary, Handler, Sensors, Train, Errors, Plot, MeshPlot, ResidualPlot]

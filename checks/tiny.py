"""Tiny network models of every kind with an independent float64 reference.

The reference evaluates network, derivatives and losses with explicit loops over cells, test
functions and points; its parameter gradients come from complex-step differentiation.
"""
import numpy as np

from mc import env

env.reseed_tf = False  # models are seeded explicitly right before they are built

KINDS = ("dense", "hard", "inverse", "domain")


class Data:
    pass


def data(dt, n_cells=2, n_test=3, n_quad=4, n_dir=5, n_sens=3, salt=0):
    """Deterministic, generic (no symmetric) data."""
    import tensorflow as tf
    D = Data()
    D.salt = salt

    def g(shape, k, lo=-1.0, hi=1.0):
        n = int(np.prod(shape))
        v = np.modf((np.arange(1, n + 1) * 0.6180339887498949 + k * 0.3819 + salt * 0.137) * (1 + 0.07 * k))[0]
        return tf.constant(np.round(lo + (hi - lo) * v, 6).reshape(shape), dtype=dt)

    D.dt = dt
    D.n_cells = n_cells
    D.x = g((n_cells * n_quad, 2), 1)
    D.val, D.gx, D.gy = (g((n_cells, n_test, n_quad), k) for k in (2, 3, 4))
    D.f = g((n_test, n_cells), 5)
    D.xd, D.ud = g((n_dir, 2), 6), g((n_dir, 1), 7)
    D.xs, D.us = g((n_sens, 2), 8), g((n_sens, 1), 9)
    return D


def tensors(D):
    return {"x": D.x, "val": D.val, "gx": D.gx, "gy": D.gy, "f": D.f, "xd": D.xd, "ud": D.ud, "xs": D.xs, "us": D.us}


LR = dict(initial_learning_rate=0.05, use_lr_scheduler=False, decay_steps=2, decay_rate=0.5, staircase=False)


# ---- constraint functions of hard models: (tensorflow version, (numpy version u(x,N), dudx, dudN))
def hc_mult():
    import tensorflow as tf

    def f(inputs, out):
        x, y = inputs[:, 0:1], inputs[:, 1:2]
        return tf.tanh(2.0 * x) * tf.tanh(3.0 * (1.0 - y)) * out
    return f


def np_mult(x, n):
    return np.tanh(2 * x[:, 0:1]) * np.tanh(3 * (1 - x[:, 1:2])) * n


def hc_lift():
    def f(inputs, out):
        x, y = inputs[:, 0:1], inputs[:, 1:2]
        return x * y * out + (1.0 + x - 2.0 * y)
    return f


def np_lift(x, n):
    return x[:, 0:1] * x[:, 1:2] * n + (1 + x[:, 0:1] - 2 * x[:, 1:2])


def hc_dep():
    import tensorflow as tf

    def f(inputs, out):
        x = inputs[:, 0:1]
        return tf.sin(out + x) * x + out
    return f


def np_dep(x, n):
    return np.sin(n + x[:, 0:1]) * x[:, 0:1] + n


def hc_dirlift():
    """Additive only: the network output is untouched."""
    def f(inputs, out):
        return out + inputs[:, 1:2]
    return f


def np_dirlift(x, n):
    return n + x[:, 1:2]


HARD = {"none": (lambda: None, lambda x, n: n), "mult": (hc_mult, np_mult), "lift": (hc_lift, np_lift),
        "dep": (hc_dep, np_dep), "add": (hc_dirlift, np_dirlift)}


def loss_fn(name):
    from fastvpinns.physics import poisson2d, helmholtz2d, cd2d, poisson2d_inverse, cd2d_inverse, cd2d_inverse_domain
    return {"poisson": poisson2d.pde_loss_poisson, "helmholtz": helmholtz2d.pde_loss_helmholtz, "cd2d": cd2d.pde_loss_cd2d,
            "poisson_inv": poisson2d_inverse.pde_loss_poisson_inverse, "cd2d_inv": cd2d_inverse.pde_loss_cd2d,
            "cd2d_dom": cd2d_inverse_domain.pde_loss_cd2d_inverse_domain}[name]


DEFAULT_LOSS = {"dense": "poisson", "hard": "poisson", "inverse": "poisson_inv", "domain": "cd2d_dom"}


def set_seed(s):
    import tensorflow as tf
    tf.keras.utils.set_random_seed(1000 + s)


def model(kind, D, dtype="of data", layers=None, lr=None, loss=None, attention=False, activation="tanh", hard="mult",
          inverse=None, seed=0, extra=None, bias=True):
    set_seed(seed)
    if layers is None:
        layers = [2, 3, 2] if kind == "domain" else [2, 3, 1]
    # params_dict documents the run; only the number of cells is an input of the model, the other entries must be ignored
    decoy = 77.0
    other = {k: decoy for k in ("eps", "b_x", "b_y", "c", "k", "beta", "learning_rate", "n_epochs", "n_test", "n_quad")}
    kw = dict(layer_dims=layers, learning_rate_dict=dict(lr or LR),
              params_dict={"n_cells": D.n_cells, "bilinear_params": dict(other), "bilinear_params_dict": dict(other), "inverse_params": {"eps": 77.0}, **other},
              loss_function=loss_fn(loss or DEFAULT_LOSS[kind]) if not callable(loss) else loss,
              input_tensors_list=[D.x, D.xd, D.ud], orig_factor_matrices=[D.val, D.gx, D.gy],
              force_function_list=D.f, tensor_dtype=D.dt if isinstance(dtype, str) and dtype == "of data" else dtype, use_attention=attention,
              activation=activation)
    if kind == "hard":
        kw["hard_constraint_function"] = HARD[hard][0]()
    if kind in ("inverse", "domain"):
        kw["sensor_list"] = [D.xs, D.us]
    if kind == "inverse":
        kw["inverse_params_dict"] = {"eps": 1.5} if inverse is None else inverse
    kw.update(extra or {})
    m = cls(kind)(**kw)
    if bias:
        # generic biases: zero biases would hide errors
        ws = net_weights(m)
        for k, v in enumerate(ws):
            if len(v.shape) == 1:
                v.assign(0.1 * np.cos(1.0 + np.arange(v.shape[0]) + k + seed).astype(v.dtype.as_numpy_dtype))
    return m


def cls(kind):
    from fastvpinns.model import model as a, model_hard as b, model_inverse as c, model_inverse_domain as d
    return {"dense": a.DenseModel, "hard": b.DenseModel_Hard, "inverse": c.DenseModel_Inverse,
            "domain": d.DenseModel_Inverse_Domain}[kind]


def net_weights(m):
    """kernel, bias, kernel, bias ... in layer order, judged from the public layer objects."""
    out = []
    for layer in m.layers:
        if hasattr(layer, "kernel"):
            out += [layer.kernel, layer.bias]
    return out


# ---------------------------------------------------------------- reference
def neg(z):
    """-|z| along the real axis (also for complex arguments)."""
    return np.where(z.real > 0, -z, z)


def sgm(z):
    e = np.exp(neg(z))
    return np.where(z.real > 0, 1 / (1 + e), e / (1 + e))


ACT = {
    "tanh": (np.tanh, lambda z: 1 - np.tanh(z) ** 2),
    "sin": (np.sin, np.cos),
    "sigmoid": (lambda z: sgm(z), lambda z: sgm(z) * sgm(-z)),
    "linear": (lambda z: z, lambda z: np.ones_like(z)),
    "softplus": (lambda z: np.where(z.real > 0, z, 0) + np.log(1 + np.exp(neg(z))), lambda z: sgm(z)),
    "relu": (lambda z: np.where(z.real > 0, z, 0), lambda z: np.where(z.real > 0, 1.0, 0.0)),
    "elu": (lambda z: np.where(z.real > 0, z, np.exp(z) - 1), lambda z: np.where(z.real > 0, 1.0, np.exp(z))),
}


def ref_forward(ws, x, act="tanh", jac=False):
    """Plain multilayer perceptron; returns output and (optionally) d out/dx, d out/dy (rows x outputs)."""
    h = np.asarray(x, dtype=np.result_type(np.float64, *[w.dtype for w in ws]))
    if jac:
        n = h.shape[0]
        d = np.zeros((2, n, 2), dtype=h.dtype)
        d[0, :, 0] = 1
        d[1, :, 1] = 1
    L = len(ws) // 2
    f, fp = ACT[act]
    for k in range(L):
        W, b = ws[2 * k], ws[2 * k + 1]
        z = h @ W + b
        if jac:
            d = np.stack([d[0] @ W, d[1] @ W])
        if k < L - 1:
            if jac:
                d = d * fp(z)
            h = f(z)
        else:
            h = z
    return (h, d[0], d[1]) if jac else h


def ref_attention(x):
    s = x @ x.T
    p = np.exp(s - s.max(axis=1, keepdims=True))
    return (p / p.sum(axis=1, keepdims=True)) @ x


def attention_jacobian(x):
    """J[r, j, p, k] = d attention(x)[r, j] / d x[p, k]."""
    n = len(x)
    S = x @ x.T
    P = np.exp(S - S.max(axis=1, keepdims=True))
    P = P / P.sum(axis=1, keepdims=True)
    J = np.zeros((n, 2, n, 2))
    for p in range(n):
        for k in range(2):
            dx = np.zeros_like(x)
            dx[p, k] = 1
            dS = dx @ x.T + x @ dx.T
            dP = P * (dS - (P * dS).sum(axis=1, keepdims=True))
            J[:, :, p, k] = dP @ x + P @ dx
    return J


class Ref:
    """Float64 (complex for derivatives) reference of one model."""

    def __init__(self, kind, D, loss=None, act="tanh", hard="mult", attention=False):
        self.kind, self.act, self.hard, self.attention = kind, act, hard, attention
        self.loss = loss or DEFAULT_LOSS[kind]
        for k, v in tensors(D).items():
            setattr(self, k, np.asarray(v.numpy(), dtype=np.float64))
        if attention:
            self.J = attention_jacobian(self.x)

    def net(self, ws, x, jac=False):
        return ref_forward(ws, ref_attention(x) if self.attention else x, self.act, jac)

    def output(self, ws, x):
        n = self.net(ws, x)
        return HARD[self.hard][1](x, n) if self.kind == "hard" else n

    def with_grads(self, ws):
        """u, du/dx, du/dy (and coefficient) at the quadrature points; with attention the derivative of the sum."""
        n, nx, ny = self.net(ws, self.x, jac=True)
        if self.kind == "hard":
            hx, hy, hn = hard_parts(self.hard, self.x, n)
        else:
            hx = hy = 0.0
            hn = np.ones_like(n)
        gx, gy = hn * nx, hn * ny
        if self.attention:
            o = range(n.shape[1])
            gx, gy = (np.stack([np.einsum("r,rp->p", gx[:, m], self.J[:, 0, :, k]) + np.einsum("r,rp->p", gy[:, m], self.J[:, 1, :, k])
                                for m in o], axis=1) for k in (0, 1))
        ux, uy = hx + gx, hy + gy
        if self.kind == "hard":
            return HARD[self.hard][1](self.x, n), ux, uy, None
        if self.kind == "domain":
            return n[:, 0:1], ux[:, 0:1], uy[:, 0:1], n[:, 1:2]
        return n, ux, uy, None

    def losses(self, ws, params, inv, beta):
        """params: pde coefficients, inv: unknown constants. -> dict of losses (complex allowed)."""
        u, ux, uy, co = self.with_grads(ws)
        C, T, Q = self.val.shape
        pde = 0.0
        for c in range(C):
            s = 0.0
            for t in range(T):
                dif = con = rea = cdif = 0.0
                for q in range(Q):
                    r = c * Q + q
                    a = self.gx[c, t, q] * ux[r, 0] + self.gy[c, t, q] * uy[r, 0]
                    dif = dif + a
                    if co is not None:
                        cdif = cdif + a * co[r, 0]
                    con = con + self.val[c, t, q] * (params.get("b_x", 0) * ux[r, 0] + params.get("b_y", 0) * uy[r, 0])
                    rea = rea + self.val[c, t, q] * u[r, 0]
                L = self.loss
                if L == "poisson":
                    R = params["eps"] * dif
                elif L == "helmholtz":
                    R = -params["eps"] * dif + params["k"] ** 2 * rea
                elif L == "cd2d":
                    R = params["eps"] * dif + con + params["c"] * rea
                elif L == "poisson_inv":
                    R = inv["eps"] * dif
                elif L == "cd2d_inv":
                    R = inv["eps"] * dif + con + params["c"] * rea
                elif L == "cd2d_dom":
                    R = cdif + con + params["c"] * rea
                R = R - self.f[t, c]
                s = s + R * R
            pde = pde + s / T
        out = {"loss_pde": pde}
        if self.kind == "hard":
            out["loss_dirichlet"] = 0.0
            out["loss"] = pde
            return out
        pd = self.output(ws, self.xd)[:, 0:1]
        b = ((pd - self.ud) ** 2).sum() / len(self.ud)
        out["loss_dirichlet"] = b
        out["loss"] = pde + beta * b
        if self.kind in ("inverse", "domain"):
            ps = self.output(ws, self.xs)[:, 0:1]
            s = ((ps - self.us) ** 2).sum() / len(self.us)
            out["sensor_loss"] = s
            out["loss"] = out["loss"] + 10 * s
        return out

    def gradient(self, ws, params, inv, beta):
        """d total/d weights (list) and d total/d unknown constants (dict) by complex steps."""
        h = 1e-30
        gs = []
        for k, w in enumerate(ws):
            g = np.zeros(w.shape)
            for i in np.ndindex(*w.shape):
                wc = [a.astype(complex) for a in ws]
                wc[k][i] += 1j * h
                g[i] = np.imag(self.losses(wc, params, inv, beta)["loss"]) / h
            gs.append(g)
        gi = {}
        for key, v in inv.items():
            ic = {a: complex(b) for a, b in inv.items()}
            ic[key] += 1j * h
            gi[key] = float(np.imag(self.losses([a.astype(complex) for a in ws], params, ic, beta)["loss"]) / h)
        return gs, gi


def hard_parts(name, x, n):
    """Partial derivatives of the constraint with respect to x, y (output fixed) and the output."""
    X, Y = x[:, 0:1], x[:, 1:2]
    one, zero = np.ones_like(n), np.zeros_like(n)
    if name == "none":
        return zero, zero, one
    if name == "mult":
        a, b = np.tanh(2 * X), np.tanh(3 * (1 - Y))
        return 2 * (1 - a**2) * b * n, -3 * (1 - b**2) * a * n, a * b * one
    if name == "lift":
        return Y * n + 1, X * n - 2, X * Y * one
    if name == "dep":
        return np.cos(n + X) * X + np.sin(n + X), zero, np.cos(n + X) * X + 1
    if name == "add":
        return zero, one, one
    raise KeyError(name)


class Pair:
    """A model together with its reference; `reset` restores the state it was built in."""

    def __init__(self, kind, cfg, dt, size=(2, 3, 4, 5, 3), salt=0, change=None):
        import tensorflow as tf
        self.kind, self.cfg, self.dt = kind, dict(cfg), dt
        self.D = data(dt, *size, salt=salt)
        if change:
            change(self.D)
        mk = dict(cfg)
        act = mk.pop("act", "tanh")
        self.m = model(kind, self.D, activation=(tf.sin if act == "sin" else act), **mk)
        self.ref = Ref(kind, self.D, mk.get("loss"), act, mk.get("hard", "mult"), mk.get("attention", False))
        self.lossname = self.ref.loss
        self.lr = mk.get("lr") or LR
        self.tol = 1e-9 if dt == tf.float64 else 2e-4
        self.snap = None

    def ws(self):
        return weights_np(self.m)

    def inv(self):
        return {k: float(np.asarray(v.numpy())) for k, v in self.m.inverse_params_dict.items()} if self.kind == "inverse" else {}

    def snapshot(self):
        self.m.optimizer.build(self.m.trainable_variables)
        self.snap = [(v, v.numpy()) for v in list(self.m.variables) + list(self.m.optimizer.variables)]
        if self.kind == "inverse":
            self.snap += [(v, v.numpy()) for v in self.m.inverse_params_dict.values()]

    def reset(self):
        if self.snap is None:
            self.snapshot()
        for v, a in self.snap:
            v.assign(a)
        self.adam = Adam()

    def step(self, beta=None, scale=1.0, params_as="tensor"):
        """One real training step and the reference's prediction for it."""
        p, pt = params(self.lossname, self.dt, scale)
        kw = {} if beta is None else {"beta": beta}
        r = self.m.train_step(bilinear_params_dict=pt, **kw)
        return p, r


class Adam:
    """Adam as specified by Kingma & Ba in the form used by Keras (epsilon outside the root, bias corrected)."""

    def __init__(self, b1=0.9, b2=0.999, eps=1e-7):
        self.b1, self.b2, self.eps, self.t = b1, b2, eps, 0
        self.m, self.v, self.g = {}, {}, {}

    def slack(self, lr, key, noise):
        """Distance two correct implementations may end apart in one step: rounded decay rates (Keras keeps them in
        single precision) act on the largest gradient seen, `noise` is the rounding of the gradient itself."""
        a = lr * np.sqrt(1 - self.b2**self.t) / (1 - self.b1**self.t)
        return a * (5e-5 * self.g[key] + noise) / (np.sqrt(self.v[key]) + self.eps)

    def step(self, lr, values, grads):
        self.t += 1
        a = lr * np.sqrt(1 - self.b2**self.t) / (1 - self.b1**self.t)
        out = {}
        for k, w in values.items():
            g = grads[k]
            m = self.m.get(k, 0.0)
            v = self.v.get(k, 0.0)
            m = m + (g - m) * (1 - self.b1)
            v = v + (g * g - v) * (1 - self.b2)
            self.m[k], self.v[k] = m, v
            self.g[k] = np.maximum(self.g.get(k, 0.0), np.abs(g))
            out[k] = w - a * m / (np.sqrt(v) + self.eps)
        return out


# not representable in single precision, so that rounding on the way shows
PARAMS = {"eps": 1.3, "b_x": 0.7, "b_y": -0.55, "c": 2.1, "k": 1.6}


def need(loss):
    return {"poisson": ["eps"], "helmholtz": ["eps", "k"], "cd2d": ["eps", "b_x", "b_y", "c"], "poisson_inv": ["eps"],
            "cd2d_inv": ["b_x", "b_y", "c"], "cd2d_dom": ["b_x", "b_y", "c"]}[loss]


def params(loss, dt, scale=1.0):
    import tensorflow as tf
    p = {k: PARAMS[k] * scale for k in need(loss)}
    return p, {k: tf.constant(v, dtype=dt) for k, v in p.items()}


def schedule(lr, k):
    if not lr["use_lr_scheduler"]:
        return lr["initial_learning_rate"]
    e = k / lr["decay_steps"]
    if lr.get("staircase", True):
        e = np.floor(e)
    return lr["initial_learning_rate"] * lr["decay_rate"] ** e


def weights_np(m):
    return [np.asarray(v.numpy(), dtype=np.float64) for v in net_weights(m)]


def num(x):
    """Reported loss as a float whatever its (1,)- or ()-shape."""
    a = np.asarray(x.numpy() if hasattr(x, "numpy") else x, dtype=np.float64).reshape(-1)
    assert a.size == 1, f"a loss has {a.size} entries"
    return float(a[0])

"""C25: unknown coefficients start at the guess, are trained, and are reported with their current value."""
import numpy as np

from mc.explorer import Skip
from checks import tiny

BOUNDS = {"quick": "constant coefficients: {guess 1.5, 0, -0.7, 1/3, 1e-6, 40, 5e4, -2e5} x given as number/integer/numpy scalar/array/tensor/variable x 2 equations x precision x "
                   "{one unknown, one used and one unused, two used, guess dictionary shared by two models}, every history of 3 operations out of "
                   "{step, step with other penalty, coefficient changed from outside, evaluation}; graph-mode histories of 4; 12 and 24 constants, one constant per cell as a tensor; domain coefficients: every "
                   "history of 3 with a user loss observing what it is given, output widths 2 and 3, 5 architectures",
          "thorough": "histories of 5, graph-mode histories of 6"}
ASSUMPTIONS = ["loss functions given by the user observe the tensors handed to them (eager mode)"]
SHARDS = {"quick": 8, "thorough": 8}


def two_coefficients(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function,
                     bilinear_params, inverse_params_dict):
    """eps * diffusion + kap * reaction, both unknown."""
    import tensorflow as tf
    dif = tf.transpose(tf.linalg.matvec(test_grad_x_mat, pred_grad_x_nn) + tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
    rea = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_nn))
    r = inverse_params_dict["eps"] * dif + inverse_params_dict["kap"] * rea - forcing_function
    return tf.reduce_mean(tf.square(r), axis=0)


class Ref2(tiny.Ref):
    def losses(self, ws, params, inv, beta):
        u, ux, uy, _ = self.with_grads(ws)
        C, T, Q = self.val.shape
        pde = 0.0
        for c in range(C):
            for t in range(T):
                s = -self.f[t, c]
                for q in range(Q):
                    r = c * Q + q
                    s = s + inv["eps"] * (self.gx[c, t, q] * ux[r, 0] + self.gy[c, t, q] * uy[r, 0]) + inv["kap"] * self.val[c, t, q] * u[r, 0]
                pde = pde + s * s / T
        b = ((self.output(ws, self.xd)[:, 0:1] - self.ud) ** 2).sum() / len(self.ud)
        se = ((self.output(ws, self.xs)[:, 0:1] - self.us) ** 2).sum() / len(self.us)
        return {"loss": pde + beta * b + 10 * se, "loss_pde": pde, "loss_dirichlet": b, "sensor_loss": se}


def given(v, how, dt):
    import tensorflow as tf
    npt = dt.as_numpy_dtype
    return {"number": float(v), "integer": int(v), "numpy scalar": npt(v), "array": np.array(v, npt), "tensor": tf.constant(v, dt),
            "variable": tf.Variable(v, dtype=dt), "keyed tensor": tf.constant(v, dt)}[how]


def value(x):
    return float(np.asarray(x.numpy() if hasattr(x, "numpy") else x).reshape(-1)[0])


def reported(ctx, r, P, guess_keys, what):
    ctx.check("inverse_params" in r and set(r["inverse_params"]) == set(guess_keys), f"{what}: coefficients {guess_keys} are not reported")
    rep = {k: value(v) for k, v in r["inverse_params"].items()}
    cur = {k: value(v) for k, v in P.m.inverse_params_dict.items()}
    ctx.check(rep == cur, f"{what}: reported {rep}, current value {cur}")
    return cur


def one_step(ctx, P, k, beta, what, keys):
    """Reported value and update of every unknown coefficient, from the reference gradient."""
    import tensorflow as tf
    pre, inv = P.ws(), P.inv()
    p, r = P.step(None if beta is None else tf.constant(beta, P.dt))
    g, gi = P.ref.gradient(pre, p, inv, 10.0 if beta is None else beta)
    want = P.adam.step(P.lr["initial_learning_rate"], {**dict(enumerate(pre)), **inv}, {**dict(enumerate(g)), **gi})
    cur = reported(ctx, r, P, keys, what)
    ctx.obs("step", cur)
    for key in keys:
        tol = 5e-5 if P.dt == tf.float64 else 2e-2
        ulp = float(np.spacing(P.dt.as_numpy_dtype(abs(inv[key]))))
        ctx.check(abs(cur[key] - want[key]) <= tol * P.lr["initial_learning_rate"] * 3 + 2 * ulp,
                  f"{what}: {key} went from {inv[key]!r} to {cur[key]!r}, one update gives {want[key]!r}")
        if abs(gi[key]) > 1e-6 and ulp < 0.2 * P.lr["initial_learning_rate"]:
            ctx.check(cur[key] != inv[key], f"{what}: {key} did not move although its gradient is {gi[key]!r}")
    # losses use the coefficient of before the step
    w = P.ref.losses(pre, p, inv, 10.0 if beta is None else beta)
    for nm in ("loss_pde", "loss", "loss_dirichlet", "sensor_loss"):
        ctx.check(abs(tiny.num(r[nm]) - w[nm]) <= P.tol * max(1.0, abs(w["loss"])), f"{what}: {nm} {tiny.num(r[nm])!r}, with the coefficients of before the step {w[nm]!r}")


OPS = ["step", "step penalty 0", "set", "evaluate"]


def h_const(depth):
    def h(ctx):
        import tensorflow as tf
        seq = [ctx.choose(f"operation {i}", OPS, free=True) for i in range(depth)]
        if seq[-1] == "set":
            raise Skip()
        v = ctx.choose("guess", [1.5, 0.0, -0.7, 1 / 3, 1e-6, 40.0, 5e4, -2e5])
        how = ctx.choose("given as", ["number", "numpy scalar", "array", "tensor", "variable", "integer"])
        case = ctx.choose("unknowns", ["one", "one and one unused", "two"])
        loss = ctx.choose("equation", ["poisson_inv", "cd2d_inv"])
        dt = ctx.choose("precision", [tf.float64, tf.float32])
        twin = ctx.choose("guess dictionary", ["own", "shared by two models"])
        if how == "integer" and v != 40.0 and v != 1.5:
            raise Skip()
        ctx.commit()
        if how == "integer":
            v = float(int(v))
        keys = {"one": ["eps"], "one and one unused": ["spare", "eps"], "two": ["kap", "eps"]}[case]
        guess = {k: given(v if k == "eps" else 2.25 if how != "integer" else 2, how, dt) for k in keys}
        snap = {k: (id(x), value(x)) for k, x in guess.items()}
        tf.config.run_functions_eagerly(True)
        try:
            what = f"{case} {loss} {dt.name} guess {v!r} as {how}"
            cfg = {"loss": two_coefficients if case == "two" else loss, "inverse": guess}
            P = Pair2(cfg, dt) if case == "two" else tiny.Pair("inverse", cfg, dt, (1, 2, 3, 3, 2), salt=1)
            P.adam = tiny.Adam()
            other = None
            if twin != "own":
                other = tiny.model("inverse", P.D, loss=cfg["loss"], inverse=guess, seed=9)
            cur = P.inv()
            w0 = {k: float(dt.as_numpy_dtype(value(x))) for k, x in guess.items()}
            for k in keys:
                ctx.check(k in cur and cur[k] == w0[k], f"{what}: starts at {cur.get(k)!r}, initial guess {w0[k]!r}")
            tv = P.m.trainable_variables
            ctx.check(len(tv) == len(P.ws()) + len(keys), f"{what}: {len(tv)} trainable unknowns for {len(P.ws())} weights and {len(keys)} coefficients")
            ctx.check(all(sum(v is P.m.inverse_params_dict[q] for v in tv) == 1 for q in keys), f"{what}: a coefficient is not among the trainable unknowns of its model")
            ctx.check(not any(v is x for v in tv for x in guess.values()), f"{what}: the model trains a variable of the caller")
            k = 0
            for n, op in enumerate(seq):
                here = f"{what}: operation {n} ({op}) of {seq}"
                if op == "set":
                    for key in keys:
                        x = P.m.inverse_params_dict[key]
                        x.assign(x * 0 + np.asarray([0.3 + n, -7e4, 0.3 + n, 3e6][n % 4], x.dtype.as_numpy_dtype))
                    continue
                if op == "evaluate":
                    before = P.inv()
                    P.m(P.D.x)
                    ctx.check(P.inv() == before, f"{here}: evaluation changed the coefficients")
                    continue
                one_step(ctx, P, k, 0.0 if "0" in op else None, here, keys)
                k += 1
            ctx.check({q: (id(x), value(x)) for q, x in guess.items()} == snap, f"{what}: the caller's dictionary of guesses changed")
            if other is not None:
                oc = {q: value(x) for q, x in other.inverse_params_dict.items()}
                ctx.check(oc == w0, f"{what}: training one model changed the coefficients of another: {oc}")
                b = P.inv()
                other.train_step(bilinear_params_dict=tiny.params(P.lossname if case != "two" else "poisson_inv", dt)[1])
                ctx.check(P.inv() == b, f"{what}: a step of another model changed the coefficients")
        finally:
            tf.config.run_functions_eagerly(False)
        return case, loss, dt.name, v, how, twin, tuple(seq)
    return h


class Pair2(tiny.Pair):
    def __init__(self, cfg, dt):
        self.kind, self.cfg, self.dt = "inverse", dict(cfg), dt
        self.D = tiny.data(dt, 1, 2, 3, 3, 2, salt=1)
        self.m = tiny.model("inverse", self.D, **cfg)
        self.ref = Ref2("inverse", self.D, "poisson_inv")
        self.lossname, self.lr, self.snap = "poisson_inv", tiny.LR, None
        self.tol = 1e-9 if dt.name == "float64" else 2e-4


_pairs = {}


def h_graph(depth):
    confs = [("poisson_inv", {"eps": 1.5}, 64), ("cd2d_inv", {"eps": 0.25}, 64), ("poisson_inv", {"spare": 3.0, "eps": 0.5}, 64), ("two", {"kap": -1.0, "eps": 0.5}, 64),
             ("poisson_inv", {"eps": 2.0}, 32), ("cd2d_inv", {"eps": 1e-3, "another": 1.0}, 64)]

    def h(ctx):
        import tensorflow as tf
        c = ctx.choose("configuration", range(len(confs)), free=True)
        if not ctx.replay and c % ctx.nshards != ctx.shard:
            raise Skip()
        seq = [ctx.choose(f"operation {i}", OPS[:3], free=True) for i in range(depth)]
        if seq[-1] == "set":
            raise Skip()
        loss, guess, bits = confs[c]
        dt = tf.float64 if bits == 64 else tf.float32
        if c not in _pairs:
            g = {k: tf.constant(v, dt) for k, v in guess.items()}
            _pairs[c] = Pair2({"loss": two_coefficients, "inverse": g}, dt) if loss == "two" else tiny.Pair("inverse", {"loss": loss, "inverse": g}, dt, (1, 2, 3, 3, 2))
        P = _pairs[c]
        P.reset()
        k = 0
        for n, op in enumerate(seq):
            if op == "set":
                for key in guess:
                    P.m.inverse_params_dict[key].assign(0.3 + n)
                continue
            one_step(ctx, P, k, 0.0 if "0" in op else None, f"{confs[c]}: operation {n} ({op}) of {seq}", list(guess))
            k += 1
        return c, tuple(seq)
    return h


# ---- many unknown constants, unknown constants that are tensors
def field_loss(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function,
               bilinear_params, inverse_params_dict):
    """Diffusion coefficients by test function (many scalars) or by cell (one tensor)."""
    import tensorflow as tf
    dif = tf.transpose(tf.linalg.matvec(test_grad_x_mat, pred_grad_x_nn) + tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
    d = inverse_params_dict
    if "field" in d:
        r = tf.reshape(d["field"], [1, -1]) * dif - forcing_function
    else:
        r = tf.stack([d[k] for k in sorted(d)])[:, None] * dif - forcing_function
    return tf.reduce_mean(tf.square(r), axis=0)


def h_field(steps):
    def h(ctx):
        import tensorflow as tf
        case = ctx.choose("unknowns", ["12 constants", "24 constants", "one per cell", "column, one per cell", "one per cell and a spare tensor"], free=True)
        dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
        mode = ctx.choose("execution", ["eager", "graph"], free=True)
        ctx.commit()
        npt = dt.as_numpy_dtype
        C, T, Q = (3, 2, 3) if "cell" in case else (1, int(case.split()[0]), 3)
        D = tiny.data(dt, C, T, Q, 3, 2, salt=2)
        g = [0.3 + 0.1 * k for k in range(max(C, T))]
        if "constants" in case:
            # inserted in an order that is not the alphabetical one
            guess = {f"k{(5 * k) % T:02d}": g[(5 * k) % T] for k in range(T)}
        else:
            guess = {"field": np.array(g[:C], npt).reshape((C, 1) if "column" in case else (C,))}
            if "spare" in case:
                guess["spare"] = np.ones((2, 2), npt)
        keys = list(guess)
        ctx.check(len(set(keys)) == (T if "constants" in case else len(keys)), "machinery: keys are distinct")
        tf.config.run_functions_eagerly(mode == "eager")
        try:
            m = tiny.model("inverse", D, loss=field_loss, inverse=guess)
            ref = tiny.Ref("inverse", D, "poisson_inv")
            adam = tiny.Adam()
            cur = {k: np.asarray(m.inverse_params_dict[k], float) for k in m.inverse_params_dict}
            ctx.check(set(cur) == set(keys), f"{case}: unknowns {sorted(cur)}")
            for k in keys:
                ctx.check(np.array_equal(cur[k], np.asarray(guess[k], npt).astype(float)), f"{case}: {k} starts at {cur[k]}, initial guess {guess[k]}")
            tv = m.trainable_variables
            ctx.check(all(sum(v is m.inverse_params_dict[q] for v in tv) == 1 for q in keys) and len(tv) == len(keys) + len(tiny.net_weights(m)),
                      f"{case}: {len(tv)} trainable unknowns")
            for n in range(steps):
                what = f"{case} {dt.name} {mode}: step {n}"
                pre = {k: np.asarray(m.inverse_params_dict[k], float) for k in keys}
                ws = tiny.weights_np(m)
                _, ux, uy, _ = ref.with_grads(ws)
                dif = np.array([[sum(ref.gx[c, t, q] * ux[c * Q + q, 0] + ref.gy[c, t, q] * uy[c * Q + q, 0] for q in range(Q)) for c in range(C)] for t in range(T)])
                if "field" in pre:
                    R = pre["field"].reshape(1, -1) * dif - ref.f
                    grad = {"field": (2 * R * dif / T).sum(axis=0).reshape(pre["field"].shape)}
                else:
                    R = np.array([pre[k] for k in sorted(pre)])[:, None] * dif - ref.f
                    gg = (2 * R * dif / T).sum(axis=1)
                    grad = {k: gg[j] for j, k in enumerate(sorted(pre))}
                pde = (R**2).sum() / T
                r = m.train_step(beta=tf.constant(10.0, dt), bilinear_params_dict=tiny.params("poisson_inv", dt)[1])
                ctx.check(abs(tiny.num(r["loss_pde"]) - pde) <= (1e-9 if dt == tf.float64 else 2e-4) * max(1, abs(pde)), f"{what}: loss_pde {tiny.num(r['loss_pde'])!r}, expected {pde!r}")
                now = {k: np.asarray(m.inverse_params_dict[k], float) for k in keys}
                want = adam.step(tiny.LR["initial_learning_rate"], {k: pre[k] for k in grad}, grad)
                ctx.check(set(r["inverse_params"]) == set(keys), f"{what}: reported {sorted(r['inverse_params'])} of {keys}")
                ctx.obs("now", [now[k] for k in sorted(now)])
                for k in keys:
                    rep = np.asarray(r["inverse_params"][k], float)
                    ctx.check(np.array_equal(rep, now[k]), f"{what}: {k} reported as {rep.tolist()}, current value {now[k].tolist()}")
                    w = want.get(k, pre[k])
                    big = max(np.max(np.abs(v)) for v in grad.values())
                    ok = np.abs(now[k] - w) <= (5e-4 if dt == tf.float64 else 5e-2) * tiny.LR["initial_learning_rate"]
                    ok |= np.abs(np.asarray(grad.get(k, np.full(now[k].shape, big)))) < 1e-5 * big
                    ctx.check(bool(np.all(ok)), f"{what}: {k} went from {pre[k].tolist()} to {now[k].tolist()}, one update gives {np.asarray(w).tolist()}")
        finally:
            tf.config.run_functions_eagerly(False)
        return case, dt.name, mode
    return h


# ---- spatially varying coefficient
def h_domain(depth):
    def h(ctx):
        import tensorflow as tf
        seq = [ctx.choose(f"operation {i}", ["step", "step penalty 0", "perturb"], free=True) for i in range(depth)]
        if seq[-1] == "perturb":
            raise Skip()
        layers = ctx.choose("layers", [[2, 3, 2], [2, 2], [2, 3, 3], [2, 2, 2, 2], [2, 4, 1, 2]], free=True)
        act = ctx.choose("activation", ["tanh", "sigmoid"])
        att = ctx.choose("attention", [False, True])
        dt = ctx.choose("precision", [tf.float64, tf.float32])
        size = ctx.choose("sizes", [(2, 2, 3, 3, 2), (1, 1, 1, 1, 1), (3, 1, 2, 2, 4)])
        ctx.commit()
        seen = []

        def loss(test_shape_val_mat, test_grad_x_mat, test_grad_y_mat, pred_nn, pred_grad_x_nn, pred_grad_y_nn, forcing_function, bilinear_params, inverse_params_list):
            seen.append([np.asarray(a) for a in (pred_nn, pred_grad_x_nn, pred_grad_y_nn, *inverse_params_list)])
            from fastvpinns.physics.cd2d_inverse_domain import pde_loss_cd2d_inverse_domain as f
            return f(test_shape_val_mat=test_shape_val_mat, test_grad_x_mat=test_grad_x_mat, test_grad_y_mat=test_grad_y_mat, pred_nn=pred_nn,
                     pred_grad_x_nn=pred_grad_x_nn, pred_grad_y_nn=pred_grad_y_nn, forcing_function=forcing_function, bilinear_params=bilinear_params,
                     inverse_params_list=inverse_params_list)

        tf.config.run_functions_eagerly(True)
        try:
            D = tiny.data(dt, *size, salt=4)
            m = tiny.model("domain", D, layers=layers, loss=loss, activation=act, attention=att)
            ref = tiny.Ref("domain", D, "cd2d_dom", act, attention=att)
            tol = 1e-10 if dt == tf.float64 else 1e-4
            for n, op in enumerate(seq):
                what = f"{layers} {act} attention={att} {dt.name} {size}: operation {n} ({op}) of {seq}"
                if op == "perturb":
                    for i, v in enumerate(tiny.net_weights(m)):
                        a = v.numpy()
                        v.assign(np.cos(1.3 * np.arange(a.size).reshape(a.shape) + i + n).astype(a.dtype))
                    continue
                ws = tiny.weights_np(m)
                p, pt = tiny.params("cd2d_dom", dt)
                beta = 0.0 if "0" in op else 10.0
                r = m.train_step(beta=tf.constant(beta, dt), bilinear_params_dict=pt)
                u, ux, uy, co = ref.with_grads(ws)
                ctx.check(len(seen) > 0 and len(seen[-1]) == 4, f"{what}: the loss was not given exactly one coefficient field")
                C, Q = D.n_cells, ref.val.shape[-1]
                ctx.obs("coefficient", co)
                for nm, got, want in zip(("solution", "x derivative", "y derivative", "coefficient"), seen[-1], (u, ux, uy, co)):
                    ctx.close(got.reshape(C, Q), want.reshape(C, Q), f"{what}: {nm} handed to the loss", tol)
                w = ref.losses(ws, p, {}, beta)
                for nm in ("loss_dirichlet", "sensor_loss", "loss_pde", "loss"):
                    ctx.check(abs(tiny.num(r[nm]) - w[nm]) <= max(tol, 1e-9) * max(1.0, abs(w["loss"])), f"{what}: {nm} {tiny.num(r[nm])!r}, expected {w[nm]!r}")
        finally:
            tf.config.run_functions_eagerly(False)
        return repr(layers), act, att, dt.name, size, tuple(seq)
    return h


def harnesses(tier):
    if tier == "quick":
        return [("constant coefficients", h_const(2), 2), ("constant coefficients, histories", h_const(3), 0), ("graph histories", h_graph(4), None),
                ("domain coefficient", h_domain(2), 2), ("many and tensor unknowns", h_field(3), None)]
    return [("constant coefficients", h_const(3), 3), ("constant coefficients, histories", h_const(5), 1), ("graph histories", h_graph(6), None),
            ("domain coefficient", h_domain(3), None), ("many and tensor unknowns", h_field(30), None)]

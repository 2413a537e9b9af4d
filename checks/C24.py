"""C24: network output = specified layer sequence evaluated with its weights in the requested precision."""
import numpy as np

from mc.explorer import Skip
from checks import tiny

BOUNDS = {"quick": "4 models x every list of 0..3 hidden layers of widths {1,2,4} x 1/2 outputs (deviation bound 1 over activation "
                   "tanh/sigmoid/softplus/relu/elu/linear/sin, attention, precision); 14 points x all 8 consecutive splits of a batch of 4, all orders of 3 "
                   "points, points as tensor/array/list/other precision; 13 larger networks (up to 25 layers, 512 wide) and batches up to 60001 points",
          "thorough": "full product (4 models x 40 hidden lists x 7 activations x attention x precision), 4 hidden layers, widths {1,2,3,5}"}
ASSUMPTIONS = ["the layers are found as the Dense layers among model.layers, in order"]
SHARDS = {"quick": 8, "thorough": 8}
PTS = np.array([[1 / 3, -2 / 7], [0.1, 0.9], [-0.6, 0.2], [0.0, 0.0], [1.0, 1.0], [123.456, -0.001], [-1e-3, 40.0], [0.7, 0.7], [0.5, -0.5], [2.0, 0.3], [-0.3, -0.8]])


def hidden_lists(depth, widths):
    out, level = [[]], [[]]
    for _ in range(depth):
        level = [a + [w] for a in level for w in widths]
        out += level
    return out


def splits(n):
    for mask in range(2 ** (n - 1)):
        cut = [0] + [i + 1 for i in range(n - 1) if mask >> i & 1] + [n]
        yield list(zip(cut[:-1], cut[1:]))


def h_arch(depth, widths, free):
    lists = hidden_lists(depth, widths)

    def h(ctx):
        import itertools
        import tensorflow as tf
        kind = ctx.choose("model", tiny.KINDS, free=True)
        hidden = ctx.choose("hidden layers", lists, free=True)
        outs = 2 if kind == "domain" else ctx.choose("outputs", [1, 2], free=False)
        act = ctx.choose("activation", ["tanh", "sigmoid", "softplus", "relu", "elu", "linear", "sin"], free=free)
        att = ctx.choose("attention", [False, True], free=free)
        dt = ctx.choose("precision", [tf.float64, tf.float32], free=free)
        ctx.commit()
        layers = [2] + hidden + [outs]
        given = list(layers)
        D = tiny.data(dt, 1, 1, 2, 2, 2)
        m = tiny.model(kind, D, layers=layers, activation=(tf.sin if act == "sin" else None if act == "linear" and len(hidden) % 2 else act),
                       attention=att, hard="none", seed=len(hidden))
        what = f"{kind} {layers} {act} attention={att} {dt.name}"
        ws = tiny.weights_np(m)
        ctx.check(layers == given, f"{what}: layer list of the caller changed")
        ctx.check([w.shape for w in ws] == [s for a, b in zip(layers[:-1], layers[1:]) for s in ((a, b), (b,))],
                  f"{what}: weights have shapes {[w.shape for w in ws]}")
        ctx.check(all(v.dtype == dt for v in tiny.net_weights(m)), f"{what}: weights have types {[v.dtype.name for v in tiny.net_weights(m)]}")
        ctx.check(all(np.any(w != 0) for w in ws[::2]), f"{what}: a layer starts with zero weights")
        d64 = dt == tf.float64
        tol = 1e-12 if d64 else 1e-5
        npt = np.float64 if d64 else np.float32
        ref = tiny.Ref(kind, D, act=act, hard="none", attention=False)

        def want(x):
            x = np.asarray(x, dtype=np.float64)
            return tiny.ref_forward(ws, tiny.ref_attention(x) if att else x, act)

        def run(x):
            y = m(x)
            ctx.check(y.dtype == dt, f"{what}: output type {y.dtype}")
            return np.asarray(y, dtype=np.float64)

        def scale_tol(w):
            return tol * max(1.0, float(np.max(np.abs(w)))) if w.size else tol

        X = PTS[:6] if att else PTS
        y = run(tf.constant(X, dt))
        ctx.obs("points", want(X))
        big = [0, 1, 2, 3, 4] if not d64 else range(len(X))  # attention logits of large points lose single precision
        if d64 or not att:
            ctx.close(y[list(big)] if not att else y, want(X)[list(big)] if not att else want(X), f"{what}: output", tol if d64 else 2e-4)
        small = PTS[:5]
        w = want(small)
        ctx.close(run(tf.constant(small, dt)), w, f"{what}: output at 5 points", tol)
        for nm, x in (("array", small.astype(npt)), ("column slice of a larger array", np.hstack([small, small]).astype(npt)[:, :2]),
                      ("variable", tf.Variable(small, dtype=dt))):
            ctx.close(run(x), w, f"{what}: points given as {nm}", tol)
        if d64:
            s32 = small.astype(np.float32)
            ctx.close(run(tf.constant(s32)), want(s32.astype(np.float64)), f"{what}: single precision points", tol)
        else:
            # double precision points are rounded to the requested precision
            ctx.close(run(tf.constant(small, tf.float64)), w, f"{what}: double precision points", tol)
        four = PTS[:4]
        w4 = want(four)
        if not att:
            for sp in splits(4):
                y = np.concatenate([run(tf.constant(four[a:b], dt)) for a, b in sp])
                ctx.close(y, w4, f"{what}: batches {sp}", tol)
        for p in itertools.permutations(range(3)):
            # also with attention the points have no order
            y = run(tf.constant(PTS[list(p)], dt))
            ctx.close(y, want(PTS[:3])[list(p)], f"{what}: points in order {p}", tol)
        y = run(tf.constant(np.vstack([four, four[1:2]]), dt))
        if not att:
            ctx.close(y, np.vstack([w4, w4[1:2]]), f"{what}: a repeated point", tol)
        ctx.close(run(tf.constant(small, dt)), w, f"{what}: evaluated again", tol)
        if not att:
            far = np.array([[1e5, -3.0], [2.5e6, 1e6], [-4e7, 0.1], [1e-9, -1e4], [0.0, 1e9]])
            far = np.asarray(tf.constant(far, dt), dtype=np.float64)
            yf, wf = run(tf.constant(far, dt)), want(far)
            # the rounding of a network is of the size of the absolute sums in its first layer; saturated activations hide it
            sc = np.abs(far).max(1, keepdims=True) if act in ("softplus", "relu", "elu", "linear") or not hidden else np.maximum(1, 1e-5 * np.abs(far).max(1, keepdims=True))
            if act != "sin":
                ctx.close(yf / sc, wf / sc, f"{what}: output at far points", max(tol, 1e-12) * 10)
        # new weights take effect at once
        for v in tiny.net_weights(m):
            v.assign(v * -0.5 + 0.25)
        ws = tiny.weights_np(m)
        ctx.close(run(tf.constant(small, dt)), want(small), f"{what}: after changing the weights", tol)
        f = tf.function(lambda x: m(x))
        if len(hidden) == 2 and not free or len(hidden) == 0:
            ctx.close(f(tf.constant(small, dt)).numpy(), want(small), f"{what}: inside a tf.function", tol)
        return kind, tuple(layers), act, att, dt.name
    return h


def h_large(ctx):
    """Wide / deep networks and large batches."""
    import tensorflow as tf
    kind = ctx.choose("model", tiny.KINDS, free=True)
    size = ctx.choose("hidden layers and points", [([50, 50, 50], 1000), ([128], 300), ([3] * 12, 65), ([300, 1], 129), ([30, 30, 30], 5003), ([20], 20001), ([1] * 6, 1),
                                                   ([10, 64, 10], 257), ([512, 512], 33), ([4], 0), ([5, 5, 5, 5], 1025), ([4], 60001), ([2] * 24, 9)], free=True)
    act = ctx.choose("activation", ["tanh", "softplus"])
    att = ctx.choose("attention", [False, True])
    dt = ctx.choose("precision", [tf.float64, tf.float32])
    hidden, n = size
    if att and not 0 < n <= 1100:
        raise Skip()
    ctx.commit()
    layers = [2] + hidden + [2 if kind == "domain" else 1]
    D = tiny.data(dt, 1, 1, 2, 2, 2)
    m = tiny.model(kind, D, layers=layers, activation=act, attention=att, hard="none", seed=len(hidden))
    ws = tiny.weights_np(m)
    what = f"{kind} {layers} {act} attention={att} {dt.name} {n} points"
    i = np.arange(n)
    x = np.stack([np.modf(i * 0.6180339887498949)[0] * 2 - 1, np.modf(i * 0.4142135623730951 + 0.3)[0] * 3 - 1], axis=1)
    x = np.asarray(tf.constant(x, dt), dtype=np.float64)
    want = tiny.ref_forward(ws, tiny.ref_attention(x) if att else x, act)
    t = 1e-11 if dt == tf.float64 else 3e-5
    y = m(tf.constant(x, dt))
    ctx.check(y.dtype == dt and tuple(y.shape) == (n, layers[-1]), f"{what}: output {y.dtype} {y.shape}")
    ctx.obs("points", want[:20])
    ctx.close(y.numpy(), want, f"{what}: output", t)
    ctx.check([w.shape for w in ws] == [s for a, b in zip(layers[:-1], layers[1:]) for s in ((a, b), (b,))], f"{what}: weights {[w.shape for w in ws]}")
    if n > 1 and not att:
        k = n // 3
        ctx.close(np.vstack([m(tf.constant(x[:k], dt)), m(tf.constant(x[k:], dt))]), want, f"{what}: in two batches", t)
    if n:
        f = tf.function(lambda z: m(z), input_signature=[tf.TensorSpec((None, 2), dt)])
        ctx.close(f(tf.constant(x, dt)).numpy(), want, f"{what}: with a traced graph of unknown batch size", t)
    return kind, repr(size), act, att, dt.name


def h_predict(ctx):
    """Keras' own batched evaluation."""
    import tensorflow as tf
    kind = ctx.choose("model", tiny.KINDS, free=True)
    dt = ctx.choose("precision", [tf.float64, tf.float32], free=True)
    ctx.commit()
    D = tiny.data(dt, 1, 1, 2, 2, 2)
    m = tiny.model(kind, D, hard="none")
    want = tiny.ref_forward(tiny.weights_np(m), PTS[:5])
    for bs in (1, 2, 3, 5, 32):
        y = m.predict(tf.constant(PTS[:5], dt), batch_size=bs, verbose=0)
        ctx.check(y.dtype == dt.as_numpy_dtype, f"predict gives {y.dtype} instead of {dt.name}")
        ctx.obs(bs, y)
        ctx.close(y, want, f"{kind} {dt.name}: predict with batch size {bs}", 1e-12 if dt == tf.float64 else 1e-5)
    return kind, dt.name


def h_invalid(ctx):
    kind = ctx.choose("model", tiny.KINDS, free=True)
    bad = ctx.choose("precision", ["float64", None, np.float64, 64, float], free=True)
    ctx.commit()
    import tensorflow as tf
    D = tiny.data(tf.float64, 1, 1, 2, 2, 2)
    ctx.raises(TypeError, lambda: tiny.model(kind, D, dtype=bad), f"{kind} with precision {bad!r}")
    return kind, repr(bad)


def harnesses(tier):
    if tier == "quick":
        return [("architectures", h_arch(3, [2, 1, 4], False), 1), ("large", h_large, 1), ("predict", h_predict, None), ("invalid precision", h_invalid, None)]
    return [("architectures", h_arch(3, [2, 1, 3], True), None), ("deep architectures", h_arch(4, [2, 1, 3, 5], False), 1), ("large", h_large, None), ("predict", h_predict, None),
            ("invalid precision", h_invalid, None)]

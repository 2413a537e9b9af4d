"""A process that has imported the library but never used it, and forks on request: baselines of fresh processes."""
import os
import pickle
import struct

_zygote = None


def imports():
    """Import everything a harness may need; run nothing."""
    import importlib
    import pkgutil
    import fastvpinns
    import gmsh, meshio, pandas, matplotlib.pyplot  # noqa: F401,E401
    from checks import C28
    for m in pkgutil.walk_packages(fastvpinns.__path__, "fastvpinns."):
        if "hyperparameter" not in m.name:
            importlib.import_module(m.name)
    C28.install()


def in_fork(fun):
    """fun() in a fork of this process -> ("ok", value) or ("raised" / "died", text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fun())
            except BaseException as e:
                import traceback
                out = ("raised", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    _, st = os.waitpid(pid, 0)
    return pickle.loads(raw) if raw else ("died", f"exit status {st}")


def start():
    """Must be called before the library (or TensorFlow) is used in this process."""
    global _zygote
    if _zygote:
        return
    imports()
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            inp, out = os.fdopen(r1, "rb"), os.fdopen(w2, "wb")
            while True:
                n = inp.read(8)
                if len(n) < 8:
                    break
                mod, name, args = pickle.loads(inp.read(struct.unpack("<q", n)[0]))

                def call():
                    import importlib
                    return getattr(importlib.import_module(mod), name)(*args)
                raw = pickle.dumps(in_fork(call))
                out.write(struct.pack("<q", len(raw)) + raw)
                out.flush()
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _zygote = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")


def call(mod, name, *args):
    """mod.name(*args) in a pristine process."""
    start()
    w, r = _zygote
    raw = pickle.dumps((mod, name, args))
    w.write(struct.pack("<q", len(raw)) + raw)
    w.flush()
    n = struct.unpack("<q", r.read(8))[0]
    out = pickle.loads(r.read(n))
    if out[0] != "ok":
        raise RuntimeError(f"{name}{args} in a fresh process: {out}")
    return out[1]


def world():
    """Process-wide settings an operation has no business changing."""
    import builtins
    import gc
    import hashlib
    import logging
    import random
    import sys
    import warnings
    import matplotlib
    import numpy as np
    import pandas as pd
    import tensorflow as tf
    from tensorflow.python.eager import context
    from tensorflow.python.framework import config
    dig = lambda x: hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()
    st = np.random.get_state()
    um = os.umask(0o22)
    os.umask(um)
    return {
        "working folder": os.getcwd(), "environment": dig(sorted(os.environ.items())), "NumPy error handling": repr(np.geterr()),
        "NumPy print options": repr(sorted(np.get_printoptions().items(), key=str)), "random generator": dig(random.getstate()),
        "NumPy random generator": dig([st[0], st[1].tobytes(), *st[2:]]), "matplotlib settings": dig([(k, repr(v)) for k, v in dict.items(matplotlib.rcParams)]),
        "TensorFlow default type": tf.keras.backend.floatx(), "eager functions": tf.config.functions_run_eagerly(), "module search path": dig(sys.path),
        "file mode mask": um, "garbage collection": gc.isenabled(), "recursion limit": sys.getrecursionlimit(),
        "log levels": [logging.getLogger().level, logging.getLogger("tensorflow").level, logging.getLogger("matplotlib").level, logging.root.manager.disable],
        "standard output": [id(sys.stdout), id(sys.stderr)], "precision policy": tf.keras.mixed_precision.global_policy().name,
        "warning filters": dig([repr(f) for f in warnings.filters]), "device placement": tf.config.get_soft_device_placement(),
        "threads": [tf.config.threading.get_intra_op_parallelism_threads(), tf.config.threading.get_inter_op_parallelism_threads()],
        "TensorFlow seed": repr(context.global_seed()), "deterministic operations": config.is_op_determinism_enabled(),
        "pandas options": dig([pd.get_option(k) for k in ("display.precision", "display.max_rows", "mode.chained_assignment")]),
        "built-in functions": dig([(k, id(v)) for k, v in sorted(vars(builtins).items()) if callable(v)]),
    }

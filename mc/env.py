"""Process set-up shared by all checks: environment, output redirection, seams."""
import os
import sys
import tempfile
import shutil
import atexit

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

DEFAULTS = dict(
    PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="-1",
    TF_CPP_MIN_LOG_LEVEL="3", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1",
    TF_ENABLE_ONEDNN_OPTS="0", COLUMNS="100",
)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Scratch:
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="verif_mc_")
        self.pid = os.getpid()
        atexit.register(self.close)

    def close(self):
        if os.getpid() == self.pid and os.path.isdir(self.path):
            os.chdir("/")
            shutil.rmtree(self.path, ignore_errors=True)

    def fresh(self, name="d"):
        p = tempfile.mkdtemp(prefix=name + "_", dir=self.path)
        return p


scratch = None
_real_out = None


def setup():
    """Redirect the library's chatter, go to a scratch cwd, put /repo first on sys.path."""
    global scratch, _real_out
    sys.dont_write_bytecode = True
    scratch = Scratch()
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch.path, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    cwd = os.path.join(scratch.path, "cwd")
    os.makedirs(cwd)
    os.chdir(cwd)
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    _real_out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    os.close(devnull)
    install_lhs_seam()


def say(line):
    _real_out.write(line + "\n")
    _real_out.flush()


# ---------------------------------------------------------------------------
# The random-design seam.  pyDOE.lhs is the package's source of randomness for
# boundary and sensor points; we own its answer.  `lhs_offset` is where inside
# its stratum each sample lies, `lhs_order` how strata are ordered per column.
lhs_offset = 0.5
lhs_rotate = 1
lhs_calls = []


def install_lhs_seam():
    import numpy as np
    import pyDOE

    real = pyDOE.lhs

    def lhs(n, samples=None, *a, **k):
        samples = n if samples is None else samples
        lhs_calls.append((n, samples))
        H = np.zeros((samples, n))
        for j in range(n):
            # a different permutation of the strata in every column
            idx = np.arange(samples)
            if lhs_rotate == -1:
                idx = idx[::-1] if j % 2 else idx
            elif samples:
                idx = (idx * 1 + (j * lhs_rotate)) % samples
            H[:, j] = (idx + lhs_offset) / max(samples, 1)
        return H

    lhs.real = real
    pyDOE.lhs = lhs
    import pyDOE.doe_lhs as m
    m.lhs = lhs


# tf.random.set_seed drops all compiled kernels: checks that seed explicitly switch it off
reseed_tf = True


def reseed():
    """Before every execution: all remaining random sources in a known state."""
    global lhs_offset, lhs_rotate
    import random
    import numpy as np

    random.seed(SEED)
    np.random.seed(SEED)
    lhs_offset, lhs_rotate = 0.5, 1
    lhs_calls.clear()
    tf = sys.modules.get("tensorflow")
    if reseed_tf and tf is not None and hasattr(tf, "random"):
        tf.random.set_seed(SEED)
    plt = sys.modules.get("matplotlib.pyplot")
    if plt is not None and plt.get_fignums():
        plt.close("all")

"""C30: every failure point of every operation that reads, writes or calls the user's functions: reported, nothing else touched, a repetition gives the full result."""
import builtins
import contextlib
import os
import resource
import shutil
import sys

import numpy as np

from mc import env, pristine
from mc.explorer import Skip
from checks import jobs

BOUNDS = {"quick": "13 operations (mesh file, generated mesh, solution file, space, load vector, boundary data, data tensors, sensors, training, pictures) with 1-4 settings; "
                   "disk full after n bytes: every n for solution and mesh files (32 per generated mesh); output folder missing / a file / target is a folder; input missing or cut "
                   "after every 3rd byte; the k-th call of a user function raises (every k, 3 exceptions, once or twice in a row); the k-th printed picture fails before "
                   "/ after writing; interruption at the k-th call or the k-th line of the library (every k up to 30, 30 evenly spaced ones beyond); one unusable entry in a dictionary of the user; repeated on the same object and on a new one; process-wide settings (20 kinds) compared",
          "thorough": "every n and byte, every k up to 400 calls and 1000 lines"}
ASSUMPTIONS = ["disk full is produced by the operating system (file size limit), so writes are torn at exactly that byte",
               "interruptions arrive before a line of the library or when a function is entered that it contains or calls (not inside the calls that close files or the mesh generator)", "a failed operation may leave its own incomplete output behind (not promised otherwise)"]
SHARDS = {"quick": 8, "thorough": 8}


class Injected(ValueError, TypeError, ZeroDivisionError, KeyError, AssertionError, NotImplementedError):
    """Whatever a user function may raise."""


def settings():
    w = pristine.world()
    return {k: v for k, v in w.items() if "random" not in k}


_base = {}


def folder():
    return env.scratch.fresh("fault")


def baseline(job):
    """Result without any failure, in a process of its own."""
    k = repr(job)
    if k not in _base:
        _base[k] = pristine.call("checks.C30", "undisturbed", job)
    return _base[k]


def undisturbed(job):
    d = folder()
    s = job.prepare(d)
    r = job.run(s)
    out = r, {os.path.basename(f): os.path.getsize(f) for f in job.outputs(s) if os.path.exists(f)}, job.inputs(s)
    shutil.rmtree(d, ignore_errors=True)
    return out


def bystander(d):
    os.makedirs(os.path.join(d, "out"), exist_ok=True)
    fs = [os.path.join(d, "other.vtk"), os.path.join(d, "out", "earlier.vtk")]
    for f in fs:
        with open(f, "w") as h:
            h.write("an earlier result\n" * 3)
    return fs


def verdict(ctx, job, what, fault, repeat, times=1, prepare_call=None, after=None, expect_raise=True, exact=None):
    """One execution: `times` failing attempts, then the repetition.  `fault(s)` is a context manager active during an attempt."""
    want, sizes, inp = baseline(job)
    d = folder()
    try:
        by = bystander(d)
        keep = [jobs.file(f) for f in by]
        s = job.prepare(d, prepare_call or jobs.ident)
        mine = job.inputs(s)
        for t in range(times):
            err = r = None
            before = settings()
            try:
                with fault(s):
                    r = job.run(s)
            except BaseException as e:
                if isinstance(e, (Skip, MemoryError)):
                    raise
                err = e
            ctx.obs("failure", type(err).__name__)
            now = settings()
            ctx.check(now == before, lambda: f"{what}: process-wide settings changed: {[k for k in now if now[k] != before[k]]}")
            if err is None:
                # results computed earlier may legally be kept: then the failing call is not made at all
                ctx.check(exact is not KeyboardInterrupt or not getattr(fault, "fired", True), f"{what}: the interruption is swallowed")
                if expect_raise:
                    dif = jobs.difference(r, want, job.tol)
                    ctx.check(dif is None, lambda: f"{what}: the operation reports success, but its results are incomplete ({dif})")
            elif exact is not None:
                ctx.check(isinstance(err, exact), f"{what}: {type(err).__name__}: {err} is raised instead of {exact.__name__}")
            ctx.check([jobs.file(f) for f in by] == keep, f"{what}: another file of the folder was changed")
            if mine is not None:
                ctx.check(job.inputs(s) == mine, f"{what}: data of the caller were changed by the failing operation")
        if after:
            after(s)
        if repeat == "new object" or not job.same_object:
            s = job.prepare(d)
        try:
            r = job.run(s)
        except (Exception, SystemExit) as e:
            ctx.fail(f"{what}: repeating the operation ({repeat}) after the cause is removed fails with {type(e).__name__}: {e}")
        dif = jobs.difference(r, want, job.tol)
        ctx.check(dif is None, lambda: f"{what}: repeating the operation ({repeat}) gives another result than without the failure: {dif}")
        ctx.obs("result", want)
        return want
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def limit(n):
    """No file can grow beyond n bytes."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    sys.stdout.flush()
    sys.stderr.flush()
    # messages may go to a file as well: the limit is not meant for them
    err, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.close(null)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        sys.stderr.flush()
        os.dup2(err, 2)
        os.close(err)


WRITERS = [jobs.WriteSolution(), jobs.ReadMesh(), jobs.Generate(), jobs.WriteSolution(mesh=3, names=("p", "q", "r")), jobs.ReadMesh(mesh=3, level=0, dim=2)]


def h_full(per, coarse):
    """Disk full after n bytes."""
    def h(ctx):
        job = ctx.choose("operation", WRITERS, free=True)
        repeat = ctx.choose("repeated on", ["same object", "new object"], free=True)
        total = max(baseline(job)[1].values())
        step = max(1, total // coarse) if isinstance(job, jobs.Generate) else per
        n = ctx.choose("bytes", range(0, total, step), free=True)
        ctx.commit()
        verdict(ctx, job, f"{job}, disk full after {n} bytes of {total}", lambda s: limit(n), repeat)
        return repr(job), repeat, n
    return h


@contextlib.contextmanager
def moved(path, put=None):
    """`path` is away (or replaced) during the attempt."""
    away = path + ".away"
    had = os.path.lexists(path)
    if had:
        os.rename(path, away)
    if put == "folder":
        os.makedirs(path)
    elif put == "file":
        with open(path, "w") as f:
            f.write("x")
    elif put == "empty":
        open(path, "w").close()
    try:
        yield
    finally:
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path, ignore_errors=True)
        elif os.path.lexists(path):
            os.remove(path)
        if had:
            os.rename(away, path)


def h_missing(ctx):
    """Folders and files that are not there, or are something else."""
    job = ctx.choose("operation", WRITERS + [jobs.Sensors(kind="external")] + [jobs.Plot(routine=k) for k in range(10)] + [jobs.MeshPlot(), jobs.ResidualPlot()], free=True)
    case = ctx.choose("cause", ["output folder missing", "output folder is a file", "target is a folder", "input missing", "input empty", "input is a folder"], free=True)
    repeat = ctx.choose("repeated on", ["same object", "new object"], free=True)
    times = ctx.choose("failures", [1, 2], free=True)
    reader = isinstance(job, (jobs.ReadMesh, jobs.WriteSolution, jobs.Sensors))
    if case.startswith("input") and not reader or not case.startswith("input") and isinstance(job, jobs.Sensors):
        raise Skip()
    if isinstance(job, jobs.ResidualPlot) and case.startswith("target"):
        raise Skip()
    ctx.commit()

    def fault(s):
        if case.startswith("output folder"):
            return moved(s.get("o", s["d"]), "file" if case.endswith("file") else None)
        if case.startswith("target"):
            return moved(job.outputs(s)[0], "folder")
        f = {"ReadMesh": lambda: s["f"], "WriteSolution": lambda: os.path.join(s["src"], "external.vtk"), "Sensors": lambda: s["csv"]}[type(job).__name__]()
        return moved(f, {"missing": None, "empty": "empty", "folder": "folder"}[case.split()[-1]])
    if isinstance(job, (jobs.Plot, jobs.MeshPlot, jobs.ResidualPlot)):
        # bystanders live in the folder that is moved: they come back with it
        pass
    verdict(ctx, job, f"{job}, {case} ({times} times)", fault, repeat, times, expect_raise=case != "input empty")
    return repr(job), case, repeat, times


def h_torn(step):
    """The input is read while only its first n bytes are there; afterwards it is complete."""
    JOBS = [jobs.ReadMesh(), jobs.WriteSolution(), jobs.Sensors(kind="external"), jobs.ReadMesh(mesh=0, dim=2)]

    def path(job, s):
        return {"ReadMesh": lambda: s["f"], "WriteSolution": lambda: os.path.join(s["src"], "external.vtk"), "Sensors": lambda: s["csv"]}[type(job).__name__]()

    sizes = {}

    def h(ctx):
        job = ctx.choose("operation", JOBS, free=True)
        repeat = ctx.choose("repeated on", ["same object", "new object"], free=True)
        if repr(job) not in sizes:
            d = folder()
            sizes[repr(job)] = os.path.getsize(path(job, job.prepare(d)))
            shutil.rmtree(d, ignore_errors=True)
        n = ctx.choose("bytes", range(0, sizes[repr(job)], step), free=True)
        ctx.commit()

        @contextlib.contextmanager
        def fault(s):
            f = path(job, s)
            with open(f, "rb") as h_:
                raw = h_.read()
            with open(f, "wb") as h_:
                h_.write(raw[:n])
            try:
                yield
            finally:
                with open(f, "rb") as h_:
                    left = h_.read()
                with open(f, "wb") as h_:
                    h_.write(raw)
                ctx.check(left == raw[:n], f"{job}: the incomplete input ({n} bytes) was modified")
        # what is made of an incomplete file is up to its format; it must not stick
        verdict(ctx, job, f"{job}, only {n} bytes of the input there", fault, repeat, expect_raise=False)
        return repr(job), repeat, n
    return h


class Bomb:
    """Raises at its k-th call (counted over all functions it wraps) while armed."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.armed, self.fired = k, exc, 0, False, False

    def wrap(self, f):
        def g(*a, **kw):
            if self.armed:
                self.n += 1
                if self.n == self.k:
                    self.fired = True
                    raise self.exc("user function failed")
            return f(*a, **kw)
        return g

    @contextlib.contextmanager
    def __call__(self, s):
        self.n, self.armed = 0, True
        try:
            yield
        finally:
            self.armed = False


USER = [jobs.Space(), jobs.Source(), jobs.Boundary(), jobs.Handler(), jobs.Sensors(), jobs.Train(), jobs.Train(kind="hard"), jobs.Train(kind="inverse"), jobs.Train(kind="domain"),
        jobs.Space(order=3, family="jacobi", mesh=2), jobs.Boundary(tags=(9, 5)), jobs.Handler(bits=32, mesh=2), jobs.Train(kind="dense", attention=True),
        jobs.Source(component=1), jobs.Boundary(component=0), jobs.Train(graph=True), jobs.Train(kind="hard", graph=True), jobs.Train(kind="inverse", graph=True), jobs.Train(kind="domain", graph=True)]
_calls = {}


def calls(job):
    if repr(job) not in _calls:
        b = Bomb(-1, Injected)
        d = folder()
        s = job.prepare(d, b.wrap)
        with b(s):
            job.run(s)
        _calls[repr(job)] = b.n
        shutil.rmtree(d, ignore_errors=True)
    return _calls[repr(job)]


def h_user(ctx):
    """The k-th call of a function of the user raises."""
    job = ctx.choose("operation", USER, free=True)
    n = calls(job)
    if not n:
        raise Skip()
    k = ctx.choose("call", range(1, n + 1), free=True)
    train, graph = isinstance(job, jobs.Train), getattr(job, "graph", False)
    exc, times = ctx.choose("exception, times", [(Injected, 1), (Injected, 2), (KeyboardInterrupt, 1), (FloatingPointError, 1)] if not graph else [(Injected, 1)], free=True)
    repeat = ctx.choose("repeated on", ["same object", "new object"], free=True)
    # a compiled step whose first tracing failed cannot be traced again by TensorFlow once it has variables to create
    if repeat == "same object" and (not job.same_object or graph) or repeat == "new object" and job.same_object and not graph and (exc, times) != (Injected, 1):
        raise Skip()
    ctx.commit()
    b = Bomb(k, exc)
    what = f"{job}, call {k} of {n} to a user function raises {exc.__name__}"
    if not train:
        verdict(ctx, job, what, b, repeat, times, prepare_call=b.wrap, exact=exc if exc is not Injected else None)
    else:
        training(ctx, job, what, b, repeat, times, b.wrap)
    return repr(job), k, exc.__name__, repeat, times


_traj = {}


def trajectory(job):
    """States before step 0, 1, ... of the undisturbed training."""
    if repr(job) not in _traj:
        _traj[repr(job)] = pristine.call("checks.C30", "states", job)
    return _traj[repr(job)]


def states(job):
    s = job.prepare(folder())
    S = [job.state(s)]
    while s["n"] < 3:
        job.step(s)
        S.append(job.state(s))
    return S


def training(ctx, job, what, fault, repeat, times, wrap=jobs.ident, partial=False):
    """A failing step leaves the unknowns as they were (or, when interrupted, completely updated); training goes on as if undisturbed."""
    S = trajectory(job)
    want = baseline(job)[0]
    d = folder()
    try:
        s = job.prepare(d, wrap)
        for t in range(times):
            err = None
            before = settings()
            try:
                with fault(s):
                    job.run(s)
            except BaseException as e:
                err = e
            ctx.obs("failure", (type(err).__name__, s["n"]))
            left = settings()
            ctx.check(left == before, lambda: f"{what}: process-wide settings changed: {[k for k in left if left[k] != before[k]]}")
            if err is None:
                break
            now = job.state(s)
            # s["n"] steps were completed
            ok = jobs.equal(now, S[s["n"]], job.tol)
            if not ok and partial and s["n"] + 1 < len(S) and jobs.equal(now, S[s["n"] + 1], job.tol):
                ok = True
                s["n"] += 1
            ctx.check(ok, lambda: f"{what}: after the failing step {s['n']} the unknowns are neither those before nor after the step: {jobs.difference(now, S[s['n']], job.tol)}")
        if err is None and t == 0 and fault.fired:
            ctx.fail(f"{what}: the failure is not reported")
        if repeat == "new object":
            s = job.prepare(d)
        if s["n"] == 3:
            r = job.state(s)
            ctx.check(jobs.equal(r, S[3], job.tol), lambda: f"{what}: final state differs: {jobs.difference(r, S[3], job.tol)}")
        else:
            try:
                r = job.run(s)
            except (Exception, SystemExit) as e:
                ctx.fail(f"{what}: training ({repeat}) cannot go on: {type(e).__name__}: {e}")
            ctx.check(jobs.equal(r, want, job.tol), lambda: f"{what}: going on ({repeat}) gives another training: {jobs.difference(r, want, job.tol)}")
        ctx.obs("result", want)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PICTURES = [jobs.Plot(routine=k) for k in range(10)] + [jobs.MeshPlot(), jobs.ResidualPlot(), jobs.Sensors()]


class Printing:
    """The k-th picture cannot be written."""

    def __init__(self, k, how, exc):
        self.k, self.how, self.exc, self.fired = k, how, exc, False

    @contextlib.contextmanager
    def __call__(self, s):
        from matplotlib.backend_bases import FigureCanvasBase
        inner, n = FigureCanvasBase.print_figure, [0]

        def print_figure(canvas, filename, *a, **kw):
            n[0] += 1
            if n[0] == self.k:
                self.fired = True
                if self.how == "after":
                    inner(canvas, filename, *a, **kw)
                    with open(filename, "r+") as f:
                        f.truncate(3)
                raise self.exc(f"cannot write {filename}")
            return inner(canvas, filename, *a, **kw)
        FigureCanvasBase.print_figure = print_figure
        try:
            yield
        finally:
            FigureCanvasBase.print_figure = inner


def h_picture(ctx):
    job = ctx.choose("operation", PICTURES, free=True)
    n = 1 if isinstance(job, jobs.Sensors) else len(baseline(job)[1])
    k = ctx.choose("picture", range(1, n + 1), free=True)
    how = ctx.choose("fails", ["before", "after"], free=True)
    exc = ctx.choose("exception", [OSError, KeyboardInterrupt], free=True)
    repeat = ctx.choose("repeated on", ["same object", "new object"], free=True)
    times = ctx.choose("failures", [1, 3], free=True)
    if repeat == "same object" and not job.same_object:
        raise Skip()
    ctx.commit()
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        verdict(ctx, job, f"{job}: writing picture {k} of {n} fails {how} ({exc.__name__})", Printing(k, how, exc), repeat, times, exact=exc)
    finally:
        plt.close("all")
    return repr(job), k, how, exc.__name__, repeat, times


# ------------------------------------------------------------------ interruption anywhere
class Interrupt:
    """KeyboardInterrupt at the k-th event: a line of the library is about to be executed (level "line"), or a Python function is entered that the library contains
    or calls directly (level "call"; the call that shuts the mesh generator down cannot be interrupted)."""

    def __init__(self, k, level):
        self.k, self.level = k, level
        self.n, self.fired = 0, False

    def hit(self):
        self.n += 1
        if self.n == self.k:
            self.fired = True
            raise KeyboardInterrupt("interrupted")

    def trace(self, frame, event, arg):
        inside = frame.f_code.co_filename.startswith(PKG[0])
        if self.level == "line":
            if not inside:
                return None
            if event == "line":
                self.hit()
            return self.trace
        up = frame.f_back
        if event == "call" and (inside or up is not None and up.f_code.co_filename.startswith(PKG[0])) and frame.f_code.co_name not in ("finalize", "__exit__", "close"):
            self.hit()
        return None

    @contextlib.contextmanager
    def __call__(self, s):
        self.n = 0
        PKG[0] = os.path.join(env.REPO, "fastvpinns")
        sys.settrace(self.trace)
        try:
            yield
        finally:
            sys.settrace(None)


PKG = [None]
ANY = [jobs.ReadMesh(), jobs.Generate(), jobs.WriteSolution(), jobs.Space(), jobs.Source(), jobs.Boundary(), jobs.Handler(), jobs.Sensors(), jobs.Sensors(kind="external"),
       jobs.Train(), jobs.Train(kind="hard"), jobs.Train(kind="inverse"), jobs.Train(kind="domain"), jobs.MeshPlot(), jobs.ResidualPlot(), jobs.Plot(routine=9), jobs.ReadMesh(sampling="lhs"),
       jobs.Space(order=3, family="jacobi", rule="gauss-jacobi", transform="affine", mesh=1)]
_entries = {}


def entries(job, level):
    key = repr(job), level
    if key not in _entries:
        i = Interrupt(-1, level)
        d = folder()
        s = job.prepare(d)
        with i(s):
            job.run(s)
        _entries[key] = i.n
        shutil.rmtree(d, ignore_errors=True)
    return _entries[key]


def h_interrupt(level, most):
    def h(ctx):
        job = ctx.choose("operation", ANY, free=True)
        if level == "line" and isinstance(job, jobs.Generate):
            raise Skip()  # between switching the mesh generator on and guarding it there is always a gap
        n = entries(job, level)
        if not n:
            raise Skip()
        ks = list(range(1, n + 1)) if n <= most else sorted({1 + (n - 1) * i // (most - 1) for i in range(most)})
        k = ctx.choose(level, ks, free=True)
        repeat = ctx.choose("repeated on", ["same object", "new object"], free=True)
        if repeat == "same object" and not job.same_object:
            raise Skip()
        ctx.commit()
        what = f"{job}: interrupted at {level} number {k} of {n}"
        if isinstance(job, jobs.Train):
            training(ctx, job, what, Interrupt(k, level), repeat, 1, partial=True)
        else:
            verdict(ctx, job, what, Interrupt(k, level), repeat, 1, exact=KeyboardInterrupt)
        return repr(job), k, repeat
    return h


def h_bad(ctx):
    """A dictionary of the user with one unusable entry: refused, left as it was; usable once repaired."""
    import tensorflow as tf
    name = ctx.choose("conversion", ["get_bilinear_params_dict_as_tensors", "get_inverse_params"], free=True)
    n = ctx.choose("entries", [1, 2, 3, 4], free=True)
    at = ctx.choose("unusable entry", range(n), free=True)
    bad = ctx.choose("value", [object(), "text", None, {1: 2}], free=True)
    bits = ctx.choose("bits", [64, 32], free=True)
    repeat = ctx.choose("repeated on", ["same object", "new object"], free=True)
    ctx.commit()
    from fastvpinns.data.datahandler2d import DataHandler2D
    dt = tf.float64 if bits == 64 else tf.float32

    def handler():
        from mc import build
        return DataHandler2D(build.space([build.UNIT]), None, dt)
    good = {f"p{i}": 1.5 * i - 1 for i in range(n)}
    user = dict(good)
    user[f"p{at}"] = bad
    kept = [(k, id(v)) for k, v in user.items()]
    h = handler()
    what = f"{name} with entry {at} of {n} = {bad!r}"
    try:
        getattr(h, name)(lambda: user)
        err = None
    except Exception as e:
        err = e
    ctx.check(err is not None, f"{what}: accepted")
    ctx.check([(k, id(v)) for k, v in user.items()] == kept, f"{what}: the failing conversion changed the user's dictionary to {user}")
    user.update(good)
    if repeat == "new object":
        h = handler()
    r = getattr(h, name)(lambda: user)
    want = getattr(handler(), name)(lambda: good)
    ctx.check(jobs.plain(r) == jobs.plain(want), f"{what}: after the repair the result is {r} instead of {want}")
    ctx.obs("result", jobs.plain(want))
    return name, n, at, str(type(bad)), bits, repeat


def harnesses(tier):
    pristine.start()
    q = tier == "quick"
    return [("user functions", h_user, None), ("pictures", h_picture, None), ("missing", h_missing, None), ("interrupted calls", h_interrupt("call", 30 if q else 400), None),
            ("interrupted lines", h_interrupt("line", 30 if q else 1000), None),
            ("disk full", h_full(1, 32 if q else 400), None), ("unusable entries", h_bad, None), ("incomplete input", h_torn(3 if q else 1), None)]

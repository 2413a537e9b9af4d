"""C31: independence of operations: every history of operations in one process and one folder, each in a forked pristine process; the last result must be that of the operation alone."""
import os
import shutil
import sys

import numpy as np

from mc import env
from mc.pristine import imports, in_fork, world
from checks import jobs

BOUNDS = {"quick": "13 operations with all their settings one at a time (about 90); all ordered pairs within an operation's settings and of the defaults of all operations, first operation "
                   "complete or failing (user function, missing folder, cut input), sharing one output folder and keeping all earlier objects alive; then the first operation is repeated; "
                   "process-wide settings (22 kinds) before and after each operation; open files after 1 and 3 repetitions",
          "thorough": "all ordered pairs of all operations and settings; all triples within an operation's settings and of all defaults"}
ASSUMPTIONS = ["a pristine process is a fork taken after importing the library, before any of its operations ran", "TensorFlow, NumPy, gmsh and matplotlib themselves are taken as given",
               "the random design (pyDOE) is replaced by a fixed one; NumPy's generator is seeded by the harness before sensors are drawn"]
SHARDS = {"quick": 8, "thorough": 8}

_ready = []


def pristine(fun):
    """fun() in a forked process that has only imported the library."""
    if not _ready:
        imports()
        _ready.append(1)
    return in_fork(fun)


def menu(cls):
    out = [cls()]
    for k, vs in cls.settings.items():
        out += [cls(**{k: v}) for v in vs[1:]]
    return out


_base = {}


def alone(job):
    k = repr(job)
    if k not in _base:
        d = env.scratch.fresh("alone")
        _base[k] = pristine(lambda: job.run(job.prepare(d)))
        shutil.rmtree(d, ignore_errors=True)
    return _base[k]


class Fail(jobs.Job):
    """An operation that does not succeed."""
    settings = {"how": ["source", "boundary", "no folder", "no mesh", "cut mesh", "loss", "columns"] + [f"picture {k}" for k in range(12)]}

    def prepare(self, d, call=None):
        return {"d": d}

    def run(self, s):
        def bad(*a, **k):
            raise ValueError("user function failed")
        d = s["d"]
        try:
            if self.how == "source":
                jobs.Space().run(jobs.Space().prepare(d, lambda f: bad))
            elif self.how == "boundary":
                jobs.Boundary().run(jobs.Boundary().prepare(d, lambda f: bad))
            elif self.how in ("no folder", "no mesh", "cut mesh"):
                j = jobs.Generate() if self.how == "no folder" else jobs.ReadMesh(mesh=3)
                t = j.prepare(d)
                if self.how == "no folder":
                    shutil.rmtree(t["o"])
                elif self.how == "no mesh":
                    os.remove(t["f"])
                else:
                    with open(t["f"], "r+") as f:
                        f.truncate(os.path.getsize(t["f"]) // 2)
                try:
                    j.run(t)
                finally:
                    os.makedirs(t["o"], exist_ok=True)
            elif self.how == "loss":
                jobs.Train().run(jobs.Train().prepare(d, lambda f: bad))
            elif self.how.startswith("picture"):
                k = int(self.how.split()[1])
                j = jobs.Plot(routine=k) if k < 10 else (jobs.MeshPlot(), jobs.ResidualPlot())[k - 10]
                t = j.prepare(d)
                t["d"] = os.path.join(d, "nowhere")
                if k == 11:
                    t["g"].output_folder = t["d"]
                j.run(t)
            else:
                j = jobs.WriteSolution()
                t = j.prepare(d)
                t["sol"] = t["sol"][:, :1]
                j.run(t)
        except Exception as e:
            return ["failed", type(e).__name__]
        return ["done"]


def sequence(js, again):
    """Results of a history; `again`: the first operation is repeated on its old object at the end."""
    def go():
        d = env.scratch.fresh("seq")
        out, subjects = [], []
        try:
            for j in js:
                s = j.prepare(d)
                subjects.append(s)
                out.append(j.run(s))
            late = [jobs.plain(s["raw"]) if "raw" in s else o for s, o in zip(subjects, out)]
            if again:
                j, s = js[0], subjects[0]
                if isinstance(j, jobs.Train):
                    out.append(jobs.plain([j.state(s)]))
                    out[0] = late[0] = [out[0][1]]
                else:
                    if j.same_object and not isinstance(j, jobs.ReadMesh):
                        j.prepare(d)  # its input files, should the others have replaced them
                    out.append(j.again(s))
            out.append(late)
            return out
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return pristine(go)


def judge(ctx, js):
    j = js[-1]
    want = alone(j)
    got = sequence(js, True)
    what = " then ".join(map(repr, js))
    if want[0] != "ok":
        ctx.fail(f"{j} alone: {want}")
    ctx.check(got[0] == "ok", lambda: f"{what}: {got[:2]}, although {j} alone succeeds")
    r = got[1][len(js) - 1]
    if len(js) == 1 and isinstance(j, jobs.Train):
        r, want = got[1][0], ("ok", [want[1][1]])
    dif = jobs.difference(r, want[1], j.tol)
    ctx.check(dif is None, lambda: f"{what}: the last result differs from that of a fresh process: {dif}")
    late = got[1].pop()
    for i in range(len(js)):
        dif = jobs.difference(late[i], got[1][i], 0.0)
        ctx.check(dif is None, lambda: f"{what}: at the end the objects returned by operation {i + 1} have changed: {dif}")
    dif = jobs.difference(got[1][-1], got[1][0], 0.0)
    ctx.check(dif is None, lambda: f"{what}, then the first one again on its own object: its result changed: {dif}")
    ctx.obs("result", [repr(j), want[1]])
    return [repr(x) for x in js]


def h_pairs(family):
    """Ordered pairs (first, second) of settings of one operation."""
    M = [menu(c) for c in jobs.ALL]

    def h(ctx):
        if family:
            ms = ctx.choose("operation", M, free=True)
            a = ctx.choose("first", ms, free=True)
            b = ctx.choose("second", ms, free=True)
        else:
            a = ctx.choose("first", [m[0] for m in M] + menu(Fail)[:10], free=True)
            b = ctx.choose("second", [m[0] for m in M], free=True)
        ctx.commit()
        return judge(ctx, [a, b])
    return h


def h_all(ctx):
    M = [j for c in jobs.ALL for j in menu(c)]
    a = ctx.choose("first", M + menu(Fail), free=True)
    b = ctx.choose("second", M, free=True)
    ctx.commit()
    return judge(ctx, [a, b])


def h_triples(family):
    M = [menu(c) for c in jobs.ALL]

    def h(ctx):
        ms = ctx.choose("operation", M, free=True) if family else [m[0] for m in M]
        js = [ctx.choose(f"operation {i}", ms, free=True) for i in range(3)]
        ctx.commit()
        return judge(ctx, js)
    return h


# ------------------------------------------------------------------ process-wide settings
def h_world(ctx):
    job = ctx.choose("operation", [j for c in jobs.ALL for j in menu(c)] + menu(Fail), free=True)
    ctx.commit()

    def go(seed):
        def inner():
            import random
            import tensorflow as tf
            tf.constant(1.0)
            random.seed(seed)
            np.random.seed(seed)
            d = env.scratch.fresh("world")
            try:
                here = world()
                s = job.prepare(d)
                s["free"] = True
                a = world()
                job.run(s)
                return here, a, world()
            finally:
                shutil.rmtree(d, ignore_errors=True)
        r = pristine(inner)
        if r[0] != "ok":
            ctx.fail(f"{job}: {r}")
        return r[1]
    start, mid, end = go(11)
    draws = isinstance(job, jobs.Sensors) or isinstance(job, Fail) and job.how == "loss"
    for k in start:
        if "random" in k and (draws or isinstance(job, jobs.Train)):
            continue
        if k == "TensorFlow seed" and isinstance(job, jobs.Train) or draws and not isinstance(job, jobs.Sensors):
            ctx.check(end[k] in ("1003", start[k]) or k != "TensorFlow seed", lambda: f"{job}: TensorFlow's seed was replaced by {end[k]}")  # 1003: the harness
            continue
        if not ("random" in k):
            ctx.check(start[k] == mid[k], lambda: f"preparing {job}: the process-wide {k} changed: {start[k]} -> {mid[k]}")
        ctx.check(mid[k] == end[k], lambda: f"{job}: the process-wide {k} changed: {mid[k]} -> {end[k]}")
    other = go(12)[2]
    if isinstance(job, jobs.Train) or isinstance(job, Fail) and job.how == "loss":
        other = {}  # the harness seeds the initial weights
    for k in ("random generator", "NumPy random generator"):
        ctx.check(end[k] != other.get(k), lambda: f"{job}: afterwards the {k} is in the same state whatever it was seeded with before")
    ctx.obs("world", [sorted(end)])
    return repr(job)


def h_leak(ctx):
    """Open files after one and after three more operations."""
    job = ctx.choose("operation", [j for c in jobs.ALL for j in menu(c)] + menu(Fail), free=True)
    ctx.commit()

    def go():
        import gc
        d = env.scratch.fresh("leak")
        n = []
        try:
            for t in range(4):
                job.run(job.prepare(d))
                gc.collect()
                n.append(len(os.listdir("/proc/self/fd")))
            return n
        finally:
            shutil.rmtree(d, ignore_errors=True)
    r = pristine(go)
    if r[0] != "ok":
        ctx.fail(f"{job}: {r}")
    ctx.check(r[1][3] <= r[1][0], lambda: f"{job}: open files after 1, 2, 3, 4 operations: {r[1]}")
    ctx.obs("open", [r[1][3] - r[1][0]])
    return repr(job)


def harnesses(tier):
    q = tier == "quick"
    hs = [("settings of one operation", h_pairs(True), None), ("operations", h_pairs(False), None), ("process-wide settings", h_world, None), ("open files", h_leak, None)]
    if not q:
        hs += [("all pairs", h_all, None), ("triples of operations", h_triples(False), None), ("triples of settings", h_triples(True), None)]
    return hs

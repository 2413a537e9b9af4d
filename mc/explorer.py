"""Stateless, exhaustive choice explorer with deviation bounding.

A *harness* is a plain function ``harness(ctx)`` that drives the real
implementation in lock step with a reference model.  Every degree of freedom
(an input value, a configuration entry, the next operation of a history, the
answer of an environment seam such as the random design, a thread to schedule)
is taken from ``ctx.choose``.  ``explore`` enumerates *every* choice sequence:
depth-first, each executed exactly once, in a deterministic order.

``bound=None`` explores the full product.  ``bound=k`` explores every sequence
with at most k deviations (choices other than option 0 of a non-free choice);
choices marked ``free=True`` never cost anything and are always enumerated in
full.
"""
import contextlib
import hashlib
import signal
import time

import numpy as np


class Skip(Exception):
    """This execution belongs to another shard / is outside the harness' domain."""


class Divergence(Exception):
    """Replaying a prefix did not offer the recorded choice: nondeterminism."""


class Violated(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key
        self.message = message


def _feed(h, x):
    if x is None or isinstance(x, (bool, int, str, bytes)):
        h.update(repr(x).encode())
    elif isinstance(x, float):
        h.update(("%.9e" % x).encode())
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            _feed(h, repr(k))
            _feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b"(")
        for y in x:
            _feed(h, y)
        h.update(b")")
    else:
        a = np.asarray(x)
        h.update(str(a.shape).encode())
        if a.dtype.kind == "f":
            a = np.asarray(a, dtype=np.float64)
            # 9 significant digits: insensitive to summation order
            with np.errstate(all="ignore"):
                s = np.where(a == 0, 1.0, 10.0 ** np.floor(np.log10(np.abs(np.where(a == 0, 1.0, a)))))
                a = np.round(a / s, 8) * s
            h.update(np.ascontiguousarray(a + 0.0).tobytes())
        else:
            h.update(repr(a.tolist()).encode())


def digest(x):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, x)
    return h.hexdigest()


class Stats:
    def __init__(self):
        self.executions = 0
        self.skipped = 0
        self.choice_points = 0
        self.states = set()
        self.transitions = set()
        self.outcomes = set()
        self.samples = []
        self.capped = False
        self.comparisons = 0


class Ctx:
    def __init__(self, harness_name, prefix, stats, shard, nshards, counter, params, replay=False):
        self.h = harness_name
        self.prefix = prefix
        self.points = []  # (name, chosen, n, free)
        self.values = []  # (name, repr(option))
        self.stats = stats
        self.shard, self.nshards, self.counter = shard, nshards, counter
        self.params = params
        self.prev = digest((harness_name, "init"))
        self.ops = []
        self.replay = replay

    # ---- choices ---------------------------------------------------------
    def choose(self, name, options, free=False):
        options = list(options)
        n = len(options)
        if n == 0:
            raise Skip()
        i = len(self.points)
        if i < len(self.prefix):
            pname, idx, pn = self.prefix[i]
            if pname != name or pn != n:
                raise Divergence(
                    f"{self.h}: at point {i} expected {pname}/{pn}, harness offered {name}/{n}"
                )
        else:
            idx = 0
        self.points.append((name, idx, n, free))
        self.values.append((name, _short(options[idx])))
        return options[idx]

    def permutation(self, name, items, free=False):
        items, out = list(items), []
        k = 0
        while len(items) > 1:
            j = self.choose(f"{name}[{k}]", range(len(items)), free=free)
            out.append(items.pop(j))
            k += 1
        return out + items

    def commit(self):
        """All choices are made: partition the leaves over the shards."""
        c = self.counter[0]
        self.counter[0] += 1
        if not self.replay and self.nshards > 1 and c % self.nshards != self.shard:
            raise Skip()

    # ---- observations ------------------------------------------------------
    def obs(self, label, observation):
        """Record that operation `label` took the implementation to a state with this observation."""
        self.ops.append(label)
        s = digest((self.h, label, observation))
        self.stats.states.add(s)
        self.stats.transitions.add(digest((self.prev, label, s)))
        self.prev = s

    # ---- oracle -------------------------------------------------------------
    def fail(self, message, key=None):
        raise Violated(key or self.h, message)

    def check(self, cond, message, key=None):
        self.stats.comparisons += 1
        if not cond:
            self.fail(message() if callable(message) else message, key)

    def close(self, got, want, message, tol=1e-9, key=None):
        """Scaled comparison with shape check."""
        self.stats.comparisons += 1
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        if got.shape != want.shape:
            self.fail(f"{message}: shape {got.shape}, expected {want.shape}", key)
        if got.size == 0:
            return
        scale = max(1.0, float(np.max(np.abs(want))))
        err = np.abs(got - want)
        if not np.all(np.isfinite(got)) or float(np.max(err)) > tol * scale:
            k = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(err), err, np.inf))), err.shape) if err.ndim else ()
            self.fail(
                f"{message}: at index {tuple(int(i) for i in k)} got {got[k]!r}, expected {want[k]!r}"
                f" (tolerance {tol * scale:.2e})",
                key,
            )

    def equal(self, got, want, message, key=None):
        self.stats.comparisons += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want):
            self.fail(f"{message}: got {_short(got)}, expected {_short(want)}", key)

    def raises(self, exc, fn, message, key=None):
        self.stats.comparisons += 1
        try:
            r = fn()
        except exc:
            return
        except Violated:
            raise
        except (Exception, SystemExit) as e:  # noqa
            self.fail(f"{message}: raised {type(e).__name__}: {e} instead of {exc}", key)
        self.fail(f"{message}: returned {_short(r)} instead of raising {exc}", key)


def _short(x, n=160):
    if callable(x) and hasattr(x, "__name__"):
        s = x.__name__
    elif isinstance(x, np.ndarray):
        s = np.array2string(x, threshold=12).replace("\n", "")
    else:
        s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


@contextlib.contextmanager
def patience(name, seconds=400):
    """An execution takes a few seconds; one that does not come back is a violation, not a hang of the check."""
    def late(*_):
        raise TimeoutError(f"{name}: the operation did not finish within {seconds} s")
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def explore(name, harness, stats, bound=None, shard=0, nshards=1, params=None, before=None,
            on_violation=None, max_executions=None, deadline=None):
    """Enumerate every choice sequence of `harness` within `bound` deviations."""
    counter = [0]
    stack = [()]
    n_here = 0
    while stack:
        if (max_executions and n_here >= max_executions) or (deadline and time.time() > deadline):
            stats.capped = True
            break
        prefix = stack.pop()
        ctx = Ctx(name, prefix, stats, shard, nshards, counter, params or {})
        if before:
            before()
        skipped = False
        try:
            with patience(name):
                outcome = harness(ctx)
        except Skip:
            skipped = True
        except Divergence:
            raise
        except Violated as v:
            outcome = ("violation", v.key)
            on_violation(name, ctx, v)
        except (Exception, SystemExit) as e:  # the code under test (or its contract with us) broke
            import traceback
            v = Violated(f"{name}:exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}")
            v.tb = traceback.format_exc()
            outcome = ("violation", v.key)
            on_violation(name, ctx, v)
        if skipped:
            stats.skipped += 1
        else:
            n_here += 1
            stats.executions += 1
            stats.choice_points += len(ctx.points)
            stats.outcomes.add(digest((name, outcome)))
            if len(stats.samples) < 40 and (n_here in (1, 2) or n_here % 997 == 0):
                stats.samples.append({"harness": name, "choices": [list(v) for v in ctx.values],
                                      "operations": ctx.ops[:12], "outcome": _short(outcome)})
        if len(ctx.points) < len(prefix):
            raise Divergence(f"{name}: execution ended before its prefix was replayed")
        # children
        base = [(p[0], p[1], p[2]) for p in ctx.points]
        cost = 0
        costs = []
        for p in ctx.points:
            costs.append(cost)
            if p[1] != 0 and not p[3]:
                cost += 1
        for i in range(len(prefix), len(base)):
            nm, _, n, free = ctx.points[i]
            c = costs[i] + (0 if free else 1)
            if bound is not None and c > bound:
                continue
            for alt in range(n - 1, 0, -1):
                stack.append(tuple(base[:i]) + ((nm, alt, n),))
    return n_here

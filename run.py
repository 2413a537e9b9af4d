"""run.py ID [--tier quick|thorough] [--replay FILE] [--shard i/n --out FILE]

Runs the exhaustive exploration that decides property ID against /repo.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import env  # noqa: E402

if os.environ.get("VERIF_MC_ENV") != "1":
    e = dict(os.environ)
    e.update(env.DEFAULTS)
    e["VERIF_MC_ENV"] = "1"
    e["PYTHONPATH"] = env.REPO
    os.execve(env.PY, [env.PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], e)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import subprocess  # noqa: E402
import time  # noqa: E402


def load_findings(pid):
    out = []
    with open(os.path.join(HERE, "known_findings.json")) as f:
        for r in json.load(f)["findings"]:
            if r["property"] == pid:
                out.append(r)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--only")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    if a.replay:
        return replay(a.pid, a.replay, tier)
    if a.shard:
        i, n = map(int, a.shard.split("/"))
        return worker(a.pid, tier, i, n, a.out, a.only)
    env.setup()
    mod = importlib.import_module("checks." + a.pid)
    n = mod.SHARDS.get(tier, 1) if hasattr(mod, "SHARDS") else 1
    procs = []
    for i in range(n):
        out = os.path.join(env.scratch.path, f"s{i}.json")
        err = open(os.path.join(env.scratch.path, f"e{i}.txt"), "wb")
        cmd = [env.PY, "-W", "ignore", os.path.abspath(__file__), a.pid, "--tier", tier,
               "--shard", f"{i}/{n}", "--out", out] + (["--only", a.only] if a.only else [])
        procs.append((subprocess.Popen(cmd, stderr=err, stdout=err), out, err))
    res = []
    broken = None
    for p, out, err in procs:
        rc = p.wait()
        err.close()
        if rc != 0 or not os.path.exists(out):
            with open(err.name, errors="replace") as f:
                broken = f"worker failed rc={rc}: " + f.read()[-3000:]
            continue
        with open(out) as f:
            res.append(json.load(f))
    if broken and not any(r["violations"] for r in res):
        env.say(f"ERROR property={a.pid} {broken}")
        return 2
    return report(a.pid, tier, mod, res, t0, n, a.only)


def report(pid, tier, mod, res, t0, n, only):
    states, trans, outcomes = set(), set(), set()
    execs = cmps = choicepts = 0
    samples, viols, per = [], [], {}
    capped = False
    for r in res:
        states.update(r["states"])
        trans.update(r["transitions"])
        outcomes.update(r["outcomes"])
        execs += r["executions"]
        cmps += r["comparisons"]
        choicepts += r["choice_points"]
        samples += r["samples"]
        viols += r["violations"]
        capped |= r["capped"]
        for k, v in r["per_harness"].items():
            d = per.setdefault(k, {"executions": 0, "deviation_bound": v["deviation_bound"]})
            d["executions"] += v["executions"]
    seen, samp = set(), []
    for s in samples:
        if s["harness"] not in seen or len(samp) < 12:
            seen.add(s["harness"])
            samp.append(s)
    findings = load_findings(pid)
    listed, new = {}, []
    for v in viols:
        m = [f for f in findings if f["key"] == v["key"]]
        if m:
            listed[v["key"]] = m[0]
        else:
            new.append(v)
    cov = {
        "states": len(states), "transitions": len(trans),
        "traces_validated_against_impl": execs,
        "samples": samp[:16],
        "exhaustive": not capped,
        "distinct_outcomes": len(outcomes), "oracle_comparisons": cmps,
        "choice_points": choicepts,
        "harnesses": per, "worker_processes": n,
        "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "rule": "every choice sequence of every harness is executed once on the real code in lock step "
                "with the reference model; a state is a distinct implementation observation after an "
                "operation, a transition a distinct (state, operation, state) triple",
        "known_findings_seen": sorted(listed),
    }
    ev = {"property": pid, "tier": tier, "seed": env.SEED, "level": "model_checking",
          "coverage": cov, "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, f in sorted(listed.items()):
        env.say(f"KNOWN-FINDING: property={pid} {f['what']}")
    env.say(f"{pid} {tier}: executions={execs} states={len(states)} transitions={len(trans)} "
            f"outcomes={len(outcomes)} comparisons={cmps} exhaustive={not capped} wall={time.time()-t0:.1f}s")
    if new:
        new.sort(key=lambda v: len(v["choices"]))
        v = new[0]
        rp = os.path.join(HERE, "evidence", f"replay_{pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": env.SEED, "violation": v,
                       "all": [{"harness": x["harness"], "message": x["message"], "key": x["key"]} for x in new],
                       "how": f"python3 {HERE}/run.py {pid} --replay {rp}"}, f, indent=1)
        env.say(f"  harness {v['harness']}: {v['message']}")
        for nm, val in v["values"]:
            env.say(f"    {nm} = {val}")
        env.say(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


MAXV = 6


def worker(pid, tier, i, n, out, only):
    env.setup()
    from mc import explorer as X

    st = X.Stats()
    viols, per = [], {}
    listed = {f["key"] for f in load_findings(pid)}
    keys = {}

    def on_violation(name, ctx, v):
        keys[v.key] = keys.get(v.key, 0) + 1
        if keys[v.key] <= (1 if v.key in listed else 2):
            viols.append({"harness": name, "key": v.key, "message": v.message,
                          "traceback": getattr(v, "tb", None),
                          "choices": [[p[0], p[1], p[2]] for p in ctx.points],
                          "values": ctx.values, "operations": ctx.ops})
        if sum(c for k, c in keys.items() if k not in listed) >= MAXV:
            raise StopExploring()

    class StopExploring(Exception):
        pass

    try:
        mod = importlib.import_module("checks." + pid)
        hs = mod.harnesses(tier)
    except (Exception, SystemExit) as e:
        import traceback
        # the package cannot even be imported / used: nothing it promises holds
        viols.append({"harness": "import", "key": "import", "message": f"{type(e).__name__}: {e}",
                      "traceback": traceback.format_exc(), "choices": [], "values": [], "operations": []})
        hs = []
    try:
        for k, h in enumerate(hs):
            name, fn, bound = h[:3]
            opts = h[3] if len(h) > 3 else {}
            if only and only not in name:
                continue
            # a harness without commit() is not split: it runs on one shard
            whole = not opts.get("split", True)
            if whole and (k % n) != i:
                continue
            c = X.explore(name, fn, st, bound=bound, shard=0 if whole else i, nshards=1 if whole else n,
                          before=env.reseed, on_violation=on_violation,
                          max_executions=opts.get("max"))
            per[name] = {"executions": c, "deviation_bound": "full product" if bound is None else bound}
    except StopExploring:
        st.capped = True
    with open(out, "w") as f:
        json.dump({"states": sorted(st.states), "transitions": sorted(st.transitions),
                   "outcomes": sorted(st.outcomes), "executions": st.executions,
                   "comparisons": st.comparisons, "choice_points": st.choice_points,
                   "samples": st.samples, "violations": viols, "capped": st.capped,
                   "per_harness": per}, f)
    return 0


def replay(pid, path, tier):
    with open(path) as f:
        d = json.load(f)
    v = d["violation"]
    os.environ["VERIF_SEED"] = str(d["seed"])
    env.SEED = d["seed"]
    env.setup()
    from mc import explorer as X

    mod = importlib.import_module("checks." + pid)
    for h in mod.harnesses(d["tier"]):
        if h[0] == v["harness"]:
            ctx = X.Ctx(h[0], [tuple(c) for c in v["choices"]], X.Stats(), 0, 1, [0], {}, replay=True)
            env.reseed()
            try:
                h[1](ctx)
            except X.Violated as e:
                env.say(f"reproduced: {e.message}")
                return 1
            except (Exception, SystemExit) as e:
                env.say(f"reproduced: {type(e).__name__}: {e}")
                return 1
            env.say("not reproduced in isolation (the violation depends on earlier executions of the run)")
            return 0
    env.say("harness not found")
    return 2


if __name__ == "__main__":
    rc = main()
    sys.stderr.flush()
    if env.scratch:
        env.scratch.close()
    os._exit(rc)

"""A worker process: runs seeds, or candidate plans while minimising.

Reads one JSON command per line, writes one JSON answer per line.
"""

import collections
import gc
import hashlib
import json
import os
import sys
import time as _t

# captured before the seams replace them
_now = _t.monotonic


def summary(w, h, vs, prop):
    from . import oracles
    out = collections.Counter()
    for r in w.reqs.values():
        if r.outcome is not None:
            out[r.outcome[0]] += 1
        elif r.failed is not None:
            out["not-sent"] += 1
        else:
            out["not-waited"] += 1
    faults = dict(w.k.faults.fired_by_kind)
    if w.k.gc_runs:
        faults["gc"] = max(faults.get("gc", 0), w.k.gc_runs)
    return {"outcomes": out, "faults": faults, "probes": oracles.probes(h, prop)}


def execute(prop, plan, allow=None, log=False):
    from . import oracles
    from .world import World
    w = World(plan, allow, log)
    verdict = w.run()
    if verdict == "harness" or w.k.harness_error:
        return w, None, None, str(w.k.harness_error or w.k.verdict_detail)
    h, vs = oracles.judge(w, prop)
    return w, h, vs, None


def main():
    proto = os.fdopen(os.dup(1), "w", 1)
    os.dup2(2, 1)
    cmd = json.loads(sys.stdin.readline())
    from . import boot
    info = boot.boot(cmd["backend"], cmd["mux"])
    from . import profiles

    def say(**kw):
        proto.write(json.dumps(kw) + "\n")
        proto.flush()
    # first uses (lazy imports, caches) happen before anything is judged, so that a
    # seed's trace does not depend on what ran before it
    for i, prop in enumerate(("C01", "C02", "C04", "C09", "C11", "C13", "C17")):
        plan = json.loads(json.dumps(profiles.generate(prop, 77 + i)))
        try:
            execute(prop, plan)
        except Exception:
            pass
        gc.collect()
    say(booted=info)
    for line in sys.stdin:
        cmd = json.loads(line)
        prop = cmd["prop"]
        if cmd["cmd"] == "run":
            run_seeds(cmd, prop, profiles, say)
        elif cmd["cmd"] == "plan":
            say(plan=profiles.generate(prop, cmd["seed"]))
        elif cmd["cmd"] == "try":
            try:
                w, h, vs, err = execute(prop, cmd["plan"], cmd.get("allow"),
                                        cmd.get("log", False))
                ans = {"id": cmd.get("id"), "error": err}
                if err is None:
                    ans.update(violations=vs, fired=w.k.faults.fired,
                               trace=w.k.trace.hexdigest(), verdict=w.verdict,
                               steps=w.k.steps, now=w.k.now - w.k.start)
                    if cmd.get("log"):
                        ans["log"] = [[q, t - w.k.start] + [str(x) for x in rest]
                                      for q, t, *rest in w.k.log]
                del w, h, vs
            except Exception:
                import traceback
                ans = {"id": cmd.get("id"), "error": traceback.format_exc()}
            gc.collect()
            say(**ans)


def run_seeds(cmd, prop, profiles, say):
    seeds = cmd["seeds"]
    deadline = _now() + cmd["wall"]
    acc = new_acc()
    last = _now()
    for seed in seeds:
        if _now() >= deadline:
            break
        say(at=seed)
        try:
            plan = json.loads(json.dumps(profiles.generate(prop, seed)))
            w, h, vs, err = execute(prop, plan)
        except Exception:
            import traceback
            err = traceback.format_exc()
            say(harness=seed, error=err)
            continue
        if err is not None:
            say(harness=seed, error=err)
            continue
        k = w.k
        acc["n"] += 1
        acc["sim"] += k.now - k.start
        acc["steps"] += k.steps
        acc["switches"] += k.switches
        acc["lines"] += k.lines
        acc["datagrams"] += len(w.net.sent) + len(w.net.read)
        for op, e, tb in w.errors[:1]:
            acc["app_errors"].setdefault(e[:200], seed)
        s = summary(w, h, vs, prop)
        for key in ("outcomes", "faults", "probes"):
            for a, b in s[key].items():
                acc[key][a] = acc[key].get(a, 0) + b
        acc["verdicts"][w.verdict] = acc["verdicts"].get(w.verdict, 0) + 1
        sched = k.sched_hash.hexdigest()[:16]
        nontrivial = bool(w.reqs) and bool(k.faults.fired or k.switches > 8)
        acc["runs"].append([sched, k.trace.hexdigest()[:16], nontrivial, seed])
        if acc["samples"] is not None and len(acc["samples"]) < 1:
            acc["samples"].append({
                "seed": seed, "simulated_s": round((k.now - k.start) / 1e9, 3),
                "threads": len(k.threads), "switches": k.switches,
                "operations": [o[:3] if o[0] != "mk" else [o[0], o[1]] for o in
                               plan["ops"][:12]],
                "environment": plan["env"][:4],
                "fired": dict(k.faults.fired_by_kind),
                "outcomes": dict(s["outcomes"])})
        if vs:
            say(violation=seed, found=vs[:5], trace=k.trace.hexdigest())
        del w, h, vs, k
        gc.collect()
        if _now() - last > 1.0:
            say(acc=acc)
            acc = new_acc(acc["samples"] is not None and not acc["samples"])
            last = _now()
    say(acc=acc)
    say(done=True)


def new_acc(sample=True):
    return {"n": 0, "sim": 0, "steps": 0, "switches": 0, "lines": 0, "datagrams": 0,
            "app_errors": {}, "outcomes": {}, "faults": {}, "probes": {}, "verdicts": {},
            "runs": [], "samples": [] if sample else None}


if __name__ == "__main__":
    main()

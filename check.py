#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

  check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
  check.py --replay FILE

Exit 0: held on every run.  Exit 1: violated (a VIOLATION line names the replay
file).  Exit 2: the harness itself failed.
"""

import argparse
import json
import os
import re
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("SIM_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
REPO = os.environ.get("SIM_REPO", "/repo")
# one quarter of the runs is made as with python -O: whatever is done inside an assert
# statement is not done at all
COMBOS = (("openssl", "posix"), ("pycryptodome", "generic"),
          ("openssl", "generic"), ("pycryptodome", "posix"),
          ("openssl", "posix"), ("pycryptodome", "generic"),
          ("openssl", "generic-O"), ("pycryptodome", "posix-O"))
STUCK = 240.0           # wall seconds one simulated run may take

# runs in the quick tier, sized for about half a minute on eight cores
QUICK = {"C01": 6000, "C02": 7000, "C03": 6000, "C04": 6000, "C05": 3000, "C06": 12000,
         "C07": 12000, "C08": 12000, "C09": 8000, "C10": 4000, "C11": 9000, "C12": 2200,
         "C13": 12000, "C14": 9000, "C15": 2200, "C16": 5000, "C17": 9000}
WALL = {"quick": 150.0, "thorough": 780.0}
SHRINK = {"quick": 75.0, "thorough": 75.0}


class Worker:
    def __init__(self, backend, mux, hashseed=None):
        env = dict(os.environ)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = str(hashseed) if hashseed is not None else "0"
        env.setdefault("OPENSSL_CONF", os.path.join(HERE, "sim", "openssl-legacy.cnf"))
        self.backend, self.mux = backend, mux
        self.err = open(os.devnull, "w") if not os.environ.get("SIM_DEBUG") else None
        self.p = subprocess.Popen(
            [PYTHON, "-B"] + (["-O"] if mux.endswith("-O") else [])
            + ["-m", "sim.worker"], cwd=HERE, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE
            if self.err is not None else None)
        self.buf = b""
        self.eof = False
        self.at = None
        self.at_t = time.monotonic()
        self.seeds = []
        self.tail = b""
        self.send(backend=backend, mux=mux.removesuffix("-O"))
        os.set_blocking(self.p.stdout.fileno(), False)
        if self.p.stderr is not None:
            os.set_blocking(self.p.stderr.fileno(), False)

    def send(self, **kw):
        try:
            self.p.stdin.write((json.dumps(kw) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            pass            # it died; the reader notices

    def read(self):
        """Complete messages received so far."""
        if self.p.stderr is not None:
            try:
                more = os.read(self.p.stderr.fileno(), 1 << 16)
                self.tail = (self.tail + more)[-4000:]
            except (BlockingIOError, OSError):
                pass
        try:
            data = os.read(self.p.stdout.fileno(), 1 << 20)
        except BlockingIOError:
            return []
        if not data:
            self.eof = True
            return []
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in lines if x]

    def wait(self, timeout):
        """The next message, or None."""
        end = time.monotonic() + timeout
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        try:
            while time.monotonic() < end:
                if sel.select(max(0.0, min(1.0, end - time.monotonic()))):
                    msgs = self.read()
                    if msgs:
                        return msgs
                    if self.eof:
                        return None
            return None
        finally:
            sel.close()

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            if f is not None:
                try:
                    f.close()
                except OSError:
                    pass


def start(backend, mux, hashseed=None):
    """A booted worker, or an error message."""
    w = Worker(backend, mux, hashseed)
    msgs = w.wait(60)
    if not msgs or "booted" not in msgs[0]:
        tail = w.tail.decode(errors="replace")
        try:
            tail += os.read(w.p.stderr.fileno(), 4000).decode(errors="replace")
        except (OSError, AttributeError):
            pass
        w.kill()
        return None, tail
    w.info = msgs[0]["booted"]
    return w, None


def merge(total, acc):
    for key, v in acc.items():
        if v is None:
            continue
        if isinstance(v, dict):
            d = total.setdefault(key, {})
            for a, b in v.items():
                d[a] = d.get(a, 0) + b if not key.endswith("errors") else b
        elif isinstance(v, list):
            total.setdefault(key, []).extend(v)
        else:
            total[key] = total.get(key, 0) + v


# ------------------------------------------------------------------ search
def search(prop, tier, seed, runs, wall, jobs, known):
    base = seed * 10_000_000
    seeds = range(base, base + runs)
    t0 = time.monotonic()
    workers = []
    info = {}
    boot_error = None
    for i in range(jobs):
        workers.append([COMBOS[i % len(COMBOS)], None,
                        list(seeds[i::jobs])])
    live = []
    for slot in workers:
        w = Worker(*slot[0])
        w.slot = slot
        w.started = False
        live.append(w)
    total = {}
    found = []
    problems = []
    done_combo = {}
    sel = selectors.DefaultSelector()
    for w in live:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    restarts = 0
    stop_at = None
    respawned = []
    while live:
        now = time.monotonic()
        if found and stop_at is None:
            stop_at = now + 1.0
        if stop_at is not None and now >= stop_at:
            break
        for key, _ in sel.select(0.5):
            w = key.data
            for m in w.read():
                w.at_t = time.monotonic()
                if "booted" in m:
                    w.info = m["booted"]
                    info["/".join(w.slot[0])] = m["booted"]
                    w.send(cmd="run", prop=prop, seeds=w.slot[2],
                           wall=max(1.0, wall - (time.monotonic() - t0)))
                elif "at" in m:
                    w.at = m["at"]
                elif "acc" in m:
                    c = "/".join(w.slot[0])
                    done_combo[c] = done_combo.get(c, 0) + m["acc"]["n"]
                    merge(total, m["acc"])
                elif "violation" in m:
                    f = dict(seed=m["violation"], found=m["found"], combo=w.slot[0],
                             trace=m["trace"])
                    f["new"] = [x for x in m["found"] if not is_known(prop, x, known)]
                    for x in m["found"]:
                        for n in known:
                            if n["re"].search(f"{x[0]}: {x[1]}"):
                                n["hits"] = n.get("hits", 0) + 1
                    if f["new"]:
                        found.append(f)
                elif "harness" in m:
                    problems.append((m["harness"], m["error"]))
                elif "done" in m:
                    w.finished = True
            if w.eof or getattr(w, "finished", False):
                sel.unregister(w.p.stdout)
                live.remove(w)
                if not getattr(w, "finished", False):
                    msg = w.tail.decode(errors="replace")[-1500:]
                    problems.append((w.at, "worker died: " + msg))
                    nxt = again(w, live, sel, restarts)
                    restarts += nxt
                w.kill()
        for w in list(live):
            if time.monotonic() - w.at_t > STUCK:
                problems.append((w.at, f"run did not finish within {STUCK}s of wall time"))
                sel.unregister(w.p.stdout)
                live.remove(w)
                w.kill()
                restarts += again(w, live, sel, restarts)
        if len(problems) > 50:
            break
    for w in live:
        w.kill()
    sel.close()
    return total, found, problems, info, done_combo, time.monotonic() - t0


def again(w, live, sel, restarts):
    """Replace a worker that died, continuing after the seed it was at."""
    if restarts >= 8 or w.at is None:
        return 0
    rest = w.slot[2]
    rest = rest[rest.index(w.at) + 1:] if w.at in rest else []
    if not rest:
        return 0
    n = Worker(*w.slot[0])
    n.slot = [w.slot[0], None, rest]
    live.append(n)
    sel.register(n.p.stdout, selectors.EVENT_READ, n)
    return 1


# ------------------------------------------------------------------ findings
def load_known(prop):
    """known-findings.txt: 'known: property=<id> match=<regexp> :: <what fails>'"""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"re": re.compile(m.group(2)), "what": m.group(3)})
    return out


def is_known(prop, violation, known):
    text = f"{violation[0]}: {violation[1]}"
    return any(k["re"].search(text) for k in known)


# ------------------------------------------------------------------ shrinking
class Pool:
    def __init__(self, combo, n):
        self.workers = []
        self.combo = combo
        for _ in range(n):
            w, err = start(*combo)
            if w is not None:
                self.workers.append(w)

    def run(self, prop, cands, timeout=60.0):
        """Evaluate candidates (plan, allow) in parallel; answers in order."""
        res = [None] * len(cands)
        nxt = 0
        busy = {}
        sel = selectors.DefaultSelector()
        idle = list(self.workers)
        end = time.monotonic() + timeout
        while (nxt < len(cands) or busy) and self.workers:
            while idle and nxt < len(cands):
                w = idle.pop()
                w.send(cmd="try", prop=prop, id=nxt, plan=cands[nxt][0],
                       allow=cands[nxt][1])
                busy[w] = nxt
                sel.register(w.p.stdout, selectors.EVENT_READ, w)
                nxt += 1
            for key, _ in sel.select(1.0):
                w = key.data
                for m in w.read():
                    res[busy[w]] = m
                    sel.unregister(w.p.stdout)
                    del busy[w]
                    idle.append(w)
                    break
                if w.eof and w in busy:
                    sel.unregister(w.p.stdout)
                    del busy[w]
                    self.workers.remove(w)
            if time.monotonic() > end:
                for w in list(busy):
                    sel.unregister(w.p.stdout)
                    w.kill()
                    self.workers.remove(w)
                break
        sel.close()
        return res

    def close(self):
        for w in self.workers:
            w.kill()


def sigs(ans):
    if not ans or ans.get("error") or "violations" not in ans:
        return set()
    return {v[0] for v in ans["violations"]}


def reduce_list(items, test, deadline):
    """ddmin: test(list of candidate lists) -> index of one that fails, or None."""
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        cands = []
        if n == 2 and len(items) > 1:
            cands.append([])
        for i in range(len(chunks)):
            cands.append([x for j, c in enumerate(chunks) if j != i for x in c])
        hit = test(cands)
        if hit is not None:
            items = cands[hit]
            n = max(2, n - 1)
            if not items:
                break
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


KEEP = ("mk", "delm", "user", "settle")


def shrink(prop, plan, fired, sig, combo, budget, jobs):
    deadline = time.monotonic() + budget
    pool = Pool(combo, jobs)
    stats = {"tried": 0}

    def first(cands):
        """cands: (plan, allow) -> index of the first that still fails the same way"""
        step = max(1, len(pool.workers))
        for i in range(0, len(cands), step):
            if time.monotonic() > deadline or not pool.workers:
                return None
            group = cands[i:i + step]
            stats["tried"] += len(group)
            for j, a in enumerate(pool.run(prop, group)):
                if sig in sigs(a):
                    return i + j
        return None

    allow = [list(f) for f in fired]
    try:
        if first([(plan, allow)]) is None:
            return plan, None, stats
        # 1. faults
        allow = reduce_list(allow, lambda cs: first([(plan, c) for c in cs]), deadline)
        # 2. operations, thread by thread
        for name in [None] + sorted(plan.get("threads", {})):
            ops = plan["ops"] if name is None else plan["threads"][name]
            # what later operations' expectations build on stays in place
            fixed = [o for o in ops if prop == "C17" and o[0] in KEEP]
            order = {id(o): i for i, o in enumerate(ops)}

            def with_ops(o):
                o = sorted(o + fixed, key=lambda x: order[id(x)])
                q = json.loads(json.dumps(plan))
                if name is None:
                    q["ops"] = o
                else:
                    q["threads"][name] = o
                return q
            ops = reduce_list([o for o in ops if not any(o is x for x in fixed)],
                              lambda cs: first([(with_ops(c), allow) for c in cs]),
                              deadline)
            plan = with_ops(ops)
        # 3. agents, environment, configuration
        for key in sorted(plan["cfg"]):
            q = json.loads(json.dumps(plan))
            del q["cfg"][key]
            if first([(q, allow)]) is not None:
                plan = q
        allow = reduce_list(allow, lambda cs: first([(plan, c) for c in cs]), deadline)
        return plan, allow, stats
    finally:
        pool.close()


def replay_file(prop, f, budget, jobs):
    """Reproduce in a fresh process, minimise, write the replay file."""
    combo = tuple(f["combo"])
    w, err = start(*combo)
    if w is None:
        return None, "worker did not start: " + err
    w.send(cmd="plan", prop=prop, seed=f["seed"])
    msgs = w.wait(60)
    if not msgs:
        return None, "worker did not answer"
    plan = msgs[0]["plan"]

    def attempt(w, plan, allow, log=False):
        w.send(cmd="try", prop=prop, plan=plan, allow=allow, log=log)
        msgs = w.wait(STUCK)
        return msgs[0] if msgs else None
    ans = attempt(w, plan, None)
    w.kill()
    want = f["new"][0][0]
    if want not in sigs(ans):
        return None, (f"seed {f['seed']}: {want} did not recur in a fresh process: "
                      f"{(ans or {}).get('error') or (ans or {}).get('violations')}")
    exact = ans["trace"] == f["trace"]
    small, allow, stats = shrink(prop, plan, ans["fired"], want, combo, budget, jobs)
    out = {"property": prop, "seed": f["seed"], "backend": combo[0], "mux": combo[1],
           "signature": want, "plan": small, "allow": allow,
           "original": {"trace": f["trace"], "message": f["new"][0][1],
                        "operations": len(plan["ops"]) + sum(
                            len(x) for x in plan["threads"].values()),
                        "fired": len(ans["fired"]), "same_trace_in_fresh_process": exact},
           "shrink": stats}
    # once more, in a fresh process, with the full event log
    w, err = start(*combo)
    ans = attempt(w, small, allow, True) if w is not None else None
    if w is not None:
        w.kill()
    if want not in sigs(ans):
        # keep the unreduced form, which is known to reproduce
        out.update(plan=plan, allow=None)
        w, err = start(*combo)
        ans = attempt(w, plan, None, True)
        w.kill()
        if want not in sigs(ans):
            return None, "violation did not recur"
    out["trace"] = ans["trace"]
    out["violations"] = ans["violations"][:5]
    out["fired"] = ans["fired"]
    out["log"] = ans["log"][-400:]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{f['seed']}.json")
    with open(path, "w") as fh:
        json.dump(out, fh, indent=1)
    return path, out


def do_replay(path):
    d = json.load(open(path))
    w, err = start(d["backend"], d["mux"])
    if w is None:
        print("harness: worker did not start\n" + err)
        return 2
    w.send(cmd="try", prop=d["property"], plan=d["plan"], allow=d["allow"], log=True)
    msgs = w.wait(STUCK)
    w.kill()
    ans = msgs[0] if msgs else None
    if ans is None or ans.get("error"):
        print("harness:", ans and ans["error"])
        return 2
    for q, t, *rest in ans["log"]:
        print(f"{q:6} {t / 1e9:12.6f}", *rest)
    for s, m in ans["violations"]:
        print(f"{s}: {m}")
    if d["signature"] in sigs(ans):
        print("trace", "identical" if ans["trace"] == d["trace"] else "differs")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("not reproduced on this tree")
    return 0


# ------------------------------------------------------------------ evidence
REAL = ["snmp.* (engine, managers, dispatcher, message, security/USM, auth and privacy "
        "protocols, BER codec, transport multiplexor) from /repo's working tree",
        "libcrypto through the compiled binding, or pycryptodome (alternating workers)",
        "CPython's threads (parked and released one at a time)"]
STUB = ["UDP sockets, pipes, poll/select, network", "clocks, sleep, lock and condition waits",
        "os.urandom", "remote SNMP engines (an independent implementation)", "attacker"]


def evidence(prop, tier, seed, total, wall, info, per_combo, problems, violations, known):
    runs = total.get("runs", [])
    scheds = {r[0] for r in runs if r[2]}
    traces = {r[1] for r in runs if r[2]}
    n = total.get("n", 0)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(traces),
        "rule": "one evaluation is one simulated execution of a plan generated from the "
                "seed; non-trivial: the application made at least one request and at "
                "least one fault, preemption or more than eight thread switches occurred; "
                "distinct: by a hash over the complete event trace",
        "distinct_thread_interleavings": len(scheds),
        "samples": total.get("samples", [])[:4],
        "runs_per_hour": int(n / wall * 3600) if wall else 0,
        "seeds": [seed * 10_000_000, seed * 10_000_000 + n],
        "simulated_seconds": round(total.get("sim", 0) / 1e9, 1),
        "scheduler_steps": total.get("steps", 0),
        "thread_switches": total.get("switches", 0),
        "source_lines_executed_in_library": total.get("lines", 0),
        "datagrams": total.get("datagrams", 0),
        "faults_fired": dict(sorted(total.get("faults", {}).items())),
        "outcomes": dict(sorted(total.get("outcomes", {}).items())),
        "situations_reached": dict(sorted(total.get("probes", {}).items())),
        "run_verdicts": total.get("verdicts", {}),
        "application_exceptions": dict(list(total.get("app_errors", {}).items())[:5]),
        "per_configuration": per_combo,
        "real_components": REAL,
        "stub_components": STUB,
        "workers": info,
        "harness_problems": [f"seed {s}: {str(e)[-300:]}" for s, e in problems[:5]],
        "known_findings_seen": {k["what"]: k.get("hits", 0) for k in known},
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
           "assumptions": [
               "each manager is used by one thread, as the documentation requires",
               "preemption happens between source lines and at synchronisation, clock and "
               "I/O calls of the library, not inside a single line",
               "the simulated network, sockets and clocks behave as POSIX describes",
               "sampling: absence of a violation is evidence, not proof"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="build, and start every kind of worker")
    a = ap.parse_args()
    if a.setup:
        for combo in COMBOS:
            w, err = start(*combo)
            if w is None:
                print("worker did not start\n" + err)
                return 2
            print("/".join(combo), w.info)
            w.kill()
        return 0
    if a.replay:
        return do_replay(a.replay)
    prop = a.property
    tier = a.tier if a.tier in WALL else "quick"
    jobs = a.jobs or max(4, min(8, os.cpu_count() or 8))
    runs = a.runs or (QUICK.get(prop, 2000) if tier == "quick" else 3_000_000)
    wall = a.wall or WALL[tier]
    known = load_known(prop)
    print(f"property={prop} tier={tier} seed={a.seed} runs<={runs} wall<={wall}s jobs={jobs}",
          flush=True)
    total, found, problems, info, per, took = search(
        prop, tier, a.seed, runs, wall, jobs, known)
    n = total.get("n", 0)
    print(f"{n} simulated runs, {total.get('sim', 0) / 1e9:.0f} simulated seconds, "
          f"{took:.1f}s", flush=True)
    for s, e in problems[:3]:
        print(f"harness problem at seed {s}: {e[-800:]}")
    for kf in known:
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    if os.environ.get("SIM_NOSHRINK"):      # development: is anything noticed at all
        for f in found[:1]:
            print("noticed", f["seed"], f["violations"][:1] if "violations" in f else "")
        return 1 if found else 2 if problems else 0
    confirmed = None
    for f in sorted(found, key=lambda f: f["seed"])[:4]:
        path, out = replay_file(prop, f, SHRINK[tier], jobs)
        if path is None:
            problems.append((f["seed"], out))
            print("not confirmed:", out)
            continue
        confirmed = path, out
        break
    evidence(prop, tier, a.seed, total, took, info, per, problems,
             1 if confirmed else 0, known)
    if confirmed:
        path, out = confirmed
        d = out
        print(f"seed {d['seed']} ({d['backend']}/{d['mux']}): {d['violations'][0][0]}: "
              f"{d['violations'][0][1]}")
        print(f"minimised to {sum(len(x) for x in d['plan']['threads'].values()) + len(d['plan']['ops'])}"
              f" operations and {len(d['fired'])} faults/preemptions"
              f" (from {d['original']['operations']} and {d['original']['fired']});"
              f" replay: python3 check.py --replay {os.path.relpath(path, HERE)}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems or n == 0:
        print("harness failure: no verdict")
        return 2
    print(f"property {prop} held on {n} simulated runs")
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = [f"C{i:02}" for i in range(1, 18)]
WHAT = {
 "C01": "invariant on identifiers in flight; history check of every completed request against what its agent sent for it",
 "C02": "every sent datagram decoded by an independent codec and compared with the call; every result compared with the agent's record",
 "C03": "active attacker in the simulated network; every result compared with what the agent signed for that request",
 "C04": "every sent datagram opened with independent crypto under the keys of the named user and engine",
 "C05": "every initialisation vector recorded per key over long histories, salts started near their edges, preempted encryptions",
 "C06": "simulated clock: return time of every wait against its deadline, wall-clock steps, slow threads, failing sends",
 "C07": "reference model of delivery: an answer read before the close must be returned, at the moment of receipt",
 "C08": "reference schedule of repeats against the recorded sends",
 "C09": "bounded liveness: requests made after the faults stop must succeed",
 "C10": "reference model of the RFC 3414 time window; replays of recorded messages at every later time",
 "C11": "reference model of report precedence against each outcome",
 "C12": "object, identifier and descriptor census after rounds of repeated work",
 "C13": "shutdown at arbitrary points, failing system calls, descriptor ledger",
 "C14": "hostile datagrams and receive errors, then liveness and loop detection",
 "C15": "preemption at line granularity and finalizers at arbitrary points; deadlock detection, per-thread outcomes",
 "C16": "reference clock estimate from accepted messages against every sent message",
 "C17": "reference model of engine ownership and of which secrets may sign",
}
checks = []
for p in CLAIM:
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py --property {p} --tier quick",
        "thorough_cmd": f"python3 check.py --property {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: " + WHAT[p],
        "level": "exploration",
        "level_note": "seeded search over schedules, timings, inputs and faults of the real library "
                      "under a simulated network, clock, scheduler and operating system; see DESIGN.md",
    })
REASON = ("pure function of its arguments: no schedule, time, I/O, fault or second party for a "
          "simulator to control; exhaustive or property-based testing of inputs is the right tool. ")
doc = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator replaces the socket, "
              "select, os, time, threading and random seams from outside before the library loads",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [
        {"property": "C18", "reason": REASON + "What conversations depend on (identifiers sent and "
         "returned unchanged, walk-style comparisons of returned names) is decided under C02."},
        {"property": "C19", "reason": REASON + "Values and encodings as they occur in messages, "
         "legal and hostile, are decided under C02 and C14."},
        {"property": "C20", "reason": REASON + "The keys in use are exercised under C03 and C04, "
         "where an independent implementation verifies every message."},
    ],
    "notes": "DESIGN.md explains the simulator and each oracle. known-findings.txt lists repaired "
             "defects. `python3 check.py --replay FILE` reproduces a violation event by event; "
             "determinism.py shows that a seed is one execution.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")

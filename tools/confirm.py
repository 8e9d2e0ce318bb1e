#!/usr/bin/env python3
"""Re-confirm the planted bugs from seeded/ alone: the patch applies to /repo's HEAD, builds,
passes the stable tests, demo.sh tells the two trees apart.  With --hunt, also run the quick
check of its property against the patched copy and print what it found and after how long."""

import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plant  # noqa: E402

ROOT = plant.ROOT


def one(i, hunting=False, props=None):
    folder = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    d = plant.copy(("t-" if hunting else "k-") + i)
    try:
        p = subprocess.run(["git", "-C", d, "apply", os.path.join(folder, "patch.diff")],
                           stderr=subprocess.PIPE)
        if p.returncode:
            return f"{i} PATCH {p.stderr.decode()[:200]}"
        if hunting:
            out = []
            for prop in props or [meta["property"]]:
                t = time.monotonic()
                r = subprocess.run(["python3", os.path.join(ROOT, "check.py"), "--property",
                                    prop, "--tier", "quick"], cwd=ROOT,
                                   env=dict(os.environ, SIM_REPO=d, VERIF_SEED=os.environ.get("SEED", "1")),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                text = r.stdout.decode(errors="replace").splitlines()
                line = [x for x in text if x.startswith("seed ") or "problem" in x]
                out.append(f"{i} {prop} rc={r.returncode} {time.monotonic() - t:.0f}s "
                           + (line[0][:170] if line else ""))
            return "\n".join(out)
        if not plant.build(d):
            return f"{i} BUILD"
        miss = plant.stable(d, i)
        if miss:
            return f"{i} TESTS {miss[:3]}"
        a, o0 = plant.demo(folder, "/repo")
        b, o1 = plant.demo(folder, d)
        return f"{i} {'ok' if a == 0 and b != 0 else f'DEMO {a} {b}'} {o1.strip().splitlines()[-1][:120] if o1.strip() else ''}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    if "--hunt" in sys.argv:
        props = [f"C{n:02}" for n in range(1, 18)] if "--all" in sys.argv else None
        for i in ids:
            print(one(i, True, props), flush=True)
        return
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)


if __name__ == "__main__":
    main()

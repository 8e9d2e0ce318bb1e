#!/usr/bin/env python3
"""Prove determinism: the same seeds, run in different processes, in a different
order, under another PYTHONHASHSEED and with other seeds before them, must give
identical event traces.    determinism.py [N] [PROP...]"""

import sys
import check


def collect(slots, prop):
    """slots: (combo, hashseed, seeds) -> {seed: trace}"""
    import selectors
    sel = selectors.DefaultSelector()
    live = []
    out = {}
    for combo, hs, seeds in slots:
        w = check.Worker(*combo, hashseed=hs)
        w.seeds = seeds
        live.append(w)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    while live:
        for key, _ in sel.select(1):
            w = key.data
            over = False
            for m in w.read():
                if "booted" in m:
                    w.send(cmd="run", prop=prop, seeds=w.seeds, wall=600)
                elif "acc" in m:
                    for r in m["acc"]["runs"]:
                        out[r[3]] = r[1]
                elif "harness" in m:
                    print("HARNESS", m)
                elif "done" in m:
                    over = True
            if over or w.eof:
                sel.unregister(w.p.stdout)
                live.remove(w)
                w.kill()
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 64
    props = sys.argv[2:] or sorted(check.QUICK)
    bad = 0
    for i, prop in enumerate(props):
        combo = check.COMBOS[i % 8]
        seeds = list(range(5_000_000, 5_000_000 + n))
        a = collect([(combo, 0, seeds[j::8]) for j in range(8)], prop)
        b = collect([(combo, 12345, list(reversed(seeds))[j::5]) for j in range(5)], prop)
        c = collect([(combo, 777, seeds[j * n // 7:(j + 1) * n // 7]) for j in range(7)], prop)
        diff = [s for s in seeds if not a.get(s) == b.get(s) == c.get(s)]
        print(prop, combo, n, "seeds x3:", "identical" if not diff else f"DIFFER {diff[:10]}",
              flush=True)
        bad += bool(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""determinism.py [cases per property]: runs the first cases of every property twice, in different processes with different numbers of workers, and compares the hashes of all executions."""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import *


def part(a):
    pid, lo, step, n, tag = a
    prop = props.PROPS[pid]
    base = scratch_base() + "x%s%d" % (tag, lo)
    os.makedirs(base, exist_ok=True)
    ctx = Ctx(B.build(), base, lo)
    out = {}
    try:
        for i in range(lo, n, step):
            case = new_case(prop, int(os.environ.get("VERIF_SEED", "1")), i, "quick")
            v = attempt(prop, case, ctx)
            out[i] = (v[0], [(r.status, r.hash, r.points, r.now) for r in ctx.runs])
    finally:
        ctx.stop(); shutil.rmtree(base, ignore_errors=True)
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    B.build()
    bad = runs = 0
    for pid in sys.argv[2:] or sorted(props.PROPS):
        res = []
        for w in (8, 3):
            with mp.Pool(w) as pool:
                d = {}
                for o in pool.map(part, [(pid, i, w, n, "ab"[w == 3]) for i in range(w)]): d.update(o)
                res.append(d)
        diff = [i for i in range(n) if res[0][i] != res[1][i]]
        k = sum(len(x[1]) for x in res[0].values())
        runs += k; bad += len(diff)
        print("%s: %d cases, %d runs, %d cases differ %s" % (pid, n, k, len(diff), diff[:5]), flush=True)
    print("%d runs twice, %d cases differ" % (runs, bad))
    sys.exit(1 if bad else 0)


if __name__ == "__main__": main()

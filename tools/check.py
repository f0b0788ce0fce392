#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--cases N] [--time S] [--workers W]
Seeded search over schedules and faults for one property; see DESIGN.md."""
import argparse, atexit, json, os, random, re, select, shutil, signal, struct, subprocess, sys, time, traceback, base64
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing as mp
from simlib import *
import props

DEVS = struct.Struct("<QqHB5x")


def devlist(b):
    return [DEVS.unpack_from(b, i) for i in range(0, len(b), 24)]


def devbytes(l):
    return b"".join(DEVS.pack(*d) for d in l)


def clean_stale():
    for d in ("/dev/shm", "/tmp"):
        try: names = os.listdir(d)
        except OSError: continue
        for n in names:
            m = re.fullmatch(r"hycu-sim-(\d{7})", n)
            if m:
                try: os.kill(int(m.group(1)), 0)
                except ProcessLookupError: shutil.rmtree(os.path.join(d, n), ignore_errors=True)
                except OSError: pass


def attempt(prop, case, ctx, devs=None):
    """-> (violation class or None, text)"""
    ctx.begin(devs)
    try:
        prop.execute(case, ctx)
        return None, ""
    except Violation as v:
        return v.cls, v.text


def new_case(prop, seed, idx, tier):
    rng = random.Random("%s/%d/%d" % (prop.id, seed, idx))
    return prop.gen(rng, idx, tier)


def worker(prop, out, base, wid, ncpu, seed, tier, w, total, deadline, pipe, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    cpus = sorted(os.sched_getaffinity(0))
    ctx = Ctx(out, base, wid, cpus[wid % len(cpus)])
    t0 = time.time()
    samples, slow, known = [], (0, -1), known_findings(prop.id)
    try:
        idx = wid
        while idx < total and time.time() < deadline and not stop.is_set():
            case = new_case(prop, seed, idx, tier)
            tc = time.time()
            cls, text = attempt(prop, case, ctx)
            tc = time.time() - tc
            ctx.stats.d["cases"] += 1
            if tc > slow[0]: slow = (tc, idx)
            if cls and any(kc == cls and re.search(match, text) for kc, match, what in known):
                ctx.stats.known.update(what for kc, match, what in known if kc == cls and re.search(match, text))
                cls = None
            if len(samples) < 2 and ctx.runs:
                samples.append({"case": case, "runs": [{"status": r.status, "hash": r.hash, "points": r.points, "sim_s": round(r.now / 1e9, 3), "deviations": r.ndev,
                    "first": ["thread %d %s at its point %d -> %d" % (d[2], KINDS[d[3]], d[0], d[1]) for d in devlist(r.dev[:24 * 6])]} for r in ctx.runs[:4]]})
            if cls:
                pipe.send(("violation", idx, case, cls, text, [r.dev for r in ctx.runs], [r.hash for r in ctx.runs]))
                break
            idx += w
    except SimError as e:
        pipe.send(("error", idx, str(e)))
    except Exception:
        pipe.send(("error", idx, traceback.format_exc()))
    ctx.stop()
    ctx.stats.slow = slow
    pipe.send(("done", ctx.stats, samples, time.time() - t0))
    pipe.close()


def minimise(prop, case, cls, devs, ctx, budget, log):
    """delta debugging over the deviations, then over whole incarnations' deviations"""
    t0 = time.time()
    flat = [(r, d) for r, b in enumerate(devs) for d in devlist(b)]
    n = len(devs)
    tries = [0]
    def test(fl):
        tries[0] += 1
        l = [[] for _ in range(n)]
        for r, d in fl: l[r].append(d)
        b = [devbytes(x) for x in l]
        c, _ = attempt(prop, case, ctx, b)
        return c == cls
    if test([]): flat = []
    k = 2
    while flat and time.time() - t0 < budget:
        size = max(1, len(flat) // k)
        hit = False
        for i in range(0, len(flat), size):
            if time.time() - t0 > budget: break
            rest = flat[:i] + flat[i + size:]
            if test(rest):
                flat, hit, k = rest, True, max(k - 1, 2); break
        if not hit:
            if size == 1: break
            k = min(len(flat), k * 2)
    l = [[] for _ in range(n)]
    for r, d in flat: l[r].append(d)
    return [devbytes(x) for x in l], tries[0]


def confirm(prop, out, base, viol, tier, seed):
    """the gates a violation passes before it is reported -> (replay file or None, text)"""
    idx, case, cls, text, devs, hashes = viol
    print("case %d: %s: %s" % (idx, cls, text), flush=True)
    ctx = Ctx(out, base, 91)
    try:
        # gate 1: the same integers give the same execution
        case = json.loads(json.dumps(case))
        c2, t2 = attempt(prop, case, ctx)
        h2 = [r.hash for r in ctx.runs]
        if c2 is None:
            print("not repeatable: %s %s / %s %s" % (cls, hashes, c2, h2)); return None, ""
        same = c2 == cls and h2 == hashes
        # gate 2: the recorded deviations alone, in a fresh process
        ctx.stop()
        c3, t3 = attempt(prop, case, ctx, devs)
        h3 = [r.hash for r in ctx.runs]
        if c3 == cls:
            mdevs, tries = minimise(prop, case, cls, devs, ctx, 25 if tier == "quick" else 120, None)
            ctx.stop()
            n0, n1 = sum(len(d) for d in devs) // 24, sum(len(d) for d in mdevs) // 24
            c4, t4 = attempt(prop, case, ctx, mdevs)
            if c4 != cls: mdevs, t4 = devs, text
            note = "%d deviations minimised to %d in %d replays; rerun from the seed has the same hash: %s; replay of all deviations has: %s" % (n0, n1, tries, same, h3 == hashes)
        else:   # the deviations do not suffice (undefined behaviour in the code under test): replay from the seeds
            mdevs, t4 = None, t2
            note = "replays from the seeds; the deviations alone give %s; rerun has the same hash: %s" % (c3, same)
    finally: ctx.stop()
    replay = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop.id, seed, idx))
    save_replay(replay, prop, case, cls, t4, mdevs, note)
    q = subprocess.run([sys.executable, os.path.abspath(__file__), prop.id, "--replay", replay], stdout=subprocess.PIPE, text=True)
    if q.returncode != 1:
        print("the replay file does not reproduce it\n" + q.stdout); return None, ""
    print("minimised: %s; %s" % (note, t4))
    return replay, text


def save_replay(path, prop, case, cls, text, devs, note):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": prop.id, "class": cls, "text": text, "case": case, "note": note,
                   "deviations": None if devs is None else [[[d[2], KINDS[d[3]], d[0], d[1]] for d in devlist(b)] for b in devs]}, f, indent=1)


def load_replay(path):
    j = json.load(open(path))
    if j["deviations"] is None: return j, None
    devs = [devbytes([(d[2], d[3], d[0], KINDS.index(d[1])) for d in l]) for l in j["deviations"]]
    return j, devs


def known_findings(pid):
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid: out.append(m.groups()[1:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--replay"); ap.add_argument("--cases", type=int); ap.add_argument("--time", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    prop = props.PROPS[a.property]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t00 = time.time()
    try: out = B.build()
    except RuntimeError as e:
        print(e); sys.exit(2)
    t_build = time.time() - t00
    clean_stale()
    base = scratch_base()
    os.makedirs(base, exist_ok=True)
    me = os.getpid()
    def cleanup():
        if os.getpid() == me: shutil.rmtree(base, ignore_errors=True)
    atexit.register(cleanup)
    for s in (signal.SIGTERM, signal.SIGHUP): signal.signal(s, lambda *x: sys.exit(2))

    if a.replay:
        j, devs = load_replay(a.replay)
        ctx = Ctx(out, base, 90)
        try: cls, text = attempt(prop, j["case"], ctx, devs)
        finally: ctx.stop()
        if cls:
            print("%s: %s" % (cls, text))
            print("VIOLATION property=%s replay=%s" % (prop.id, a.replay)); sys.exit(1)
        print("replay: no violation"); sys.exit(0)

    print("property %s, tier %s, VERIF_SEED=%d, build %s (%.1f s)" % (prop.id, tier, seed, os.path.basename(out), t_build), flush=True)
    total = a.cases or prop.cases(tier)
    budget = a.time or prop.seconds(tier)
    w = a.workers or max(1, min(8, len(os.sched_getaffinity(0))))
    deadline = time.time() + budget
    stop = mp.Event()
    ws = []
    for i in range(w):
        r, s = mp.Pipe(False)
        p = mp.Process(target=worker, args=(prop, out, base, i, w, seed, tier, w, total, deadline, s, stop), daemon=True)
        p.start(); s.close(); ws.append((p, r))
    stats, samples, viols, errs, busy = Stats(), [], [], [], 0.0
    live = [r for _, r in ws]
    t1 = time.time()
    while live:
        for r in mp.connection.wait(live, 1.0):
            try: m = r.recv()
            except EOFError: live.remove(r); continue
            if m[0] == "violation": viols.append(m[1:]); stop.set()
            elif m[0] == "error": errs.append(m[1:]); stop.set()
            else: stats.merge(m[1]); samples += m[2]; busy += m[3]; live.remove(r)
        if time.time() > deadline + 300:
            errs.append((-1, "workers did not end")); break
    t_run = time.time() - t1
    for p, _ in ws:
        p.join(5)
        if p.is_alive(): p.kill()

    code, replay, vtext = 0, None, ""
    if viols:
        viols.sort(key=lambda v: v[0])
        code = 2
        for v in viols[:8]:
            replay, vtext = confirm(prop, out, base, v, tier, seed)
            if replay: code = 1; break
    if errs and code == 0 and not viols:
        print("ERROR: case %s: %s" % errs[0]); code = 2

    d = stats.d
    if os.environ.get("SIM_VERBOSE"): print("slowest case: %.1f s, case %d" % stats.slow)
    cov = {
        "evaluations": d["runs"], "distinct_nontrivial": len(stats.nontrivial),
        "rule": prop.rule + " Non-trivial: at least one scheduling deviation, fault or kill took effect; distinct by the hash of the complete event order "
                "(every synchronisation operation, switch, file operation with its data and message, with the per-thread position it happened at).",
        "samples": samples[:4] or [{"none": True}],
        "cases": d["cases"], "runs_per_hour": round(d["runs"] * 3600 / max(t_run, 1e-3)), "cases_per_hour": round(d["cases"] * 3600 / max(t_run, 1e-3)),
        "seeds": d["cases"], "workers": w, "simulated_seconds": round(d["sim_ns"] / 1e9, 1), "instrumented_points": d["points"], "context_switches": d["switches"],
        "mpi_messages": d["messages"], "file_operations": d["fsops"], "kills": d["kills"], "power_losses": d["powerlosses"], "torn_writes": d["torn_writes"], "library_static_writes": d["libwrites"], "short_io": d["short_io"],
        "faults_and_deviations_fired": stats.faults, "run_endings": stats.status, "distinct_interleavings": len(stats.hashes), "probes": stats.probes,
        "real_components": prop.real, "stubbed_components": STUBS,
    }
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": prop.assumptions,
          "wall_s": round(time.time() - t00, 2), "violations": 1 if code == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%d cases, %d runs (%d distinct non-trivial) in %.1f s, %.0f simulated s; endings %s; fired %s; probes %s" % (d["cases"], d["runs"], len(stats.nontrivial), t_run, d["sim_ns"] / 1e9, stats.status, stats.faults, stats.probes))
    for k in sorted(stats.known): print("KNOWN-FINDING: property=%s %s" % (prop.id, k))
    if code == 1: print("VIOLATION property=%s replay=%s" % (prop.id, replay))
    sys.stdout.flush()
    sys.exit(code)


STUBS = ["thread scheduler, pthread primitives, clocks and sleeps (simulated, one token)", "MPI library below the C API (simulated network; Boost.MPI itself is real)",
         "disk (real tmpfs files behind a journalling, fault-injecting syscall seam; durability by a model of what is synced)", "std::random_device (seeded)", "malloc failures (injected)"]

if __name__ == "__main__":
    main()

"""The workloads, fault spaces and oracles, one class per property."""
import os, random, copy
from simlib import *

TINY = [(3, 1, 1, 1), (3, 1, 1, 2), (5, 1, 1, 1), (5, 1, 1, 2), (7, 1, 1, 1), (11, 1, 1, 1), (13, 1, 1, 2), (3, 1, 2, 2), (3, 1, 2, 1), (3, 1, 2, 3), (3, 2, 1, 1), (3, 2, 1, 2), (3, 1, 1, 3), (3, 1, 1, 4), (5, 1, 1, 3), (7, 1, 1, 3), (3, 1, 1, 6)]
MED = [(5, 1, 2, 2), (5, 1, 2, 1), (3, 1, 3, 3), (3, 1, 3, 2), (17, 1, 1, 2), (29, 1, 1, 1), (53, 1, 1, 1), (5, 2, 1, 1), (3, 3, 1, 1), (7, 2, 1, 1),
       (11, 1, 1, 3), (13, 1, 1, 3), (3, 2, 1, 3), (5, 1, 1, 4), (7, 1, 1, 4), (61, 1, 1, 1), (3, 1, 2, 4), (3, 1, 2, 5), (3, 4, 1, 1), (127, 1, 1, 1), (101, 1, 1, 1), (11, 2, 1, 1)]
BIG = [(7, 1, 2, 2), (7, 1, 2, 3), (3, 1, 4, 4), (3, 2, 2, 2), (5, 1, 3, 3), (3, 1, 3, 4), (5, 1, 2, 3),
       (3, 1, 5, 1), (3, 2, 2, 3), (5, 1, 3, 1), (7, 1, 3, 1), (7, 2, 1, 2), (5, 1, 2, 4), (17, 1, 1, 3), (3, 2, 1, 4), (67, 1, 1, 2), (11, 1, 2, 1)]
REAL_T = ["hycu-threaded: main, configuration, enumeration, counting, stores, worker pool, thread pool, threads, result files (all of it, compiled from /repo)", "libstdc++, FLINT, yaml-cpp, Boost.Filesystem"]
REAL_M = ["hycu-mpi: every rank's main, master and worker loops, thread pools, stores, result files (all of it, compiled from /repo)", "libstdc++, FLINT, yaml-cpp, Boost.Filesystem, Boost.MPI, Boost.Serialization"]
REAL_G = ["hycu-merger: all of it, compiled from /repo", "libstdc++, GMP/FLINT, Boost.Filesystem"]
BASIC = ["memory accesses are observed and preempted in /repo's code; inside FLINT, GMP and the C/C++ libraries only the effects of a call on its arguments and writes to static memory of FLINT and GMP are",
         "the memory model is sequentially consistent (races are reported separately by C15)",
         "reference tables in ref/tables come from ref/refgen.cc, an implementation sharing no code with /repo"]


def pick(rng, l): return l[rng.randrange(len(l))]
def chance(rng, p): return rng.random() < p


def modulus(rng, pool, path="x", pkg=None):
    while True:
        p, e, g, c = pick(rng, pool)
        m = rng.randrange(2)
        if has_reference(p, e, g, m, c): break
    q = p ** e
    n = q ** (2 * g)
    if pkg is None:
        pkg = pick(rng, [1, max(1, q // 2), q, 2 * q + 1, q * q, max(1, n // 7), n, 10 * n + 3])
        while n // max(1, pkg) > 400: pkg *= 3
    return dict(p=p, e=e, g=g, m=m, c=c, pkg=int(pkg), path=path, cexp=rng.randrange(2))


def sched(rng, est=100000, calm=0.08, mpi=False, clock=True):
    s = {"seed": rng.randrange(1 << 62), "cseed": rng.randrange(1 << 62), "rdseed": rng.randrange(1 << 62)}
    x = rng.random()
    if x < calm: s["strat"] = 0
    elif x < 0.75:
        s["strat"] = 1
        s["psw"] = pick(rng, [0.01, 0.05, 0.1, 0.3, 0.6])
        s["gap"] = pick(rng, [0, 0, 50, 300, 3000, 30000])
    else:
        s["strat"] = 2; s["pctk"] = rng.randrange(1, 7); s["plen"] = max(1000, int(est * 10 ** rng.uniform(-1, .3)))
    s["quantum"] = pick(rng, [2000, 30000, 300000])
    s["csync"] = pick(rng, [10, 1000, 100000])
    if chance(rng, .5): s["speedvar"] = rng.randrange(1, 6)
    if chance(rng, .4): s["pspur"] = pick(rng, [.05, .3, 1.0])
    if chance(rng, .4): s["pstall"] = pick(rng, [.0005, .003, .02]); s["stallmax"] = int(10 ** rng.uniform(6, 11.6))
    if chance(rng, .25):                       # before waiting, locking, after unlocking, before and after notifying
        s["scode"] = "%d %g" % (pick(rng, [0x20, 0x20, 0x10, 0x11, 0x23, 0x24, 0x25]), pick(rng, [.02, .1, .4])); s["stallmax"] = int(10 ** rng.uniform(7, 11.6))
    if chance(rng, .3): s["pover"] = .1; s["overmax"] = int(10 ** rng.uniform(6, 11.6))
    if clock and chance(rng, .4): s["pclock"] = pick(rng, [.01, .1]); s["clockmax"] = int(10 ** rng.uniform(8, 13))
    if chance(rng, .5): s["shuffle"] = 1
    if mpi:
        s["eager"] = pick(rng, [0, 0, 64, 400, 4096, 1 << 40])
        if chance(rng, .5): s["prdv"] = pick(rng, [.1, .5])
        s["dbase"] = pick(rng, [0, 1000, 100000, 20 * MS])
        if chance(rng, .7): s["djit"] = int(10 ** rng.uniform(3, 10.5))
        if chance(rng, .5): s["mpirand"] = 1
        if chance(rng, .3): s["skew"] = int(10 ** rng.uniform(6, 12))
    return s


def job(rng, kind, pool, nmod=1, long=0.0, tl=True, **kw):
    """a computing run: kind threaded or mpi"""
    cfgs = [modulus(rng, pool, "m%d" % i) for i in range(nmod)]
    j = dict(kind=kind, cfgs=cfgs, n=rng.randrange(1, 6), sched=sched(rng, mpi=kind == "mpi", **kw), single=rng.randrange(2))
    if kind == "mpi": j["nranks"] = rng.randrange(1, 5); j["n"] = rng.randrange(1, 4)
    elif chance(rng, .06): j["n"] = rng.randrange(6, 18)
    if chance(rng, .1): j["auto"] = 1          # the number of threads is left to the program: one for each processor
    if chance(rng, long): j["simT"] = pick(rng, [400, 900, 1800, 3000])
    else: j["simT"] = pick(rng, [0, 0, 1, 10, 60])
    return j


def prog_plan(ctx, j, out="", cfgfile="c.yaml"):
    f = ctx.write(cfgfile, yaml_of(j["cfgs"], j.get("single")))
    o = ctx.root + ("/" + out if out else "")
    n = dict(ncpu=j["n"]) if j.get("auto") else {}
    a = [] if n else ["-n", j["n"]]
    if j["kind"] == "mpi":
        return dict(prog="mpi", nranks=j["nranks"], lib=["t_mpi%d" % i for i in range(j["nranks"])], arg=["hycu-mpi", f, o] + a, **n)
    return dict(prog="threaded", lib="t_threaded", arg=["hycu-threaded", f, o] + a, **n)


def aside(ctx, plan):
    """a run that only measures (not part of the case's history)"""
    devs, ctx.devs = ctx.devs, None
    runs, ctx.runs = ctx.runs, []
    try: return ctx.run(plan)
    finally: ctx.devs, ctx.runs = devs, runs


def probe(case, ctx, key, fn):
    """measured once, then part of the case (replays use the stored value)"""
    r = case.setdefault("res", {})
    if key not in r:
        t = read_tree(ctx.root)
        r[key] = fn()
        write_tree(ctx.root, t)
    return r[key]


def measure(case, ctx, j, key="m", extra=None):
    """size of a run under its schedule: points, fs operations, allocations ... (cmem resolved first)"""
    def acc():
        p = prog_plan(ctx, j); p.update(seed=1, strat=0)
        return aside(ctx, p).memacc
    cmem = 1
    if j.get("simT"):
        a = probe(case, ctx, key + ".acc", acc)
        sp = 1 << j["sched"].get("speedvar", 0)
        cmem = max(1, int(j["simT"] * SEC / max(1, a)))
        cmem = min(cmem, max(1, int(6000 * SEC / max(1, a) / sp)))
    return cmem


def stepcap(j):
    """far above what the real work of the configuration takes (BIG: up to 9.2e8 steps, others up to 6e7)"""
    return 3000000000 if any((c["p"], c["e"], c["g"], c["c"]) in BIG for c in j["cfgs"]) else 400000000


def speeds(cmem, f=20):
    """main threads run faster than working threads, so that long packages do not make every poll long"""
    return (cmem // f, f) if cmem >= f else (cmem, 1)


def full_plan(case, ctx, j, key="m", out=""):
    p = prog_plan(ctx, j, out)
    p.update(j["sched"])
    p["cmem"], p["wspeed"] = speeds(measure(case, ctx, j, key))
    p["stepcap"] = stepcap(j)
    return p


def sizes(case, ctx, plan, key):
    def f():
        r = aside(ctx, plan)
        return {"points": r.points, "fsops": r.fsops, "now": r.now, "allocs": r.allocs, "nthreads": r.nthreads, "fscount": r.fscount, "status": r.status}
    return probe(case, ctx, key, f)


def final_run(ctx, j, what, tries=1, out=""):
    """a calm run without faults: has to succeed (calm: property C02/C04 owns hostile schedules)"""
    p = prog_plan(ctx, j, out); p.update(seed=7, strat=0, rdseed=1000003 + len(ctx.runs))
    r = ctx.run(p)
    if not r.ok(j.get("nranks")):
        raise Violation("rerun-fails", "%s: a run without any fault does not succeed: %s; %s" % (what, r.brief(), r.log[-300:]))
    return r


def check_all(t, cfgs, what="census"):
    seen = {}
    for c in cfgs:
        if c["path"] in seen: continue
        seen[c["path"]] = 1
        check_census(t, c["path"], c, what)


def merger_plan(ctx, src, dst):
    return dict(prog="merger", lib="t_merger", arg=["hycu-merger", src, dst])


def real_merge(ctx, src, dst, want_counts, want_blocks, what):
    r = ctx.run(dict(merger_plan(ctx, src, dst), seed=3, strat=0))
    if not r.ok(): raise Violation("merge-fails", "%s: hycu-merger ends with %s: %s" % (what, r.brief(), r.log[-200:]))
    t = {"o" + REC: open(dst + REC, "rb").read(), "o" + STO: open(dst + STO, "rb").read()}
    b, c = merge_tree(t)
    d = diff_counts(c, want_counts)
    if d: raise Violation("merged-differs", "%s: hycu-merger's output: %s" % (what, "; ".join(d[:3])))
    if sorted(b) != sorted(want_blocks): raise Violation("merged-record", "%s: hycu-merger's record lists %d packages instead of %d" % (what, len(b), len(want_blocks)))


HANG = ("deadlock", "noprogress", "stepcap", "timeout")


class Prop:
    real = REAL_T
    assumptions = BASIC
    rule = ""
    def cases(self, tier): return 1000000
    def seconds(self, tier): return 40 if tier == "quick" else 700


# ---------------------------------------------------------------- C01, C03: the census
class Census(Prop):
    kind = "threaded"
    def gen(self, rng, idx, tier):
        x = rng.random()
        pool = TINY if x < .80 else MED if x < (.97 if tier == "quick" else .93) else BIG
        j = job(rng, self.kind, pool, long=.25)
        if pool is BIG: j["cfgs"][0]["pkg"] = max(j["cfgs"][0]["pkg"], j["cfgs"][0]["p"] ** (j["cfgs"][0]["e"] * 2 * j["cfgs"][0]["g"]) // 40)
        return dict(job=j, merge=chance(rng, .2), out=pick(rng, ["", "", "deep/er"]))

    def execute(self, case, ctx):
        j = case["job"]
        out = case["out"]
        r = ctx.run(full_plan(case, ctx, j, out=out))
        if not r.ok(j.get("nranks")):
            ctx.stats.probe("did not succeed")
            return
        t = read_tree(ctx.root)
        c = j["cfgs"][0]
        pre = (out + "/" if out else "") + c["path"]
        b, counts = check_census(t, pre, c)
        ctx.stats.probe("census compared")
        if len([k for k in t if k.endswith(REC) and t[k]]) > (1 if self.kind == "threaded" else j["nranks"]): ctx.stats.probe("intermediate save happened")
        if case["merge"]: real_merge(ctx, ctx.root + "/" + pre, ctx.root + "/merged", reference(c), b, "census")


class C01(Census):
    id = "C01"
    rule = ("Seeded threaded runs: modulus (field, genus, marked point, count exponent), package size, 1-5 threads, scheduling strategy (random, priority-based), preemption at memory accesses and "
            "synchronisation, stalls, spurious wake-ups, oversleeping, clock jumps and simulated compute speed are all drawn; successful runs must hold exactly the reference census.")


class C03(Census):
    id = "C03"
    kind = "mpi"
    real = REAL_M + REAL_T[:1]
    rule = ("Seeded MPI jobs of 1-4 ranks with 1-3 threads each in one process: everything of C01 plus message delay, eager or rendezvous sends, order of matching, rank clocks apart; "
            "jobs that succeed on all ranks must hold exactly the reference census.")


# ---------------------------------------------------------------- C02, C04: termination
def check_ends(r, what):
    if r.status in HANG:
        raise Violation("hang", "%s never ends (%s): %s" % (what, r.status, r.where[:900]))


class C02(Prop):
    id = "C02"
    rule = ("Seeded threaded runs without faults under hostile schedules (as C01, one or two moduli); each must end with success: deadlock (nobody can run), no progress for two simulated hours "
            "after the last stall, or more than 4e8 steps are violations, as are failure statuses and crashes.")
    def gen(self, rng, idx, tier):
        j = job(rng, "threaded", TINY if chance(rng, .93) else MED, nmod=1 if chance(rng, .7) else 2, long=.1, calm=.02)
        if chance(rng, .5): j["sched"].update(strat=1, psw=pick(rng, [.1, .3, .6]))
        if chance(rng, .15): j["sched"].update(scode="32 .3", stallmax=int(10 ** rng.uniform(8.5, 10)))
        return dict(job=j)

    def execute(self, case, ctx):
        r = ctx.run(full_plan(case, ctx, case["job"]))
        check_ends(r, "the run")
        if not r.ok(): raise Violation("run-fails", "a run without faults ends with %s: %s" % (r.brief(), r.log[-300:]))


BADARGS = [["hycu-mpi"], ["hycu-mpi", "--help"], ["hycu-mpi", "@c"], ["hycu-mpi", "--nonsense", "@c", "@o"], ["hycu-mpi", "@missing", "@o"], ["hycu-mpi", "@c", "@o", "-n", "x"],
           ["hycu-mpi", "@c", "@o", "extra"], ["hycu-mpi", "-h", "@c", "@o"], ["hycu-mpi", "@dir", "@o"], ["hycu-mpi", "@c", "@file"]]
BADCFG = ["", "Moduli:\n", "Prime: 5\n", "StoreType: XX\nPrime: 5\nPrimeExponent: 1\nGenus: 1\nWithMarkedPoint: false\nResultPath: a\nPackageSize: 9\n", "{: bad", "Moduli:\n  - Prime: 5\n", "Prime: 0\nPrimeExponent: 1\nGenus: 1\nWithMarkedPoint: false\nResultPath: a\nPackageSize: 9\n",
          "Moduli:\n  - Prime: 3\n    PrimeExponent: 1\n    Genus: 1\n    WithMarkedPoint: false\n    ResultPath: a\n    PackageSize: 9\n  - Prime: 3\n    PrimeExponent: 0\n    Genus: 1\n    WithMarkedPoint: false\n    ResultPath: b\n    PackageSize: 9\n",
          "Moduli:\n  - Prime: 3\n    PrimeExponent: 1\n    Genus: 1\n    WithMarkedPoint: false\n    ResultPath: a\n    PackageSize: 9\n  - Prime: 3\n    PrimeExponent: 1\n    Genus: 1\n    WithMarkedPoint: false\n    ResultPath: b\n    PackageSize: 0\n"]


def check_mpi(r, n, what):
    check_ends(r, what)
    if r.mpierr: raise Violation("mpi-contract", "%s: %s" % (what, r.mpierr))
    codes = [x for x in r.ranks[:n]]
    if r.status == "exit" and any(not x[3] and x[0] and not x[2] and x[1] == 0 for x in codes):
        raise Violation("no-finalise", "%s: a rank ends with status 0 without finalising MPI: %s" % (what, r.brief()))


class C04(Prop):
    id = "C04"
    real = REAL_M
    rule = ("Seeded MPI jobs (as C03; 1-5 ranks, one or two moduli) and rejected invocations or configurations: every rank must end (no deadlock, no endless polling); calls from other threads, mismatched or truncated "
            "messages, messages left unreceived at finalisation and ranks leaving without finalisation are recorded by the simulated MPI and are violations.")
    def gen(self, rng, idx, tier):
        j = job(rng, "mpi", TINY if chance(rng, .95) else MED, nmod=1 if chance(rng, .6) else 2, long=.05, calm=.05)
        j["nranks"] = rng.randrange(1, 6)
        case = dict(job=j)
        if chance(rng, .25):
            case["bad"] = rng.randrange(len(BADARGS) + len(BADCFG))
            j["sched"]["seed"] = rng.randrange(1 << 62)
        return case

    def execute(self, case, ctx):
        j = case["job"]
        n = j["nranks"]
        if "bad" in case:
            p = prog_plan(ctx, j); p.update(j["sched"]); p["stepcap"] = stepcap(j)
            b = case["bad"]
            if b < len(BADARGS):
                os.makedirs(ctx.root + "/dd", exist_ok=True)
                open(ctx.root + "/ff", "w").write("x")
                sub = {"@c": p["arg"][1], "@o": ctx.root, "@missing": ctx.root + "/none.yaml", "@dir": ctx.root + "/dd", "@file": ctx.root + "/ff"}
                p["arg"] = [sub.get(x, x) for x in BADARGS[b]]
            else: ctx.write("c.yaml", BADCFG[b - len(BADARGS)])
            r = ctx.run(p)
            ctx.stats.probe("rejected invocation" if not r.ok(n) else "accepted odd invocation")
            check_mpi(r, n, "job %s" % (BADARGS[b] if b < len(BADARGS) else "with configuration %r" % BADCFG[b - len(BADARGS)]))
            return
        r = ctx.run(full_plan(case, ctx, j))
        check_mpi(r, n, "the job")
        if not r.ok(n): raise Violation("job-fails", "a job without faults ends with %s: %s" % (r.brief(), r.log[-300:]))


# ---------------------------------------------------------------- C05, C06: kill and power loss
def kill_spec(rng, mpi):
    x = rng.random()
    k = {"seed": rng.randrange(1 << 62)}
    if x < .35: k["op"] = rng.random(); k["mode"] = rng.randrange(3); k["len"] = rng.randrange(1 << 20)
    elif x < .6: k["pt"] = rng.random()
    elif x < .75: k["pt"] = 1 - rng.random() ** 3 * .3      # near the end: last save and shutdown
    elif mpi and x < .9: k["pt"] = rng.random(); k["rank"] = rng.random(); k["delay"] = int(10 ** rng.uniform(0, 9))
    else: k["op"] = 1 - rng.random() * .15; k["mode"] = rng.randrange(3); k["len"] = rng.randrange(1 << 20)
    return k


def apply_kill(p, k, s, nranks):
    if "op" in k and s["fsops"]: p["killop"] = "%d %d %d" % (1 + int(k["op"] * s["fsops"]) % s["fsops"], k["mode"], k["len"])
    elif "rank" in k: p["killpt"] = 1 + int(k["pt"] * s["points"]); p["killrank"] = "%d %d" % (int(k["rank"] * nranks), k["delay"])
    else: p["killpt"] = 1 + int(k.get("pt", k.get("op", 0)) * s["points"])


class Kill(Prop):
    """chains of killed runs on one output root, then runs to completion"""
    power = False
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .6) else "mpi"
        j = job(rng, kind, TINY if chance(rng, .96) else MED, nmod=1 if chance(rng, .85) else 2, long=.5)
        steps = []
        for _ in range(pick(rng, [1, 1, 1, 2, 3, 5])):
            steps.append(dict(n=rng.randrange(1, 5), sched=sched(rng, mpi=kind == "mpi"), kill=kill_spec(rng, kind == "mpi"), simT=pick(rng, [0, j["simT"]])))
        return dict(job=j, steps=steps, crashseed=rng.randrange(1 << 62), merge=chance(rng, .1))

    def execute(self, case, ctx):
        j = case["job"]
        crng = random.Random(case["crashseed"])
        for i, s in enumerate(case["steps"]):
            js = dict(j, n=s["n"] if j["kind"] == "threaded" else 1 + s["n"] % 3, sched=s["sched"], simT=s["simT"])
            p = full_plan(case, ctx, js, key="s%d" % i)
            sz = sizes(case, ctx, p, "z%d" % i)
            apply_kill(p, s["kill"], sz, j.get("nranks", 1))
            before = read_tree(ctx.root) if self.power else None
            r = ctx.run(p)
            if r.status == "crash": raise Violation("crash", "run %d: %s" % (i, r.brief()))
            if r.status in HANG: return          # C02/C04's business
            if self.power:
                m = FsModel(before)
                for o in r.ops: m.apply(o)
                if r.torn == 0 and m.tree() != read_tree(ctx.root): raise SimError("file model differs from the directory")
                surv = m.crash_tree(crng)
                ctx.stats.d["powerlosses"] += 1
                if surv != m.tree(): ctx.stats.probe("power loss lost something")
                write_tree(ctx.root, surv)
        final_run(ctx, j, "after %d interrupted runs" % len(case["steps"]))
        t = read_tree(ctx.root)
        try: check_all(t, j["cfgs"])
        except Violation as v: raise Violation(v.cls, "after %s: %s" % ("; ".join("run %d %s" % (i, r.brief()) for i, r in enumerate(ctx.runs[:-1])), v.text))
        if case["merge"]:
            c = j["cfgs"][0]
            b, _ = merge_tree(t, c["path"])
            real_merge(ctx, ctx.root + "/" + c["path"], ctx.root + "/merged", reference(c), b, "census")


class C05(Kill):
    id = "C05"
    real = REAL_T + REAL_M[:1]
    rule = ("Seeded chains of 1-5 runs (threaded or MPI) killed at a drawn instant: before, after or inside the k-th file operation (writes cut anywhere), at any synchronisation point or memory access, "
            "near shutdown, or one rank first and the job later; then a fault-free run, whose results must be exactly the reference census.")
    assumptions = BASIC + ["a kill keeps everything already handed to the kernel; a write in progress may be cut at any byte"]


class C06(Kill):
    id = "C06"
    power = True
    real = REAL_T + REAL_M[:1]
    rule = ("As C05, but every interruption also loses power: what was not synced may be missing, cut, zero-filled or partly written (512-byte sectors); directory changes survive as an ordered prefix (journalling file system) or "
            "one by one (POSIX minimum) unless the directory was synced; then a fault-free run, whose results must be exactly the reference census.")
    assumptions = BASIC + ["fsync of a file makes its data and size durable; fsync of its directory makes its entry durable; nothing else does",
                           "a rename is atomic: old or new entry, never both missing"]


# ---------------------------------------------------------------- C07, C08: failing file operations
WCLS = [(F_OPENW, [ENOSPC, EMFILE, EACCES, EIO, ENOENT, EROFS]), (F_WRITE, [ENOSPC, EIO, EDQUOT]), (F_CLOSE, [EIO, ENOSPC]), (F_FSYNC, [EIO, ENOSPC]), (F_RENAME, [EIO, ENOSPC, EACCES]),
        (F_UNLINK, [EIO]), (F_MKDIR, [ENOSPC, EACCES]), (F_TRUNC, [EIO])]


def write_faults(rng):
    """list of fault descriptions with positions as fractions of the fault-free run's counts"""
    x = rng.random()
    if x < .6:
        c, es = pick(rng, WCLS[:5] if chance(rng, .85) else WCLS)
        return [dict(cls=c, frac=rng.random(), len=pick(rng, [1, 1, 1, 2, 5, 1 << 40]), err=pick(rng, es))]
    if x < .7: return [dict(cap=rng.random())]
    if x < .78: return [dict(cap=0.0)]
    if x < .86: return [dict(short=pick(rng, [.1, .5, .9]))]
    if x < .93: return [dict(short=.5), dict(cls=F_WRITE, frac=rng.random(), len=1, err=ENOSPC)]
    return [dict(prob=pick(rng, [.02, .1, .3]), cls=c, err=pick(rng, es)) for c, es in rng.sample(WCLS, 3)]


def apply_faults(p, fs, sz, total=None):
    f, fp = [], []
    for d in fs:
        if "cap" in d: p["diskcap"] = int(d["cap"] * (total or 4000))
        elif "short" in d: p["pshortw"] = d["short"]
        elif "shortr" in d: p["pshortr"] = d["shortr"]
        elif "prob" in d: fp.append("%d %g %d" % (d["cls"], d["prob"], d["err"]))
        else:
            n = max(1, sz["fscount"][d["cls"]])
            f.append("%d %d %d %d" % (d["cls"], 1 + int(d["frac"] * n) % n, d["len"], d["err"]))
    if f: p["fault"] = f
    if fp: p["fprob"] = fp


class C07(Prop):
    id = "C07"
    real = REAL_T + REAL_M[:1]
    rule = ("Seeded runs (threaded or MPI) in which creating, writing, syncing, closing or renaming result files fails at a drawn operation (once, several times, for good, or with a probability), the disk fills up after a drawn number of bytes, "
            "or writes are short; optionally on top of earlier results and followed by a kill. A run ending with success must hold the exact census; afterwards a fault-free run must.")
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .65) else "mpi"
        j = job(rng, kind, TINY if chance(rng, .97) else MED, nmod=1 if chance(rng, .8) else 2, long=.45, calm=.3)
        return dict(job=j, pre=rng.random() if chance(rng, .3) else None, faults=[write_faults(rng) for _ in range(pick(rng, [1, 1, 1, 2]))])

    def execute(self, case, ctx):
        j = case["job"]
        n = j.get("nranks")
        if case["pre"] is not None:
            p = prog_plan(ctx, j); p.update(seed=3, strat=0, rdseed=99)
            sz = sizes(case, ctx, p, "pre")
            p["killpt"] = 1 + int(case["pre"] * sz["points"])
            ctx.run(p)
        for i, fs in enumerate(case["faults"]):
            p = full_plan(case, ctx, j, key="f%d" % i)
            p["rdseed"] = j["sched"]["rdseed"] + i
            sz = sizes(case, ctx, p, "z%d" % i)
            apply_faults(p, fs, sz)
            r = ctx.run(p)
            if sum(r.fsfired) or r.shortio: ctx.stats.probe("fault fired")
            if r.ok(n):
                ctx.stats.probe("succeeded under faults")
                try: check_all(read_tree(ctx.root), j["cfgs"])
                except Violation as v: raise Violation("success-despite-fault", "the run with %s ends with success; %s: %s" % (fs, v.cls, v.text))
            elif r.status in HANG: ctx.stats.probe("hang under faults")
        final_run(ctx, j, "after a run with %s" % (case["faults"],))
        check_all(read_tree(ctx.root), j["cfgs"], "census-after-fault")


RCLS = [(F_OPENR, [EMFILE, EACCES, EIO, ENFILE]), (F_READ, [EIO]), (F_OPENDIR, [EMFILE, EACCES, EIO]), (F_READDIR, [EIO]), (F_STAT, [EIO, EACCES])]


def read_faults(rng):
    x = rng.random()
    if x < .7:
        c, es = pick(rng, RCLS)
        return [dict(cls=c, frac=rng.random(), len=pick(rng, [1, 1, 1, 3, 1 << 40]), err=pick(rng, es))]
    if x < .85: return [dict(shortr=pick(rng, [.2, .7, 1.0]))]
    return [dict(shortr=.7), dict(cls=F_READ, frac=rng.random(), len=pick(rng, [1, 1 << 40]), err=EIO)]


def earlier_results(rng, mpi):
    return [dict(n=rng.randrange(1, 4), frac=rng.random() ** .5, seed=rng.randrange(1 << 30)) for _ in range(pick(rng, [1, 1, 2, 3]))]


def make_earlier(case, ctx, j, steps, key, simT=1500):
    """several interrupted runs that left results (several record files)"""
    r = None
    for i, s in enumerate(steps):
        js = dict(j, n=s["n"], simT=simT)
        def acc():
            p = prog_plan(ctx, js); p.update(seed=1, strat=0); return aside(ctx, p).memacc
        a = probe(case, ctx, "%s.acc%d" % (key, i), acc)
        p = prog_plan(ctx, js)
        p.update(seed=s["seed"], strat=3, rdseed=s["seed"], csync=1000)
        p["cmem"], p["wspeed"] = speeds(max(1, int(simT * SEC / max(1, a))), 100)
        sz = sizes(case, ctx, p, "%s.z%d" % (key, i))
        if s["frac"] < .95: p["killpt"] = 1 + int(s["frac"] * sz["points"])
        r = ctx.run(p)
    return r


class C08(Prop):
    id = "C08"
    real = REAL_T + REAL_M[:1]
    rule = ("Earlier interrupted runs leave several record files; then a run resumes while opening, listing or reading them fails at a drawn operation (or for good) or returns a few bytes at a time. The run must end; if it ends with success "
            "every package is recorded once and the census is exact; whatever happened, a fault-free run afterwards must give the exact census with every package recorded once.")
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .7) else "mpi"
        j = job(rng, kind, TINY[2:], long=.1, calm=.3)
        c = j["cfgs"][0]
        q = c["p"] ** c["e"]
        if c["pkg"] > q * q: c["pkg"] = q
        return dict(job=j, earlier=earlier_results(rng, False), faults=read_faults(rng))

    def execute(self, case, ctx):
        j = case["job"]
        n = j.get("nranks")
        make_earlier(case, ctx, j, case["earlier"], "e")
        t0 = read_tree(ctx.root)
        b0, _ = merge_tree(t0, j["cfgs"][0]["path"])
        if b0: ctx.stats.probe("resumed from records")
        p = full_plan(case, ctx, j)
        sz = sizes(case, ctx, p, "z")
        apply_faults(p, case["faults"], sz)
        r = ctx.run(p)
        if sum(r.fsfired) or r.shortio: ctx.stats.probe("fault fired")
        check_ends(r, "the resumed run with %s" % case["faults"])
        if r.status == "crash": raise Violation("crash", r.brief())
        if r.ok(n):
            ctx.stats.probe("succeeded under faults")
            try: check_all(read_tree(ctx.root), j["cfgs"])
            except Violation as v: raise Violation("success-despite-fault", "the resumed run with %s ends with success; %s: %s" % (case["faults"], v.cls, v.text))
        elif not (sum(r.fsfired)): raise Violation("fails-without-fault", "the resumed run fails although no operation failed (%s): %s, %s" % (case["faults"], r.brief(), r.log[-200:]))
        final_run(ctx, j, "after a resume with %s" % case["faults"])
        check_all(read_tree(ctx.root), j["cfgs"], "census-after-fault")


# ---------------------------------------------------------------- C09, C10: the files at every instant
_contrib = {}
def contributions(ctx, cfg):
    """counts of every package by itself: runs with every other package already recorded"""
    k = cfg_str(cfg)
    if k in _contrib: return _contrib[k]
    keep = read_tree(ctx.root)
    j = dict(kind="threaded", cfgs=[dict(cfg, path="x")], n=1)
    write_tree(ctx.root, {})
    p = prog_plan(ctx, j, cfgfile="k.yaml"); p.update(seed=1, strat=0)
    aside(ctx, p)
    blocks, _ = merge_tree(read_tree(ctx.root), "x")
    out, tot = {}, {}
    for b in blocks:
        write_tree(ctx.root, {"x": None, "x/1" + REC: "".join(" ".join(map(str, o)) + " \n" for o in blocks if o != b).encode(), "x/1" + STO: b""})
        p = prog_plan(ctx, j, cfgfile="k.yaml"); p.update(seed=1, strat=0)
        r = aside(ctx, p)
        t = read_tree(ctx.root); t.pop("x/1" + REC); t.pop("x/1" + STO)
        bb, cc = merge_tree(t, "x")
        if r.ok() and bb == [b]: out[b] = cc
        else: out[b] = None
        for kk, v in cc.items(): tot[kk] = tot.get(kk, 0) + v
    write_tree(ctx.root, keep)
    if diff_counts(tot, reference(cfg)) or any(v is None for v in out.values()): out = None   # package-wise reruns are unusable: other properties report it
    _contrib[k] = out
    return out


def expect(blocks, con):
    e = {}
    for b in blocks:
        for k, v in con[b].items(): e[k] = e.get(k, 0) + v
    return e


def check_partial(t, pre, con, what):
    b, c = merge_tree(t, pre)
    for x in b:
        if x not in con: raise Violation("unknown-package", "%s: %s is recorded but is not a package of this modulus" % (what, x))
    d = diff_counts(c, expect(b, con))
    if d: raise Violation("record-mismatch", "%s: %d packages recorded, but the saved counts are not theirs: %s" % (what, len(b), "; ".join(d[:3])))
    return b, c


C09CFG = [dict(p=3, e=1, g=1, m=0, c=1, pkg=3, path="m0"), dict(p=5, e=1, g=1, m=0, c=1, pkg=5, path="m0"), dict(p=5, e=1, g=1, m=1, c=2, pkg=3, path="m0"), dict(p=3, e=1, g=2, m=0, c=2, pkg=27, path="m0"), dict(p=7, e=1, g=1, m=0, c=1, pkg=7, path="m0")]


class C09(Prop):
    id = "C09"
    real = REAL_T + REAL_M[:1] + REAL_G[:1]
    rule = ("Seeded threaded and MPI runs with intermediate saves, on empty or earlier results, some killed: after every single file operation of the run the visible files are merged by the model and must be exactly the sum of the recorded packages' own counts, "
            "each recorded once. In part of the cases hycu-merger itself runs beside the computing job, starting at a drawn time; it must fail or output an exact partial census.")
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .6) else "mpi"
        j = job(rng, kind, TINY[:1], long=.8)
        j["cfgs"] = [dict(pick(rng, C09CFG))]
        case = dict(job=j, earlier=earlier_results(rng, False) if chance(rng, .3) else [])
        if chance(rng, .3): case["kill"] = kill_spec(rng, kind == "mpi")
        elif chance(rng, .5):
            case["merger"] = dict(at=rng.random() if chance(rng, .4) else None, op=rng.random(), seed=rng.randrange(1 << 30))
            if chance(rng, .5): j["sched"].update(strat=1, psw=pick(rng, [.3, .6]))
        return case

    def execute(self, case, ctx):
        j = case["job"]
        cfg = j["cfgs"][0]
        con = contributions(ctx, cfg)
        if con is None:
            ctx.stats.probe("packages cannot be recomputed one by one"); return
        make_earlier(case, ctx, j, case["earlier"], "e")
        t0 = read_tree(ctx.root)
        check_partial(t0, cfg["path"], con, "after interrupted runs")
        p = full_plan(case, ctx, j)
        sz = sizes(case, ctx, p, "z")
        n = j.get("nranks", 1)
        if "kill" in case: apply_kill(p, case["kill"], sz, n)
        if "merger" in case:
            m = case["merger"]
            if not t0.get(cfg["path"] + "/") and cfg["path"] not in t0: os.makedirs(ctx.root + "/" + cfg["path"], exist_ok=True)
            t0 = read_tree(ctx.root)
            def when():
                r = aside(ctx, p)
                l = [o.now for o in r.ops if o.t in "OWRC"]
                return l or [0]
            ts = probe(case, ctx, "when", when)
            at = int(m["at"] * sz["now"]) if m["at"] is not None else ts[int(m["op"] * len(ts))]
            p["extras"] = 1
            p["lib"] = (p["lib"] if isinstance(p["lib"], list) else [p["lib"]] * n) + ["t_merger"]
            os.makedirs(ctx.root + "/out", exist_ok=True)
            p["rarg"] = ["%d %s" % (n, x) for x in ("hycu-merger", ctx.root + "/" + cfg["path"], ctx.root + "/out/merged")]
            p["startdelay"] = "%d %d" % (n, max(1, at - m["seed"] % 3000000))
            t0 = read_tree(ctx.root)
        r = ctx.run(p)
        if r.status in HANG or r.status == "crash": return
        m, k, last = FsModel(t0), 0, None
        for o in r.ops:
            m.apply(o)
            if o.t not in "OWRULTtC" : continue
            k += 1
            t = m.tree()
            b, c = check_partial(t, cfg["path"], con, "after file operation %d (%r)" % (k, o))
            ctx.stats.probe("instants checked")
            if b and len(b) < len(con): ctx.stats.probe("instants with a partial record")
        t1 = read_tree(ctx.root)
        if r.torn == 0 and m.tree() != t1: raise SimError("file model differs from the directory")
        check_partial(t1, cfg["path"], con, "at the end")
        if "merger" in case and len(r.ranks) > n:
            x = r.ranks[n]
            if x[0] and x[1] == 0 and not x[2]:
                if "out/merged" + REC not in t1: raise Violation("merger-no-output", "the merger beside the run ends with success but leaves no record")
                b, c = check_partial({"o" + REC: t1["out/merged" + REC], "o" + STO: t1.get("out/merged" + STO)}, "", con, "output of the merger beside the run")
                ctx.stats.probe("merger beside the run succeeded" + (" (partial)" if 0 < len(b) < len(con) else ""))
            else: ctx.stats.probe("merger beside the run failed")


class C10(Prop):
    id = "C10"
    real = REAL_T + REAL_M[:1]
    rule = ("Seeded runs on top of earlier, partly or wholly finished results, with random numbers drawn so that file names collide with existing ones, some killed or with failing writes: no file operation may write to, truncate, replace or remove a result file that existed "
            "before or whose record the run has completed; on complete results a run must record no package and leave the merged counts unchanged.")
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .65) else "mpi"
        j = job(rng, kind, TINY, nmod=1 if chance(rng, .8) else 2, long=.5)
        case = dict(job=j, complete=chance(rng, .4), earlier=earlier_results(rng, False), collide=chance(rng, .7), rdmod=pick(rng, [0, 0, 2, 4, 8, 33]), after=rng.randrange(1, 3))
        if chance(rng, .2): case["kill"] = kill_spec(rng, kind == "mpi")
        elif chance(rng, .15): case["faults"] = write_faults(rng)
        if chance(rng, .2):                       # nearly every package is saved by itself, also those without any curve
            c = j["cfgs"] = [dict(modulus(rng, TINY[:2], "m0", pkg=pick(rng, [1, 1, 2])))]
            case["fine"] = pick(rng, [20000, 40000, 80000]); case["complete"] = True
            if chance(rng, .7): case["earlier"][-1]["frac"] = 1.0
        return case

    def execute(self, case, ctx):
        j = case["job"]
        r = make_earlier(case, ctx, j, case["earlier"], "e", case.get("fine", 1500))
        if case["complete"]:
            if not r.ok(j.get("nranks")): final_run(ctx, j, "preparation")
            def everything():                     # the packages of every modulus, as a run by itself lists them
                write_tree(ctx.root, {})
                pp = prog_plan(ctx, j, cfgfile="k.yaml"); pp.update(seed=1, strat=0)
                aside(ctx, pp)
                t = read_tree(ctx.root)
                return {c["path"]: sorted(merge_tree(t, c["path"])[0]) for c in j["cfgs"]}
            alls = probe(case, ctx, "alls", everything)
            t = read_tree(ctx.root)
            for path, l in alls.items():
                b = sorted(map(list, merge_tree(t, path)[0]))
                if b != sorted(map(list, l)): raise Violation("not-complete", "%s: after a successful run %d of %d packages are recorded, the others would be computed again" % (path, len(b), len(l)))
        for rep in range(case["after"]):
            t0 = read_tree(ctx.root)
            before = {c["path"]: merge_tree(t0, c["path"]) for c in j["cfgs"]}
            p = full_plan(case, ctx, j, key="r%d" % rep)
            if case["collide"]: p["rdseed"] = case["earlier"][0]["seed"]
            if case["rdmod"]: p["rdmod"] = case["rdmod"]
            if rep == 0 and ("kill" in case or "faults" in case):
                sz = sizes(case, ctx, p, "z")
                if "kill" in case: apply_kill(p, case["kill"], sz, j.get("nranks", 1))
                else: apply_faults(p, case["faults"], sz)
            r = ctx.run(p)
            if r.status in HANG or r.status == "crash": return
            frozen = {k: "existed before the run" for k, v in t0.items() if v is not None and k.endswith((REC, STO))}
            m = FsModel(t0)
            def touch(path, how, o):
                if path in frozen: raise Violation("touches-result", "%s %s, which %s (%r)" % (how, path, frozen[path], o))
            hp, wrote = {}, {}
            for o in r.ops:
                if o.t == "O": hp[o.h] = o.d1.decode(); touch(hp[o.h], "opens for writing", o)
                elif o.t == "W": touch(hp[o.h], "writes to", o); wrote[hp[o.h]] = 1
                elif o.t == "T": touch(hp[o.h], "truncates", o)
                elif o.t in "t": touch(o.d1.decode(), "truncates", o)
                elif o.t in "U": touch(o.d1.decode(), "removes", o)
                elif o.t == "R": touch(o.d1.decode(), "renames", o); touch(o.d2.decode(), "replaces", o)
                elif o.t == "L": touch(o.d2.decode(), "replaces", o)
                m.apply(o)
                done = None
                if o.t == "C" and hp.get(o.h, "").endswith(REC) and wrote.get(hp[o.h]): done = hp[o.h]
                if o.t in "RL" and o.d2.decode().endswith(REC): done = o.d2.decode()
                if done:
                    frozen[done] = "the run had completed"; frozen[done[:-len(REC)] + STO] = "the run had completed"
            t1 = read_tree(ctx.root)
            for k, v in t0.items():
                if v is not None and k.endswith((REC, STO)) and t1.get(k) != v: raise Violation("changed-result", "%s is changed or gone" % k)
            if any(o.t == "o" and False for o in r.ops): pass
            n0 = len([1 for k in t0 if k.endswith(REC)]); n1 = len([1 for k in t1 if k.endswith(REC)])
            if case["complete"] and not case.get("faults") and not case.get("kill"):
                for c in j["cfgs"]:
                    b, cc = merge_tree(t1, c["path"])
                    if sorted(b) != sorted(before[c["path"]][0]): raise Violation("not-a-noop", "%s: %d packages recorded before, %d after a rerun of the complete modulus" % (c["path"], len(before[c["path"]][0]), len(b)))
                    d = diff_counts(cc, before[c["path"]][1])
                    if d: raise Violation("not-a-noop", "%s: rerunning the complete modulus changes counts: %s" % (c["path"], d[:3]))
                if not r.ok(j.get("nranks")): raise Violation("noop-fails", "rerunning a complete configuration ends with %s: %s" % (r.brief(), r.log[-200:]))
                ctx.stats.probe("no-op reruns")
            if case["collide"]: ctx.stats.probe("runs with colliding names")


# ---------------------------------------------------------------- C11: saving every five minutes
class C11(Prop):
    id = "C11"
    real = REAL_T + REAL_M[:1]
    rule = ("Seeded long runs (20-200 simulated minutes) on a fair schedule with packages far shorter than five minutes, while the wall clock is set forwards and backwards at random: between any two saves that complete, from the start to the first and from the last one to the end no more than five minutes "
            "plus the bound for waiting hand-outs may pass, and at each save the number of packages on disk must be what the threads had finished up to that bound.")
    assumptions = BASIC + ["compute speed is uniform and the schedule fair, so that finished packages can be counted by simulated time"]
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .55) else "mpi"
        p, e, g, c, pkg = pick(rng, [(5, 1, 2, 2, 5), (5, 1, 2, 2, 5), (3, 1, 3, 3, 9), (3, 1, 3, 2, 9), (5, 1, 2, 1, 5), (5, 1, 2, 2, 25), (3, 1, 3, 3, 27)])
        m = rng.randrange(2) if pkg != 25 else 0
        cfg = dict(p=p, e=e, g=g, m=m, c=c, pkg=pkg, path="m0")
        s = dict(seed=rng.randrange(1 << 62), cseed=1, rdseed=rng.randrange(1 << 62), strat=3, csync=1000, quantum=100)
        if chance(rng, .75): s["pclock"] = pick(rng, [.0005, .005, .05]); s["clockmax"] = int(10 ** rng.uniform(9, 13.5))
        if chance(rng, .3): s["tbase"] = pick(rng, [1, 1000000000, 4102444800])
        if kind == "mpi":
            s.update(dbase=1000, djit=pick(rng, [0, 1000000]), skew=pick(rng, [0, 3600 * SEC]), eager=pick(rng, [0, 4096, 1 << 40]))
        cfgs = [cfg]
        if chance(rng, .4):                       # moduli that take little time before, between or after
            for i in range(rng.randrange(1, 9)):
                cfgs.insert(rng.randrange(len(cfgs) + 1) if chance(rng, .3) else 0, dict(modulus(rng, TINY[:7], "s%d" % i, pkg=pick(rng, [9, 30, 1000])), cexp=1))
        j = dict(kind=kind, cfgs=cfgs, n=rng.randrange(1, 5), sched=s, single=0)
        if kind == "mpi": j["nranks"] = rng.randrange(1, 5); j["n"] = rng.randrange(1, 3)
        workers = j["n"] * j.get("nranks", 1)
        return dict(job=j, minutes=pick(rng, [12, 16, 20, 30, 45, 60, 90]) if pkg < 25 else pick(rng, [12, 16, 20]))

    def execute(self, case, ctx):
        j = case["job"]
        def base():
            p = prog_plan(ctx, j); p.update(seed=1, strat=0)
            r = aside(ctx, p)
            return {"acc": r.memacc, "blocks": len(merge_tree(read_tree(ctx.root), "m0")[0])}
        b = probe(case, ctx, "base", base)
        workers = j["n"] * j.get("nranks", 1)
        p = prog_plan(ctx, j); p.update(j["sched"])
        p["cmem"] = max(1, int(case["minutes"] * 60 * SEC / b["acc"] / 100)); p["wspeed"] = 100
        p["busy"] = 1
        r = ctx.run(p)
        if not r.ok(j.get("nranks")): ctx.stats.probe("did not succeed"); return
        dmax = max(r.maxbusy, max((d for _, d in r.busy), default=0)) / SEC
        if dmax > 100: ctx.stats.probe("packages too long to judge"); return
        saves = []                             # (time, packages on disk)
        m = FsModel({})
        for o in r.ops:
            m.apply(o)
            if (o.t == "C" and m.handles.get(o.h, (0, ""))[1].endswith(REC)) or (o.t in "RL" and o.d2.decode().endswith(REC)):
                n = 0
                for k, v in m.tree().items():
                    if v and k.endswith(REC): n += len(parse_record(v))
                path = (o.d2.decode() if o.t in "RL" else m.handles[o.h][1]).rpartition("/")[0]
                saves.append((o.now / SEC, n, path))
        T = workers
        last = 0.0
        final = {path: t for t, n, path in saves}
        for t, n, path in saves:
            # between two hand-outs at most one package; after the last one of a modulus another
            if t - last > 300 + (2.2 * dmax + 15 if t > final[path] - 60 else 1.2 * dmax + 10):
                raise Violation("save-late", "no save between %.1f s and %.1f s of simulated time (packages take at most %.1f s, %d working threads)" % (last, t, dmax, T))
            last = t
        ctx.stats.probe("gaps checked", len(saves))
        # contents: a save has what had been finished then. Working threads wait only between packages, so the time they
        # had worked up to their last wait before the save, divided by the longest package, is a number of packages.
        groups = []
        for t, n, path in saves:
            if groups and t - groups[-1][1] < 60: groups[-1] = (groups[-1][0], t, n)
            else: groups.append((t, t, n))
        for t0, t1, n in groups:
            floor = sum(d for e, d in r.busy if e / SEC < t0 and d / SEC > .01 * dmax) / SEC / dmax - 1
            if n < floor:
                raise Violation("save-incomplete", "the save at %.1f s leaves %d packages on disk; %d threads with packages of at most %.2f s had finished at least %d" % (t0, n, T, dmax, int(floor)))
            ctx.stats.probe("saves checked")
            if floor > n / 3: ctx.stats.probe("saves with a tight floor")


# ---------------------------------------------------------------- C12: several moduli
class C12(Prop):
    id = "C12"
    real = REAL_T + REAL_M[:1]
    rule = ("Seeded threaded and MPI runs of 2-4 moduli in drawn order (also the same one repeated, or already complete or partial from earlier runs), under the schedules of C01/C03: every modulus's directory must hold exactly its own reference census.")
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .55) else "mpi"
        j = job(rng, kind, TINY if chance(rng, .97) else MED, nmod=rng.randrange(2, 5), long=.25)
        j["single"] = 0
        cs = j["cfgs"]
        if chance(rng, .3): cs.insert(rng.randrange(len(cs) + 1), dict(pick(rng, cs)))
        if chance(rng, .2): cs[-1] = dict(cs[0], path="other", m=cs[0]["m"])
        return dict(job=j, pre=[rng.randrange(len(cs)) for _ in range(pick(rng, [0, 0, 1, 2]))], prefrac=rng.random(), merge=chance(rng, .1))

    def execute(self, case, ctx):
        j = case["job"]
        for i, k in enumerate(case["pre"]):
            jj = dict(j, cfgs=[j["cfgs"][k]])
            p = prog_plan(ctx, jj); p.update(seed=5, strat=0, rdseed=4242 + i)
            if i == 1:
                sz = sizes(case, ctx, p, "pre"); p["killpt"] = 1 + int(case["prefrac"] * sz["points"])
            ctx.run(p)
        r = ctx.run(full_plan(case, ctx, j))
        if not r.ok(j.get("nranks")): ctx.stats.probe("did not succeed"); return
        t = read_tree(ctx.root)
        check_all(t, j["cfgs"])
        paths = {c["path"] for c in j["cfgs"]}
        for k, v in t.items():
            if v and k.endswith((REC, STO)) and k.rpartition("/")[0] not in paths: raise Violation("stray-result", "%s is outside the moduli's directories" % k)
        ctx.stats.probe("moduli compared", len(paths))


# ---------------------------------------------------------------- C13, C14: merging
def big_count(rng):
    x = rng.random()
    if x < .35: return rng.randrange(1, 1000)
    if x < .5: return (1 << 62) + rng.randrange(-3, 4)
    if x < .6: return (1 << 63) + rng.randrange(-3, 4)
    if x < .7: return (1 << 64) + rng.randrange(-3, 4)
    if x < .8: return rng.randrange(1, 1 << rng.randrange(2, 400))
    return rng.randrange(1 << 58, 1 << 66)


def key_text(rng):
    ram = ",".join(str(x) for x in sorted(rng.randrange(1, 5) for _ in range(rng.randrange(1, 6))))
    hw = ",".join(str(rng.randrange(-30, 31)) for _ in range(rng.randrange(1, 4)))
    return ram + ";" + hw


def merge_inputs(rng):
    """files of an input folder, as they could come from runs or merges"""
    files = {}
    keys = [key_text(rng) for _ in range(rng.randrange(1, 12))]
    dim = rng.randrange(1, 6)
    seen = set()
    for f in range(pick(rng, [0, 1, 2, 2, 3, 5, 8, 14])):
        name = str(rng.randrange(1, 1 << 62))
        blocks = []
        for _ in range(pick(rng, [0, 1, 2, 5, 40, 300])):
            b = tuple(x for _ in range(dim) for x in (lambda a: (a, a + rng.randrange(1, 30)))(rng.randrange(0, 500)))
            if b not in seen: seen.add(b); blocks.append(b)
        counts = {k: big_count(rng) for k in keys if chance(rng, .7)} if blocks or chance(rng, .5) else {}
        if len(blocks) > 200:
            for _ in range(400): counts[key_text(rng)] = rng.randrange(1, 1 << 40)
        blocks.sort()
        if not blocks: counts = {}
        files[name + REC] = "".join(" ".join(map(str, b)) + " \n" for b in blocks) + ("\n" if chance(rng, .0) else "")
        files[name + STO] = "".join("%s:%d\n" % (k, counts[k]) for k in sorted(counts))
    for _ in range(pick(rng, [0, 0, 1, 2])):      # stores whose record was never written
        files[str(rng.randrange(1, 1 << 62)) + STO] = "".join("%s:%d\n" % (k, big_count(rng)) for k in keys)
    if chance(rng, .2): files["notes.txt"] = "hello\n"
    if chance(rng, .2): files["1234.hycu_record.tmp"] = "1 2 3\n"
    return files


def want_of(t, pre):
    return merge_tree(t, pre)


def check_output(t, name, want, what):
    if t.get(name + REC) is None: raise Violation("no-output", "%s: success, but %s is missing" % (what, name + REC))
    if t.get(name + STO) is None: raise Violation("no-output", "%s: success, but %s is missing" % (what, name + STO))
    b, c = merge_tree({"o" + REC: t[name + REC], "o" + STO: t[name + STO]})
    d = diff_counts(c, want[1])
    if d: raise Violation("wrong-sum", "%s: %d keys differ; %s" % (what, len(d), "; ".join(x[:150] for x in d[:3])))
    if sorted(b) != sorted(want[0]): raise Violation("wrong-record", "%s: %d packages listed instead of %d" % (what, len(b), len(want[0])))


class C13(Prop):
    id = "C13"
    real = REAL_G
    rule = ("Seeded input folders (0-14 file pairs, counts up to 400 bits, stores without records, unrelated files) merged with a drawn listing order and reads and writes cut short at random; in part of the cases the files are regrouped over two folders whose merges are merged again. "
            "The output must be the union of the packages and the exact sums.")
    def gen(self, rng, idx, tier):
        return dict(inseed=rng.randrange(1 << 60), s=dict(seed=rng.randrange(1 << 62), strat=1, shuffle=1, pshortr=pick(rng, [0, .1, .6, 1.0]), pshortw=pick(rng, [0, .1, .6]), rdseed=rng.randrange(1 << 60)),
                    split=chance(rng, .4), out=pick(rng, ["out", "sub/out", "a.b"]))

    def execute(self, case, ctx):
        rng = random.Random(case["inseed"])
        files = merge_inputs(rng)
        t = {"in": None}
        for k, v in files.items(): t["in/" + k] = v.encode()
        if "/" in case["out"]: t[case["out"].rpartition("/")[0]] = None
        want = want_of(t, "in")
        def merge(src, dst):
            r = ctx.run(dict(merger_plan(ctx, ctx.root + "/" + src, ctx.root + "/" + dst), **case["s"]))
            if not r.ok(): raise Violation("merge-fails", "hycu-merger ends with %s: %s" % (r.brief(), r.log[-200:]))
            tt = read_tree(ctx.root)
            for k, v in t.items():
                if v is not None and tt.get(k) != v: raise Violation("input-changed", k)
            return tt
        if not case["split"]:
            write_tree(ctx.root, t)
            check_output(merge("in", case["out"]), case["out"], want, "merge of %d files" % len(files))
            ctx.stats.probe("plain merges")
            return
        for d in ("a", "b", "c"): t[d] = None
        for k in sorted(files):
            stem = k.split(".")[0]
            d = "ab"[hash_str(stem) % 2]
            t[d + "/" + k] = files[k].encode()
        write_tree(ctx.root, t)
        for d in "ab":
            tt = merge(d, "c/" + d)
            check_output(tt, "c/" + d, want_of(t, d), "merge of folder " + d)
        tt = merge("c", case["out"])
        check_output(tt, case["out"], want, "merge of two merges")
        ctx.stats.probe("merges of merges")


def hash_str(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


class C14(Prop):
    id = "C14"
    real = REAL_G
    rule = ("Seeded merges (as C13) in which reading an input or writing an output fails at a drawn operation, or the merger is killed before, after or inside a drawn file operation, optionally losing power, also with the output of an earlier merge in place: success implies complete output; "
            "an output record implies complete output; inputs stay as they were; a fault-free merge afterwards gives the complete output.")
    assumptions = C06.assumptions
    def gen(self, rng, idx, tier):
        case = dict(inseed=rng.randrange(1 << 60), s=dict(seed=rng.randrange(1 << 62), strat=1, shuffle=1, pshortr=pick(rng, [0, 0, .3]), pshortw=pick(rng, [0, 0, .3])), old=chance(rng, .3), crashseed=rng.randrange(1 << 60))
        x = rng.random()
        if x < .3: case["faults"] = read_faults(rng)
        elif x < .6: case["faults"] = write_faults(rng)
        else: case["kill"] = dict(op=rng.random(), mode=rng.randrange(3), len=rng.randrange(1 << 20))
        if x > .75 or chance(rng, .15): case["power"] = True
        return case

    def execute(self, case, ctx):
        rng = random.Random(case["inseed"])
        files = merge_inputs(rng)
        t = {"in": None}
        for k, v in files.items(): t["in/" + k] = v.encode()
        if case["old"]:                           # an earlier merge of fewer inputs
            some = {k: v for k, v in t.items() if v is None or hash_str(k.split(".")[0]) % 3}
            write_tree(ctx.root, some)
            r = ctx.run(dict(merger_plan(ctx, ctx.root + "/in", ctx.root + "/out"), seed=1, strat=0))
            if not r.ok(): raise Violation("merge-fails", r.brief())
            oldt = read_tree(ctx.root)
            for k in ("out" + REC, "out" + STO): t[k] = oldt[k]
            oldwant = want_of(some, "in")
        want = want_of(t, "in")
        write_tree(ctx.root, t)
        p = dict(merger_plan(ctx, ctx.root + "/in", ctx.root + "/out"), **case["s"])
        sz = sizes(case, ctx, p, "z")
        if "faults" in case: apply_faults(p, case["faults"], sz, 3000)
        if "kill" in case: apply_kill(p, case["kill"], sz, 1)
        r = ctx.run(p)
        if sum(r.fsfired): ctx.stats.probe("fault fired")
        what = "merge with %s" % (case.get("faults") or ("kill %s" % p.get("killop", p.get("killpt"))))
        check_ends(r, what)
        if r.status == "crash": raise Violation("crash", r.brief())
        tt = read_tree(ctx.root)
        if r.ok():
            check_output(tt, "out", want, "success of a " + what)
            ctx.stats.probe("succeeded under faults")
        if case.get("power"):
            m = FsModel(t)
            for o in r.ops: m.apply(o)
            if r.torn == 0 and m.tree() != tt: raise SimError("file model differs from the directory")
            surv = m.crash_tree(random.Random(case["crashseed"]))
            ctx.stats.d["powerlosses"] += 1
            for k in t:                           # inputs were durable
                if k.startswith("in/") and surv.get(k) != t[k]: raise Violation("input-changed", "after power loss: " + k)
            write_tree(ctx.root, surv); tt = surv
            what += " and power loss"
        for k, v in t.items():
            if k.startswith("in/") and tt.get(k) != v: raise Violation("input-changed", k)
        if tt.get("out" + REC) is not None:
            ok = False
            for w in [want] + ([oldwant] if case["old"] else []):
                try: check_output(tt, "out", w, what); ok = True
                except Violation as v: err = v
            if not ok: raise Violation("bad-output-record", "after a %s (%s) an output record exists, but: %s: %s" % (what, r.brief(), err.cls, err.text))
        r = ctx.run(dict(merger_plan(ctx, ctx.root + "/in", ctx.root + "/out"), seed=2, strat=0))
        if not r.ok(): raise Violation("rerun-fails", "merging again after a %s ends with %s: %s" % (what, r.brief(), r.log[-200:]))
        check_output(read_tree(ctx.root), "out", want, "merging again after a " + what)


# ---------------------------------------------------------------- C15: data races
class C15(Prop):
    id = "C15"
    real = REAL_T + REAL_M[:1]
    rule = ("Seeded threaded and MPI runs (one or two moduli, resumed or fresh, saves during the run) with every memory access of /repo's code and of the C++ templates compiled into it checked against the happens-before order of the simulated synchronisation; "
            "a race or a crash by signal is a violation.")
    def gen(self, rng, idx, tier):
        if chance(rng, .1): return dict(merger=rng.randrange(1 << 60), seed=rng.randrange(1 << 60))
        kind = "threaded" if chance(rng, .6) else "mpi"
        j = job(rng, kind, MED if chance(rng, .06) else TINY, nmod=1 if chance(rng, .5) else 2, long=.5)
        if chance(rng, .5): j["sched"].update(strat=1, psw=.3, gap=pick(rng, [300, 3000]))
        return dict(job=j, pre=rng.random() if chance(rng, .2) else None)

    def execute(self, case, ctx):
        if "merger" in case:
            t = {"in": None}
            for k, v in merge_inputs(random.Random(case["merger"])).items(): t["in/" + k] = v.encode()
            write_tree(ctx.root, t)
            p = dict(merger_plan(ctx, ctx.root + "/in", ctx.root + "/out"), lib="t_merger", seed=case["seed"], strat=1, shuffle=1, pshortr=.1, race=1)
        else:
            j = case["job"]
            if case["pre"] is not None:
                p = prog_plan(ctx, j); p.update(seed=3, strat=0, rdseed=99)
                sz = sizes(case, ctx, p, "pre"); p["killpt"] = 1 + int(case["pre"] * sz["points"])
                ctx.run(p)
            p = full_plan(case, ctx, j); p["race"] = 1
        r = ctx.run(p)
        if r.status == "crash": raise Violation("crash", r.brief())
        out = [x for x in r.races if x[0].startswith("outside")]
        if out:
            x = out[0]
            raise Violation("dead-memory", "%d accesses outside of live allocations; first: %s; freed or allocated at %s, accessed at %s" % (len(out), x[0], symbol(x[1][0]), symbol(x[1][1])))
        if r.races:
            x = r.races[0]
            raise Violation("data-race", "%d races; first: %s at %s" % (len(r.races), x[0], " / ".join(symbol(pc) for pc in x[1])))
        ctx.stats.probe("accesses checked", r.memacc)


def symbol(s):
    f = s.split()
    try:
        lib, _, off = f[0].partition("+")
        o = subprocess.run(["addr2line", "-Cfs", "-e", lib, off], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        return "%s (%s)" % (o[0][:160], o[1])
    except Exception: return s[:200]


# ---------------------------------------------------------------- C16: memory and threads
class C16(Prop):
    id = "C16"
    real = REAL_T + REAL_M[:1] + REAL_G[:1]
    rule = ("Seeded threaded and MPI runs and merges in which one, some or all memory allocations from a drawn one on fail, or a thread cannot be created: the program must end; if it ends with success the results are exact; otherwise a run with resources available must then give the exact results.")
    def gen(self, rng, idx, tier):
        x = rng.random()
        kind = "merger" if x < .25 else "threaded" if x < .75 else "mpi"
        f = dict(frac=rng.random() if chance(rng, .6) else 1 - rng.random() ** 2 * .3, len=pick(rng, [1, 1, 1, 2, 10, 300]))
        if kind == "merger": return dict(merger=dict(inseed=rng.randrange(1 << 60)), alloc=f, seed=rng.randrange(1 << 60))
        j = job(rng, kind, TINY, long=.3, calm=.3)
        case = dict(job=j)
        if chance(rng, .12): case["thr"] = dict(ord=rng.randrange(1, 6), len=pick(rng, [1, 100]))
        else: case["alloc"] = f
        return case

    def execute(self, case, ctx):
        if "merger" in case:
            files = merge_inputs(random.Random(case["merger"]["inseed"]))
            t = {"in": None}
            for k, v in files.items(): t["in/" + k] = v.encode()
            want = want_of(t, "in")
            write_tree(ctx.root, t)
            p = dict(merger_plan(ctx, ctx.root + "/in", ctx.root + "/out"), seed=case["seed"], strat=0)
            sz = sizes(case, ctx, p, "z")
            p["alloc"] = "%d %d" % (1 + int(case["alloc"]["frac"] * sz["allocs"]), case["alloc"]["len"])
            r = ctx.run(p)
            what = "a merge with allocation %s of %d failing" % (p["alloc"], sz["allocs"])
            check_ends(r, what)
            if r.ok(): check_output(read_tree(ctx.root), "out", want, what); ctx.stats.probe("succeeded under faults")
            tt = read_tree(ctx.root)
            if tt.get("out" + REC) is not None:
                try: check_output(tt, "out", want, what)
                except Violation as v: raise Violation("bad-output-record", "after %s (%s) an output record exists, but: %s: %s" % (what, r.brief(), v.cls, v.text))
            r = ctx.run(dict(merger_plan(ctx, ctx.root + "/in", ctx.root + "/out"), seed=2, strat=0))
            if not r.ok(): raise Violation("rerun-fails", r.brief())
            check_output(read_tree(ctx.root), "out", want, "merging again after " + what)
            return
        j = case["job"]
        n = j.get("nranks")
        p = full_plan(case, ctx, j)
        sz = sizes(case, ctx, p, "z")
        if "thr" in case: p["thrfail"] = "%d %d" % (case["thr"]["ord"], case["thr"]["len"]); what = "a run in which thread %d cannot be created" % case["thr"]["ord"]
        else:
            p["alloc"] = "%d %d" % (1 + int(case["alloc"]["frac"] * sz["allocs"]), case["alloc"]["len"])
            what = "a run with allocation %s of %d failing" % (p["alloc"], sz["allocs"])
        r = ctx.run(p)
        if r.fired[7] or r.fired[8] or r.fired[9]: ctx.stats.probe("resource failure fired")
        if sz["status"] == "exit": check_ends(r, what)
        elif r.status in HANG: return
        if r.status == "crash": raise Violation("crash", "%s: %s" % (what, r.brief()))
        if r.ok(n):
            ctx.stats.probe("succeeded under faults")
            try: check_all(read_tree(ctx.root), j["cfgs"])
            except Violation as v: raise Violation("success-despite-fault", "%s ends with success; %s: %s" % (what, v.cls, v.text))
        final_run(ctx, j, "after " + what)
        check_all(read_tree(ctx.root), j["cfgs"], "census-after-fault")


# ---------------------------------------------------------------- C22: the work is shared
class C22(Prop):
    id = "C22"
    real = REAL_T + REAL_M[:1]
    rule = ("Seeded pairs of runs of about an hour on a fair schedule where every working thread has a processor of its own: one with a single working thread, one with 2-8 working threads (threads, ranks or both; the number given or taken from the number of processors), "
            "from an empty or a partly filled output root, with moduli that take little time around the large one and steps of the wall clock. The second has to end well before N-1 threads could have done the work.")
    assumptions = BASIC + ["compute speed is uniform and the schedule fair; each working thread has its own processor (simulated time advances by the work divided by the number of threads that work)"]
    def gen(self, rng, idx, tier):
        kind = "threaded" if chance(rng, .5) else "mpi"
        p, e, g, c, pkg, m = pick(rng, [(5, 1, 2, 2, 5, 0), (5, 1, 2, 2, 5, 1), (3, 1, 2, 2, 1, 0), (3, 1, 3, 2, 3, 0), (3, 1, 3, 3, 9, 0), (5, 1, 2, 1, 5, 0), (5, 1, 2, 2, 3, 0)])
        cfgs = [dict(p=p, e=e, g=g, m=m, c=c, pkg=pkg, path="m0", cexp=rng.randrange(2))]
        if chance(rng, .3):
            for i in range(rng.randrange(1, 5)):
                cfgs.insert(rng.randrange(len(cfgs) + 1), dict(modulus(rng, TINY[:5], "s%d" % i, pkg=pick(rng, [30, 1000])), cexp=1))
        nr, n = 1, pick(rng, [2, 2, 3, 3, 4, 4, 6, 8])
        if kind == "mpi": nr, n = pick(rng, [(1, 2), (1, 3), (1, 4), (2, 1), (3, 1), (4, 1), (2, 2), (2, 2), (1, 6), (2, 3), (2, 4), (4, 2)])
        few = chance(rng, .2)
        if few:                                # fewer packages than threads, before there are more
            cfgs[:0] = [dict(p=3, e=1, g=1, m=1, c=rng.randrange(1, 3), pkg=1000, path="f%d" % i, cexp=1) for i in range(rng.randrange(1, 3))]
            nr, n = (1, 8) if kind == "threaded" else pick(rng, [(1, 8), (2, 4), (4, 2)])
        s = dict(strat=3, quantum=100, csync=1000, par=1, dbase=1000, djit=pick(rng, [0, 1000000]), eager=pick(rng, [0, 4096, 1 << 40]))
        if chance(rng, .4): s["pclock"] = pick(rng, [.0005, .005]); s["clockmax"] = int(10 ** rng.uniform(9, 13.5))
        if chance(rng, .5): s["mpirand"] = 1
        j = dict(kind=kind, cfgs=cfgs, n=n, nranks=nr, sched=s, single=0)
        return dict(job=j, uneven=0 if few else pick(rng, [0, 0, 1, 2]), seeds=[rng.randrange(1 << 62) for _ in range(3)], auto=chance(rng, .35), earlier=[rng.uniform(.05, .5)] if chance(rng, .35) else [], minutes=pick(rng, [40, 60, 90]))

    def execute(self, case, ctx):
        j = case["job"]
        one = dict(j, n=1, nranks=1)
        N = j["n"] * j["nranks"]
        if case["earlier"]: make_earlier(case, ctx, one, [dict(n=1, frac=case["earlier"][0], seed=case["seeds"][2])], "e")
        done = len(merge_tree(read_tree(ctx.root), "m0")[0])
        def plan(jj, k):
            p = prog_plan(ctx, jj); p.update(j["sched"], seed=case["seeds"][k], rdseed=case["seeds"][k], wspeed=100)
            if case["auto"]: p["ncpu"] = jj["n"]; p["arg"] = p["arg"][:-2]
            return p
        def base():
            p = prog_plan(ctx, one); p.update(seed=1, strat=0)
            r = aside(ctx, p)
            return {"acc": r.memacc, "blocks": len(merge_tree(read_tree(ctx.root), "m0")[0]) - done, "ok": r.ok(1 if j["kind"] == "mpi" else None)}
        b = probe(case, ctx, "base", base)
        def others():                          # moduli that may be one package each
            js = dict(one, cfgs=[c for c in j["cfgs"] if c["path"] != "m0"])
            if not js["cfgs"]: return 0
            p = prog_plan(ctx, js); p.update(seed=1, strat=0)
            return aside(ctx, p).memacc
        small = min(1, 1.3 * probe(case, ctx, "others", others) / max(1, b["acc"]))
        cmem = max(1, int(case["minutes"] * 60 * SEC / max(1, b["acc"]) / 100))
        def alone():
            p = plan(one, 0); p["cmem"] = cmem
            r = aside(ctx, p)
            return {"T": r.now / SEC, "ok": r.ok(1 if j["kind"] == "mpi" else None)}
        a = probe(case, ctx, "alone", alone)
        p = plan(j, 1); p["cmem"] = cmem
        if case["uneven"]: p["speedvar"] = case["uneven"]; p["cseed"] = case["seeds"][0]
        r = ctx.run(p)
        if not b["ok"] or not a["ok"] or not r.ok(j["nranks"] if j["kind"] == "mpi" else None): ctx.stats.probe("did not succeed"); return
        T1, T = a["T"], r.now / SEC
        sp = sorted(r.speeds)[-N:]             # a thread of speed 4 takes four times as long
        if len(sp) == N and sp[-1] > 1:
            # whoever is idle asks for more: nothing is lost but the end, where the slowest may work on the last package
            ideal = T1 / sum(1 / x for x in sp)
            bound = (1.25 if N <= 4 else 1.6) * ideal * (1 - small) + (T1 * small + 2 * T1 / max(1, b["blocks"])) * sp[-1] + 20
            ctx.stats.probe("unequal threads compared")
            if os.environ.get("SIM_VERBOSE"): print("C22u %s N=%d x %d %s T1=%.0f T=%.0f ideal %.2f used %.2f of the bound packages %d" % (sp, j["nranks"], j["n"], j["kind"], T1, T, T / ideal, T / bound, b["blocks"]))
            if T > bound:
                raise Violation("idle-threads", "%d working threads (relative times %s) take %.0f s for what one does in %.0f s (%d packages): %.0f s would be fair, up to %.0f s allowed" % (N, sp, T, T1, b["blocks"], ideal, bound))
            return
        bound = T1 * (1 - small) * (.4 / N + .6 / (N - 1) if N <= 4 else 1.5 / N) + T1 * small + 2 * T1 / max(1, b["blocks"]) + 20
        ctx.stats.probe("compared"); ctx.stats.probe("one idle thread would show" if bound < .97 * T1 / (N - 1) else "only several idle threads would show")
        if os.environ.get("SIM_VERBOSE"): print("C22 N=%d x %d %s T1=%.0f T=%.0f ideal %.2f used %.2f of the bound, bound/idle1 %.2f packages %d" % (j["nranks"], j["n"], j["kind"], T1, T, T / (T1 / N), T / bound, bound / (T1 / (N - 1)), b["blocks"]))
        if T > bound:
            raise Violation("idle-threads", "%d working threads take %.0f s for what one does in %.0f s (%d packages): %.0f s would be fair, up to %.0f s allowed" % (N, T, T1, b["blocks"], T1 / N, bound))


PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C22)}

"""Driver of the deterministic simulator: servers, plans, results, the file-system model, result-file oracles."""
import hashlib, json, os, random, shutil, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
KINDS = ["", "preempt", "pick", "spurious_wakeup", "notify_choice", "stall", "clock_jump", "fs", "alloc_fail",
         "thread_fail", "net_delay", "rendezvous", "mpi_pick", "readdir_order", "oversleep", "rank_kill"]
FSC = ["open_write", "open_read", "write", "close", "fsync", "rename", "unlink", "mkdir", "read", "opendir", "readdir", "stat", "truncate"]
(F_OPENW, F_OPENR, F_WRITE, F_CLOSE, F_FSYNC, F_RENAME, F_UNLINK, F_MKDIR, F_READ, F_OPENDIR, F_READDIR, F_STAT, F_TRUNC) = range(13)
ENOENT, EIO, ENOMEM, EACCES, EMFILE, ENFILE, ENOSPC, EROFS, EDQUOT, EINTR = 2, 5, 12, 13, 24, 23, 28, 30, 122, 4
MS = 1000000
SEC = 1000 * MS
REC, STO = ".hycu_record", ".hycu_store"


class Violation(Exception):
    def __init__(self, cls, text):
        Exception.__init__(self, "%s: %s" % (cls, text))
        self.cls, self.text = cls, text


class SimError(Exception):
    """the machinery itself could not give an answer"""


# ---------------------------------------------------------------- running
class Op:
    __slots__ = ("t", "h", "off", "points", "now", "op", "d1", "d2")
    def __repr__(self):
        return "%s h=%d off=%d pt=%d %r %r" % (self.t, self.h, self.off, self.points, self.d1[:60], self.d2[:60])

JH = struct.Struct("<cIQQQQII")


class Res:
    def __init__(self, out):
        self.ranks, self.races, self.busy, self.speeds, self.status = [], [], [], [], "none"
        self.mpierr = self.msg = self.where = ""
        self.crash = None
        for line in open(out + ".res", errors="replace"):
            k, _, v = line.rstrip("\n").partition(" ")
            if k == "status": self.status = v
            elif k == "rank": self.ranks.append(tuple(map(int, v.split()[1:])))
            elif k == "hash": self.hash = v
            elif k in ("mpierr", "msg", "where"): setattr(self, k, v.strip())
            elif k == "fired": self.fired = list(map(int, v.split()))
            elif k == "fsfired": self.fsfired = list(map(int, v.split()))
            elif k == "fscount": self.fscount = list(map(int, v.split()))
            elif k == "race": self.races.append([v, []])
            elif k == "racepc": self.races[-1][1].append(v)
            elif k == "speed": self.speeds.append(int(v))
            elif k == "busy": self.busy.append(tuple(map(int, v.split())))
            elif k == "crash": self.crash = v
            else: setattr(self, k, int(v))
        self.dev = open(out + ".dev", "rb").read()
        self._jnl = open(out + ".jnl", "rb").read()
        self._ops = None
        self.log = open(out + ".log", "rb").read().decode("latin-1")

    @property
    def ops(self):
        if self._ops is None:
            self._ops, p, b = [], 0, self._jnl
            while p < len(b):
                o = Op()
                t, o.h, o.off, o.points, o.now, o.op, l1, l2 = JH.unpack_from(b, p)
                o.t = t.decode()
                p += 45
                o.d1 = b[p:p + l1]; p += l1
                o.d2 = b[p:p + l2]; p += l2
                self._ops.append(o)
        return self._ops

    def ok(self, n=None):
        """every rank (process) ended with status 0 by itself"""
        r = self.ranks if n is None else self.ranks[:n]
        return self.status == "exit" and all(x[0] and x[1] == 0 and not x[2] for x in r)

    def brief(self):
        s = "status %s, ranks %s" % (self.status, ["%d%s" % (r[1], "(abort)" if r[2] else "") if r[0] else "-" for r in self.ranks])
        if self.mpierr: s += ", mpi: " + self.mpierr
        if self.crash: s += ", crash signal " + self.crash
        if self.status in ("deadlock", "noprogress", "stepcap"): s += ", threads: " + self.where[:600]
        return s


def plan_text(plan):
    out = []
    for k, v in plan.items():
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, bool): x = int(x)
            out.append("%s %s" % (k, x))
    return "\n".join(out) + "\n"


class Server:
    def __init__(self, out, cpu=None):
        self.out, self.cpu, self.p = out, cpu, None

    def start(self):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "LD_LIBRARY_PATH")}
        env["PATH"] = env.get("PATH", "/usr/bin:/bin")
        cpu = self.cpu
        def pre():
            if cpu is not None:
                try: os.sched_setaffinity(0, {cpu})
                except OSError: pass
        self.p = subprocess.Popen([os.path.join(self.out, "simhost")] + B.libargs(self.out), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, preexec_fn=pre, env=env, cwd="/")
        l = self.p.stdout.readline()
        if l.strip() != "READY":
            raise SimError("simulator host did not start: %r" % l)

    def run(self, planfile, outp, limit):
        if self.p is None: self.start()
        self.p.stdin.write("RUN %s %s %d\n" % (planfile, outp, limit)); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l.startswith("DONE"):
            raise SimError("simulator host died: %r" % l)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close(); self.p.wait(5)
            except Exception:
                self.p.kill(); self.p.wait()
            self.p.stdout.close()
            self.p = None


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK):
            return "%s/hycu-sim-%07d" % (d, os.getpid())


class Stats:
    def __init__(self):
        self.d = {"runs": 0, "sim_ns": 0, "points": 0, "switches": 0, "threads": 0, "messages": 0, "fsops": 0, "kills": 0, "powerlosses": 0,
                  "short_io": 0, "torn_writes": 0, "libwrites": 0, "cases": 0}
        self.faults, self.hashes, self.status, self.probes = {}, set(), {}, {}
        self.nontrivial, self.known, self.slow = set(), set(), (0, -1)

    def add(self, r, extra=False):
        d = self.d
        d["runs"] += 1; d["sim_ns"] += r.now; d["points"] += r.points; d["switches"] += r.switches
        d["threads"] += r.nthreads; d["messages"] += r.msgs; d["fsops"] += r.fsops; d["short_io"] += r.shortio; d["torn_writes"] += r.torn; d["libwrites"] += r.libwrites
        if r.status in ("killed", "jobkill"): d["kills"] += 1
        for i, n in enumerate(r.fired):
            if n and i != 7 and i: self.faults[KINDS[i]] = self.faults.get(KINDS[i], 0) + n
        for i, n in enumerate(r.fsfired):
            if n: self.faults["fs_" + FSC[i]] = self.faults.get("fs_" + FSC[i], 0) + n
        self.status[r.status] = self.status.get(r.status, 0) + 1
        self.hashes.add(r.hash)
        if len(r.dev) or r.status == "killed": self.nontrivial.add(r.hash)

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def merge(self, o):
        for k, v in o.d.items(): self.d[k] += v
        for a, b in ((self.faults, o.faults), (self.status, o.status), (self.probes, o.probes)):
            for k, v in b.items(): a[k] = a.get(k, 0) + v
        self.hashes |= o.hashes; self.nontrivial |= o.nontrivial; self.known |= o.known; self.slow = max(self.slow, o.slow)


class Ctx:
    """one worker's view: a scratch directory, a server and the record of the case being executed"""
    def __init__(self, out, base, wid, cpu=None):
        self.dir = "%s/%02d" % (base, wid)
        self.io = self.dir + "/io"
        self.box = self.dir + "/box"          # what the programs see
        self.root = self.box + "/r"           # tracked part
        os.makedirs(self.io, exist_ok=True)
        self.server = Server(out, cpu)
        self.devs = None                      # replay: list of deviation lists
        self.runs = []
        self.stats = Stats()
        self.limit = 60
        self.retried = False

    def fresh(self):
        shutil.rmtree(self.box, ignore_errors=True)
        os.makedirs(self.root)

    def begin(self, devs=None):
        self.runs, self.devs = [], devs
        self.fresh()

    def run(self, plan):
        """one simulated execution"""
        k = len(self.runs)
        p = dict(plan)
        p.setdefault("cwd", self.box)
        p["root"] = self.root
        if self.devs is not None:
            f = self.io + "/d"
            with open(f, "wb") as g:
                g.write(self.devs[k] if k < len(self.devs) else b"")
            p["devfile"] = f
        pf = self.io + "/p"
        with open(pf, "w") as g: g.write(plan_text(p))
        o = self.io + "/o"
        before = None if self.retried else read_tree(self.root)
        self.server.run(pf, o, self.limit)
        r = Res(o)
        if r.status == "timeout" and not self.retried:   # a busy machine, or a loop that touches nothing: once more with more time
            self.retried = True
            write_tree(self.root, before)
            self.server.run(pf, o, 240)
            r = Res(o)
            self.stats.probe("repeated with more time")
        r.plan = p
        if r.status == "limit":
            raise SimError("simulator limit: " + r.msg)
        if r.status == "none":
            raise SimError("the simulated process vanished: " + r.log[-300:])
        self.runs.append(r)
        self.stats.add(r)
        return r

    def stop(self):
        self.server.stop()

    def write(self, rel, text):
        f = self.box + "/" + rel
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w" if isinstance(text, str) else "wb") as g: g.write(text)
        return f


# ---------------------------------------------------------------- directory trees as dicts {relpath: bytes | None (directory)}
def read_tree(root):
    t = {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        rel = "" if rel == "." else rel + "/"
        for x in ds: t[rel + x] = None
        for x in fs: t[rel + x] = open(os.path.join(d, x), "rb").read()
    return t


def write_tree(root, t):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for k in sorted(t):
        f = os.path.join(root, k)
        if t[k] is None: os.makedirs(f, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as g: g.write(t[k])


class FsModel:
    """replays a journal; keeps the visible state and, for power loss, the history of every inode and directory entry"""
    def __init__(self, tree):
        self.ino, self.names, self.handles = {}, {}, {}
        self.meta = []                        # (directory, name, inode or None, synced) in order
        self.next = 0
        for k, v in tree.items():
            i = self.new(None if v is None else bytearray(v), durable=True)
            self.names[k] = i
        self.base = dict(self.names)

    def new(self, data, durable=False):
        i = self.next; self.next += 1
        self.ino[i] = {"data": data, "synced": bytes(data) if durable and data is not None else (b"" if data is not None else None), "dirty": [], "dir": data is None}
        return i

    def entry(self, path, ino):
        self.meta.append([path, ino, False])
        if ino is None: self.names.pop(path, None)
        else: self.names[path] = ino

    def apply(self, o):
        t = o.t
        if t == "O":
            p = o.d1.decode()
            existed, trunc = o.off & 1, o.off & 2
            if not existed or p not in self.names:
                self.entry(p, self.new(bytearray()))
            i = self.names[p]
            self.handles[o.h] = (i, p)
            if trunc and existed:
                self.ino[i]["data"] = bytearray(); self.ino[i]["dirty"].append(("t", 0))
        elif t == "o":
            p = o.d1.decode()
            self.handles[o.h] = (self.names.get(p), p)
        elif t == "W":
            i, _ = self.handles[o.h]
            n = self.ino[i]; d = n["data"]
            if len(d) < o.off: d.extend(b"\0" * (o.off - len(d)))
            d[o.off:o.off + len(o.d1)] = o.d1
            n["dirty"].append(("w", o.off, bytes(o.d1)))
        elif t == "T" or t == "t":
            i = self.handles[o.h][0] if t == "T" else self.names[o.d1.decode()]
            n = self.ino[i]; d = n["data"]
            if len(d) > o.off: del d[o.off:]
            else: d.extend(b"\0" * (o.off - len(d)))
            n["dirty"].append(("t", o.off))
        elif t == "S":
            i, p = self.handles.get(o.h, (None, None))
            p = o.d1.decode() if o.d1 else p
            if o.off:                         # directory: its entries are durable
                pre = p + "/" if p else ""
                for m in self.meta:
                    q = m[0]
                    if q.startswith(pre) and "/" not in q[len(pre):]: m[2] = True
            elif i is not None:
                self.sync_data(i)
        elif t == "A":
            for i in self.ino: self.sync_data(i)
            for m in self.meta: m[2] = True
        elif t == "R":
            a, b = o.d1.decode(), o.d2.decode()
            i = self.names.get(a)
            if i is None: return
            self.meta.append([b, i, False, a]); self.names[b] = i; del self.names[a]
            if self.ino[i]["dir"]:
                for k in [k for k in self.names if k.startswith(a + "/")]:
                    self.names[b + k[len(a):]] = self.names.pop(k)
        elif t == "L":
            self.entry(o.d2.decode(), self.names[o.d1.decode()])
        elif t in "UD":
            self.entry(o.d1.decode(), None)
        elif t == "M":
            self.entry(o.d1.decode(), self.new(None))

    def sync_data(self, i):
        n = self.ino[i]
        if n["data"] is not None:
            n["synced"] = bytes(n["data"]); n["dirty"] = []

    def tree(self):
        return {k: (None if self.ino[i]["dir"] else bytes(self.ino[i]["data"])) for k, i in self.names.items()}

    # ---- power loss
    def crash_content(self, n, rng, model):
        if n["dir"]: return None
        d = bytearray(n["synced"])
        if not n["dirty"]: return bytes(d)
        mode = rng.choice(["none", "all", "prefix", "pages", "size_only"])
        if mode == "none": return bytes(d)
        if mode == "all": return bytes(n["data"])
        full = n["data"]
        if mode == "prefix":
            out = bytearray(d); k = rng.randrange(len(n["dirty"]) + 1)
            for j, w in enumerate(n["dirty"][:k + 1]):
                if w[0] == "t":
                    if len(out) > w[1]: del out[w[1]:]
                    else: out.extend(b"\0" * (w[1] - len(out)))
                else:
                    c = w[2] if j < k else w[2][:rng.randrange(len(w[2]) + 1)]
                    if len(out) < w[1]: out.extend(b"\0" * (w[1] - len(out)))
                    out[w[1]:w[1] + len(c)] = c
            return bytes(out)
        if mode == "pages":
            out = bytearray(full)
            for pg in range(0, len(full), 512):   # sectors: the smallest unit a disk writes atomically
                if rng.random() < 0.5:
                    old = bytes(d[pg:pg + 512]); m = len(full[pg:pg + 512])
                    out[pg:pg + 512] = (old + b"\0" * m)[:m]
            return bytes(out[:rng.choice([len(full), rng.randrange(len(full) + 1)])])
        return bytes(d[:len(full)] + b"\0" * max(0, len(full) - len(d)))

    def crash_tree(self, rng):
        """a state the disk may be in after power was lost now"""
        model = rng.choice(["ordered", "posix"])
        last_sync = max([j for j, m in enumerate(self.meta) if m[2]], default=-1)
        names = dict(self.base)
        def do(m):
            p, i = m[0], m[1]
            if i is None: names.pop(p, None)
            else: names[p] = i
            if len(m) > 3: names.pop(m[3], None)
        if model == "ordered":                # a prefix of the metadata operations, at least up to the last synced one
            k = rng.randrange(last_sync + 1, len(self.meta) + 1)
            for m in self.meta[:k]: do(m)
        else:                                 # every unsynced entry survives or not on its own
            p = rng.random()
            for m in self.meta:
                if m[2] or rng.random() < p: do(m)
        t = {}
        for k in sorted(names):
            t[k] = self.crash_content(self.ino[names[k]], rng, model)
        # entries below a directory that did not survive are gone
        for k in sorted(t):
            q = k
            while "/" in q:
                q = q.rsplit("/", 1)[0]
                if q not in t or t[q] is not None: t.pop(k, None); break
        return t


# ---------------------------------------------------------------- result files
def parse_store(b):
    out = {}
    for line in b.decode("latin-1").split("\n"):
        line = line.strip()
        if not line: continue
        k, s, v = line.rpartition(":")
        if not s: raise Violation("garbled-store", "store line %r" % line[:80])
        try: n = int(v)
        except ValueError: raise Violation("garbled-store", "store line %r" % line[:80])
        k = "".join(k.split())
        try:
            for part in k.split(";"): [int(x) for x in part.split(",")] if part else None
        except ValueError: raise Violation("garbled-store", "store line %r" % line[:80])
        out[k] = out.get(k, 0) + n
    return out


def parse_record(b):
    out = []
    for line in b.decode("latin-1").split("\n"):
        w = line.split()
        if not w: continue
        try: n = [int(x) for x in w]
        except ValueError: raise Violation("garbled-record", "record line %r" % line[:80])
        if len(n) % 2: raise Violation("garbled-record", "record line %r" % line[:80])
        out.append(tuple(n))
    return out


def merge_tree(t, pre="", allow_missing=False):
    """(blocks, counts) of the result directory `pre` of tree t, by an independent reading of the format"""
    blocks, counts, seen = [], {}, {}
    pre = pre + "/" if pre else ""
    for k in sorted(t):
        if not k.startswith(pre) or not k.endswith(REC) or t[k] is None: continue
        if "/" in k[len(pre):]: continue
        s = k[:-len(REC)] + STO
        rec = parse_record(t[k])
        if t.get(s) is None:
            if rec and not allow_missing: raise Violation("record-without-store", k)
            continue
        for b in rec:
            if b in seen: raise Violation("block-twice", "package %s is recorded in %s and in %s" % (" ".join(map(str, b)), seen[b], k))
            seen[b] = k
        blocks += rec
        for kk, v in parse_store(t[s]).items(): counts[kk] = counts.get(kk, 0) + v
    return blocks, {k: v for k, v in counts.items() if v}


_ref = {}
def reference(cfg):
    """true census of a modulus"""
    key = "%d_%d_%d_%d_%d" % (cfg["p"], cfg["e"], cfg["g"], 1 if cfg["m"] else 0, cfg["c"])
    if key not in _ref:
        _ref[key] = {k: v for k, v in parse_store(open(os.path.join(VERIF, "ref/tables", key + ".txt"), "rb").read()).items() if v}
    return _ref[key]


def has_reference(p, e, g, m, c):
    return os.path.exists(os.path.join(VERIF, "ref/tables", "%d_%d_%d_%d_%d.txt" % (p, e, g, 1 if m else 0, c)))


def diff_counts(got, want):
    d = []
    for k in sorted(set(got) | set(want)):
        if got.get(k, 0) != want.get(k, 0): d.append("%s: %d instead of %d" % (k, got.get(k, 0), want.get(k, 0)))
    return d


def check_census(t, pre, cfg, what="census"):
    blocks, counts = merge_tree(t, pre)
    d = diff_counts(counts, reference(cfg))
    if d:
        raise Violation("wrong-" + what, "%s (modulus %s): %d keys differ; %s" % (pre, cfg_str(cfg), len(d), "; ".join(d[:3])))
    return blocks, counts


def cfg_str(c):
    return "q=%d^%d g=%d marked=%d c=%d package=%d" % (c["p"], c["e"], c["g"], c["m"], c["c"], c["pkg"])


def yaml_of(cfgs, single=False):
    def node(c, ind):
        l = ["Prime: %d" % c["p"], "PrimeExponent: %d" % c["e"], "Genus: %d" % c["g"]]
        if c["m"] is not None: l.append("WithMarkedPoint: %s" % ("true" if c["m"] else "false"))
        if c["c"] != c["g"] or c.get("cexp"): l.append("CountExponent: %d" % c["c"])
        l += ["ResultPath: %s" % c["path"], "PackageSize: %d" % c["pkg"]]
        return ["%s%s%s" % (" " * ind, "- " if ind and not j else "  " if ind else "", x) for j, x in enumerate(l)]
    if single and len(cfgs) == 1: return "\n".join(node(cfgs[0], 0)) + "\n"
    return "Moduli:\n" + "\n".join("\n".join(node(c, 2)) for c in cfgs) + "\n"

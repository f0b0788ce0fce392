#!/usr/bin/env python3
"""Builds the simulator and the programs under test (as loadable nodes) from /repo's working tree.

Output goes to /verif/build/<hash of all inputs>/ (ignored by git); an existing directory is reused."""
import concurrent.futures as cf, fcntl, hashlib, os, shutil, subprocess, sys, time
import libcalls

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HYCU_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FORCED = ["string", "flint/ulong_extras.h", "flint/fmpz.h", "flint/nmod_poly.h", "flint/nmod_poly_factor.h",
          "flint/fq_nmod_poly.h", "flint/fq_nmod_poly_factor.h", "boost/serialization/vector.hpp"]
EXES = ["threaded", "mpi", "merger"]
LIBS = ["-lboost_filesystem", "-lboost_program_options", "-lboost_serialization", "-lflint", "-lgmp", "-lyaml-cpp"]
MAXRANKS = 5

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if os.path.relpath(d, os.path.join(REPO, "src")).startswith("opencl"):
            continue
        for f in fs:
            if f.endswith(".cc"):
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src")))
    return sorted(out)

def inputs_hash():
    h = hashlib.sha256()
    def add(p):
        h.update(p.encode()); h.update(open(p, "rb").read())
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "sim")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cc", ".hh", ".h", ".hpp", ".inc", ".c", ".txt")):
                    add(os.path.join(d, f))
    add(os.path.abspath(__file__)); add(libcalls.__file__)
    return h.hexdigest()[:20]

def common_for(exe, srcs):
    """objects of the library part an executable may need"""
    keep = []
    for s in srcs:
        if s.startswith("executables/"):
            continue
        if exe == "merger" and (s.startswith("worker_pool/") or s.startswith("threaded/")):
            continue
        if exe == "threaded" and s.startswith("worker_pool/mpi"):
            continue
        keep.append(s)
    return keep

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hh = inputs_hash()
        out = os.path.join(BUILD, hh)
        if os.path.exists(os.path.join(out, "OK")):
            os.utime(os.path.join(out, "OK"))
            return out
        olds = sorted((d for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))),
                      key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        t0 = time.time()
        mpii = sh(["mpicc", "--showme:compile"]).split()
        mpil = sh(["mpicc", "--showme:link"]).split()
        srcs = sources()
        inc = ["-I" + os.path.join(REPO, "src")] + mpii
        forced = [x for h in FORCED for x in ("-include", h)]
        base = ["g++", "-O2", "-g1", "-w", "-fPIC", "-fno-gnu-unique", "-fvisibility-inlines-hidden", "-fno-omit-frame-pointer"] + forced + inc
        variants = {"t": ["-fsanitize=thread"], "p": []}
        jobs = []
        def compile_one(v, s):
            o = os.path.join(tmp, v + "_" + s.replace("/", "_") + ".o")
            sh(base + variants[v] + ["-c", os.path.join(REPO, "src", s), "-o", o])
            if s.startswith("executables/"):
                sh(["objcopy", "--redefine-sym", "main=hycu_main", o])
            return o
        def host():
            o = os.path.join(tmp, "simhost.o")
            sh(["g++", "-std=c++17", "-O2", "-g1", "-fno-builtin-malloc", "-w"] + mpii + ["-c", os.path.join(VERIF, "sim/simhost.cc"), "-o", o])
            # export every seam
            syms = [l.split()[-1] for l in sh(["nm", "--defined-only", "-g", o]).splitlines() if l.split()[1:2] == ["T"]]
            dl = os.path.join(tmp, "dyn.list")
            open(dl, "w").write("{\n" + "".join(s + ";\n" for s in syms if s != "main") + "sim_libcall_on;\n};\n")
            sh(["g++", "-o", os.path.join(tmp, "simhost"), o, "-Wl,--dynamic-list=" + dl, "-ldl", "-pthread"] + mpil)
        order = sorted(srcs, key=lambda s: -os.path.getsize(os.path.join(REPO, "src", s)) - (100000 if s.startswith(("executables", "worker_pool/mpi")) else 0))
        need = [s for s in order if not s.startswith("executables/") or s[12:-3] in EXES]
        with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
            fs = [ex.submit(host)] + [ex.submit(compile_one, v, s) for s in need for v in variants]
            for f in cf.as_completed(fs):
                f.result()
            # calls of the instrumented objects into libraries go through stubs that report the accesses to the race detector
            tobj = [os.path.join(tmp, "t_" + s.replace("/", "_") + ".o") for s in need]
            und = sorted({l.split()[-1] for l in sh(["nm", "-u"] + tobj).splitlines() if len(l.split()) == 2 and l.split()[0] == "U"})
            desc = libcalls.describe(und)
            rmap, stub = os.path.join(tmp, "simw.map"), os.path.join(tmp, "t_simw.o")
            open(rmap, "w").write("".join("%s simw_%s\n" % (s, s) for s in desc))
            open(stub[:-2] + ".s", "w").write(libcalls.stubs(desc))
            sh(["gcc", "-c", stub[:-2] + ".s", "-o", stub])
            for f in [ex.submit(sh, ["objcopy", "--redefine-syms=" + rmap, o]) for o in tobj]:
                f.result()
            def link(v, exe):
                so = os.path.join(tmp, "%s_%s.so" % (v, exe))
                objs = [os.path.join(tmp, v + "_" + s.replace("/", "_") + ".o") for s in common_for(exe, srcs)]
                objs.append(os.path.join(tmp, v + "_executables_" + exe + ".cc.o"))
                objs += [stub] if v == "t" else []
                sh(["g++", "-shared", "-Wl,-Bsymbolic", "-o", so] + objs + (["-lboost_mpi"] if exe == "mpi" else []) + LIBS + (mpil if exe == "mpi" else []) + ["-pthread"])
                if exe == "mpi":
                    for r in range(MAXRANKS):
                        shutil.copyfile(so, os.path.join(tmp, "%s_mpi%d.so" % (v, r)))
            for f in [ex.submit(link, v, e) for v in variants for e in EXES]:
                f.result()
        for f in os.listdir(tmp):
            if f.endswith(".o"):
                os.unlink(os.path.join(tmp, f))
        open(os.path.join(tmp, "OK"), "w").write("%.1f\n" % (time.time() - t0))
        os.rename(tmp, out)
        if verbose:
            print("built in %.1f s" % (time.time() - t0))
        return out

def libargs(out):
    a = []
    for v in "tp":
        a += ["%s_threaded=%s/%s_threaded.so" % (v, out, v), "%s_merger=%s/%s_merger.so" % (v, out, v)]
        a += ["%s_mpi%d=%s/%s_mpi%d.so" % (v, r, out, v, r) for r in range(MAXRANKS)]
    return a

if __name__ == "__main__":
    print(build(True))

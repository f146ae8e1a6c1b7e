#!/usr/bin/env python3
"""Builds the library from /repo's working tree and the harnesses of /verif, with a content-addressed object cache.

An object is rebuilt whenever the source file, any header of /repo, any header of /verif/harness (for harnesses)
or the flags change; nothing is ever taken from /repo/build.
"""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
LIBS = "-lntl -lmpfr -lgmpxx -lgmp -lflint -lm -lrt -lpthread".split()
BASE = "-std=c++11 -g1 -fopenmp -funroll-loops -w".split()
VARIANTS = {
    # the project's own flags
    "std": dict(cxx="g++", flags=["-O2"]),
    # memory errors, undefined behaviour and NTL's own index checks are fatal
    "asan": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr", "-fno-omit-frame-pointer", "-DNTL_RANGE_CHECK"]),
    # every memory access of the library calls back into harness/sched (the __tsan_* entry points are ours)
    "sched": dict(cxx="g++", flags=["-O1"], cflags=["-fsanitize=thread"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "big"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def compile_one(cmd, obj):
    if os.path.exists(obj):
        os.utime(obj)
        return
    tmp = f"{obj}.{os.getpid()}.tmp"
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if r.returncode:
        e = "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:4000] or r.stderr[-2000:]
        raise BuildError(" ".join(cmd) + "\n" + e)
    os.rename(tmp, obj)


def repo_headers():
    hs = sorted(p for p in glob.glob(f"{REPO}/**/*.h", recursive=True) if "/build/" not in p)
    return sha(*[x for p in hs for x in (os.path.relpath(p, REPO), read(p))])


def build(names):
    """names: iterable of (harness, variant); returns {(harness, variant): exe}"""
    names = list(dict.fromkeys(names))
    objs = os.path.join(BUILD, "obj")
    os.makedirs(objs, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hdr = repo_headers()
        srcs = sorted(p for p in glob.glob(f"{REPO}/*/*.cc") if p.split("/")[-2] not in ("build", "examples"))
        if not srcs:
            raise BuildError(f"no sources in {REPO}")
        hh = sha(*[x for p in sorted(glob.glob(f"{ROOT}/harness/*.h")) for x in (os.path.basename(p), read(p))])
        jobs, lib, own = {}, {}, {}
        for v in dict.fromkeys(v for _, v in names):
            V = VARIANTS[v]
            fl = BASE + V["flags"] + V.get("cflags", [])
            lib[v] = []
            for s in srcs:
                o = os.path.join(objs, sha(os.path.relpath(s, REPO), read(s), hdr, V["cxx"], *fl) + ".o")
                jobs[o] = [V["cxx"], *fl, f"-I{REPO}", "-c", s]
                lib[v].append(o)
        for h, v in names:
            V = VARIANTS[v]
            fl = BASE + V["flags"]
            s = f"{ROOT}/harness/{h}.cc"
            extra = []
            if v == "sched":
                extra = [f"{ROOT}/harness/sched_rt.cc"]
            own[h, v] = []
            for x in [s] + extra:
                o = os.path.join(objs, sha("harness", os.path.basename(x), read(x), hdr, hh, V["cxx"], *fl) + ".o")
                jobs[o] = [V["cxx"], *fl, f"-I{REPO}", f"-I{ROOT}/harness", "-c", x]
                own[h, v].append(o)
        todo = [(c, o) for o, c in jobs.items()]
        # big files first
        todo.sort(key=lambda t: -os.path.getsize(t[0][-1]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            for f in [ex.submit(compile_one, c, o) for c, o in todo]:
                f.result()
        out = {}

        def link(h, v):
            V = VARIANTS[v]
            ins = (lib[v] + own[h, v]) if v == "sched" else (own[h, v] + lib[v])   # the instrumented copy of inline functions wins
            exe = os.path.join(BUILD, f"{h}-{v}-{sha(*ins)[:16]}")
            if not os.path.exists(exe):
                for old in glob.glob(os.path.join(BUILD, f"{h}-{v}-*")):
                    os.unlink(old)
                cmd = [V["cxx"], *BASE, *V["flags"], *ins, *LIBS, "-ldl", "-o", exe + ".tmp"]
                if v == "sched":   # static NTL, so that calls between its own files can be wrapped as well
                    wraps = open(f"{ROOT}/harness/sched_wrap.txt").read().split()
                    cmd = ["-l:libntl.a" if c == "-lntl" else c for c in cmd if c != "-fopenmp"] + ["-rdynamic", "-lgomp"] + [f"-Wl,--wrap={w}" for w in wraps]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("link " + h + "\n" + r.stderr[-4000:])
                os.rename(exe + ".tmp", exe)
            return exe

        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            fs = {k: ex.submit(link, *k) for k in names}
            for k, f in fs.items():
                out[k] = f.result()
        # keep the cache small
        old = sorted(glob.glob(objs + "/*.o"), key=os.path.getmtime)
        for o in old[:-700]:
            os.unlink(o)
        return out


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from checks import CHECKS
    todo = [x[:2] for c in CHECKS.values() for x in c["runs"]]
    try:
        build(todo)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)

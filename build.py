#!/usr/bin/env python3
"""Content-hashed incremental build of the simulator from /repo's working tree.

Every object is keyed by the compile command and by the contents of the source
and of every header it included (from the compiler's depfile), so it rebuilds
exactly when what it would compile changes; timestamps are never consulted.
Outputs go to $KSIM_BUILD (default /verif/build), never to /repo.
"""
import hashlib, json, os, subprocess, sys, glob, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KSIM_REPO", "/repo")
OUT = os.environ.get("KSIM_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++"
BASE = ["-std=c++17", "-O1", "-g0", "-w", "-include", "array", "-D__RELEASE_MODE__",
        "-DKITER_SIM", "-I" + REPO + "/src/libkiter", "-I/usr/include/libxml2", "-fno-omit-frame-pointer"]
LIBS = ["-lxml2", "-lglpk", "-lboost_filesystem", "-lboost_system", "-lz", "-ldl", "-lpthread"]

_hcache = {}
def fhash(p):
    if p not in _hcache:
        try:
            with open(p, "rb") as f:
                _hcache[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hcache[p] = "missing"
    return _hcache[p]

def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [x for x in txt.split() if x]

def compile_one(job):
    src, obj, flags = job
    cmd = [CXX] + flags + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    ck = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    meta = obj + ".meta"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == ck and all(fhash(p) == h for p, h in m["deps"].items()):
                return (True, src, "")
        except Exception:
            pass
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return (None, src, r.stdout)
    deps = {p: fhash(p) for p in parse_dep(obj + ".d")}
    tmp = meta + ".tmp"
    json.dump({"cmd": ck, "deps": deps}, open(tmp, "w"))
    os.replace(tmp, meta)
    return (False, src, "")

def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    jobs = []
    root = REPO + "/src/libkiter"
    srcs = sorted(glob.glob(root + "/**/*.cpp", recursive=True))
    seen = set()
    for s in srcs:
        rel = os.path.relpath(s, root).replace("/", "__")
        if rel == "null.cpp":
            continue
        jobs.append((s, os.path.join(OUT, "k__" + rel + ".o"), BASE + ["-isystem", os.path.dirname(s)] if False else BASE))
    jobs.append((REPO + "/src/kiter/main.cpp", os.path.join(OUT, "m__main.cpp.o"), BASE + ["-Dmain=kiter_main"]))
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        jobs.append((s, os.path.join(OUT, "s__" + os.path.basename(s) + ".o"), BASE + ["-I" + VERIF + "/sim"]))
    objs = [j[1] for j in jobs]
    changed = 0
    # slowest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=int(os.environ.get("KSIM_JOBS", os.cpu_count() or 4))) as ex:
        for hit, src, out in ex.map(compile_one, jobs):
            if hit is None:
                sys.stderr.write("build failed: %s\n%s\n" % (src, out))
                return None
            if hit is False:
                changed += 1
                if verbose:
                    sys.stderr.write("built %s\n" % src)
    exe = os.path.join(OUT, "ksim")
    lk = hashlib.sha256(json.dumps([sorted(objs), LIBS, [fhash2(o) for o in sorted(objs)]]).encode()).hexdigest()
    lf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(lf) and open(lf).read() == lk):
        cmd = [CXX, "-rdynamic", "-o", exe + ".tmp"] + objs + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write("link failed\n" + r.stdout)
            return None
        os.replace(exe + ".tmp", exe)
        open(lf, "w").write(lk)
    if verbose:
        sys.stderr.write("compiled %d of %d units\n" % (changed, len(objs)))
    return exe

def fhash2(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()

if __name__ == "__main__":
    import fcntl
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build(verbose=True)
    if exe is None:
        sys.exit(3)
    print(exe)

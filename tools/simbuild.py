"""Builds the simulator binaries from /repo's working tree (content-hash cached in /verif/build)."""
import os, subprocess, hashlib, json, concurrent.futures as cf, threading, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
from config import BINS
from sources import KNOWN

class BuildError(Exception): pass

WRAPS = """fopen fopen64 fclose fileno open open64 read write close fdopen fsync fdatasync mkstemp stat lstat stat64 lstat64 fstat
access readlink mkdir remove unlink rmdir rename link symlink getcwd realpath opendir readdir readdir64 closedir gettimeofday time
clock_gettime clock usleep sleep nanosleep getpid gethostname uname sigaction signal sigprocmask pthread_sigmask setitimer
getitimer alarm getrlimit setrlimit exit _exit abort __assert_fail fflush""".split()
WRAPS.remove("fflush")
LINKWRAP = ["-Wl,--wrap=" + w for w in WRAPS]
COMMON = ["-w", "-g1", "-fno-color-diagnostics", "-I" + REPO, "-I" + os.path.join(VERIF, "sim")]
HARNESS = ["clang++", "-std=c++17", "-O2"] + COMMON
SUT = ["clang++", "-std=c++0x", "-O1", "-include", "cstdint", "-include", "algorithm", "-DSEARCH_SIM",
       "-fsanitize-coverage=trace-pc-guard"] + COMMON
DRIVER = ["clang++", "-std=c++17", "-O1", "-include", "cstdint", "-include", "algorithm", "-DSEARCH_SIM",
       "-fsanitize-coverage=trace-pc-guard"] + COMMON
SUTC = ["clang", "-std=c99", "-O1", "-fsanitize-coverage=trace-pc-guard"] + COMMON

def sha(path):
    try:
        with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError: return "missing"

_lock = threading.Lock()
_shacache = {}
def csha(path):
    with _lock:
        if path in _shacache: return _shacache[path]
    h = sha(path)
    with _lock: _shacache[path] = h
    return h

def compile_one(cmd, src, key, post=None):
    """compile src to an object named by key unless the cached one was made from identical inputs"""
    obj = os.path.join(BUILD, "o", key + ".o")
    rec = obj + ".json"
    full = cmd + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    if os.path.exists(rec) and os.path.exists(obj):
        try:
            r = json.load(open(rec))
            if r["cmd"] == full + [post] and all(csha(p) == h for p, h in r["deps"].items()):
                return obj
        except (ValueError, KeyError): pass
    p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(full), p.stdout.decode(errors="replace")[-3000:]))
    if post:
        # a program's main: give it, and every other function it defines for itself, a private name
        nm = subprocess.run(["nm", "--defined-only", "-g", obj], stdout=subprocess.PIPE, check=True).stdout.decode()
        ren = []
        for l in nm.splitlines():
            a = l.split()
            if len(a) == 3 and a[1] in "TDBR" :
                ren += ["--redefine-sym", "%s=%s" % (a[2], post + "_main" if a[2] == "main" else post + "__" + a[2])]
        subprocess.run(["objcopy"] + ren + [obj], check=True)
    if os.path.basename(obj)[:2] in ("r_", "m_", "d_"):
        # static data of the simulated programs goes where the simulator can find it
        subprocess.run(["objcopy", "--rename-section", ".data=sutdata,alloc,load,data,contents", "--rename-section", ".bss=sutbss,alloc,load,data,contents",
                        "--rename-section", ".init_array=sutinit", obj], check=True)
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {d: csha(d) for d in deps if d.startswith(REPO) or d.startswith(VERIF)}
    json.dump({"cmd": full + [post], "deps": deps}, open(rec, "w"))
    return obj

def newsources(b):
    dirs = {os.path.dirname(s) for s in list(b.get("repo", [])) + list(b.get("mains", {}))}
    if any(s.startswith("d_") for s in b.get("drivers", [])): dirs.add("search")
    out = []
    for d in sorted(dirs):
        for f in sorted(os.listdir(os.path.join(REPO, d)) if os.path.isdir(os.path.join(REPO, d)) else []):
            if re.search(r"\.(cc|c)$", f) and not re.search(r"(_|^)(test|main)", f) and f not in KNOWN.get(d, []):
                try: t = open(os.path.join(REPO, d, f), errors="replace").read()
                except OSError: continue
                if not re.search(r"\bmain\s*\(", t): out.append((d + "/" + f if d else f, d))
    return out

def build(names):
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    jobs, order = {}, {}
    for n in names:
        b = BINS[n]
        order[n] = []
        def add(cmd, src, key, post=None):
            jobs[key] = (cmd, src, key, post)
            order[n].append(key)
        add(HARNESS, os.path.join(VERIF, "sim", "sim.cc"), "sim")
        defs = b.get("defs", [])
        tag = b.get("tag", "")
        for s in b.get("drivers", []):
            add(DRIVER + defs, os.path.join(VERIF, "sim", s), "d_" + n + "_" + s.replace("/", "_"))
        for s in b.get("harness", []):
            add(HARNESS, os.path.join(VERIF, "sim", s), "h_" + s.replace("/", "_"))
        for s in b.get("repo", []):
            own = tag and s in b.get("own", [])
            base = s.replace("/", "_") + (tag if own else "")
            cmd = (SUTC if s.endswith(".c") else SUT) + (defs if own else [])
            add(cmd, os.path.join(REPO, s), "r_" + base)
        owndirs = {os.path.dirname(s) for s in b.get("own", [])}
        for s, d in newsources(b):
            own = tag and d in owndirs
            add((SUTC if s.endswith(".c") else SUT) + (defs if own else []), os.path.join(REPO, s), "r_" + s.replace("/", "_") + (tag if own else ""))
        for s, name in b.get("mains", {}).items():
            add(SUT, os.path.join(REPO, s), "m_" + name, name)
    # slow ones (drivers) first
    keys = sorted(jobs, key=lambda k: (not k.startswith("d_"), k))
    objs = {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fs = {ex.submit(compile_one, *jobs[k]): k for k in keys}
        err = None
        for f in cf.as_completed(fs):
            try: objs[fs[f]] = f.result()
            except BuildError as e: err = e
        if err: raise err
    out = {}
    for n in names:
        exe = os.path.join(BUILD, n)
        os_ = [objs[k] for k in order[n]]
        h = hashlib.sha256(("|".join(sha(o) for o in os_) + str(BINS[n]) + str(WRAPS) + "static").encode()).hexdigest()
        if not (os.path.exists(exe) and os.path.exists(exe + ".h") and open(exe + ".h").read() == h):
            p = subprocess.run(["clang++", "-no-pie", "-static-libstdc++", "-o", exe] + os_ + LINKWRAP + BINS[n].get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0: raise BuildError("link %s:\n%s" % (n, p.stdout.decode(errors="replace")[-4000:]))
            open(exe + ".h", "w").write(h)
        out[n] = exe
    return out

if __name__ == "__main__":
    import sys, time
    t = time.time()
    try:
        print(build(sys.argv[1:] or list(BINS)), "%.1fs" % (time.time() - t))
    except BuildError as e:
        print(e); sys.exit(1)

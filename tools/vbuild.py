"""Builds a simulator binary for one property from /repo's current working tree.
Objects are cached by content (flags + every non-system file the object was made from), never by time stamps."""
import hashlib, os, subprocess, sys, glob, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
STD = "-std=gnu++14"
WARN = ["-w"]
INC = ["-I", REPO + "/src", "-I", VERIF + "/compat", "-I", REPO + "/3rd/boost-bindings",
       "-I", REPO + "/3rd/log4cpp/include", "-I", REPO + "/3rd/tinyxml", "-I", VERIF + "/sim", "-I", VERIF + "/harness"]
DEF = ["-DHAVE_LAPACK", "-DTIXML_USE_STL", "-DHAVE_MSGPACK", "-DCOMPILER_USE_CXX11", "-DNDEBUG", "-D_FORTIFY_SOURCE=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
# code under test and harnesses: compiler instrumentation calls into the simulator at every memory access
INSTR = ["-O1", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
         "--param", "tsan-distinguish-volatile=0",
         # memory that is never set holds the same in every execution
         "-ftrivial-auto-var-init=pattern", "-fno-lifetime-dse", "-fno-stack-protector"]
RTFLAGS = ["-std=gnu++17", "-O2", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-D_FORTIFY_SOURCE=0", "-U_FORTIFY_SOURCE", "-Wall", "-Wno-nonnull-compare", "-I", VERIF + "/sim"]
WRAP = ["malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "memcmp"]
LIBS = ["-llapack", "-lblas", "-lboost_serialization", "-lboost_regex", "-lboost_filesystem", "-lboost_thread",
        "-lboost_chrono", "-lboost_date_time", "-lboost_system", "-lpthread", "-ldl"]

def repo_groups():
    g = {}
    g["log4cpp"] = sorted(glob.glob(REPO + "/3rd/log4cpp/src/*.cpp"))
    g["tinyxml"] = sorted(glob.glob(REPO + "/3rd/tinyxml/*.cpp"))
    for d in ("utUtil", "utMath", "utMeasurement", "utSerialization", "utTracking", "utAlgorithm"):
        g[d] = sorted(glob.glob(REPO + "/src/" + d + "/**/*.cpp", recursive=True))
    return g

_hc = {}
def fhash(p):
    if p not in _hc:
        try:
            with open(p, "rb") as f: _hc[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError: _hc[p] = None
    return _hc[p]

def read_deps(d):
    try: t = open(d).read()
    except OSError: return None
    t = t.replace("\\\n", " ")
    i = t.find(": ")
    return [x for x in t[i + 2:].split() if x]

def compile_one(src, flags, tag):
    name = hashlib.sha1((src + tag).encode()).hexdigest()[:12] + "-" + os.path.basename(src)
    o = os.path.join(BUILD, "obj", name + ".o"); d = o + ".d"; k = o + ".key"
    cmd = [CXX] + flags + ["-c", src, "-o", o, "-MMD", "-MF", d]
    def key():
        deps = read_deps(d)
        if deps is None: return None
        h = hashlib.sha1(" ".join(cmd).encode())
        for x in deps:
            fh = fhash(x)
            if fh is None: return None
            h.update((x + fh).encode())
        return h.hexdigest()
    if os.path.exists(o) and os.path.exists(k):
        kk = key()
        if kk and open(k).read() == kk: return o, None, False
    for p in (o, k):
        if os.path.exists(p): os.unlink(p)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return o, (src, r.stdout), True
    open(k, "w").write(key() or "")
    return o, None, True

class BuildError(Exception): pass

def build(prop, groups, extra_sources=(), jobs=None, verbose=False):
    """returns path of the binary"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs = jobs or os.cpu_count() or 8
    allg = repo_groups()
    def sources(gs):
        out = []
        for g in gs: out += allg[g]
        return out
    def doit(gs):
        work = []
        base = [STD] + WARN + INC + DEF + INSTR
        for s in sources(gs):
            fl = list(base)
            if s.endswith("utMeasurement/Timestamp.cpp"): fl += ["-include", "ctime"]
            if "/3rd/log4cpp/" in s: fl += ["-I", REPO + "/3rd/log4cpp/src"]
            work.append((s, fl, "t"))
        hs = [os.path.join(VERIF, "harness", prop + ".cpp")] + [os.path.join(VERIF, "harness", x) for x in extra_sources]
        for s in hs: work.insert(0, (s, base, "t"))
        for s in ("rt.cpp", "os.cpp"): work.append((os.path.join(VERIF, "sim", s), RTFLAGS, "r"))
        # big sources first
        work.sort(key=lambda w: -(os.path.getsize(w[0]) + (1 << 20 if "/harness/" in w[0] else 0) + (1 << 18 if "/src/utAlg" in w[0] else 0)))
        with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(lambda w: compile_one(*w), work))
        errs = [e for _, e, _ in res if e]
        if errs: raise BuildError("\n".join(s + ":\n" + t[-3000:] for s, t in errs))
        objs = [o for o, _, _ in res]
        h = hashlib.sha1()
        for o in objs: h.update(open(o + ".key").read().encode())
        out = os.path.join(BUILD, prop + ".sim"); key = h.hexdigest()
        if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key: return out
        cmd = [CXX, "-no-pie", "-g1", "-o", out] + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-Wl,--gc-sections"] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError("link failed:\n" + r.stdout[-6000:])
        open(out + ".key", "w").write(key)
        return out
    try: return doit(groups)
    except BuildError as e:
        if "link failed" in str(e) and set(groups) != set(allg):
            return doit(sorted(allg))      # a dependency moved to another part of the repository
        raise

if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2].split(","))); print("%.1fs" % (time.time() - t))

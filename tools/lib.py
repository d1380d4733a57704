"""Building, running TLC and running drivers. Nothing here knows about a particular property."""
import os, sys, re, json, time, hashlib, subprocess, tempfile, shutil, threading, random
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
OUT = os.path.join(V, "out")
CPUS = max(1, min(8, os.cpu_count() or 1))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

CXXFLAGS = ["-std=c++14", "-w", "-fpermissive", "-Wno-changes-meaning",
            "-include", "cstring", "-include", "cstdlib", "-include", "cmath", "-include", "cxxabi.h",
            "-include", "typeinfo", "-include", "tuple", "-include", "map", "-include", "vector", "-include", "algorithm", "-include", "iomanip",
            "-I" + REPO, "-I" + REPO + "/flut", "-DFLUT_EXPORTS"]
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]

class Trouble(Exception):
    """The check cannot give an answer (exit 2)."""

def sources():
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, "flut")):
        dirs[:] = sorted(d for d in dirs if d != "experimental")
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h")): r.append(os.path.join(root, f))
    return r

def tree_hash(extra=()):
    h = hashlib.sha256()
    files = sources()
    c = os.path.join(REPO, "contrib")
    if os.path.isdir(c):
        for root, dirs, fs in os.walk(c):
            dirs.sort()
            files += [os.path.join(root, f) for f in sorted(fs)]
    for f in files + list(extra):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(" ".join(CXXFLAGS + SAN).encode())
    return h.hexdigest()[:20]

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)

def compile_one(src, obj):
    r = sh(["g++"] + CXXFLAGS + SAN + ["-c", src, "-o", obj])
    if r.returncode and src.endswith("string_tools.cpp"):
        r = sh(["g++"] + CXXFLAGS + SAN + ["-Dp=pattern", "-c", src, "-o", obj])
    return r

_lock = threading.Lock()
def build_lib():
    """every flut/**/*.cpp that compiles, as an archive; rebuilt whenever anything in the tree differs"""
    with _lock:
        key = tree_hash()
        d = os.path.join(BUILD, "lib-" + key)
        lib = os.path.join(d, "libflut.a")
        if os.path.exists(lib): return lib
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
        srcs = [s for s in sources() if s.endswith(".cpp")]
        objs = [os.path.join(tmp, re.sub(r"\W", "_", os.path.relpath(s, REPO)) + ".o") for s in srcs]
        with ThreadPoolExecutor(CPUS) as ex:
            rs = list(ex.map(lambda so: compile_one(*so), zip(srcs, objs)))
        log = "".join(r.stdout for r in rs if r.returncode)
        good = [o for o, r in zip(objs, rs) if r.returncode == 0]
        open(os.path.join(tmp, "log.txt"), "w").write(log)
        if good: sh(["ar", "rcs", os.path.join(tmp, "libflut.a")] + good)
        for o in good: os.unlink(o)
        for old in os.listdir(BUILD):
            if old.startswith("lib-") and old != "lib-" + key: shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
        return lib

def build_driver(name, workdir, lib=True, extra=()):
    src = os.path.join(V, "drv", name + ".cpp")
    obj, exe = os.path.join(workdir, name + ".o"), os.path.join(workdir, name)
    with ThreadPoolExecutor(2) as ex:
        fl = ex.submit(build_lib) if lib else None
        r = sh(["g++"] + CXXFLAGS + SAN + list(extra) + ["-I" + os.path.join(V, "drv"), "-c", src, "-o", obj])
        if r.returncode and "PLAIN_TYPES" in open(src).read():      # code that only takes numbers as elements
            r = sh(["g++"] + CXXFLAGS + SAN + list(extra) + ["-DPLAIN_TYPES", "-I" + os.path.join(V, "drv"), "-c", src, "-o", obj])
        lib_a = fl.result() if fl else None
    if r.returncode: raise Trouble("driver %s does not compile:\n%s" % (name, r.stdout[-4000:]))
    r = sh(["g++"] + SAN + [obj, "-o", exe] + ([lib_a] if lib_a else []) + ["-lpthread", "-ldl"])
    if r.returncode: raise Trouble("driver %s does not link:\n%s\n%s" % (name, r.stdout[-3000:], open(os.path.join(os.path.dirname(lib_a), "log.txt")).read()[-3000:] if lib_a else ""))
    return exe

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, workdir, env=None, timeout=800, workers=1, heap="2g", serial=True, libs=()):
    meta = tempfile.mkdtemp(dir=workdir, prefix="meta-")
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4",
           "-DTLA-Library=" + ":".join([os.path.join(V, "spec")] + list(libs)), "-Djava.io.tmpdir=" + meta,
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module]
    try:
        r = sh(cmd, timeout=timeout, cwd=workdir, env=e)
    except subprocess.TimeoutExpired:
        raise Trouble("TLC did not finish in %d s on %s" % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout

def tlc_counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)

def run_mc(spec, cfgname, workdir, timeout=800, heap="6g", workers=1):
    """model-check MC_<spec>; returns (distinct states, generated transitions, emitted histories)"""
    rc, out = tlc(os.path.join(V, "spec", "MC_%s.tla" % spec), os.path.join(V, "spec", cfgname), workdir, timeout=timeout, heap=heap, workers=workers)
    hist, calls = [], []
    rest = []
    for line in out.splitlines():
        if line.startswith('"H '): hist.append(json.loads(json.loads(line)[2:]))
        elif line.startswith('"C '): calls.append(json.loads(json.loads(line)[2:]))
        else: rest.append(line)
    if rc != 0 or "No error has been found" not in out:
        raise Trouble("model MC_%s (%s) does not satisfy its own properties, or cannot be checked (rc %d):\n%s" % (spec, cfgname, rc, "\n".join(rest)[-3500:]))
    st, tr = tlc_counts(out)
    return st, tr, hist, calls

T_TEMPLATE = """---- MODULE T_%(spec)s ----
(* trace acceptance: every recorded event must be a step of %(spec)s *)
EXTENDS %(spec)s, TraceBase
VARIABLES h, i
TInit == Init /\\ h \\in 1..Len(Histories) /\\ i = 1
Step(e) == res' = e.r /\\ (\\E c \\in {e.c} : Call(c)) /\\ Observed = e.s
TNext == \\/ i <= Len(Histories[h]) /\\ (\\E e \\in {Histories[h][i]} : Step(e)) /\\ i' = i + 1 /\\ h' = h
         \\/ i > Len(Histories[h]) /\\ UNCHANGED <<vars, h, i>>
====
"""
T_CFG = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n"

def check_trace(spec, trace, workdir, timeout=800, consts=""):
    """returns (None, counts) when every history in the file is accepted, or ((history, event), counts), both 1-based"""
    mod = os.path.join(workdir, "T_%s.tla" % spec)
    cfg = os.path.join(workdir, "T_%s.cfg" % spec)
    with _lock:
        if not os.path.exists(mod):
            open(mod, "w").write(T_TEMPLATE % dict(spec=spec)); open(cfg, "w").write(T_CFG + consts)
    rc, out = tlc(mod, cfg, workdir, env=dict(TRACE=trace), timeout=timeout)
    if rc == 0 and "No error has been found" in out: return None, tlc_counts(out)
    # a result of another type than the specified one cannot be compared with it: that is not allowed either
    if "Deadlock reached" in out or re.search(r"Attempted to (check equality of|compare)", out):
        hs, is_ = re.findall(r"^/\\ h = (\d+)", out, re.M), re.findall(r"^/\\ i = (\d+)", out, re.M)
        if hs and is_: return (int(hs[-1]), int(is_[-1])), tlc_counts(out)
    raise Trouble("trace check of %s failed to run (rc %d):\n%s" % (spec, rc, out[-3500:]))

# ------------------------------------------------------------------ drivers
def run_driver(exe, histories, workdir, tag, timeout=600, env=None):
    """returns (trace path, None) or (trace path, (index of history, index of call, reason, output))"""
    hin, hout, cur = [os.path.join(workdir, "%s.%s" % (tag, x)) for x in ("in", "trace", "cur")]
    with open(hin, "w") as f:
        for h in histories: f.write(json.dumps(h, separators=(",", ":")) + "\n")
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:allocator_may_return_null=0:malloc_context_size=10"
    e.update(env or {})
    try:
        r = sh([exe, hin, hout, cur], timeout=timeout, cwd=workdir, env=e)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 97, "no answer within %d s" % timeout
    if rc == 0: return hout, None
    if rc == 99: raise Trouble("driver error: " + out[-2000:])
    done = sum(1 for _ in open(hout)) if os.path.exists(hout) else 0
    try: n = int(open(cur).read().split()[0])
    except Exception: n = 0
    reason = "hang (time limit)" if rc == 97 else "memory error or crash (exit %d)" % rc
    return hout, (done, n, reason, out[-3000:])

# ------------------------------------------------------------------ literals of the code under test
def literals(p):
    """numbers, strings and characters in a source file, with repetitions"""
    ints, strs, chars = [], [], []
    if not os.path.exists(p): return ints, strs, chars
    s = open(p, errors="replace").read()
    s = re.sub(r"//[^\n]*|/\*.*?\*/", " ", s, flags=re.S)
    for a in re.findall(r'"((?:\\.|[^"\\\n])*)"', s):
        try: b = a.encode("latin1", "replace").decode("unicode_escape").encode("latin1", "replace")
        except Exception: continue
        if len(b) <= 40: strs.append(b)
    for a in re.findall(r"'((?:\\.|[^'\\\n])+)'", s):
        try: b = a.encode("latin1", "replace").decode("unicode_escape").encode("latin1", "replace")
        except Exception: continue
        if len(b) == 1: chars.append(b[0])
    t = re.sub(r'"(?:\\.|[^"\\\n])*"', " ", s)
    for a in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])", t):
        try: v = int(a, 0) if not re.match(r"0\d", a) else int(a, 8)
        except ValueError: continue
        if v < 2**63: ints.append(v)
    return ints, strs, chars
def reals(p):
    """whole parts of numbers with a point or an exponent"""
    if not os.path.exists(p): return []
    s = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\\\.|[^\"\\\\\n])*\"", " ", open(p, errors="replace").read(), flags=re.S)
    r = []
    for a in re.findall(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE]\+?\d+)[fF]?(?![\w.])", s):
        v = float(a)
        if v < 2**53: r.append(int(v))
    return r
def count_literals():
    from collections import Counter
    r = {}
    for d, _, fs in os.walk(os.path.join(REPO, "flut")):
        for f in fs:
            if f.endswith((".hpp", ".cpp", ".h")):
                p = os.path.join(d, f); i, s, c = literals(p)
                r[os.path.relpath(p, REPO)] = [dict(Counter(map(str, i + reals(p)))), dict(Counter(x.decode("latin1") for x in s + [bytes([b]) for b in c]))]
    return r
def fresh():
    """literals that occur more often than when tools/literals.json was made"""
    try: old = json.load(open(os.path.join(V, "tools", "literals.json")))
    except OSError: return [], []
    fi, fs = set(), set()
    for f, (i, s) in count_literals().items():
        oi, os_ = old.get(f, [{}, {}])
        fi |= {int(k) for k, n in i.items() if n > oi.get(k, 0)}
        fs |= {k.encode("latin1") for k, n in s.items() if n > os_.get(k, 0)}
    return sorted(fi), sorted(fs)
class AimedRandom(random.Random):
    """a random generator that prefers integers next to fresh literals"""
    aims = ()
    def randint(self, a, b):
        if self.aims:
            s = [v for v in self.aims if a <= v <= b]
            if s and self.random() < .15: return self.choice(s)
        return random.Random.randint(self, a, b)

class Dictionary:
    """numbers, characters and strings that occur in the code under test: used to aim random inputs.
       Constants that the code did not contain when tools/literals.json was made are aimed at more often.
       (Only inputs are chosen this way; what must come out is decided by the specification alone.)"""
    def __init__(self, files):
        ints, strs, chars = set(), set(), set()
        for f in files:
            i, s, c = literals(os.path.join(REPO, f))
            ints |= set(i); strs |= set(s); chars |= set(c)
        self.ints = sorted(ints)
        self.near = sorted({x for v in ints for x in (v - 1, v, v + 1)})
        self.strs = sorted(strs)
        self.chars = sorted(chars)
        fi, self.fresh_strs = fresh()
        self.fresh = sorted({x for v in fi if v >= 4 for x in (v - 1, v, v + 1)})
        self.strs = sorted(set(self.strs) | {s for s in self.fresh_strs if len(s) > 1})
    def sizes(self, lo, hi):
        return [v for v in self.near if lo <= v <= hi]
    def size(self, rng, lo, hi, p=0.4):
        s = [v for v in self.fresh if lo <= v <= hi]
        if s and rng.random() < .5: return rng.choice(s)
        s = self.sizes(lo, hi)
        return rng.choice(s) if s and rng.random() < p else rng.randint(lo, hi)

def drop_prefixes(hist):
    """a history that is a prefix of another adds nothing"""
    key = sorted(hist, key=lambda h: [json.dumps(c) for c in h])
    r = []
    for a, b in zip(key, key[1:] + [None]):
        if b is not None and len(a) <= len(b) and b[:len(a)] == a: continue
        r.append(a)
    return r

"""Shared machinery of the checks: building from /repo's current tree, running drivers, judging, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VH_BUILD") or os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = max(2, min(8, os.cpu_count() or 8))
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
for _k in ("CXXFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "MALLOC_PERTURB_", "LD_PRELOAD", "CPATH", "CPLUS_INCLUDE_PATH"):
    ENV.pop(_k, None)

HEADERS = ["blake1_224", "blake1_256", "blake1_384", "blake1_512", "blake2", "blake2s", "crc_32", "cshake", "fnv", "has_160",
           "md2", "md4", "md5", "ripemd_128", "ripemd_160", "ripemd_256", "ripemd_320", "sha1", "sha2_224", "sha2_256", "sha2_384",
           "sha2_512", "sha2_512_224", "sha2_512_256", "sha3", "siphash", "sm3", "tiger", "tuple_hash", "whirlpool"]
ALGOS = {"blake1_224": ["Blake1_224"], "blake1_256": ["Blake1_256"], "blake1_384": ["Blake1_384"], "blake1_512": ["Blake1_512"],
         "blake2": ["Blake2"], "blake2s": ["Blake2s"], "crc_32": ["CRC_32"], "cshake": ["CSHAKE_128", "CSHAKE_256"],
         "fnv": ["FNV32_0", "FNV32_1", "FNV32_1a", "FNV64_0", "FNV64_1", "FNV64_1a"], "has_160": ["HAS_160"], "md2": ["MD2"], "md4": ["MD4"],
         "md5": ["MD5"], "ripemd_128": ["RIPEMD_128"], "ripemd_160": ["RIPEMD_160"], "ripemd_256": ["RIPEMD_256"], "ripemd_320": ["RIPEMD_320"],
         "sha1": ["SHA1"], "sha2_224": ["SHA2_224"], "sha2_256": ["SHA2_256"], "sha2_384": ["SHA2_384"], "sha2_512": ["SHA2_512"],
         "sha2_512_224": ["SHA2_512_224"], "sha2_512_256": ["SHA2_512_256"],
         "sha3": ["SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512", "SHAKE_128", "SHAKE_256"], "siphash": ["SipHash"], "sm3": ["SM3"],
         "tiger": ["Tiger1_128", "Tiger1_160", "Tiger1_192", "Tiger2_128", "Tiger2_160", "Tiger2_192"],
         "tuple_hash": ["TupleHash_128", "TupleHash_256"], "whirlpool": ["Whirlpool"]}
# relative driver cost, to start the slow ones first
WEIGHT = {"sha3": 30, "tuple_hash": 9, "cshake": 9, "tiger": 8, "fnv": 6, "md2": 6, "whirlpool": 4}


class Harness(Exception):
    """The machinery itself could not work; never a verdict about the code under test."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- processes
def run(cmd, timeout, stdin=None, cwd=None, env=None, cap=4 << 20, mem_gb=None):
    """Run cmd in its own process group. Returns dict(rc, out, err, timeout, wall)."""
    t0 = time.time()
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()

    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdin=stdin if stdin is not None else subprocess.DEVNULL, stdout=fo, stderr=fe, cwd=cwd, env=env or ENV, preexec_fn=pre)
    to = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        to = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    fo.seek(0)
    fe.seek(0)
    r = dict(rc=p.returncode, out=fo.read(cap).decode("utf-8", "replace"), err=fe.read(cap).decode("utf-8", "replace"), timeout=to, wall=time.time() - t0)
    fo.close()
    fe.close()
    return r


def pmap(fn, items, n=JOBS):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- building
class Variant:
    def __init__(self, name, cxx, flags, link=()):
        self.name, self.cxx, self.flags, self.link = name, cxx, list(flags), list(link)


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
UBSAN = ["-fsanitize=undefined,float-divide-by-zero", "-fno-sanitize-recover=all"]
VARIANTS = {v.name: v for v in [
    Variant("gcc-c++14-O2", "g++", ["-std=c++14", "-O2"]),
    Variant("gcc-c++17-O2", "g++", ["-std=c++17", "-O2"]),
    Variant("clang-c++20-O2-NDEBUG", "clang++", ["-std=c++20", "-O2", "-DNDEBUG"]),
    Variant("clang-c++17-O2", "clang++", ["-std=c++17", "-O2"]),
    Variant("gcc-c++20-O3-NDEBUG", "g++", ["-std=c++20", "-O3", "-DNDEBUG"]),
    Variant("gcc-c++14-O3-NDEBUG", "g++", ["-std=c++14", "-O3", "-DNDEBUG"]),
    Variant("gcc-c++14-asan-ubsan", "g++", ["-std=c++14", "-O1"] + SAN + ["-D_GLIBCXX_ASSERTIONS"], SAN),
    Variant("clang-c++20-asan-ubsan", "clang++", ["-std=c++20", "-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=float-divide-by-zero"] + SAN, SAN),
    Variant("gcc-c++14-O1-asan-NDEBUG", "g++", ["-std=c++14", "-O1", "-DNDEBUG"] + SAN, SAN),
    Variant("clang-c++14-asan-ubsan-NDEBUG", "clang++", ["-std=c++14", "-O2", "-DNDEBUG"] + SAN, SAN),
    Variant("clang-c++17-O2-ubsan", "clang++", ["-std=c++17", "-O2", "-g1"] + UBSAN, UBSAN),
    Variant("gcc-c++14-O1-g", "g++", ["-std=c++14", "-O1", "-g"]),
    Variant("clang-c++14-cost", "clang++", ["-std=c++14", "-O1", "-fsanitize-coverage=trace-pc-guard"], ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
    Variant("clang-c++20-cost", "clang++", ["-std=c++20", "-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc-guard"], ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
    Variant("gcc-c++14-tsan", "g++", ["-std=c++14", "-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    Variant("clang-c++20-tsan", "clang++", ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-DNDEBUG"], ["-fsanitize=thread"]),
]}
BASE = "gcc-c++14-O2"


def variant(cxx, std, *flags, link=()):
    """A variant made on the spot."""
    v = Variant("%s %s %s" % (cxx, std, " ".join(flags)), cxx, ["-std=" + std] + list(flags), list(link))
    return VARIANTS.setdefault(v.name, v)

_locks = {}
_glock = threading.Lock()


def _lock(k):
    with _glock:
        return _locks.setdefault(k, threading.Lock())


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_toolid = {}


def tool_id(cxx):
    if cxx not in _toolid:
        _toolid[cxx] = subprocess.run([cxx, "--version"], capture_output=True, text=True).stdout.splitlines()[:1]
    return str(_toolid[cxx])


def compile_obj(cxx, flags, source, extra=()):
    """Compile source to a cached object, keyed by its preprocessed text. Returns (path, None) or (None, diagnostics)."""
    cmd = [cxx] + list(flags) + ["-w"] + list(extra)
    pp = subprocess.run(cmd + ["-E", source], capture_output=True, env=ENV)
    if pp.returncode:
        return None, pp.stderr.decode("utf-8", "replace")
    key = sha("obj", tool_id(cxx), " ".join(c for c in cmd if not c.startswith("-I")), pp.stdout)
    out = os.path.join(BUILD, key + ".o")
    with _lock(key):
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = run(cmd + ["-c", source, "-o", tmp], 600)
            if r["rc"] or not os.path.exists(tmp):
                if r["timeout"]:
                    raise Harness("compiler timeout on %s" % source)
                if re.search(r"internal compiler error|Killed|cannot allocate|No space left", r["err"]):
                    raise Harness("compiler failed on %s: %s" % (source, r["err"][-500:]))
                return None, r["err"]
            os.replace(tmp, out)
        else:
            os.utime(out)
    return out, None


def link(cxx, objs, flags, tag):
    key = sha("exe", tool_id(cxx), " ".join(flags), *[os.path.basename(o) for o in objs])
    out = os.path.join(BUILD, tag + "-" + key)
    with _lock(key):
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = run([cxx] + list(objs) + list(flags) + ["-o", tmp], 300)
            if r["rc"]:
                raise Harness("link failed: " + r["err"][-800:])
            os.replace(tmp, out)
        else:
            os.utime(out)
    return out


def harness_obj(name, variant=None, extra=()):
    """Objects of the machinery itself: sanitized like the code they drive, C++17, never including /repo."""
    v = VARIANTS[variant] if variant else None
    san = [f for f in v.flags if f.startswith("-fsanitize") and "coverage" not in f] if v else []
    cxx = v.cxx if san else "g++"
    o, e = compile_obj(cxx, ["-std=c++17", "-O2", "-g1"] + san, os.path.join(VERIF, "harness", name + ".cpp"), extra)
    if not o:
        raise Harness("cannot build %s: %s" % (name, e[-1500:]))
    return o


def prune():
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.isfile(f)]
        tot = sum(f[1] for f in fs)
        for m, s, f in sorted(fs):
            if tot < 3 << 30:
                break
            if time.time() - m > 3600:
                os.unlink(f)
                tot -= s
    except OSError:
        pass


class Driver:
    def __init__(self, header, variant, exe, err):
        self.header, self.variant, self.exe, self.err = header, variant, exe, err


def build_driver(header, variant, alloc=False, main="engine"):
    v = VARIANTS[variant]
    plug, err = compile_obj(v.cxx, v.flags, os.path.join(VERIF, "harness", "plug.cpp"),
                            ["-I" + SRC, '-DVH_HEADER="%s.h"' % header, "-DVH_" + header])
    if not plug:
        return Driver(header, variant, None, err)
    objs = [plug, harness_obj(main, variant, ["-DVH_ALLOC"] if alloc else []), harness_obj("refreg", variant)]
    return Driver(header, variant, link(v.cxx, objs, v.link + ["-pthread"], main + "-" + header), None)


def build_drivers(headers, variants, alloc=False, main="engine"):
    """All drivers wanted. A header that does not build in the base variant is a harness error; in another
    configuration it is left out here (the configuration check is what judges that)."""
    os.makedirs(BUILD, exist_ok=True)
    prune()
    harness_obj("refreg")
    work = sorted(((h, v) for h in headers for v in variants), key=lambda t: -WEIGHT.get(t[0], 1))
    ds = pmap(lambda t: build_driver(t[0], t[1], alloc, main), work)
    ok, skipped = [], []
    for d in ds:
        (ok if d.exe else skipped).append(d)
    have = {d.header for d in ok}
    for d in skipped:
        if d.header not in have:
            raise Harness("%s.h does not build in any configuration: %s" % (d.header, d.err[-1500:]))
    return ok, skipped


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- a check's result
class Result:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.stats, self.samples, self.viol, self.notes = {}, [], [], []
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.lock = threading.Lock()

    def stat(self, k, n=1):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s, cap=12):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(s)

    def violation(self, key, msg, replay):
        with self.lock:
            self.viol.append((key, msg, replay))

    def note(self, s):
        with self.lock:
            if s not in self.notes:
                self.notes.append(s)

    def finish(self, floor=1):
        known = known_findings(self.prop)
        hit, fresh = {}, []
        for key, msg, replay in self.viol:
            k = [d for (kk, d) in known if kk == key]
            if k:
                hit[key] = k[0]
            else:
                fresh.append((key, msg, replay))
        for key, d in sorted(hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        cov = dict(evaluations=int(self.evaluations), distinct_nontrivial=int(self.distinct), rule=self.rule, samples=self.samples[:12] or ["(none)"])
        cov["observed"] = {k: self.stats[k] for k in sorted(self.stats)}
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes[:40]
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, "." + self.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        if not fresh and (self.evaluations < floor or self.distinct < 2):
            raise Harness("too little was observed: %d evaluations, %d distinct" % (self.evaluations, self.distinct))
        if not fresh:
            print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evaluations, self.distinct, time.time() - self.t0))
            return 0
        rp = os.path.join(EVID, "replay")
        os.makedirs(rp, exist_ok=True)
        seen = set()
        for i, (key, msg, replay) in enumerate(fresh):
            if (key in seen and i >= 3) or len(seen) >= 25:
                continue
            seen.add(key)
            path = os.path.join(rp, "%s-%s.json" % (self.prop, sha(key, msg)[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, key=key, message=msg, replay=replay), f, indent=1)
            log("  %s: %s" % (key, msg[:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


# ---------------------------------------------------------------- running drivers
SANENV = dict(ENV, ASAN_OPTIONS="detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:handle_abort=0:detect_leaks=1:exitcode=66:abort_on_error=0",
              UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=67", TSAN_OPTIONS="halt_on_error=0:exitcode=68:second_deadlock_stack=1:report_signal_unsafe=0", LSAN_OPTIONS="exitcode=66")
ENGINE_STATS_SKIP = {"distinct", "overloads_used"}


def crash_text(r):
    e = r["err"]
    for pat in (r"(==\d+==ERROR: [^\n]*)", r"([^\n]*runtime error: [^\n]*)", r"(WARNING: ThreadSanitizer: [^\n]*)", r"([^\n]*Assertion [^\n]*)", r"(terminate called[^\n]*\n[^\n]*)", r"(exception on valid use[^\n]*)", r"(==\d+== [A-Z][^\n]*)"):
        m = re.search(pat, e)
        if m:
            return m.group(1).strip()
    return (e.strip().splitlines() or ["no message"])[-1][:300]


def drive(res, d, mode, args, timeout, prefix=(), tag="", judge_crash=True):
    """One driver process; judges VIOL lines, crashes and hangs. Returns its standard output."""
    with res.lock:
        if d.header in res.__dict__.setdefault("hung", set()):
            return ""           # already found not to finish: no point in waiting again
    st = tempfile.NamedTemporaryFile(prefix="vh-st-", delete=False)
    st.close()
    cmd = list(prefix) + [d.exe, "--mode", mode, "--seed", str(SEED), "--status", st.name] + [str(a) for a in args]
    rep = dict(header=d.header, variant=d.variant, mode=mode, seed=SEED, args=[str(a) for a in args], prefix=list(prefix))
    try:
        r = run(cmd, timeout, env=SANENV)
        if r["timeout"]:
            try:
                case = int.from_bytes(open(st.name, "rb").read(8), "little") - 1
            except OSError:
                case = -1
            if case >= 0 and mode != "long":
                q = run(list(prefix) + [d.exe, "--mode", mode, "--seed", str(SEED)] + [str(a) for a in args] + ["--from", str(case), "--count", "1"], max(120, timeout / 3), env=SANENV)
                if q["timeout"]:
                    with res.lock:
                        res.hung.add(d.header)
                    res.violation("%s:%s:hang" % (d.header, mode), "%s %s: case %d does not finish" % (d.header, d.variant, case), dict(rep, case=case))
                    return ""
            r = run(cmd, 2 * timeout, env=SANENV)
            if r["timeout"]:
                raise Harness("%s %s %s did not finish within %d s" % (d.header, d.variant, mode, 2 * timeout))
        with open(st.name, "rb") as f:
            raw = f.read(8)
        case = int.from_bytes(raw, "little") - 1 if raw else -1
    finally:
        os.unlink(st.name)
    if r["rc"] == 3:
        raise Harness("%s %s %s: %s" % (d.header, d.variant, mode, r["err"][-600:]))
    for line in r["out"].splitlines():
        m = re.match(r"VIOL case=(\d+) key=(\S+) (.*)", line)
        if m:
            res.violation(m.group(2), "[%s] %s" % (d.variant, m.group(3)), dict(rep, case=int(m.group(1))))
            continue
        m = re.match(r"STAT (\S+) (\d+)", line)
        if m:
            k, v = m.group(1), int(m.group(2))
            if k == "distinct":
                with res.lock:
                    key = (d.header, mode, tuple(a for a in args if a != "--quiet"), tag)
                    res._dist = getattr(res, "_dist", {})
                    # the same seed gives the same cases in every configuration: counted once
                    res.distinct += max(0, v - res._dist.get(key, 0))
                    res._dist[key] = max(v, res._dist.get(key, 0))
            elif k not in ENGINE_STATS_SKIP:
                res.stat(k, v)
                if k == "cases":
                    with res.lock:
                        res.evaluations += v
            continue
        if line.startswith("SAMPLE "):
            with res.lock:
                per = res.__dict__.setdefault("_per", {})
                per[d.header] = per.get(d.header, 0) + 1
                ok = per[d.header] <= 1 or len(res.samples) < 4
            if ok:
                res.sample(line[7:])
    res.stat("runs")
    if r["rc"] not in (0, 1):
        if not judge_crash:
            return r["out"]
        if r["rc"] == -9 and not r["timeout"]:
            # the sandbox's memory guard kills with SIGKILL: not a verdict
            raise Harness("%s %s %s was killed" % (d.header, d.variant, mode))
        txt = crash_text(r)
        res.violation("%s:%s:crash" % (d.header, mode), "[%s] process ended with %s at case %d: %s" % (d.variant, r["rc"], case, txt), dict(rep, case=case, stderr=r["err"][-4000:]))
    return r["out"]


def main(prop, fn):
    try:
        rc = fn()
    except Harness as e:
        log("HARNESS ERROR in %s: %s" % (prop, e))
        print("ERROR property=%s %s" % (prop, str(e).splitlines()[0][:300]))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

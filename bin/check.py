#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree."""
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh
from vh import *          # noqa: F401,F403

G14, G17, C20N, C17 = "gcc-c++14-O2", "gcc-c++17-O2", "clang-c++20-O2-NDEBUG", "clang-c++17-O2"
# the GNU dialects, where __int128 counts as an integer type
GNU17, GNU20C = vh.variant("g++", "gnu++17", "-O2").name, vh.variant("clang++", "gnu++20", "-O1", "-DNDEBUG").name
BIGUB = "clang-c++17-O2-ubsan"
T = vh.THOROUGH


def by(q, t):
    return t if T else q


def run_modes(res, headers, plan, variants, alloc=False, timeout=None, prefix=()):
    """plan: list of (mode, cases, extra args). Every header x variant x plan entry is one process (one per
    algorithm for the heavy headers)."""
    drivers, skipped = build_drivers(headers, variants, alloc)
    for d in skipped:
        res.note("%s.h does not build as %s: left to the configuration check" % (d.header, d.variant))
    jobs = []
    for d in drivers:
        for mode, cases, extra in plan:
            algos = ALGOS[d.header]
            split = len(algos) > 1 and WEIGHT.get(d.header, 1) >= 6
            for a in (algos if split else [None]):
                args = ["--cases", cases] + list(extra) + (["--only", a] if a else [])
                jobs.append((WEIGHT.get(d.header, 1), d, mode, args, a or ""))
    jobs.sort(key=lambda j: -j[0])
    to = timeout or by(240, 3000)
    pmap(lambda j: drive(res, j[1], j[2], j[3], to, prefix, j[4]), jobs)
    res.stat("configurations", len({d.variant for d in drivers}))
    res.stat("headers", len({d.header for d in drivers}))


# ---------------------------------------------------------------- long messages
BIG, TWO, HALF, MDTWO = 4295491661, 2147746053, 537003091, 134230019      # see ref/long_expected.txt


def long_expected():
    out = {}
    for line in open(os.path.join(VERIF, "ref", "long_expected.txt")):
        w = line.split()
        if len(w) == 3:
            out[(w[0], int(w[1]))] = w[2]
    return out


def long_jobs(res, drivers, plan, md2plan, extra=(), timeout=None, report=None, first=False):
    """Messages that are really fed, past 2^29 to 2^32 bytes: a list of (weight, function). how: 0 one call, 1 irregular chunks, 2 one call after 3 bytes."""
    exp = long_expected()
    jobs = []

    def one(d, a, n, how):
        text = drive(res, d, "long", ["--only", a, "--n", n, "--how", how, "--want", exp[(a, n)]] + list(extra), timeout or by(600, 4000), (), "%s/%d/%d" % (a, n, how))
        if report:
            report(d, a, text)
        with res.lock:
            res.evaluations += 1
    for d in drivers:
        for a in ALGOS[d.header][:1 if first else None]:
            w = {"sha3": 5, "cshake": 4, "tuple_hash": 4, "whirlpool": 3, "sm3": 3, "md2": 60}.get(d.header, 1)
            for n, how in (md2plan if a == "MD2" else plan):
                if (a, n) not in exp:
                    raise Harness("no expected digest for %s %d" % (a, n))
                jobs.append((w * n, lambda d=d, a=a, n=n, how=how: one(d, a, n, how)))
    return jobs


NOCOUNT = ("crc_32", "cshake", "fnv", "md2", "sha3", "siphash", "tuple_hash")


def counter_jobs(res, drivers, cases, extra=()):
    return [(1 << 60, lambda d=d: drive(res, d, "counter", ["--cases", cases] + list(extra), by(300, 2000))) for d in drivers if d.header not in NOCOUNT]


def run_jobs(jobs):
    pmap(lambda j: j[1](), sorted(jobs, key=lambda j: -j[0]))


# ---------------------------------------------------------------- digests
DIG = {
    "C01": ["md2", "md4", "md5", "sha1", "ripemd_128", "ripemd_160", "ripemd_256", "ripemd_320", "has_160", "sm3", "tiger", "whirlpool"],
    "C02": ["sha2_224", "sha2_256", "sha2_384", "sha2_512", "sha2_512_224", "sha2_512_256"],
    "C03": ["sha3"],
    "C04": ["cshake", "tuple_hash"],
    "C05": ["blake1_224", "blake1_256", "blake1_384", "blake1_512", "blake2", "blake2s"],
    "C06": ["crc_32", "fnv", "siphash"],
}


def digests(prop):
    res = Result(prop)
    cases = {"C01": by(1500, 60000), "C02": by(3000, 120000), "C03": by(800, 30000), "C04": by(1200, 40000), "C05": by(3000, 120000), "C06": by(6000, 200000)}[prop]
    run_modes(res, DIG[prop], [("conf", cases, [])], by([G14, C20N], [G14, C20N, "gcc-c++20-O3-NDEBUG", C17]))
    # the same at totals no test reaches: one call of more than 2^32 bytes, and counters set to what cannot be fed (C07 goes on from there)
    drivers, _ = build_drivers(DIG[prop], [C20N])
    run_jobs(long_jobs(res, drivers, by([(BIG, 0)], [(BIG, 0), (HALF, 1)]), by([], [(MDTWO, 0)])) + counter_jobs(res, drivers, by(500, 10000)))
    res.rule = ("one case = one object constructed in memory filled with a chosen byte, fed a generated message (every length from 0 to four blocks and more with two contents; "
                "lengths at 2^13, 2^15, 2^16, 2^20, 2^21, 2^24 and one either side; block- and padding-boundary and random lengths to 128 KiB; ten content kinds; pieces and overloads chosen at random; "
                "digest lengths, names, customizations, keys and tuple shapes where the algorithm has them) and its digest compared with an independent reference implementation "
                "that first reproduces published vectors; also one message of more than 2^32 bytes for each class but MD2, and objects whose length counter is preset. Non-trivial: a non-empty message or parameters; distinct by parameters, piece lengths and content.")
    res.assumptions = ["the references in ref/ref.h implement the published specifications (self-tested on published vectors in every run; cross-checked once against OpenSSL and libgcrypt)"]
    return res.finish(1000)


def c07():
    res = Result("C07")
    drivers, skipped = build_drivers(vh.HEADERS, by([C20N], [C20N, G14]))
    run_jobs(long_jobs(res, drivers, by([(BIG, 0), (HALF, 1)], [(BIG, 0), (BIG, 2), (BIG, 1), (TWO, 2), (HALF, 1), (HALF, 0)]), by([(MDTWO, 0), (MDTWO, 1)], [(BIG, 0), (TWO, 2), (HALF, 1)]))
             + counter_jobs(res, drivers, by(1500, 40000)))
    res.rule = ("long: one case = one algorithm fed a message of 2^32+, 2^31+ or 2^29+ bytes (MD2 in the quick tier: 2^27+) in one call, after 3 leading bytes, or in irregular chunks, against the digest an independent "
                "reference gives (committed in ref/long_expected.txt). counter: one case = an object whose length counter is preset to between 2^33 and 2^64 bytes, then fed up to six blocks, against the reference "
                "started from the same count. All are non-trivial; distinct by algorithm, total and chunking.")
    res.assumptions = ["totals above the ones fed for real are reached by presetting the object's own length counter; a layout in which the counter is not found, or in which presets within the really fed range are not honoured, is left alone (layouts_unrecognised)"]
    return res.finish(100)


# ---------------------------------------------------------------- API histories over every class
def histories(prop, mode, q, t, rule, alloc=False, variants=None, extra=(), also=None):
    res = Result(prop)
    run_modes(res, vh.HEADERS, [(mode, by(q, t), list(extra))], variants or by([G14, C20N], [G14, C20N, G17, "gcc-c++20-O3-NDEBUG"]), alloc)
    if also:
        also(res)
    res.rule = rule
    return res.finish(500)


def long_divisions(res):
    seen = {}

    def note(d, a, text):
        for line in text.splitlines():
            w = line.split()
            if len(w) == 5 and w[0] == "LONG":
                with res.lock:
                    seen.setdefault((d.header, w[1], w[2]), {})[w[3]] = w[4]
    run_jobs(long_jobs(res, [d for d in build_drivers(vh.HEADERS, [G14])[0] if d.header != "tuple_hash"], [(HALF, 0), (HALF, 1)], [], ["--quiet"], report=note))
    for (h, a, n), got in sorted(seen.items()):
        if len(set(got.values())) > 1:
            res.violation("%s:long:split" % a, "%s of %s bytes: in one call %s, in irregular chunks %s" % (a, n, got.get("0"), got.get("1")), dict(kind="long", header=h, algorithm=a, bytes=int(n), digests=got))


def c08():
    return histories("C08", "stream", 300, 12000,
                     "one case = the same message given to two fresh objects, whole through one call and in pieces through other calls (every two-way split around the block boundaries, byte by byte, every stride to two blocks, "
                     "empty pieces, every input overload after every prefix class, random piece sequences), digests compared; for TupleHash the elements stay the same and the overloads vary; one case in eight starts from a length counter preset to 2^29 bytes or more. Also messages of more than 2^29 bytes in one call and in chunks. Non-trivial: more than one piece or another overload; distinct by piece lengths and overload.",
                     also=long_divisions)


def c09():
    return histories("C09", "reset", 6000, 60000,
                     "one case = a history of adds, finalizes, reads, copies, assignments and resets on one object, ended by reset(), then a message, against a fresh object with the same parameters: digest and equality compared; one in seven starts from a length counter preset to 2^29 bytes or more. "
                     "Every number of absorbed bytes to two blocks, finalized or not, is enumerated; the rest is random. Distinct by history and message shape.")


def c10():
    return histories("C10", "value", 6000, 60000,
                     "one case = a random program of 6 to 35 steps over four object slots (construct, feed, finalize, reset, copy/move construct from the class or its base, copy/move/self assign, swap, destroy) with the digest of every live object "
                     "checked against a never-copied object that is put through the same feeds, resets and finalizes; one object in eight starts from a length counter preset to 2^29 bytes or more. Distinct by the sequence of operations and slots.")


def c11():
    return histories("C11", "access", 5000, 60000,
                     "one case = one finalized object whose toString, toVector, toArray, std::hash and conversions to eight unsigned types are read in varying order, twice, and on a copy, and compared with one digest. Distinct by digest.",
                     variants=by([G14, GNU17, GNU20C], [G14, C20N, GNU17, GNU20C, vh.variant("g++", "gnu++14", "-O0").name, vh.variant("g++", "gnu++20", "-O3", "-DNDEBUG").name]))


def c12():
    return histories("C12", "equal", 1200, 50000,
                     "one case = pairs of finalized objects: itself, same data fed differently, copy, assigned, and a near miss (last bit, one byte longer, one byte, digest length, key, customization, unrelated), plus pairs found by birthday search whose "
                     "digests agree in one 32-bit word; ==, != and std::hash judged against the digests. Distinct by data and kind of difference.", extra=["--scale", str(by(1, 8))])


def c20():
    return histories("C20", "alloc", 1200, 15000,
                     "one case = one object in which every heap allocation made by toString, toVector, toArray, copying, copy assignment and construction is made to fail in turn; the exception must be bad_alloc or the work be done correctly all the same, nothing may leak, and the object's digest must be what it was. "
                     "Distinct by operation and failing allocation.", alloc=True)


def c21():
    return histories("C21", "guard", 400, 20000,
                     "one case = one object fed a message (every length to two blocks and more, then random pieces) through all overloads, each piece lying against an inaccessible page at its end or start, read-only while the call runs and inaccessible afterwards, "
                     "with the rest of its page filled at random; any touch outside, write, or later touch is a fault, and the digest must be the reference's, before and after a reset. Distinct by parameters, piece lengths and content.")


# ---------------------------------------------------------------- memory safety and undefined behaviour
def leak_ok():
    """LeakSanitizer needs to trace its own process; where the sandbox forbids that, leaks are left to C20's accounting."""
    src = os.path.join(BUILD, "leakprobe.cpp")
    os.makedirs(BUILD, exist_ok=True)
    with open(src, "w") as f:
        f.write("int main(){ volatile char *p = new char[77]; p[0] = 1; p = nullptr; return 0; }\n")
    o, e = compile_obj("g++", ["-std=c++14", "-O0", "-fsanitize=address"], src)
    if not o:
        raise Harness("leak probe: " + e[-300:])
    r = run([link("g++", [o], ["-fsanitize=address"], "leakprobe")], 60, env=SANENV)
    return r["rc"] == 66 and "detected memory leaks" in r["err"]


def c13():
    res = Result("C13")
    if not leak_ok():
        SANENV["ASAN_OPTIONS"] = SANENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        res.note("LeakSanitizer does not work here: leak detection off")
    else:
        res.stat("leak_detection_on")
    plan = [("conf", by(60, 3000)), ("stream", by(60, 2000)), ("reset", by(150, 3000)), ("value", by(200, 5000)), ("access", by(100, 2000)), ("equal", by(60, 1500))]
    san = by(["gcc-c++14-asan-ubsan", "clang-c++20-asan-ubsan"], ["gcc-c++14-asan-ubsan", "clang-c++20-asan-ubsan", "gcc-c++14-O1-asan-NDEBUG", "clang-c++14-asan-ubsan-NDEBUG"])
    run_modes(res, vh.HEADERS, [(m, c, ["--quiet"] + (["--every", "4"] if m == "stream" and not T else [])) for m, c in plan], san, timeout=by(300, 6000))
    # lengths and counters beyond 32 bits
    big, _ = build_drivers(vh.HEADERS, [BIGUB])
    run_jobs(long_jobs(res, big, [(TWO, 0)] if not T else [(BIG, 0), (BIG, 1)], [], ["--quiet"], first=not T) + counter_jobs(res, big, by(300, 5000), ["--quiet"]))
    # reads of uninitialised memory: memcheck on the unsanitized code
    vg = ("valgrind", "-q", "--error-exitcode=70", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=no", "--leak-check=no")
    drivers, _ = build_drivers(vh.HEADERS, ["gcc-c++14-O1-g"])
    k = by(1, 8)
    jobs = [(d, a, m, n) for d in drivers for a in ALGOS[d.header] for m, n in (("access", 12 * k), ("value", 10 * k), ("equal", 6 * k), ("conf", 40 * k))]
    jobs.sort(key=lambda j: -WEIGHT.get(j[0].header, 1))

    def one(j):
        d, a, m, n = j
        # a slice of the case list: the enumerated short lengths for conf, random histories for the rest
        args = ["--quiet", "--only", a, "--cases", n]
        if m == "conf":
            args += ["--from", 2 * (SEED % 5), "--count", n]
        if m == "equal":
            args += ["--from", 1, "--count", n]
        drive(res, d, m, args, by(240, 3000), vg, "valgrind " + a)
        res.stat("runs_under_memcheck")
    pmap(one, jobs)
    res.rule = ("one case = one generated history of the kinds used by the behavioural checks (conformance, streaming, reset, value semantics, access, equality), run with AddressSanitizer, UndefinedBehaviorSanitizer, "
                "libstdc++ assertions and the library's own asserts, or under memcheck; input buffers are exact-size heap blocks at arbitrary alignments that die right after the call; also one call of more than 2^31 bytes (2^32 in the thorough tier) and preset length counters under UndefinedBehaviorSanitizer. Judged by the sanitizers alone: digests are not compared here. "
                "Distinct by history shape as in those checks.")
    res.assumptions = ["what the sanitizers do not detect (intra-object overflow other than of arrays with known bounds) is not seen"]
    return res.finish(1000)


# ---------------------------------------------------------------- constant evaluation
def c14():
    import constexpr_gen as cg
    res = Result("C14")
    os.makedirs(BUILD, exist_ok=True)
    cfgs = [("g++", "c++17", []), ("clang++", "c++17", ["-DNDEBUG"]), ("g++", "c++20", ["-DNDEBUG"]), ("clang++", "c++20", [])]
    if T:
        cfgs += [("g++", "c++23", []), ("clang++", "c++23", []), ("g++", "c++17", ["-DNDEBUG"]), ("clang++", "c++17", [])]
    per = by(7, 36)
    rounds = by(1, 6)
    work = [(h, k, c) for h in cg.CLASSES for k in range(rounds) for c in cfgs]
    work.sort(key=lambda w: -WEIGHT.get(w[0], 1))
    tmp = tempfile.mkdtemp(prefix="vh-ce-")

    def one(w):
        h, k, (cxx, std, fl) = w
        name = "%s-%d" % (h, k)
        src = os.path.join(tmp, "%s-%s-%s-%d.cpp" % (name, cxx, std, len(fl)))
        text, n = cg.gen(h, SEED * 1000 + k, per, T)
        with open(src, "w") as f:
            f.write(text)
        lim = ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"] if cxx == "g++" else ["-fconstexpr-steps=2147483647"]
        flags = ["-std=" + std, "-w", "-O1", "-I" + SRC] + fl + lim
        exe = src[:-4] + ".exe"
        rep = dict(kind="constexpr", header=h, compiler=cxx, flags=[f for f in flags if not f.startswith("-I")], source=text)
        r = run([cxx] + flags + [src, "-o", exe], by(300, 2000))
        if r["timeout"]:
            raise Harness("compiling %s took too long" % src)
        with res.lock:
            res.evaluations += n
        res.stat("translation_units")
        if r["rc"]:
            ctl = src[:-4] + "-ctl.cpp"
            with open(ctl, "w") as f:
                f.write(cg.control(h))
            q = run([cxx] + flags + ["-fsyntax-only", ctl], 300)
            if q["rc"]:
                res.note("%s.h does not build with %s -std=%s: left to the configuration check" % (h, cxx, std))
                return
            first = [x for x in r["err"].splitlines() if "error" in x][:3]
            if any("internal compiler error" in x or "Killed" in x for x in first) or not first:
                raise Harness("compiler failed: " + r["err"][-400:])
            res.violation("%s:constexpr:not-constant" % h, "%s -std=%s %s: a digest computation that must be usable in a constant expression is not: %s" % (cxx, std, " ".join(fl), " | ".join(first)), rep)
            return
        q = run([exe], 120)
        if q["timeout"]:
            raise Harness("constexpr program did not finish")
        for line in q["out"].splitlines():
            if line.startswith("DIFF"):
                res.violation("%s:constexpr:differs" % h, "%s -std=%s %s: %s" % (cxx, std, " ".join(fl), line[5:]), rep)
        if q["rc"] not in (0, 1):
            res.violation("%s:constexpr:crash" % h, "%s -std=%s: comparison program ended with %s: %s" % (cxx, std, q["rc"], crash_text(q)), rep)
        else:
            m = re.search(r"EVALS (\d+)", q["out"])
            got = int(m.group(1)) if m else 0
            if got != n:
                raise Harness("%s: %d of %d comparisons ran" % (h, got, n))
            res.stat("compared_with_run_time", got)
            if (cxx, std) == cfgs[0][:2] and not fl:
                with res.lock:
                    res.distinct += n
            res.sample("%s with %s -std=%s %s: %d values computed during compilation equal the run-time ones" % (h, cxx, std, " ".join(fl), got))
    try:
        pmap(one, work)
    finally:
        shutil.rmtree(tmp)
    res.stat("configurations", len(cfgs))
    res.rule = ("one evaluation = one value (digest, conversion, std::hash, equality) of a random message around the block and padding boundaries, computed inside a constexpr variable by one of six call sequences "
                "(array, span, two pieces, byte by byte, after a reset, on a copy) and compared with the value the same program computes at run time through the pointer overload. The compiler's constant evaluator, which rejects undefined "
                "behaviour, is a second judge. Distinct: the values of one configuration (the same messages are used in the others).")
    res.assumptions = ["only the classes that can be constant-evaluated at all are covered: the Keccak family holds std::vector or std::string state and HAS_160 is not constexpr"]
    return res.finish(100)


# ---------------------------------------------------------------- configurations
def c15_configs():
    cpu = next((x for x in open("/proc/cpuinfo") if x.startswith("flags")), "").split()
    wide = ["-march=haswell"] if "avx2" in cpu and "bmi2" in cpu and "fma" in cpu else []  # the code paths a newer machine would take
    if wide and "sha_ni" in cpu:
        wide += ["-msha"]
    o = [("g++", "c++14", "-O0"), ("g++", "c++17", "-O3", "-DNDEBUG", *wide), ("g++", "c++20", "-O2", "-DNDEBUG", "-funsigned-char"), ("g++", "gnu++23", "-Os"),
         ("clang++", "c++14", "-O3", "-DNDEBUG", *wide), ("clang++", "c++17", "-O0", "-funsigned-char"), ("clang++", "gnu++20", "-O1"), ("clang++", "c++23", "-O2", "-DNDEBUG")]
    if T:
        o = [(c, s, O, *nd) for c in ("g++", "clang++") for s in ("c++14", "c++17", "c++20", "c++23") for O in ("-O0", "-O2", "-O3") for nd in ((), ("-DNDEBUG",))]
        o += [("g++", "gnu++14", "-O3", "-funsigned-char"), ("clang++", "gnu++20", "-Os", "-funsigned-char"), ("g++", "c++20", "-O2", "-D_GLIBCXX_DEBUG"), ("g++", "c++17", "-Os", "-D_FORTIFY_SOURCE=3"),
              ("clang++", "c++17", "-O2", "-ffast-math"), ("g++", "c++14", "-O3", "-funroll-loops", "-fno-strict-aliasing"), ("g++", "c++26", "-O2"), ("clang++", "c++26", "-O2")]
        if wide:
            o += [("g++", "c++17", "-O3", *wide), ("clang++", "c++14", "-O3", "-DNDEBUG", *wide)]
    return o


def first_errors(text, n=3):
    ls = [x.strip() for x in text.splitlines() if "error" in x or "undefined reference" in x or "multiple definition" in x]
    return " | ".join(x[:200] for x in ls[:n]) or text.strip()[-300:]


def c15():
    import config_gen as cg
    res = Result("C15")
    os.makedirs(BUILD, exist_ok=True)
    vs = [variant(*c) for c in c15_configs()]
    # the tree must work in the plainest configuration before configurations can be compared
    base, _ = build_drivers(vh.HEADERS, [G14])
    want = {}

    def dump(d):
        lines = drive(res, d, "dump", ["--cases", by(60, 600)], by(240, 1200)).splitlines()
        return {tuple(x.split(" ")[1:3]): x for x in lines if x.startswith("DUMP ")}

    def dump_base(d):
        want[d.header] = dump(d)
    pmap(dump_base, base)

    def one(t):
        h, v = t
        d = build_driver(h, v.name)
        if not d.exe:
            res.violation("%s:config:build" % h, "%s.h cannot be used with %s: %s" % (h, v.name, first_errors(d.err)), dict(kind="config", header=h, variant=v.name, compiler=v.cxx, flags=v.flags))
            return
        got = dump(d)
        res.stat("driver_configurations_compared")
        for k, line in want[h].items():
            if k not in got:
                res.violation("%s:config:missing" % h, "%s: %s stops before case %s" % (v.name, h, k[0]), dict(kind="config", header=h, variant=v.name, mode="dump"))
                break
            if got[k] != line:
                res.violation("%s:config:differs" % k[1], "%s gives [%s], %s gives [%s]" % (v.name, got[k], G14, line), dict(kind="config", header=h, variant=v.name, mode="dump", case=int(k[0])))
                break
    pmap(one, sorted([(h, v) for h in vh.HEADERS for v in vs], key=lambda t: -WEIGHT.get(t[0], 1) - (2 if "-O0" not in t[1].flags else 0)))

    # all headers at once: every header first once, in several configurations, on their own and linked together
    orders = by(1, 4)
    small = [("g++", "c++14", "-O0"), ("clang++", "c++20", "-O0", "-DNDEBUG"), ("g++", "c++17", "-O0", "-DNDEBUG"), ("clang++", "c++14", "-O0")]
    if T:
        small += [("g++", "c++20", "-O2"), ("clang++", "c++23", "-O2", "-DNDEBUG"), ("g++", "c++23", "-O0"), ("clang++", "c++17", "-O2")]
    tmp = tempfile.mkdtemp(prefix="vh-cfg-")
    results, objs, lock = {}, {}, res.lock

    def static_life(out, name, rep):
        for x in [x for x in out.splitlines() if x.startswith("STATIC ")][:1]:
            res.violation("static-life:differs", "%s: in a global object's %s" % (name, x[7:]), rep)

    def unit(t):
        i, first, k = t
        v = variant(*small[i % len(small)])
        tag = "%s_%d" % (first, k)
        hs = cg.order(first, "%d.%d" % (SEED, k))
        src = os.path.join(tmp, "u_%s.cpp" % tag)
        with open(src, "w") as f:
            f.write(cg.unit(hs, tag, i % 5 == 0))
        m = os.path.join(tmp, "m_%s.cpp" % tag)
        with open(m, "w") as f:
            f.write(cg.main_unit([tag]))
        rep = dict(kind="include-order", order=hs, compiler=v.cxx, flags=v.flags)
        o, e = compile_obj(v.cxx, v.flags, src, ["-I" + SRC])
        if not o:
            res.violation("include-order:build", "including %s first with %s: %s" % (first, v.name, first_errors(e)), rep)
            return
        mo, e = compile_obj(v.cxx, v.flags, m)
        if not mo:
            raise Harness("main unit: " + e[-300:])
        r = run([link(v.cxx, [o, mo], [], "order")], 120)
        if r["rc"] or r["timeout"]:
            res.violation("include-order:crash", "including %s first with %s: %s" % (first, v.name, crash_text(r)), rep)
            return
        static_life(r["out"], v.name, rep)
        with lock:
            results[tag] = ([x for x in r["out"].splitlines() if not x.startswith(("UNIT", "STATIC "))], v, rep, first)
            objs.setdefault(v.name, []).append((tag, o))
            res.evaluations += 1
            res.distinct += 1
        res.stat("include_orders_run")
    pmap(unit, [(i, f, k) for k in range(orders) for i, f in enumerate(vh.HEADERS)])
    try:
        if results:
            # what most orders give, line by line
            tally = {}
            for lines, _, _, _ in results.values():
                for x in lines:
                    tally.setdefault(x.split(" ")[0], {}).setdefault(x, 0)
                    tally[x.split(" ")[0]][x] += 1
            for tag, (lines, v, rep, first) in sorted(results.items()):
                for x in lines:
                    alg = x.split(" ")[0]
                    top = max(tally[alg].items(), key=lambda kv: kv[1])[0]
                    if x != top:
                        res.violation("include-order:differs", "%s with %s included first (%s) gives [%s], in other orders [%s]" % (alg, first, v.name, x, top), rep)
                        break
        for name, lst in sorted(objs.items()):
            v = VARIANTS[name]
            m = os.path.join(tmp, "link_%s.cpp" % abs(hash(name)))
            with open(m, "w") as f:
                f.write(cg.main_unit([t for t, _ in lst]))
            mo, e = compile_obj(v.cxx, v.flags, m)
            exe = os.path.join(tmp, "linked")
            r = run([v.cxx, mo] + [o for _, o in lst] + ["-o", exe], 300)
            rep = dict(kind="multi-tu", units=[t for t, _ in lst], compiler=v.cxx, flags=v.flags)
            if r["rc"]:
                res.violation("multi-tu:link", "%d translation units that include every header do not link (%s): %s" % (len(lst), name, first_errors(r["err"])), rep)
                continue
            q = run([exe], 300)
            res.evaluations += 1
            res.stat("translation_units_linked_together", len(lst))
            tag, seen = None, 0
            static_life(q["out"], name, rep)
            for x in q["out"].splitlines():
                if x.startswith("STATIC "):
                    continue
                if x.startswith("UNIT "):
                    tag = x[5:]
                    continue
                seen += 1
                if x not in results[tag][0]:
                    res.violation("multi-tu:differs", "linked with other units (%s) %s gives [%s]" % (name, tag, x), rep)
                    break
            if q["rc"] or q["timeout"] or seen != sum(len(results[t][0]) for t, _ in lst):
                res.violation("multi-tu:crash", "the linked program (%s) ended with %s: %s" % (name, q["rc"], crash_text(q)), rep)
    finally:
        shutil.rmtree(tmp)
    for v in vs[:6]:
        res.sample("%d headers built alone with %s and compared with %s" % (len(vh.HEADERS), v.name, G14), 20)
    res.stat("configurations", len(vs) + 1)
    res.rule = ("one evaluation = one generated case (message, parameters, call sequence) whose digest, strings, conversions, std::hash and equality are read in one configuration (compiler, standard, optimisation, NDEBUG, char signedness) and compared "
                "with gcc C++14, or one program that includes all 30 headers in a random order with a chosen header first and runs a battery over every class, compared with the other orders, with the same unit linked together with others, and with what a global object computes before all others are initialised and after they are gone. "
                "Distinct: cases of one configuration, and orders.")
    res.assumptions = ["configurations are x86-64 with libstdc++ only: no other target, standard library or byte order is installed here"]
    return res.finish(500)


# ---------------------------------------------------------------- threads
def c16():
    res = Result("C16")
    tsan = ["gcc-c++14-tsan", "clang-c++20-tsan"]
    plain = by(["gcc-c++14-O2"], ["gcc-c++14-O2", C20N])
    drivers, skipped = build_drivers(vh.HEADERS, tsan + plain, main="threads")
    for d in skipped:
        res.note("%s.h does not build as %s: left to the configuration check" % (d.header, d.variant))
    jobs = []
    for d in drivers:
        t = "tsan" in d.variant
        n = len(ALGOS[d.header])
        w = WEIGHT.get(d.header, 1)
        jobs.append((w, d, ["--cases", by(25 if t else 60, 800 if t else 3000)], "%s bulk" % d.variant))
        # fresh processes that do one thing, so that shared state made on first use is still unmade
        for i in range(4 * n):
            jobs.append((0, d, ["--cases", 1, "--from", i, "--count", 1], "%s fresh %d" % (d.variant, i)))
    jobs.sort(key=lambda j: -j[0])

    def one(j):
        _, d, args, tag = j
        drive(res, d, "threads", args, by(240, 3000), (), tag)
    pmap(one, jobs, max(2, JOBS // 2))
    res.rule = ("one case = one round with 2 to 6 threads of one kind: threads with objects of their own (construct, feed, copy, reset, finalize, read), threads reading, comparing and copying one finalized object, "
                "threads copying one absorbing object and finishing their copies, or one object handed round under a lock while each thread also uses its own; random delays are injected between calls. Everything the threads saw is compared with a "
                "single-threaded repetition afterwards, and ThreadSanitizer watches every access in two of the builds. Distinct: orders in which the threads' calls were observed to interleave.")
    res.assumptions = ["ThreadSanitizer sees the library code and the C++ runtime's intercepted calls; the interleavings are the ones the scheduler and the injected delays produced"]
    if not res.stats.get("thread_switches_observed"):
        raise Harness("no interleaving was observed")
    return res.finish(500)


# ---------------------------------------------------------------- the bundled span
def c19():
    res = Result("C19")
    os.makedirs(BUILD, exist_ok=True)
    vs = [VARIANTS["gcc-c++14-asan-ubsan"], variant("clang++", "c++17", "-O2", "-DNDEBUG"), variant("g++", "c++17", "-O3", "-DNDEBUG"), variant("clang++", "c++14", "-O1", *vh.SAN, link=vh.SAN)]
    per, procs = by(1500, 40000), 4

    def build(v):
        o, e = compile_obj(v.cxx, v.flags, os.path.join(VERIF, "harness", "spancheck.cpp"), ["-I" + SRC])
        if not o:
            raise Harness("spancheck with %s: %s" % (v.name, e[-800:]))
        return v, vh.Driver("gsl/span", v.name, link(v.cxx, [o], v.link, "spancheck"), None)
    ds = pmap(build, vs)
    jobs = [(d, k) for _, d in ds for k in range(procs)]
    n = per // procs
    pmap(lambda j: drive(res, j[0], "span", ["--cases", per, "--from", j[1] * n, "--count", n], by(240, 3000), (), str(j[1])), jobs)
    res.rule = ("one case = a chain of random views (first, last, subspan, static and dynamic, conversions, byte views, iterators, containers, comparison, copy, at) over an exact-size heap block, every result compared element address by element address with "
                "a (base, offset, length) model; and calls outside the contract (index, count, offset + count, null with a count, iterators moved out of range or mixed, wrong fixed extent), each made in a child process that must reach std::terminate. "
                "Distinct: operation, length and arguments.")
    res.assumptions = ["this is the span the library uses in C++14 and C++17; in C++20 std::span takes its place and is not judged"]
    return res.finish(500)


def c24():
    res = Result("C24")
    os.makedirs(BUILD, exist_ok=True)
    vs = [VARIANTS["gcc-c++14-asan-ubsan"], variant("clang++", "c++17", "-O2", "-DNDEBUG"), variant("g++", "c++20", "-O3"), variant("clang++", "c++14", "-O1", *vh.SAN, link=vh.SAN)]
    per, procs = by(600, 20000), 4

    def build(v):
        o, e = compile_obj(v.cxx, v.flags, os.path.join(VERIF, "harness", "gslcheck.cpp"), ["-I" + SRC])
        if not o:
            raise Harness("gslcheck with %s: %s" % (v.name, e[-800:]))
        return vh.Driver("gsl", v.name, link(v.cxx, [o], v.link, "gslcheck"), None)
    n = per // procs
    pmap(lambda j: drive(res, j[0], "gsl", ["--cases", per, "--from", j[1] * n, "--count", n], by(240, 3000), (), str(j[1])), [(d, k) for d in pmap(build, vs) for k in range(procs)])
    res.rule = ("one case = random uses of not_null and strict_not_null (raw, shared, unique and user-made pointers), finally, narrow between all integer widths and some floating values, narrow_cast, at on seven kinds of sequence, copy, make_span, byte operations, "
                "Expects and Ensures; results compared with what plain C++ computes (narrowing in 128-bit integers), and uses outside a contract made in a child process that must reach std::terminate. Distinct by operation and arguments.")
    res.assumptions = ["the library itself uses only span and what span needs of these"]
    return res.finish(500)


# ---------------------------------------------------------------- cost
def c22():
    import cli
    res = Result("C22")
    drivers, skipped = build_drivers(vh.HEADERS, ["clang-c++14-cost", "clang-c++20-cost"], main="cost")
    for d in skipped:
        res.note("%s.h does not build as %s: left to the configuration check" % (d.header, d.variant))
    jobs = sorted([(WEIGHT.get(d.header, 1), d, a) for d in drivers for a in ALGOS[d.header]], key=lambda j: -j[0])
    pmap(lambda j: drive(res, j[1], "cost", ["--only", j[2], "--cases", by(25, 1200)], by(240, 3000), (), j[2]), jobs)
    if res.stats.get("uncounted"):
        raise Harness("the block counter saw nothing")
    cli.memory(res)
    res.rule = ("one case = one object with chosen parameters, overload and piece size: a message of 8 to 16 KiB, one 16 times as long and one of 8 MiB (1 MiB for MD2) in one call, then many equal pieces (0, 1, 3, 8 bytes, around one block, random) with every call compared with the first ones, "
                "200 lives of one object, and for variable outputs two output lengths. Measured in basic blocks executed in the library, bytes copied by memory functions, and heap bytes in use; or one run of the program on a short and a long input "
                "with its peak memory compared. Distinct by class, piece size, overload and length.")
    res.assumptions = ["work inside the C++ runtime other than copying and filling memory is not counted", "bounds are generous: work up to 1.25 times linear, 128 KiB of heap, 24 MiB of process memory"]
    return res.finish(200)


CHECKS = {**{k: (lambda k=k: digests(k)) for k in DIG}, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": lambda: __import__("cli").c17(), "C18": lambda: __import__("cli").c18(), "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": lambda: __import__("port").c23(), "C24": c24}

if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py <%s>" % "|".join(sorted(CHECKS)))
        sys.exit(2)
    vh.main(sys.argv[1], CHECKS[sys.argv[1]])

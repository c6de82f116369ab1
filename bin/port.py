"""C23: the same battery on emulated MIPS machines of either byte order and word size, on 32-bit x86, and here."""
import os
import re
import shutil
import tempfile

import vh
from vh import Result, Harness, compile_obj, link, pmap, run, SRC, VERIF, VARIANTS, variant, WEIGHT

P = os.path.join(VERIF, "harness", "port")
UB = ["-fsanitize=undefined", "-fno-sanitize=function,vptr", "-fsanitize-trap=all"]
SYS = ["-nostdinc++", "-isystem", P + "/inc", "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13",
       "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include"]
ALONE = ["-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-stack-protector", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D__NO_MATH_ERRNO__"]
MIPS32 = ["-mno-abicalls", "-fno-pic", "-march=mips32r2", "-msoft-float"]
MIPS64 = ["-mno-abicalls", "-fno-pic", "-march=mips64r2", "-mabi=64", "-msoft-float"]
TARGETS = {"be32": ("mips-linux-gnu", MIPS32), "le32": ("mipsel-linux-gnu", MIPS32), "be64": ("mips64-linux-gnuabi64", MIPS64),
           "le64": ("mips64el-linux-gnuabi64", MIPS64), "x86-32": ("i386-linux-gnu", ["-fno-pic", "-mstackrealign", "-march=pentium4"])}
LONG = {"be32": "a big-endian 32-bit machine", "le32": "a little-endian 32-bit machine", "be64": "a big-endian 64-bit machine",
        "le64": "another little-endian 64-bit machine", "x86-32": "32-bit x86"}
# which headers get a message longer than 2^29 bytes: those a compiled 32-bit program hashes in seconds
HUGE_SKIP = {"md2", "siphash", "fnv"}


def flags_of(target, std, opt):
    triple, arch = TARGETS[target]
    return ["--target=" + triple] + arch + ["-std=" + std] + list(opt) + ALONE + SYS


def gcc_paths():
    """The C++ library's headers, wherever this machine keeps them."""
    r = run(["g++", "-xc++", "-E", "-v", "/dev/null"], 60)
    m = re.search(r"search starts here:\n(.*?)End of search", r["err"][r["err"].find("#include <...>"):], re.S)
    ds = [x.strip() for x in m.group(1).splitlines()] if m else []
    ds = [os.path.normpath(d) for d in ds if os.path.isdir(d) and "/gcc/" not in d]
    if ds:
        del SYS[3:]
        for d in ds:
            SYS.extend(["-isystem", d])


def build(target, std, opt, source, extra, tag):
    """Returns (program, None) or (None, diagnostics)."""
    fl = flags_of(target, std, opt)
    o, e = compile_obj("clang++", fl, source, extra)
    if not o:
        return None, e
    plain = flags_of(target, std, ["-O1"])
    rt, e1 = compile_obj("clang++", plain + ["-fno-builtin", "-ffreestanding"], os.path.join(P, "portrt.cpp"))
    st, e2 = compile_obj("clang++", plain, os.path.join(P, "strings.cpp"))
    if not rt or not st:
        raise Harness("cannot build the runtime for %s: %s" % (target, (e1 or e2)[-800:]))
    try:
        return link("ld.lld", [o, rt, st], ["-static", "--image-base=0x400000", "-e", "__start"], tag), None
    except Harness as ex:  # something of the library that the small runtime has not got: this header is left out, and counted
        return None, "link: " + str(ex)


def execute(target, exe, emu, timeout):
    if target == "x86-32":
        return run([exe], timeout, cap=64 << 20)
    return run([emu, exe, "8000"], timeout, cap=64 << 20)


def c23():
    res = Result("C23")
    os.makedirs(vh.BUILD, exist_ok=True)
    T = vh.THOROUGH
    gcc_paths()
    eo, e = compile_obj("g++", ["-std=c++17", "-O2"], os.path.join(P, "mipsemu.cpp"))
    if not eo:
        raise Harness("emulator: " + e[-500:])
    emu = link("g++", [eo], [], "mipsemu")
    cfgs = [("be32", "c++14", ["-O1"] + UB), ("be64", "c++20", ["-O2"]), ("le32", "c++17", ["-O2", "-DNDEBUG"]), ("x86-32", "c++17", ["-O2"])]
    if T:
        cfgs += [("be32", "c++20", ["-O2", "-DNDEBUG"]), ("be32", "c++17", ["-O3"]), ("be64", "c++14", ["-O1"] + UB), ("le64", "c++17", ["-O2"]), ("le32", "c++14", ["-O1"] + UB), ("x86-32", "c++20", ["-O3", "-DNDEBUG"]), ("x86-32", "c++14", ["-O1"] + UB)]
    # nothing a machine says is believed before it computes what this one computes
    def native(source, extra, tag):
        v = VARIANTS["gcc-c++17-O2"]
        o, err = compile_obj(v.cxx, v.flags, source, ["-DVH_NATIVE"] + extra)
        if not o:
            return None, err
        return link(v.cxx, [o], [], tag), None
    isa = os.path.join(P, "isatest.cpp")
    want = run([native(isa, [], "isatest")[0]], 120)["out"]
    if not want.endswith("END\n"):
        raise Harness("the arithmetic test does not run here")
    usable = []

    def probe(c):
        target, std, opt = c
        exe, err = build(target, std, [x for x in opt if "sanitize" not in x], isa, [], "isatest-" + target)
        if not exe:
            raise Harness("arithmetic test for %s: %s" % (target, err[-500:]))
        r = execute(target, exe, emu, 300)
        if r["rc"] == 0 and r["out"] == want:
            usable.append(c)
        elif target == "x86-32":
            res.note("32-bit x86 programs do not run here: left to the emulated 32-bit machines")
        else:
            raise Harness("the emulated machine %s computes differently: rc %s %s" % (target, r["rc"], r["err"][-300:]))
    pmap(probe, cfgs)
    usable.sort(key=cfgs.index)
    res.stat("machines_validated", len({c[0] for c in usable}))
    src = os.path.join(P, "port.cpp")
    level = 6 if T else 1

    def header(h, seed):
        defs = ["-I" + SRC, '-DVH_HEADER="%s.h"' % h, "-DVH_" + h, "-DVH_LEVEL=%d" % level, "-DVH_SEED=%d" % seed]
        exe, err = native(src, defs, "port-" + h)
        if not exe:
            raise Harness("%s.h does not build here: %s" % (h, err[-800:]))
        r = run([exe], 600, cap=64 << 20)
        if r["rc"] or not re.search(r"END \d+\n$", r["out"]):
            raise Harness("the battery for %s.h does not finish here (rc %s): %s" % (h, r["rc"], r["err"][-300:]))
        return defs, r["out"].splitlines()

    def compare(h, c, defs, lines, what, huge=False):
        target, std, opt = c
        name = "%s -std=%s %s" % (target, std, " ".join(x for x in opt if "san" not in x) + (" with undefined-behaviour traps" if UB[0] in opt else ""))
        rep = dict(kind="port", header=h, target=target, std=std, options=list(opt), defines=[d for d in defs if d.startswith("-D")])
        exe, err = build(target, std, opt, src, defs, "port-%s-%s" % (target, h))
        if not exe:
            first = [x for x in err.splitlines() if "error:" in x][:1]
            if first and os.path.normpath(first[0].split(":")[0]).startswith(os.path.normpath(SRC)) and not re.search("file not found|exceptions disabled|rtti", first[0]):
                res.violation("%s:port:build" % h, "%s.h does not compile for %s (%s): %s" % (h, LONG[target], name, first[0]), rep)
            else:
                res.note("%s.h cannot be built for %s: %s" % (h, target, (first or [err[-200:]])[0][:200]))
                res.stat("not_built")
            return
        r = execute(target, exe, emu, 3600 if T else 600)
        if r["timeout"]:
            raise Harness("%s for %s took too long" % (h, target))
        got = r["out"].splitlines()
        m = re.search(r"INSTRUCTIONS (\d+)", r["err"])
        if m:
            res.stat("instructions_emulated", int(m.group(1)))
        bad = next((i for i in range(max(len(got), len(lines))) if i >= len(got) or i >= len(lines) or got[i] != lines[i]), None)
        with res.lock:
            res.evaluations += len(got)
        res.stat("lines_%s" % target, len(got))
        if r["rc"] in (80, 82) or (r["rc"] < 0 and target != "x86-32") or r["rc"] == 127:
            raise Harness("emulated %s cannot run %s: %s" % (target, h, r["err"][-300:]))
        if r["rc"] != 0:
            why = {70: "misaligned access", 71: "access outside memory", 72: "undefined behaviour (trap)", 73: "abort or failed assertion", 81: "it does not finish"}.get(r["rc"], "exit status %s" % r["rc"])
            txt = next((x for x in got if x.startswith("ASSERT")), "")
            res.violation("%s:port:crash" % h, "on %s (%s) the %s ends with %s after %d of %d cases %s; last: %s" % (LONG[target], name, what, why, bad if bad is not None else len(got), len(lines), txt, (got or ["-"])[-1][:160]), rep)
        elif bad is not None:
            res.violation("%s:port:differs" % h, "on %s (%s): [%s], on 64-bit little-endian x86: [%s]" % (LONG[target], name, got[bad][:330] if bad < len(got) else "-", lines[bad][:330] if bad < len(lines) else "-"), rep)
        else:
            res.sample("%s on %s: %d lines equal, among them %s" % (h, name, len(got), got[len(got) // 3][:150]))

    hs = sorted(vh.HEADERS, key=lambda h: -WEIGHT.get(h, 1))
    refs, jobs = {}, []

    def prepare(h):
        return h, header(h, vh.SEED)
    for h, (defs, lines) in pmap(prepare, hs):
        refs[h] = (defs, lines)
        res.distinct += len(set(lines))
        for ln in lines:
            if " views differ" in ln or " unequal" in ln or " long differs" in ln:
                res.stat("odd_native_lines")
    jobs = [(WEIGHT.get(h, 1) * (3 if UB[0] in c[2] else 1), h, c) for h in hs for c in usable]
    # messages of more than 2^29 bytes, whose length in bits does not fit in 32
    hj = []
    if any(c[0] == "x86-32" for c in usable):
        c = [c for c in usable if c[0] == "x86-32"][0]
        hj = [(60 + 20 * WEIGHT.get(h, 1), h, c, True) for h in hs if h not in HUGE_SKIP]
    jobs = sorted([j + (False,) for j in jobs] + hj, key=lambda j: -j[0])

    def one(j):
        _, h, c, huge = j
        defs, lines = refs[h]
        if huge:
            defs = [d for d in defs] + ["-DVH_HUGE"]
            exe, err = native(src, defs, "porthuge-" + h)
            if not exe:
                raise Harness("%s.h does not build here: %s" % (h, err[-500:]))
            r = run([exe], 900, cap=64 << 20)
            if r["rc"]:
                raise Harness("huge battery for %s.h: rc %s" % (h, r["rc"]))
            lines = r["out"].splitlines()
            res.stat("huge_messages", sum(" huge " in ln for ln in lines))
            with res.lock:
                res.distinct += sum(" huge " in ln for ln in lines)
        compare(h, c, defs, lines, "battery", huge)
    pmap(one, jobs)
    res.rule = ("one case = one object fed one generated message (every length to two blocks and more, random lengths, around 2^13) through one of seven overloads in one of several divisions, with a reset, a copy or an assignment on the way, and everything that can be read from it "
                "(string, vector, array, six integer conversions, equality, agreement of the standard hash), printed as a line of text by the same program built for, and run on, each machine; lines compared with those of the 64-bit little-endian program. "
                "On 32-bit x86 also messages of 2^29+77 bytes in one call and in chunks. Non-trivial: all; distinct: different lines.")
    res.assumptions = ["mipsemu and the small runtime behave like a MIPS machine with a C library: in every run they must first print what this machine prints for a test of integer and floating arithmetic, memory and control flow at the same optimisation levels",
                       "MIPS stands for all big-endian machines and, with 32-bit x86, for all 32-bit ones", "compiled by clang, with libstdc++'s headers"]
    return res.finish(2000)

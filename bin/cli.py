"""C17 and C18: the command-line program, run for real."""
import errno
import os
import random
import re
import resource
import shutil
import signal
import socket
import stat
import struct
import subprocess
import tempfile
import threading
import time
import zlib
import vh
from vh import *          # noqa: F401,F403

T = vh.THOROUGH
OPTS = {"-blake1-224": "blake224", "-blake1-256": "blake256", "-blake1-384": "blake384", "-blake1-512": "blake512", "-blake2": "blake2b", "-blake2s": "blake2s", "-crc-32": "crc32",
        "-fnv32_1a": "fnv32_1a", "-fnv64_1a": "fnv64_1a", "-has160": "has160", "-md2": "md2", "-md4": "md4", "-md5": "md5",
        "-ripemd-128": "rmd128", "-ripemd-160": "rmd160", "-ripemd-256": "rmd256", "-ripemd-320": "rmd320", "-siphash": "siphash", "-sha1": "sha1",
        "-sha2-224": "sha224", "-sha2-256": "sha256", "-sha2-384": "sha384", "-sha2-512": "sha512", "-sha2-512-224": "sha512_224", "-sha2-512-256": "sha512_256",
        "-sha3-224": "sha3_224", "-sha3-256": "sha3_256", "-sha3-384": "sha3_384", "-sha3-512": "sha3_512", "-sm3": "sm3",
        "-tiger1-128": "tiger1_128", "-tiger1-160": "tiger1_160", "-tiger1-192": "tiger1_192", "-tiger2-128": "tiger2_128", "-tiger2-160": "tiger2_160", "-tiger2-192": "tiger2_192", "-whirlpool": "whirlpool"}
LEN = {"-shake-128": "shake128", "-shake-256": "shake256"}
LENCUSTOM = {"-cshake-128": "cshake128", "-cshake-256": "cshake256", "-tuple-hash-128": "tuple128", "-tuple-hash-256": "tuple256"}
ALL = list(OPTS) + list(LEN) + list(LENCUSTOM)
CLIENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:handle_abort=0", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=67:print_stacktrace=1"}
MIB = 1 << 20


def program(cxx, flags, lnk=()):
    os.makedirs(BUILD, exist_ok=True)
    o, e = compile_obj(cxx, flags, os.path.join(SRC, "program", "main.cpp"))
    if not o:
        raise Harness("the program does not build (%s %s): %s" % (cxx, " ".join(flags), e[-800:]))
    return link(cxx, [o], lnk, "hash")


def programs(which):
    table = {"plain": ("g++", ["-std=c++14", "-O2"], []), "san": ("clang++", ["-std=c++14", "-O1"] + vh.SAN + ["-D_GLIBCXX_ASSERTIONS"], vh.SAN), "clang20": ("clang++", ["-std=c++20", "-O2", "-DNDEBUG"], [])}
    return dict(zip(which, pmap(lambda w: program(*table[w]), which)))


def shim():
    o, e = compile_obj("gcc", ["-O1", "-fPIC"], os.path.join(VERIF, "harness", "readfault.c"))
    if not o:
        raise Harness("shim: " + e[-300:])
    return link("gcc", [o], ["-shared", "-ldl"], "readfault.so")


class Oracle:
    def __init__(self):
        exe = link("g++", [harness_obj("clioracle"), harness_obj("refreg")], [], "clioracle")
        self.ps = [subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE) for _ in range(JOBS)]
        self.free, self.cv, self.memo = list(self.ps), threading.Condition(), {}

    def __call__(self, ref, length, custom, path):
        k = (ref, length, custom, path)
        if k in self.memo:
            return self.memo[k]
        with self.cv:
            while not self.free:
                self.cv.wait()
            p = self.free.pop()
        try:
            p.stdin.write(("%s %d x%sx %s\n" % (ref, length, custom.hex(), path)).encode())
            p.stdin.flush()
            line = p.stdout.readline().decode().strip()
        finally:
            with self.cv:
                self.free.append(p)
                self.cv.notify()
        if not line.startswith("="):
            raise Harness("no answer from the command-line oracle: %r for %r" % (line, k))
        self.memo[k] = line[1:]
        return line[1:]

    def close(self):
        for p in self.ps:
            p.stdin.close()
            p.wait()


HANGS = []       # runs that did not end; after a few there is nothing more to learn from waiting for others


def given_up(res):
    if len(HANGS) < 3:
        return False
    res.stat("runs_skipped_after_three_that_did_not_end")
    return True


def invoke(cmd, timeout=60, stdin=subprocess.DEVNULL, cwd=None, env=None, feeder=None, close_stdin=False, uid=None, pre2=None):
    """Returns (rc, stdout, stderr); rc None: did not end."""
    def pre():
        os.setsid()
        if pre2:
            pre2()
        if close_stdin:
            os.close(0)
        if uid:
            os.setgid(uid)
            os.setuid(uid)
    p = subprocess.Popen(cmd, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env or CLIENV, preexec_fn=pre)
    th = None
    if feeder:
        th = threading.Thread(target=feeder, args=(p,), daemon=True)
        th.start()
    out, err, rc = [], [], None

    def rd(f, acc):
        acc.append(f.read(1 << 24))
        f.close()
    ts = [threading.Thread(target=rd, args=(p.stdout, out), daemon=True), threading.Thread(target=rd, args=(p.stderr, err), daemon=True)]
    for t in ts:
        t.start()
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        HANGS.append(cmd)
        p.kill()
        p.wait()
    for t in ts:
        t.join(20)
    if th:
        th.join(20)
    return rc, (out or [b""])[0], (err or [b""])[0]


def show(b):
    return repr(b[:200])[2:-1]


def argv_of(opt, length, custom, name):
    o = opt.encode()
    if opt in OPTS:
        return [o, name]
    if opt in LEN:
        return [o, str(length).encode(), name]
    return [o, str(length).encode(), custom, name]


def content(rnd, n):
    k = rnd.randrange(5)
    if k == 0:
        return rnd.randbytes(n)
    if k == 1:
        return bytes(n)
    if k == 2:
        return (b"line of text\r\n\x1a\x00\xff\n" * (n // 18 + 1))[:n]
    if k == 3:
        return (rnd.randbytes(1000) * (n // 1000 + 1))[:n]
    return (b"\n" * n)


NAMES = [b"plain.bin", b"with space", b"-x", b"--help", b"percent%s%n%d.txt", b"tab\there", b"caf\xc3\xa9", b"\xff\xfe raw", b"new\nline", b"'quote\"s", b"a" * 200, b"$HOME`id`", b"back\\slash", b"*?[x]", b"- ", b"--", b"---", b"-md5", b"-sha1", b"0", b".hidden", b"./-", b"././/-", b"--version", b"-1", b" ", b"a-", b"-.txt"]
CUSTOMS = [b"", b"a", b"My Customization", b"%s%n%x", b"-", b"\xc3\xa9\xff\x01", b"long " * 60, b"0", b"c" * 168, b"c" * 131, b"--", b"tuple\nhash"]
LENGTHS = [0, 1, 16, 31, 32, 33, 64, 135, 136, 137, 168, 169, 200, 255, 256, 1000, 8192, 10000, 32768, 65535, 65536, 70001]


def c17():
    res = Result("C17")
    progs = programs(["plain", "clang20"] + (["san"] if T else []))
    so = shim()
    oracle = Oracle()
    ref_of = {**OPTS, **LEN, **LENCUSTOM}
    tmp = tempfile.mkdtemp(prefix="vh-cli-")
    os.chmod(tmp, 0o755)
    rnd = random.Random("c17/%d" % SEED)
    try:
        sizes = [0, 1, 8, 55, 64, 129, 1000, 4095, 4096, 65536, 65537, 131072, MIB - 1, MIB, MIB + 1, 2 * MIB - 1, 2 * MIB, 2 * MIB + 77, 3 * MIB, 3 * MIB + 1]
        sizes += [rnd.randrange(1, 5 * MIB) for _ in range(by(4, 30))]
        files = []
        for i, n in enumerate(sizes):
            p = os.path.join(tmp, "f%03d" % i)
            with open(p, "wb") as f:
                f.write(content(rnd, n))
            files.append((p, n))
        jobs = []
        per = by(18, 120)
        for opt in ALL:
            for pn in progs:
                # every option meets every kind of source and the sizes round one and two MiB
                must = [s for s in files if s[1] in (0, MIB, MIB + 1, 2 * MIB)]
                for k in range(per if pn == "plain" else max(3, per // 3)):
                    f, n = must[k] if k < len(must) and pn == "plain" else rnd.choice(files)
                    if opt == "-md2" and n > 2 * MIB and not T:
                        f, n = must[k % len(must)]
                    jobs.append((opt, pn, f, n, ["file", "stdin", "pipe", "fifo", "short", "relative"][(k + len(opt)) % 6], rnd.choice(LENGTHS), rnd.choice(CUSTOMS), rnd.choice(NAMES), rnd.getrandbits(60)))
            # every output length and customization for the options that take them
            if opt in LEN or opt in LENCUSTOM:
                for L in LENGTHS:
                    jobs.append((opt, "plain", files[rnd.randrange(8)][0], 0, "file", L, rnd.choice(CUSTOMS), rnd.choice(NAMES), 1))
            if opt in LENCUSTOM:
                for c in CUSTOMS:
                    jobs.append((opt, "plain", files[rnd.randrange(8)][0], 0, "file", rnd.choice([4, 32, 77]), c, rnd.choice(NAMES), 1))
        for nm in NAMES:
            for fam in (OPTS, LEN, LENCUSTOM):
                jobs.append((rnd.choice(list(fam)), "plain", files[rnd.randrange(1, 8)][0], 0, "relative", rnd.choice(LENGTHS), rnd.choice(CUSTOMS), nm, 1))
        # standard input whose offset is not at the start: what is hashed is what is left to read
        for opt in ALL:
            jobs.append((opt, "plain", files[rnd.randrange(0, 12)][0], 0, "offset", rnd.choice(LENGTHS), rnd.choice(CUSTOMS), b"-", rnd.getrandbits(60)))

        # files the system reports to be empty although reading them gives bytes
        unsized = []
        for i, p in enumerate(("/proc/version", "/proc/filesystems", "/proc/kallsyms", "/proc/crypto", "/proc/devices")):
            try:
                b = [open(p, "rb").read() for _ in range(3)]
            except OSError:
                continue
            if b[0] and b[0] == b[1] == b[2] and os.stat(p).st_size == 0:
                c = os.path.join(tmp, "u%d" % i)
                with open(c, "wb") as f:
                    f.write(b[0])
                unsized.append((p, c))
        for k, opt in enumerate(ALL):
            for p, c in [u for m, u in enumerate(unsized) if m == 0 or (m + k) % len(unsized) == 0]:
                jobs.append((opt, "plain", c, 0, "unsized", rnd.choice(LENGTHS), rnd.choice(CUSTOMS), p.encode(), 1))

        def one(j):
            if given_up(res):
                return
            opt, pn, path, n, how, L, custom, name, seed = j
            r = random.Random(seed)
            d = tempfile.mkdtemp(prefix="c", dir=tmp)
            exe = progs[pn]
            env, stdin, feeder, cwd = dict(CLIENV), subprocess.DEVNULL, None, d
            arg = name
            fh = None
            try:
                target = os.path.join(d.encode(), name)
                if how in ("file", "short"):
                    os.symlink(path, target)
                    arg = target
                    if how == "short":
                        env.update(LD_PRELOAD=so, VH_SHORT=str(seed))
                        if pn == "san":
                            env.pop("LD_PRELOAD")
                elif how == "relative":
                    os.symlink(path, target)
                elif how == "unsized":
                    arg = name
                elif how == "offset":
                    arg = b"-"
                    fh = stdin = open(os.path.join(d, "o"), "w+b")
                    fh.write(r.randbytes(r.choice([1, 64, 5000])))
                    fh.flush()
                    at = fh.tell()
                    with open(path, "rb") as f:
                        fh.write(f.read())
                    fh.flush()
                    os.lseek(fh.fileno(), at, os.SEEK_SET)
                elif how == "stdin":
                    arg = b"-"
                    fh = stdin = open(path, "rb")
                elif how in ("pipe", "fifo"):
                    def pump(fd):
                        try:
                            with open(path, "rb") as f:
                                while True:
                                    k = r.choice([1, 7, 100, 4096, 65536, 300000, MIB, MIB + 5])
                                    b = f.read(k)
                                    if not b:
                                        break
                                    while b:
                                        w = os.write(fd, b)
                                        b = b[w:]
                                    if r.random() < 0.05:
                                        time.sleep(0.002)
                        except BrokenPipeError:
                            pass
                        finally:
                            os.close(fd)
                    if how == "pipe":
                        arg = b"-"
                        rd, wr = os.pipe()
                        stdin = os.fdopen(rd, "rb")
                        fh = stdin
                        # the child must not hold the writing end
                        os.set_inheritable(wr, False)

                        def feeder(p):
                            pump(wr)
                    else:
                        os.mkfifo(target)
                        arg = target

                        def feeder(p):
                            for _ in range(3000):
                                try:
                                    fd = os.open(target, os.O_WRONLY | os.O_NONBLOCK)
                                    os.set_blocking(fd, True)
                                    return pump(fd)
                                except OSError as e:
                                    if e.errno != errno.ENXIO or p.poll() is not None:
                                        return
                                    time.sleep(0.005)
                args = argv_of(opt, L, custom, arg)
                rc, out, err = invoke([exe] + args, by(120, 300), stdin, cwd, env, feeder)
                if fh:
                    fh.close()
                    fh = None
                want = oracle(ref_of[opt], L, custom if opt in LENCUSTOM else b"", path).encode() + b"  " + arg + b"\n"
                if how == "unsized":
                    with open(name, "rb") as f, open(path, "rb") as g:
                        if f.read() != g.read():
                            return
                rep = dict(kind="cli", program=pn, argv=[show(a) for a in args], source=how, bytes=os.path.getsize(path), seed=SEED)
                res.stat("source_" + how)
                with res.lock:
                    res.evaluations += 1
                    res._seen = getattr(res, "_seen", set())
                    res._seen.add((opt, os.path.basename(path), how, L if opt not in OPTS else 0, custom if opt in LENCUSTOM else b""))
                what = "%s %s of %d bytes" % (" ".join(show(a) for a in args), how, os.path.getsize(path))
                if rc is None:
                    res.violation("%s:cli:hang" % opt, "%s does not end" % what, rep)
                elif rc != 0:
                    res.violation("%s:cli:status" % opt, "%s ended with %s, stderr %s" % (what, rc, show(err)), rep)
                elif out != want:
                    res.violation("%s:cli:digest" % opt, "%s printed [%s], expected [%s]" % (what, show(out), show(want)), rep)
                elif err:
                    res.violation("%s:cli:stderr" % opt, "%s wrote to stderr: %s" % (what, show(err)), rep)
                elif seed % 37 == 0:
                    res.sample("%s -> %s" % (what, show(out[:100])))
            finally:
                if fh:
                    fh.close()
                shutil.rmtree(d)
        pmap(one, jobs)
        if T:
            # inputs past 2 and 4 GiB
            big = os.path.join(tmp, "big")
            for n in ((1 << 31) + 12345, (1 << 32) + 777):
                with open(big, "wb") as f:
                    f.write(b"start")
                    f.truncate(n)
                    f.seek(n - 3)
                    f.write(b"end")
                def bigone(opt):
                    import hashlib
                    h = {"-md5": hashlib.md5, "-sha1": hashlib.sha1, "-sha2-256": hashlib.sha256, "-blake2": hashlib.blake2b, "-sha2-512": hashlib.sha512}[opt]()
                    with open(big, "rb") as f:
                        for b in iter(lambda: f.read(1 << 22), b""):
                            h.update(b)
                    rc, out, err = invoke([progs["plain"], opt.encode(), big.encode()], 900)
                    with res.lock:
                        res.evaluations += 1
                    if rc != 0 or out != h.hexdigest().encode() + b"  " + big.encode() + b"\n":
                        res.violation("%s:cli:big" % opt, "%s of a %d byte file printed %s status %s" % (opt, n, show(out), rc), dict(kind="cli-big", option=opt, bytes=n))
                pmap(bigone, ["-md5", "-sha1", "-sha2-256", "-blake2", "-sha2-512"])
    finally:
        oracle.close()
        shutil.rmtree(tmp)
    res.distinct = len(getattr(res, "_seen", ()))
    res.stat("options", len(ALL))
    res.rule = ("one evaluation = one run of the built program with one of its 43 options on an input of 0 to 5 MiB (sizes round 1, 2 and 3 MiB included) read as a file, through a relative or awkward name, from redirected standard input, from a file whose reported size is zero (/proc/version), from a pipe or a FIFO "
                "written in irregular pieces, or with read() returning short counts; standard output must be exactly the reference digest, two spaces, the name as given and a newline, with status 0 and nothing on standard error. "
                "Distinct: option, input, source, digest length and customization.")
    res.assumptions = ["-siphash stands for SipHash-2-4 with the all-zero key and -tuple-hash-* for a tuple whose one element is the whole input, as the program's source says"]
    return res.finish(300)


# ---------------------------------------------------------------- refusals
DIGESTLINE = re.compile(rb"^[0-9a-fA-F]*  ", re.M)


def c18():
    res = Result("C18")
    progs = programs(["plain", "san"])
    so = shim()
    tmp = tempfile.mkdtemp(prefix="vh-cli-")
    os.chmod(tmp, 0o755)
    rnd = random.Random("c18/%d" % SEED)
    good = os.path.join(tmp, "good.bin").encode()
    with open(good, "wb") as f:
        f.write(rnd.randbytes(3 * MIB + 12345))
    small = os.path.join(tmp, "small.bin").encode()
    with open(small, "wb") as f:
        f.write(b"data")
    for p in (good, small):
        os.chmod(p, 0o644)
    jobs = []      # (program, kind, args, how)
    seen = set()

    def judge(pn, kind, args, rc, out, err, what, injected=True):
        rep = dict(kind="cli", program=pn, argv=[show(a) for a in args], situation=what, seed=SEED)
        line = "%s (%s, %s build)" % (" ".join(show(a) for a in args), what, pn)
        key = "cli-%s:%s" % (kind, re.sub(r"[^a-z0-9]+", "-", what.split(",")[0].lower()))
        with res.lock:
            res.evaluations += 1
            seen.add((kind, what, tuple(args)))
        res.stat("%s_%s" % (kind, re.sub(r"[^a-z0-9]+", "_", what.split(",")[0].lower())))
        if rc is None:
            return res.violation(key + ":hang", line + " does not end", rep)
        if rc < 0 or rc in (66, 67):
            m = re.search(rb"(ERROR: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*)", err)
            return res.violation(key + ":crash", "%s ended with %s: %s" % (line, rc, show(m.group(1) if m else err[-200:])), rep)
        if kind == "output":
            if rc == 0:
                return res.violation(key + ":status", "%s reports success although its output was lost" % line, rep)
        elif kind == "args":
            if b"Usage" not in out + err:
                return res.violation(key + ":no-usage", "%s does not explain itself: %s" % (line, show(out)), rep)
            if DIGESTLINE.search(out.split(b"Usage")[0]):
                return res.violation(key + ":digest", "%s printed a digest: %s" % (line, show(out)), rep)
        else:
            if not injected:
                res.stat("faults_that_did_not_reach_the_program")
                return
            if out:
                return res.violation(key + ":digest", "%s printed %s although the input could not be read" % (line, show(out)), rep)
            if rc == 0:
                return res.violation(key + ":status", "%s reports success although the input could not be read" % line, rep)
            if not err:
                return res.violation(key + ":silent", "%s says nothing about an input that could not be read" % line, rep)
            if args[-1] != b"-" and args[-1] not in err:
                return res.violation(key + ":unnamed", "%s does not name the input that could not be read: %s" % (line, show(err)), rep)
        if len(seen) % 150 == 1:
            res.sample("%s -> status %s, %s" % (line, rc, show((out + err)[:70])))

    def a(pn, args, what):
        jobs.append((pn, "args", [x if isinstance(x, bytes) else str(x).encode() for x in args], what, None))

    def bad(pn, opt, src, what, how=None):
        jobs.append((pn, "input", argv_of(opt, rnd.choice([1, 32, 200]), rnd.choice(CUSTOMS), src), what, how))

    badlen = [b"", b"abc", b"-1", b"-32", b"-2147483648", b"-2147483649", b"2147483648", b"4294967296", b"4294967328", b"99999999999999999999", b"-99999999999999999999", b"--", b" ", b"x32", b".5", b"\xff", b"NaN", b"-", b"+", b"%s", b"inf", b"a" * 3000]
    pns = ["san", "plain"]
    for pn in pns:
        a(pn, [], "no arguments")
        unknown = ["md5", "--md5", "-MD5", "-md5 ", " -md5", "-md", "-md55", "", "-", "--", "-h", "--help", "-sha2", "-sha3", "-sha2_256", "-shake", "-invalid", "-fnv32_1", "-fnv32-1a", "-%s", "-tuple-hash", "-\xff", "A" * 5000, "-cshake-512", "-whirlpool\n", small]
        unknown += [o[:-1] for o in ALL] + [o + "0" for o in ALL] + [o.upper() for o in ALL]
        for u in unknown:
            if u in ALL:
                continue
            a(pn, [u], "unknown option")
            a(pn, [u, small], "unknown option, with a file")
        for opt in ALL:
            need = 1 if opt in OPTS else 2 if opt in LEN else 3
            full = argv_of(opt, 32, b"custom", small)[1:]
            for k in range(6):
                if k == need:
                    continue
                args = (full + [small, small, b"32", small, small])[:k]
                a(pn, [opt] + args, "wrong number of arguments")
            if opt not in OPTS:
                for L in badlen:
                    args = argv_of(opt, 0, b"c", small)
                    args[1] = L
                    a(pn, args, "bad digest length")
    nobody = 65534
    for pn in pns:
        for opt in ALL if pn == "plain" or T else rnd.sample(ALL, 12) + list(LEN) + list(LENCUSTOM):
            bad(pn, opt, os.path.join(tmp.encode(), b"missing"), "missing file")
            bad(pn, opt, tmp.encode(), "directory")
            bad(pn, opt, b"", "empty name")
            bad(pn, opt, os.path.join(small, b"below"), "path through a file")
            bad(pn, opt, b"-", "standard input is a directory", "dirstdin")
            bad(pn, opt, b"-", "standard input is closed", "closed")
            bad(pn, opt, b"-", "standard input is write-only", "wronly")
            bad(pn, opt, good, "unreadable file", "perm")
            bad(pn, opt, b"-", "standard input connection reset", "reset")
            bad(pn, opt, os.path.join(tmp.encode(), b"x" * 300), "name too long")
            bad(pn, opt, os.path.join(tmp.encode(), b"loop"), "symlink loop")
            if pn == "plain":
                for k in by([1, 2, 4], [1, 2, 3, 4, 5]):
                    bad(pn, opt, good, "read error, after %d reads" % (k - 1), "fail%d" % k)
    # nothing, or only a part of the line, can be written
    for pn in pns:
        for opt in ALL:
            for how, what in (("full", "output to a full device"), ("noout", "standard output is closed"), ("rdout", "standard output is read-only"), ("limit", "output cut off by a size limit"), ("epipe", "output to a broken pipe, signal ignored")):
                if T or pn == "plain" or rnd.random() < 0.15:
                    jobs.append((pn, "output", argv_of(opt, rnd.choice([1, 32, 3000, 9000]), rnd.choice(CUSTOMS), small if rnd.random() < 0.7 else good), what, how))
    os.symlink("loop", os.path.join(tmp, "loop"))
    wo = os.path.join(tmp, "wo")
    open(wo, "w").close()
    secret = os.path.join(tmp, "secret")
    shutil.copy(good, secret.encode())
    os.chmod(secret, 0)
    # a place the unprivileged user can execute the program from
    pub = {}
    for k, v in progs.items():
        pub[k] = os.path.join(tmp, "hash-" + k)
        shutil.copy(v, pub[k])
        os.chmod(pub[k], 0o755)
    q = invoke([pub["plain"], b"-md5", small], uid=nobody)
    can_drop = q[0] == 0 and q[1]
    if not can_drop:
        res.note("cannot run as an unprivileged user here: unreadable files not tried")

    def one(j):
        if given_up(res):
            return
        pn, kind, args, what, how = j
        exe = progs[pn]
        if how == "perm":
            if not can_drop:
                return
            args = [x if x != good else secret.encode() for x in args]
            r = invoke([pub[pn]] + args, uid=nobody)
        elif kind == "output":
            side = random.Random("%s %s" % (what, args))
            limit = side.choice([0, 1, 5, 20])
            path = tempfile.mktemp(prefix="out", dir=tmp)

            def pre2():
                if how == "noout":
                    return os.close(1)
                if how == "limit":
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                    fd = os.open(path, os.O_WRONLY | os.O_CREAT)
                elif how == "epipe":
                    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
                    rd, fd = os.pipe()
                    os.close(rd)
                else:
                    fd = os.open("/dev/full", os.O_WRONLY) if how == "full" else os.open(small, os.O_RDONLY)
                os.dup2(fd, 1)
                os.close(fd)
            r = invoke([exe] + args, pre2=pre2)
            if os.path.exists(path):
                os.unlink(path)
        elif how == "dirstdin":
            fd = os.open(tmp, os.O_RDONLY)
            r = invoke([exe] + args, stdin=fd)
            os.close(fd)
        elif how == "closed":
            r = invoke([exe] + args, close_stdin=True)
        elif how == "wronly":
            fd = os.open(wo, os.O_WRONLY)
            r = invoke([exe] + args, stdin=fd)
            os.close(fd)
        elif how == "reset":
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            s.listen(1)
            c = socket.create_connection(s.getsockname())
            d, _ = s.accept()
            s.close()
            # data first, and the reset only once the program has taken some of it
            d.sendall(b"some data " * 500)

            def feeder(p):
                time.sleep(0.15)
                d.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                d.close()
            r = invoke([exe] + args, stdin=c.fileno(), feeder=feeder)
            c.close()
        elif how and how.startswith("fail"):
            mark = tempfile.mktemp(prefix="mark", dir=tmp)
            r = invoke([exe] + args, env=dict(CLIENV, LD_PRELOAD=so, VH_FAIL=how[4:], VH_MARK=mark))
            inj = os.path.exists(mark)
            if inj:
                os.unlink(mark)
            return judge(pn, kind, args, r[0], r[1], r[2], what, inj)
        else:
            r = invoke([exe] + args)
        judge(pn, kind, args, r[0], r[1], r[2], what)
    try:
        # the program works at all: otherwise refusing everything would look like success
        for pn in pns:
            rc, out, err = invoke([progs[pn], b"-md5", small])
            if rc != 0 or not out.startswith(b"8d777f385d3dfec8815d20f7496026dc"):
                res.violation("cli:works", "the %s build does not hash a readable file: status %s, %s" % (pn, rc, show(out + err)), dict(kind="cli", program=pn))
            for opt in LEN.keys() | LENCUSTOM.keys():
                for L in (0, 1, 8192):
                    rc, out, err = invoke([progs[pn]] + argv_of(opt, L, b"c", small))
                    with res.lock:
                        res.evaluations += 1
                    if rc != 0 or len(out) != 2 * L + 3 + len(small):
                        res.violation("cli:valid-length", "%s %d refused by the %s build: status %s, %s" % (opt, L, pn, rc, show(out + err)), dict(kind="cli", program=pn, option=opt, length=L))
        pmap(one, jobs)
    finally:
        shutil.rmtree(tmp)
    res.distinct = len(seen)
    res.rule = ("one evaluation = one run of the program, built plain and with AddressSanitizer and UBSan, with unusable arguments (none, unknown or near-miss options, every wrong argument count for every option, digest lengths that are empty, not numbers, negative or "
                "out of range) or an input it cannot read (missing, directory, empty name, no permission, symlink loop, closed, write-only or directory standard input, a connection reset, or read() failing at the first or a later read) or an output it cannot write (full device, closed or read-only standard output, size limit, broken pipe). Arguments: usage text, no "
                "digest, no signal. Inputs: nothing on standard output, a message with the name, a non-zero status. Output: a non-zero status. Distinct: situation and arguments.")
    res.assumptions = ["a mid-file read error is injected by interposing read(); a program that reads some other way would not be reached by it (faults_that_did_not_reach_the_program)"]
    return res.finish(300)


def by(q, t):
    return t if T else q


# ---------------------------------------------------------------- C22: memory of the program
def memory(res):
    progs = programs(["plain"])
    o, e = compile_obj("gcc", ["-O1"], os.path.join(VERIF, "harness", "rss.c"))
    if not o:
        raise Harness("rss: " + e[-300:])
    rss = link("gcc", [o], [], "rss")
    tmp = tempfile.mkdtemp(prefix="vh-mem-")
    limit = 24 << 10        # KiB

    def peak(args, stdin=None, piped=False):
        r, w = os.pipe()

        def pre():
            os.setsid()
            if w != 3:
                os.dup2(w, 3)
            os.set_inheritable(3, True)
        feeder = subprocess.Popen(["cat", stdin], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) if piped else None
        f = feeder.stdout if piped else open(stdin, "rb") if stdin else subprocess.DEVNULL
        try:
            p = subprocess.Popen([rss, progs["plain"]] + args, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=CLIENV, preexec_fn=pre, close_fds=False)
            os.close(w)
            try:
                out, _ = p.communicate(timeout=240)
            except subprocess.TimeoutExpired:
                HANGS.append(args)
                os.killpg(p.pid, 9)
                p.communicate()
                return 0, 1, b""        # wrong behaviour is for C17 and C18 to judge
            got = os.read(r, 100).split()
        finally:
            os.close(r)
            if stdin:
                f.close()
            if feeder:
                feeder.kill()
                feeder.wait()
        if len(got) != 2:
            raise Harness("no measurement of %s" % args)
        return int(got[0]), int(got[1]), out

    def one(k):
        if len(HANGS) >= 2:
            return
        opt, via = k
        pre = [opt] + (["64"] if opt in LEN or opt in LENCUSTOM else []) + (["c"] if opt in LENCUSTOM else [])
        big = (24 if opt == "-md2" else 64) if not T else (64 if opt == "-md2" else 512)
        names = []
        for size in (100, big << 20):
            n = os.path.join(tmp, "f%d" % size)
            with res.lock:
                if not os.path.exists(n):
                    with open(n, "wb") as f:
                        f.truncate(size)
            names.append(n)
        if via == "many":
            # many files one after another must not add up either
            runs = [peak(pre + [names[0]]), peak(pre + [os.path.join(tmp, "f100")] * 400)]
        elif via in ("stdin", "pipe"):
            runs = [peak(pre + ["-"], n, via == "pipe") for n in names]
        else:
            runs = [peak(pre + [names[0]]), peak(pre + [names[1]])]
        res.stat("program_runs_measured", 2)
        with res.lock:
            res.evaluations += 1
            res.distinct += 1
        if any(r[1] for r in runs):
            return              # wrong behaviour is for C17 and C18 to judge
        if runs[1][0] > runs[0][0] + limit:
            res.violation("program:memory", "hash %s: %d KiB resident for 100 bytes, %d KiB for %s" % (" ".join(pre), runs[0][0], runs[1][0], "400 files" if via == "many" else "%d MiB by %s" % (big, via)),
                          dict(kind="program-memory", args=pre, via=via, mib=big))
        if opt == "-md5":
            res.sample("hash -md5 by %s: %d KiB resident for 100 bytes, %d KiB for the large input" % (via, runs[0][0], runs[1][0]))
    opts = [o for o in ALL if not o.startswith("-tuple")]
    try:
        pmap(one, [(o, "file") for o in opts] + [(o, "stdin") for o in opts if T or o != "-md2"] + [(o, "pipe") for o in opts if T or (o != "-md2" and zlib.crc32(b"%s/%d" % (o.encode(), SEED)) % 3 == 0)] + [(o, "many") for o in opts[::9]])
    finally:
        shutil.rmtree(tmp)

#!/usr/bin/env python3
"""setup_cmd: every check builds what it needs from /repo's current tree, so there is nothing to build ahead; this
verifies that the tools are there and that the reference implementations reproduce their published vectors."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh

os.makedirs(vh.BUILD, exist_ok=True)
bad = 0
for tool in ("g++", "clang++", "valgrind", "strace"):
    r = vh.run([tool, "--version"], 60)
    line = (r["out"].splitlines() or ["?"])[0]
    print(tool, "-", line)
    bad |= r["rc"] != 0 and tool in ("g++", "clang++", "valgrind")
o, e = vh.compile_obj("g++", ["-std=c++17", "-O2"], os.path.join(vh.VERIF, "ref", "refcli.cpp"), ["-I" + os.path.join(vh.VERIF, "ref")])
if not o:
    print(e)
    sys.exit(1)
exe = vh.link("g++", [o], [], "refcli")
import hashlib
import random
import tempfile
import zlib
rng, checked = random.Random(1), 0
for i in range(40):
    data = rng.randbytes(rng.choice([0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 200, 1000, 5000]))
    want = {"md5": hashlib.md5, "sha1": hashlib.sha1, "sha224": hashlib.sha224, "sha256": hashlib.sha256, "sha384": hashlib.sha384, "sha512": hashlib.sha512, "blake2b": hashlib.blake2b, "blake2s": hashlib.blake2s}
    want = {k: f(data).hexdigest() for k, f in want.items()}
    want["crc32"] = "%08x" % zlib.crc32(data)
    want["sha3 256"] = hashlib.sha3_256(data).hexdigest()
    want["shake 128 333"] = hashlib.shake_128(data).hexdigest(333)
    for k, w in want.items():
        with tempfile.TemporaryFile() as f:
            f.write(data)
            f.seek(0)
            r = vh.run([exe] + k.split(), 60, stdin=f)
        checked += 1
        if r["out"].strip() != w:
            print("reference", k, "differs from Python's:", r["out"].strip(), w)
            bad = 1
print("references compared with hashlib and zlib:", checked)
sys.exit(1 if bad else 0)

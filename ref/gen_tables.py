#!/usr/bin/env python3
"""Generates tables.h: the constants of the reference implementations, each derived from
its published definition (pi, sqrt/cbrt of primes, sin), never copied from /repo."""
import math
from decimal import Decimal, getcontext

def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** k <= n: lo = mid
        else: hi = mid - 1
    return lo

def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r

def pi_scaled(scale):            # floor(pi*scale), Machin with guard
    g = 1 << 64
    s = scale * g
    def arctan(x):
        t = s // x; tot = t; n = 3; sg = -1; x2 = x * x
        while t:
            t //= x2; tot += sg * (t // n); sg = -sg; n += 2
        return tot
    return (4 * (4 * arctan(5) - arctan(239))) // g

def frac_root(p, k, bits):
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)

def md2_sbox():
    digits = str(pi_scaled(10 ** 1500))
    pos = 0
    def nxt():
        nonlocal pos
        d = int(digits[pos]); pos += 1; return d
    def rand(n):
        while True:
            x, y = nxt(), 10
            if n > 10: x, y = x * 10 + nxt(), 100
            if n > 100: x, y = x * 10 + nxt(), 1000
            if x < n * (y // n): return x % n
    S = list(range(256))
    for i in range(2, 257):
        j = rand(i)
        S[j], S[i - 1] = S[i - 1], S[j]
    return S

def arr(name, t, vals, w):
    s = f"static const {t} {name}[{len(vals)}] = {{\n"
    for i in range(0, len(vals), 8):
        s += "\t" + ", ".join(f"0x{v:0{w}X}" + ("ull" if w == 16 else "u" if w == 8 else "") for v in vals[i:i+8]) + ",\n"
    return s + "};\n"

getcontext().prec = 60
P = primes(80)
pi_hex = pi_scaled(1 << (64 * 16)) & ((1 << 1024) - 1)
pi64 = [(pi_hex >> (1024 - 64 * (i + 1))) & (2**64 - 1) for i in range(16)]
pi32 = [(pi_hex >> (1024 - 32 * (i + 1))) & (2**32 - 1) for i in range(16)]
out = "// generated by gen_tables.py; do not edit\n#pragma once\n#include <cstdint>\nnamespace ref { namespace tab {\n"
out += arr("md2S", "uint8_t", md2_sbox(), 2)
out += arr("md5K", "uint32_t", [int(abs(math.sin(i + 1)) * 2**32) for i in range(64)], 8)
out += arr("sha256K", "uint32_t", [frac_root(p, 3, 32) for p in P[:64]], 8)
out += arr("sha512K", "uint64_t", [frac_root(p, 3, 64) for p in P[:80]], 16)
out += arr("iv256", "uint32_t", [frac_root(p, 2, 32) for p in P[:8]], 8)
out += arr("iv512", "uint64_t", [frac_root(p, 2, 64) for p in P[:8]], 16)
out += arr("iv384", "uint64_t", [frac_root(p, 2, 64) for p in P[8:16]], 16)
out += arr("iv224", "uint32_t", [frac_root(p, 2, 64) & 0xFFFFFFFF for p in P[8:16]], 8)
out += arr("pi32", "uint32_t", pi32, 8)
out += arr("pi64", "uint64_t", pi64, 16)
out += "} }\n"
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables.h"), "w").write(out)

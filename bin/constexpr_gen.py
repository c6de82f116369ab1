"""Writes a translation unit that evaluates digests during compilation and compares them, when run, with the same
calls made at run time. One per header."""
import random

CLASSES = {"blake1_224": ["Blake1_224"], "blake1_256": ["Blake1_256"], "blake1_384": ["Blake1_384"], "blake1_512": ["Blake1_512"], "blake2": ["Blake2"],
           "blake2s": ["Blake2s"], "crc_32": ["CRC_32"], "fnv": ["FNV32_0", "FNV32_1", "FNV32_1a", "FNV64_0", "FNV64_1", "FNV64_1a"], "md2": ["MD2"], "md4": ["MD4"], "md5": ["MD5"],
           "ripemd_128": ["RIPEMD_128"], "ripemd_160": ["RIPEMD_160"], "ripemd_256": ["RIPEMD_256"], "ripemd_320": ["RIPEMD_320"], "sha1": ["SHA1"],
           "sha2_224": ["SHA2_224"], "sha2_256": ["SHA2_256"], "sha2_384": ["SHA2_384"], "sha2_512": ["SHA2_512"], "sha2_512_224": ["SHA2_512_224"],
           "sha2_512_256": ["SHA2_512_256"], "siphash": ["SipHash"], "sm3": ["SM3"],
           "tiger": ["Tiger1_128", "Tiger1_160", "Tiger1_192", "Tiger2_128", "Tiger2_160", "Tiger2_192"], "whirlpool": ["Whirlpool"]}
BLOCK = {"md2": 16, "siphash": 8, "crc_32": 16, "fnv": 8, "blake1_384": 128, "blake1_512": 128, "blake2": 128, "sha2_384": 128, "sha2_512": 128, "sha2_512_224": 128, "sha2_512_256": 128}

BIG = {"md2": 9, "whirlpool": 9, "crc_32": 300, "fnv": 600, "siphash": 300}

HEAD = r'''
#include "%(header)s.h"
#include <cstdio>
#include <cstring>
#include <array>
#include <functional>
using namespace Chocobo1;
// the length as a parameter: a literal 0 would also be a null pointer
template <class C> static constexpr auto sp(const unsigned char *p, std::size_t n) { return typename C::template Span<const unsigned char>(p, n); }
static int bad = 0; static long evals = 0;
template <class A, class B> static void same(const char *what, const A &c, const B &r) {
	++evals;
	if (c.size() == r.size() && std::memcmp(c.data(), r.data(), c.size()) == 0) return;
	++bad; std::printf("DIFF %%s compile-time ", what); for (auto x : c) std::printf("%%02x", unsigned(x)); std::printf(" run-time "); for (auto x : r) std::printf("%%02x", unsigned(x)); std::printf("\n");
}
static void sameNum(const char *what, unsigned long long c, unsigned long long r) { ++evals; if (c != r) { ++bad; std::printf("DIFF %%s compile-time %%llx run-time %%llx\n", what, c, r); } }

'''


def arr(name, data, const="constexpr"):
    return "static %s unsigned char %s[%d] = {%s};\n" % (const, name, len(data), ",".join(map(str, data)))


def gen(header, seed, per_class, big=True):
    """Returns (source, number of compile-time evaluations)."""
    rnd = random.Random("%s/%d" % (header, seed))
    s = HEAD % dict(header=header, dig=64)
    main, n = [], 0
    B = BLOCK.get(header, 64)
    classes = CLASSES[header]
    for c in classes:
        ctor = ""
        if c == "SipHash":
            s += arr("key_", [rnd.randrange(256) for _ in range(16)])
            ctor = "sp<SipHash>(key_, 16)"
        obj = "%s h%s;" % (c, ("{" + ctor + "}") if ctor else "")
        for k in range(per_class):
            kind = k % 6
            pad = B // 8
            big_call = k == per_class - 1
            length = [rnd.randrange(1, B), B - rnd.randrange(0, pad + 2) or 1, B, B + rnd.randrange(1, B), 2 * B - rnd.randrange(0, pad + 2), rnd.randrange(1, (3 if big else 2) * B)][(kind + seed) % 6]
            if big_call:      # many blocks in one call
                length = BIG.get(header, rnd.randrange(17, 23)) * B + rnd.randrange(B)
            data = [rnd.choice([rnd.randrange(256), 0, 255, rnd.randrange(256)]) for _ in range(max(1, length))]
            m = "m_%s_%d" % (c, k)
            s += arr(m, data)
            L = len(data)
            cut = rnd.randrange(0, L + 1)
            sp = "sp<%s>" % c
            # different ways of saying the same calls
            forms = ["h.addData(%s);" % m,
                     "h.addData(%s(%s, %d));" % (sp, m, L),
                     "h.addData(%s(%s, %d)); h.addData(%s(%s + %d, %d));" % (sp, m, cut, sp, m, cut, L - cut),
                     "for (std::size_t i = 0; i < %d; ++i) h.addData(%s(%s + i, 1));" % (L, sp, m),
                     "h.addData(%s(%s, %d)); h.finalize(); h.reset(); h.addData(%s);" % (sp, m, cut, m),
                     "h.addData(%s(%s, %d)); %s g(h); g.addData(%s(%s + %d, %d)); h.addData(%s(%s + %d, %d));" % (sp, m, cut, c, sp, m, cut, L - cut, sp, m, cut, L - cut)]
            form = rnd.choice([0, 1, 4]) if big_call else (k + seed) % len(forms)
            f = forms[form]
            fn = "f_%s_%d" % (c, k)
            s += "static constexpr auto %s() { %s %s h.finalize(); return h.toArray(); }\n" % (fn, obj, f)
            s += "static constexpr auto c_%s = %s();\n" % (fn, fn)
            main.append('{ volatile unsigned char v[%d]; for (int i = 0; i < %d; ++i) v[i] = %s[i]; unsigned char w[%d]; for (int i = 0; i < %d; ++i) w[i] = v[i]; %s h.addData(static_cast<const void *>(w), %d); h.finalize(); same("%s length %d form %d", c_%s, h.toVector()); }'
                        % (L, L, m, L, L, obj, L, c, L, form, fn))
            n += 1
            if k < 2:
                s += "static constexpr unsigned long long u_%s() { %s h.addData(%s); h.finalize(); return static_cast<unsigned long long>(h); }\nstatic constexpr unsigned long long cu_%s = u_%s();\n" % (fn, obj, m, fn, fn)
                s += "static constexpr unsigned short s_%s() { %s h.addData(%s); h.finalize(); return static_cast<unsigned short>(h); }\nstatic constexpr unsigned short cs_%s = s_%s();\n" % (fn, obj, m, fn, fn)
                s += "static constexpr auto hh_%s() { %s h.addData(%s); h.finalize(); return std::hash<%s>()(h); }\nstatic constexpr std::size_t ch_%s = hh_%s();\n" % (fn, obj, m, c, fn, fn)
                s += "static constexpr bool e_%s() { %s h.addData(%s); h.finalize(); %s o(h); %s x%s; x.addData(%s(%s, %d)); x.finalize(); return (h == o) && !(h != o) && !(h == x) && (h != x); }\nstatic constexpr bool ce_%s = e_%s();\n" % (fn, obj, m, c, c, ("{" + ctor + "}") if ctor else "", sp, m, L - 1, fn, fn)
                main.append('{ %s h.addData(static_cast<const void *>(%s), %d); h.finalize(); sameNum("%s to unsigned long long", cu_%s, static_cast<unsigned long long>(h)); sameNum("%s to unsigned short", cs_%s, static_cast<unsigned short>(h)); sameNum("%s std::hash", ch_%s, std::hash<%s>()(h)); sameNum("%s equality", ce_%s, e_%s()); }'
                            % (obj, m, L, c, fn, c, fn, c, fn, c, c, fn, fn))
                n += 4
                for t, nm in (("unsigned char", "vc"), ("unsigned int", "vi"), ("char32_t", "vw")):
                    s += "static constexpr unsigned long long %s_%s() { %s h.addData(%s); h.finalize(); return static_cast<%s>(h); }\nstatic constexpr unsigned long long c%s_%s = %s_%s();\n" % (nm, fn, obj, m, t, nm, fn, nm, fn)
                    main.append('{ %s h.addData(static_cast<const void *>(%s), %d); h.finalize(); sameNum("%s to %s", c%s_%s, static_cast<%s>(h)); }' % (obj, m, L, c, t, nm, fn, t))
                    n += 1
    s += "int main() {\n" + "\n".join(main) + '\nstd::printf("EVALS %ld\\n", evals); return bad ? 1 : 0; }\n'
    return s, n


def control(header):
    """The same header and run-time calls only: tells a header that does not build from one that is not constexpr."""
    return (HEAD % dict(header=header, dig=64)) + "int main() { return 0; }\n"

"""Programs that use every header at once, for the configuration check: a battery of digests over every class, included
in a chosen order."""
import random
import vh

PLAIN = [("%s" % a, "Chocobo1::%s()" % a) for h in vh.HEADERS for a in vh.ALGOS[h]
         if a not in ("SHAKE_128", "SHAKE_256", "CSHAKE_128", "CSHAKE_256", "TupleHash_128", "TupleHash_256", "SipHash")]
PARAM = [("SHAKE_128", "Chocobo1::SHAKE_128(200)"), ("SHAKE_256", "Chocobo1::SHAKE_256(33)"), ("CSHAKE_128", "Chocobo1::CSHAKE_128(40, \"fn\", \"customization\")"),
         ("CSHAKE_256", "Chocobo1::CSHAKE_256(300, \"\", \"other\")"), ("SipHash", "Chocobo1::SipHash(key)")]
TUPLE = [("TupleHash_128", "Chocobo1::TupleHash_128(50, \"c\")"), ("TupleHash_256", "Chocobo1::TupleHash_256(64)")]

TEXT = r'''
%(includes)s
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace {
const unsigned char key[16] = {0x8A, 1, 2, 3, 0xFF, 5, 6, 7, 8, 9, 10, 0x80, 12, 13, 14, 15};
typedef unsigned char uc;
struct Line {
	std::FILE *f; unsigned long long acc;
	void put(const void *p, std::size_t n) { const uc *b = static_cast<const uc *>(p); for (std::size_t i = 0; i < n; ++i) { acc ^= b[i]; acc *= 1099511628211ull; } }
	template <class H> void see(const H &h) {
		const std::string s = h.toString(); put(s.data(), s.size());
		const auto v = h.toVector(); if (!v.empty()) put(v.data(), v.size());
		const unsigned long long u = static_cast<unsigned long long>(h); put(&u, sizeof u);
		const unsigned short w = static_cast<unsigned short>(h); put(&w, sizeof w);
		const std::size_t x = std::hash<H>()(h); put(&x, sizeof x);
	}
};
const std::size_t lens[] = {0, 1, 3, 7, 8, 15, 16, 17, 55, 56, 57, 63, 64, 65, 71, 72, 73, 103, 104, 111, 112, 113, 119, 127, 128, 129, 135, 136, 137, 143, 144, 145, 167, 168, 169, 200, 255, 256, 257, 337, 1000, 5000};
std::size_t stride = 1;
std::vector<char> message(std::size_t n, unsigned s) { std::vector<char> m(n + 1); unsigned x = s * 2654435761u + 12345; for (std::size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; m[i] = static_cast<char>(x >> 24); } return m; }

template <class H> void plain(std::FILE *f, const char *name, const H &proto) {
	Line l = {f, 1469598103934665603ull};
	unsigned k = 0; std::string s;
	for (std::size_t at = 0; at < sizeof lens / sizeof *lens; at += stride) {
		const std::size_t n = lens[at];
		const auto m = message(n, ++k);
		const char *cp = m.data();
		H h(proto);
		h.addData(cp, n); h.finalize(); l.see(h);
		H g(proto);
		const std::size_t cut = n * (k %% 7) / 7;
		g.addData(typename H::template Span<const char>(cp, cut)).addData(cp + cut, n - cut);
		H c(g); c.finalize(); g.finalize();
		l.see(g); l.put(cp, 0);
		const bool e = (c == g) && !(c != g); l.put(&e, 1);
		g.reset(); const unsigned short a[5] = {1, 0xFFFF, 3, 0x8000, 5}; g.addData(a).finalize(); l.see(g);
		s = h.toString();
	}
	std::fprintf(f, "%%s %%016llx %%s\n", name, l.acc, s.substr(0, 64).c_str());
}
template <class H> void tuple(std::FILE *f, const char *name, const H &proto) {
	Line l = {f, 1469598103934665603ull};
	unsigned k = 0; std::string s;
	for (std::size_t at = 0; at < sizeof lens / sizeof *lens; at += stride) {
		const std::size_t n = lens[at];
		const auto m = message(n, ++k);
		const char *cp = m.data();
		H h(proto);
		h.nextData(cp, n); h.nextData(cp, n / 2); h.finalize(); l.see(h);
		H g(proto); g.nextData(typename H::template Span<const char>(cp, n / 3)); g.reset(); g.nextData(cp, n).finalize(); l.see(g);
		const bool e = h == g; l.put(&e, 1);
		s = h.toString();
	}
	std::fprintf(f, "%%s %%016llx %%s\n", name, l.acc, s.substr(0, 64).c_str());
}
}
void battery%(tag)s(std::FILE *f) {
%(calls)s
}
char *brief%(tag)s() { char *p = nullptr; std::size_t n = 0; std::FILE *f = open_memstream(&p, &n); stride = 9; battery%(tag)s(f); stride = 1; std::fclose(f); return p; }
'''
MAIN = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
%s
namespace {
typedef char *(*Brief)();
const Brief briefs[] = {%s};
const int count = sizeof briefs / sizeof *briefs;
char *early[count], *now[count];
void compare(const char *when, const char *a, const char *b) { if (std::strcmp(a, b) != 0) { std::size_t i = 0; while (a[i] == b[i]) ++i; while (i && a[i - 1] != 10) --i; std::printf("STATIC %%s [%%.60s] in main [%%.60s]\n", when, a + i, b + i); std::fflush(stdout); } }
// The same values before any other object is initialised and after all others are gone.
struct Always {
	Always() { for (int i = 0; i < count; ++i) early[i] = briefs[i](); }
	~Always() { for (int i = 0; i < count; ++i) if (now[i]) { char *late = briefs[i](); compare("destruction", late, now[i]); std::free(late); std::free(now[i]); std::free(early[i]); } }
};
__attribute__((init_priority(101))) Always always;
}
int main(int, char **) { %s for (int i = 0; i < count; ++i) { now[i] = briefs[i](); compare("initialisation", early[i], now[i]); } return 0; }
'''


def order(first, seed):
    rnd = random.Random("order/%s/%s" % (first, seed))
    hs = [h for h in vh.HEADERS if h != first]
    rnd.shuffle(hs)
    return [first] + hs


def unit(hs, tag, twice=False):
    inc = ["#include \"%s.h\"" % h for h in hs]
    if twice:
        inc += inc[:10]
    calls = ["\tplain(f, \"%s\", %s);" % (n, e) for n, e in PLAIN + PARAM] + ["\ttuple(f, \"%s\", %s);" % (n, e) for n, e in TUPLE]
    return TEXT % dict(includes="\n".join(inc), tag=tag, calls="\n".join(sorted(calls)))


def main_unit(tags):
    return MAIN % ("\n".join("void battery%s(std::FILE *); char *brief%s();" % (t, t) for t in tags), ", ".join("brief%s" % t for t in tags),
                   " ".join("std::printf(\"UNIT %s\\n\"); battery%s(stdout);" % (t, t) for t in tags))

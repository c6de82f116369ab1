// Arithmetic, memory and control flow of every integer width on generated operands, folded into printed sums: the
// emulated machines must print what this one prints before anything they say about the library is believed.
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
extern "C" void vh_out(const char *p, size_t n);
extern "C" int vh_main();
static uint64_t S = 88172645463325252ull;
static uint64_t rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; const unsigned k = unsigned(S >> 60); return k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? 1ull << (S & 63) : k == 3 ? (S & 255) : S; }
static uint64_t acc;
static void put(uint64_t v) { acc = (acc ^ v) * 0x100000001B3ull; acc ^= acc >> 29; }
static void show(const char *n) { std::string s(n); s += ' '; for (int i = 15; i >= 0; --i) s += "0123456789abcdef"[(acc >> (4 * i)) & 15]; s += '\n'; vh_out(s.data(), s.size()); }
template <class U, class I> __attribute__((noinline)) void arith(const char *name) {
	for (int k = 0; k < 700; ++k) {
		const U a = U(rnd()), b = U(rnd()); const unsigned w = 8 * sizeof(U), s = unsigned(rnd() >> 20) % w; volatile U va = a, vb = b;
		put(U(a + b)); put(U(a - b)); put(U(a & b)); put(U(a | b)); put(U(a ^ b)); put(U(~a)); put(U(0) - a); put(a < b); put(a <= b); put(I(a) < I(b)); put(I(a) >= I(b)); put(a == b); put(a != 0);
		put(U(uint64_t(a) * b)); put(U(a << s)); put(U(a >> s)); put(U(I(a) >> s)); put(U((a << s) | (a >> ((w - s) % w))));
		put(U((a >> 3) | (a << (w - 3)))); put(U((a << 5) | (a >> (w - 5)))); put(U(a << 1)); put(U(a >> 1)); put(U(a >> (w - 1))); put(uint64_t(int64_t(I(I(a) >> (w - 1)))));
		if (b) { put(U(a / b)); put(U(a % b)); } put(U(a / 7)); put(U(a % 10)); put(U(a / 64)); put(U(I(a) / 64)); put(U(I(a) % 64)); put(U(I(a) / 10)); put(U(I(a) % 10));
		if (I(b) != 0 && I(b) != -1) { put(U(I(a) / I(b))); put(U(I(a) % I(b))); }
		put(uint64_t(int64_t(I(a)))); put(uint64_t(a)); put(uint32_t(int32_t(I(a)))); put(uint16_t(a)); put(uint8_t(a)); put(uint64_t(int64_t(int8_t(a)))); put(uint64_t(int64_t(int16_t(a)))); put(uint64_t(int64_t(int32_t(a))));
		put(a > b ? a : b); put(I(a) > I(b) ? a : b); put((a & 0xF0) | ((b & 0xF) << 1)); put(U((a & ~U(0x3C)) | ((b & 0xF) << 2)));
		va = U(va + vb); vb = U(vb * va); put(va); put(vb); put(a ? unsigned(__builtin_clzll(a)) : 64); put(a ? unsigned(__builtin_ctzll(a)) : 64); put(unsigned(__builtin_popcountll(a)));
		put(__builtin_bswap64(a)); put(__builtin_bswap32(uint32_t(a))); put(__builtin_bswap16(uint16_t(a)));
		put(__builtin_add_overflow(a, b, &const_cast<U &>(a))); put(a);
		{ I q; put(__builtin_mul_overflow(I(b), I(11), &q)); put(U(q)); } put(a - U(1) < b);
	}
	show(name);
}
struct Mix { uint8_t a; uint32_t b; uint16_t c; uint64_t d; uint8_t e[5]; unsigned f : 3; unsigned g : 7; unsigned h : 22; };
struct __attribute__((packed)) Tight { uint8_t a; uint32_t b; uint16_t c; uint64_t d; };
__attribute__((noinline)) static void memory() {
	unsigned char raw[256], cp[256];
	for (int k = 0; k < 300; ++k) {
		for (unsigned char &c : raw) c = (unsigned char)(rnd());
		std::memset(cp, k, sizeof cp); const unsigned o = unsigned(rnd() % 64), n = unsigned(rnd() % 128); std::memcpy(cp + o, raw + (o ^ 5), n); std::memmove(cp + 3, cp, n); for (unsigned char c : cp) put(c);
		// bytes assembled, in both orders, at any alignment
		const unsigned char *p = raw + o; uint64_t be = 0, le = 0; for (int i = 0; i < 8; ++i) { be = (be << 8) | p[i]; le |= uint64_t(p[i]) << (8 * i); } put(be); put(le);
		put((uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | p[3]); put(p[0] | (uint32_t(p[1]) << 8) | (uint32_t(p[2]) << 16) | (uint32_t(p[3]) << 24));
		{ uint16_t t; unsigned char u[2] = {p[0], p[1]}; t = uint16_t(u[0] << 8 | u[1]); put(t); }
		// unaligned words written and read back
		for (unsigned i = 0; i < 9; ++i) { uint32_t w = uint32_t(rnd()), w2; uint64_t q = rnd(), q2; uint16_t h = uint16_t(rnd()), h2; std::memcpy(cp + i, &w, 4); std::memcpy(&w2, cp + i, 4); put(w2); std::memcpy(cp + i + 1, &q, 8); std::memcpy(&q2, cp + i + 1, 8); put(q2); std::memcpy(cp + 2 * i + 1, &h, 2); std::memcpy(&h2, cp + 2 * i + 1, 2); put(h2); }
		Tight t; t.a = uint8_t(rnd()); t.b = uint32_t(rnd()); t.c = uint16_t(rnd()); t.d = rnd(); Tight *volatile tp = &t; tp->b += 7; tp->d ^= tp->b; put(tp->a); put(tp->b); put(tp->c); put(tp->d);
		Mix m{}; m.a = uint8_t(rnd()); m.b = uint32_t(rnd()); m.c = uint16_t(rnd()); m.d = rnd(); m.f = unsigned(rnd()) & 7; m.g = unsigned(rnd()) & 127; m.h = unsigned(rnd()) & 0x3FFFFF; for (uint8_t &x : m.e) x = uint8_t(rnd());
		Mix c2 = m; c2.f ^= m.g & 7; c2.h += m.f; put(c2.a); put(c2.b); put(c2.c); put(c2.d); put(c2.f); put(c2.g); put(c2.h); put(c2.e[4]);
		volatile int8_t sb = int8_t(rnd()); volatile int16_t sh = int16_t(rnd()); volatile uint8_t ub = uint8_t(sb); put(uint64_t(int64_t(sb))); put(uint64_t(int64_t(sh))); put(ub);
		std::vector<uint32_t> v; for (unsigned i = 0; i < n; ++i) v.push_back(uint32_t(rnd())); std::vector<uint32_t> w = v; v.resize(n / 2); w.insert(w.end(), v.begin(), v.end()); for (uint32_t x : w) put(x);
		std::string s; for (unsigned i = 0; i < n; ++i) s += char(rnd()); s += s; put(s.size()); for (char x : s) put((unsigned char)(x));
	}
	show("memory");
}
__attribute__((noinline)) static unsigned sel(unsigned k) { switch (k) { case 0: return 5; case 1: return 17; case 2: return 99; case 3: return 4; case 4: return 1234; case 5: return 77; case 9: return 3; case 12: return 65536; default: return k * 3; } }
static unsigned f1(unsigned x) { return x + 3; } static unsigned f2(unsigned x) { return x * 7; } static unsigned f3(unsigned x) { return x ? f2(x - 1) ^ f1(x) : 1; }
__attribute__((noinline)) static unsigned rec(unsigned n) { return n < 2 ? n : rec(n - 1) + rec(n - 2); }
__attribute__((noinline)) static void control() {
	unsigned (*volatile t[3])(unsigned) = {f1, f2, f3};
	for (int k = 0; k < 2000; ++k) { const unsigned x = unsigned(rnd() & 15); put(sel(x)); put(t[x % 3](x)); int i = int(x) - 8; if (i < 0) put(1); if (i <= 0) put(2); if (i > 0) put(3); if (i >= 0) put(4); while (i < 9) { ++i; if (i == 5) continue; put(unsigned(i)); } }
	put(rec(15)); show("control");
	for (int k = 0; k < 400; ++k) { const uint64_t v = rnd() >> (k % 60); volatile double d = double(v); put(uint64_t(d * 0.5)); if (v) { put(uint64_t(std::lround((std::log2(v) / 8) + 0.5))); put(uint64_t(std::floor(std::log2(double(v))))); } put(d > 1e9); put(uint64_t(int64_t(d / 3.0 - 7))); put(uint64_t(int(v & 0xFFFF) * 1.5 + 0.5)); }
	show("floating");
}
int vh_main() {
	arith<uint8_t, int8_t>("8"); arith<uint16_t, int16_t>("16"); arith<uint32_t, int32_t>("32"); arith<uint64_t, int64_t>("64"); memory(); control();
	vh_out("END\n", 4); return 0;
}
#ifdef VH_NATIVE
#include <cstdio>
extern "C" void vh_out(const char *p, size_t n) { std::fwrite(p, 1, n, stdout); }
int main() { return vh_main(); }
#endif

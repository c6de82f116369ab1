// The same battery for every machine: one header's classes through messages, parameters and call histories, one line of
// text per case. Uses nothing but the header under test, so that it runs where there is no library; the lines are
// compared between machines.  -DVH_HEADER='"md5.h"' -DVH_md5 [-DVH_LEVEL=n] [-DVH_SEED=n] [-DVH_HUGE]
#include VH_HEADER
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#ifndef VH_LEVEL
#define VH_LEVEL 1
#endif
#ifndef VH_SEED
#define VH_SEED 1
#endif
using namespace Chocobo1;
typedef std::vector<unsigned char> Bytes;
extern "C" void vh_out(const char *p, size_t n);
extern "C" int vh_main();

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { u64(); u64(); }
	uint64_t u64() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
	uint32_t below(uint32_t n) { return uint32_t((u64() >> 33) % n); }
};
struct Line {
	char b[700]; unsigned n;
	Line() : n(0) {}
	Line &s(const char *p) { while (*p && n < sizeof b - 2) b[n++] = *p++; return *this; }
	Line &c(char x) { if (n < sizeof b - 2) b[n++] = x; return *this; }
	Line &d(uint32_t v) { char t[12]; int k = 0; do { t[k++] = char('0' + v % 10); v /= 10; } while (v); while (k) c(t[--k]); return *this; }
	Line &x(uint64_t v, int digits) { for (int i = digits - 1; i >= 0; --i) c("0123456789abcdef"[(v >> (4 * i)) & 15]); return *this; }
	void end() { b[n++] = '\n'; vh_out(b, n); n = 0; }
};
static uint32_t mixText(const char *p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)(p[i])) * 16777619u; return h; }

static Bytes content(Rng &r, size_t n) {
	Bytes b(n);
	const unsigned kind = r.below(6);
	for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? 0xFF : kind == 1 ? 0x80 : kind == 2 ? (unsigned char)(i) : (unsigned char)(r.u64() >> 40);
	return b;
}

#if defined(VH_tuple_hash)
#define ADD nextData
#else
#define ADD addData
#endif
template <class H> struct Add {
	static void f(H &h, const void *p, size_t n) { h.ADD(p, n); }
	template <class T> static void sp(H &h, const T *p, size_t n) { h.ADD(typename H::template Span<const T>(p, n)); }
	template <class T, size_t N> static void ar(H &h, const T (&a)[N]) { h.ADD(a); }
};

// one piece through one of the overloads; the memory is aligned for its element type only
template <class H> static void feed(Rng &r, H &h, const unsigned char *p, size_t n) {
	const unsigned k = r.below(8);
	if (k == 1 && n % 4 == 0 && n) { std::vector<uint32_t> v(n / 4); std::memcpy(v.data(), p, n); Add<H>::template sp<uint32_t>(h, v.data(), v.size()); }
	else if (k == 2 && n % 2 == 0 && n) { std::vector<uint16_t> v(n / 2); std::memcpy(v.data(), p, n); Add<H>::template sp<uint16_t>(h, v.data(), v.size()); }
	else if (k == 3 && n % 8 == 0 && n) { std::vector<uint64_t> v(n / 8); std::memcpy(v.data(), p, n); Add<H>::template sp<uint64_t>(h, v.data(), v.size()); }
	else if (k == 4 && n == 64) { uint64_t a[8]; std::memcpy(a, p, n); Add<H>::ar(h, a); }
	else if (k == 5 && n == 16) { uint32_t a[4]; std::memcpy(a, p, n); Add<H>::ar(h, a); }
	else if (k == 6 && n) Add<H>::template sp<char>(h, reinterpret_cast<const char *>(p), n);
	else { const size_t off = r.below(9); std::vector<unsigned char> v(n + off + 1); if (n) std::memcpy(&v[off], p, n); Add<H>::f(h, &v[off], n); }
}
template <class H> static void pieces(Rng &r, H &h, const Bytes &m, bool tuple, unsigned style) {
	size_t i = 0;
	if (tuple || style == 0) { feed(r, h, m.data(), m.size()); return; }
	while (i < m.size()) { size_t k = style == 1 ? 1 + r.below(7) : style == 2 ? 1 + r.below(100) : 1 + r.below(300); if (style == 3) k = (k + 7) & ~size_t(7); if (k > m.size() - i) k = m.size() - i; feed(r, h, m.data() + i, k); i += k; }
}
template <class H, class = void> struct HasArr : std::false_type {};
template <class H> struct HasArr<H, decltype(void(std::declval<const H &>().toArray()))> : std::true_type {};
template <class H> static Bytes arrayOf(const H &h, std::true_type) { const auto a = h.toArray(); return Bytes(a.begin(), a.end()); }
template <class H> static Bytes arrayOf(const H &h, std::false_type) { return h.toVector(); }

template <class H> static void report(Line &l, const H &h) {
	const std::string s = h.toString();
	const Bytes v = h.toVector(), a = arrayOf(h, HasArr<H>());
	bool same = s.size() == 2 * v.size() && v == a;
	for (size_t i = 0; i < v.size() && same; ++i) same = s[2 * i] == "0123456789abcdef"[v[i] >> 4] && s[2 * i + 1] == "0123456789abcdef"[v[i] & 15];
	l.c(' '); for (size_t i = 0; i < s.size() && i < 40; ++i) l.c(s[i]);
	l.s(" all ").x(mixText(s.data(), s.size()), 8).s(same ? " views agree" : " views differ");
	const unsigned long long q = static_cast<unsigned long long>(h); const unsigned w = static_cast<unsigned>(h); const unsigned long g = static_cast<unsigned long>(h);
	l.s(" num ").x(static_cast<unsigned char>(h), 2).c(' ').x(static_cast<unsigned short>(h), 4).c(' ').x(w, 8).c(' ').x(q, 16).c(' ').x(static_cast<char32_t>(h), 8).s((sizeof g == 8 ? g == q : g == w) ? " long agrees" : " long differs");
	const H c(h); H e(h); e.reset(); e.finalize();
	l.s(c == h && !(c != h) ? " equal" : " unequal").s(std::hash<H>()(c) == std::hash<H>()(h) ? " hash agrees" : " hash differs").s(e == h ? " as empty" : " not empty");
}

template <class H> static void assign(H &h, const H &g, std::true_type) { Add<H>::f(h, "overwritten", 11); h = g; }
template <class H> static void assign(H &, const H &, std::false_type) {}

static Line L;
static uint32_t caseNo;
template <class Make> static void one(const char *name, Make make, Rng &r, size_t n, bool tuple) {
	const Bytes m = content(r, n); const unsigned style = r.below(4);
	typedef decltype(make()) H;
	H h = make();
	L.s(name).c(' ').d(caseNo++).s(" len ").d(uint32_t(n));
	switch (r.below(6)) {
		case 0: { feed(r, h, m.data(), m.size() / 2); h.reset(); pieces(r, h, m, tuple, style); break; }
		case 1: { pieces(r, h, m, tuple, style); h.finalize(); h.reset(); pieces(r, h, m, tuple, 0); break; }
		case 2: { if (tuple) feed(r, h, m.data(), m.size() / 3); else pieces(r, h, Bytes(m.begin(), m.begin() + long(m.size() / 3)), false, style);
			const H g(h); assign(h, g, typename std::is_copy_assignable<H>::type()); if (tuple) feed(r, h, m.data() + m.size() / 3, m.size() - m.size() / 3); else pieces(r, h, Bytes(m.begin() + long(m.size() / 3), m.end()), false, style); break; }
		default: pieces(r, h, m, tuple, style);
	}
	h.finalize();
	report(L, h); L.end();
}
template <class Make> static void run(const char *name, Make make, size_t block, bool tuple = false, size_t scale = 1) {
	Rng r(mixText(name, std::strlen(name)) + uint64_t(VH_SEED) * 1000003u);
	const size_t dense = 2 * block + 20;
	for (size_t n = 0; n <= dense; n += scale) one(name, make, r, n, tuple);
	for (size_t k = 0; k < 12u * VH_LEVEL / scale + 2; ++k) one(name, make, r, r.below(uint32_t(6 * block)), tuple);
	const size_t big[] = {1000, 1024, 4096, 8191, 8192, 8193};
	for (size_t n : big) one(name, make, r, n, tuple);
	if (VH_LEVEL > 1) { one(name, make, r, 65535, tuple); one(name, make, r, 65536, tuple); one(name, make, r, 70000, tuple); }
}
// messages whose length in bits does not fit in 32 bits: only where they are fast enough
template <class Make> static void huge(const char *name, Make make, bool single) {
	const size_t chunk = size_t(1) << 20, n = (size_t(1) << 29) + 77;
	typedef decltype(make()) H;
	H h = make();
	if (single) {
		unsigned char *p = static_cast<unsigned char *>(::operator new(n)); Rng r(5);
		for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(i * 2654435761u >> 13);
		Add<H>::f(h, p, n); ::operator delete(p);
	} else {
		Bytes b(chunk); size_t i = 0;
		while (i < n) { size_t k = n - i < chunk ? n - i : chunk; for (size_t j = 0; j < k; j += 64) b[j] = (unsigned char)((i + j) * 2654435761u >> 13); Add<H>::f(h, b.data(), k); i += k; }
	}
	h.finalize(); L.s(name).s(single ? " huge single" : " huge chunks"); report(L, h); L.end();
}

#define P(cls, block) run(#cls, [] { return cls(); }, block)
#define PM(cls, block) run(#cls, [] { return cls(); }, block, false, 3)
int vh_main() {
#ifdef VH_HUGE
#define G(cls) huge(#cls, [] { return cls(); }, false); huge(#cls, [] { return cls(); }, true)
#else
#define G(cls)
#endif
#if defined(VH_blake1_224)
	P(Blake1_224, 64); G(Blake1_224);
#elif defined(VH_blake1_256)
	P(Blake1_256, 64); G(Blake1_256);
#elif defined(VH_blake1_384)
	P(Blake1_384, 128); G(Blake1_384);
#elif defined(VH_blake1_512)
	P(Blake1_512, 128); G(Blake1_512);
#elif defined(VH_blake2)
	P(Blake2, 128); G(Blake2);
#elif defined(VH_blake2s)
	P(Blake2s, 64); G(Blake2s);
#elif defined(VH_crc_32)
	P(CRC_32, 32); G(CRC_32);
#elif defined(VH_cshake)
	static const int lens[] = {0, 1, 2, 31, 32, 64, 135, 136, 137, 168, 200, 400, 1000};
	for (int n : lens) for (int k = 0; k < 6; ++k) {
		const std::string nm(size_t(k % 3 ? k * 23 : 0), 'n'), cu(size_t(k % 2 ? k * 31 : k / 2 * 17), 'c');
		Rng r(uint64_t(n) * 77 + uint64_t(k) + VH_SEED * 7919u);
		for (int j = 0; j < 3; ++j) { const size_t len = r.below(420); one("CSHAKE_128", [&] { return CSHAKE_128(n, nm, cu); }, r, len, false); one("CSHAKE_256", [&] { return CSHAKE_256(n, nm, cu); }, r, len, false); }
	}
	run("CSHAKE_128", [] { return CSHAKE_128(32, "name", "custom"); }, 168, false, 5); run("CSHAKE_256", [] { return CSHAKE_256(64, "", "Email Signature"); }, 136, false, 5);
	{ Rng r(VH_SEED); for (size_t n : {size_t(8191), size_t(8192), size_t(31), size_t(32), size_t(65536)}) { const std::string t(n, 't'); one("CSHAKE_128", [&] { return CSHAKE_128(20, t, "x"); }, r, 50, false); one("CSHAKE_256", [&] { return CSHAKE_256(20, "", t); }, r, 50, false); } }
#ifdef VH_HUGE
	huge("CSHAKE_128", [] { return CSHAKE_128(32, "name", "custom"); }, true);
#endif
#elif defined(VH_fnv)
	P(FNV32_0, 16); P(FNV32_1, 16); P(FNV32_1a, 16); P(FNV64_0, 16); P(FNV64_1, 16); P(FNV64_1a, 16);
#elif defined(VH_has_160)
	P(HAS_160, 64); G(HAS_160);
#elif defined(VH_md2)
	P(MD2, 16);
#elif defined(VH_md4)
	P(MD4, 64); G(MD4);
#elif defined(VH_md5)
	P(MD5, 64); G(MD5);
#elif defined(VH_ripemd_128)
	P(RIPEMD_128, 64); G(RIPEMD_128);
#elif defined(VH_ripemd_160)
	P(RIPEMD_160, 64); G(RIPEMD_160);
#elif defined(VH_ripemd_256)
	P(RIPEMD_256, 64); G(RIPEMD_256);
#elif defined(VH_ripemd_320)
	P(RIPEMD_320, 64); G(RIPEMD_320);
#elif defined(VH_sha1)
	P(SHA1, 64); G(SHA1);
#elif defined(VH_sha2_224)
	P(SHA2_224, 64); G(SHA2_224);
#elif defined(VH_sha2_256)
	P(SHA2_256, 64); G(SHA2_256);
#elif defined(VH_sha2_384)
	P(SHA2_384, 128); G(SHA2_384);
#elif defined(VH_sha2_512)
	P(SHA2_512, 128); G(SHA2_512);
#elif defined(VH_sha2_512_224)
	P(SHA2_512_224, 128); G(SHA2_512_224);
#elif defined(VH_sha2_512_256)
	P(SHA2_512_256, 128); G(SHA2_512_256);
#elif defined(VH_sha3)
	PM(SHA3_224, 144); PM(SHA3_256, 136); PM(SHA3_384, 104); PM(SHA3_512, 72);
	static const int lens[] = {0, 1, 7, 8, 16, 32, 48, 64, 135, 136, 137, 167, 168, 169, 200, 336, 337, 1000, 2100};
	for (int n : lens) { Rng r(uint64_t(n) + VH_SEED * 7919u); for (int j = 0; j < 4; ++j) { const size_t len = r.below(420); one("SHAKE_128", [&] { return SHAKE_128(n); }, r, len, false); one("SHAKE_256", [&] { return SHAKE_256(n); }, r, len, false); } }
	run("SHAKE_128", [] { return SHAKE_128(32); }, 168, false, 7); run("SHAKE_256", [] { return SHAKE_256(64); }, 136, false, 7);
#ifdef VH_HUGE
	G(SHA3_256);
#endif
#elif defined(VH_siphash)
	for (unsigned k = 0; k < 5; ++k) {
		unsigned char key[17]; Rng r(k + VH_SEED * 7919u); for (unsigned i = 0; i < 17; ++i) key[i] = k == 0 ? 0xFF : (unsigned char)(r.u64() >> 40);
		const unsigned off = k & 1;
		run("SipHash", [&] { return SipHash(SipHash::Span<const unsigned char>(key + off, 16)); }, 16);
	}
#elif defined(VH_sm3)
	P(SM3, 64); G(SM3);
#elif defined(VH_tiger)
	P(Tiger1_128, 64); P(Tiger1_160, 64); P(Tiger1_192, 64); P(Tiger2_128, 64); P(Tiger2_160, 64); P(Tiger2_192, 64); G(Tiger1_192);
#elif defined(VH_tuple_hash)
	static const int lens[] = {0, 1, 31, 32, 64, 136, 168, 169, 500};
	for (int n : lens) for (int k = 0; k < 6; ++k) {
		const std::string cu(size_t(k * 29), 'c'); Rng r(uint64_t(n) * 77 + uint64_t(k) + VH_SEED * 7919u);
		for (int j = 0; j < 3; ++j) { const size_t len = r.below(300); one("TupleHash_128", [&] { return TupleHash_128(n, cu); }, r, len, true); one("TupleHash_256", [&] { return TupleHash_256(n, cu); }, r, len, true); }
	}
	run("TupleHash_128", [] { return TupleHash_128(32, "My Tuple App"); }, 168, true, 5); run("TupleHash_256", [] { return TupleHash_256(64, ""); }, 136, true, 5);
	{ Rng r(VH_SEED); for (int k = 0; k < 20; ++k) { TupleHash_128 h(32, "c"); const unsigned e = r.below(7); for (unsigned i = 0; i < e; ++i) { const Bytes m = content(r, r.below(70)); feed(r, h, m.data(), m.size()); } h.finalize(); L.s("TupleHash_128 elements ").d(e); report(L, h); L.end(); } }
#ifdef VH_HUGE
	huge("TupleHash_128", [] { return TupleHash_128(32, "custom"); }, true); huge("TupleHash_256", [] { return TupleHash_256(32, ""); }, true);
#endif
#elif defined(VH_whirlpool)
	P(Whirlpool, 64); G(Whirlpool);
#else
#error "unknown header"
#endif
	L.s("END ").d(caseNo); L.end();
	return 0;
}
#ifdef VH_NATIVE
#include <cstdio>
extern "C" void vh_out(const char *p, size_t n) { std::fwrite(p, 1, n, stdout); }
int main() { return vh_main(); }
#endif

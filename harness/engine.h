// Case generation shared by the monitors.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include "iface.h"
#include "refreg.h"

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	bool chance(unsigned pct) { return below(100) < pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[size_t(below(v.size()))]; }
};
static inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); r.u64(); return r.u64(); }
static inline uint64_t hashStr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// xoshiro-free fast filler: content kinds chosen to reach degenerate words as well as random ones
static const char *const contentNames[] = {"random", "zeros", "ones", "ascii", "repeat-byte", "single-bit", "period-word", "sparse", "counter32", "high-bit"};
enum { CONTENT_KINDS = 10 };
static inline Bytes makeContent(Rng &r, size_t n, int kind) {
	Bytes b(n);
	switch (kind) {
		case 0: { size_t i = 0; for (; i + 8 <= n; i += 8) { const uint64_t v = r.u64(); std::memcpy(&b[i], &v, 8); } const uint64_t v = r.u64(); for (size_t k = 0; i < n; ++i, ++k) b[i] = uint8_t(v >> (8 * k)); break; }
		case 1: break;
		case 2: std::fill(b.begin(), b.end(), 0xFF); break;
		case 3: for (auto &c : b) c = uint8_t(32 + r.below(95)); break;
		case 4: { const uint8_t c = uint8_t(r.u64()); std::fill(b.begin(), b.end(), c); break; }
		case 5: if (n) b[size_t(r.below(n))] = uint8_t(1u << r.below(8)); break;
		case 6: { const uint64_t w = r.chance(50) ? 0x80ull << (8 * r.below(8)) : r.u64(); const size_t per = size_t(1 + r.below(8)); for (size_t i = 0; i < n; ++i) b[i] = uint8_t(w >> (8 * (i % per))); break; }
		case 7: { const size_t k = size_t(1 + r.below(8)); for (size_t i = 0; i < k && n; ++i) b[size_t(r.below(n))] = uint8_t(r.u64()); break; }
		case 8: { uint32_t base = uint32_t(r.u64()); for (size_t i = 0; i < n; ++i) b[i] = uint8_t((base + i / 4) >> (8 * (i % 4))); break; }
		default: for (auto &c : b) c = uint8_t(0x80 | r.below(128)); break;
	}
	return b;
}
static inline Bytes makeAnyContent(Rng &r, size_t n) { return makeContent(r, n, r.chance(50) ? 0 : int(r.below(CONTENT_KINDS))); }

// Lengths: biased to block and counter-byte boundaries.
static inline size_t pickLen(Rng &r, int block, size_t maxLen) {
	size_t v;
	switch (r.below(7)) {
		case 0: v = size_t(r.below(2 * uint64_t(block) + 3)); break;
		case 1: case 2: { const int64_t d = int64_t(r.below(19)) - 9; v = size_t(std::max<int64_t>(0, int64_t(block) * int64_t(r.below(12)) + d)); break; }
		case 3: { const int64_t d = int64_t(r.below(5)) - 2; v = size_t(std::max<int64_t>(0, (int64_t(1) << r.below(18)) + d)); break; }
		case 4: v = size_t(r.below(1ull << (1 + r.below(17)))); break;
		case 5: v = size_t(r.below(1025)); break;
		default: { const size_t t = size_t(block) - size_t(r.below(uint64_t(block) / 4 + 2)); v = t + size_t(block) * size_t(r.below(4)); break; }
	}
	return std::min(v, maxLen);
}
static inline std::string makeString(Rng &r, size_t n) { const Bytes b = makeContent(r, n, r.chance(60) ? 0 : (r.chance(50) ? 3 : 1)); return std::string(b.begin(), b.end()); }
static inline size_t pickStrLen(Rng &r, int block) {
	switch (r.below(8)) {
		case 0: case 1: return 0;
		case 2: return size_t(1 + r.below(12));
		case 3: return size_t(29 + r.below(6));
		case 4: return size_t(block - 12 + int(r.below(24)));
		case 5: return size_t(r.below(500));
		case 6: return size_t(8189 + r.below(6));
		default: return r.chance(10) ? size_t(65530 + r.below(12)) : size_t(r.below(64));
	}
}
static inline int pickDigestLen(Rng &r, int block) {
	switch (r.below(9)) {
		case 0: return int(r.below(9));
		case 1: return 16; case 2: return 32;
		case 3: return block - 2 + int(r.below(5));
		case 4: return block * int(1 + r.below(5)) - 2 + int(r.below(5));
		case 5: return int(28 + r.below(8));
		case 6: return int(8188 + r.below(8));
		case 7: return int(r.below(2000));
		default: return int(1 + r.below(200));
	}
}
static inline Params makeParams(Rng &r, const Algo &a) {
	Params p;
	if (a.pk == PK::Key) p.key = makeContent(r, 16, r.chance(60) ? 0 : int(r.below(CONTENT_KINDS)));
	if (a.pk == PK::Len || a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) p.len = pickDigestLen(r, a.block);
	if (a.pk == PK::LenNameCustom) p.name = makeString(r, pickStrLen(r, a.block));
	if (a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) p.custom = makeString(r, pickStrLen(r, a.block));
	return p;
}
// Pieces whose concatenation is m (tuples: the pieces are the elements, so left alone by callers).
static inline std::vector<Bytes> splitMsg(Rng &r, const Bytes &m, int block) {
	std::vector<Bytes> out;
	const size_t n = m.size();
	size_t i = 0;
	const int mode = int(r.below(6));
	const size_t fixed = mode == 1 ? 1 : mode == 2 ? size_t(std::max<int64_t>(1, int64_t(block) - 2 + int64_t(r.below(5)))) : size_t(1 + r.below(64));
	if (mode == 0) { out.push_back(m); return out; }
	static const size_t arrSizes[] = {1, 2, 4, 7, 8, 16, 33, 56, 63, 64, 65, 128, 129, 136, 168, 400, 1000};
	while (i < n) {
		size_t k;
		if (mode <= 3) k = fixed;
		else if (mode == 4) k = arrSizes[r.below(17)];
		else k = pickLen(r, block, n - i);
		if (mode <= 3 && n / std::max<size_t>(1, fixed) > 4000) k = pickLen(r, block, n - i) + 1;
		k = std::min(k, n - i);
		if (k == 0 && !r.chance(30)) k = 1;
		out.push_back(Bytes(m.begin() + long(i), m.begin() + long(i + k)));
		i += k;
	}
	if (r.chance(30)) out.push_back(Bytes());
	if (r.chance(20)) out.insert(out.begin(), Bytes());
	return out;
}
static inline std::string describe(const Algo &a, const Params &p) {
	std::string s = a.name + "(";
	if (a.pk == PK::Key) s += "key=" + toHex(p.key);
	if (a.pk != PK::None && a.pk != PK::Key) s += "len=" + std::to_string(p.len);
	if (a.pk == PK::LenNameCustom) s += ",name[" + std::to_string(p.name.size()) + "]";
	if (a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) s += ",custom[" + std::to_string(p.custom.size()) + "]";
	return s + ")";
}
static inline std::string describeItems(const std::vector<Bytes> &v) {
	std::string s = "pieces=["; size_t tot = 0;
	for (size_t i = 0; i < v.size(); ++i) { if (i < 12) s += (i ? "," : "") + std::to_string(v[i].size()); tot += v[i].size(); }
	if (v.size() > 12) s += ",...(" + std::to_string(v.size()) + ")";
	s += "] bytes=" + std::to_string(tot);
	if (tot && tot <= 48) { Bytes all; for (auto &x : v) all.insert(all.end(), x.begin(), x.end()); s += " data=" + toHex(all); }
	return s;
}
static inline std::string shortHex(const Bytes &b) { const std::string h = toHex(b); return h.size() > 64 ? h.substr(0, 64) + "...(" + std::to_string(b.size()) + "B)" : h; }

// Independent reference implementations of every algorithm the library offers.
// Written from the published specifications (RFC 1319/1320/1321/7693, FIPS 180-4, FIPS 202,
// SP 800-185, GB/T 32905, the RIPEMD/HAS-160/Tiger/Whirlpool/BLAKE/SipHash/FNV papers); constants
// come from tables.h (derived) or from the specs. One shot only, simple rather than fast.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "tables.h"

namespace ref {
typedef std::vector<uint8_t> Bytes;
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;
// Message bytes taken as already counted (a whole number of blocks): lets a reference be computed
// from the initial state with a preset length counter. 0 except in the counter experiment.
static u64 g_preload = 0;

static inline u32 rl32(u32 x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static inline u32 rr32(u32 x, unsigned n) { return rl32(x, 32 - n); }
static inline u64 rl64(u64 x, unsigned n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
static inline u64 rr64(u64 x, unsigned n) { return rl64(x, 64 - n); }
static inline u32 le32(const u8 *p) { return u32(p[0]) | u32(p[1]) << 8 | u32(p[2]) << 16 | u32(p[3]) << 24; }
static inline u32 be32(const u8 *p) { return u32(p[3]) | u32(p[2]) << 8 | u32(p[1]) << 16 | u32(p[0]) << 24; }
static inline u64 le64(const u8 *p) { return u64(le32(p)) | u64(le32(p + 4)) << 32; }
static inline u64 be64(const u8 *p) { return u64(be32(p + 4)) | u64(be32(p)) << 32; }
template <class W> static Bytes outw(const W *s, size_t bytes, bool big) {
	Bytes r(bytes);
	for (size_t i = 0; i < bytes; ++i) {
		const size_t w = i / sizeof(W), b = i % sizeof(W);
		r[i] = u8(s[w] >> (8 * (big ? sizeof(W) - 1 - b : b)));
	}
	return r;
}

// Merkle-Damgard driver: marker byte, zeros, length in bits as lenBytes-byte integer.
template <class F>
static void md_run(const u8 *p, u64 n, size_t block, size_t lenBytes, bool big, u8 marker, F f) {
	u64 i = 0;
	for (; n - i >= block; i += block) f(p + i);
	u8 t[256]; std::memset(t, 0, sizeof t);
	const size_t rem = size_t(n - i);
	if (rem) std::memcpy(t, p + i, rem);
	t[rem] = marker;
	const size_t tot = (rem + 1 + lenBytes <= block) ? block : 2 * block;
	const u128 bits = (u128(g_preload) + n) << 3;
	const u64 lo = u64(bits), hi = u64(bits >> 64);
	for (size_t k = 0; k < lenBytes && k < 16; ++k) {
		const u8 v = (k < 8) ? u8(lo >> (8 * k)) : u8(hi >> (8 * (k - 8)));
		if (big) t[tot - 1 - k] = v; else t[tot - lenBytes + k] = v;
	}
	f(t);
	if (tot > block) f(t + block);
}

// ---------------------------------------------------------------- MD2 / MD4 / MD5
static inline Bytes md2(const u8 *p, u64 n) {
	u8 X[48] = {0}, C[16] = {0}, L = 0;
	auto blk = [&](const u8 *m, bool cs) {
		if (cs) for (int j = 0; j < 16; ++j) { C[j] ^= tab::md2S[m[j] ^ L]; L = C[j]; }
		for (int j = 0; j < 16; ++j) { X[16 + j] = m[j]; X[32 + j] = u8(m[j] ^ X[j]); }
		u8 t = 0;
		for (int j = 0; j < 18; ++j) { for (int k = 0; k < 48; ++k) { X[k] ^= tab::md2S[t]; t = X[k]; } t = u8(t + j); }
	};
	u64 i = 0;
	for (; n - i >= 16; i += 16) blk(p + i, true);
	u8 b[16]; const size_t rem = size_t(n - i);
	std::memset(b, int(16 - rem), 16);
	if (rem) std::memcpy(b, p + i, rem);
	blk(b, true);
	u8 c2[16]; std::memcpy(c2, C, 16);
	blk(c2, false);
	return Bytes(X, X + 16);
}
static inline Bytes md4(const u8 *p, u64 n) {
	u32 s[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
	md_run(p, n, 64, 8, false, 0x80, [&](const u8 *m) {
		static const u8 ord[3][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{0,4,8,12,1,5,9,13,2,6,10,14,3,7,11,15},{0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15}};
		static const u8 sh[3][4] = {{3,7,11,19},{3,5,9,13},{3,9,11,15}};
		static const u32 k[3] = {0, 0x5A827999u, 0x6ED9EBA1u};
		u32 a = s[0], b = s[1], c = s[2], d = s[3];
		for (int r = 0; r < 3; ++r) for (int i = 0; i < 16; ++i) {
			const u32 f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
			const u32 t = rl32(a + f + le32(m + 4 * ord[r][i]) + k[r], sh[r][i & 3]);
			a = d; d = c; c = b; b = t;
		}
		s[0] += a; s[1] += b; s[2] += c; s[3] += d;
	});
	return outw(s, 16, false);
}
static inline Bytes md5(const u8 *p, u64 n) {
	u32 s[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
	md_run(p, n, 64, 8, false, 0x80, [&](const u8 *m) {
		static const u8 sh[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
		u32 a = s[0], b = s[1], c = s[2], d = s[3];
		for (int i = 0; i < 64; ++i) {
			const int r = i / 16; u32 f; int g;
			switch (r) {
				case 0: f = (b & c) | (~b & d); g = i; break;
				case 1: f = (b & d) | (c & ~d); g = (5 * i + 1) & 15; break;
				case 2: f = b ^ c ^ d; g = (3 * i + 5) & 15; break;
				default: f = c ^ (b | ~d); g = (7 * i) & 15; break;
			}
			const u32 t = b + rl32(a + f + tab::md5K[i] + le32(m + 4 * g), sh[r][i & 3]);
			a = d; d = c; c = b; b = t;
		}
		s[0] += a; s[1] += b; s[2] += c; s[3] += d;
	});
	return outw(s, 16, false);
}
// ---------------------------------------------------------------- SHA-1 / SHA-2
static inline Bytes sha1(const u8 *p, u64 n) {
	u32 s[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
	md_run(p, n, 64, 8, true, 0x80, [&](const u8 *m) {
		u32 w[80];
		for (int i = 0; i < 16; ++i) w[i] = be32(m + 4 * i);
		for (int i = 16; i < 80; ++i) w[i] = rl32(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		u32 a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
		for (int i = 0; i < 80; ++i) {
			u32 f, k;
			if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999u; }
			else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1u; }
			else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDCu; }
			else { f = b ^ c ^ d; k = 0xCA62C1D6u; }
			const u32 t = rl32(a, 5) + f + e + k + w[i];
			e = d; d = c; c = rl32(b, 30); b = a; a = t;
		}
		s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e;
	});
	return outw(s, 20, true);
}
static inline Bytes sha2_32(const u32 *iv, size_t out, const u8 *p, u64 n) {
	u32 s[8]; std::memcpy(s, iv, sizeof s);
	md_run(p, n, 64, 8, true, 0x80, [&](const u8 *m) {
		u32 w[64];
		for (int i = 0; i < 16; ++i) w[i] = be32(m + 4 * i);
		for (int i = 16; i < 64; ++i)
			w[i] = (rr32(w[i-2],17) ^ rr32(w[i-2],19) ^ (w[i-2] >> 10)) + w[i-7] + (rr32(w[i-15],7) ^ rr32(w[i-15],18) ^ (w[i-15] >> 3)) + w[i-16];
		u32 v[8]; std::memcpy(v, s, sizeof v);
		for (int i = 0; i < 64; ++i) {
			const u32 t1 = v[7] + (rr32(v[4],6) ^ rr32(v[4],11) ^ rr32(v[4],25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + tab::sha256K[i] + w[i];
			const u32 t2 = (rr32(v[0],2) ^ rr32(v[0],13) ^ rr32(v[0],22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for (int j = 7; j > 0; --j) v[j] = v[j - 1];
			v[4] += t1; v[0] = t1 + t2;
		}
		for (int j = 0; j < 8; ++j) s[j] += v[j];
	});
	return outw(s, out, true);
}
static inline Bytes sha2_64(const u64 *iv, size_t out, const u8 *p, u64 n) {
	u64 s[8]; std::memcpy(s, iv, sizeof s);
	md_run(p, n, 128, 16, true, 0x80, [&](const u8 *m) {
		u64 w[80];
		for (int i = 0; i < 16; ++i) w[i] = be64(m + 8 * i);
		for (int i = 16; i < 80; ++i)
			w[i] = (rr64(w[i-2],19) ^ rr64(w[i-2],61) ^ (w[i-2] >> 6)) + w[i-7] + (rr64(w[i-15],1) ^ rr64(w[i-15],8) ^ (w[i-15] >> 7)) + w[i-16];
		u64 v[8]; std::memcpy(v, s, sizeof v);
		for (int i = 0; i < 80; ++i) {
			const u64 t1 = v[7] + (rr64(v[4],14) ^ rr64(v[4],18) ^ rr64(v[4],41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + tab::sha512K[i] + w[i];
			const u64 t2 = (rr64(v[0],28) ^ rr64(v[0],34) ^ rr64(v[0],39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for (int j = 7; j > 0; --j) v[j] = v[j - 1];
			v[4] += t1; v[0] = t1 + t2;
		}
		for (int j = 0; j < 8; ++j) s[j] += v[j];
	});
	return outw(s, out, true);
}
static inline Bytes sha224(const u8 *p, u64 n) { return sha2_32(tab::iv224, 28, p, n); }
static inline Bytes sha256(const u8 *p, u64 n) { return sha2_32(tab::iv256, 32, p, n); }
static inline Bytes sha384(const u8 *p, u64 n) { return sha2_64(tab::iv384, 48, p, n); }
static inline Bytes sha512(const u8 *p, u64 n) { return sha2_64(tab::iv512, 64, p, n); }
static inline Bytes sha512t(unsigned t, const u8 *p, u64 n) {
	u64 iv[8]; for (int i = 0; i < 8; ++i) iv[i] = tab::iv512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
	const std::string name = "SHA-512/" + std::to_string(t);
	const u64 pre = g_preload; g_preload = 0;
	const Bytes g = sha2_64(iv, 64, reinterpret_cast<const u8 *>(name.data()), name.size());
	g_preload = pre;
	for (int i = 0; i < 8; ++i) iv[i] = be64(g.data() + 8 * i);
	return sha2_64(iv, t / 8, p, n);
}
static inline Bytes sha512_224(const u8 *p, u64 n) { return sha512t(224, p, n); }
static inline Bytes sha512_256(const u8 *p, u64 n) { return sha512t(256, p, n); }
// ---------------------------------------------------------------- RIPEMD
struct Rmd {
	static u32 f(int j, u32 x, u32 y, u32 z) {
		switch (j) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
	}
	static int rho(int i) { static const u8 t[16] = {7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8}; return t[i]; }
	static int ordL(int r, int i) { for (int k = 0; k < r; ++k) i = rho(i); return i; }
	static int ordR(int r, int i) { i = (9 * i + 5) & 15; for (int k = 0; k < r; ++k) i = rho(i); return i; }
	static int sh(int r, int w) {
		static const u8 t[5][16] = {
			{11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8},{12,13,11,15,6,9,9,7,12,15,11,13,7,8,7,7},
			{13,15,14,11,7,7,6,8,13,14,13,12,5,5,6,9},{14,11,12,14,8,6,5,5,15,12,15,14,9,9,8,6},
			{15,12,13,13,9,5,8,6,14,11,12,11,8,6,5,5}};
		return t[r][w];
	}
	static u32 kL(int r) { static const u32 k[5] = {0,0x5A827999u,0x6ED9EBA1u,0x8F1BBCDCu,0xA953FD4Eu}; return k[r]; }
	static u32 kR(int r, int rounds) { static const u32 k[5] = {0x50A28BE6u,0x5C4DD124u,0x6D703EF3u,0x7A6D76E9u,0}; return r == rounds - 1 ? 0 : k[r]; }
	static void round4(u32 *v, int r, bool right, const u8 *m) {      // 4-word line (128/256)
		for (int i = 0; i < 16; ++i) {
			const int w = right ? ordR(r, i) : ordL(r, i);
			const u32 t = rl32(v[0] + f(right ? 3 - r : r, v[1], v[2], v[3]) + le32(m + 4 * w) + (right ? kR(r, 4) : kL(r)), sh(r, w));
			v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = t;
		}
	}
	static void round5(u32 *v, int r, bool right, const u8 *m) {      // 5-word line (160/320)
		for (int i = 0; i < 16; ++i) {
			const int w = right ? ordR(r, i) : ordL(r, i);
			const u32 t = rl32(v[0] + f(right ? 4 - r : r, v[1], v[2], v[3]) + le32(m + 4 * w) + (right ? kR(r, 5) : kL(r)), sh(r, w)) + v[4];
			v[0] = v[4]; v[4] = v[3]; v[3] = rl32(v[2], 10); v[2] = v[1]; v[1] = t;
		}
	}
};
static inline Bytes rmd128(const u8 *p, u64 n) {
	u32 s[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
	md_run(p, n, 64, 8, false, 0x80, [&](const u8 *m) {
		u32 a[4], b[4]; std::memcpy(a, s, 16); std::memcpy(b, s, 16);
		for (int r = 0; r < 4; ++r) { Rmd::round4(a, r, false, m); Rmd::round4(b, r, true, m); }
		const u32 t = s[1] + a[2] + b[3];
		s[1] = s[2] + a[3] + b[0]; s[2] = s[3] + a[0] + b[1]; s[3] = s[0] + a[1] + b[2]; s[0] = t;
	});
	return outw(s, 16, false);
}
static inline Bytes rmd160(const u8 *p, u64 n) {
	u32 s[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
	md_run(p, n, 64, 8, false, 0x80, [&](const u8 *m) {
		u32 a[5], b[5]; std::memcpy(a, s, 20); std::memcpy(b, s, 20);
		for (int r = 0; r < 5; ++r) { Rmd::round5(a, r, false, m); Rmd::round5(b, r, true, m); }
		const u32 t = s[1] + a[2] + b[3];
		s[1] = s[2] + a[3] + b[4]; s[2] = s[3] + a[4] + b[0]; s[3] = s[4] + a[0] + b[1]; s[4] = s[0] + a[1] + b[2]; s[0] = t;
	});
	return outw(s, 20, false);
}
static inline Bytes rmd256(const u8 *p, u64 n) {
	u32 s[8] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0x76543210u, 0xfedcba98u, 0x89abcdefu, 0x01234567u};
	md_run(p, n, 64, 8, false, 0x80, [&](const u8 *m) {
		u32 v[8]; std::memcpy(v, s, 32);
		for (int r = 0; r < 4; ++r) { Rmd::round4(v, r, false, m); Rmd::round4(v + 4, r, true, m); const u32 t = v[r]; v[r] = v[4 + r]; v[4 + r] = t; }
		for (int i = 0; i < 8; ++i) s[i] += v[i];
	});
	return outw(s, 32, false);
}
static inline Bytes rmd320(const u8 *p, u64 n) {
	u32 s[10] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u, 0x76543210u, 0xfedcba98u, 0x89abcdefu, 0x01234567u, 0x3c2d1e0fu};
	md_run(p, n, 64, 8, false, 0x80, [&](const u8 *m) {
		static const int sw[5] = {1, 3, 0, 2, 4};
		u32 v[10]; std::memcpy(v, s, 40);
		for (int r = 0; r < 5; ++r) { Rmd::round5(v, r, false, m); Rmd::round5(v + 5, r, true, m); const u32 t = v[sw[r]]; v[sw[r]] = v[5 + sw[r]]; v[5 + sw[r]] = t; }
		for (int i = 0; i < 10; ++i) s[i] += v[i];
	});
	return outw(s, 40, false);
}
// ---------------------------------------------------------------- HAS-160 / SM3
static inline Bytes has160(const u8 *p, u64 n) {
	u32 s[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
	md_run(p, n, 64, 8, false, 0x80, [&](const u8 *m) {
		static const u8 ord[4][20] = {
			{18,0,1,2,3,19,4,5,6,7,16,8,9,10,11,17,12,13,14,15},{18,3,6,9,12,19,15,2,5,8,16,11,14,1,4,17,7,10,13,0},
			{18,12,5,14,7,19,0,9,2,11,16,4,13,6,15,17,8,1,10,3},{18,7,2,13,8,19,3,14,9,4,16,15,10,5,0,17,11,6,1,12}};
		static const u8 s1[20] = {5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13};
		static const u8 s2[4] = {10,17,25,30};
		static const u32 K[4] = {0, 0x5A827999u, 0x6ED9EBA1u, 0x8F1BBCDCu};
		u32 v[5]; std::memcpy(v, s, 20);
		for (int r = 0; r < 4; ++r) {
			u32 x[20];
			for (int i = 0; i < 16; ++i) x[i] = le32(m + 4 * i);
			for (int g = 0; g < 4; ++g) { x[16 + g] = 0; for (int k = 1; k <= 4; ++k) x[16 + g] ^= x[ord[r][5 * g + k]]; }
			for (int i = 0; i < 20; ++i) {
				const u32 f = r == 0 ? (v[1] & v[2]) | (~v[1] & v[3]) : r == 2 ? v[2] ^ (v[1] | ~v[3]) : v[1] ^ v[2] ^ v[3];
				const u32 t = rl32(v[0], s1[i]) + f + v[4] + x[ord[r][i]] + K[r];
				v[4] = v[3]; v[3] = v[2]; v[2] = rl32(v[1], s2[r]); v[1] = v[0]; v[0] = t;
			}
		}
		for (int i = 0; i < 5; ++i) s[i] += v[i];
	});
	return outw(s, 20, false);
}
static inline Bytes sm3(const u8 *p, u64 n) {
	u32 s[8] = {0x7380166fu,0x4914b2b9u,0x172442d7u,0xda8a0600u,0xa96f30bcu,0x163138aau,0xe38dee4du,0xb0fb0e4eu};
	md_run(p, n, 64, 8, true, 0x80, [&](const u8 *m) {
		u32 w[68];
		for (int i = 0; i < 16; ++i) w[i] = be32(m + 4 * i);
		for (int i = 16; i < 68; ++i) { const u32 x = w[i-16] ^ w[i-9] ^ rl32(w[i-3],15); w[i] = x ^ rl32(x,15) ^ rl32(x,23) ^ rl32(w[i-13],7) ^ w[i-6]; }
		u32 a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
		for (int i = 0; i < 64; ++i) {
			const u32 T = i < 16 ? 0x79cc4519u : 0x7a879d8au;
			const u32 ss1 = rl32(rl32(a,12) + e + rl32(T, unsigned(i) % 32), 7), ss2 = ss1 ^ rl32(a,12);
			const u32 ff = i < 16 ? a ^ b ^ c : (a & b) | (a & c) | (b & c), gg = i < 16 ? e ^ f ^ g : (e & f) | (~e & g);
			const u32 t1 = ff + d + ss2 + (w[i] ^ w[i + 4]), t2 = gg + h + ss1 + w[i];
			d = c; c = rl32(b,9); b = a; a = t1; h = g; g = rl32(f,19); f = e; e = t2 ^ rl32(t2,9) ^ rl32(t2,17);
		}
		s[0]^=a;s[1]^=b;s[2]^=c;s[3]^=d;s[4]^=e;s[5]^=f;s[6]^=g;s[7]^=h;
	});
	return outw(s, 32, true);
}
// ---------------------------------------------------------------- Tiger
struct Tig {
	u64 t[4][256];
	void compress(u64 s[3], const u64 in[8]) const {
		u64 x[8]; std::memcpy(x, in, 64);
		u64 r[3] = {s[0], s[1], s[2]};
		for (int pass = 0; pass < 3; ++pass) {
			if (pass) {
				x[0] -= x[7] ^ 0xA5A5A5A5A5A5A5A5ull; x[1] ^= x[0]; x[2] += x[1]; x[3] -= x[2] ^ ((~x[1]) << 19);
				x[4] ^= x[3]; x[5] += x[4]; x[6] -= x[5] ^ ((~x[4]) >> 23); x[7] ^= x[6];
				x[0] += x[7]; x[1] -= x[0] ^ ((~x[7]) << 19); x[2] ^= x[1]; x[3] += x[2];
				x[4] -= x[3] ^ ((~x[2]) >> 23); x[5] ^= x[4]; x[6] += x[5]; x[7] -= x[6] ^ 0x0123456789ABCDEFull;
			}
			const u64 mul = pass == 0 ? 5 : pass == 1 ? 7 : 9;
			for (int i = 0; i < 8; ++i) {
				u64 &a = r[i % 3], &b = r[(i + 1) % 3], &c = r[(i + 2) % 3];
				c ^= x[i];
				const auto by = [&](int k) { return u8(c >> (8 * k)); };
				a -= t[0][by(0)] ^ t[1][by(2)] ^ t[2][by(4)] ^ t[3][by(6)];
				b += t[3][by(1)] ^ t[2][by(3)] ^ t[1][by(5)] ^ t[0][by(7)];
				b *= mul;
			}
			const u64 tmp = r[0]; r[0] = r[2]; r[2] = r[1]; r[1] = tmp;      // rotate roles after 8 rounds
		}
		s[0] ^= r[0]; s[1] = r[1] - s[1]; s[2] += r[2];
	}
	Tig() {
		static const char str[] = "Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham";
		u64 m[8]; for (int i = 0; i < 8; ++i) m[i] = le64(reinterpret_cast<const u8 *>(str) + 8 * i);
		u64 st[3] = {0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0xF096A5B4C3B2E187ull};
		for (int b = 0; b < 4; ++b) for (int i = 0; i < 256; ++i) t[b][i] = 0x0101010101010101ull * u64(i);
		int abc = 2;
		for (int pass = 0; pass < 5; ++pass) for (int i = 0; i < 256; ++i) for (int b = 0; b < 4; ++b) {
			if (++abc == 3) { abc = 0; compress(st, m); }
			for (int col = 0; col < 8; ++col) {
				const int j = u8(st[abc] >> (8 * col));
				const u64 mask = 0xFFull << (8 * col), vi = t[b][i] & mask, vj = t[b][j] & mask;
				t[b][i] = (t[b][i] & ~mask) | vj;
				t[b][j] = (t[b][j] & ~mask) | vi;
			}
		}
	}
	static const Tig &get() { static const Tig x; return x; }
};
static inline Bytes tiger(u8 marker, size_t out, const u8 *p, u64 n) {
	u64 s[3] = {0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0xF096A5B4C3B2E187ull};
	const Tig &T = Tig::get();
	md_run(p, n, 64, 8, false, marker, [&](const u8 *m) { u64 x[8]; for (int i = 0; i < 8; ++i) x[i] = le64(m + 8 * i); T.compress(s, x); });
	return outw(s, out, false);
}
// ---------------------------------------------------------------- Whirlpool (byte-matrix form)
struct Wpl {
	u8 S[256], mul[256][10]; u64 tb[8][256];
	static u8 gm(unsigned a, unsigned b) { unsigned r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a <<= 1; if (a & 0x100) a ^= 0x11D; } return u8(r); }
	Wpl() {
		static const u8 E[16] = {0x1,0xB,0x9,0xC,0xD,0x6,0xF,0x3,0xE,0x8,0x7,0x4,0xA,0x2,0x5,0x0};
		static const u8 R[16] = {0x7,0xC,0xB,0xD,0xE,0x4,0x9,0xF,0x6,0x3,0x8,0xA,0x2,0x5,0x1,0x0};
		u8 Ei[16]; for (int i = 0; i < 16; ++i) Ei[E[i]] = u8(i);
		for (int x = 0; x < 256; ++x) {
			const u8 a = E[x >> 4], b = Ei[x & 15], r = R[a ^ b];
			S[x] = u8((E[a ^ r] << 4) | Ei[b ^ r]);
		}
		static const u8 cir[8] = {1, 1, 4, 1, 8, 5, 2, 9};
		// row i of output gets sum_k in[i][k]*C[k][j], C[k][j] = cir[(j-k)&7]
		for (int k = 0; k < 8; ++k) for (int x = 0; x < 256; ++x) {
			u64 v = 0;
			for (int j = 0; j < 8; ++j) v |= u64(gm(S[x], cir[(j - k) & 7])) << (8 * j);
			tb[k][x] = v;
		}
	}
	void rnd(const u64 in[8], u64 out[8]) const {        // word i = row i, byte j (LE) = column j; ShiftColumns then MixRows
		for (int i = 0; i < 8; ++i) { u64 v = 0; for (int k = 0; k < 8; ++k) v ^= tb[k][u8(in[(i - k) & 7] >> (8 * k))]; out[i] = v; }
	}
	static const Wpl &get() { static const Wpl x; return x; }
};
static inline Bytes whirlpool(const u8 *p, u64 n) {
	const Wpl &W = Wpl::get();
	u64 h[8] = {0};
	md_run(p, n, 64, 32, true, 0x80, [&](const u8 *m) {
		u64 k[8], st[8], t[8], b[8];
		for (int i = 0; i < 8; ++i) { b[i] = le64(m + 8 * i); k[i] = h[i]; st[i] = b[i] ^ k[i]; }
		for (int r = 0; r < 10; ++r) {
			W.rnd(k, t);
			u64 rc = 0; for (int j = 0; j < 8; ++j) rc |= u64(W.S[8 * r + j]) << (8 * j);
			t[0] ^= rc; std::memcpy(k, t, 64);
			W.rnd(st, t); for (int i = 0; i < 8; ++i) st[i] = t[i] ^ k[i];
		}
		for (int i = 0; i < 8; ++i) h[i] ^= st[i] ^ b[i];
	});
	return outw(h, 64, false);
}
// ---------------------------------------------------------------- Keccak family
static inline void keccak_f(u64 A[25]) {
	u8 lfsr = 1;
	for (int r = 0; r < 24; ++r) {
		u64 C[5]; for (int x = 0; x < 5; ++x) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
		for (int x = 0; x < 5; ++x) { const u64 D = C[(x + 4) % 5] ^ rl64(C[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) A[y + x] ^= D; }
		u64 cur = A[1]; int x = 1, y = 0;
		for (int t = 0; t < 24; ++t) { const int X = y, Y = (2 * x + 3 * y) % 5; x = X; y = Y; const u64 tmp = A[5 * y + x]; A[5 * y + x] = rl64(cur, unsigned((t + 1) * (t + 2) / 2) % 64); cur = tmp; }
		for (int yy = 0; yy < 25; yy += 5) { u64 row[5]; std::memcpy(row, A + yy, 40); for (int xx = 0; xx < 5; ++xx) A[yy + xx] = row[xx] ^ (~row[(xx + 1) % 5] & row[(xx + 2) % 5]); }
		for (int j = 0; j < 7; ++j) { const bool bit = lfsr & 1; lfsr = u8((lfsr << 1) ^ ((lfsr >> 7) * 0x71)); if (bit) A[0] ^= 1ull << ((1 << j) - 1); }
	}
}
static inline Bytes keccak(size_t rate, u8 suffix, size_t out, const u8 *p, u64 n) {
	u64 A[25] = {0};
	u64 i = 0;
	for (; n - i >= rate; i += rate) { for (size_t k = 0; k < rate / 8; ++k) A[k] ^= le64(p + i + 8 * k); keccak_f(A); }
	for (size_t k = 0; k < n - i; ++k) A[k / 8] ^= u64(p[i + k]) << (8 * (k % 8));
	const size_t rem = size_t(n - i);
	A[rem / 8] ^= u64(suffix) << (8 * (rem % 8));
	A[(rate - 1) / 8] ^= 0x80ull << 56;
	Bytes r; r.reserve(out);
	keccak_f(A);
	while (r.size() < out) {
		for (size_t k = 0; k < rate && r.size() < out; ++k) r.push_back(u8(A[k / 8] >> (8 * (k % 8))));
		if (r.size() < out) keccak_f(A);
	}
	return r;
}
static inline Bytes sha3(unsigned bits, const u8 *p, u64 n) { return keccak(200 - bits / 4, 0x06, bits / 8, p, n); }
static inline Bytes shake(unsigned bits, size_t out, const u8 *p, u64 n) { return keccak(200 - bits / 4, 0x1F, out, p, n); }
static inline void put(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
static inline Bytes left_encode(u64 v) { Bytes d; do { d.insert(d.begin(), u8(v)); v >>= 8; } while (v); d.insert(d.begin(), u8(d.size())); return d; }
static inline Bytes right_encode(u64 v) { Bytes d; do { d.insert(d.begin(), u8(v)); v >>= 8; } while (v); d.push_back(u8(d.size())); return d; }
static inline Bytes encode_string(const Bytes &s) { Bytes r = left_encode(u64(s.size()) * 8); put(r, s); return r; }
static inline Bytes cshake(unsigned bits, size_t out, const Bytes &name, const Bytes &custom, const u8 *p, u64 n) {
	const size_t rate = 200 - bits / 4;
	if (name.empty() && custom.empty()) return keccak(rate, 0x1F, out, p, n);
	Bytes m = left_encode(rate); put(m, encode_string(name)); put(m, encode_string(custom));
	while (m.size() % rate) m.push_back(0);
	m.insert(m.end(), p, p + n);
	return keccak(rate, 0x04, out, m.data(), m.size());
}
static inline Bytes tuple_hash(unsigned bits, size_t out, const Bytes &custom, const std::vector<Bytes> &items) {
	Bytes m; for (const Bytes &x : items) put(m, encode_string(x));
	put(m, right_encode(u64(out) * 8));
	static const char N[] = "TupleHash";
	return cshake(bits, out, Bytes(N, N + 9), custom, m.data(), m.size());
}
// ---------------------------------------------------------------- BLAKE (SHA-3 finalist version)
static inline const u8 *blake_sigma(int r) {
	static const u8 s[10][16] = {
		{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
		{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
		{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
		{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
		{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
	return s[r % 10];
}
struct BlakeIdx { int a, b, c, d; };
static inline BlakeIdx blake_idx(int i) {
	static const BlakeIdx t[8] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
	return t[i];
}
template <class W> struct BlakeP;
template <> struct BlakeP<u32> { enum { rounds = 14 }; static u32 rot(u32 x, int k) { static const int r[4] = {16,12,8,7}; return rr32(x, unsigned(r[k])); } static u32 c(int i) { return tab::pi32[i]; } static u32 ld(const u8 *p) { return be32(p); } };
template <> struct BlakeP<u64> { enum { rounds = 16 }; static u64 rot(u64 x, int k) { static const int r[4] = {32,25,16,11}; return rr64(x, unsigned(r[k])); } static u64 c(int i) { return tab::pi64[i]; } static u64 ld(const u8 *p) { return be64(p); } };
template <class W> static void blake_compress(W h[8], const u8 *blk, W t0, W t1) {
	typedef BlakeP<W> P;
	W v[16], m[16];
	for (int i = 0; i < 16; ++i) m[i] = P::ld(blk + i * sizeof(W));
	for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[8 + i] = P::c(i); }
	v[12] ^= t0; v[13] ^= t0; v[14] ^= t1; v[15] ^= t1;
	for (int r = 0; r < P::rounds; ++r) {
		const u8 *s = blake_sigma(r);
		for (int i = 0; i < 8; ++i) {
			const BlakeIdx x = blake_idx(i);
			v[x.a] += v[x.b] + (m[s[2*i]] ^ P::c(s[2*i+1])); v[x.d] = P::rot(v[x.d] ^ v[x.a], 0);
			v[x.c] += v[x.d]; v[x.b] = P::rot(v[x.b] ^ v[x.c], 1);
			v[x.a] += v[x.b] + (m[s[2*i+1]] ^ P::c(s[2*i])); v[x.d] = P::rot(v[x.d] ^ v[x.a], 2);
			v[x.c] += v[x.d]; v[x.b] = P::rot(v[x.b] ^ v[x.c], 3);
		}
	}
	for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[8 + i];
}
template <class W> static Bytes blake1(const W *iv, size_t out, const u8 *p, u64 n) {
	const size_t B = 16 * sizeof(W), L = 2 * sizeof(W);
	const bool full = out == 8 * sizeof(W);              // 256 and 512: the bit before the length is 1
	W h[8]; std::memcpy(h, iv, sizeof h);
	// bits hashed so far, as an L-byte counter (t1:t0)
	auto ctr = [&](u64 bytes, W &t0, W &t1) { const u128 b = (u128(g_preload) + bytes) << 3; t0 = W(b); t1 = W(b >> (8 * sizeof(W))); };
	const u128 total = (u128(g_preload) + n) << 3;
	W t0, t1; u64 i = 0;
	for (; n - i >= B; i += B) { ctr(i + B, t0, t1); blake_compress(h, p + i, t0, t1); }
	u8 t[256]; std::memset(t, 0, sizeof t);
	const size_t rem = size_t(n - i); if (rem) std::memcpy(t, p + i, rem);
	t[rem] = 0x80;
	const size_t tot = rem + 1 + L <= B ? B : 2 * B;
	if (full) t[tot - L - 1] |= 1;
	for (size_t k = 0; k < L; ++k) t[tot - 1 - k] = u8(total >> (8 * k));
	// a block holding no message bit gets counter 0
	if (rem) ctr(n, t0, t1); else t0 = t1 = 0;
	blake_compress(h, t, t0, t1);
	if (tot > B) blake_compress(h, t + B, W(0), W(0));
	return outw(h, out, true);
}
static inline Bytes blake224(const u8 *p, u64 n) { return blake1<u32>(tab::iv224, 28, p, n); }
static inline Bytes blake256(const u8 *p, u64 n) { return blake1<u32>(tab::iv256, 32, p, n); }
static inline Bytes blake384(const u8 *p, u64 n) { return blake1<u64>(tab::iv384, 48, p, n); }
static inline Bytes blake512(const u8 *p, u64 n) { return blake1<u64>(tab::iv512, 64, p, n); }
// ---------------------------------------------------------------- BLAKE2 (RFC 7693, unkeyed)
template <class W> static Bytes blake2(const W *iv, const int rot[4], int rounds, size_t out, const u8 *p, u64 n) {
	const size_t B = 16 * sizeof(W);
	auto ror = [](W x, int k) { return W((x >> k) | (x << (int(8 * sizeof(W)) - k))); };
	W h[8]; std::memcpy(h, iv, sizeof h); h[0] ^= W(0x01010000u ^ out);
	auto F = [&](const u8 *blk, u64 tt, bool last) {
		const u128 t = u128(g_preload) + tt;
		W v[16], m[16];
		for (int i = 0; i < 16; ++i) m[i] = sizeof(W) == 8 ? W(le64(blk + 8 * i)) : W(le32(blk + 4 * i));
		for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[8 + i] = iv[i]; }
		v[12] ^= W(t); v[13] ^= W(t >> (8 * sizeof(W)));
		if (last) v[14] = W(~v[14]);
		for (int r = 0; r < rounds; ++r) {
			const u8 *s = blake_sigma(r);
			for (int i = 0; i < 8; ++i) {
				const BlakeIdx x = blake_idx(i);
				v[x.a] += v[x.b] + m[s[2*i]]; v[x.d] = ror(v[x.d] ^ v[x.a], rot[0]); v[x.c] += v[x.d]; v[x.b] = ror(v[x.b] ^ v[x.c], rot[1]);
				v[x.a] += v[x.b] + m[s[2*i+1]]; v[x.d] = ror(v[x.d] ^ v[x.a], rot[2]); v[x.c] += v[x.d]; v[x.b] = ror(v[x.b] ^ v[x.c], rot[3]);
			}
		}
		for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[8 + i];
	};
	u64 i = 0;
	for (; n - i > B; i += B) F(p + i, i + B, false);
	u8 t[128]; std::memset(t, 0, sizeof t); if (n - i) std::memcpy(t, p + i, size_t(n - i));
	F(t, n, true);
	return outw(h, out, false);
}
static inline Bytes blake2b(const u8 *p, u64 n) { static const int r[4] = {32,24,16,63}; return blake2<u64>(tab::iv512, r, 12, 64, p, n); }
static inline Bytes blake2s(const u8 *p, u64 n) { static const int r[4] = {16,12,8,7}; return blake2<u32>(tab::iv256, r, 10, 32, p, n); }
// ---------------------------------------------------------------- CRC-32 / FNV / SipHash-2-4
static inline const u32 *crc_table() {
	struct T { u32 t[256]; T() { for (u32 i = 0; i < 256; ++i) { u32 c = i; for (int b = 0; b < 8; ++b) c = (c >> 1) ^ ((c & 1) ? 0xEDB88320u : 0); t[i] = c; } } };
	static const T x; return x.t;
}
static inline Bytes crc32(const u8 *p, u64 n) {
	const u32 *t = crc_table(); u32 c = 0xFFFFFFFFu;
	for (u64 i = 0; i < n; ++i) c = (c >> 8) ^ t[(c ^ p[i]) & 0xFF];
	c = ~c;
	return outw(&c, 4, true);
}
template <class W> static Bytes fnv(int variant, W basis, W prime, const u8 *p, u64 n) {   // 0: FNV-0, 1: FNV-1, 2: FNV-1a
	W h = variant == 0 ? W(0) : basis;
	for (u64 i = 0; i < n; ++i) { if (variant == 2) { h ^= p[i]; h *= prime; } else { h *= prime; h ^= p[i]; } }
	return outw(&h, sizeof(W), true);
}
static inline Bytes fnv32(int v, const u8 *p, u64 n) { return fnv<u32>(v, 0x811C9DC5u, 0x01000193u, p, n); }
static inline Bytes fnv64(int v, const u8 *p, u64 n) { return fnv<u64>(v, 0xCBF29CE484222325ull, 0x00000100000001B3ull, p, n); }
static inline Bytes siphash(const u8 key[16], const u8 *p, u64 n) {
	const u64 k0 = le64(key), k1 = le64(key + 8);
	u64 v0 = k0 ^ 0x736f6d6570736575ull, v1 = k1 ^ 0x646f72616e646f6dull, v2 = k0 ^ 0x6c7967656e657261ull, v3 = k1 ^ 0x7465646279746573ull;
	auto R = [&]() { v0 += v1; v1 = rl64(v1,13); v1 ^= v0; v0 = rl64(v0,32); v2 += v3; v3 = rl64(v3,16); v3 ^= v2; v0 += v3; v3 = rl64(v3,21); v3 ^= v0; v2 += v1; v1 = rl64(v1,17); v1 ^= v2; v2 = rl64(v2,32); };
	u64 i = 0;
	for (; n - i >= 8; i += 8) { const u64 m = le64(p + i); v3 ^= m; R(); R(); v0 ^= m; }
	u64 last = u64(n & 0xFF) << 56; for (u64 k = 0; i + k < n; ++k) last |= u64(p[i + k]) << (8 * k);
	v3 ^= last; R(); R(); v0 ^= last; v2 ^= 0xFF; R(); R(); R(); R();
	const u64 r = v0 ^ v1 ^ v2 ^ v3;
	return outw(&r, 8, true);       // the library presents the 64-bit value most significant byte first
}
static inline std::string hex(const Bytes &b) { static const char d[] = "0123456789abcdef"; std::string s; for (u8 c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
}

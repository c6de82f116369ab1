// Drives one header's classes through generated histories and watches them.
//   driver --mode M --seed S [--cases N] [--from K --count C] [--only ALGO] [--status FILE] [--scale X] [--quiet]
// Output: STAT/SAMPLE/VIOL lines. Exit 0 nothing found, 1 violations, 3 harness error; anything else: crash.
#include "engine.h"
#include <cinttypes>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <csignal>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

typedef std::unique_ptr<IHash> HP;

static std::string g_mode;
static uint64_t g_seed = 1;
static bool g_quiet = false;
static int g_viol = 0;
static uint64_t g_case = 0;
static uint64_t *g_status = nullptr;
static std::map<std::string, uint64_t> g_stat;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static std::set<int> g_overloads;

const char *ovName(int o) {
	static const char *const n[] = {"ptr,len", "Span<const Byte>", "Span<Byte>", "Span<char>", "Span<const char>", "Span<u16>", "Span<const u32>", "Span<u64>", "Byte[N]", "char[N]", "int16[N]", "u32[N]", "u64[N]", "{ptr,len}", "Span<const Byte,N>", "base ptr,len",
		"Span<3-byte struct>", "Span<const 12-byte struct>", "Span<40-byte struct>", "12-byte struct[N]", "40-byte struct[N]", "Byte[N][4]", "Span<signed char>", "Span<1000-byte struct>", "vector<Byte>", "array<Byte,N>", "Span<u16,N>"};
	return n[o];
}
static void stat(const std::string &k, uint64_t n = 1) { g_stat[k] += n; }
static void sample(const std::string &s) { if (g_samples.size() < 6) g_samples.push_back(s); }
static void distinct(const std::string &sig) { g_distinct.insert(hashStr(sig)); }
struct Violated {};
static void viol(const Algo &a, const std::string &tag, const std::string &msg) {
	if (g_quiet) return;
	++g_viol;
	std::string m = msg; for (char &c : m) if (c == '\n') c = ' ';
	printf("VIOL case=%" PRIu64 " key=%s:%s:%s %s\n", g_case, a.name.c_str(), g_mode.c_str(), tag.c_str(), m.c_str());
	fflush(stdout);
	throw Violated();
}

// --- feeding ---------------------------------------------------------------------------------
static int fillByte(Rng &r) { static const int f[] = {0x00, 0xFF, 0xAA, 0x5A, 0x01}; return f[r.below(5)]; }

static void feedPiece(Rng &r, const Algo &a, IHash &h, const Bytes &b, int ovWanted) {
	const size_t n = b.size();
	int ov = ovWanted >= 0 ? ovWanted : int(r.below(OV_COUNT));
	bool self = true;
	if (ov != OV_PTR && ov != OV_BRACE && ov != OV_BASEREF_PTR) {
		bool ok = false;
		try { ok = h.add(ov, b.data(), n, self); }
		catch (const std::string &e) { viol(a, "input-modified", e + " overload " + ovName(ov)); }
		if (ok) {
			g_overloads.insert(ov); stat("feeds");
			if (!self) viol(a, "return-self", std::string("adding data through ") + ovName(ov) + " did not return the object itself");
			return;
		}
		ov = OV_PTR;
	}
	g_overloads.insert(ov); stat("feeds");
	if (n == 0 && r.chance(50)) { h.add(ov, nullptr, 0, self); return; }
	// exact-size heap buffer, at an arbitrary alignment, that dies right after the call
	const size_t off = size_t(r.below(16));
	uint8_t *raw = static_cast<uint8_t *>(malloc(n + off));
	if (!raw && n + off) { fprintf(stderr, "harness: out of memory\n"); _exit(3); }
	if (n) std::memcpy(raw + off, b.data(), n);
	h.add(ov, raw + off, n, self);
	if (n && std::memcmp(raw + off, b.data(), n) != 0) { free(raw); viol(a, "input-modified", "the input buffer changed during the call"); }
	if (n) std::memset(raw + off, 0xA5, n);
	free(raw);
	if (!self) viol(a, "return-self", "adding data did not return the object itself");
}
static void feedAll(Rng &r, const Algo &a, IHash &h, const std::vector<Bytes> &items, int ov = -1) { for (const Bytes &b : items) feedPiece(r, a, h, b, ov); }
static void fin(const Algo &a, IHash &h) { if (!h.finalize()) viol(a, "return-self", "finalize() did not return the object itself"); stat("finalizes"); }
static HP make(Rng &r, const Algo &a, const Params &p) { stat("objects"); return HP(a.make(p, fillByte(r))); }
static Bytes cat(const std::vector<Bytes> &v) { Bytes b; for (auto &x : v) b.insert(b.end(), x.begin(), x.end()); return b; }

static void preset(const Algo &a, IHash &h, uint64_t total);
// The digest a fresh object gives for the same content: one call per message, or per tuple element.
static Bytes freshDigest(Rng &r, const Algo &a, const Params &p, const std::vector<Bytes> &items, HP *keep = nullptr, uint64_t before = 0);
static Bytes freshDigest(Rng &r, const Algo &a, const Params &p, const std::vector<Bytes> &items, HP *keep, uint64_t before) {
	HP h = make(r, a, p);
	if (before) preset(a, *h, before);
	if (a.tuple) feedAll(r, a, *h, items, OV_PTR);
	else { const Bytes m = cat(items); if (!m.empty()) feedPiece(r, a, *h, m, OV_PTR); }
	fin(a, *h);
	Bytes d = h->toVector();
	if (keep) *keep = std::move(h);
	return d;
}
static std::vector<Bytes> makeTuple(Rng &r, const Algo &a, size_t maxLen) {
	std::vector<Bytes> v; const size_t k = r.chance(10) ? size_t(r.below(40)) : size_t(r.below(6));
	for (size_t i = 0; i < k; ++i) {
		size_t n = r.chance(50) ? size_t(r.below(40)) : pickLen(r, a.block, maxLen);
		if (r.chance(10)) n = size_t(8189 + r.below(6));
		v.push_back(makeAnyContent(r, std::min(n, maxLen)));
	}
	return v;
}
static std::vector<Bytes> makeItems(Rng &r, const Algo &a, size_t maxLen) {
	if (a.tuple) return makeTuple(r, a, maxLen);
	return splitMsg(r, makeAnyContent(r, pickLen(r, a.block, maxLen)), a.block);
}
static std::string sig(const Algo &a, const Params &p, const std::vector<Bytes> &items) {
	std::string s = describe(a, p) + p.name + "|" + p.custom + "|"; size_t tot = 0;
	for (auto &x : items) { s += std::to_string(x.size()) + ","; tot += x.size(); }
	uint64_t h = 0; for (auto &x : items) for (size_t i = 0; i < x.size() && i < 256; ++i) h = h * 1099511628211ull + x[i];
	return s + std::to_string(h);
}

// Totals that cannot be fed in a run: the object's own length counter, where it is recognised (see "preset length
// counters" below), is set as if that many bytes had been absorbed.
static bool canPreset(const Algo &a);
static void preset(const Algo &a, IHash &h, uint64_t total);
static bool wideCounter(const Algo &a);
static uint64_t presetTotal(Rng &r, const Algo &a) {
	const uint64_t B = uint64_t(a.block); const int k = 29 + int(r.below(32));
	if (wideCounter(a) && r.chance(40)) return uint64_t(0) - B * (1 + r.below(4));      // the low word of the counter is about to overflow
	return ((uint64_t(1) << k) + (r.chance(50) ? (r.u64() >> (64 - k)) : uint64_t(0))) / B * B - B * r.below(5);
}

// --- conformance -------------------------------------------------------------------------------
static void checkConf(Rng &r, const Algo &a, const Params &p, const std::vector<Bytes> &items, int ov, const char *kind) {
	HP h = make(r, a, p);
	feedAll(r, a, *h, items, ov);
	fin(a, *h);
	const Bytes got = h->toVector();
	const Bytes want = g_quiet ? got : refDigest(a.ref, p, items);
	if (!g_quiet) stat("digests_compared"); stat(std::string("kind_") + kind);
	if (!items.empty() || a.pk != PK::None) distinct(sig(a, p, items));
	if (got != want) viol(a, "digest", std::string(kind) + " " + describe(a, p) + " " + describeItems(items) + " expected " + shortHex(want) + " got " + shortHex(got));
	if (g_case % 97 == 0) sample(describe(a, p) + " " + describeItems(items) + " -> " + shortHex(got));
}
static size_t denseMax(const Algo &a) { return size_t(std::max(4 * a.block + 24, 300)); }

// deterministic part: every short length, then counter-byte boundaries and parameter boundaries
struct Det { int kind; size_t x, y; };
// lengths between 128 KiB and 8 MiB, other ones for another seed
static std::vector<size_t> bigLengths(const Algo &a, int n) {
	Rng r(mix(g_seed, hashStr("big" + a.name))); std::vector<size_t> v;
	for (int i = 0; i < n; ++i) { const int k = 17 + int(r.below(6)); size_t x = (size_t(1) << k) + size_t(r.u64() >> (64 - k)); if (r.chance(40)) x = x / size_t(a.block) * size_t(a.block) + size_t(r.below(2)); v.push_back(x); }
	return v;
}
static std::vector<Det> detConf(const Algo &a) {
	std::vector<Det> v;
	if (a.ref != "md2") for (size_t n : bigLengths(a, 10)) v.push_back(Det{7, n, 0});
	for (size_t n = 0; n <= denseMax(a); ++n) for (size_t c = 0; c < 2; ++c) v.push_back(Det{0, n, c});
	const bool slow = a.ref == "md2";
	for (size_t base : {size_t(8192), size_t(32768), size_t(65536), size_t(1) << 20, size_t(1) << 21}) for (int d = -1; d <= 1; ++d) v.push_back(Det{1, base + size_t(d), 0});
	if (!slow) for (size_t d : {0, 1, 9}) v.push_back(Det{1, (size_t(1) << 24) - 1 + d, 0});
	if (a.pk == PK::Len || a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) {
		for (size_t n = 0; n <= size_t(2 * a.block + 10); ++n) v.push_back(Det{2, n, 0});
		for (size_t n : {size_t(8191), size_t(8192), size_t(8193), size_t(65535), size_t(65536), (size_t(1) << 21) - 1, size_t(1) << 21, (size_t(1) << 21) + 1}) v.push_back(Det{2, n, 0});
	}
	if (a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) {
		for (size_t n = 0; n <= size_t(2 * a.block + 10); ++n) { v.push_back(Det{3, n, 0}); v.push_back(Det{3, n, 1}); v.push_back(Det{3, n, 2}); }
		for (size_t n : {size_t(8191), size_t(8192), size_t(8193), size_t(65535), size_t(65536), (size_t(1) << 21) - 1, size_t(1) << 21, (size_t(1) << 21) + 1}) for (size_t w = 0; w < 2; ++w) v.push_back(Det{3, n, w});
	}
	if (a.tuple) {
		for (size_t n : {size_t(0), size_t(1), size_t(31), size_t(32), size_t(33), size_t(8191), size_t(8192), size_t(8193), size_t(65535), size_t(65536), (size_t(1) << 21) - 1, size_t(1) << 21, (size_t(1) << 21) + 1}) v.push_back(Det{4, n, 0});
		v.push_back(Det{2, size_t(1) << 28, 0});      // 2^31 output bits
	}
	if (a.ref == "crc32" || a.ref.compare(0, 3, "fnv") == 0) for (size_t n = 0; n < 400; ++n) v.push_back(Det{5, n, 0});
	if (a.pk == PK::Key) for (size_t n = 0; n < 600; ++n) v.push_back(Det{6, n, 0});
	return v;
}
// messages that drive the running value of the checksum to a chosen one
static Bytes crcForce(const Bytes &m, uint32_t target) {
	static uint32_t T[256], R[256]; static bool init = false;
	if (!init) { for (uint32_t i = 0; i < 256; ++i) { uint32_t c = i; for (int b = 0; b < 8; ++b) c = (c >> 1) ^ ((c & 1) ? 0xEDB88320u : 0); T[i] = c; } for (uint32_t i = 0; i < 256; ++i) R[T[i] >> 24] = i; init = true; }
	uint32_t c = 0xFFFFFFFFu; for (uint8_t b : m) c = (c >> 8) ^ T[(c ^ b) & 0xFF];
	// after 4 bytes x: state == target. Walk back from the target.
	uint32_t t = target; uint8_t idx[4];
	for (int i = 3; i >= 0; --i) { idx[i] = uint8_t(R[t >> 24]); t = (t ^ T[idx[i]]) << 8; }
	Bytes o = m; for (int i = 0; i < 4; ++i) { o.push_back(uint8_t((c ^ idx[i]) & 0xFF)); c = (c >> 8) ^ T[idx[i]]; }
	return o;
}
static Bytes fnvZero(const std::string &ref) {
	if (ref == "fnv32_1") return Bytes{0x01, 0x47, 0x6C, 0x10, 0xF3};
	if (ref == "fnv32_1a") return Bytes{0xCC, 0x24, 0x31, 0xC4};
	if (ref == "fnv64_1") return Bytes{0x92, 0x06, 0x77, 0x4C, 0xE0, 0x2F, 0x89, 0x2A, 0xD2};
	if (ref == "fnv64_1a") return Bytes{0xD5, 0x6B, 0xB9, 0x53, 0x42, 0x87, 0x08, 0x36};
	return Bytes(3, 0);
}
static void runConfDet(Rng &r, const Algo &a, const Det &d) {
	Params p = makeParams(r, a);
	if (d.kind != 2 && p.len == 0 && d.kind != 3) p.len = 32;
	std::vector<Bytes> items;
	switch (d.kind) {
		case 0: if (a.pk == PK::Len || a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) { p.len = d.y ? 32 : 64; if (d.x % 3 == 0) { p.name.clear(); p.custom.clear(); } else { p.name.resize(p.name.size() % 20); p.custom.resize(p.custom.size() % 20); } }
			items.push_back(makeContent(r, d.x, d.y ? 0 : int(r.below(CONTENT_KINDS))));
			checkConf(r, a, p, items, d.y ? OV_PTR : -1, "every-length"); break;
		case 1: if (p.len > 64) p.len = 64; items.push_back(makeContent(r, d.x, 0)); checkConf(r, a, p, items, OV_PTR, "length-boundary"); break;
		case 7: if (p.len > 64) p.len = 64;
			if (a.tuple) items = {makeContent(r, size_t(r.below(50)), 0), makeContent(r, d.x, 0)};
			else { const Bytes m = makeContent(r, d.x, 0); const size_t k = r.chance(50) ? 0 : size_t(r.below(2) ? r.below(m.size()) : r.below(300)); if (k) items.push_back(Bytes(m.begin(), m.begin() + long(k))); items.push_back(Bytes(m.begin() + long(k), m.end())); }
			checkConf(r, a, p, items, OV_PTR, "big"); break;
		case 2: p.len = int(d.x); if (d.x > 10000) { p.name = "n"; p.custom = "c"; } items = {makeAnyContent(r, size_t(r.below(50)))}; checkConf(r, a, p, items, OV_PTR, "digest-length"); break;
		case 3: p.len = 32; { std::string s = makeString(r, d.x); if (d.y == 0) p.custom = s; else if (d.y == 1) { p.name = s; p.custom.resize(p.custom.size() % 9); } else { p.custom = s; p.name.clear(); } }
			items = {makeAnyContent(r, size_t(r.below(300)))}; checkConf(r, a, p, items, OV_PTR, "string-length"); break;
		case 4: p.len = 32; items = {makeAnyContent(r, size_t(r.below(5))), makeAnyContent(r, d.x), makeAnyContent(r, size_t(r.below(5)))}; checkConf(r, a, p, items, OV_PTR, "element-length"); break;
		case 5: {
			Bytes m = makeAnyContent(r, size_t(r.below(80)));
			if (a.ref == "crc32") { static const uint32_t tg[] = {0, 0xFFFFFFFFu, 0x80000000u, 1, 0xEDB88320u, 0x000000FFu, 0xFF000000u}; m = crcForce(m, tg[d.x % 7]); }
			else m = fnvZero(a.ref);
			const Bytes tail = makeAnyContent(r, size_t(r.below(40)));
			items = r.chance(50) ? std::vector<Bytes>{m, tail} : std::vector<Bytes>{cat({m, tail})};
			checkConf(r, a, p, items, OV_PTR, "forced-state"); break; }
		default: items = {makeAnyContent(r, d.x)}; p.key = makeContent(r, 16, int(d.x % CONTENT_KINDS)); checkConf(r, a, p, items, OV_PTR, "keyed-every-length"); break;
	}
}
static void runConfRandom(Rng &r, const Algo &a, size_t maxLen) {
	const Params p = makeParams(r, a);
	checkConf(r, a, p, makeItems(r, a, maxLen), -1, "random");
}

// --- streaming: the same content through different call sequences ----------------------------------
static void checkStream(Rng &r, const Algo &a, const Params &p, const std::vector<Bytes> &items, int ov, const char *kind) {
	const uint64_t before = r.chance(12) && canPreset(a) ? presetTotal(r, a) : 0;
	const Bytes want = freshDigest(r, a, p, items, nullptr, before);
	HP h = make(r, a, p);
	if (before) { preset(a, *h, before); stat("preset_totals"); }
	feedAll(r, a, *h, items, ov);
	fin(a, *h);
	const Bytes got = h->toVector();
	stat("digests_compared"); stat(std::string("kind_") + kind);
	std::string s = describe(a, p) + "#" + std::to_string(ov); for (auto &x : items) s += "," + std::to_string(x.size());
	if (items.size() > 1 || ov > 0) distinct(s);
	if (got != want) viol(a, "split", std::string(kind) + " " + describe(a, p) + (before ? " with " + std::to_string(before) + " bytes already counted" : std::string()) + " overload " + (ov < 0 ? "mixed" : ovName(ov)) + " " + describeItems(items) + " whole " + shortHex(want) + " in pieces " + shortHex(got));
	if (g_case % 211 == 0) sample(describe(a, p) + " " + describeItems(items) + " == one call");
}
static std::vector<Det> detStream(const Algo &a) {
	std::vector<Det> v;
	if (!a.tuple && a.ref != "md2") for (size_t n : bigLengths(a, 6)) v.push_back(Det{-1, n, 0});
	if (!a.tuple) {
		const size_t B = size_t(std::max(a.block, 4));
		for (size_t n : {B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 3 * B + 1}) for (size_t k = 0; k <= n; ++k) v.push_back(Det{0, n, k});
		for (size_t n = 0; n <= 2 * B + 2; ++n) v.push_back(Det{1, n, 0});                    // byte by byte
		for (size_t st = 1; st <= 2 * B + 2; ++st) v.push_back(Det{2, 5 * B + 3, st});        // constant stride
		for (size_t n = 0; n <= 40; ++n) v.push_back(Det{3, n, 0});                             // empty pieces sprinkled
	}
	for (int ov = 0; ov < OV_COUNT; ++ov) for (size_t n : {1, 2, 4, 7, 8, 12, 16, 33, 40, 56, 63, 64, 65, 120, 128, 129, 136, 168, 240, 400, 1000}) for (size_t pre : {size_t(0), size_t(1), size_t(5), size_t(a.block - 1), size_t(a.block)}) v.push_back(Det{4 + ov, n, pre});
	return v;
}
static void runStreamDet(Rng &r, const Algo &a, const Det &d) {
	Params p = makeParams(r, a); if (p.len > 100 || p.len == 0) p.len = 40; p.name.resize(p.name.size() % 40); p.custom.resize(p.custom.size() % 40);
	const Bytes m = makeContent(r, d.x, 0);
	std::vector<Bytes> it;
	switch (d.kind) {
		case -1: { size_t at = 0; while (at < m.size()) { const size_t k = std::min<size_t>(m.size() - at, 1 + size_t(r.u64() >> (64 - 4 - r.below(19)))); it.push_back(Bytes(m.begin() + long(at), m.begin() + long(at + k))); at += k; } checkStream(r, a, p, it, -1, "big"); break; }
		case 0: it = {Bytes(m.begin(), m.begin() + long(d.y)), Bytes(m.begin() + long(d.y), m.end())}; checkStream(r, a, p, it, OV_PTR, "every-2-split"); break;
		case 1: for (uint8_t c : m) it.push_back(Bytes(1, c)); checkStream(r, a, p, it, OV_PTR, "bytewise"); break;
		case 2: for (size_t i = 0; i < m.size(); i += d.y) it.push_back(Bytes(m.begin() + long(i), m.begin() + long(std::min(m.size(), i + d.y)))); checkStream(r, a, p, it, OV_PTR, "stride"); break;
		case 3: for (size_t i = 0; i <= d.x; ++i) { it.push_back(Bytes()); if (i < d.x) it.push_back(Bytes(1, m[i])); } checkStream(r, a, p, it, -1, "empty-pieces"); break;
		default: if (d.y) it.push_back(makeContent(r, d.y, 0)); it.push_back(m); it.push_back(makeContent(r, 3, 0)); checkStream(r, a, p, it, d.kind - 4, "overload"); break;
	}
}
static void runStreamRandom(Rng &r, const Algo &a, size_t maxLen) {
	Params p = makeParams(r, a);
	std::vector<Bytes> it;
	if (a.tuple) it = makeTuple(r, a, maxLen);
	else {
		const bool big = r.chance(2);
		const Bytes m = makeContent(r, big ? size_t(r.below(4u << 20)) : pickLen(r, a.block, maxLen), 0);
		it = splitMsg(r, m, a.block);
		if (it.size() == 1) { const size_t k = size_t(r.below(m.size() + 1)); it = {Bytes(m.begin(), m.begin() + long(k)), Bytes(m.begin() + long(k), m.end())}; }
	}
	checkStream(r, a, p, it, -1, "random");
}

// --- reset -------------------------------------------------------------------------------------------
static std::string dirtyHistory(Rng &r, const Algo &a, const Params &p, HP &h) {
	std::string log; const int steps = int(r.below(5)); bool done = false;
	for (int i = 0; i < steps; ++i) {
		switch (r.below(done ? 3 : 6)) {
			case 0: { if (done) { std::vector<Num> t; h->toString(); h->toVector(); h->nums(t); log += "read "; break; } fin(a, *h); done = true; log += "finalize "; break; }
			case 1: h->reset(); done = false; log += "reset "; break;
			case 2: { if (r.chance(50)) { HP c(h->dup(r.chance(50) ? CK_COPY : CK_BASE_COPY, fillByte(r))); h = std::move(c); log += "copied "; break; }
				HP o = make(r, a, p); feedPiece(r, a, *o, makeAnyContent(r, size_t(r.below(70))), OV_PTR); if (o->assign(CK_COPY, *h)) { h = std::move(o); log += "assigned "; } break; }
			default: { const auto it = makeItems(r, a, 600); feedAll(r, a, *h, it); log += "add(" + std::to_string(cat(it).size()) + ") "; break; }
		}
	}
	if (r.chance(40) && !done) { fin(a, *h); log += "finalize "; }
	h->reset(); log += "reset";
	if (r.chance(15)) { h->reset(); log += " reset"; }
	return log;
}
static void runReset(Rng &r, const Algo &a, bool det, const Det &d) {
	Params p = makeParams(r, a); if (p.len > 300) p.len = 33;
	HP h = make(r, a, p); std::string log;
	std::vector<Bytes> items;
	if (r.chance(15) && canPreset(a)) { const uint64_t t = presetTotal(r, a); preset(a, *h, t); stat("preset_totals"); log = std::to_string(t) + " bytes counted "; }
	if (det) {
		// x = bytes absorbed before, y bit0: finalized before the reset
		feedPiece(r, a, *h, makeContent(r, d.x, 0), OV_PTR); log += "add(" + std::to_string(d.x) + ") ";
		if (d.y & 1) { fin(a, *h); log += "finalize "; }
		h->reset(); log += "reset";
		items.push_back(makeContent(r, (d.y & 2) ? 0 : size_t(r.below(3 * uint64_t(a.block) + 9)), 0));
	}
	else { log += dirtyHistory(r, a, p, h); items = makeItems(r, a, 2000); }
	HP f; const Bytes want = freshDigest(r, a, p, items, &f);
	HP c; if (r.chance(30)) c = HP(h->dup(CK_COPY, fillByte(r)));
	feedAll(r, a, *h, items); fin(a, *h);
	if (c) {
		feedAll(r, a, *c, items); fin(a, *c); stat("copies_of_reset_objects");
		const Bytes g = c->toVector();
		if (g != want || !c->eq(*f) || c->ne(*f)) viol(a, "reset-copy", describe(a, p) + " history: " + log + "; a copy of the reset object, then " + describeItems(items) + ": fresh object " + shortHex(want) + ", copy " + shortHex(g));
	}
	const Bytes got = h->toVector();
	stat("digests_compared"); stat("resets"); distinct(describe(a, p) + log + describeItems(items));
	if (got != want) viol(a, "reset", describe(a, p) + " history: " + log + "; then " + describeItems(items) + ": fresh object " + shortHex(want) + ", reset object " + shortHex(got));
	if (!h->eq(*f) || h->ne(*f)) viol(a, "reset-eq", describe(a, p) + " history: " + log + "; then " + describeItems(items) + ": object after reset does not compare equal to a fresh one fed the same");
	if (g_case % 101 == 0) sample(describe(a, p) + " history: " + log + "; then " + describeItems(items));
}
static std::vector<Det> detReset(const Algo &a) { std::vector<Det> v; for (size_t n = 0; n <= size_t(2 * a.block + 2); ++n) for (size_t y = 0; y < 4; ++y) v.push_back(Det{0, n, y}); return v; }

// --- value semantics --------------------------------------------------------------------------------------
// What was done to an object since its construction, copies left out: the same done to a never-copied
// object must give the same digest.
struct Op { int kind; Bytes data; uint64_t total; Op(int k, const Bytes &b, uint64_t t = 0) : kind(k), data(b), total(t) {} };      // 0 add, 1 reset, 2 finalize, 3 preset total
struct Slot { HP h; Params p; std::vector<Op> ops; bool fin = false, live = false, exists = false; };
static Bytes replayDigest(Rng &r, const Algo &a, const Params &p, const std::vector<Op> &ops) {
	HP h = make(r, a, p); bool done = false;
	for (const Op &o : ops) {
		if (o.kind == 0) feedPiece(r, a, *h, o.data, OV_PTR);
		else if (o.kind == 1) { h->reset(); done = false; }
		else if (o.kind == 3) preset(a, *h, o.total);
		else { fin(a, *h); done = true; }
	}
	if (!done) fin(a, *h);
	return h->toVector();
}
static void slotVerify(Rng &r, const Algo &a, Slot &s, const std::string &log, bool finishIt) {
	if (!s.exists || !s.live) return;
	const Bytes want = replayDigest(r, a, s.p, s.ops);
	if (!s.fin) {
		if (finishIt) { fin(a, *s.h); s.fin = true; s.ops.push_back(Op{2, Bytes()}); }
		else { HP c(s.h->dup(CK_COPY, fillByte(r))); fin(a, *c); const Bytes g = c->toVector(); stat("digests_compared"); if (g != want) viol(a, "value", log + " => copy of live object: expected " + shortHex(want) + " got " + shortHex(g)); return; }
	}
	const Bytes got = s.h->toVector();
	stat("digests_compared");
	if (got != want) viol(a, "value", log + " => object " + describe(a, s.p) + " expected " + shortHex(want) + " got " + shortHex(got));
}
// a copy of a finalized object is equal to it in every way that can be asked
static void sameValue(const Algo &a, const Slot &x, const Slot &y, const std::string &log) {
	if (!x.fin) return;
	stat("finalized_copies_compared");
	if (!x.h->eq(*y.h) || !y.h->eq(*x.h) || x.h->ne(*y.h) || y.h->ne(*x.h)) viol(a, "value-eq", log + " => a copy of a finalized object does not compare equal to it");
	if (x.h->toVector() != y.h->toVector() || x.h->toString() != y.h->toString() || x.h->stdHash() != y.h->stdHash()) viol(a, "value-views", log + " => a copy of a finalized object gives another digest");
}
static void runValue(Rng &r, const Algo &a) {
	enum { N = 4 };
	Slot s[N]; std::string log; uint64_t shape = 1469598103934665603ull;
	const Params common = [&] { Params p = makeParams(r, a); if (p.len > 300) p.len = 47; if (p.name.size() > 200) p.name.resize(50); if (p.custom.size() > 200) p.custom.resize(50); return p; }();
	auto small = [&]() { Params p = makeParams(r, a); if (p.len > 300) p.len = 41; if (p.name.size() > 200) p.name.resize(60); if (p.custom.size() > 200) p.custom.resize(60); if (r.chance(40)) { p.name.clear(); p.custom.clear(); } return p; };
	const int steps = 6 + int(r.below(30));
	for (int k = 0; k < steps; ++k) {
		const int i = int(r.below(N)), j = int(r.below(N)); Slot &x = s[i], &y = s[j];
		const int op = int(r.below(13));
		const std::string tag = std::to_string(i), tj = std::to_string(j);
		shape = (shape ^ uint64_t(op * 16 + i * 4 + j)) * 1099511628211ull;
		if (!x.exists) { x = Slot(); x.p = r.chance(50) ? common : small(); x.h = make(r, a, x.p); x.exists = x.live = true; log += " new" + tag;
			if (r.chance(12) && canPreset(a)) { const uint64_t t = presetTotal(r, a); preset(a, *x.h, t); stat("preset_totals"); x.ops.push_back(Op(3, Bytes(), t)); log += "(" + std::to_string(t) + " counted)"; }
			if (r.chance(30)) continue; }
		switch (op) {
			case 0: case 1: case 2: if (x.live && !x.fin) { Bytes b = makeAnyContent(r, r.chance(50) ? size_t(r.below(2 * uint64_t(a.block) + 5)) : size_t(r.below(400))); feedPiece(r, a, *x.h, b, -1); x.ops.push_back(Op{0, b}); log += " add" + tag + "(" + std::to_string(b.size()) + ")"; } break;
			case 3: if (x.live && !x.fin) { fin(a, *x.h); x.fin = true; x.ops.push_back(Op{2, Bytes()}); log += " fin" + tag; slotVerify(r, a, x, log, true); } break;
			case 4: if (x.live) { x.h->reset(); x.ops.push_back(Op{1, Bytes()}); x.fin = false; log += " reset" + tag; } break;
			case 5: case 6: { // construct j from i
				if (i == j || !x.live) break;
				const int ck = int(r.below(CK_COUNT)); const bool mv = ck == CK_MOVE || ck == CK_BASE_MOVE;
				Slot n; n.p = x.p; n.ops = x.ops; n.fin = x.fin; n.exists = n.live = true;
				n.h = HP(x.h->dup(ck, fillByte(r)));
				if (mv) x.live = false;
				y = std::move(n); stat(mv ? "move_constructions" : "copy_constructions"); log += (mv ? " move" : " copy") + tag + "->new" + tj;
				if (!mv) sameValue(a, x, y, log);
				break; }
			case 7: case 8: case 9: { // assign j = i
				if (!x.live || !y.exists) break;
				const int ck = int(r.below(CK_COUNT)); const bool mv = ck == CK_MOVE || ck == CK_BASE_MOVE;
				if (i == j && mv) break;      // what an object holds after being moved to itself is not specified
				if (!y.h->assign(ck, *x.h)) { stat("assign_unavailable"); break; }
				log += " " + tj + "=" + (mv ? "move " : "") + tag;
				if (i != j) { y.p = x.p; y.ops = x.ops; y.fin = x.fin; y.live = true; if (mv) x.live = false; else sameValue(a, x, y, log); }
				stat(mv ? "move_assignments" : i == j ? "self_assignments" : "copy_assignments"); break; }
			case 10: { if (i == j || !y.exists || !x.live || !y.live) break;
				if (!x.h->swapWith(*y.h)) break;
				std::swap(x.p, y.p); std::swap(x.ops, y.ops); std::swap(x.fin, y.fin); stat("swaps"); log += " swap" + tag + tj; break; }
			case 11: if (r.chance(60)) { x = Slot(); log += " del" + tag; stat("destructions"); } break;
			default: slotVerify(r, a, x, log, false); break;
		}
	}
	for (int i = 0; i < N; ++i) slotVerify(r, a, s[i], log, true);
	stat("histories"); g_distinct.insert(shape);
	if (g_case % 151 == 0) sample(a.name + ":" + log.substr(0, 300));
}

// --- accessors ---------------------------------------------------------------------------------------------
static void readAll(const Algo &a, const IHash &h, const Bytes &d, const std::string &what) {
	std::string hx; static const char dg[] = "0123456789abcdef"; for (uint8_t c : d) { hx += dg[c >> 4]; hx += dg[c & 15]; }
	const std::string s = h.toString();
	if (s != hx) viol(a, "toString", what + " toString()=" + s.substr(0, 80) + " but toVector()=" + hx.substr(0, 80));
	Bytes ar; if (h.toArray(ar) && ar != d) viol(a, "toArray", what + " toArray()=" + shortHex(ar) + " but toVector()=" + shortHex(d));
	std::vector<Num> ns; h.nums(ns);
	size_t wantHash = 0;
	for (const Num &n : ns) {
		unsigned __int128 w = 0; const size_t m = std::min<size_t>(n.bytes, d.size());
		for (size_t i = 0; i < m; ++i) w = (w << 8) | d[i];
		stat("conversions");
		if (w != n.value) { char b[64]; snprintf(b, sizeof b, "%016" PRIx64 "%016" PRIx64, uint64_t(n.value >> 64), uint64_t(n.value)); viol(a, "operatorT", what + " conversion to " + n.type + " gives 0x" + b + " for digest " + shortHex(d)); }
		if (n.bytes == sizeof(size_t)) wantHash = size_t(w);
	}
	if (h.stdHash() != wantHash || h.stdHashBase() != wantHash) viol(a, "stdHash", what + " std::hash disagrees with the conversion to size_t, digest " + shortHex(d));
	stat("reads");
}
static void runAccess(Rng &r, const Algo &a) {
	Params p = makeParams(r, a); if (p.len > 600) p.len = int(r.below(600));
	const auto items = makeItems(r, a, 500);
	HP h = make(r, a, p);
	feedAll(r, a, *h, items); fin(a, *h);
	const std::string what = describe(a, p) + " " + describeItems(items);
	// a different accessor first each time, so that none relies on another having run
	Bytes d; std::vector<Num> ns; std::string s0;
	switch (r.below(4)) {
		case 0: d = h->toVector(); break;
		case 1: s0 = h->toString(); d = h->toVector(); break;
		case 2: h->nums(ns); d = h->toVector(); break;
		default: { Bytes t; h->toArray(t); h->stdHash(); d = h->toVector(); break; }
	}
	const size_t want = a.digest >= 0 ? size_t(a.digest) : size_t(p.len);
	if (d.size() != want) viol(a, "length", what + " digest length " + std::to_string(d.size()) + " expected " + std::to_string(want));
	for (int k = 0; k < 2; ++k) readAll(a, *h, d, what);
	if (h->toVector() != d) viol(a, "readonly", what + " reading the digest changed it");
	HP c(h->dup(CK_COPY, fillByte(r))); readAll(a, *c, d, what + " (copy)");
	h->reset(); const Bytes f = freshDigest(r, a, p, items);
	if (f != d) viol(a, "deterministic", what + " a second object gives " + shortHex(f) + " not " + shortHex(d));
	stat("digests_compared"); distinct(toHex(d) + what);
	for (size_t i = 0; i < d.size() && i < 8; ++i) g_distinct.insert(0x1000000u + i * 256 + d[i]);
	if (g_case % 101 == 0) sample(what + " -> " + shortHex(d));
}

// --- equality -------------------------------------------------------------------------------------------------
static void pairCheck(const Algo &a, const IHash &x, const IHash &y, bool mustEq, const std::string &what) {
	const Bytes dx = x.toVector(), dy = y.toVector();
	const bool e = x.eq(y), e2 = y.eq(x), n = x.ne(y), n2 = y.ne(x);
	stat("pairs"); stat(dx == dy ? "pairs_same_digest" : "pairs_different_digest");
	if (e == n || e2 == n2) viol(a, "eq-ne", what + " == and != are not opposites");
	if (e != e2) viol(a, "symmetric", what + " == is not symmetric");
	if (dx != dy && e) viol(a, "eq-wrong", what + " objects with different digests " + shortHex(dx) + " / " + shortHex(dy) + " compare equal");
	if (mustEq && !e) viol(a, "eq-missing", what + " objects fed the same data compare unequal");
	if (e && x.stdHash() != y.stdHash()) viol(a, "hash", what + " equal objects have different std::hash");
	if (dx == dy && x.stdHash() != y.stdHash()) viol(a, "hash", what + " same digest, different std::hash");
}
static void runEqual(Rng &r, const Algo &a) {
	Params p = makeParams(r, a); if (p.len > 300) p.len = 24;
	const auto items = makeItems(r, a, 400);
	HP x = make(r, a, p), y = make(r, a, p);
	feedAll(r, a, *x, items); fin(a, *x);
	std::vector<Bytes> same = items;
	if (!a.tuple) same = splitMsg(r, cat(items), a.block);
	feedAll(r, a, *y, same); fin(a, *y);
	const std::string what = describe(a, p) + " " + describeItems(items);
	pairCheck(a, *x, *x, true, what + " (itself)");
	pairCheck(a, *x, *y, true, what + " (same data)");
	HP c(x->dup(int(r.below(2)) ? CK_COPY : CK_BASE_COPY, fillByte(r))); pairCheck(a, *x, *c, true, what + " (copy)");
	if (c->assign(CK_COPY, *y)) pairCheck(a, *c, *x, true, what + " (assigned)");
	// near misses
	std::vector<Bytes> other = items; Params q = p; std::string how;
	switch (r.below(6)) {
		case 0: { Bytes m = cat(items); if (m.empty()) m.push_back(0); m.back() ^= uint8_t(1u << r.below(8)); other = {m}; how = "last bit"; break; }
		case 1: { Bytes m = cat(items); m.push_back(uint8_t(r.below(2) ? 0 : r.u64())); other = {m}; how = "one byte longer"; break; }
		case 2: { Bytes m = cat(items); if (m.empty()) m.push_back(7); m[size_t(r.below(m.size()))] ^= uint8_t(1 + r.below(255)); other = {m}; how = "one byte"; break; }
		case 3: if (a.pk == PK::Len || a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) { q.len = p.len + (r.chance(50) ? 1 : int(r.below(170))); how = "digest length"; break; } /* fallthrough */
		case 4: if (a.pk == PK::Key) { q.key[size_t(r.below(16))] ^= uint8_t(1u << r.below(8)); how = "key"; break; }
			if (a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) { q.custom += char(r.u64()); how = "customization"; break; } /* fallthrough */
		default: other = makeItems(r, a, 400); how = "unrelated"; break;
	}
	if (a.ref == "crc32" && r.chance(50)) { // digests differing in one byte only
		const uint32_t t = uint32_t(r.u64()); const Bytes m = cat(items);
		HP u = make(r, a, p), v = make(r, a, p);
		feedPiece(r, a, *u, crcForce(m, t), OV_PTR); fin(a, *u);
		feedPiece(r, a, *v, crcForce(m, t ^ (0x01u << (8 * r.below(4)))), OV_PTR); fin(a, *v);
		pairCheck(a, *u, *v, false, what + " (crafted one-bit digest difference)");
	}
	HP z = make(r, a, q); feedAll(r, a, *z, other); fin(a, *z);
	pairCheck(a, *x, *z, false, what + " vs " + describe(a, q) + " differing in " + how);
	stat("kind_" + how); distinct(sig(a, p, items) + how);
	if (g_case % 101 == 0) sample(what + " vs differing in " + how);
}
// Two messages whose digests agree in one 32-bit word: found by birthday search, so that an equality
// that looks at one word only is caught.
static void runEqualBirthday(Rng &r, const Algo &a, size_t tries) {
	if (a.digest >= 0 && a.digest < 8) return;
	Params p = makeParams(r, a); p.len = 32; p.name = "x"; p.custom.clear();
	const size_t words = a.digest >= 0 ? size_t(a.digest) / 4 : 8;
	// besides single words: the xor of all of them and their sum in either byte order, as a comparison that accumulates would see
	std::vector<std::vector<std::pair<uint32_t, uint32_t>>> tab(words + 3);
	for (size_t t = 0; t < tries; ++t) {
		const uint32_t id = uint32_t(t); HP h(a.make(p, 0)); bool self;
		h->add(OV_PTR, reinterpret_cast<const uint8_t *>(&id), 4, self); h->finalize();
		const Bytes d = h->toVector();
		uint32_t fold = 0, le = 0, be = 0;
		for (size_t w = 0; w < words; ++w) { uint32_t v; std::memcpy(&v, &d[4 * w], 4); tab[w].push_back({v, id}); fold ^= v; le += v; be += __builtin_bswap32(v); }
		tab[words].push_back({fold, id}); tab[words + 1].push_back({le, id}); tab[words + 2].push_back({be, id});
	}
	stat("birthday_messages", tries);
	for (size_t w = 0; w < tab.size(); ++w) {
		std::sort(tab[w].begin(), tab[w].end());
		for (size_t i = 1; i < tab[w].size(); ++i) if (tab[w][i].first == tab[w][i - 1].first) {
			HP u(a.make(p, 0)), v(a.make(p, 0)); bool self;
			u->add(OV_PTR, reinterpret_cast<const uint8_t *>(&tab[w][i].second), 4, self); u->finalize();
			v->add(OV_PTR, reinterpret_cast<const uint8_t *>(&tab[w][i - 1].second), 4, self); v->finalize();
			stat("birthday_pairs"); pairCheck(a, *u, *v, false, describe(a, p) + (w < words ? " (digest word " + std::to_string(w) + " agrees)" : std::string(" (the ") + (w == words ? "xor" : "sum") + " of the digest's words agrees)"));
		}
	}
}

// Which bytes of a finalized object does == look at? In a child process one bit of each byte of a copy is flipped in
// turn. Bytes whose flip flips exactly one bit of the digest hold the digest; a comparison that sees some of them but
// not others calls objects with different digests equal (messages that differ in nothing but such a word exist, but no
// search finds them for a 32- or 64-byte digest). Nothing is judged when == sees none of them although it sees
// other bytes (it may compare another copy of the digest), or when objects are not plain bytes.
static void runEqualFlip(Rng &r, const Algo &a) {
	Params p = makeParams(r, a); if (p.len > 300) p.len = 24;
	const auto items = makeItems(r, a, 400);
	HP x = make(r, a, p); feedAll(r, a, *x, items); fin(a, *x);
	if (!x->flat()) { stat("objects_not_flat"); return; }
	const size_t n = x->bytesOfObject(); const int bit = int(r.below(8));
	uint8_t *res = static_cast<uint8_t *>(mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (res == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(3); }
	fflush(stdout);
	const pid_t pid = fork();
	if (pid == 0) {
		for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, SIG_DFL);
		alarm(20);
		const Bytes want = x->toVector();
		IHash *c = x->dup(CK_BASE_COPY, 0xAA);
		uint8_t *raw = const_cast<uint8_t *>(c->rawObject());
		for (size_t i = 0; i < n; ++i) {
			raw[i] ^= uint8_t(1u << bit); asm volatile("" : : "r"(raw) : "memory");
			int bits = 0; bool e = true;
			try {
				const Bytes d = c->toVector();
				if (d.size() != want.size()) bits = 99; else for (size_t k = 0; k < d.size(); ++k) bits += __builtin_popcount(d[k] ^ want[k]);
				e = c->eq(*x);
			} catch (...) { bits = 99; }
			raw[i] ^= uint8_t(1u << bit); asm volatile("" : : "r"(raw) : "memory");
			res[i] = uint8_t((bits == 1 ? 1 : bits ? 4 : 0) | (e ? 0 : 2));
		}
		res[n] = 1;
		_exit(0);
	}
	int st = 0; if (pid < 0 || waitpid(pid, &st, 0) != pid) { fprintf(stderr, "harness: fork\n"); _exit(3); }
	size_t carry = 0, missed = 0, other = 0, first = 0;
	for (size_t i = 0; i < n; ++i) { if (res[i] & 1) { ++carry; if (!(res[i] & 2)) { if (!missed++) first = i; } } else if (res[i] & 2) ++other; }
	const bool done = res[n] == 1; munmap(res, n + 1);
	if (!done) { stat("flips_given_up"); return; }
	stat("bytes_flipped", n); stat("digest_bytes_seen_by_eq", carry - missed);
	if (!carry) { stat("objects_without_plain_digest"); return; }
	if (missed && (missed < carry || !other)) viol(a, "eq-ignores", describe(a, p) + " " + describeItems(items) + ": objects whose digests differ in one bit compare equal: " + std::to_string(missed) + " of the " + std::to_string(carry) + " bytes that hold the digest are not compared (first at offset " + std::to_string(first) + ", bit " + std::to_string(bit) + ")");
}

// --- allocation failure -------------------------------------------------------------------------------------------
static bool g_allocOn = false; static long g_allocCount = 0, g_allocFailAt = -1; static long g_live = 0;
#ifdef VH_ALLOC
static void *vhAlloc(size_t n) {
	if (g_allocOn) { ++g_allocCount; if (g_allocCount == g_allocFailAt) throw std::bad_alloc(); }
	void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
	if (g_allocOn) ++g_live;
	return p;
}
void *operator new(size_t n) { return vhAlloc(n); }
void *operator new[](size_t n) { return vhAlloc(n); }
static void vhFree(void *p) { if (p && g_allocOn) --g_live; free(p); }
void operator delete(void *p) noexcept { vhFree(p); }
void operator delete[](void *p) noexcept { vhFree(p); }
void operator delete(void *p, size_t) noexcept { vhFree(p); }
void operator delete[](void *p, size_t) noexcept { vhFree(p); }
#endif
template <class F> static long allocsOf(F f) { g_allocCount = 0; g_allocFailAt = -1; g_allocOn = true; f(); g_allocOn = false; return g_allocCount; }
// Fail each allocation of f in turn; after() checks the state. f must not leave anything allocated when it throws.
// An f that does not throw although an allocation failed must have done its work all the same: it says so in g_right.
static bool g_right = true;
template <class F> static void unwatched(F f) { const bool on = g_allocOn; g_allocOn = false; f(); g_allocOn = on; }
template <class F, class G> static void failEach(const Algo &a, const std::string &what, F f, G after) {
	g_right = true;
	const long n = allocsOf(f);
	if (!g_right) viol(a, "state", what + " gives a wrong result with memory available");
	stat("operations"); stat("allocation_points", uint64_t(n));
	for (long k = 1; k <= n; ++k) {
		g_allocCount = 0; g_allocFailAt = k; g_live = 0; g_allocOn = true; g_right = true; bool threw = false;
		try { f(); } catch (const std::bad_alloc &) { threw = true; }
		g_allocOn = false; g_allocFailAt = -1;
		stat("injected_failures"); distinct(what + std::to_string(k) + "/" + std::to_string(n));
		if (threw && g_live != 0) viol(a, "leak", what + ": allocation " + std::to_string(k) + " of " + std::to_string(n) + " failing leaves " + std::to_string(g_live) + " block(s) behind");
		if (threw) after("after allocation " + std::to_string(k) + " of " + std::to_string(n) + " failed in " + what);
		else {
			stat("failures_absorbed");
			if (!g_right) viol(a, "swallowed", what + ": allocation " + std::to_string(k) + " of " + std::to_string(n) + " fails, no exception is thrown and the result is wrong");
		}
	}
}
static void runAlloc(Rng &r, const Algo &a) {
	Params p = makeParams(r, a); if (p.len > 400) p.len = 400 - int(r.below(300)); if (p.name.size() > 300) p.name.resize(300); if (p.custom.size() > 300) p.custom.resize(300);
	const auto items = makeItems(r, a, 400);
	const Bytes want = freshDigest(r, a, p, items);
	const bool finished = r.chance(60);
	HP h = make(r, a, p); feedAll(r, a, *h, items, OV_PTR); if (finished) fin(a, *h);
	const std::string base = describe(a, p) + (finished ? " finalized " : " open ");
	auto digestOf = [&](IHash &x) { if (finished) return x.toVector(); HP c(x.dup(CK_COPY, 0)); c->finalize(); return c->toVector(); };
	auto intact = [&](const std::string &w) { const Bytes d = digestOf(*h); stat("digests_compared"); if (d != want) viol(a, "state", base + w + ": the object's digest changed, expected " + shortHex(want) + " got " + shortHex(d)); };
	auto sameAs = [&](IHash &x) { unwatched([&] { g_right = digestOf(x) == want; }); };
	if (finished) {
		const std::string text = h->toString();
		Bytes array; const bool hasArray = h->toArray(array);
		std::vector<Num> numbers; h->nums(numbers);
		const size_t hash1 = h->stdHash(), hash2 = h->stdHashBase();
		auto sameNums = [&](const std::vector<Num> &v) { bool same = v.size() == numbers.size(); for (size_t i = 0; same && i < v.size(); ++i) same = v[i].value == numbers[i].value; return same; };
		failEach(a, base + "toString", [&] { std::string s = h->toString(); g_right = s == text; }, intact);
		failEach(a, base + "toVector", [&] { Bytes s = h->toVector(); g_right = s == want; }, intact);
		if (hasArray) failEach(a, base + "toArray", [&] { Bytes s; h->toArray(s); g_right = s == array; }, intact);
		// declared not to throw: a failing allocation inside would end the process
		failEach(a, base + "conversions", [&] { std::vector<Num> v; h->nums(v); g_right = sameNums(v); }, intact);
		failEach(a, base + "std::hash", [&] { g_right = h->stdHash() == hash1 && h->stdHashBase() == hash2; }, intact);
		failEach(a, base + "comparison", [&] { g_right = h->eq(*h) && !h->ne(*h); }, intact);
	}
	else {
		// an object whose finalize failed can be reset and used again
		bool failed = false;
		const long n = allocsOf([&] { HP g(h->dup(CK_COPY, 0)); g_allocCount = 0; g->finalize(); });
		for (long k = 1; k <= n; ++k) {
			HP g(h->dup(CK_COPY, 0));
			g_allocCount = 0; g_allocFailAt = k; g_live = 0; g_allocOn = true; failed = false;
			try { g->finalize(); } catch (const std::bad_alloc &) { failed = true; }
			g_allocOn = false; g_allocFailAt = -1; stat("injected_failures");
			if (!failed) {
				if (g->toVector() != want) viol(a, "swallowed", base + "finalize: allocation " + std::to_string(k) + " fails, no exception is thrown and the digest is wrong");
				continue;
			}
			g->reset(); feedAll(r, a, *g, items, OV_PTR); fin(a, *g);
			const Bytes d = g->toVector(); stat("digests_compared");
			if (d != want) viol(a, "state", base + "reset() after a finalize that ran out of memory, then the same data, gives " + shortHex(d) + " expected " + shortHex(want));
		}
		failEach(a, base + "reset", [&] { HP g(h->dup(CK_COPY, 0)); g->reset(); unwatched([&] { HP c(g->dup(CK_COPY, 0)); feedAll(r, a, *c, items, OV_PTR); c->finalize(); g_right = c->toVector() == want; }); }, intact);
	}
	failEach(a, base + "move construction", [&] { HP g(h->dup(CK_COPY, 0)); HP m(g->dup(CK_MOVE, 0)); sameAs(*m); }, intact);
	failEach(a, base + "copy construction", [&] { HP c(h->dup(CK_COPY, 0)); sameAs(*c); }, intact);
	failEach(a, base + "copy construction from base", [&] { HP c(h->dup(CK_BASE_COPY, 0)); sameAs(*c); }, intact);
	failEach(a, base + "construction", [&] { HP c(a.make(p, 0)); unwatched([&] { HP g(c->dup(CK_COPY, 0)); feedAll(r, a, *g, items, OV_PTR); g->finalize(); g_right = g->toVector() == want; }); }, intact);
	// copy assignment: on failure the target keeps its old value or is at least assignable again; the source is untouched
	Params q = makeParams(r, a); if (q.len > 400) q.len = 50; if (q.name.size() > 300) q.name.resize(300); if (q.custom.size() > 300) q.custom.resize(300);
	const auto it2 = makeItems(r, a, 300);
	HP t = make(r, a, q); feedAll(r, a, *t, it2, OV_PTR); if (finished) fin(a, *t);
	bool can = true;
	auto tryAssign = [&] { HP u(t->dup(CK_COPY, 0)); can = u->assign(CK_COPY, *h); if (can) sameAs(*u); };
	tryAssign();
	if (can) {
		failEach(a, base + "copy assignment", tryAssign, intact);
		// the target of the failed assignment stays usable
		HP u(t->dup(CK_COPY, 0));
		const long n = allocsOf([&] { HP v(t->dup(CK_COPY, 0)); g_allocCount = 0; v->assign(CK_COPY, *h); });
		for (long k = 1; k <= n; ++k) {
			HP v(t->dup(CK_COPY, 0)); bool threw = false;
			g_allocCount = 0; g_allocFailAt = k; g_allocOn = true;
			try { v->assign(CK_COPY, *h); } catch (const std::bad_alloc &) { threw = true; }
			g_allocOn = false; g_allocFailAt = -1; stat("injected_failures");
			if (!threw) {
				if (digestOf(*v) != want) viol(a, "swallowed", base + "copy assignment: allocation " + std::to_string(k) + " fails, no exception is thrown and the target differs from the source");
				continue;
			}
			v->assign(CK_COPY, *h);
			const Bytes d = digestOf(*v); stat("digests_compared");
			if (d != want) viol(a, "state", base + "assigning again after a failed copy assignment gives " + shortHex(d) + " expected " + shortHex(want));
		}
	}
	stat("histories");
	if (g_case % 31 == 0) sample(base + describeItems(items));
}

// --- long messages ---------------------------------------------------------------------------------------------------
// A file-backed pattern mapped again and again, so that N bytes are contiguous in memory without being resident. Its
// period is an odd number of pages: no two offsets a power of two apart hold the same bytes, as a wrapped offset would need.
static const size_t PAT = size_t(4096) * 513;
static const uint8_t *bigMap(uint64_t n) {
	const int fd = memfd_create("vh", 0);
	if (fd < 0 || ftruncate(fd, off_t(PAT)) != 0) { fprintf(stderr, "harness: memfd\n"); _exit(3); }
	uint8_t *pat = static_cast<uint8_t *>(mmap(nullptr, PAT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	Rng r(0x5EED); for (size_t i = 0; i < PAT; i += 8) { const uint64_t v = r.u64(); std::memcpy(pat + i, &v, 8); }
	const uint64_t tot = (n + PAT - 1) / PAT * PAT;
	uint8_t *base = static_cast<uint8_t *>(mmap(nullptr, size_t(tot), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (base == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(3); }
	for (uint64_t i = 0; i < tot; i += PAT) if (mmap(base + i, PAT, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "harness: mmap fixed\n"); _exit(3); }
	return base;
}
static Params longParams(const Algo &a) {
	Params p; if (a.pk == PK::Key) for (int i = 0; i < 16; ++i) p.key.push_back(uint8_t(i * 17 + 3));
	if (a.pk != PK::None && a.pk != PK::Key) p.len = 48;
	if (a.pk == PK::LenNameCustom) p.name = "vh";
	if (a.pk == PK::LenNameCustom || a.pk == PK::LenCustom) p.custom = "long message";
	return p;
}
static Bytes refLong(const Algo &a, const Params &p, const uint8_t *m, uint64_t n);
// how: 0 = a single call, 1 = irregular chunks of up to 64 MiB, 2 = single call after 3 leading bytes
static void runLong(const Algo &a, uint64_t n, int how, const std::string &want) {
	const uint8_t *m = bigMap(n + 64); const Params p = longParams(a); Rng r(mix(g_seed, n));
	HP h(a.make(p, 0xAA)); bool self = true; uint64_t calls = 0;
	if (a.tuple || how == 0) { h->add(OV_PTR, m, size_t(n), self); ++calls; }
	else if (how == 2) { h->add(OV_PTR, m, 3, self); h->add(OV_PTR, m + 3, size_t(n - 3), self); calls += 2; }
	else for (uint64_t i = 0; i < n;) { uint64_t k = std::min<uint64_t>(n - i, 1 + r.below(64u << 20)); h->add(OV_PTR, m + i, size_t(k), self); i += k; ++calls; }
	fin(a, *h);
	const std::string got = toHex(h->toVector());
	printf("LONG %s %" PRIu64 " %d %s\n", a.name.c_str(), n, how, got.c_str());
	stat("digests_compared"); stat("bytes_hashed", n); stat("calls", calls); distinct(a.name + std::to_string(n) + "/" + std::to_string(how));
	sample(a.name + " " + std::to_string(n) + " bytes in " + std::to_string(calls) + " call(s) -> " + got.substr(0, 64));
	if (want != got && !g_quiet) viol(a, "long", describe(a, p) + " " + std::to_string(n) + " bytes in " + std::to_string(calls) + " call(s) expected " + want + " got " + got);
}
#include "../ref/ref.h"
static Bytes refLong(const Algo &a, const Params &p, const uint8_t *m, uint64_t n) {
	if (a.pk == PK::None) return refDigestRaw(a.ref, m, n);
	if (a.pk == PK::Key) return ref::siphash(p.key.data(), m, n);
	const unsigned bits = a.ref.find("128") != std::string::npos ? 128 : 256; const size_t rate = 200 - bits / 4;
	if (a.pk == PK::Len) return ref::shake(bits, size_t(p.len), m, n);
	// cSHAKE / TupleHash: absorb prefix then data without concatenating: block-wise over a virtual message
	Bytes pre = ref::left_encode(rate);
	ref::put(pre, ref::encode_string(a.tuple ? Bytes{'T','u','p','l','e','H','a','s','h'} : Bytes(p.name.begin(), p.name.end())));
	ref::put(pre, ref::encode_string(Bytes(p.custom.begin(), p.custom.end())));
	while (pre.size() % rate) pre.push_back(0);
	Bytes post;
	if (a.tuple) { ref::put(pre, ref::left_encode(n * 8)); post = ref::right_encode(uint64_t(p.len) * 8); }
	uint64_t A[25] = {0}; size_t pos = 0;
	auto ab = [&](const uint8_t *q, uint64_t k) {
		uint64_t i = 0;
		while (i < k) {
			if (pos == 0 && k - i >= rate) { for (size_t t = 0; t < rate / 8; ++t) A[t] ^= ref::le64(q + i + 8 * t); i += rate; ref::keccak_f(A); continue; }
			A[pos / 8] ^= uint64_t(q[i++]) << (8 * (pos % 8)); if (++pos == rate) { ref::keccak_f(A); pos = 0; }
		}
	};
	ab(pre.data(), pre.size()); ab(m, n); ab(post.data(), post.size());
	A[pos / 8] ^= uint64_t(0x04) << (8 * (pos % 8)); A[(rate - 1) / 8] ^= 0x80ull << 56; ref::keccak_f(A);
	Bytes o; for (int i = 0; i < p.len; ++i) o.push_back(uint8_t(A[i / 8] >> (8 * (i % 8)))); return o;
}

// --- preset length counters --------------------------------------------------------------------------------------------------
// Totals beyond what can be fed in a run: a fresh object's length counter, located by watching which of
// its words advances by exactly one block per block, is set to C; the digest must be that of the
// algorithm run from its initial state with C bytes already counted. Nothing is judged unless small and
// medium presets (totals the "long" runs reach for real) already give the right digests, so that another
// object layout is left alone rather than misread.
struct CounterField { size_t off = 0; uint64_t unit = 0; };      // unit: 1 counts bytes, 8 counts bits
static std::vector<CounterField> findCounter(Rng &r, const Algo &a) {
	Params p; HP h(a.make(p, 0x00)); bool self; const uint64_t B = uint64_t(a.block);
	const size_t n = h->bytesOfObject();
	std::vector<std::vector<uint8_t>> snap;
	for (int k = 0; k < 9; ++k) {
		snap.push_back(std::vector<uint8_t>(h->rawObject(), h->rawObject() + n));
		const Bytes b = makeContent(r, size_t(B), 0); h->add(OV_PTR, b.data(), b.size(), self);
	}
	std::vector<CounterField> out;
	for (size_t off = 0; off + 8 <= n; off += 8) for (uint64_t unit : {uint64_t(1), uint64_t(8)}) {
		auto v = [&](int k) { uint64_t x; std::memcpy(&x, &snap[size_t(k)][off], 8); return x; };
		bool ok = v(0) == 0 && (v(1) == 0 || v(1) == B * unit);
		for (int k = 2; k < 9 && ok; ++k) ok = v(k) - v(k - 1) == B * unit;
		if (ok) { CounterField f; f.off = off; f.unit = unit; out.push_back(f); }
	}
	return out;
}
static bool counterCase(Rng &r, const Algo &a, const CounterField &f, uint64_t C, const Bytes &m, Bytes &got, Bytes &want) {
	Params p; HP h(a.make(p, 0x00));
	const uint64_t v = C * f.unit;
	uint8_t *raw = const_cast<uint8_t *>(h->rawObject());
	std::memcpy(raw + f.off, &v, 8); asm volatile("" : : "r"(raw) : "memory");
	feedAll(r, a, *h, splitMsg(r, m, a.block)); fin(a, *h);
	got = h->toVector();
	refPreload(C); want = refDigest(a.ref, p, {m}); refPreload(0);
	stat("digests_compared");
	return got == want;
}
struct Layout { bool ok; CounterField f; };
static const std::set<std::string> &counts64() { static const std::set<std::string> w64 = {"md4", "md5", "sha1", "sha224", "sha256", "rmd128", "rmd160", "rmd256", "rmd320", "has160", "sm3", "tiger1_128", "tiger1_160", "tiger1_192", "tiger2_128", "tiger2_160", "tiger2_192", "blake224", "blake256"}; return w64; }
static const std::set<std::string> &counts128() { static const std::set<std::string> w128 = {"sha384", "sha512", "sha512_224", "sha512_256", "whirlpool", "blake384", "blake512", "blake2b", "blake2s"}; return w128; }
static const Layout &layoutOf(const Algo &a) {
	static std::map<std::string, Layout> known;
	const auto it = known.find(a.name);
	if (it != known.end()) return it->second;
	Layout &l = known[a.name]; l.ok = false;
	if (!counts128().count(a.ref) && !counts64().count(a.ref)) return l;
	const uint64_t B = uint64_t(a.block);
	Rng r(mix(g_seed, hashStr("layout" + a.name)));
	std::vector<CounterField> fields = findCounter(r, a);
	if (fields.size() != 1) { stat("layouts_unrecognised"); sample(a.name + ": length counter not located, counted totals above the long runs not checked"); return l; }
	const CounterField f = l.f = fields[0];
	Bytes g, w;
	for (uint64_t C : {B, 3 * B, uint64_t(1) << 20, uint64_t(1) << 29, uint64_t(1) << 32, (uint64_t(1) << 32) + 5 * B}) for (size_t n : {size_t(0), size_t(5), size_t(2 * B + 1)})
		if (!counterCase(r, a, f, C / B * B, makeContent(r, n, 0), g, w)) { stat("layouts_unrecognised"); sample(a.name + ": a preset counter is not honoured, layout left alone"); return l; }
	stat("layouts_recognised"); l.ok = true;
	return l;
}
static bool canPreset(const Algo &a) { return !g_quiet && layoutOf(a).ok; }
static bool wideCounter(const Algo &a) { return counts128().count(a.ref) && a.ref != "blake2s" && layoutOf(a).f.unit == 1; }
static void preset(const Algo &a, IHash &h, uint64_t total) {
	const CounterField &f = layoutOf(a).f; const uint64_t v = total * f.unit;
	uint8_t *raw = const_cast<uint8_t *>(h.rawObject());
	std::memcpy(raw + f.off, &v, 8); asm volatile("" : : "r"(raw) : "memory");
}
static void runCounter(Rng &r, const Algo &a, uint64_t cases) {
	const bool is128 = counts128().count(a.ref) != 0;
	const uint64_t B = uint64_t(a.block);
	const Layout &l = layoutOf(a);
	if (!l.ok) return;
	const CounterField f = l.f;
	Bytes g, w;
	// blake2s counts bytes in 64 bits; the 64-bit bit counters hold totals below 2^61 bytes
	const int top = !is128 || f.unit == 8 ? 61 : 64;
	for (uint64_t c = 0; c < cases; ++c) {
		const int k = r.chance(30) ? top : 33 + int(r.below(uint64_t(top) - 32));
		const unsigned __int128 mid = (unsigned __int128)1 << k;
		__int128 C = (__int128)mid + ((__int128)int64_t(r.below(7)) - 4) * (__int128)B;
		if (k < top && r.chance(30)) C = (__int128)(r.u64() >> (64 - k)) + ((__int128)1 << (k - 1));
		const size_t n = r.chance(50) ? size_t(r.below(6 * B)) : size_t(B * r.below(6) + r.below(3));
		// stay inside what the algorithm defines (and what one 64-bit word can be preset to)
		const __int128 capC = ((__int128)1 << top) - (__int128)B, capT = is128 && a.ref != "blake2s" ? (__int128)1 << 100 : ((__int128)1 << top) - 1;
		if (C > capC) C = capC - (__int128)(B * r.below(4));
		C = C / B * B;
		size_t len = n; if (C + (__int128)len > capT) len = size_t(capT - C);
		if (f.unit == 8 && (unsigned __int128)C * 8 > UINT64_MAX) continue;
		const Bytes m = makeAnyContent(r, len);
		stat("preset_totals"); distinct(a.name + std::to_string(uint64_t(C)) + "+" + std::to_string(len));
		if (C + (__int128)len >= ((__int128)1 << top)) stat("carries_crossed");
		const bool ok = counterCase(r, a, f, uint64_t(C), m, g, w);
		if (c % 50 == 0) sample(a.name + ": " + std::to_string(uint64_t(C)) + " bytes counted + " + std::to_string(len) + " more -> " + shortHex(g));
		if (!ok && !g_quiet) viol(a, "counter", a.name + " with " + std::to_string(uint64_t(C)) + " bytes already counted and " + std::to_string(len) + " more: expected " + shortHex(w) + " got " + shortHex(g));
	}
}

// --- guard: input memory that can only be read, only during the call, and not one byte beyond -----------------------------
// Every piece lies against an inaccessible page, at its end or its start; it is read-only while the call runs and
// inaccessible from then on.
static const size_t PAGE = 4096, REGION = 40 * PAGE; static const int REGIONS = 6;
static uint8_t *g_region[REGIONS]; static int g_regionNext = 0;
static std::string g_guardWhat; static const Algo *g_guardAlgo = nullptr; static uint8_t *g_guardFrom = nullptr, *g_guardTo = nullptr; static bool g_inCall = false;
static void onFault(int sig, siginfo_t *si, void *) {
	const uint8_t *f = static_cast<const uint8_t *>(si->si_addr);
	bool mine = false; for (int i = 0; i < REGIONS; ++i) mine = mine || (g_region[i] && f >= g_region[i] - PAGE && f < g_region[i] + REGION + PAGE);
	if (!mine || !g_guardAlgo) { signal(sig, SIG_DFL); return; }
	const char *how = !g_inCall ? "earlier input is touched outside the call it was given to" : f >= g_guardFrom && f < g_guardTo ? "the input is written to" : f >= g_guardFrom - PAGE && f < g_guardTo + PAGE ? "memory next to the input is touched" : "earlier input is touched again";
	printf("VIOL case=%" PRIu64 " key=%s:guard:fault %s: %s (offset %lld of %zu bytes)\n", g_case, g_guardAlgo->name.c_str(), g_guardWhat.c_str(), how, (long long)(f - g_guardFrom), size_t(g_guardTo - g_guardFrom));
	fflush(stdout); _exit(1);
}
static void guardInit() {
	for (int i = 0; i < REGIONS; ++i) {
		uint8_t *q = static_cast<uint8_t *>(mmap(nullptr, REGION + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (q == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(3); }
		g_region[i] = q + PAGE;
	}
	struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = onFault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
}
static void guardFeed(Rng &r, const Algo &a, IHash &h, const Bytes &b) {
	uint8_t *reg = g_region[g_regionNext]; g_regionNext = (g_regionNext + 1) % REGIONS;
	const bool atEnd = r.chance(65); const size_t n = b.size(), pages = std::max<size_t>(1, (n + PAGE - 1) / PAGE);
	uint8_t *p = atEnd ? reg + pages * PAGE - n : reg;
	mprotect(reg, pages * PAGE, PROT_READ | PROT_WRITE);
	// what lies on the same page but outside the input changes, so that using it shows
	for (size_t i = 0; i < pages * PAGE; i += 512) reg[i] = uint8_t(r.u64());
	std::memset(reg, int(r.u64() & 255), std::min<size_t>(PAGE, size_t(p - reg))); std::memset(p + n, int(r.u64() & 255), size_t(reg + pages * PAGE - (p + n)));
	if (n) std::memcpy(p, b.data(), n);
	mprotect(reg, pages * PAGE, PROT_READ);
	g_guardFrom = p; g_guardTo = p + n; g_inCall = true;
	bool self = true; int ov = int(r.below(OV_COUNT));
	h.inPlace(true);
	if (!h.add(ov, p, n, self)) { ov = OV_PTR; h.add(ov, p, n, self); }
	g_inCall = false;
	mprotect(reg, pages * PAGE, PROT_NONE);
	g_overloads.insert(ov); stat("guarded_feeds"); stat(atEnd ? "inputs_ending_at_a_guard" : "inputs_starting_at_a_guard");
	if (!self) viol(a, "return-self", "adding data did not return the object itself");
}
static void runGuard(Rng &r, const Algo &a, bool isDet, const Det &d) {
	const Params p = makeParams(r, a);
	std::vector<Bytes> items; if (isDet) items.push_back(makeAnyContent(r, d.x)); else { items = makeItems(r, a, 20000); for (auto &x : items) if (x.size() > 39 * PAGE) x.resize(39 * PAGE); }
	g_guardAlgo = &a; g_guardWhat = describe(a, p) + " " + describeItems(items);
	HP h = make(r, a, p);
	for (const Bytes &b : items) guardFeed(r, a, *h, b);
	fin(a, *h);
	const Bytes got = h->toVector(), want = refDigest(a.ref, p, items);
	stat("digests_compared"); distinct(sig(a, p, items));
	if (got != want) viol(a, "digest", g_guardWhat + " expected " + shortHex(want) + " got " + shortHex(got));
	h->reset(); for (const Bytes &b : items) guardFeed(r, a, *h, b); fin(a, *h);
	if (h->toVector() != want) viol(a, "digest", g_guardWhat + " again after reset");
	g_guardAlgo = nullptr;
	if (g_case % 97 == 0) sample(g_guardWhat.empty() ? a.name : describe(a, p) + " " + describeItems(items) + " in guarded memory -> " + shortHex(got));
}

// --- dump: everything observable, for comparison between configurations ------------------------------------------------
static std::vector<Det> detDump(const Algo &a) {
	std::vector<Det> v;
	for (size_t n = 0; n <= size_t(2 * a.block + 20); ++n) v.push_back(Det{0, n, 0});
	return v;
}
static void runDump(Rng &r, const Algo &a, bool isDet, const Det &d) {
	const Params p = makeParams(r, a);
	std::vector<Bytes> items;
	if (isDet) items.push_back(makeAnyContent(r, d.x)); else items = makeItems(r, a, 5000);
	Rng f(r.u64());
	HP h = make(f, a, p);
	if (a.tuple || !f.chance(50)) feedAll(f, a, *h, items); else { feedAll(f, a, *h, items); h->reset(); feedAll(f, a, *h, items); }
	fin(a, *h);
	std::vector<Num> ns; h->nums(ns);
	std::string o = h->toString() + " " + toHex(h->toVector()) + " hash " + std::to_string(h->stdHash());
	for (const Num &x : ns) if (x.bytes <= 8) o += std::string(" ") + x.type + " " + std::to_string(uint64_t(x.value));
	HP c(h->dup(CK_BASE_COPY, 0xAA)); o += c->eq(*h) ? " equal" : " different";
	stat("observations"); distinct(o);
	printf("DUMP %" PRIu64 " %s %s %016" PRIx64 " %s\n", g_case, a.name.c_str(), (describe(a, p) + " " + describeItems(items)).substr(0, 150).c_str(), hashStr(o), shortHex(h->toVector()).c_str());
}

// --- main ------------------------------------------------------------------------------------------------------------------
int main(int argc, char **argv) {
	uint64_t cases = 0, from = 0, every = 1, count = UINT64_MAX, n = 0, scale = 1; int how = 0; std::string only, status, want; bool list = false, refOnly = false;
	for (int i = 1; i < argc; ++i) {
		const std::string k = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (k == "--mode") g_mode = val(); else if (k == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
		else if (k == "--cases") cases = strtoull(val().c_str(), nullptr, 10); else if (k == "--from") from = strtoull(val().c_str(), nullptr, 10);
		else if (k == "--count") count = strtoull(val().c_str(), nullptr, 10); else if (k == "--only") only = val(); else if (k == "--status") status = val();
		else if (k == "--quiet") g_quiet = true; else if (k == "--n") n = strtoull(val().c_str(), nullptr, 10); else if (k == "--how") how = atoi(val().c_str());
		else if (k == "--every") every = strtoull(val().c_str(), nullptr, 10);
		else if (k == "--want") want = val(); else if (k == "--list") list = true; else if (k == "--ref") refOnly = true; else if (k == "--scale") scale = strtoull(val().c_str(), nullptr, 10);
		else { fprintf(stderr, "harness: bad option %s\n", k.c_str()); return 3; }
	}
	const std::string st = refSelfTest();
	if (!st.empty()) { fprintf(stderr, "harness: %s\n", st.c_str()); return 3; }
	if (list) { for (const Algo &a : algos()) printf("%s %d\n", a.name.c_str(), a.tuple ? 1 : 0); return 0; }
	if (!status.empty()) {
		const int fd = open(status.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, 4096) != 0) return 3;
		g_status = static_cast<uint64_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		if (g_status == MAP_FAILED) return 3;
	}
	uint64_t idx = 0; bool stop = false;
	const size_t maxLen = g_mode == "conf" || g_mode == "stream" ? size_t(1) << 17 : 4096;
	for (const Algo &a : algos()) {
		if (!only.empty() && a.name != only) continue;
		if (g_mode == "long") {
			if (refOnly) { const uint8_t *m = bigMap(n + 64); printf("REF %s %" PRIu64 " %s\n", a.name.c_str(), n, toHex(refLong(a, longParams(a), m, n)).c_str()); continue; }
			try { runLong(a, n, how, want); } catch (const Violated &) {} catch (const std::exception &e) { try { viol(a, "exception", e.what()); } catch (const Violated &) {} }
			continue;
		}
		if (g_mode == "counter") { stat("cases", cases); Rng r(mix(g_seed, hashStr("counter" + a.name))); try { runCounter(r, a, cases); } catch (const Violated &) {} continue; }
		std::vector<Det> det;
		if (g_mode == "conf") det = detConf(a); else if (g_mode == "stream") det = detStream(a); else if (g_mode == "reset") det = detReset(a); else if (g_mode == "dump" || g_mode == "guard") det = detDump(a);
		if (g_mode == "equal") { det.push_back(Det{99, 0, 0}); if (!g_quiet) for (int i = 0; i < 12; ++i) det.push_back(Det{98, 0, 0}); }
		const uint64_t total = det.size() + cases; int mine = 0;
		for (uint64_t c = 0; c < total; ++c, ++idx) {
			if (every > 1 && c < det.size() && (c + g_seed) % every) continue;      // a part of the enumerated cases, another one for another seed
			if (idx < from || idx - from >= count) continue;
			if (stop) break;
			g_case = idx; if (g_status) g_status[0] = idx + 1;
			Rng r(mix(mix(g_seed, hashStr(g_mode + a.name)), c));
			stat("cases");
			const bool isDet = c < det.size();
			if (g_quiet && isDet && det[size_t(c)].kind == 2 && det[size_t(c)].x > (1u << 22)) continue;
			try {
				if (g_mode == "conf") { if (isDet) runConfDet(r, a, det[size_t(c)]); else runConfRandom(r, a, maxLen); }
				else if (g_mode == "stream") { if (isDet) runStreamDet(r, a, det[size_t(c)]); else runStreamRandom(r, a, maxLen); }
				else if (g_mode == "reset") runReset(r, a, isDet, isDet ? det[size_t(c)] : Det{0, 0, 0});
				else if (g_mode == "value") runValue(r, a);
				else if (g_mode == "access") runAccess(r, a);
				else if (g_mode == "equal") { if (!isDet) runEqual(r, a); else if (det[size_t(c)].kind == 98) runEqualFlip(r, a); else runEqualBirthday(r, a, (g_quiet ? 2000 : 150000) * size_t(scale)); }
				else if (g_mode == "guard") { if (!g_region[0]) guardInit(); runGuard(r, a, isDet, isDet ? det[size_t(c)] : Det{0, 0, 0}); }
				else if (g_mode == "dump") runDump(r, a, isDet, isDet ? det[size_t(c)] : Det{0, 0, 0});
				else if (g_mode == "alloc") runAlloc(r, a);
				else { fprintf(stderr, "harness: unknown mode\n"); return 3; }
			}
			catch (const Violated &) { g_allocOn = false; if (++mine >= 2) { stop = false; idx += total - c; break; } }
			catch (const std::exception &e) {
				g_allocOn = false; g_allocFailAt = -1;
				if (!g_quiet) { ++g_viol; printf("VIOL case=%" PRIu64 " key=%s:%s:exception valid use threw: %s\n", g_case, a.name.c_str(), g_mode.c_str(), e.what()); fflush(stdout); if (++mine >= 2) { idx += total - c; break; } }
				else { fprintf(stderr, "exception on valid use: %s\n", e.what()); abort(); }
			}
		}
	}
	if (g_status) g_status[0] = 0;
	stat("distinct", g_distinct.size()); stat("overloads_used", g_overloads.size());
	for (auto &s : g_stat) printf("STAT %s %" PRIu64 "\n", s.first.c_str(), s.second);
	for (auto &s : g_samples) printf("SAMPLE %s\n", s.c_str());
	fflush(stdout);
	return g_viol ? 1 : 0;
}

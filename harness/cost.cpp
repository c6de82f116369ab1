// What hashing costs: basic blocks executed in the library (plug.cpp is compiled with -fsanitize-coverage=trace-pc-guard),
// bytes copied or filled by library-called memory functions (--wrap), and heap bytes held (operator new below).
// Nothing here is timed.
//   driver --mode cost --seed S --cases N [--only ALGO] [--from K --count C] [--status FILE]
#include "engine.h"
#include <cinttypes>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

static bool g_on = false;
static uint64_t g_blocks = 0, g_copied = 0;
static int64_t g_live = 0, g_peak = 0;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; ++a) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { g_blocks += g_on; }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *a, const void *b, size_t n) { if (g_on) g_copied += n; return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, size_t n) { if (g_on) g_copied += n; return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, size_t n) { if (g_on) g_copied += n; return __real_memset(a, c, n); }
}
// the size is kept in front of each block
static void *grab(size_t n) {
	char *p = static_cast<char *>(std::malloc(n + 16));
	if (!p) throw std::bad_alloc();
	*reinterpret_cast<size_t *>(p) = n;
	g_live += int64_t(n); if (g_live > g_peak) g_peak = g_live;
	return p + 16;
}
static void drop(void *p) { if (!p) return; char *q = static_cast<char *>(p) - 16; g_live -= int64_t(*reinterpret_cast<size_t *>(q)); std::free(q); }
void *operator new(size_t n) { return grab(n); }
void *operator new[](size_t n) { return grab(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }

const char *ovName(int o) { return o == OV_PTR ? "pointer" : o == OV_BRACE ? "braces" : o == OV_BASEREF_PTR ? "pointer, base class" : "span"; }
typedef std::unique_ptr<IHash> HP;
static uint64_t g_case = 0; static int g_viol = 0; static uint64_t *g_status = nullptr;
static std::map<std::string, uint64_t> g_stat;
static std::set<uint64_t> g_shapes;
static void viol(const Algo &a, const char *tag, const std::string &m) { ++g_viol; printf("VIOL case=%" PRIu64 " key=%s:cost:%s %s\n", g_case, a.name.c_str(), tag, m.c_str()); fflush(stdout); }
static std::string str(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap); return b; }

struct Cost { uint64_t work = 0; int64_t grew = 0, peak = 0; };      // work: blocks plus copied bytes / 8
template <class F> static Cost measure(F f) {
	const uint64_t b = g_blocks, c = g_copied; const int64_t l = g_live; g_peak = g_live;
	g_on = true; f(); g_on = false;
	Cost r; r.work = g_blocks - b + (g_copied - c) / 8; r.grew = g_live - l; r.peak = g_peak - l;
	g_stat["calls_measured"] += 1; g_stat["blocks_counted"] += g_blocks - b;
	return r;
}
static void give(IHash &h, int ov, const uint8_t *p, size_t n) { bool self; if (!h.add(ov, p, n, self)) h.add(OV_PTR, p, n, self); }

enum : int64_t { STEADY = 1024 };              // what the memory held may differ by between the middle and the end of a long use
enum : int64_t { HEAP_OK = 128 * 1024 };        // what an object may hold or use on the side besides parameters and output

static HP fresh(const Algo &a, const Params &p) { HP h(a.make(p, 0xAA)); h->inPlace(true); return h; }

// one message in one call at growing sizes
static uint64_t whole(const Algo &a, const Params &p, int ov, const Bytes &buf, size_t n, Cost &fin, int64_t *grew = nullptr) {
	HP h = fresh(a, p);
	const Cost c = measure([&] { give(*h, ov, buf.data(), n); });
	if (c.grew > HEAP_OK || c.peak > HEAP_OK) viol(a, "memory", str("adding %zu bytes in one call (%s) used %lld heap bytes and kept %lld", n, ovName(ov), (long long)c.peak, (long long)c.grew));
	if (grew) *grew = c.grew;
	fin = measure([&] { h->finalize(); });
	return c.work;
}

static void oneCase(const Algo &a, Rng &r, bool first) {
	Params p = makeParams(r, a);
	if (p.len > 400) p.len = 1 + p.len % 400;
	const int64_t extra = int64_t(p.len) * 8 + int64_t(p.name.size() + p.custom.size()) * 4;
	const int ov = first ? int(OV_PTR) : std::vector<int>{OV_PTR, OV_SPAN_CBYTE, OV_SPAN_CHAR, OV_BRACE, OV_BASEREF_PTR}[size_t(r.below(5))];
	const size_t n = 8192 + size_t(r.below(8192)) / 16 * 16;
	static Bytes buf; if (buf.size() < 16 * 16384 + 64) { Rng c(5); buf = makeContent(c, 16 * 16384 + 64, 0); }

	int64_t g1 = 0, g16 = 0;
	Cost f1, f16; const uint64_t w1 = whole(a, p, ov, buf, n, f1, &g1), w16 = whole(a, p, ov, buf, 16 * n, f16, &g16);
	if (w1 == 0) { printf("STAT uncounted 1\n"); return; }
	Cost f4k; const uint64_t slack = whole(a, p, ov, buf, 4096, f4k);
	g_stat["evaluated"] += 2;
	if (g16 > g1 + STEADY) viol(a, "memory", str("%s: an object keeps %lld heap bytes after %zu bytes in one call and %lld after %zu (%s)", describe(a, p).c_str(), (long long)g1, n, (long long)g16, 16 * n, ovName(ov)));
	if (w16 > 20 * w1 + slack) viol(a, "superlinear", str("%s: %zu bytes cost %" PRIu64 ", %zu bytes %" PRIu64 " (%s)", describe(a, p).c_str(), n, w1, 16 * n, w16, ovName(ov)));
	if (f16.work > 2 * f1.work + slack) viol(a, "finalize-work", str("%s: finalize costs %" PRIu64 " after %zu bytes and %" PRIu64 " after %zu", describe(a, p).c_str(), f1.work, n, f16.work, 16 * n));
	if (f16.peak > HEAP_OK + extra || f16.grew > HEAP_OK + extra) viol(a, "finalize-memory", str("%s: finalize after %zu bytes used %lld heap bytes", describe(a, p).c_str(), 16 * n, (long long)f16.peak));

	// in pieces: early and late calls, and the total
	const size_t B = size_t(a.block);
	const size_t sizes[] = {0, 1, 3, 8, B - 1 ? B - 1 : 1, B, B + 1, 2 * B + 3, 1 + size_t(r.below(900))};
	const size_t s = sizes[r.below(sizeof(sizes) / sizeof(*sizes))];
	const size_t window = std::max<size_t>(64, (4 * B + 64) / std::max<size_t>(1, s)), calls = s ? std::max<size_t>(16 * window, (s == 1 ? 20000 : 100000) / s) : 4096;
	HP h = fresh(a, p);
	const int64_t held0 = g_live; int64_t heldMid = 0;
	uint64_t early = 0, late = 0, tEarly = 0, tLate = 0, worst = 0, sum = 0; size_t worstAt = 0; int64_t peak = 0; size_t at = 0;
	for (size_t i = 0; i < calls; ++i) {
		if (at + s > buf.size()) at = 0;
		const Cost c = measure([&] { give(*h, ov, buf.data() + at, s); });
		at += s; peak = std::max(peak, c.peak);
		if (i == calls / 2) heldMid = g_live;
		sum += c.work; if (c.work > worst) { worst = c.work; worstAt = i; }
		if (i < window) { early = std::max(early, c.work); tEarly += c.work; }
		if (i >= calls - window) { late = std::max(late, c.work); tLate += c.work; }
	}
	g_stat["evaluated"] += 3;
	if (late > 2 * early + slack) viol(a, "call-work", str("%s: a call with %zu bytes costs %" PRIu64 " at first and %" PRIu64 " after %zu calls (%s)", describe(a, p).c_str(), s, early, late, calls, ovName(ov)));
	if (tLate > 2 * tEarly + slack) viol(a, "window-work", str("%s: %zu calls with %zu bytes cost %" PRIu64 " at first and %" PRIu64 " after %zu calls (%s)", describe(a, p).c_str(), window, s, tEarly, tLate, calls, ovName(ov)));
	if (g_live - held0 > HEAP_OK || peak > HEAP_OK) viol(a, "held-memory", str("%s: after %zu calls with %zu bytes the object holds %lld heap bytes more than when new; the largest use within a call was %lld", describe(a, p).c_str(), calls, s, (long long)(g_live - held0), (long long)peak));
	if (g_live - heldMid > STEADY) viol(a, "held-memory", str("%s: calls with %zu bytes (%s): between call %zu and call %zu the heap bytes held grew by %lld", describe(a, p).c_str(), s, ovName(ov), calls / 2, calls, (long long)(g_live - heldMid)));
	if (worst > 2 * early + slack) viol(a, "call-work", str("%s: a call with %zu bytes costs at most %" PRIu64 " at first and %" PRIu64 " as call %zu of %zu (%s)", describe(a, p).c_str(), s, early, worst, worstAt, calls, ovName(ov)));
	if (sum / calls > 2 * (tEarly / window + 1) + slack / window) viol(a, "mean-work", str("%s: calls with %zu bytes cost %" PRIu64 " on average at first and %" PRIu64 " over %zu calls (%s)", describe(a, p).c_str(), s, tEarly / window, sum / calls, calls, ovName(ov)));
	// copying does not depend on the history either
	HP c; const Cost cc = measure([&] { c.reset(h->dup(CK_COPY, 0)); });
	if (cc.grew > HEAP_OK + extra + int64_t(h->bytesOfObject())) viol(a, "copy-memory", str("%s: a copy after %zu bytes takes %lld heap bytes", describe(a, p).c_str(), calls * s, (long long)cc.grew));
	// many lives of one object: nothing builds up
	h->reset(); const int64_t held1 = g_live; const int lives = 200; int64_t livesMid = 0;
	uint64_t l1 = 0, l2 = 0;
	for (int i = 0; i < lives; ++i) {
		const Cost x = measure([&] { give(*h, ov, buf.data(), 100); h->finalize(); (void)h->toVector(); h->reset(); });
		if (i == lives / 2) livesMid = g_live;
		if (i < 20) l1 += x.work;
		if (i >= lives - 20) l2 += x.work;
	}
	g_stat["evaluated"] += 3;
	if (g_live - held1 > HEAP_OK + extra) viol(a, "lives-memory", str("%s: %d lives of one object left %lld heap bytes", describe(a, p).c_str(), lives, (long long)(g_live - held1)));
	if (g_live - livesMid > STEADY) viol(a, "lives-memory", str("%s: the second %d lives of one object left %lld heap bytes", describe(a, p).c_str(), lives / 2, (long long)(g_live - livesMid)));
	if (l2 > 2 * l1 + slack) viol(a, "lives-work", str("%s: the first 20 lives of one object cost %" PRIu64 ", the last 20 %" PRIu64, describe(a, p).c_str(), l1, l2));

	// one much longer message, in one call and in pieces of its 64th part
	if (first) {
		const size_t big = a.name == "MD2" ? size_t(1) << 20 : size_t(8) << 20; static Bytes lots; if (lots.size() < big) { Rng c(9); lots = makeContent(c, big, 0); }
		Cost fb; int64_t gb = 0; const uint64_t wb = whole(a, p, ov, lots, big, fb, &gb);
		g_stat["evaluated"] += 2;
		if (wb > (w16 + w16 / 4) / 16 * (big / n + 1) + slack) viol(a, "superlinear", str("%s: %zu bytes cost %" PRIu64 ", %zu bytes %" PRIu64 " (%s)", describe(a, p).c_str(), 16 * n, w16, big, wb, ovName(ov)));
		if (gb > g1 + STEADY) viol(a, "memory", str("%s: an object keeps %lld heap bytes after %zu bytes in one call", describe(a, p).c_str(), (long long)gb, big));
		if (fb.work > 2 * f1.work + slack) viol(a, "finalize-work", str("%s: finalize costs %" PRIu64 " after %zu bytes and %" PRIu64 " after %zu", describe(a, p).c_str(), f1.work, n, fb.work, big));
		HP x = fresh(a, p); uint64_t w0 = 0, wmax = 0;
		for (size_t k = 0; k < 64; ++k) { const uint64_t w = measure([&] { give(*x, ov, lots.data() + k * (big / 64), big / 64); }).work; if (!k) w0 = w; wmax = std::max(wmax, w); }
		if (wmax > w0 + w0 / 4 + slack) viol(a, "call-work", str("%s: a call with %zu bytes costs %" PRIu64 " at first and up to %" PRIu64 " later", describe(a, p).c_str(), big / 64, w0, wmax));
	}

	// output length
	if (a.digest < 0) {
		uint64_t w[2], t[2]; const int L = 2000 + int(r.below(2000));
		for (int k = 0; k < 2; ++k) {
			Params q = p; q.len = k ? 16 * L : L;
			HP x = fresh(a, q);
			give(*x, ov, buf.data(), 500);
			const Cost f = measure([&] { x->finalize(); });
			w[k] = f.work;
			if (f.peak > HEAP_OK + 8 * int64_t(q.len)) viol(a, "output-memory", str("%s: finalize used %lld heap bytes", describe(a, q).c_str(), (long long)f.peak));
			t[k] = measure([&] { (void)x->toString(); (void)x->toVector(); }).work;
		}
		g_stat["evaluated"] += 2;
		if (w[1] > 20 * w[0] + slack) viol(a, "output-superlinear", str("%s: %d output bytes cost %" PRIu64 ", %d cost %" PRIu64, describe(a, p).c_str(), L, w[0], 16 * L, w[1]));
		if (t[1] > 20 * t[0] + slack) viol(a, "read-superlinear", str("%s: reading %d output bytes costs %" PRIu64 ", %d cost %" PRIu64, describe(a, p).c_str(), L, t[0], 16 * L, t[1]));
	}
	g_shapes.insert(mix(mix(hashStr(a.name), s), mix(uint64_t(ov), n)));
	if (first) printf("SAMPLE %s: %zu bytes cost %" PRIu64 ", %zu bytes %" PRIu64 "; finalize %" PRIu64 " and %" PRIu64 "; %zu calls of %zu bytes: at most %" PRIu64 " early, %" PRIu64 " late, %lld heap bytes held\n",
		describe(a, p).c_str(), n, w1, 16 * n, w16, f1.work, f16.work, calls, s, early, late, (long long)(g_live - held0));
}

int main(int argc, char **argv) {
	std::map<std::string, std::string> o;
	for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
	const uint64_t seed = strtoull(o["--seed"].c_str(), nullptr, 10), cases = strtoull(o["--cases"].c_str(), nullptr, 10);
	const uint64_t from = o.count("--from") ? strtoull(o["--from"].c_str(), nullptr, 10) : 0, count = o.count("--count") ? strtoull(o["--count"].c_str(), nullptr, 10) : cases;
	if (o.count("--status")) { const int fd = open(o["--status"].c_str(), O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, 8) == 0) g_status = static_cast<uint64_t *>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); }
	uint64_t done = 0, k = 0;
	for (uint64_t i = 0; i < cases; ++i)
		for (const Algo &a : algos()) {
			if (o.count("--only") && o["--only"] != a.name) continue;
			const uint64_t id = k++;
			if (id < from || id >= from + count) continue;
			g_case = id; if (g_status) *g_status = id + 1;
			Rng r(mix(mix(seed, hashStr(a.name)), i));
			oneCase(a, r, i == 0);
			++done;
			if (g_viol > 40) break;
		}
	printf("STAT cases %" PRIu64 "\nSTAT distinct %zu\n", done, g_shapes.size());
	for (auto &s : g_stat) printf("STAT %s %" PRIu64 "\n", s.first.c_str(), s.second);
	return g_viol ? 1 : 0;
}

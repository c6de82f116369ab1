// Concurrent use of one header's classes: separate objects in separate threads, const reads of a shared object, and
// objects handed from thread to thread. The threads run first, in a process that has done nothing else, so that lazily
// made shared state is still unmade; what each should have seen is worked out afterwards, in one thread.
//   driver --mode threads --seed S --cases N [--only ALGO] [--from K --count C] [--status FILE]
#include "engine.h"
#include <atomic>
#include <cinttypes>
#include <condition_variable>
#include <cstdlib>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

typedef std::unique_ptr<IHash> HP;
static uint64_t g_case = 0; static int g_viol = 0; static uint64_t *g_status = nullptr;
static std::map<std::string, uint64_t> g_stat;
static std::set<uint64_t> g_orders, g_shapes;
static void viol(const Algo &a, const char *tag, const std::string &m) { ++g_viol; printf("VIOL case=%" PRIu64 " key=%s:threads:%s %s\n", g_case, a.name.c_str(), tag, m.c_str()); fflush(stdout); }
static int fillByte(Rng &r) { static const int f[] = {0x00, 0xFF, 0xAA}; return f[r.below(3)]; }

// Who did something when: relaxed, so that the tracing itself orders nothing.
struct Trace {
	enum { MAX = 4096 };
	std::atomic<uint32_t> n{0}; std::atomic<uint8_t> who[MAX];
	void mark(int t) { const uint32_t i = n.fetch_add(1, std::memory_order_relaxed); if (i < MAX) who[i].store(uint8_t(t), std::memory_order_relaxed); }
	uint64_t order() const { uint64_t h = 1469598103934665603ull; const uint32_t k = std::min<uint32_t>(n.load(), MAX); for (uint32_t i = 0; i < k; ++i) { h ^= who[i].load(std::memory_order_relaxed) + 1u; h *= 1099511628211ull; } return h; }
	uint32_t switches() const { const uint32_t k = std::min<uint32_t>(n.load(), MAX); uint32_t s = 0; for (uint32_t i = 1; i < k; ++i) s += who[i].load(std::memory_order_relaxed) != who[i - 1].load(std::memory_order_relaxed); return s; }
};
static Trace *g_trace = nullptr;
static thread_local int g_me = 0;
static void step(Rng &r) {          // injected delays: none, a spin, or giving up the processor
	g_trace->mark(g_me);
	const uint64_t d = r.below(12);
	if (d == 0) std::this_thread::yield();
	else if (d < 4) for (volatile unsigned i = 0; i < unsigned(r.below(400)); i = i + 1) { }
}
static std::atomic<int> g_ready{0}; static std::atomic<bool> g_go{false};
template <class F> static void together(int n, F f) {
	g_ready = 0; g_go = false;
	std::vector<std::thread> ts;
	for (int t = 0; t < n; ++t) ts.emplace_back([t, &f] { g_me = t; g_ready.fetch_add(1); while (!g_go.load()) { } f(t); });
	while (g_ready.load() != n) { }
	g_go = true;
	for (auto &t : ts) t.join();
}

typedef std::vector<std::string> Log;
static void observe(Log &log, const char *what, const Bytes &b) { log.push_back(std::string(what) + " " + toHex(b)); }
static void readAll(Rng &r, const IHash &h, Log &log, bool yield) {
	const int first = int(r.below(5));
	for (int k = 0; k < 5; ++k) {
		if (yield) step(r);
		switch ((first + k) % 5) {
			case 0: log.push_back("string " + h.toString()); break;
			case 1: observe(log, "vector", h.toVector()); break;
			case 2: { Bytes b; if (h.toArray(b)) observe(log, "array", b); break; }
			case 3: { std::vector<Num> v; h.nums(v); for (auto &x : v) log.push_back(std::string(x.type) + " " + std::to_string(uint64_t(x.value))); break; }
			default: log.push_back("hash " + std::to_string(h.stdHash()) + " " + std::to_string(h.stdHashBase())); break;
		}
	}
}
static Bytes msg(Rng &r, const Algo &a) { return makeAnyContent(r, size_t(r.below(uint64_t(a.block) * 5 + 40))); }
static void feed(Rng &r, IHash &h, const Algo &a, bool yield) {
	const Bytes m = msg(r, a); bool self;
	if (a.tuple) { if (yield) step(r); h.add(OV_PTR, m.data(), m.size(), self); return; }
	for (const Bytes &b : splitMsg(r, m, a.block)) { if (yield && r.chance(40)) step(r); const int ov = int(r.below(OV_COUNT)); if (!h.add(ov, b.data(), b.size(), self)) h.add(OV_PTR, b.data(), b.size(), self); }
}
// The separate random streams keep the work the same whether or not it is delayed.
static Log privateWork(const Algo &a, uint64_t seed, bool yield) {
	Rng r(seed), d(seed ^ 77); Log log;
	const int rounds = int(1 + r.below(3));
	for (int k = 0; k < rounds; ++k) {
		if (yield) step(d);
		const Params p = makeParams(r, a);
		HP h(a.make(p, fillByte(r)));
		Rng f(r.u64()); feed(f, *h, a, false);
		if (yield) step(d);
		HP c;
		if (r.chance(40)) { c.reset(h->dup(int(r.below(2)) * CK_BASE_COPY, fillByte(r))); Rng f2(r.u64()); feed(f2, *c, a, false); if (yield) step(d); c->finalize(); }
		if (r.chance(30)) { h->reset(); if (yield) step(d); Rng f3(r.u64()); feed(f3, *h, a, false); }
		h->finalize();
		if (yield) step(d);
		Rng rr(r.u64());
		readAll(rr, *h, log, false);
		if (c) { if (yield) step(d); readAll(rr, *c, log, false); log.push_back(h->eq(*c) ? "equal" : "different"); }
	}
	return log;
}
static void compare(const Algo &a, const char *tag, int t, const Log &got, const Log &want) {
	g_stat["observations_compared"] += want.size();
	if (got == want) return;
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
	viol(a, tag, "thread " + std::to_string(t) + " saw " + (i < got.size() ? got[i].substr(0, 160) : "less") + " where one thread alone sees " + (i < want.size() ? want[i].substr(0, 160) : "less"));
}
static void done(const Algo &a, const char *kind, int n, uint64_t seed) {
	g_stat[std::string("rounds_") + kind]++; g_stat["threads_run"] += uint64_t(n); g_stat["thread_switches_observed"] += g_trace->switches(); g_stat["events_traced"] += g_trace->n.load();
	g_orders.insert(g_trace->order() ^ hashStr(a.name + kind)); g_shapes.insert(mix(seed, hashStr(a.name + kind)));
}

static void scenarioPrivate(const Algo &a, uint64_t seed) {
	Rng r(seed); const int n = int(2 + r.below(5));
	std::vector<uint64_t> seeds; for (int t = 0; t < n; ++t) seeds.push_back(r.chance(25) && t ? seeds[0] : r.u64());
	std::vector<Log> logs{size_t(n)};
	together(n, [&](int t) { logs[size_t(t)] = privateWork(a, seeds[size_t(t)], true); });
	for (int t = 0; t < n; ++t) compare(a, "private", t, logs[size_t(t)], privateWork(a, seeds[size_t(t)], false));
	done(a, "private", n, seed);
}
static void scenarioShared(const Algo &a, uint64_t seed) {
	Rng r(seed); const int n = int(2 + r.below(5));
	const Params p = makeParams(r, a);
	HP h(a.make(p, fillByte(r))), twin(a.make(p, fillByte(r)));
	const uint64_t fs = r.u64();
	{ Rng f(fs); feed(f, *h, a, false); } { Rng f(fs); feed(f, *twin, a, false); }
	h->finalize(); twin->finalize();
	const IHash &c = *h, &ct = *twin; const uint64_t os = r.u64();
	IHash *hp = h.get();       // dup() only reads its object: it copies from a const reference
	const auto work = [&](int t, Log &log, bool yield) {
		Rng o(mix(os, uint64_t(t)));
		for (int k = 0; k < 3; ++k) {
			const uint64_t what = o.below(4), s = o.u64(); Rng q(s), z(s);
			if (yield) step(z);
			if (what == 0) { readAll(q, c, log, false); }
			else if (what == 1) { log.push_back(c.eq(ct) ? "equal" : "different"); log.push_back(c.ne(ct) ? "different" : "equal"); }
			else if (what == 2) { HP d(hp->dup(q.below(2) ? CK_COPY : CK_BASE_COPY, 0xAA)); if (yield) step(z); readAll(q, *d, log, false); log.push_back(d->eq(c) ? "equal" : "different"); }
			else { observe(log, "vector", c.toVector()); log.push_back("string " + c.toString()); }
		}
	};
	std::vector<Log> logs{size_t(n)};
	together(n, [&](int t) { work(t, logs[size_t(t)], true); });
	for (int t = 0; t < n; ++t) { Log w; work(t, w, false); compare(a, "shared", t, logs[size_t(t)], w); }
	done(a, "shared", n, seed);
}
// Copies of a shared object that is still absorbing, each finished by its own thread.
static void scenarioFork(const Algo &a, uint64_t seed) {
	Rng r(seed); const int n = int(2 + r.below(5));
	const Params p = makeParams(r, a);
	HP h(a.make(p, fillByte(r)));
	{ Rng f(r.u64()); feed(f, *h, a, false); }
	IHash *hp = h.get(); const uint64_t os = r.u64();
	const auto work = [&](int t, Log &log, bool yield) {
		Rng o(mix(os, uint64_t(t))), z(mix(os, 99 + uint64_t(t)));
		if (yield) step(z);
		HP d(hp->dup(o.below(2) ? CK_COPY : CK_BASE_COPY, fillByte(o)));
		if (yield) step(z);
		Rng f(o.u64()); feed(f, *d, a, false);
		if (yield) step(z);
		d->finalize(); readAll(o, *d, log, false);
	};
	std::vector<Log> logs{size_t(n)};
	together(n, [&](int t) { work(t, logs[size_t(t)], true); });
	for (int t = 0; t < n; ++t) { Log w; work(t, w, false); compare(a, "fork", t, logs[size_t(t)], w); }
	done(a, "fork", n, seed);
}
// One object passed round the threads under a lock, each adding something while all also use objects of their own.
static void scenarioRelay(const Algo &a, uint64_t seed) {
	Rng r(seed); const int n = int(2 + r.below(4)); const int turns = n * int(1 + r.below(3));
	const Params p = makeParams(r, a); const uint64_t os = r.u64();
	const auto turn = [&](IHash &h, int k) { Rng f(mix(os, uint64_t(k))); feed(f, h, a, false); };
	const auto own = [&](int t, int k) { Rng f(mix(os ^ 5, uint64_t(t * 1000 + k))); HP o(a.make(p, 0xAA)); feed(f, *o, a, false); o->finalize(); return o->toVector(); };
	HP h(a.make(p, fillByte(r)));
	std::mutex m; std::condition_variable cv; int next = 0; Bytes got;
	std::vector<std::vector<Bytes>> owns{size_t(n)};
	together(n, [&](int t) {
		Rng z(mix(os, 7 + uint64_t(t)));
		for (int k = t; k < turns; k += n) {
			owns[size_t(t)].push_back(own(t, k));
			step(z);
			{ std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return next == k; }); turn(*h, k); if (k == turns - 1) { h->finalize(); got = h->toVector(); } ++next; }
			cv.notify_all();
			step(z);
		}
	});
	HP w(a.make(p, 0)); for (int k = 0; k < turns; ++k) turn(*w, k);
	w->finalize();
	compare(a, "relay", -1, Log{toHex(got)}, Log{toHex(w->toVector())});
	for (int t = 0; t < n; ++t) { size_t i = 0; for (int k = t; k < turns; k += n, ++i) compare(a, "relay-own", t, Log{toHex(owns[size_t(t)][i])}, Log{toHex(own(t, k))}); }
	done(a, "relay", n, seed);
}

int main(int argc, char **argv) {
	uint64_t seed = 1, cases = 20, from = 0, count = ~0ull; std::string only;
	for (int i = 1; i < argc; ++i) {
		const std::string o = argv[i];
		if (o == "--mode") ++i;
		else if (o == "--seed") seed = strtoull(argv[++i], nullptr, 0);
		else if (o == "--cases") cases = strtoull(argv[++i], nullptr, 0);
		else if (o == "--from") from = strtoull(argv[++i], nullptr, 0);
		else if (o == "--count") count = strtoull(argv[++i], nullptr, 0);
		else if (o == "--only") only = argv[++i];
		else if (o == "--status") {
			const int fd = open(argv[++i], O_RDWR | O_CREAT, 0600);
			if (fd < 0 || ftruncate(fd, 8) != 0) return 3;
			g_status = static_cast<uint64_t *>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); close(fd);
		} else { fprintf(stderr, "harness: unknown option %s\n", o.c_str()); return 3; }
	}
	g_trace = new Trace;
	uint64_t c = 0;
	for (uint64_t k = 0; k < cases; ++k) for (const Algo &a : algos()) for (int s = 0; s < 4; ++s, ++c) {
		if (!only.empty() && a.name != only) continue;
		if (c < from || c - from >= count) continue;
		g_case = c; if (g_status) *g_status = c + 1;
		g_trace->n = 0;
		const uint64_t cs = mix(seed * 1000003 + c, hashStr(a.name));
		switch (s) { case 0: scenarioPrivate(a, cs); break; case 1: scenarioShared(a, cs); break; case 2: scenarioFork(a, cs); break; default: scenarioRelay(a, cs); break; }
		g_stat["cases"]++;
		if (k == 0 && s == 0) printf("SAMPLE %s: threads with objects of their own, %u events, %u switches between threads\n", a.name.c_str(), g_trace->n.load(), g_trace->switches());
	}
	g_stat["distinct"] = g_orders.size();
	g_stat["distinct_workloads"] = g_shapes.size();
	for (auto &s : g_stat) printf("STAT %s %" PRIu64 "\n", s.first.c_str(), s.second);
	return g_viol ? 1 : 0;
}

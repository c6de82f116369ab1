// The bundled gsl::span against a model (base, offset, length): calls inside the contract must give the model's
// elements, calls outside it must end the program (std::terminate) before anything is touched.
//   driver --mode span --seed S --cases N [--from K --count C] [--status FILE]
#include <gsl/span>
#include <gsl/algorithm>
#include <gsl/util>
#include <gsl/narrow>
#include <algorithm>
#include <array>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct Rng {
	uint64_t s; explicit Rng(uint64_t x) : s(x) {}
	uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	bool chance(unsigned p) { return below(100) < p; }
};
static uint64_t g_case = 0, g_seed = 1; static uint64_t *g_status = nullptr; static int g_viol = 0;
static std::map<std::string, uint64_t> g_stat; static std::set<uint64_t> g_distinct;
struct Violated {};
static void viol(const std::string &tag, const std::string &m) { ++g_viol; printf("VIOL case=%" PRIu64 " key=span:%s %s\n", g_case, tag.c_str(), m.c_str()); fflush(stdout); throw Violated(); }
static uint64_t hs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

template <class T> struct Model { const T *base; size_t off, len; };
static std::string show(const char *op, size_t len, long long a = -1, long long b = -1) { std::string s = std::string(op) + " on " + std::to_string(len) + " elements"; if (a != -1) s += ", " + std::to_string(a); if (b != -1) s += ", " + std::to_string(b); return s; }

// Runs f in a child: it has to reach std::terminate.
template <class F> static void mustEnd(const std::string &what, F f) {
	fflush(stdout);
	const pid_t p = fork();
	if (p < 0) { fprintf(stderr, "harness: fork\n"); _exit(3); }
	if (p == 0) {
		const int n = open("/dev/null", O_WRONLY); dup2(n, 2);
		std::set_terminate([] { _exit(42); });
		alarm(20);
		bool threw = false;
		try { f(); } catch (...) { threw = true; }
		_exit(threw ? 9 : 7);
	}
	int st = 0; waitpid(p, &st, 0);
	++g_stat["calls_outside_contract"]; g_distinct.insert(hs(what));
	if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return;
	std::string how = WIFSIGNALED(st) ? "was ended by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) == 7 ? "carried on" : WEXITSTATUS(st) == 9 ? "threw" : "ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer)";
	viol("bounds", what + " " + how + " instead of terminating");
}
template <class S, class T> static void same(const std::string &what, const S &s, const Model<T> &m) {
	++g_stat["views_compared"]; g_distinct.insert(hs(what));
	if (s.size() != m.len) viol("view", what + " has " + std::to_string(s.size()) + " elements, expected " + std::to_string(m.len));
	if (s.size_bytes() != m.len * sizeof(T)) viol("view", what + " size_bytes " + std::to_string(s.size_bytes()));
	if (s.empty() != (m.len == 0)) viol("view", what + " empty() is wrong");
	if (m.len && s.data() != m.base + m.off) viol("view", what + " points to the wrong element");
	size_t i = 0;
	for (auto &x : s) { if (i >= m.len || &x != m.base + m.off + i) viol("iterate", what + " iteration visits a wrong element at " + std::to_string(i)); ++i; }
	if (i != m.len) viol("iterate", what + " iteration visits " + std::to_string(i) + " of " + std::to_string(m.len));
	for (auto it = s.rbegin(); it != s.rend(); ++it) { --i; if (&*it != m.base + m.off + i) viol("iterate", what + " reverse iteration visits a wrong element"); }
	if (i) viol("iterate", what + " reverse iteration stops early");
	for (size_t k = 0; k < m.len; ++k) if (&s[k] != m.base + m.off + k) viol("index", what + " [" + std::to_string(k) + "] is the wrong element");
	if (m.len) { if (&s.front() != m.base + m.off || &s.back() != m.base + m.off + m.len - 1) viol("index", what + " front() or back() is wrong"); }
}
// b and e stand at the beginning and the end, however they came there
template <class It, class T> static void insideMoves(Rng &r, const char *kind, const It b, const It e, const Model<T> &m) {
	if (e - b != std::ptrdiff_t(m.len)) viol("iterator", show("end() - begin()", m.len) + kind);
	for (int k = 0; k < 4; ++k) {
		const std::ptrdiff_t i = std::ptrdiff_t(r.below(m.len + 1)), j = std::ptrdiff_t(r.below(m.len + 1));
		auto x = b; x += i; auto y = b + j; auto z = e - (std::ptrdiff_t(m.len) - i); auto w = i + b;
		if (x - y != i - j || !(x == z) || !(w == x) || (x < y) != (i < j) || (x <= y) != (i <= j) || (x > y) != (i > j) || (x >= y) != (i >= j) || (x != y) != (i != j)) viol("iterator", show("iterator arithmetic and order", m.len, i, j) + kind);
		y -= j; if (!(y == b)) viol("iterator", show("-=", m.len, j) + kind);
		if (i < std::ptrdiff_t(m.len)) {
			if (&*x != m.base + m.off + i || &b[i] != m.base + m.off + i || x.operator->() != m.base + m.off + i) viol("iterator", show("dereferencing", m.len, i) + kind);
			auto q = x; if (&*q++ != m.base + m.off + i || q - b != i + 1) viol("iterator", show("it++", m.len, i) + kind);
			if (&*--q != m.base + m.off + i) viol("iterator", show("--it", m.len, i) + kind);
			++q; q--; if (!(q == x)) viol("iterator", show("it--", m.len, i) + kind);
		}
		++g_stat["iterator_checks"];
	}
}
template <class A, class B> static void mixed(const char *kind, const A &x, const B &y, std::ptrdiff_t i, std::ptrdiff_t j, size_t len) {
	if (x - y != i - j || (x == y) != (i == j) || (x != y) != (i != j) || (x < y) != (i < j) || (x <= y) != (i <= j) || (x > y) != (i > j) || (x >= y) != (i >= j)) viol("iterator", show("order of iterators", len, i, j) + kind);
	++g_stat["iterator_checks"];
}
template <class It, class T> static void outsideMoves(Rng &r, const char *kind, const It at, std::ptrdiff_t i, const Model<T> &m) {
	const std::ptrdiff_t n = std::ptrdiff_t(m.len), far = r.chance(60) ? 1 + r.below(2) : 1 + std::ptrdiff_t(r.u64() >> (2 + r.below(60)));
	const std::ptrdiff_t up = far > PTRDIFF_MAX - n ? PTRDIFF_MAX : n - i + far, down = far > PTRDIFF_MAX - n ? PTRDIFF_MAX : i + far;
	switch (r.below(10)) {
		case 0: mustEnd(show("iterator += outside", m.len, i, up) + kind, [&] { It x = at; x += up; }); break;
		case 1: mustEnd(show("iterator -= outside", m.len, i, down) + kind, [&] { It x = at; x -= down; }); break;
		case 2: mustEnd(show("iterator + outside", m.len, i, up) + kind, [&] { It x = up + at; (void)x; }); break;
		case 3: mustEnd(show("iterator - outside", m.len, i, down) + kind, [&] { It x = at - down; (void)x; }); break;
		case 4: mustEnd(show("iterator += negative, outside", m.len, i, -down) + kind, [&] { It x = at; x += -down; }); break;
		case 5: mustEnd(show("iterator -= negative, outside", m.len, i, -up) + kind, [&] { It x = at; x -= -up; }); break;
		case 6: mustEnd(show("iterator [] outside", m.len, i, up) + kind, [&] { volatile T v = at[r.chance(50) ? n - i : up]; (void)v; }); break;
		case 7: mustEnd(show("iterator [] before the beginning", m.len, i, -down) + kind, [&] { volatile T v = at[-down]; (void)v; }); break;
		case 8: mustEnd(show("++ past the end", m.len, i) + kind, [&] { It x = at; for (std::ptrdiff_t k = i; k <= n; ++k) if (k & 1) ++x; else x++; }); break;
		default: mustEnd(show("-- past the beginning", m.len, i) + kind, [&] { It x = at; for (std::ptrdiff_t k = i; k >= 0; --k) if (k & 1) --x; else x--; }); break;
	}
}
template <class T> static void iterators(Rng &r, gsl::span<T> s, const Model<T> &m) {
	const auto b = s.begin(), e = s.end();
	if (e - b != std::ptrdiff_t(m.len)) viol("iterator", show("end() - begin()", m.len));
	insideMoves(r, "", b, e, m);
	{
		using CI = typename gsl::span<const T>::iterator;
		const std::ptrdiff_t n = std::ptrdiff_t(m.len), i = std::ptrdiff_t(r.below(m.len + 1)), j = std::ptrdiff_t(r.below(m.len + 1));
		const auto y = b + i; const CI c = b + j;
		insideMoves(r, " (constant iterators converted in the middle)", CI(c - j), CI(c + (n - j)), m);
		mixed(" (constant and not)", c, y, j, i, m.len);
		mixed(" (not constant and constant)", y, c, i, j, m.len);
		mixed(" (reversed)", std::make_reverse_iterator(c), std::make_reverse_iterator(CI(y)), i, j, m.len);
		if (std::make_reverse_iterator(c).base() != c) viol("iterator", show("base() of a reversed iterator", m.len, j));
		if (c.current_ != m.base + m.off + j && m.len) viol("iterator", show("conversion to a constant iterator", m.len, j));
		for (const auto &p : {std::make_pair(y, i), std::make_pair(b, std::ptrdiff_t(0)), std::make_pair(e, n)}) if (r.chance(40)) outsideMoves(r, "", p.first, p.second, m);
		for (const auto &p : {std::make_pair(c, j), std::make_pair(CI(c - j), std::ptrdiff_t(0)), std::make_pair(CI(e), n)}) if (r.chance(40)) outsideMoves(r, " (constant iterator converted in the middle)", p.first, p.second, m);
		if (r.chance(20)) outsideMoves(r, " (of a temporary view)", gsl::span<T>(s).last(size_t(n)).begin() + i, i, m);
		if (m.len > 1 && r.chance(20)) { // an iterator of a part must not leave the part although the memory goes on
			const size_t o = r.below(m.len), l = r.below(m.len - o + 1); const Model<T> p{m.base, m.off + o, l};
			const auto t = s.subspan(o, l); const std::ptrdiff_t q = std::ptrdiff_t(r.below(l + 1));
			if (l) { insideMoves(r, " (of a part)", t.begin(), t.end(), p); outsideMoves(r, " (of a part)", t.begin() + q, q, p); }
		}
	}
	{ // the free functions and the conversion to constant iterators
		typename gsl::span<const T>::iterator ci = b;
		gsl::span<const T> cs(s);
		if (ci != cs.begin() || cs.end() - ci != std::ptrdiff_t(m.len)) viol("iterator", show("conversion to a constant iterator", m.len));
		if (gsl::begin(s) != b || gsl::end(s) != e || gsl::cbegin(s) != b || gsl::cend(s) != e || gsl::ssize(s) != std::ptrdiff_t(m.len)) viol("iterator", show("free begin() and end()", m.len));
		size_t k = m.len; for (auto it = gsl::rbegin(s); it != gsl::rend(s); ++it) if (&*it != m.base + m.off + --k) viol("iterator", show("free rbegin()", m.len));
		if (k) viol("iterator", show("free rbegin() stops early", m.len));
		for (auto it = gsl::crbegin(s); it != gsl::crend(s); ++it) if (&*it != m.base + m.off + (m.len - ++k)) viol("iterator", show("free crbegin()", m.len));
		if (k != m.len) viol("iterator", show("free crbegin() stops early", m.len));
	}
	// outside
	const uint64_t wide[] = {uint64_t(1) << 31, (uint64_t(1) << 32) - 1, uint64_t(1) << 32, (uint64_t(1) << 32) + 1, uint64_t(1) << 62, uint64_t(PTRDIFF_MAX) - 2 * m.len};
	const uint64_t far = r.chance(50) ? 1 + r.below(3) : r.chance(50) ? r.below(1000000) + 1 : wide[r.below(6)];
	const std::ptrdiff_t n = std::ptrdiff_t(m.len), at = std::ptrdiff_t(r.below(m.len + 1)), up = n - at + std::ptrdiff_t(far), down = at + std::ptrdiff_t(far);
	switch (r.below(18)) {
		case 8: mustEnd(show("end()->", m.len), [&] { auto *volatile v = e.operator->(); (void)v; }); break;
		case 9: mustEnd(show("iterator [] before the beginning", m.len, at, -down), [&] { volatile T v = (b + at)[-down]; (void)v; }); break;
		case 10: mustEnd(show("iterator += the smallest number", m.len, at), [&] { auto x = b; if (at) x += at; x += PTRDIFF_MIN; }); break;
		case 11: mustEnd(show("iterator -= the smallest number", m.len, at), [&] { auto x = b; if (at) x += at; x -= PTRDIFF_MIN; }); break;
		case 12: mustEnd(show("iterator + too much, binary", m.len, up), [&] { auto x = (b + at) + up; (void)x; }); break;
		case 13: mustEnd(show("number + iterator, too much", m.len, up), [&] { auto x = up + (b + at); (void)x; }); break;
		case 14: mustEnd(show("iterator - too much, binary", m.len, down), [&] { auto x = (b + at) - down; (void)x; }); break;
		case 15: if (m.len) mustEnd(show("subtracting or ordering iterators of different spans", m.len), [&] { gsl::span<T> o = s.last(m.len - 1); volatile std::ptrdiff_t v = s.begin() - o.begin(); volatile bool w = s.begin() < o.begin(); (void)v; (void)w; }); break;
		case 16: {
			typename gsl::span<T>::iterator d; decltype(d) d2; if (!(d == d2) || d - d2 != 0) viol("iterator", "default iterators differ");
			if (r.chance(50)) mustEnd("moving a default iterator", [&] { auto x = d; x += 1; }); else mustEnd("dereferencing a default iterator", [&] { volatile T v = *d; (void)v; });
			break;
		}
		case 17: switch (r.below(4)) {
			case 0: mustEnd(show("end()++", m.len), [&] { auto x = e; x++; }); break;
			case 1: mustEnd(show("begin()--", m.len), [&] { auto x = b; x--; }); break;
			case 2: mustEnd(show("*rend()", m.len), [&] { volatile T v = *s.rend(); (void)v; }); break;
			default: mustEnd(show("constant iterator past the end", m.len), [&] { gsl::span<const T> cs(s); typename gsl::span<const T>::iterator x = s.begin(); x += up + at; (void)x; }); break;
		} break;
		case 0: mustEnd(show("*end()", m.len), [&] { volatile T v = *e; (void)v; }); break;
		case 1: mustEnd(show("++end()", m.len), [&] { auto x = e; ++x; }); break;
		case 2: mustEnd(show("--begin()", m.len), [&] { auto x = b; --x; }); break;
		case 3: mustEnd(show("begin() + too much", m.len, up), [&] { auto x = b; if (at) x += at; x += up; }); break;
		case 4: mustEnd(show("iterator - too much", m.len, down), [&] { auto x = b; if (at) x += at; x -= down; }); break;
		case 5: mustEnd(show("iterator += too negative", m.len, -down), [&] { auto x = b; if (at) x += at; x += -down; }); break;
		case 6: mustEnd(show("iterator -= too negative", m.len, -up), [&] { auto x = b; if (at) x += at; x -= -up; }); break;
		case 7: mustEnd(show("iterator [] outside", m.len, n), [&] { volatile T v = b[std::ptrdiff_t(m.len)]; (void)v; }); break;
		default: if (m.len) mustEnd(show("comparing iterators of different spans", m.len), [&] { gsl::span<T> o = s.first(m.len - 1); volatile bool v = o.begin() == s.begin(); (void)v; }); break;
	}
}
template <class T, size_t N> static void statics(Rng &r, gsl::span<T> s, const Model<T> &m) {
	const std::string n = std::to_string(N);
	if (N <= m.len) {
		same(show(("first<" + n + ">").c_str(), m.len), s.template first<N>(), Model<T>{m.base, m.off, N});
		same(show(("last<" + n + ">").c_str(), m.len), s.template last<N>(), Model<T>{m.base, m.off + m.len - N, N});
		same(show(("subspan<" + n + ">").c_str(), m.len), s.template subspan<N>(), Model<T>{m.base, m.off + N, m.len - N});
		same(show(("subspan<0," + n + ">").c_str(), m.len), s.template subspan<0, N>(), Model<T>{m.base, m.off, N});
		if (N == m.len) {
			gsl::span<T, N> f(s); same(show("fixed from dynamic", m.len), f, m);
			gsl::span<T> back(f); same(show("dynamic from fixed", m.len), back, m);
			if (N >= 1) {
				const size_t k = size_t(r.below(N + 1));
				same(show("fixed first", N, k), f.first(k), Model<T>{m.base, m.off, k}); same(show("fixed last", N, k), f.last(k), Model<T>{m.base, m.off + N - k, k}); same(show("fixed subspan", N, k), f.subspan(k), Model<T>{m.base, m.off + k, N - k});
				mustEnd(show("fixed []", N, N), [&] { volatile T v = f[N]; (void)v; });
				mustEnd(show("fixed first", N, N + 1), [&] { auto v = f.first(N + 1); (void)v; });
				mustEnd(show("fixed last", N, N + 1), [&] { auto v = f.last(N + 1); (void)v; });
				mustEnd(show("fixed subspan", N, N + 1), [&] { auto v = f.subspan(N + 1); (void)v; });
				mustEnd(show("fixed subspan", N, 1, N), [&] { auto v = f.subspan(1, N); (void)v; });
			}
		} else mustEnd(show(("fixed extent " + n + " from another length").c_str(), m.len), [&] { gsl::span<T, N> f(s); (void)f; });
		const size_t off = size_t(r.below(m.len - N + 1));
		switch (off) { // the offset is fixed at compile time
			case 1: same(show(("subspan<1," + n + ">").c_str(), m.len), s.template subspan<1, N>(), Model<T>{m.base, m.off + 1, N}); break;
			case 2: same(show(("subspan<2," + n + ">").c_str(), m.len), s.template subspan<2, N>(), Model<T>{m.base, m.off + 2, N}); break;
			case 3: same(show(("subspan<3," + n + ">").c_str(), m.len), s.template subspan<3, N>(), Model<T>{m.base, m.off + 3, N}); break;
			default: break;
		}
		if (m.len - N < 3) mustEnd(show(("subspan<3," + n + ">").c_str(), m.len), [&] { auto v = s.template subspan<3, N>(); (void)v; });
		{
			std::vector<T> v(s.begin(), s.begin() + N);
			gsl::span<T, N> f(v); same(("span<" + n + ">(vector)").c_str(), f, Model<T>{v.data(), 0, N});
			same(("span<" + n + ">(first, last)").c_str(), gsl::span<T, N>(v.data(), v.data() + N), Model<T>{v.data(), 0, N});
			same(("span<" + n + ">::subspan<1>").c_str(), f.template subspan<1>(), Model<T>{v.data(), 1, N - 1});
			same(("span<" + n + ">::first<" + n + ">").c_str(), f.template first<N>(), Model<T>{v.data(), 0, N});
			same(("span<" + n + ">::last<1>").c_str(), f.template last<1>(), Model<T>{v.data(), N - 1, 1});
			gsl::span<T, N> g(f); g = f; same(("copied span<" + n + ">").c_str(), g, Model<T>{v.data(), 0, N});
			gsl::span<const T, N> cf(f); same(("span<const," + n + ">").c_str(), cf, Model<T>{v.data(), 0, N});
			const auto fb = gsl::as_bytes(f); if (fb.size() != N * sizeof(T) || static_cast<const void *>(fb.data()) != v.data()) viol("bytes", "as_bytes of span<" + n + ">");
			const auto fw = gsl::as_writable_bytes(f); if (fw.size() != N * sizeof(T) || static_cast<void *>(fw.data()) != v.data()) viol("bytes", "as_writable_bytes of span<" + n + ">");
			v.push_back(T(1));
			switch (r.below(5)) {
				case 0: mustEnd("span<" + n + ">(vector of one more)", [&] { gsl::span<T, N> x(v); (void)x; }); break;
				case 1: mustEnd("span<" + n + ">(first, last) one more", [&] { gsl::span<T, N> x(v.data(), v.data() + N + 1); (void)x; }); break;
				case 2: mustEnd("span<" + n + ">(first, last) one less", [&] { gsl::span<T, N> x(v.data(), v.data() + N - 1); (void)x; }); break;
				case 3: mustEnd("span<" + n + ">(null, " + n + ")", [&] { gsl::span<T, N> x(static_cast<T *>(nullptr), N); (void)x; }); break;
				default: mustEnd("span<" + n + ">(const vector of one more)", [&] { const std::vector<T> &c = v; gsl::span<const T, N> x(c); (void)x; }); break;
			}
		}
	} else {
		switch (r.below(5)) {
			case 0: mustEnd(show(("first<" + n + ">").c_str(), m.len), [&] { auto v = s.template first<N>(); (void)v; }); break;
			case 1: mustEnd(show(("last<" + n + ">").c_str(), m.len), [&] { auto v = s.template last<N>(); (void)v; }); break;
			case 2: mustEnd(show(("subspan<" + n + ">").c_str(), m.len), [&] { auto v = s.template subspan<N>(); (void)v; }); break;
			case 3: mustEnd(show(("subspan<0," + n + ">").c_str(), m.len), [&] { auto v = s.template subspan<0, N>(); (void)v; }); break;
			default: mustEnd(show(("fixed extent " + n + " from too few").c_str(), m.len), [&] { gsl::span<T, N> f(s.data(), s.size()); (void)f; }); break;
		}
	}
}
static size_t outside(Rng &r, size_t n) { switch (r.below(7)) { case 5: return (size_t(1) << 32) + size_t(r.below(n + 2)); case 6: return (size_t(1) << 31) + size_t(r.below(n + 2)); case 0: return n + 1; case 1: return n + 1 + size_t(r.below(100)); case 2: return SIZE_MAX - 1; case 3: return size_t(1) << 63; default: return SIZE_MAX / 2 + size_t(r.below(10)); } }

template <class T> static void walk(Rng &r, const char *) {
	// an exact-size heap block, so that the address sanitizer sees one element too far
	const size_t total = r.chance(10) ? 0 : size_t(r.below(r.chance(20) ? 200 : 20));
	std::unique_ptr<T[]> buf(new T[total]);
	for (size_t i = 0; i < total; ++i) buf[i] = T(r.u64());
	const T *base = buf.get();
	Model<T> m{base, 0, total};
	gsl::span<T> s(buf.get(), total);
	same(show("span(pointer, count)", total), s, m);
	same(show("span(first, last)", total), gsl::span<T>(buf.get(), buf.get() + total), m);
	for (int step = 0; step < 6; ++step) {
		const size_t n = m.len;
		const size_t a = size_t(r.below(n + 1)), b = size_t(r.below(n - a + 1));
		switch (r.below(4)) {
			case 0: { const auto t = s.first(a); const Model<T> k{base, m.off, a}; same(show("first", n, a), t, k); if (r.chance(30)) { s = t; m = k; } break; }
			case 1: { const auto t = s.last(a); const Model<T> k{base, m.off + n - a, a}; same(show("last", n, a), t, k); if (r.chance(30)) { s = t; m = k; } break; }
			case 2: { const auto t = s.subspan(a); const Model<T> k{base, m.off + a, n - a}; same(show("subspan", n, a), t, k); if (r.chance(30)) { s = t; m = k; } break; }
			default: { const auto t = s.subspan(a, b); const Model<T> k{base, m.off + a, b}; same(show("subspan", n, a, b), t, k); if (r.chance(30)) { s = t; m = k; } break; }
		}
	}
	const size_t n = m.len, o = outside(r, n), a = size_t(r.below(n + 1));
	switch (r.below(13)) {
		case 0: mustEnd(show("[]", n, (long long)(o - 1)), [&] { volatile T v = s[std::max(n, o - 1)]; (void)v; }); break;
		case 1: mustEnd(show("first", n, (long long)o), [&] { auto v = s.first(o); (void)v; }); break;
		case 2: mustEnd(show("last", n, (long long)o), [&] { auto v = s.last(o); (void)v; }); break;
		case 3: mustEnd(show("subspan", n, (long long)o), [&] { auto v = s.subspan(o); (void)v; }); break;
		case 4: mustEnd(show("subspan", n, (long long)o, 0), [&] { auto v = s.subspan(o, 0); (void)v; }); break;
		case 5: { const size_t c = o - a < n - a + 1 ? n - a + 1 : (r.chance(50) ? n - a + 1 : o); if (c != SIZE_MAX) mustEnd(show("subspan", n, (long long)a, (long long)c), [&] { auto v = s.subspan(a, c); (void)v; }); break; }
		case 6: mustEnd(show("at", n, (long long)n), [&] { volatile T v = gsl::at(s, gsl::index(n)); (void)v; }); break;
		case 9: mustEnd(show("at", n, (long long)(o - 1)), [&] { volatile T v = gsl::at(s, gsl::index(std::max(n, o - 1))); (void)v; }); break;
		case 10: mustEnd(show("front() of nothing", 0), [&] { volatile T v = s.first(0).front(); (void)v; }); break;
		case 11: mustEnd(show("back() of nothing", 0), [&] { volatile T v = s.last(0).back(); (void)v; }); break;
		case 12: mustEnd(show("[0] of nothing", 0), [&] { volatile T v = s.first(0)[0]; (void)v; }); break;
		case 7: mustEnd(show("at", n, -7), [&] { volatile T v = gsl::at(s, -gsl::index(1 + r.below(9))); (void)v; }); break;
		default:
			mustEnd("span(null, " + std::to_string(n + 1) + ")", [&] { gsl::span<T> v(static_cast<T *>(nullptr), n + 1); (void)v; });
			if (!n) { mustEnd("front() of an empty span", [&] { volatile T v = s.front(); (void)v; }); mustEnd("back() of an empty span", [&] { volatile T v = s.back(); (void)v; }); }
			break;
	}
	iterators(r, s, m);
	switch (r.below(6)) { case 0: statics<T, 1>(r, s, m); break; case 1: statics<T, 2>(r, s, m); break; case 2: statics<T, 4>(r, s, m); break; case 3: statics<T, 7>(r, s, m); break; case 4: statics<T, 16>(r, s, m); break; default: if (n >= 4) statics<T, 4>(r, s.first(4), Model<T>{base, m.off, 4}); break; }
	// byte views, const views, containers, comparison, copy
	const auto by = gsl::as_bytes(s);
	if (by.size() != n * sizeof(T) || (n && static_cast<const void *>(by.data()) != base + m.off)) viol("bytes", show("as_bytes", n));
	const auto wb = gsl::as_writable_bytes(s);
	if (wb.size() != n * sizeof(T) || (n && static_cast<const void *>(wb.data()) != base + m.off)) viol("bytes", show("as_writable_bytes", n));
	gsl::span<const T> cs(s); same(show("span<const T> from span<T>", n), cs, m);
	std::vector<T> v(s.begin(), s.end()); gsl::span<T> vs(v); same(show("span(vector)", n), vs, Model<T>{v.data(), 0, n});
	const std::vector<T> &cv = v; same(show("span(const vector)", n), gsl::span<const T>(cv), Model<T>{v.data(), 0, n});
	std::array<T, 5> arr; for (auto &x : arr) x = T(r.u64()); same("span(std::array)", gsl::span<T>(arr), Model<T>{arr.data(), 0, 5}); same("span<5>(std::array)", gsl::span<T, 5>(arr), Model<T>{arr.data(), 0, 5});
	T raw[3] = {T(1), T(2), T(3)}; same("span(array)", gsl::span<T>(raw), Model<T>{raw, 0, 3}); same("make_span(array)", gsl::make_span(raw), Model<T>{raw, 0, 3});
	if (!(vs == s) || (vs != s) || (vs < s) || (vs > s)) viol("compare", show("equal contents", n));
	if (n) { v[size_t(r.below(n))] ^= T(1); const bool lt = std::lexicographical_compare(v.begin(), v.end(), s.begin(), s.end()); if (vs == s || (vs < s) != lt || (vs > s) == lt || (vs <= s) != lt || (vs >= s) == lt) viol("compare", show("one element changed", n)); }
	std::vector<T> dst(n + r.below(4)); gsl::copy(s, gsl::span<T>(dst)); if (!std::equal(s.begin(), s.end(), dst.begin())) viol("copy", show("copy", n));
	if (n) mustEnd(show("copy into less room", n), [&] { std::unique_ptr<T[]> d(new T[n - 1]); gsl::copy(s, gsl::span<T>(d.get(), n - 1)); });
	const size_t i = size_t(r.below(n + 1)); if (i < n && &gsl::at(s, gsl::index(i)) != base + m.off + i) viol("index", show("at", n, i));
	T fixed[6] = {}; if (&gsl::at(fixed, 5) != fixed + 5) viol("index", "at(array, 5)");
	mustEnd("at(array, outside)", [&] { volatile T x = gsl::at(fixed, r.chance(50) ? 6 : -1); (void)x; });
	mustEnd(show("at(vector, outside)", n), [&] { volatile T x = gsl::at(v, gsl::index(n)); (void)x; });
}
// Sequences of more than 2^32 bytes: address space that is reserved but never touched, as only addresses are compared.
template <class T> static void huge(Rng &r) {
	static T *const base = [] { void *p = mmap(nullptr, size_t(1) << 37, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : static_cast<T *>(p); }();
	if (!base) { ++g_stat["huge_not_available"]; return; }
	const size_t most = (size_t(1) << 37) / sizeof(T) / 2;
	const size_t n = r.chance(50) ? (size_t(1) << 32) / sizeof(T) + size_t(r.below(3)) : 16 + size_t(r.below(most));
	const gsl::span<T> s(base, n);
	auto is = [&](const char *op, const gsl::span<T> &v, size_t off, size_t len, long long a, long long b) {
		++g_stat["huge_views_compared"]; const std::string w = show(op, n, a, b); g_distinct.insert(hs(w));
		if (v.size() != len || v.size_bytes() != len * sizeof(T) || v.empty() != (len == 0)) viol("view", w + " has " + std::to_string(v.size()) + " elements, expected " + std::to_string(len));
		if (len && (v.data() != base + off || &v.front() != base + off || &v.back() != base + off + len - 1)) viol("view", w + " points to the wrong element");
		const size_t k = size_t(r.below(len)); const auto b0 = v.begin(), e0 = v.end();
		if (len && (&v[k] != base + off + k || &*(b0 + std::ptrdiff_t(k)) != base + off + k || &b0[std::ptrdiff_t(k)] != base + off + k || &*(e0 - std::ptrdiff_t(len - k)) != base + off + k || &*(v.rbegin() + std::ptrdiff_t(k)) != base + off + len - 1 - k || &gsl::at(v, gsl::index(k)) != base + off + k)) viol("index", w + ", element " + std::to_string(k) + " is the wrong one");
		if (e0 - b0 != std::ptrdiff_t(len) || gsl::ssize(v) != std::ptrdiff_t(len)) viol("iterator", w + " end() - begin()");
		auto it = b0; it += std::ptrdiff_t(k); if (it - b0 != std::ptrdiff_t(k) || (b0 < it) != (k > 0) || (it == b0) != (k == 0) || (it < e0) != (len > 0)) viol("iterator", w + " iterator order");
		const auto by = gsl::as_bytes(v); if (by.size() != len * sizeof(T)) viol("bytes", w + " as_bytes has " + std::to_string(by.size()));
		const gsl::span<const T> cv(v); if (cv.size() != len) viol("view", w + " as constant");
	};
	const size_t a = size_t(r.below(n + 1)), b = size_t(r.below(n - a + 1));
	is("span", s, 0, n, -1, -1); is("first", s.first(a), 0, a, (long long)a, -1); is("last", s.last(a), n - a, a, (long long)a, -1); is("subspan", s.subspan(a), a, n - a, (long long)a, -1); is("subspan", s.subspan(a, b), a, b, (long long)a, (long long)b);
	is("first<7>", s.template first<7>(), 0, 7, -1, -1); is("last<7>", s.template last<7>(), n - 7, 7, -1, -1); is("subspan<3>", s.template subspan<3>(), 3, n - 3, -1, -1);
	is("span(first, last)", gsl::span<T>(base, base + n), 0, n, -1, -1);
	switch (r.below(7)) {
		case 0: mustEnd(show("[] of a huge span", n, (long long)n), [&] { auto *volatile v = &s[n]; (void)v; }); break;
		case 1: mustEnd(show("first of a huge span", n, (long long)n + 1), [&] { auto v = s.first(n + 1); (void)v; }); break;
		case 2: mustEnd(show("last of a huge span", n, (long long)n + 1), [&] { auto v = s.last(n + 1); (void)v; }); break;
		case 3: mustEnd(show("subspan of a huge span", n, (long long)a, (long long)(n - a + 1)), [&] { auto v = s.subspan(a, n - a + 1); (void)v; }); break;
		case 4: mustEnd(show("iterator of a huge span", n, (long long)n + 1), [&] { auto v = s.begin() + std::ptrdiff_t(n + 1); (void)v; }); break;
		case 5: mustEnd(show("iterator of a huge span", n, -(long long)n - 1), [&] { auto v = s.end() - std::ptrdiff_t(n + 1); (void)v; }); break;
		default: mustEnd(show("at of a huge span", n, (long long)n), [&] { auto *volatile v = &gsl::at(s, gsl::index(n)); (void)v; }); break;
	}
}
static void narrowing(Rng &r) {
	const int64_t x = r.chance(50) ? int64_t(r.u64()) : int64_t(r.below(600)) - 300;
	bool threw = false; int8_t y = 0;
	try { y = gsl::narrow<int8_t>(x); } catch (const gsl::narrowing_error &) { threw = true; }
	if (threw != (x < -128 || x > 127) || (!threw && y != x)) viol("narrow", "narrow<int8_t>(" + std::to_string(x) + ")");
	threw = false; uint32_t u = 0;
	try { u = gsl::narrow<uint32_t>(x); } catch (const gsl::narrowing_error &) { threw = true; }
	if (threw != (x < 0 || x > int64_t(UINT32_MAX)) || (!threw && int64_t(u) != x)) viol("narrow", "narrow<uint32_t>(" + std::to_string(x) + ")");
	++g_stat["narrowings"];
}

int main(int argc, char **argv) {
	uint64_t cases = 100, from = 0, count = ~0ull;
	for (int i = 1; i < argc; ++i) {
		const std::string o = argv[i];
		if (o == "--mode") ++i;
		else if (o == "--seed") g_seed = strtoull(argv[++i], nullptr, 0);
		else if (o == "--cases") cases = strtoull(argv[++i], nullptr, 0);
		else if (o == "--from") from = strtoull(argv[++i], nullptr, 0);
		else if (o == "--count") count = strtoull(argv[++i], nullptr, 0);
		else if (o == "--status") {
			const int fd = open(argv[++i], O_RDWR | O_CREAT, 0600);
			if (fd < 0 || ftruncate(fd, 8) != 0) return 3;
			g_status = static_cast<uint64_t *>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); close(fd);
		} else return 3;
	}
	{ // the detector detects
		static int hit = 0; std::set_terminate([] { _exit(42); });
		const pid_t p = fork(); if (p == 0) std::terminate(); int st; waitpid(p, &st, 0); hit = WIFEXITED(st) && WEXITSTATUS(st) == 42;
		if (!hit) { fprintf(stderr, "harness: terminate is not observed\n"); return 3; }
	}
	int bad = 0;
	for (uint64_t c = from; c < cases && c - from < count && bad < 4; ++c) {
		g_case = c; if (g_status) *g_status = c + 1;
		Rng r(g_seed * 0x9E3779B97F4A7C15ull + c * 0xD6E8FEB86659FD93ull); r.u64();
		++g_stat["cases"];
		try {
			switch (c % 4) { case 0: walk<uint8_t>(r, "uint8_t"); break; case 1: walk<uint32_t>(r, "uint32_t"); break; case 2: walk<uint64_t>(r, "uint64_t"); break; default: walk<uint16_t>(r, "uint16_t"); break; }
			narrowing(r);
			if (c % 3 == 0) { if (c % 2) huge<uint8_t>(r); else huge<uint64_t>(r); }
		} catch (const Violated &) { ++bad; }
	}
	g_stat["distinct"] = g_distinct.size();
	for (auto &s : g_stat) printf("STAT %s %" PRIu64 "\n", s.first.c_str(), s.second);
	printf("SAMPLE %s calls outside the contract ended the program, %s views equal the model\n", std::to_string(g_stat["calls_outside_contract"]).c_str(), std::to_string(g_stat["views_compared"]).c_str());
	return g_viol ? 1 : 0;
}

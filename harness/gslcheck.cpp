// The bundled GSL helpers other than span: not_null and strict_not_null, finally, narrow and narrow_cast, at, copy,
// make_span, byte, Expects and Ensures. Valid calls are compared with what plain C++ computes, invalid ones must end
// the program (std::terminate) in a child process, or throw where that is the contract.
//   driver --mode gsl --seed S --cases N [--from K --count C] [--status FILE]
#include <gsl/algorithm>
#include <gsl/assert>
#include <gsl/byte>
#include <gsl/narrow>
#include <gsl/pointers>
#include <gsl/span>
#include <gsl/util>
#include <gsl/zstring>
#include <array>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct Rng {
	uint64_t s; explicit Rng(uint64_t x) : s(x) {}
	uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	bool chance(unsigned p) { return below(100) < p; }
};
static uint64_t g_case = 0, g_seed = 1; static uint64_t *g_status = nullptr; static int g_viol = 0;
static std::map<std::string, uint64_t> g_stat; static std::set<uint64_t> g_distinct;
struct Violated {};
static void viol(const std::string &tag, const std::string &m) { ++g_viol; printf("VIOL case=%" PRIu64 " key=gsl:%s %s\n", g_case, tag.c_str(), m.c_str()); fflush(stdout); throw Violated(); }
static uint64_t hs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static void check(bool ok, const char *tag, const std::string &what) { ++g_stat["results_compared"]; g_distinct.insert(hs(what)); if (!ok) viol(tag, what); }

// Runs f in a child: it has to reach std::terminate. An exception escaping f reaches it too, unless thrown on purpose.
template <class F> static void mustEnd(const std::string &what, F f) {
	fflush(stdout);
	const pid_t p = fork();
	if (p < 0) { fprintf(stderr, "harness: fork\n"); _exit(3); }
	if (p == 0) {
		const int n = open("/dev/null", O_WRONLY); dup2(n, 2);
		std::set_terminate([] { _exit(42); });
		alarm(20);
		bool threw = false;
		try { f(); } catch (...) { threw = true; }
		_exit(threw ? 9 : 7);
	}
	int st = 0; waitpid(p, &st, 0);
	++g_stat["calls_outside_contract"]; g_distinct.insert(hs(what));
	if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return;
	viol("contract", what + " " + (WIFSIGNALED(st) ? "was ended by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) == 7 ? "carried on" : WEXITSTATUS(st) == 9 ? "threw" : "ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer)") + " instead of terminating");
}

// --- not_null ---------------------------------------------------------------------------------------------------------
struct Base { int v = 0; virtual ~Base() {} };
struct Derived : Base { int w = 0; };
template <class P> struct Handle { // a pointer-like class whose null is not all zero bits
	P *p; bool set;
	Handle(P *q) : p(q ? q : reinterpret_cast<P *>(uintptr_t(0x1000))), set(q != nullptr) {}
	bool operator!=(std::nullptr_t) const { return set; }
	bool operator==(std::nullptr_t) const { return !set; }
	P &operator*() const { return *p; }
	P *operator->() const { return p; }
};
template <class T, class U, class = void> struct CanAdd : std::false_type {};
template <class T, class U> struct CanAdd<T, U, decltype(void(std::declval<T>() + std::declval<U>()))> : std::true_type {};
template <class T, class U, class = void> struct CanSub : std::false_type {};
template <class T, class U> struct CanSub<T, U, decltype(void(std::declval<T>() - std::declval<U>()))> : std::true_type {};
template <class T, class = void> struct CanInc : std::false_type {};
template <class T> struct CanInc<T, decltype(void(++std::declval<T &>()))> : std::true_type {};
template <class T, class = void> struct CanIndex : std::false_type {};
template <class T> struct CanIndex<T, decltype(void(std::declval<T &>()[0]))> : std::true_type {};
template <template <class> class NN> static void notNullOf(Rng &r, const std::string &name, bool strict) {
	Derived obj[4]; for (auto &o : obj) { o.v = int(r.below(1000)); o.w = int(r.below(1000)); }
	Derived *const none = nullptr;
	const size_t i = size_t(r.below(4)), j = size_t(r.below(4));
	NN<Derived *> a(&obj[i]), b(&obj[j]);
	check(a.get() == &obj[i] && static_cast<Derived *>(a) == &obj[i] && &*a == &obj[i] && a->v == obj[i].v && (*a).w == obj[i].w, "not-null", name + " gives the pointer " + std::to_string(i));
	NN<Base *> up(a); NN<const Base *> cup(b);
	check(up.get() == static_cast<Base *>(&obj[i]) && cup.get() == &obj[j] && up->v == obj[i].v, "not-null", name + " to a base pointer " + std::to_string(i) + std::to_string(j));
	check((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "not-null", name + " order " + std::to_string(i) + std::to_string(j));
	check((up == cup) == (i == j) && (up != cup) == (i != j), "not-null", name + " equality of different pointer types " + std::to_string(i) + std::to_string(j));
	check(std::hash<NN<Derived *>>()(a) == std::hash<Derived *>()(&obj[i]), "not-null", name + " hash " + std::to_string(i));
	{ NN<Derived *> c(a); c = b; check(c.get() == &obj[j] && a.get() == &obj[i], "not-null", name + " assignment " + std::to_string(i) + std::to_string(j)); }
	{ NN<Derived *> c(a), d(b); c.swap(d); check(c.get() == &obj[j] && d.get() == &obj[i], "not-null", name + " member swap"); using std::swap; swap(c, d); check(c.get() == &obj[i] && d.get() == &obj[j], "not-null", name + " swap"); }
	{ std::ostringstream o, q; o << a; q << &obj[i]; check(o.str() == q.str(), "not-null", name + " output"); }
	// a moved-from one still points: the pointer is copied
	auto sp = std::make_shared<Derived>(); sp->v = int(r.below(1000));
	NN<std::shared_ptr<Derived>> s(sp); check(s.get() == sp && s->v == sp->v && sp.use_count() == 2, "not-null", name + " of a shared_ptr");
	NN<std::shared_ptr<Derived>> t(std::move(s)); check(s.get() != nullptr && t.get() == sp, "not-null", name + " moved from is still not null");
	NN<std::shared_ptr<Derived>> u(std::make_shared<Derived>()); u = std::move(t); check(t.get() != nullptr && u.get() == sp, "not-null", name + " assigned from is still not null");
	NN<std::shared_ptr<Base>> ub(u); check(ub.get() == sp, "not-null", name + " of a shared_ptr to base");
	NN<std::unique_ptr<Derived>> un(std::make_unique<Derived>()); un->w = 7; check(un.get() != nullptr && (*un).w == 7, "not-null", name + " of a unique_ptr");
	Handle<Derived> h(&obj[i]); NN<Handle<Derived>> nh(h); check(nh->v == obj[i].v && &*nh == &obj[i], "not-null", name + " of a pointer-like class");
	int ran = 0; std::function<void()> fn = [&] { ++ran; }; NN<std::function<void()>> nf(fn); nf.get()(); check(ran == 1, "not-null", name + " of a function");
	check(!std::is_constructible<NN<Derived *>, std::nullptr_t>::value && !std::is_assignable<NN<Derived *> &, std::nullptr_t>::value && !std::is_default_constructible<NN<Derived *>>::value, "not-null", name + " takes a null constant");
	check(!CanAdd<NN<Derived *>, std::ptrdiff_t>::value && !CanAdd<std::ptrdiff_t, NN<Derived *>>::value && !CanSub<NN<Derived *>, NN<Derived *>>::value && !CanSub<NN<Derived *>, std::ptrdiff_t>::value && !CanInc<NN<Derived *>>::value && !CanIndex<NN<Derived *>>::value, "not-null", name + " allows pointer arithmetic");
	check(std::is_convertible<Derived *, NN<Derived *>>::value == !strict, "not-null", name + " implicit construction");
	switch (r.below(9)) {
		case 0: mustEnd(name + "(null pointer)", [&] { NN<Derived *> x(none); (void)x; }); break;
		case 1: mustEnd(name + "<Base *>(null Derived *)", [&] { NN<Base *> x(none); (void)x; }); break;
		case 2: mustEnd(name + "(empty shared_ptr)", [&] { NN<std::shared_ptr<Derived>> x(std::shared_ptr<Derived>{}); (void)x; }); break;
		case 3: mustEnd(name + "(empty shared_ptr lvalue)", [&] { std::shared_ptr<Derived> e; NN<std::shared_ptr<Base>> x(e); (void)x; }); break;
		case 4: mustEnd(name + "(empty unique_ptr)", [&] { NN<std::unique_ptr<Derived>> x(std::unique_ptr<Derived>{}); (void)x; }); break;
		case 5: mustEnd(name + "(null pointer-like class)", [&] { NN<Handle<Derived>> x(Handle<Derived>(nullptr)); (void)x; }); break;
		case 6: mustEnd(name + "<pointer-like class>(null pointer)", [&] { NN<Handle<Derived>> x(none); (void)x; }); break;
		case 7: mustEnd(name + "(empty function)", [&] { std::function<void()> e; NN<std::function<void()>> x(e); (void)x; }); break;
		default: { // a failed cast gives a null pointer to another class
			Base plain; mustEnd(name + "(failed dynamic_cast)", [&] { NN<Derived *> x(dynamic_cast<Derived *>(&plain)); (void)x; }); break;
		}
	}
}
template <class T> using NotNull = gsl::not_null<T>;
template <class T> using StrictNotNull = gsl::strict_not_null<T>;
static void notNull(Rng &r) {
	notNullOf<NotNull>(r, "not_null", false); notNullOf<StrictNotNull>(r, "strict_not_null", true);
	int x = int(r.below(100)), y = x + 1;
	auto m = gsl::make_not_null(&x); auto n = gsl::make_strict_not_null(&y);
	check(m.get() == &x && n.get() == &y && *m + 1 == *n, "not-null", "make_not_null");
	gsl::not_null<int *> c = m; c = n; check(c.get() == &y, "not-null", "not_null from strict_not_null");
	gsl::strict_not_null<int *> d(m); d = m; check(d.get() == &x, "not-null", "strict_not_null from not_null");
	int *none = nullptr;
	if (r.chance(50)) mustEnd("make_not_null(null)", [&] { auto q = gsl::make_not_null(none); (void)q; }); else mustEnd("make_strict_not_null(null)", [&] { auto q = gsl::make_strict_not_null(none); (void)q; });
	mustEnd("assigning a null pointer to not_null", [&] { gsl::not_null<int *> q(&x); q = none; });
}

// --- finally ------------------------------------------------------------------------------------------------------------
static void finals(Rng &r) {
	int runs = 0; const int how = int(r.below(9)); bool before = false, caught = false;
	auto body = [&](int k) {
		const auto f = gsl::finally([&runs] { ++runs; });
		before = before || runs != 0;
		if (k == 1) throw 5;
		if (k == 2) return;
		before = before || runs != 0;
	};
	if (how < 3) { try { body(how); } catch (int) { caught = true; } check(!before && runs == 1 && caught == (how == 1), "finally", "finally runs once, at the end of its scope, kind " + std::to_string(how)); }
	else if (how == 3) {
		{ auto f = gsl::finally([&runs] { ++runs; }); { auto g = std::move(f); check(runs == 0, "finally", "a moved action ran early"); } check(runs == 1, "finally", "a moved action runs with its new owner"); }
		check(runs == 1, "finally", "a moved-from action does not run");
	} else if (how == 4) {
		std::string log;
		{ auto a = gsl::finally([&] { log += 'a'; }); auto b = gsl::finally([&] { log += 'b'; }); auto c = gsl::finally([&] { log += 'c'; }); log += '.'; }
		check(log == ".cba", "finally", "actions run in reverse order: " + log);
	} else if (how == 6) {
		// given by name, constant, and as a plain function
		auto act = [&runs] { ++runs; }; const auto cact = act; static int calls; calls = 0; void (*plain)() = [] { ++calls; };
		{ auto a = gsl::finally(act); auto b = gsl::finally(cact); auto c = gsl::finally(plain); auto d = gsl::finally(*plain); check(runs == 0 && calls == 0, "finally", "an action ran early"); }
		check(runs == 2 && calls == 2, "finally", "actions given by name run once each"); act(); check(runs == 3, "finally", "the action given by name is still whole");
	} else if (how == 7) {
		// unwinding through several scopes, one of them in a loop left by break
		auto deep = [&](auto &self, int k) -> void { const auto f = gsl::finally([&runs] { ++runs; }); if (k) self(self, k - 1); throw 1; };
		const int k = int(r.below(20)); try { deep(deep, k); } catch (int) { caught = true; }
		for (int i = 0; i < 5; ++i) { const auto f = gsl::finally([&runs] { ++runs; }); if (i == 2) break; if (i == 1) continue; }
		check(caught && runs == k + 1 + 3, "finally", "unwinding " + std::to_string(k + 1) + " scopes and leaving a loop ran " + std::to_string(runs) + " actions");
	} else if (how == 8) {
		// state of the action itself moves along and dies once
		auto sp = std::make_shared<int>(0); { auto a = gsl::finally([sp] { ++*sp; }); auto b = std::move(a); auto c = std::move(b); check(*sp == 0, "finally", "an action moved twice ran early"); } check(*sp == 1 && sp.use_count() == 1, "finally", "an action moved twice ran " + std::to_string(*sp) + " times");
	} else {
		std::vector<gsl::final_action<std::function<void()>>> v; const int n = 1 + int(r.below(20));
		for (int i = 0; i < n; ++i) v.push_back(gsl::finally(std::function<void()>([&runs] { ++runs; })));  // the vector moves them about
		check(runs == 0, "finally", "an action moved about by a vector ran early"); v.clear(); check(runs == n, "finally", "each of " + std::to_string(n) + " actions moved about by a vector runs once");
	}
	check(!std::is_copy_constructible<gsl::final_action<std::function<void()>>>::value, "finally", "an action can be copied");
}

// --- narrow ---------------------------------------------------------------------------------------------------------------
template <class T, class U> static void narrowTo(U u, const char *t) {
	bool threw = false; T v = T();
	try { v = gsl::narrow<T>(u); } catch (const gsl::narrowing_error &e) { threw = e.what() != nullptr; }
	const __int128 w = __int128(u); const bool fits = w >= __int128(std::numeric_limits<T>::min()) && w <= __int128(std::numeric_limits<T>::max());
	check(threw != fits && (threw || __int128(v) == w), "narrow", std::string("narrow<") + t + "> of " + std::to_string(u) + " from " + std::to_string(sizeof(U)) + (std::is_signed<U>::value ? " signed" : " unsigned") + " bytes");
	check(gsl::narrow_cast<T>(u) == static_cast<T>(u), "narrow", "narrow_cast");
}
template <class U> static void narrowFrom(U u) {
	narrowTo<int8_t>(u, "int8_t"); narrowTo<uint8_t>(u, "uint8_t"); narrowTo<int16_t>(u, "int16_t"); narrowTo<uint16_t>(u, "uint16_t"); narrowTo<int32_t>(u, "int32_t"); narrowTo<uint32_t>(u, "uint32_t"); narrowTo<int64_t>(u, "int64_t"); narrowTo<uint64_t>(u, "uint64_t"); narrowTo<char>(u, "char"); narrowTo<bool>(u, "bool");
}
enum class Colour : int { red, green = 300 };
static void narrowing(Rng &r) {
	uint64_t x = r.u64() >> r.below(64); if (r.chance(40)) x = (uint64_t(1) << r.below(64)) + r.below(3) - 1; if (r.chance(50)) x = 0 - x;
	switch (r.below(8)) { case 0: narrowFrom(int8_t(x)); break; case 1: narrowFrom(uint8_t(x)); break; case 2: narrowFrom(int16_t(x)); break; case 3: narrowFrom(uint16_t(x)); break; case 4: narrowFrom(int32_t(x)); break; case 5: narrowFrom(uint32_t(x)); break; case 6: narrowFrom(int64_t(x)); break; default: narrowFrom(x); break; }
	// floating point: only values the target can represent approximately, so that the conversion is defined
	const double d = double(int64_t(x) >> (1 + r.below(50))) / double(uint64_t(1) << r.below(4));
	if (std::fabs(d) < 9e18) {
		bool threw = false; int64_t v = 0; try { v = gsl::narrow<int64_t>(d); } catch (const gsl::narrowing_error &) { threw = true; }
		check(threw == (d != std::floor(d)) && (threw || double(v) == d), "narrow", "narrow<int64_t> of " + std::to_string(d));
		threw = false; float f = 0; try { f = gsl::narrow<float>(d); } catch (const gsl::narrowing_error &) { threw = true; }
		check(threw == (double(float(d)) != d) && (threw || double(f) == d), "narrow", "narrow<float> of " + std::to_string(d));
	}
	{	// integers to floating point and back, where all conversions are defined
		const int64_t k = int64_t(x) >> (2 + r.below(60)); const uint64_t m = uint64_t(k < 0 ? -k : k); const int32_t k32 = int32_t(x >> 34) - (1 << 29);
		auto fl = [&](auto from, auto like, const char *what) {
			using F = decltype(like); bool t = false; F v = 0; try { v = gsl::narrow<F>(from); } catch (const gsl::narrowing_error &) { t = true; }
			const bool exact = __int128(F(from)) == __int128(from); check(t != exact && (t || __int128(v) == __int128(from)), "narrow", std::string(what) + " " + std::to_string(from));
		};
		fl(k, 0.0, "narrow<double> of an int64_t"); fl(m, 0.0, "narrow<double> of a uint64_t"); fl(k, 0.0f, "narrow<float> of an int64_t"); fl(m, 0.0f, "narrow<float> of a uint64_t"); fl(k32, 0.0f, "narrow<float> of an int32_t"); fl(k32, 0.0, "narrow<double> of an int32_t"); fl(int16_t(x), 0.0f, "narrow<float> of an int16_t");
		auto toInt = [&](double v, auto like, const char *what) {
			using I = decltype(like); if (!(v > double(std::numeric_limits<I>::min()) - (std::is_signed<I>::value ? 1 : 0.999) && v < double(std::numeric_limits<I>::max()))) return;
			bool t = false; I w = 0; try { w = gsl::narrow<I>(v); } catch (const gsl::narrowing_error &) { t = true; }
			check(t == (v != std::floor(v)) && (t || double(w) == v), "narrow", std::string(what) + " of " + std::to_string(v));
		};
		const double q = double(int64_t(r.below(1200)) - 600) / 4.0; toInt(q, int8_t(), "narrow<int8_t>"); toInt(q, uint8_t(), "narrow<uint8_t>"); toInt(q * 100, int16_t(), "narrow<int16_t>"); toInt(q * 1e6, int32_t(), "narrow<int32_t>"); toInt(q * 1e6, uint32_t(), "narrow<uint32_t>"); toInt(q * 1e15, uint64_t(), "narrow<uint64_t>"); toInt(-0.0, uint32_t(), "narrow<uint32_t>");
	}
	bool threw = false; try { (void)gsl::narrow<float>(std::numeric_limits<double>::quiet_NaN()); } catch (const gsl::narrowing_error &) { threw = true; } check(threw, "narrow", "narrow<float> of not-a-number");
	check(std::is_base_of<std::exception, gsl::narrowing_error>::value, "narrow", "narrowing_error is an exception");
	threw = false; Colour c = Colour::red; try { c = gsl::narrow<Colour>(300); } catch (const gsl::narrowing_error &) { threw = true; } check(!threw && c == Colour::green, "narrow", "narrow to an enumeration");
	threw = false; try { (void)gsl::narrow<Colour>(int64_t(300) + (int64_t(1) << 32)); } catch (const gsl::narrowing_error &) { threw = true; } check(threw, "narrow", "narrow of a too large number to an enumeration");
}

// --- at ---------------------------------------------------------------------------------------------------------------------
static gsl::index outside(Rng &r, size_t n) { switch (r.below(6)) { case 0: return gsl::index(n); case 1: return -1; case 2: return gsl::index(n + r.below(1000)); case 3: return std::numeric_limits<gsl::index>::min() + gsl::index(r.below(3)); case 4: return std::numeric_limits<gsl::index>::max(); default: return (gsl::index(1) << 32) + gsl::index(r.below(n + 1)); } }
static void access(Rng &r) {
	const size_t n = 1 + size_t(r.below(40)), i = size_t(r.below(n));
	std::vector<uint32_t> v(n); for (auto &x : v) x = uint32_t(r.u64());
	std::deque<uint32_t> q(v.begin(), v.end()); std::string s(n, 'x'); s[i] = 'y';
	const std::vector<uint32_t> &cv = v; gsl::span<uint32_t> sp(v);
	check(&gsl::at(v, gsl::index(i)) == &v[i] && &gsl::at(cv, gsl::index(i)) == &v[i] && &gsl::at(q, gsl::index(i)) == &q[i] && &gsl::at(s, gsl::index(i)) == &s[i] && &gsl::at(sp, gsl::index(i)) == &v[i], "at", "at " + std::to_string(i) + " of " + std::to_string(n));
	uint16_t raw[9]; std::array<uint16_t, 9> arr; for (size_t k = 0; k < 9; ++k) { raw[k] = uint16_t(r.u64()); arr[k] = uint16_t(r.u64()); }
	const size_t k = size_t(r.below(9)); const std::array<uint16_t, 9> &ca = arr;
	check(&gsl::at(raw, gsl::index(k)) == &raw[k] && &gsl::at(arr, gsl::index(k)) == &arr[k] && &gsl::at(ca, gsl::index(k)) == &arr[k], "at", "at " + std::to_string(k) + " of 9");
	const std::initializer_list<int> il = {5, 4, 3, 2}; check(gsl::at(il, gsl::index(k % 4)) == 5 - int(k % 4), "at", "at of a list " + std::to_string(k % 4));
	uint32_t old = v[i]; gsl::at(v, gsl::index(i)) = old + 1; check(v[i] == old + 1, "at", "writing through at");
	const gsl::index o = outside(r, n), o9 = outside(r, 9), o4 = outside(r, 4);
	switch (r.below(7)) {
		case 0: mustEnd("at " + std::to_string(o) + " of a vector of " + std::to_string(n), [&] { volatile uint32_t x = gsl::at(v, o); (void)x; }); break;
		case 1: mustEnd("at " + std::to_string(o) + " of a deque of " + std::to_string(n), [&] { volatile uint32_t x = gsl::at(q, o); (void)x; }); break;
		case 2: mustEnd("at " + std::to_string(o) + " of a string of " + std::to_string(n), [&] { volatile char x = gsl::at(s, o); (void)x; }); break;
		case 3: mustEnd("at " + std::to_string(o) + " of a span of " + std::to_string(n), [&] { volatile uint32_t x = gsl::at(sp, o); (void)x; }); break;
		case 4: mustEnd("at " + std::to_string(o9) + " of an array of 9", [&] { volatile uint16_t x = gsl::at(raw, o9); (void)x; }); break;
		case 5: mustEnd("at " + std::to_string(o9) + " of a std::array of 9", [&] { volatile uint16_t x = gsl::at(arr, o9); (void)x; }); break;
		default: mustEnd("at " + std::to_string(o4) + " of a list of 4", [&] { volatile int x = gsl::at(il, o4); (void)x; }); break;
	}
}

// --- copy, make_span ------------------------------------------------------------------------------------------------------------
struct Metre { int v = 0; int writes = 0; Metre &operator=(int x) { v = x; ++writes; return *this; } };    // assigned from something else, and remembers it
// every element is assigned, whatever the two types, and nothing behind them is touched
template <class S, class D> static void copyOf(Rng &r, const char *what) {
	const size_t n = r.chance(4) ? 20000 : size_t(r.below(70)), more = size_t(r.below(4)), skew = size_t(r.below(3));
	std::vector<S> a(n + skew); for (auto &x : a) x = S(int(r.below(2000)) - (std::is_signed<S>::value ? 1000 : 0));
	const size_t m = n + more + skew; std::unique_ptr<D[]> d(new D[m + 1]); for (size_t i = 0; i < m; ++i) d[i] = D(77);
	gsl::copy(gsl::span<const S>(a.data() + skew, n), gsl::span<D>(d.get() + skew, n + more));
	bool ok = true; for (size_t i = 0; i < m; ++i) ok = ok && d[i] == (i >= skew && i < skew + n ? static_cast<D>(a[i]) : D(77));
	check(ok, "copy", std::string("copy of ") + what + " " + std::to_string(n) + " into " + std::to_string(n + more));
	if (n && r.chance(25)) mustEnd(std::string("copy of ") + what + " " + std::to_string(n) + " into " + std::to_string(n - 1), [&] { gsl::copy(gsl::span<const S>(a.data(), n), gsl::span<D>(d.get(), n - 1)); });
}
static void copyTypes(Rng &r) {
	switch (r.below(12)) {
		case 0: copyOf<int32_t, float>(r, "int32_t to float"); break;
		case 1: copyOf<float, int32_t>(r, "float to int32_t"); break;
		case 2: copyOf<int64_t, double>(r, "int64_t to double"); break;
		case 3: copyOf<double, int16_t>(r, "double to int16_t"); break;
		case 4: copyOf<int16_t, uint16_t>(r, "int16_t to uint16_t"); break;
		case 5: copyOf<int32_t, int64_t>(r, "int32_t to int64_t"); break;
		case 6: copyOf<uint64_t, uint8_t>(r, "uint64_t to uint8_t"); break;
		case 7: copyOf<uint8_t, bool>(r, "uint8_t to bool"); break;
		case 8: copyOf<double, double>(r, "double"); break;
		default: break;
	}
	std::vector<std::string> a(size_t(r.below(20))), d(a.size() + 2, "untouched"); for (auto &x : a) x = std::string(size_t(r.below(60)), char('a' + r.below(26)));
	gsl::copy(gsl::span<const std::string>(a), gsl::span<std::string>(d)); bool ok = true; for (size_t i = 0; i < d.size(); ++i) ok = ok && d[i] == (i < a.size() ? a[i] : "untouched"); check(ok, "copy", "copy of strings " + std::to_string(a.size()));
	std::vector<const char *> c(a.size()); for (size_t i = 0; i < c.size(); ++i) c[i] = a[i].c_str();
	std::vector<std::string> e(c.size()); gsl::copy(gsl::span<const char *>(c), gsl::span<std::string>(e)); check(e == a, "copy", "copy of literals to strings " + std::to_string(a.size()));
	int from[4] = {4, 3, 2, 1}; Metre to[5]; gsl::copy(gsl::span<int, 4>(from), gsl::span<Metre>(to)); ok = true; for (int i = 0; i < 5; ++i) ok = ok && to[i].v == (i < 4 ? from[i] : 0) && to[i].writes == (i < 4); check(ok, "copy", "copy by a conversion assignment");
	std::vector<std::shared_ptr<int>> sp(3, std::make_shared<int>(5)), sq(3); gsl::copy(gsl::span<std::shared_ptr<int>>(sp), gsl::span<std::shared_ptr<int>>(sq)); check(sp[0].use_count() == 6 && sq[2] == sp[0], "copy", "copy of shared pointers");
}
static void copies(Rng &r) {
	copyTypes(r);
	const size_t n = size_t(r.below(60)), more = size_t(r.below(5));
	std::vector<uint8_t> a(n); for (auto &x : a) x = uint8_t(r.u64());
	std::vector<uint32_t> d(n + more, 0xDEADBEEF);
	gsl::copy(gsl::span<const uint8_t>(a), gsl::span<uint32_t>(d));
	bool ok = true; for (size_t i = 0; i < d.size(); ++i) ok = ok && d[i] == (i < n ? uint32_t(a[i]) : 0xDEADBEEF);
	check(ok, "copy", "copy of " + std::to_string(n) + " widened into " + std::to_string(n + more));
	std::array<uint8_t, 5> s5 = {{1, 2, 3, 4, 5}}; uint8_t t7[7] = {9, 9, 9, 9, 9, 9, 9};
	gsl::copy(gsl::span<uint8_t, 5>(s5), gsl::span<uint8_t, 7>(t7)); ok = true; for (int i = 0; i < 7; ++i) ok = ok && t7[i] == (i < 5 ? i + 1 : 9); check(ok, "copy", "copy of fixed extents");
	if (n) { std::vector<uint32_t> less(n - 1 - size_t(r.below(n))); mustEnd("copy of " + std::to_string(n) + " into " + std::to_string(less.size()), [&] { gsl::copy(gsl::span<uint8_t>(a), gsl::span<uint32_t>(less)); }); }
	auto m = gsl::make_span(a); auto mp = gsl::make_span(a.data(), n); auto mr = gsl::make_span(a.data(), a.data() + n); const std::vector<uint8_t> &ca = a; auto mc = gsl::make_span(ca); auto mf = gsl::make_span(t7);
	check(m.size() == n && mp.size() == n && mr.size() == n && mc.size() == n && mf.size() == 7 && mf.data() == t7 && (!n || (m.data() == a.data() && mp.data() == a.data() && mr.data() == a.data() && mc.data() == a.data())), "make-span", "make_span of " + std::to_string(n));
	gsl::czstring z = "text"; check(std::string(z) == "text" && std::is_same<gsl::zstring, char *>::value && std::is_same<gsl::cu32zstring, const char32_t *>::value, "zstring", "zstring");
}

// --- byte ------------------------------------------------------------------------------------------------------------------------
static void bytes(Rng &r) {
	using B = gsl::impl::byte;
	auto is = [](B b, unsigned v) { return static_cast<unsigned char>(b) == static_cast<unsigned char>(v); };
	const unsigned a = unsigned(r.below(256)), b = unsigned(r.below(256)); const unsigned s = unsigned(r.below(8));
	const B x = gsl::to_byte(static_cast<unsigned char>(a)), y = gsl::to_byte(static_cast<unsigned char>(b));
	bool ok = is(x, a) && is(x | y, a | b) && is(x & y, a & b) && is(x ^ y, a ^ b) && is(~x, ~a) && is(x << s, a << s) && is(x >> s, a >> s) && is(x << int(s), a << s) && is(x >> long(s), a >> s);
	B t = x; t |= y; ok = ok && is(t, a | b); t = x; t &= y; ok = ok && is(t, a & b); t = x; t ^= y; ok = ok && is(t, a ^ b); t = x; t <<= s; ok = ok && is(t, a << s); t = x; t >>= s; ok = ok && is(t, a >> s);
	t = x; ok = ok && &(t |= y) == &t && is(gsl::to_byte<200>(), 200) && is(gsl::to_byte<0>(), 0) && sizeof(B) == 1;
	ok = ok && gsl::to_integer<int>(x) == int(a) && gsl::to_integer<uint64_t>(x) == a && gsl::to_integer<signed char>(x) == static_cast<signed char>(a);
	check(ok, "byte", "byte operations on " + std::to_string(a) + " and " + std::to_string(b) + " shift " + std::to_string(s));
	float f = float(r.u64()); auto fb = gsl::as_bytes(gsl::span<float>(&f, 1)); const unsigned char *raw = reinterpret_cast<const unsigned char *>(&f); ok = fb.size() == sizeof f; for (size_t i = 0; ok && i < fb.size(); ++i) ok = is(fb[i], raw[i]); check(ok, "byte", "as_bytes of a float");
	auto fw = gsl::as_writable_bytes(gsl::span<float>(&f, 1)); float g = float(int(r.below(100000))); const unsigned char *graw = reinterpret_cast<const unsigned char *>(&g); for (size_t i = 0; i < fw.size(); ++i) fw[i] = B(graw[i]); check(f == g, "byte", "a float written through as_writable_bytes");
}

// --- Expects, Ensures --------------------------------------------------------------------------------------------------------------
static void contracts(Rng &r) {
	int n = 0; const bool t = true;
	if (t) Expects(++n == 1); else n = 50;
	if (t) Ensures(++n == 2); else n = 50;
	check(n == 2, "contract", "a condition is evaluated once");
	const unsigned v = unsigned(r.below(10));
	struct Truthy { explicit operator bool() const { return true; } }; Expects(Truthy()); Ensures(v < 10 && "text");
	if (r.chance(50)) mustEnd("Expects(false)", [&] { Expects(v > 20); }); else mustEnd("Ensures(false)", [&] { Ensures(v > 20); });
	mustEnd("Expects(null pointer)", [&] { int *q = nullptr; Expects(q); });
	mustEnd("Expects inside a noexcept function with a handler around it", [&] { try { Expects(v == 77); } catch (...) { } });
}

int main(int argc, char **argv) {
	uint64_t cases = 100, from = 0, count = ~0ull;
	for (int i = 1; i < argc; ++i) {
		const std::string o = argv[i];
		if (o == "--mode") ++i;
		else if (o == "--seed") g_seed = strtoull(argv[++i], nullptr, 0);
		else if (o == "--cases") cases = strtoull(argv[++i], nullptr, 0);
		else if (o == "--from") from = strtoull(argv[++i], nullptr, 0);
		else if (o == "--count") count = strtoull(argv[++i], nullptr, 0);
		else if (o == "--status") {
			const int fd = open(argv[++i], O_RDWR | O_CREAT, 0600);
			if (fd < 0 || ftruncate(fd, 8) != 0) return 3;
			g_status = static_cast<uint64_t *>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); close(fd);
		} else return 3;
	}
	int bad = 0;
	for (uint64_t c = from; c < cases && c - from < count && bad < 4; ++c) {
		g_case = c; if (g_status) *g_status = c + 1;
		Rng r(g_seed * 0x9E3779B97F4A7C15ull + c * 0xD6E8FEB86659FD93ull); r.u64();
		++g_stat["cases"];
		try { notNull(r); } catch (const Violated &) { ++bad; }
		try { finals(r); for (int k = 0; k < 8; ++k) narrowing(r); } catch (const Violated &) { ++bad; }
		try { access(r); copies(r); } catch (const Violated &) { ++bad; }
		try { for (int k = 0; k < 8; ++k) bytes(r); contracts(r); } catch (const Violated &) { ++bad; }
	}
	g_stat["distinct"] = g_distinct.size();
	for (auto &s : g_stat) printf("STAT %s %" PRIu64 "\n", s.first.c_str(), s.second);
	printf("SAMPLE %s results equal plain C++, %s calls outside a contract ended the program\n", std::to_string(g_stat["results_compared"]).c_str(), std::to_string(g_stat["calls_outside_contract"]).c_str());
	return g_viol ? 1 : 0;
}

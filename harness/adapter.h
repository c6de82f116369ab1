// Implements IHash for a concrete class. Included only by plug.cpp, after the header under test.
#pragma once
#include <array>
#include <cstring>
#include <functional>
#include <new>
#include <type_traits>
#include "iface.h"

static inline void scrub(void *p, size_t n, int fill) {
	std::memset(p, fill, n);
	asm volatile("" : : "r"(p) : "memory");
}

template <class H> struct BaseOf { template <class U> static typename U::BaseType t(int); template <class U> static U t(...); typedef decltype(t<H>(0)) type; };

template <class H, class = void> struct HasArray : std::false_type {};
template <class H> struct HasArray<H, decltype(void(std::declval<const H &>().toArray()))> : std::true_type {};

// element types wider than any integer: what counts is the bytes they occupy
struct W3 { uint8_t b[3]; };
struct W12 { uint8_t b[12]; };
struct W40 { uint8_t b[40]; };
struct W1000 { uint8_t b[1000]; };

template <class H, bool Tuple> struct Feeder;
template <class H> struct Feeder<H, false> {
	template <class... A> static auto f(H &h, A &&...a) -> decltype(h.addData(std::forward<A>(a)...)) { return h.addData(std::forward<A>(a)...); }
	static auto brace(H &h, const uint8_t *p, size_t n) -> decltype(h.addData(p, n)) { return h.addData({p, n}); }
};
template <class H> struct Feeder<H, true> {
	template <class... A> static auto f(H &h, A &&...a) -> decltype(h.nextData(std::forward<A>(a)...)) { return h.nextData(std::forward<A>(a)...); }
	static auto brace(H &h, const uint8_t *p, size_t n) -> decltype(h.nextData(p, n)) { return h.nextData({p, n}); }
};

template <class H, bool Tuple> class Adapter final : public IHash {
		typedef typename BaseOf<H>::type Base;
		typedef Feeder<H, Tuple> F;
		void *m_raw;
		H *m;
		bool m_inPlace = false;
		struct Tag {};
		Adapter(Tag, int fill) : m_raw(::operator new(sizeof(H))), m(nullptr) { scrub(m_raw, sizeof(H), fill); }

		template <class T, size_t N> bool arr(const uint8_t *p, bool &self) {
			if (m_inPlace) {
				const void *q = &F::f(*m, *reinterpret_cast<const T (*)[N]>(p));
				self = (q == static_cast<const void *>(static_cast<Base *>(m)));
				return true;
			}
			struct Box { T a[N]; };
			std::unique_ptr<Box> b(new Box);
			std::memcpy(b->a, p, sizeof(T) * N);
			const void *r = &F::f(*m, static_cast<const T (&)[N]>(b->a));
			self = (r == static_cast<const void *>(static_cast<Base *>(m)));
			const bool same = std::memcmp(b->a, p, sizeof(T) * N) == 0;
			scrub(b->a, sizeof(T) * N, 0x5C);
			if (!same) throw InputModified();
			return true;
		}
		template <class T> bool arrs(const uint8_t *p, size_t n, bool &self) {
			switch (n) {
				case 1: return arrIf<T, 1>(p, self);    case 2: return arrIf<T, 2>(p, self);    case 4: return arrIf<T, 4>(p, self);
				case 7: return arrIf<T, 7>(p, self);    case 8: return arrIf<T, 8>(p, self);    case 16: return arrIf<T, 16>(p, self);
				case 33: return arrIf<T, 33>(p, self);  case 56: return arrIf<T, 56>(p, self);  case 63: return arrIf<T, 63>(p, self);
				case 64: return arrIf<T, 64>(p, self);  case 65: return arrIf<T, 65>(p, self);  case 128: return arrIf<T, 128>(p, self);
				case 12: return arrIf<T, 12>(p, self);  case 40: return arrIf<T, 40>(p, self);  case 120: return arrIf<T, 120>(p, self); case 240: return arrIf<T, 240>(p, self);
				case 129: return arrIf<T, 129>(p, self); case 136: return arrIf<T, 136>(p, self); case 168: return arrIf<T, 168>(p, self);
				case 400: return arrIf<T, 400>(p, self); case 1000: return arrIf<T, 1000>(p, self);
				default: return false;
			}
		}
		template <class T, size_t N> typename std::enable_if<(N % sizeof(T) == 0), bool>::type arrIf(const uint8_t *p, bool &self) { return arr<T, N / sizeof(T)>(p, self); }
		template <class T, size_t N> typename std::enable_if<(N % sizeof(T) != 0), bool>::type arrIf(const uint8_t *, bool &) { return false; }

		template <class T> bool span(const uint8_t *p, size_t n, bool &self) {      // Span<T>, T possibly const
			typedef typename std::remove_const<T>::type U;
			if (n % sizeof(U)) return false;
			if (m_inPlace) {
				const typename Base::template Span<T> t(reinterpret_cast<T *>(const_cast<uint8_t *>(p)), n / sizeof(U));
				const void *q = &F::f(*m, t);
				self = (q == static_cast<const void *>(static_cast<Base *>(m)));
				return true;
			}
			std::unique_ptr<U[]> b(new U[n / sizeof(U)]);
			if (n) std::memcpy(b.get(), p, n);
			const typename Base::template Span<T> s(b.get(), n / sizeof(U));
			const void *r = &F::f(*m, s);
			self = (r == static_cast<const void *>(static_cast<Base *>(m)));
			const bool same = n == 0 || std::memcmp(b.get(), p, n) == 0;
			if (n) scrub(b.get(), n, 0x5C);
			if (!same) throw InputModified();
			return true;
		}
		bool vec(const uint8_t *p, size_t n, bool &self) {                              // a container, converted to Span<const Byte>
			if (m_inPlace) return false;
			std::vector<uint8_t> b(p, p + n);
			const void *r = &F::f(*m, static_cast<const std::vector<uint8_t> &>(b));
			self = (r == static_cast<const void *>(static_cast<Base *>(m)));
			return true;
		}
		template <size_t N> bool stdArray(const uint8_t *p, bool &self) {
			if (m_inPlace) return false;
			std::unique_ptr<std::array<uint8_t, N>> b(new std::array<uint8_t, N>);
			std::memcpy(b->data(), p, N);
			const void *r = &F::f(*m, *b);
			self = (r == static_cast<const void *>(static_cast<Base *>(m)));
			return true;
		}
		template <size_t N> bool fixedSpan16(const uint8_t *p, bool &self) {
			std::unique_ptr<uint16_t[]> b(new uint16_t[N / 2]);
			if (m_inPlace) return false;
			std::memcpy(b.get(), p, N);
			const typename Base::template Span<uint16_t, N / 2> s(b.get(), N / 2);
			const typename Base::template Span<uint16_t> d = s;
			const void *r = &F::f(*m, d);
			self = (r == static_cast<const void *>(static_cast<Base *>(m)));
			scrub(b.get(), N, 0x5C);
			return true;
		}
		template <size_t N> bool fixedSpan(const uint8_t *p, bool &self) {
			if (m_inPlace) {
				const typename Base::template Span<const uint8_t, N> t(p, N);
				const void *q = &F::f(*m, t);
				self = (q == static_cast<const void *>(static_cast<Base *>(m)));
				return true;
			}
			std::unique_ptr<uint8_t[]> b(new uint8_t[N]);
			std::memcpy(b.get(), p, N);
			const typename Base::template Span<const uint8_t, N> s(b.get(), N);
			const void *r = &F::f(*m, s);
			self = (r == static_cast<const void *>(static_cast<Base *>(m)));
			scrub(b.get(), N, 0x5C);
			return true;
		}
		template <class U> typename std::enable_if<HasArray<U>::value, bool>::type getArray(const U &h, Bytes &out) const { const auto a = h.toArray(); out.assign(a.begin(), a.end()); return true; }
		template <class U> typename std::enable_if<!HasArray<U>::value, bool>::type getArray(const U &, Bytes &) const { return false; }
		template <class T> void num(std::vector<Num> &o, const char *t) const { o.push_back(Num{t, unsigned(sizeof(T)), static_cast<unsigned __int128>(static_cast<T>(*m))}); }

		template <class D, class S> static typename std::enable_if<std::is_assignable<D &, S>::value, bool>::type asg(D &d, S &&s) { d = std::forward<S>(s); return true; }
		template <class D, class S> static typename std::enable_if<!std::is_assignable<D &, S>::value, bool>::type asg(D &, S &&) { return false; }
		template <class D> static typename std::enable_if<std::is_move_assignable<D>::value, bool>::type swp(D &a, D &b) { std::swap(a, b); return true; }
		template <class D> static typename std::enable_if<!std::is_move_assignable<D>::value, bool>::type swp(D &, D &) { return false; }

	public:
		struct InputModified {};
		template <class... A> static IHash *create(int fill, A &&...a) {
			Adapter *x = new Adapter(Tag(), fill);
			try { x->m = ::new (x->m_raw) H(std::forward<A>(a)...); }
			catch (...) { delete x; throw; }
			return x;
		}
		Adapter(const Adapter &) = delete;
		~Adapter() override {
			if (m) m->~H();
			scrub(m_raw, sizeof(H), 0xDD);
			::operator delete(m_raw);
		}
		void inPlace(bool on) override { m_inPlace = on; }
		void reset() override { m->reset(); }
		bool add(int ov, const uint8_t *p, size_t n, bool &self) override {
			try { return addIn(ov, p, n, self); }
			catch (const InputModified &) { self = false; throw std::string("input buffer modified by the call"); }
		}
		bool addIn(int ov, const uint8_t *p, size_t n, bool &self) {
			const void *r = nullptr;
			switch (ov) {
				case OV_PTR: r = &F::f(*m, static_cast<const void *>(p), n); break;
				case OV_BASEREF_PTR: r = &Feeder<Base, Tuple>::f(static_cast<Base &>(*m), reinterpret_cast<const char *>(p), n); break;
				case OV_BRACE: r = &F::brace(*m, p, n); break;
				case OV_SPAN_CBYTE: return span<const uint8_t>(p, n, self);
				case OV_SPAN_BYTE: return span<uint8_t>(p, n, self);
				case OV_SPAN_CHAR: return span<char>(p, n, self);
				case OV_SPAN_CCHAR: return span<const char>(p, n, self);
				case OV_SPAN_U16: return span<uint16_t>(p, n, self);
				case OV_SPAN_CU32: return span<const uint32_t>(p, n, self);
				case OV_SPAN_U64: return span<uint64_t>(p, n, self);
				case OV_ARR_BYTE: return arrs<uint8_t>(p, n, self);
				case OV_ARR_CHAR: return arrs<char>(p, n, self);
				case OV_ARR_U16: return arrs<int16_t>(p, n, self);
				case OV_ARR_U32: return arrs<uint32_t>(p, n, self);
				case OV_ARR_U64: return arrs<uint64_t>(p, n, self);
				case OV_SPAN_FIXED:
					switch (n) { case 1: return fixedSpan<1>(p, self); case 16: return fixedSpan<16>(p, self); case 64: return fixedSpan<64>(p, self); case 129: return fixedSpan<129>(p, self); case 400: return fixedSpan<400>(p, self); default: return false; }
				case OV_SPAN_W3: return span<W3>(p, n, self);
				case OV_SPAN_CW12: return span<const W12>(p, n, self);
				case OV_SPAN_W40: return span<W40>(p, n, self);
				case OV_SPAN_BIG: return span<W1000>(p, n, self);
				case OV_SPAN_SCHAR: return span<signed char>(p, n, self);
				case OV_ARR_W12: return arrs<W12>(p, n, self);
				case OV_ARR_W40: return arrs<W40>(p, n, self);
				case OV_ARR_2D: return arrs<uint8_t[4]>(p, n, self);
				case OV_VECTOR: return vec(p, n, self);
				case OV_STDARRAY:
					switch (n) { case 1: return stdArray<1>(p, self); case 7: return stdArray<7>(p, self); case 64: return stdArray<64>(p, self); case 129: return stdArray<129>(p, self); case 400: return stdArray<400>(p, self); default: return false; }
				case OV_SPAN_FIXED_U16:
					switch (n) { case 2: return fixedSpan16<2>(p, self); case 16: return fixedSpan16<16>(p, self); case 64: return fixedSpan16<64>(p, self); case 136: return fixedSpan16<136>(p, self); case 1000: return fixedSpan16<1000>(p, self); default: return false; }
				default: return false;
			}
			self = (r == static_cast<const void *>(static_cast<Base *>(m)));
			return true;
		}
		bool finalize() override { const void *r = &m->finalize(); return r == static_cast<const void *>(static_cast<Base *>(m)); }
		std::string toString() const override { return static_cast<const H *>(m)->toString(); }
		Bytes toVector() const override { return static_cast<const H *>(m)->toVector(); }
		bool toArray(Bytes &out) const override { return getArray(*static_cast<const H *>(m), out); }
		void nums(std::vector<Num> &o) const override {
			num<unsigned char>(o, "unsigned char"); num<unsigned short>(o, "unsigned short"); num<unsigned int>(o, "unsigned int");
			num<unsigned long>(o, "unsigned long"); num<unsigned long long>(o, "unsigned long long"); num<char16_t>(o, "char16_t"); num<char32_t>(o, "char32_t");
#ifndef __STRICT_ANSI__
			num<unsigned __int128>(o, "unsigned __int128");
#endif
		}
		size_t stdHash() const override { return std::hash<H>()(*m); }
		size_t stdHashBase() const override { return std::hash<Base>()(*m); }
		bool eq(const IHash &o) const override { return *static_cast<const H *>(m) == *static_cast<const H *>(static_cast<const Adapter &>(o).m); }
		bool ne(const IHash &o) const override { return *static_cast<const H *>(m) != *static_cast<const H *>(static_cast<const Adapter &>(o).m); }
		IHash *dup(int kind, int fill) override {
			switch (kind) {
				case CK_COPY: return create(fill, static_cast<const H &>(*m));
				case CK_MOVE: return create(fill, static_cast<H &&>(*m));
				case CK_BASE_COPY: return create(fill, static_cast<const Base &>(*m));
				default: return create(fill, static_cast<Base &&>(*m));
			}
		}
		bool assign(int kind, IHash &from) override {
			H &s = *static_cast<Adapter &>(from).m;
			switch (kind) {
				case CK_COPY: return asg(*m, static_cast<const H &>(s));
				case CK_MOVE: return asg(*m, static_cast<H &&>(s));
				case CK_BASE_COPY: return asg(*m, static_cast<const Base &>(s));
				default: return asg(*m, static_cast<Base &&>(s));
			}
		}
		bool swapWith(IHash &o) override { return swp(*m, *static_cast<Adapter &>(o).m); }
		bool flat() const override { return std::is_trivially_copyable<H>::value; }
		size_t bytesOfObject() const override { return sizeof(H); }
		const uint8_t *rawObject() const override { return static_cast<const uint8_t *>(m_raw); }
};

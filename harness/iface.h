// Type-erased view of one library class, so that one engine drives every algorithm.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Params {
	Bytes key;              // SipHash
	int len = 0;            // SHAKE, cSHAKE, TupleHash: digest length in bytes
	std::string name;       // cSHAKE
	std::string custom;     // cSHAKE, TupleHash
};

enum class PK { None, Key, Len, LenNameCustom, LenCustom };

// How input is handed over; every overload the API declares.
enum Ov {
	OV_PTR, OV_SPAN_CBYTE, OV_SPAN_BYTE, OV_SPAN_CHAR, OV_SPAN_CCHAR, OV_SPAN_U16, OV_SPAN_CU32, OV_SPAN_U64,
	OV_ARR_BYTE, OV_ARR_CHAR, OV_ARR_U16, OV_ARR_U32, OV_ARR_U64, OV_BRACE, OV_SPAN_FIXED, OV_BASEREF_PTR,
	OV_SPAN_W3, OV_SPAN_CW12, OV_SPAN_W40, OV_ARR_W12, OV_ARR_W40, OV_ARR_2D, OV_SPAN_SCHAR, OV_SPAN_BIG, OV_VECTOR, OV_STDARRAY, OV_SPAN_FIXED_U16, OV_COUNT
};
const char *ovName(int);

// Copy / move / assignment forms
enum CopyKind { CK_COPY, CK_MOVE, CK_BASE_COPY, CK_BASE_MOVE, CK_COUNT };

struct Num { const char *type; unsigned bytes; unsigned __int128 value; };

class IHash {
	public:
		virtual ~IHash() {}
		virtual void inPlace(bool on) = 0;                  // hand over the given memory itself, not a copy of it
		virtual void reset() = 0;
		// false when that overload cannot express this length; `self` reports whether *this was returned
		virtual bool add(int ov, const uint8_t *p, size_t n, bool &self) = 0;
		virtual bool finalize() = 0;                        // returns: reference returned is *this
		virtual std::string toString() const = 0;
		virtual Bytes toVector() const = 0;
		virtual bool toArray(Bytes &out) const = 0;         // false: class offers none
		virtual void nums(std::vector<Num> &out) const = 0;
		virtual size_t stdHash() const = 0;                 // std::hash<the public alias>
		virtual size_t stdHashBase() const = 0;             // std::hash<the underlying class>
		virtual bool eq(const IHash &o) const = 0;
		virtual bool ne(const IHash &o) const = 0;
		virtual IHash *dup(int kind, int fill) = 0;         // construct a new object from this one
		virtual bool assign(int kind, IHash &from) = 0;     // false: class offers no such assignment
		virtual bool swapWith(IHash &o) = 0;                // std::swap; false: not swappable
		virtual bool flat() const = 0;                      // trivially copyable: its bytes are its value
		virtual size_t bytesOfObject() const = 0;
		virtual const uint8_t *rawObject() const = 0;
};

struct Algo {
	std::string name;        // public alias
	std::string ref;         // reference to use
	int block;               // bytes absorbed per compression (for length selection only)
	int digest;              // digest length, -1: Params::len
	PK pk;
	bool tuple;              // add() adds one tuple element
	std::function<IHash *(const Params &, int fill)> make;
};
const std::vector<Algo> &algos();     // provided by plug.cpp, one translation unit per header
const char *headerName();

// One translation unit per library header: -DVH_HEADER='"md5.h"' -DVH_md5.
// The header under test comes first, so that it must be self-contained.
#include VH_HEADER
#include "adapter.h"

#define NS Chocobo1::
#define PLAIN(cls, ref, block, dig) v.push_back(Algo{#cls, ref, block, dig, PK::None, false, [](const Params &, int f) { return Adapter<NS cls, false>::create(f); }})
#define LEN(cls, ref, block) v.push_back(Algo{#cls, ref, block, -1, PK::Len, false, [](const Params &p, int f) { return Adapter<NS cls, false>::create(f, p.len); }})

// the parameter buffers die right after construction: an object must not keep referring to them
struct Gone {
	std::unique_ptr<std::string> a, b;
	explicit Gone(const Params &p) : a(new std::string(p.name)), b(new std::string(p.custom)) {}
	~Gone() { for (char &c : *a) c = 0x5C; for (char &c : *b) c = 0x5C; }
};
const char *headerName() { return VH_HEADER; }

const std::vector<Algo> &algos() {
	static const std::vector<Algo> list = [] {
		std::vector<Algo> v;
#if defined(VH_blake1_224)
		PLAIN(Blake1_224, "blake224", 64, 28);
#elif defined(VH_blake1_256)
		PLAIN(Blake1_256, "blake256", 64, 32);
#elif defined(VH_blake1_384)
		PLAIN(Blake1_384, "blake384", 128, 48);
#elif defined(VH_blake1_512)
		PLAIN(Blake1_512, "blake512", 128, 64);
#elif defined(VH_blake2)
		PLAIN(Blake2, "blake2b", 128, 64);
#elif defined(VH_blake2s)
		PLAIN(Blake2s, "blake2s", 64, 32);
#elif defined(VH_crc_32)
		PLAIN(CRC_32, "crc32", 16, 4);
#elif defined(VH_cshake)
		v.push_back(Algo{"CSHAKE_128", "cshake128", 168, -1, PK::LenNameCustom, false, [](const Params &p, int f) { Gone g(p); return Adapter<NS CSHAKE_128, false>::create(f, p.len, *g.a, *g.b); }});
		v.push_back(Algo{"CSHAKE_256", "cshake256", 136, -1, PK::LenNameCustom, false, [](const Params &p, int f) { Gone g(p); return Adapter<NS CSHAKE_256, false>::create(f, p.len, *g.a, *g.b); }});
#elif defined(VH_fnv)
		PLAIN(FNV32_0, "fnv32_0", 1, 4); PLAIN(FNV32_1, "fnv32_1", 1, 4); PLAIN(FNV32_1a, "fnv32_1a", 1, 4);
		PLAIN(FNV64_0, "fnv64_0", 1, 8); PLAIN(FNV64_1, "fnv64_1", 1, 8); PLAIN(FNV64_1a, "fnv64_1a", 1, 8);
#elif defined(VH_has_160)
		PLAIN(HAS_160, "has160", 64, 20);
#elif defined(VH_md2)
		PLAIN(MD2, "md2", 16, 16);
#elif defined(VH_md4)
		PLAIN(MD4, "md4", 64, 16);
#elif defined(VH_md5)
		PLAIN(MD5, "md5", 64, 16);
#elif defined(VH_ripemd_128)
		PLAIN(RIPEMD_128, "rmd128", 64, 16);
#elif defined(VH_ripemd_160)
		PLAIN(RIPEMD_160, "rmd160", 64, 20);
#elif defined(VH_ripemd_256)
		PLAIN(RIPEMD_256, "rmd256", 64, 32);
#elif defined(VH_ripemd_320)
		PLAIN(RIPEMD_320, "rmd320", 64, 40);
#elif defined(VH_sha1)
		PLAIN(SHA1, "sha1", 64, 20);
#elif defined(VH_sha2_224)
		PLAIN(SHA2_224, "sha224", 64, 28);
#elif defined(VH_sha2_256)
		PLAIN(SHA2_256, "sha256", 64, 32);
#elif defined(VH_sha2_384)
		PLAIN(SHA2_384, "sha384", 128, 48);
#elif defined(VH_sha2_512)
		PLAIN(SHA2_512, "sha512", 128, 64);
#elif defined(VH_sha2_512_224)
		PLAIN(SHA2_512_224, "sha512_224", 128, 28);
#elif defined(VH_sha2_512_256)
		PLAIN(SHA2_512_256, "sha512_256", 128, 32);
#elif defined(VH_sha3)
		PLAIN(SHA3_224, "sha3_224", 144, 28); PLAIN(SHA3_256, "sha3_256", 136, 32); PLAIN(SHA3_384, "sha3_384", 104, 48); PLAIN(SHA3_512, "sha3_512", 72, 64);
		LEN(SHAKE_128, "shake128", 168); LEN(SHAKE_256, "shake256", 136);
#elif defined(VH_siphash)
		v.push_back(Algo{"SipHash", "siphash", 8, 8, PK::Key, false, [](const Params &p, int f) {
			// the key buffer dies right after construction: the object must not keep referring to it
			std::unique_ptr<uint8_t[]> k(new uint8_t[16]);
			std::memcpy(k.get(), p.key.data(), 16);
			IHash *h = Adapter<NS SipHash, false>::create(f, NS SipHash::Span<const uint8_t>(k.get(), 16));
			scrub(k.get(), 16, 0x5C);
			return h; }});
#elif defined(VH_sm3)
		PLAIN(SM3, "sm3", 64, 32);
#elif defined(VH_tiger)
		PLAIN(Tiger1_128, "tiger1_128", 64, 16); PLAIN(Tiger1_160, "tiger1_160", 64, 20); PLAIN(Tiger1_192, "tiger1_192", 64, 24);
		PLAIN(Tiger2_128, "tiger2_128", 64, 16); PLAIN(Tiger2_160, "tiger2_160", 64, 20); PLAIN(Tiger2_192, "tiger2_192", 64, 24);
#elif defined(VH_tuple_hash)
		v.push_back(Algo{"TupleHash_128", "tuple128", 168, -1, PK::LenCustom, true, [](const Params &p, int f) { Gone g(p); return Adapter<NS TupleHash_128, true>::create(f, p.len, *g.b); }});
		v.push_back(Algo{"TupleHash_256", "tuple256", 136, -1, PK::LenCustom, true, [](const Params &p, int f) { Gone g(p); return Adapter<NS TupleHash_256, true>::create(f, p.len, *g.b); }});
#elif defined(VH_whirlpool)
		PLAIN(Whirlpool, "whirlpool", 64, 64);
#else
#error "unknown header"
#endif
		return v;
	}();
	return list;
}

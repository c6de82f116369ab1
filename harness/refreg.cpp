#include "refreg.h"
#include "../ref/ref.h"
#include <stdexcept>
#include <cstdio>
using namespace ref;
void refPreload(uint64_t bytes) { ref::g_preload = bytes; }
std::string toHex(const ::Bytes &b) { return ref::hex(b); }
::Bytes refDigestRaw(const std::string &r, const uint8_t *p, uint64_t n) {
#define A(x) if (r == #x) return x(p, n);
	A(md2) A(md4) A(md5) A(sha1) A(sha224) A(sha256) A(sha384) A(sha512) A(sha512_224) A(sha512_256)
	A(rmd128) A(rmd160) A(rmd256) A(rmd320) A(has160) A(sm3) A(whirlpool) A(blake224) A(blake256) A(blake384) A(blake512)
	A(blake2b) A(blake2s) A(crc32)
#undef A
	if (r == "fnv32_0") return fnv32(0, p, n);
	if (r == "fnv32_1") return fnv32(1, p, n);
	if (r == "fnv32_1a") return fnv32(2, p, n);
	if (r == "fnv64_0") return fnv64(0, p, n);
	if (r == "fnv64_1") return fnv64(1, p, n);
	if (r == "fnv64_1a") return fnv64(2, p, n);
	if (r == "tiger1_128") return tiger(1, 16, p, n);
	if (r == "tiger1_160") return tiger(1, 20, p, n);
	if (r == "tiger1_192") return tiger(1, 24, p, n);
	if (r == "tiger2_128") return tiger(0x80, 16, p, n);
	if (r == "tiger2_160") return tiger(0x80, 20, p, n);
	if (r == "tiger2_192") return tiger(0x80, 24, p, n);
	if (r == "sha3_224") return sha3(224, p, n);
	if (r == "sha3_256") return sha3(256, p, n);
	if (r == "sha3_384") return sha3(384, p, n);
	if (r == "sha3_512") return sha3(512, p, n);
	throw std::logic_error("no reference " + r);
}
::Bytes refDigest(const std::string &r, const Params &a, const std::vector<::Bytes> &items) {
	if (r == "tuple128" || r == "tuple256")
		return tuple_hash(r == "tuple128" ? 128 : 256, size_t(a.len), ::Bytes(a.custom.begin(), a.custom.end()), items);
	::Bytes cat;
	const ::Bytes *m = &cat;
	if (items.size() == 1) m = &items[0];
	else for (const ::Bytes &x : items) cat.insert(cat.end(), x.begin(), x.end());
	const uint8_t *p = m->data(); const uint64_t n = m->size();
	if (r == "siphash") return siphash(a.key.data(), p, n);
	if (r == "shake128") return shake(128, size_t(a.len), p, n);
	if (r == "shake256") return shake(256, size_t(a.len), p, n);
	if (r == "cshake128" || r == "cshake256")
		return cshake(r == "cshake128" ? 128 : 256, size_t(a.len), ::Bytes(a.name.begin(), a.name.end()), ::Bytes(a.custom.begin(), a.custom.end()), p, n);
	return refDigestRaw(r, p, n);
}
std::string refSelfTest() {
	struct K { const char *ref, *msg, *hex; };
	static const K k[] = {
		{"md2", "abc", "da853b0d3f88d99b30283a69e6ded6bb"}, {"md4", "abc", "a448017aaf21d8525fc10ae87aa6729d"}, {"md5", "abc", "900150983cd24fb0d6963f7d28e17f72"},
		{"sha1", "abc", "a9993e364706816aba3e25717850c26c9cd0d89d"}, {"sha224", "abc", "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7"},
		{"sha256", "abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"},
		{"sha384", "abc", "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7"},
		{"sha512", "abc", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"},
		{"sha512_224", "abc", "4634270f707b6a54daae7530460842e20e37ed265ceee9a43e8924aa"}, {"sha512_256", "abc", "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23"},
		{"rmd128", "abc", "c14a12199c66e4ba84636b0f69144c77"}, {"rmd160", "abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
		{"rmd256", "abc", "afbd6e228b9d8cbbcef5ca2d03e6dba10ac0bc7dcbe4680e1e42d2e975459b65"}, {"rmd320", "abc", "de4c01b3054f8930a79d09ae738e92301e5a17085beffdc1b8d116713e74f82fa942d64cdbc4682d"},
		{"has160", "abc", "975e810488cf2a3d49838478124afce4b1c78804"}, {"sm3", "abc", "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0"},
		{"tiger1_192", "abc", "2aab1484e8c158f2bfb8c5ff41b57a525129131c957b5f93"}, {"tiger2_192", "abc", "f68d7bc5af4b43a06e048d7829560d4a9415658bb0b1f3bf"},
		{"whirlpool", "abc", "4e2448a4c6f486bb16b6562c73b4020bf3043e3a731bce721ae1b303d97e6d4c7181eebdb6c57e277d0e34957114cbd6c797fc9d95d8b582d225292076d4eef5"},
		{"blake2b", "abc", "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"},
		{"blake2s", "abc", "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"},
		{"sha3_224", "abc", "e642824c3f8cf24ad09234ee7d3c766fc9a3a5168d0c94ad73b46fdf"}, {"sha3_256", "abc", "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"},
		{"sha3_384", "abc", "ec01498288516fc926459f58e2c6ad8df9b473cb0fc08c2596da7cf0e49be4b298d88cea927ac7f539f1edf228376d25"},
		{"sha3_512", "abc", "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0"},
		{"crc32", "123456789", "cbf43926"}, {"fnv32_1", "a", "050c5d7e"}, {"fnv32_1a", "a", "e40c292c"}, {"fnv64_1", "a", "af63bd4c8601b7be"}, {"fnv64_1a", "a", "af63dc4c8601ec8c"},
	};
	for (const K &x : k) {
		const std::string m = x.msg;
		const std::string g = hex(refDigestRaw(x.ref, reinterpret_cast<const uint8_t *>(m.data()), m.size()));
		if (g != x.hex) return std::string("reference self-test failed: ") + x.ref + " got " + g;
	}
	auto z = [](unsigned n) { return ::Bytes(n, 0); };
	const struct { const char *ref; unsigned n; const char *hex; } b[] = {     // BLAKE submission document: one zero byte; 72 / 144 zero bytes
		{"blake256", 1, "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87"}, {"blake256", 72, "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41"},
		{"blake224", 1, "4504cb0314fb2a4f7a692e696e487912fe3f2468fe312c73a5278ec5"}, {"blake224", 72, "f5aa00dd1cb847e3140372af7b5c46b4888d82c8c0a917913cfb5d04"},
		{"blake512", 1, "97961587f6d970faba6d2478045de6d1fabd09b61ae50932054d52bc29d31be4ff9102b9f69e2bbdb83be13d4b9c06091e5fa0b48bd081b634058be0ec49beb3"},
		{"blake512", 144, "313717d608e9cf758dcb1eb0f0c3cf9fc150b2d500fb33f51c52afc99d358a2f1374b8a38bba7974e7f6ef79cab16f22ce1e649d6e01ad9589c213045d545dde"},
		{"blake384", 1, "10281f67e135e90ae8e882251a355510a719367ad70227b137343e1bc122015c29391e8545b5272d13a7c2879da3d807"}, {"blake384", 144, "0b9845dd429566cdab772ba195d271effe2d0211f16991d766ba749447c5cde569780b2daa66c4b224a2ec2e5d09174c"},
	};
	for (const auto &x : b) { const std::string g = hex(refDigestRaw(x.ref, z(x.n).data(), x.n)); if (g != x.hex) return std::string("reference self-test failed: ") + x.ref + " got " + g; }
	{ // SipHash paper, appendix A
		Params p; ::Bytes m; for (int i = 0; i < 16; ++i) p.key.push_back(u8(i)); for (int i = 0; i < 15; ++i) m.push_back(u8(i));
		if (hex(refDigest("siphash", p, {m})) != "a129ca6149be45e5") return "reference self-test failed: siphash";
	}
	{ // NIST cSHAKE and TupleHash samples
		Params p; p.len = 32; p.custom = "Email Signature";
		if (hex(refDigest("cshake128", p, {::Bytes{0, 1, 2, 3}})) != "c1c36925b6409a04f1b504fcbca9d82b4017277cb5ed2b2065fc1d3814d5aaf5") return "reference self-test failed: cshake128";
		Params t; t.len = 32; ::Bytes a{0, 1, 2}, c{0x10, 0x11, 0x12, 0x13, 0x14, 0x15};
		if (hex(refDigest("tuple128", t, {a, c})) != "c5d8786c1afb9b82111ab34b65b2c0048fa64e6d48e263264ce1707d3ffc8ed1") return "reference self-test failed: tuple128";
		Params s; s.len = 16;
		if (hex(refDigest("shake128", s, {::Bytes()})) != "7f9c2ba4e88f827d616045507605853e") return "reference self-test failed: shake128";
	}
	return "";
}

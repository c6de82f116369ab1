// refcli ALG [args] < data : prints hex (used to cross-validate the references)
#include "ref.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <iostream>
int main(int c, char **v) {
	std::string in((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>());
	const ref::u8 *p = (const ref::u8 *)in.data(); ref::u64 n = in.size(); std::string a = v[1]; using namespace ref; Bytes r;
	(void)c;
#define A(x) if (a == #x) r = x(p, n);
	A(md2) A(md4) A(md5) A(sha1) A(sha224) A(sha256) A(sha384) A(sha512) A(sha512_224) A(sha512_256) A(rmd128) A(rmd160) A(rmd256) A(rmd320) A(has160) A(sm3) A(whirlpool) A(blake224) A(blake256) A(blake384) A(blake512) A(blake2b) A(blake2s) A(crc32)
	if (a == "tiger1") r = tiger(1, 24, p, n);
	if (a == "tiger2") r = tiger(0x80, 24, p, n);
	if (a == "sha3") r = sha3(atoi(v[2]), p, n);
	if (a == "shake") r = shake(atoi(v[2]), atoi(v[3]), p, n);
	if (a == "cshake") r = cshake(atoi(v[2]), atoi(v[3]), Bytes(v[4], v[4] + strlen(v[4])), Bytes(v[5], v[5] + strlen(v[5])), p, n);
	puts(hex(r).c_str());
}

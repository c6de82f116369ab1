// What the command-line program should print: one request per line, "ref length customhex path", answered in hex.
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include "refreg.h"
int main() {
	const std::string st = refSelfTest();
	if (!st.empty()) { fprintf(stderr, "harness: %s\n", st.c_str()); return 3; }
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream in(line); std::string ref, hex, path; int len = 0;
		in >> ref >> len >> hex >> path;
		Params p; p.len = len; p.key.assign(16, 0);
		for (size_t i = 1; i + 1 < hex.size(); i += 2) p.custom += char(std::stoi(hex.substr(i, 2), nullptr, 16));
		std::ifstream f(path, std::ios::binary); if (!f) { fprintf(stderr, "harness: %s\n", path.c_str()); return 3; }
		std::ostringstream o; o << f.rdbuf(); const std::string s = o.str();
		const Bytes b(s.begin(), s.end());
		printf("=%s\n", toHex(refDigest(ref, p, {b})).c_str()); fflush(stdout);
	}
	return 0;
}

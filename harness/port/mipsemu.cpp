// Runs a static MIPS program (ELF32 or ELF64, either byte order; user-mode integer instructions of MIPS32r2/MIPS64r2).
//   mipsemu PROGRAM [max instructions in millions]
// Memory accesses must be naturally aligned and inside the image, as on a machine without fix-ups.
// Exit: the program's own code below 64; 70 misaligned access, 71 access outside memory, 72 trap/break, 73 abort;
// 80 unknown instruction, 81 instruction limit, 82 not a usable program (these three say nothing about the program).
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>

static const uint64_t MEM = 64ull << 20;
static uint8_t *mem;
static uint64_t r[32], HI, LO, pc, npc, icount, ilimit = 4000000000ull;
static uint64_t fetched;

[[noreturn]] static void stop(int code, const char *why, uint64_t x) {
	fflush(stdout);
	fprintf(stderr, "mipsemu: %s %llx at pc %llx, ra %llx, after %llu instructions\n", why, (unsigned long long)x, (unsigned long long)fetched, (unsigned long long)r[31], (unsigned long long)icount);
	exit(code);
}
static inline uint16_t sw(uint16_t v) { return __builtin_bswap16(v); }
static inline uint32_t sw(uint32_t v) { return __builtin_bswap32(v); }
static inline uint64_t sw(uint64_t v) { return __builtin_bswap64(v); }
static inline uint8_t sw(uint8_t v) { return v; }
template <bool BE, class T> static inline T ld(uint64_t a) {
	if (a >= MEM - 8 || a < 4096) stop(71, "load outside memory", a);
	if (a & (sizeof(T) - 1)) stop(70, "misaligned load", a);
	T v; memcpy(&v, mem + a, sizeof v); return BE ? sw(v) : v;
}
template <bool BE, class T> static inline void st(uint64_t a, T v) {
	if (a >= MEM - 8 || a < 4096) stop(71, "store outside memory", a);
	if (a & (sizeof(T) - 1)) stop(70, "misaligned store", a);
	if (BE) v = sw(v);
	memcpy(mem + a, &v, sizeof v);
}
static inline uint64_t sx(uint32_t v) { return uint64_t(int64_t(int32_t(v))); }
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float asF(uint64_t v) { uint32_t w = uint32_t(v); float d; memcpy(&d, &w, 4); return d; }
static uint64_t ofF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

// floating point, which the program leaves to the machine
static uint64_t host(uint64_t op, uint64_t a, uint64_t b) {
	switch (op) {
		case 0: return ofD(asD(a) + asD(b)); case 1: return ofD(asD(a) - asD(b)); case 2: return ofD(asD(a) * asD(b)); case 3: return ofD(asD(a) / asD(b));
		case 4: return ofD(double(int32_t(a))); case 5: return ofD(double(uint32_t(a))); case 6: return ofD(double(int64_t(a))); case 7: return ofD(double(a));
		case 8: return uint64_t(int64_t(int32_t(asD(a)))); case 9: return uint32_t(int64_t(asD(a))); case 10: return uint64_t(int64_t(asD(a))); case 11: return uint64_t(asD(a));
		case 12: { const double x = asD(a), y = asD(b); return x < y ? uint64_t(-1) : x == y ? 0 : x > y ? 1 : 2; }
		case 13: return ofD(log2(asD(a))); case 14: return ofD(floor(asD(a))); case 15: return ofD(ceil(asD(a))); case 16: return ofD(round(asD(a)));
		case 17: return uint64_t(int64_t(lround(asD(a)))); case 18: return ofD(log(asD(a))); case 19: return ofD(sqrt(asD(a))); case 20: return ofD(pow(asD(a), asD(b)));
		case 21: return ofD(trunc(asD(a))); case 22: return ofD(log10(asD(a)));
		case 30: return ofF(asF(a) + asF(b)); case 31: return ofF(asF(a) - asF(b)); case 32: return ofF(asF(a) * asF(b)); case 33: return ofF(asF(a) / asF(b));
		case 34: return ofF(float(int32_t(a))); case 35: return ofF(float(uint32_t(a))); case 36: return ofF(float(int64_t(a))); case 37: return ofF(float(a));
		case 38: return uint64_t(int64_t(int32_t(asF(a)))); case 40: return uint64_t(int64_t(asF(a))); case 41: return uint64_t(asF(a));
		case 42: { const float x = asF(a), y = asF(b); return x < y ? uint64_t(-1) : x == y ? 0 : x > y ? 1 : 2; }
		case 43: return ofD(double(asF(a))); case 44: return ofF(float(asD(a))); case 45: return ofF(log2f(asF(a)));
		default: stop(80, "unknown host call", op);
	}
}

template <bool BE> static void run() {
	const uint32_t x4 = BE ? 0 : 3; const uint32_t x8 = BE ? 0 : 7;
	for (;;) {
		if (++icount > ilimit) stop(81, "instruction limit", icount);
		fetched = pc;
		const uint32_t w = ld<BE, uint32_t>(pc);
		pc = npc; npc += 4;
		const unsigned op = w >> 26, rs = (w >> 21) & 31, rt = (w >> 16) & 31, rd = (w >> 11) & 31, sa = (w >> 6) & 31, fn = w & 63;
		const uint64_t si = uint64_t(int64_t(int16_t(w))), ui = w & 0xFFFF;
		const uint64_t ea = r[rs] + si, bt = pc + (si << 2);
		#define BR(c) if (c) npc = bt; break
		#define BRL(c) if (c) npc = bt; else { pc = npc; npc += 4; } break
		switch (op) {
			case 0: switch (fn) {
				case 0: r[rd] = sx(uint32_t(r[rt]) << sa); break;
				case 2: { const uint32_t v = uint32_t(r[rt]); r[rd] = sx((rs & 1) ? (sa ? (v >> sa) | (v << (32 - sa)) : v) : v >> sa); break; }
				case 3: r[rd] = uint64_t(int64_t(int32_t(r[rt]) >> sa)); break;
				case 4: r[rd] = sx(uint32_t(r[rt]) << (r[rs] & 31)); break;
				case 6: { const uint32_t v = uint32_t(r[rt]); const unsigned s = r[rs] & 31; r[rd] = sx((sa & 1) ? (s ? (v >> s) | (v << (32 - s)) : v) : v >> s); break; }
				case 7: r[rd] = uint64_t(int64_t(int32_t(r[rt]) >> (r[rs] & 31))); break;
				case 8: npc = r[rs]; break;
				case 9: { const uint64_t t = r[rs]; r[rd] = pc + 4; npc = t; break; }
				case 10: if (r[rt] == 0) r[rd] = r[rs]; break;
				case 11: if (r[rt] != 0) r[rd] = r[rs]; break;
				case 12:
					switch (r[2]) {
						case 1: if (r[4] > MEM || r[5] > MEM - r[4]) stop(71, "write outside memory", r[4]); fwrite(mem + r[4], 1, r[5], stdout); break;
						case 2: fflush(stdout); fprintf(stderr, "INSTRUCTIONS %llu\n", (unsigned long long)icount); exit(int(r[4] & 63));
						case 3: st<BE, uint64_t>(r[5], host(r[4], ld<BE, uint64_t>(r[5]), ld<BE, uint64_t>(r[5] + 8))); break;
						case 4: stop(73, "abort", r[4]);
						default: stop(80, "unknown system call", r[2]);
					}
					break;
				case 13: stop(72, "break", w);
				case 15: break;
				case 16: r[rd] = HI; break; case 17: HI = r[rs]; break; case 18: r[rd] = LO; break; case 19: LO = r[rs]; break;
				case 20: r[rd] = r[rt] << (r[rs] & 63); break;
				case 22: { const unsigned s = r[rs] & 63; const uint64_t v = r[rt]; r[rd] = (sa & 1) ? (s ? (v >> s) | (v << (64 - s)) : v) : v >> s; break; }
				case 23: r[rd] = uint64_t(int64_t(r[rt]) >> (r[rs] & 63)); break;
				case 24: { const int64_t p = int64_t(int32_t(r[rs])) * int32_t(r[rt]); LO = sx(uint32_t(p)); HI = sx(uint32_t(uint64_t(p) >> 32)); break; }
				case 25: { const uint64_t p = uint64_t(uint32_t(r[rs])) * uint32_t(r[rt]); LO = sx(uint32_t(p)); HI = sx(uint32_t(p >> 32)); break; }
				case 26: { const int64_t a = int32_t(r[rs]), b = int32_t(r[rt]); if (b) { LO = sx(uint32_t(a / b)); HI = sx(uint32_t(a % b)); } break; }
				case 27: { const uint32_t a = uint32_t(r[rs]), b = uint32_t(r[rt]); if (b) { LO = sx(a / b); HI = sx(a % b); } break; }
				case 28: { const __int128 p = __int128(int64_t(r[rs])) * int64_t(r[rt]); LO = uint64_t(p); HI = uint64_t(p >> 64); break; }
				case 29: { const unsigned __int128 p = (unsigned __int128)(r[rs]) * r[rt]; LO = uint64_t(p); HI = uint64_t(p >> 64); break; }
				case 30: { const int64_t a = int64_t(r[rs]), b = int64_t(r[rt]); if (b && !(b == -1)) { LO = uint64_t(a / b); HI = uint64_t(a % b); } else if (b) { LO = 0 - uint64_t(a); HI = 0; } break; }
				case 31: { const uint64_t a = r[rs], b = r[rt]; if (b) { LO = a / b; HI = a % b; } break; }
				case 32: case 33: r[rd] = sx(uint32_t(r[rs]) + uint32_t(r[rt])); break;
				case 34: case 35: r[rd] = sx(uint32_t(r[rs]) - uint32_t(r[rt])); break;
				case 36: r[rd] = r[rs] & r[rt]; break; case 37: r[rd] = r[rs] | r[rt]; break; case 38: r[rd] = r[rs] ^ r[rt]; break; case 39: r[rd] = ~(r[rs] | r[rt]); break;
				case 42: r[rd] = int64_t(r[rs]) < int64_t(r[rt]); break; case 43: r[rd] = r[rs] < r[rt]; break;
				case 44: case 45: r[rd] = r[rs] + r[rt]; break; case 46: case 47: r[rd] = r[rs] - r[rt]; break;
				case 48: if (int64_t(r[rs]) >= int64_t(r[rt])) stop(72, "trap", w); break; case 49: if (r[rs] >= r[rt]) stop(72, "trap", w); break;
				case 50: if (int64_t(r[rs]) < int64_t(r[rt])) stop(72, "trap", w); break; case 51: if (r[rs] < r[rt]) stop(72, "trap", w); break;
				case 52: if (r[rs] == r[rt]) stop(72, "trap", w); break; case 54: if (r[rs] != r[rt]) stop(72, "trap", w); break;
				case 56: r[rd] = r[rt] << sa; break;
				case 58: { const uint64_t v = r[rt]; r[rd] = (rs & 1) ? (sa ? (v >> sa) | (v << (64 - sa)) : v) : v >> sa; break; }
				case 59: r[rd] = uint64_t(int64_t(r[rt]) >> sa); break;
				case 60: r[rd] = r[rt] << (sa + 32); break;
				case 62: { const uint64_t v = r[rt]; const unsigned s = sa + 32; r[rd] = (rs & 1) ? (v >> s) | (v << (64 - s)) : v >> s; break; }
				case 63: r[rd] = uint64_t(int64_t(r[rt]) >> (sa + 32)); break;
				default: stop(80, "unknown instruction", w);
			} break;
			case 1: switch (rt) {
				case 0: BR(int64_t(r[rs]) < 0); case 1: BR(int64_t(r[rs]) >= 0);
				case 2: BRL(int64_t(r[rs]) < 0); case 3: BRL(int64_t(r[rs]) >= 0);
				case 16: { const bool c = int64_t(r[rs]) < 0; r[31] = pc + 4; BR(c); }
				case 17: { const bool c = int64_t(r[rs]) >= 0; r[31] = pc + 4; BR(c); }
				case 31: break;   // synci
				default: stop(80, "unknown instruction", w);
			} break;
			case 2: npc = (pc & ~0x0FFFFFFFull) | (uint64_t(w & 0x03FFFFFF) << 2); break;
			case 3: r[31] = pc + 4; npc = (pc & ~0x0FFFFFFFull) | (uint64_t(w & 0x03FFFFFF) << 2); break;
			case 4: BR(r[rs] == r[rt]); case 5: BR(r[rs] != r[rt]); case 6: BR(int64_t(r[rs]) <= 0); case 7: BR(int64_t(r[rs]) > 0);
			case 20: BRL(r[rs] == r[rt]); case 21: BRL(r[rs] != r[rt]); case 22: BRL(int64_t(r[rs]) <= 0); case 23: BRL(int64_t(r[rs]) > 0);
			case 8: case 9: r[rt] = sx(uint32_t(r[rs]) + uint32_t(si)); break;
			case 10: r[rt] = int64_t(r[rs]) < int64_t(si); break; case 11: r[rt] = r[rs] < si; break;
			case 12: r[rt] = r[rs] & ui; break; case 13: r[rt] = r[rs] | ui; break; case 14: r[rt] = r[rs] ^ ui; break; case 15: r[rt] = sx(uint32_t(ui) << 16); break;
			case 24: case 25: r[rt] = r[rs] + si; break;
			case 26: { const unsigned n = unsigned((ea & 7) ^ x8), s = 8 * n; const uint64_t v = ld<BE, uint64_t>(ea & ~7ull); r[rt] = (v << s) | (s ? r[rt] & ((1ull << s) - 1) : 0); break; }
			case 27: { const unsigned n = unsigned((ea & 7) ^ x8), s = 8 * (7 - n); const uint64_t v = ld<BE, uint64_t>(ea & ~7ull); r[rt] = (v >> s) | (r[rt] & ~(~0ull >> s)); break; }
			case 28: {
				const int64_t a = int32_t(r[rs]), b = int32_t(r[rt]); const uint64_t ua = uint32_t(r[rs]), ub = uint32_t(r[rt]); uint64_t acc = (uint64_t(uint32_t(HI)) << 32) | uint32_t(LO);
				switch (fn) {
					case 0: acc += uint64_t(a * b); break; case 1: acc += ua * ub; break; case 4: acc -= uint64_t(a * b); break; case 5: acc -= ua * ub; break;
					case 2: r[rd] = sx(uint32_t(r[rs]) * uint32_t(r[rt])); break;
					case 32: r[rd] = uint32_t(r[rs]) ? unsigned(__builtin_clz(uint32_t(r[rs]))) : 32; break;
					case 33: r[rd] = uint32_t(~r[rs]) ? unsigned(__builtin_clz(uint32_t(~r[rs]))) : 32; break;
					case 36: r[rd] = r[rs] ? unsigned(__builtin_clzll(r[rs])) : 64; break;
					case 37: r[rd] = ~r[rs] ? unsigned(__builtin_clzll(~r[rs])) : 64; break;
					default: stop(80, "unknown instruction", w);
				}
				if (fn < 6 && fn != 2) { LO = sx(uint32_t(acc)); HI = sx(uint32_t(acc >> 32)); }
				break;
			}
			case 31: {
				auto ext = [&](unsigned pos, unsigned size) { return (r[rs] >> pos) & (size >= 64 ? ~0ull : (1ull << size) - 1); };
				auto ins = [&](unsigned pos, unsigned size) { const uint64_t m = (size >= 64 ? ~0ull : (1ull << size) - 1) << pos; return (r[rt] & ~m) | ((r[rs] << pos) & m); };
				switch (fn) {
					case 0: r[rt] = sx(uint32_t((uint32_t(r[rs]) >> sa) & (rd == 31 ? ~0u : (1u << (rd + 1)) - 1))); break;
					case 1: r[rt] = ext(sa, rd + 33); break; case 2: r[rt] = ext(sa + 32, rd + 1); break; case 3: r[rt] = ext(sa, rd + 1); break;
					case 4: r[rt] = sx(uint32_t(ins(sa, rd - sa + 1))); break;
					case 5: r[rt] = ins(sa, rd + 33 - sa); break; case 6: r[rt] = ins(sa + 32, rd - sa + 1); break; case 7: r[rt] = ins(sa, rd - sa + 1); break;
					case 32: { const uint32_t v = uint32_t(r[rt]); switch (sa) { case 2: r[rd] = sx(((v & 0x00FF00FF) << 8) | ((v >> 8) & 0x00FF00FF)); break; case 16: r[rd] = uint64_t(int64_t(int8_t(v))); break; case 24: r[rd] = uint64_t(int64_t(int16_t(v))); break; default: stop(80, "unknown instruction", w); } break; }
					case 36: { const uint64_t v = r[rt]; switch (sa) { case 2: r[rd] = ((v & 0x00FF00FF00FF00FFull) << 8) | ((v >> 8) & 0x00FF00FF00FF00FFull); break; case 5: r[rd] = (v << 48) | ((v & 0xFFFF0000ull) << 16) | ((v >> 16) & 0xFFFF0000ull) | (v >> 48); break; default: stop(80, "unknown instruction", w); } break; }
					default: stop(80, "unknown instruction", w);
				}
				break;
			}
			case 32: r[rt] = uint64_t(int64_t(int8_t(ld<BE, uint8_t>(ea)))); break;
			case 33: r[rt] = uint64_t(int64_t(int16_t(ld<BE, uint16_t>(ea)))); break;
			case 34: { const unsigned n = unsigned((ea & 3) ^ x4), s = 8 * n; const uint32_t v = ld<BE, uint32_t>(ea & ~3ull); r[rt] = sx((v << s) | (s ? uint32_t(r[rt]) & ((1u << s) - 1) : 0)); break; }
			case 35: case 48: r[rt] = sx(ld<BE, uint32_t>(ea)); break;
			case 36: r[rt] = ld<BE, uint8_t>(ea); break; case 37: r[rt] = ld<BE, uint16_t>(ea); break;
			case 38: { const unsigned n = unsigned((ea & 3) ^ x4), s = 8 * (3 - n); const uint32_t v = ld<BE, uint32_t>(ea & ~3ull); r[rt] = sx((v >> s) | (uint32_t(r[rt]) & ~(~0u >> s))); break; }
			case 39: r[rt] = ld<BE, uint32_t>(ea); break;
			case 40: st<BE, uint8_t>(ea, uint8_t(r[rt])); break; case 41: st<BE, uint16_t>(ea, uint16_t(r[rt])); break; case 43: st<BE, uint32_t>(ea, uint32_t(r[rt])); break;
			case 42: { const unsigned n = unsigned((ea & 3) ^ x4), s = 8 * n; const uint64_t a = ea & ~3ull; const uint32_t v = ld<BE, uint32_t>(a); st<BE, uint32_t>(a, (v & ~(~0u >> s)) | (uint32_t(r[rt]) >> s)); break; }
			case 46: { const unsigned n = unsigned((ea & 3) ^ x4), s = 8 * (3 - n); const uint64_t a = ea & ~3ull; const uint32_t v = ld<BE, uint32_t>(a); st<BE, uint32_t>(a, (v & ~(~0u << s)) | (uint32_t(r[rt]) << s)); break; }
			case 44: { const unsigned n = unsigned((ea & 7) ^ x8), s = 8 * n; const uint64_t a = ea & ~7ull; const uint64_t v = ld<BE, uint64_t>(a); st<BE, uint64_t>(a, (v & ~(~0ull >> s)) | (r[rt] >> s)); break; }
			case 45: { const unsigned n = unsigned((ea & 7) ^ x8), s = 8 * (7 - n); const uint64_t a = ea & ~7ull; const uint64_t v = ld<BE, uint64_t>(a); st<BE, uint64_t>(a, (v & ~(~0ull << s)) | (r[rt] << s)); break; }
			case 47: case 51: break;
			case 52: case 55: r[rt] = ld<BE, uint64_t>(ea); break;
			case 56: st<BE, uint32_t>(ea, uint32_t(r[rt])); r[rt] = 1; break;
			case 60: st<BE, uint64_t>(ea, r[rt]); r[rt] = 1; break;
			case 63: st<BE, uint64_t>(ea, r[rt]); break;
			default: stop(80, "unknown instruction", w);
		}
		r[0] = 0;
	}
}

template <bool BE, class T> static T get(const std::vector<uint8_t> &f, uint64_t o) { if (o + sizeof(T) > f.size()) stop(82, "short file", o); T v; memcpy(&v, &f[o], sizeof v); return BE ? sw(v) : v; }
template <bool BE> static void boot(const std::vector<uint8_t> &f) {
	const bool w = f[4] == 2;
	const uint64_t ph = w ? get<BE, uint64_t>(f, 32) : get<BE, uint32_t>(f, 28);
	const unsigned es = get<BE, uint16_t>(f, w ? 54 : 42), n = get<BE, uint16_t>(f, w ? 56 : 44);
	pc = w ? get<BE, uint64_t>(f, 24) : get<BE, uint32_t>(f, 24);
	if (get<BE, uint16_t>(f, 18) != 8) stop(82, "not a MIPS program", 0);
	for (unsigned i = 0; i < n; ++i) {
		const uint64_t o = ph + uint64_t(i) * es;
		if (get<BE, uint32_t>(f, o) != 1) continue;
		const uint64_t off = w ? get<BE, uint64_t>(f, o + 8) : get<BE, uint32_t>(f, o + 4), va = w ? get<BE, uint64_t>(f, o + 16) : get<BE, uint32_t>(f, o + 8), fs = w ? get<BE, uint64_t>(f, o + 32) : get<BE, uint32_t>(f, o + 16);
		if (va > MEM || fs > MEM - va || off + fs > f.size()) stop(82, "segment outside memory", va);
		memcpy(mem + va, &f[off], fs);
	}
	npc = pc + 4; r[29] = MEM - 65536;
	run<BE>();
}
int main(int argc, char **argv) {
	FILE *in = argc > 1 ? fopen(argv[1], "rb") : nullptr;
	if (!in) return 82;
	if (argc > 2) ilimit = strtoull(argv[2], nullptr, 10) * 1000000ull;
	std::vector<uint8_t> f; static uint8_t b[65536]; size_t k;
	while ((k = fread(b, 1, sizeof b, in)) > 0) f.insert(f.end(), b, b + k);
	if (f.size() < 64 || memcmp(&f[0], "\177ELF", 4) != 0) return 82;
	mem = static_cast<uint8_t *>(calloc(1, MEM));
	if (!mem) return 82;
	if (f[5] == 2) boot<true>(f); else boot<false>(f);
}

// What a program needs from a C and C++ library on a machine that has none: start, memory, strings, 64-bit division,
// floating point. For MIPS under mipsemu (either byte order, 32 or 64 bit) and for 32-bit x86 on a Linux kernel.
typedef __SIZE_TYPE__ size_t;
typedef unsigned char u8;
typedef __UINT32_TYPE__ u32;
typedef __INT32_TYPE__ s32;
typedef __UINT64_TYPE__ u64;
typedef __INT64_TYPE__ s64;
#define NOINLINE __attribute__((noinline))
#define KEEP __attribute__((used, visibility("default"), optnone, noinline, no_builtin))

#if defined(__mips__)
static long sys(long n, long a, long b) {
	register long v0 __asm__("$2") = n; register long a0 __asm__("$4") = a; register long a1 __asm__("$5") = b;
	__asm__ volatile("syscall" : "+r"(v0), "+r"(a0), "+r"(a1) : : "memory", "$6", "$7", "$3");
	return v0;
}
static void out(const char *p, size_t n) { sys(1, (long)p, (long)n); }
[[noreturn]] static void quit(int c) { sys(2, c, 0); __builtin_trap(); }
[[noreturn]] static void dead(int c) { sys(4, c, 0); __builtin_trap(); }
static void *grow(size_t n) {
	static u8 *at = nullptr; extern char end_of_image[] __asm__("end");
	if (!at) at = (u8 *)(((size_t)end_of_image + 65535) & ~(size_t)65535);
	u8 *const p = at; if ((size_t)p + n > (48u << 20)) return nullptr;
	at += n; return p;
}
__asm__(".text\n.globl __start\n.set noreorder\n__start:\n\tlui $gp, %hi(_gp)\n\taddiu $gp, $gp, %lo(_gp)\n\tbal vh_entry\n\tnop\n.set reorder\n");
#elif defined(__i386__)
static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
static char obuf[65536]; static size_t on;
static void flush() { size_t i = 0; while (i < on) { const long k = sys3(4, 1, (long)(obuf + i), (long)(on - i)); if (k <= 0) break; i += (size_t)k; } on = 0; }
static void out(const char *p, size_t n) { for (size_t i = 0; i < n; ++i) { obuf[on++] = p[i]; if (on == sizeof obuf) flush(); } }
[[noreturn]] static void quit(int c) { flush(); sys3(252, c, 0, 0); __builtin_trap(); }
[[noreturn]] static void dead(int) { flush(); sys3(252, 73, 0, 0); __builtin_trap(); }
static void *grow(size_t n) {
	struct { u32 addr, len, prot, flags, fd, off; } m = {0, (u32)n, 3, 0x4022, 0xFFFFFFFFu, 0};
	const long r = sys3(90, (long)&m, 0, 0); return (r < 0 && r > -4096) ? nullptr : (void *)r;
}
__asm__(".text\n.globl __start\n__start:\n\txorl %ebp, %ebp\n\tandl $-16, %esp\n\tcall vh_entry\n");
#endif

extern "C" {
void vh_out(const char *p, size_t n) { out(p, n); }
int vh_main();
typedef void (*Init)();
extern Init __init_array_start[] __attribute__((weak)); extern Init __init_array_end[] __attribute__((weak));
__attribute__((used)) void vh_entry() {
	for (Init *i = __init_array_start; i != __init_array_end; ++i) (*i)();
	quit(vh_main());
}
[[noreturn]] void abort() { dead(1); }
[[noreturn]] void __assert_fail(const char *e, const char *, unsigned, const char *) { out("ASSERT ", 7); const char *p = e; while (*p) ++p; out(e, size_t(p - e)); out("\n", 1); dead(2); }
[[noreturn]] void __assert(const char *, const char *, int) { dead(2); }
[[noreturn]] void __cxa_pure_virtual() { dead(3); }
[[noreturn]] void __stack_chk_fail() { dead(4); }
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
void *__dso_handle = nullptr;
int __cxa_guard_acquire(u8 *g) { return !*g; }
void __cxa_guard_release(u8 *g) { *g = 1; }
void __cxa_guard_abort(u8 *) {}

KEEP void *memcpy(void *d, const void *s, size_t n) { u8 *a = (u8 *)d; const u8 *b = (const u8 *)s; for (size_t i = 0; i < n; ++i) a[i] = b[i]; return d; }
KEEP void *memmove(void *d, const void *s, size_t n) { u8 *a = (u8 *)d; const u8 *b = (const u8 *)s; if (a < b) for (size_t i = 0; i < n; ++i) a[i] = b[i]; else for (size_t i = n; i-- > 0;) a[i] = b[i]; return d; }
KEEP void *memset(void *d, int c, size_t n) { u8 *a = (u8 *)d; for (size_t i = 0; i < n; ++i) a[i] = (u8)c; return d; }
KEEP int memcmp(const void *x, const void *y, size_t n) { const u8 *a = (const u8 *)x, *b = (const u8 *)y; for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
KEEP int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
KEEP void *memchr(const void *x, int c, size_t n) { const u8 *a = (const u8 *)x; for (size_t i = 0; i < n; ++i) if (a[i] == (u8)c) return (void *)(a + i); return nullptr; }
KEEP size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
KEEP int strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (u8)*a - (u8)*b; }

// blocks of powers of two, kept in lists by size
struct Blk { size_t cls; Blk *next; };
static Blk *lists[40];
void *malloc(size_t n) {
	size_t c = 5; while (c < sizeof(size_t) * 8 - 1 && ((size_t)1 << c) < n + 32) ++c;
	if (c >= 34) return nullptr;
	Blk *b = lists[c];
	if (b) lists[c] = b->next;
	else {
		const size_t need = (size_t)1 << c;
		if (c >= 16) b = (Blk *)grow(need + 65536);
		else { u8 *p = (u8 *)grow(65536); if (p) for (size_t i = 0; i + need <= 65536; i += need) { Blk *q = (Blk *)(p + i); q->cls = c; q->next = lists[c]; lists[c] = q; } if (p) { b = lists[c]; lists[c] = b->next; } }
		if (!b) return nullptr;
	}
	b->cls = c; return (u8 *)b + 16;
}
void free(void *p) { if (!p) return; Blk *b = (Blk *)((u8 *)p - 16); b->next = lists[b->cls]; lists[b->cls] = b; }

KEEP u64 __udivmoddi4(u64 a, u64 b, u64 *rem) {
	u64 q = 0, r = 0;
	if (b == 0) dead(5);
	for (int i = 63; i >= 0; --i) { r = (r << 1) | ((a >> i) & 1); if (r >= b) { r -= b; q |= (u64)1 << i; } }
	if (rem) *rem = r;
	return q;
}
KEEP u64 __udivdi3(u64 a, u64 b) { return __udivmoddi4(a, b, nullptr); }
KEEP u64 __umoddi3(u64 a, u64 b) { u64 r; __udivmoddi4(a, b, &r); return r; }
KEEP s64 __divdi3(s64 a, s64 b) { const u64 q = __udivmoddi4(a < 0 ? 0 - (u64)a : (u64)a, b < 0 ? 0 - (u64)b : (u64)b, nullptr); return (s64)((a < 0) != (b < 0) ? 0 - q : q); }
KEEP s64 __moddi3(s64 a, s64 b) { u64 r; __udivmoddi4(a < 0 ? 0 - (u64)a : (u64)a, b < 0 ? 0 - (u64)b : (u64)b, &r); return (s64)(a < 0 ? 0 - r : r); }
KEEP u64 __muldi3(u64 a, u64 b) {
	const u32 al = (u32)a, ah = (u32)(a >> 32), bl = (u32)b, bh = (u32)(b >> 32);
	return (u64)al * bl + ((u64)(al * bh + ah * bl) << 32);
}
KEEP u64 __ashldi3(u64 v, int n) { u32 l = (u32)v, h = (u32)(v >> 32); if (n >= 32) { h = l << (n - 32); l = 0; } else if (n) { h = (h << n) | (l >> (32 - n)); l <<= n; } return ((u64)h << 32) | l; }
KEEP u64 __lshrdi3(u64 v, int n) { u32 l = (u32)v, h = (u32)(v >> 32); if (n >= 32) { l = h >> (n - 32); h = 0; } else if (n) { l = (l >> n) | (h << (32 - n)); h >>= n; } return ((u64)h << 32) | l; }
KEEP s64 __ashrdi3(u64 v, int n) { u32 l = (u32)v; s32 h = (s32)(v >> 32); if (n >= 32) { l = (u32)(h >> (n - 32)); h >>= 31; } else if (n) { l = (l >> n) | ((u32)h << (32 - n)); h >>= n; } return (s64)(((u64)(u32)h << 32) | l); }
int __clzdi2(u64 v) { const u32 h = (u32)(v >> 32); return h ? __builtin_clz(h) : 32 + __builtin_clz((u32)v); }
int __ctzdi2(u64 v) { const u32 l = (u32)v; return l ? __builtin_ctz(l) : 32 + __builtin_ctz((u32)(v >> 32)); }
KEEP u32 __bswapsi2(u32 v) { return (v << 24) | ((v & 0xFF00) << 8) | ((v >> 8) & 0xFF00) | (v >> 24); }
KEEP u64 __bswapdi2(u64 v) { return ((u64)__bswapsi2((u32)v) << 32) | __bswapsi2((u32)(v >> 32)); }
KEEP int __popcountsi2(u32 v) { int n = 0; while (v) { n += (int)(v & 1); v >>= 1; } return n; }
KEEP int __popcountdi2(u64 v) { return __popcountsi2((u32)v) + __popcountsi2((u32)(v >> 32)); }
#if defined(__mips64)
typedef unsigned __int128 u128; typedef __int128 s128;
KEEP static u128 udm(u128 a, u128 b, u128 *rem) { u128 q = 0, r = 0; if (b == 0) dead(5); for (int i = 127; i >= 0; --i) { r = (r << 1) | ((a >> i) & 1); if (r >= b) { r -= b; q |= (u128)1 << i; } } *rem = r; return q; }
KEEP u128 __udivti3(u128 a, u128 b) { u128 r; return udm(a, b, &r); }
KEEP u128 __umodti3(u128 a, u128 b) { u128 r; udm(a, b, &r); return r; }
KEEP u128 __ashlti3(u128 v, int n) { u64 l = (u64)v, h = (u64)(v >> 64); if (n >= 64) { h = l << (n - 64); l = 0; } else if (n) { h = (h << n) | (l >> (64 - n)); l <<= n; } return ((u128)h << 64) | l; }
KEEP u128 __lshrti3(u128 v, int n) { u64 l = (u64)v, h = (u64)(v >> 64); if (n >= 64) { l = h >> (n - 64); h = 0; } else if (n) { l = (l >> n) | (h << (64 - n)); h >>= n; } return ((u128)h << 64) | l; }
#endif

#if defined(__mips__)
// soft float: the emulator computes
typedef u64 D; typedef u32 F;
static u64 host(long op, u64 a, u64 b) { u64 v[2] = {a, b}; sys(3, op, (long)v); return v[0]; }
#define H2(name, op) D name(D a, D b) { return host(op, a, b); }
H2(__adddf3, 0) H2(__subdf3, 1) H2(__muldf3, 2) H2(__divdf3, 3)
D __floatsidf(s32 a) { return host(4, (u64)(s64)a, 0); } D __floatunsidf(u32 a) { return host(5, a, 0); } D __floatdidf(s64 a) { return host(6, (u64)a, 0); } D __floatundidf(u64 a) { return host(7, a, 0); }
s32 __fixdfsi(D a) { return (s32)host(8, a, 0); } u32 __fixunsdfsi(D a) { return (u32)host(9, a, 0); } s64 __fixdfdi(D a) { return (s64)host(10, a, 0); } u64 __fixunsdfdi(D a) { return host(11, a, 0); }
static int cmpd(D a, D b) { return (int)(s64)host(12, a, b); }
int __eqdf2(D a, D b) { return cmpd(a, b) != 0; } int __nedf2(D a, D b) { return cmpd(a, b) != 0; } int __unorddf2(D a, D b) { return cmpd(a, b) == 2; }
int __ltdf2(D a, D b) { const int c = cmpd(a, b); return c == 2 ? 1 : c; } int __ledf2(D a, D b) { const int c = cmpd(a, b); return c == 2 ? 1 : c; }
int __gtdf2(D a, D b) { const int c = cmpd(a, b); return c == 2 ? -1 : c; } int __gedf2(D a, D b) { const int c = cmpd(a, b); return c == 2 ? -1 : c; }
D __negdf2(D a) { return a ^ ((u64)1 << 63); }
#define H1(name, op) D name(D a) { return host(op, a, 0); }
H1(vh_log2, 13) H1(vh_floor, 14) H1(vh_ceil, 15) H1(vh_round, 16) H1(vh_log, 18) H1(vh_sqrt, 19) H1(vh_trunc, 21) H1(vh_log10, 22)
__asm__(".globl log2\n.set log2, vh_log2\n.globl floor\n.set floor, vh_floor\n.globl ceil\n.set ceil, vh_ceil\n.globl round\n.set round, vh_round\n.globl log\n.set log, vh_log\n.globl sqrt\n.set sqrt, vh_sqrt\n.globl trunc\n.set trunc, vh_trunc\n.globl log10\n.set log10, vh_log10\n");
D vh_pow(D a, D b) { return host(20, a, b); } long vh_lround(D a) { return (long)(s64)host(17, a, 0); } s64 vh_llround(D a) { return (s64)host(17, a, 0); }
__asm__(".globl pow\n.set pow, vh_pow\n.globl lround\n.set lround, vh_lround\n.globl llround\n.set llround, vh_llround\n");
F __addsf3(F a, F b) { return (F)host(30, a, b); } F __subsf3(F a, F b) { return (F)host(31, a, b); } F __mulsf3(F a, F b) { return (F)host(32, a, b); } F __divsf3(F a, F b) { return (F)host(33, a, b); }
F __floatsisf(s32 a) { return (F)host(34, (u64)(s64)a, 0); } F __floatunsisf(u32 a) { return (F)host(35, a, 0); } F __floatdisf(s64 a) { return (F)host(36, (u64)a, 0); } F __floatundisf(u64 a) { return (F)host(37, a, 0); }
s32 __fixsfsi(F a) { return (s32)host(38, a, 0); } s64 __fixsfdi(F a) { return (s64)host(40, a, 0); } u64 __fixunssfdi(F a) { return host(41, a, 0); }
D __extendsfdf2(F a) { return host(43, a, 0); } F __truncdfsf2(D a) { return (F)host(44, a, 0); }
F vh_log2f(F a) { return (F)host(45, a, 0); }
__asm__(".globl log2f\n.set log2f, vh_log2f\n");
#elif defined(__i386__)
double log2(double x) { double r; __asm__("fld1\n\tfldl %1\n\tfyl2x\n\tfstpl %0" : "=m"(r) : "m"(x)); return r; }
float log2f(float x) { return (float)log2(x); }
static double rnd(double x, unsigned short mode) { unsigned short cw, c2; double r; __asm__ volatile("fnstcw %0" : "=m"(cw)); c2 = (unsigned short)((cw & ~0x0C00) | mode); __asm__ volatile("fldcw %2\n\tfldl %1\n\tfrndint\n\tfstpl %0\n\tfldcw %3" : "=m"(r) : "m"(x), "m"(c2), "m"(cw)); return r; }
double floor(double x) { return rnd(x, 0x0400); } double ceil(double x) { return rnd(x, 0x0800); } double trunc(double x) { return rnd(x, 0x0C00); }
double round(double x) { const double t = trunc(x), f = x - t; return f >= 0.5 ? t + 1 : f <= -0.5 ? t - 1 : t; }
long lround(double x) { return (long)round(x); }
long long llround(double x) { return (long long)round(x); }
double log(double x) { double r; __asm__("fldln2\n\tfldl %1\n\tfyl2x\n\tfstpl %0" : "=m"(r) : "m"(x)); return r; }
#endif
}

void *operator new(size_t n) { void *p = malloc(n); if (!p) dead(6); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
namespace std {
	[[noreturn]] void terminate() noexcept { dead(7); }
	[[noreturn]] void __throw_length_error(const char *) { dead(8); }
	[[noreturn]] void __throw_logic_error(const char *) { dead(8); }
	[[noreturn]] void __throw_out_of_range(const char *) { dead(8); }
	[[noreturn]] void __throw_out_of_range_fmt(const char *, ...) { dead(8); }
	[[noreturn]] void __throw_invalid_argument(const char *) { dead(8); }
	[[noreturn]] void __throw_bad_alloc() { dead(8); }
	[[noreturn]] void __throw_bad_array_new_length() { dead(8); }
	[[noreturn]] void __throw_bad_function_call() { dead(8); }
	[[noreturn]] void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept { dead(9); }
}

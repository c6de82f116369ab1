/* Preloaded into the program under test: makes read() on regular files and FIFOs return short counts, or fail.
   VH_SHORT=seed: short reads. VH_FAIL=k: the k-th read of an input (counting from 1) and all later ones
   fail with EIO, and the file VH_MARK is made to tell that it happened. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
static unsigned long long st; static long calls;
static int input(int fd) { struct stat s; return fd > 2 && fstat(fd, &s) == 0 && (S_ISREG(s.st_mode) || S_ISFIFO(s.st_mode)); }
static unsigned long long rnd(void) { unsigned long long z = (st += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
ssize_t read(int fd, void *b, size_t n) {
	static ssize_t (*real)(int, void *, size_t); static int init; static long fail; static int shrt;
	if (!real) real = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
	if (!init) { const char *s = getenv("VH_SHORT"), *f = getenv("VH_FAIL"); init = 1; if (s) { shrt = 1; st = strtoull(s, 0, 10); } if (f) fail = strtol(f, 0, 10); }
	if (input(fd)) {
		++calls;
		if (fail && calls >= fail) { const char *m = getenv("VH_MARK"); if (m) { int d = open(m, O_CREAT | O_WRONLY, 0600); if (d >= 0) close(d); } errno = EIO; return -1; }
		if (shrt && n > 1) {
			const unsigned long long r = rnd();
			const size_t k = r % 4 == 0 ? 1 + (size_t)(rnd() % 7) : 1 + (size_t)(rnd() % n);
			if (k < n) n = k;
		}
	}
	return real(fd, b, n);
}

/* Preloaded into the programs under test: the file the system's time zone is  */
/* read from is replaced by another one, so that local time is not UTC; writes   */
/* to the standard streams can be made short.                                  */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *swap(const char *p) {
	const char *z = getenv("VERIF_ZONE_FILE");
	return z && p && !strcmp(p, "/etc/localtime") ? z : p;
}
#define MODE(flags, last) \
	int mode = 0; \
	if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, last); mode = va_arg(a, int); va_end(a); }

int open(const char *p, int flags, ...) {
	MODE(flags, flags)
	return ((int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open"))(swap(p), flags, mode);
}
int open64(const char *p, int flags, ...) {
	MODE(flags, flags)
	return ((int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open64"))(swap(p), flags, mode);
}
int openat(int d, const char *p, int flags, ...) {
	MODE(flags, flags)
	return ((int (*)(int, const char *, int, ...)) dlsym(RTLD_NEXT, "openat"))(d, swap(p), flags, mode);
}
int openat64(int d, const char *p, int flags, ...) {
	MODE(flags, flags)
	return ((int (*)(int, const char *, int, ...)) dlsym(RTLD_NEXT, "openat64"))(d, swap(p), flags, mode);
}
FILE *fopen(const char *p, const char *m) { return ((FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"))(swap(p), m); }
FILE *fopen64(const char *p, const char *m) { return ((FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64"))(swap(p), m); }

/* A standard stream that takes only so many bytes at a time, and is interrupted now and then. */
static size_t some(int fd, size_t n) {
	static unsigned calls;
	const char *s = fd == 1 || fd == 2 ? getenv("VERIF_SHORT_WRITES") : NULL;
	if (!s || n < 2) { return n; }
	if (!(__atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED) % 5)) { return 0; }
	size_t max = (size_t) atoi(s);
	return n < max ? n : max;
}
ssize_t write(int fd, const void *p, size_t n) {
	size_t k = some(fd, n);
	if (n && !k) { errno = EINTR; return -1; }
	return ((ssize_t (*)(int, const void *, size_t)) dlsym(RTLD_NEXT, "write"))(fd, p, k);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
	if ((fd == 1 || fd == 2) && getenv("VERIF_SHORT_WRITES")) {
		for (int i = 0; i < c; i++) { if (v[i].iov_len) { return write(fd, v[i].iov_base, v[i].iov_len); } }
	}
	return ((ssize_t (*)(int, const struct iovec *, int)) dlsym(RTLD_NEXT, "writev"))(fd, v, c);
}

// LD_PRELOAD shim: numbers every file-changing call on files whose path contains
// $FF_MATCH and, at call $FF_AT, kills the process before it (crash), half way
// through it (torn), right after it (after), or makes it (error) or it and all
// later ones (errors) fail.  The number of calls is left in $FF_COUNT.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>

static long *counter;
static long local;
static long at = -1;
static const char *match, *mode;
static int eno = ENOSPC;

__attribute__((constructor)) static void init(void) {
	match = getenv("FF_MATCH");
	mode = getenv("FF_MODE");
	if (!mode) mode = "count";
	const char *a = getenv("FF_AT");
	if (a) at = atol(a);
	const char *e = getenv("FF_ERRNO");
	if (e) eno = atoi(e);
	counter = &local;
	const char *c = getenv("FF_COUNT");
	if (c) {
		int fd = open(c, O_RDWR | O_CREAT, 0600);
		if (fd >= 0) {
			static ssize_t (*pw)(int, const void *, size_t, off_t);
			pw = dlsym(RTLD_NEXT, "pwrite");
			long z = 0;
			pw(fd, &z, sizeof z, 0);
			void *m = mmap(0, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (m != MAP_FAILED) counter = m;
			close(fd);
		}
	}
}

static int ours(int fd) {
	if (!match) return 0;
	char l[64], p[512];
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(l, p, sizeof p - 1);
	if (n <= 0) return 0;
	p[n] = 0;
	return strstr(p, match) != 0;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

// 0: go on; 1: fail; 2: torn; 3: die afterwards
static int step(void) {
	long k = __sync_fetch_and_add(counter, 1);
	if (at < 0) return 0;
	if (k == at) {
		if (!strcmp(mode, "crash")) die();
		if (!strcmp(mode, "torn")) return 2;
		if (!strcmp(mode, "after")) return 3;
		if (!strncmp(mode, "error", 5)) { errno = eno; return 1; }
	}
	if (k > at && !strcmp(mode, "errors")) { errno = eno; return 1; }
	return 0;
}

#define REAL(name, ret, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static ssize_t do_pwrite(const char *n, int fd, const void *b, size_t c, off_t o) {
	ssize_t (*real)(int, const void *, size_t, off_t) = dlsym(RTLD_NEXT, n);
	if (!ours(fd)) return real(fd, b, c, o);
	int s = step();
	if (s == 1) return -1;
	if (s == 2) { real(fd, b, c / 2, o); die(); }
	ssize_t r = real(fd, b, c, o);
	if (s == 3) die();
	return r;
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) { return do_pwrite("pwrite", fd, b, c, o); }
ssize_t pwrite64(int fd, const void *b, size_t c, off_t o) { return do_pwrite("pwrite64", fd, b, c, o); }
ssize_t write(int fd, const void *b, size_t c) {
	REAL("write", ssize_t, int, const void *, size_t);
	if (!ours(fd)) return real(fd, b, c);
	int s = step();
	if (s == 1) return -1;
	if (s == 2) { real(fd, b, c / 2); die(); }
	ssize_t r = real(fd, b, c);
	if (s == 3) die();
	return r;
}
#define FD1(name) int name(int fd) { REAL(#name, int, int); if (!ours(fd)) return real(fd); int s = step(); if (s == 1) return -1; if (s == 2) die(); int r = real(fd); if (s == 3) die(); return r; }
FD1(fsync)
FD1(fdatasync)
#define TR(name) int name(int fd, off_t l) { REAL(#name, int, int, off_t); if (!ours(fd)) return real(fd, l); int s = step(); if (s == 1) return -1; if (s == 2) die(); int r = real(fd, l); if (s == 3) die(); return r; }
TR(ftruncate)
TR(ftruncate64)
int unlink(const char *p) {
	REAL("unlink", int, const char *);
	if (!match || !strstr(p, match)) return real(p);
	int s = step();
	if (s == 1) return -1;
	if (s == 2) die();
	int r = real(p);
	if (s == 3) die();
	return r;
}

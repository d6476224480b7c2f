// Monitors around the library's allocator and I/O calls, installed with
// ld --wrap.  Single-threaded use only.
#define _GNU_SOURCE
#include "vf.h"
#include <dirent.h>
#include <errno.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#ifndef VF_NOWRAP
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_poll(struct pollfd *, nfds_t, int);
char *__real_getenv(const char *);
char *__real_secure_getenv(const char *);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);

#endif
int vf_track;
unsigned char vf_fill = 0xA5;
int vf_fill_on = 1;
long vf_live_blocks, vf_live_bytes, vf_peak_bytes, vf_allocs, vf_alloc_cap;
unsigned long long vf_alloc_total, vf_moved_bytes;

#ifndef VF_NOWRAP
// live table: open addressing, tombstones
typedef struct { uintptr_t p; size_t n; } ent;
static ent *tab; static size_t tcap, tused;
#define TOMB 1
static size_t hsh(uintptr_t p) { p >>= 4; p *= 0x9E3779B97F4A7C15ull; return p ^ (p >> 29); }
static void tins(uintptr_t p, size_t n) {
	if (tused * 2 >= tcap) {
		size_t oc = tcap; ent *ot = tab;
		size_t live = (size_t)vf_live_blocks;
		tcap = 1024; while (tcap < (live + 8) * 4) tcap *= 2;
		tab = __real_calloc(tcap, sizeof(ent)); tused = 0;
		for (size_t i = 0; i < oc; i++) if (ot[i].p > TOMB) {
			size_t j = hsh(ot[i].p) & (tcap - 1);
			while (tab[j].p) j = (j + 1) & (tcap - 1);
			tab[j] = ot[i]; tused++;
		}
		__real_free(ot);
	}
	size_t j = hsh(p) & (tcap - 1);
	while (tab[j].p > TOMB) j = (j + 1) & (tcap - 1);
	if (!tab[j].p) tused++;
	tab[j].p = p; tab[j].n = n;
	vf_live_blocks++; vf_live_bytes += (long)n;
	if (vf_live_bytes > vf_peak_bytes) vf_peak_bytes = vf_live_bytes;
	vf_allocs++; vf_alloc_total += n;
}
static long tdel(uintptr_t p) {
	if (!tcap) return -1;
	size_t j = hsh(p) & (tcap - 1);
	while (tab[j].p) {
		if (tab[j].p == p) {
			long n = (long)tab[j].n;
			tab[j].p = TOMB; vf_live_blocks--; vf_live_bytes -= n;
			return n;
		}
		j = (j + 1) & (tcap - 1);
	}
	return -1;
}
void vf_mem_reset(void) { vf_peak_bytes = vf_live_bytes; vf_allocs = 0; vf_alloc_total = 0; vf_moved_bytes = 0; }
static void capchk(size_t n) {
	if (vf_alloc_cap && n > (size_t)vf_alloc_cap) {
		dprintf(2, "VF-ALLOC-CAP: library asked for %zu bytes (cap %ld)\n", n, vf_alloc_cap);
		_exit(77);
	}
}
void *__wrap_malloc(size_t n) {
	if (!vf_track) return __real_malloc(n);
	capchk(n);
	void *p = __real_malloc(n);
	if (p) { if (vf_fill_on) memset(p, vf_fill, n); tins((uintptr_t)p, n); }
	return p;
}
void *__wrap_calloc(size_t a, size_t b) {
	if (!vf_track) return __real_calloc(a, b);
	size_t n; if (__builtin_mul_overflow(a, b, &n)) n = (size_t)-1;
	capchk(n);
	void *p = __real_calloc(a, b);
	if (p) { tins((uintptr_t)p, n); vf_moved_bytes += n; }
	return p;
}
void __wrap_free(void *p) { if (p) tdel((uintptr_t)p); __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
	long old = p ? tdel((uintptr_t)p) : -1;
	if (!vf_track && old < 0) return __real_realloc(p, n);
	capchk(n);
	void *q = __real_realloc(p, n);
	if (q) {
		// counted as moved whenever the size passes a power of two: where the heap had room in this process must not matter
		if (old > 0 && n && __builtin_clzl((size_t)old) != __builtin_clzl(n)) vf_moved_bytes += (size_t)old < n ? (size_t)old : n;
		if (vf_fill_on && n > (old > 0 ? (size_t)old : 0)) memset((char *)q + (old > 0 ? old : 0), vf_fill, n - (old > 0 ? (size_t)old : 0));
		tins((uintptr_t)q, n);
	} else if (old >= 0 && n) tins((uintptr_t)p, (size_t)old);
	return q;
}
char *__wrap_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *r = __wrap_malloc(n);
	if (r) memcpy(r, s, n);
	return r;
}
#else
void vf_mem_reset(void) {}
#endif
// The surroundings of a call: what errno, the environment and the clocks say is
// different every time, so that nothing can depend on it unnoticed.
unsigned long vf_world;
static __thread unsigned long calls;
unsigned long vf_quiet;
#ifndef VF_NOWRAP
static FILE *full, *real;
__attribute__((constructor)) static void openFull(void) { full = fopen("/dev/full", "w"); if (full) setvbuf(full, NULL, _IONBF, 0); real = stderr; }
#endif
void vf_enter(void) {
	static const int e[] = {0, EINTR, ERANGE, EAGAIN, EINVAL, ENOENT, EIO, EILSEQ, ENOMEM};
	if (!vf_track++) {
		calls++; vf_world = calls * 2654435761u >> 7; errno = e[vf_world % (sizeof e / sizeof *e)];
#ifndef VF_NOWRAP
		// sometimes nobody reads the messages, and printing them fails
		if (full && vf_world % 5 == 0) { stderr = full; vf_quiet++; }
#endif
	}
}
void vf_leave(void) {
	--vf_track;
#ifndef VF_NOWRAP
	if (!vf_track && real) stderr = real;
#endif
}
#ifndef VF_NOWRAP
static char *env(const char *n, char *real) {
	static char v[6][8] = {"1", "", "0", "yes", "/tmp", "-1"};
	if (!vf_track || n == NULL) return real;
	unsigned long k = (vf_world ^ (unsigned char)n[0] * 7u ^ (unsigned long)strlen(n)) % 9;
	return k < 6 ? v[k] : real;
}
char *__wrap_getenv(const char *n) { return env(n, __real_getenv(n)); }
char *__wrap_secure_getenv(const char *n) { return env(n, __real_secure_getenv(n)); }
static long skew(void) { return vf_track ? (long)(vf_world * 40503u % 4000000007u) - 2000000000 : 0; }
time_t __wrap_time(time_t *t) { time_t x = __real_time(NULL) + skew(); if (t) *t = x; return x; }
int __wrap_gettimeofday(struct timeval *v, void *z) { int r = __real_gettimeofday(v, z); if (v) v->tv_sec += skew(); return r; }
int __wrap_clock_gettime(clockid_t c, struct timespec *v) { int r = __real_clock_gettime(c, v); if (v) v->tv_sec += skew(); return r; }
#endif
long vf_fd_count(void) {
	long n = 0; DIR *d = opendir("/proc/self/fd");
	if (!d) return -1;
	while (readdir(d)) n++;
	closedir(d);
	return n;
}

vf_io vf_ioplan;
unsigned char *vf_wlog; size_t vf_wlog_len;
#ifndef VF_NOWRAP
static uint64_t rnd(void) {
	uint64_t x = (vf_ioplan.rng += 0x9E3779B97F4A7C15ull);
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
static int oneIn(int n) { return n > 0 && rnd() % (unsigned)n == 0; }
static int burst(long n) { return vf_ioplan.burst && n >= vf_ioplan.burst_at && n < vf_ioplan.burst_at + vf_ioplan.burst; }
static void wouldWait(int fd) {
	int n = 0;
	for (int k = 0; vf_ioplan.on_empty && k < 3; k++) {
		struct pollfd p = {.fd = fd, .events = POLLIN};
		if (__real_poll(&p, 1, 0) != 0 || (ioctl(fd, FIONREAD, &n) == 0 && n > 0)) return;
		vf_ioplan.on_empty(fd);
	}
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
	static long eofs;
	if (!vf_ioplan.active) return __real_read(fd, b, n);
	vf_ioplan.reads++;
	wouldWait(fd);
	if (burst(vf_ioplan.reads)) { if (vf_ioplan.burst & 1) { vf_ioplan.eintrs++; errno = EINTR; } else { vf_ioplan.eagains++; errno = EAGAIN; } return -1; }
	if (vf_ioplan.fail_read_at >= 0 && vf_ioplan.reads > vf_ioplan.fail_read_at) {
		if (vf_ioplan.reads > vf_ioplan.fail_read_at + 100000) { dprintf(2, "VF-HANG: the library keeps reading from a descriptor that fails\n"); _exit(78); }
		errno = EIO; return -1;
	}
	if (oneIn(vf_ioplan.eintr)) { vf_ioplan.eintrs++; errno = EINTR; return -1; }
	if (oneIn(vf_ioplan.eagain)) { vf_ioplan.eagains++; errno = EAGAIN; return -1; }
	if (n > 1 && oneIn(vf_ioplan.short_reads)) { vf_ioplan.shorts++; n = 1 + rnd() % (n - 1); }
	ssize_t r = __real_read(fd, b, n);
	eofs = r == 0 && n ? eofs + 1 : 0;
	if (eofs > 100000) { dprintf(2, "VF-HANG: the library keeps reading at the end of the stream\n"); _exit(78); }
	return r;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
	if (vf_ioplan.active) {
		vf_ioplan.selects++;
		if (burst(vf_ioplan.reads) && vf_ioplan.burst % 3 == 0 && vf_ioplan.selects % 2) { vf_ioplan.eintrs++; errno = EINTR; return -1; }
		if (oneIn(vf_ioplan.select_eintr)) { vf_ioplan.eintrs++; errno = EINTR; return -1; }
		if (!t && r) for (int k = 0; k < n; k++) if (FD_ISSET(k, r)) wouldWait(k);
	}
	return __real_select(n, r, w, e, t);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	if (vf_ioplan.active) {
		vf_ioplan.selects++;
		if (burst(vf_ioplan.reads) && vf_ioplan.burst % 3 == 0 && vf_ioplan.selects % 2) { vf_ioplan.eintrs++; errno = EINTR; return -1; }
		if (oneIn(vf_ioplan.select_eintr)) { vf_ioplan.eintrs++; errno = EINTR; return -1; }
		if (t < 0 && n == 1 && (p->events & POLLIN)) wouldWait(p->fd);
	}
	return __real_poll(p, n, t);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	if (!vf_ioplan.active || !vf_track) return __real_write(fd, b, n);
	vf_ioplan.writes++;
	size_t k = n;
	switch (vf_ioplan.wmode) {
	case 1: // accept at most wk bytes once, then everything
		if (vf_ioplan.writes == 1 && (size_t)vf_ioplan.wk < n) k = (size_t)vf_ioplan.wk;
		break;
	case 2: if (vf_ioplan.writes == 1) { errno = EINTR; return -1; } break;
	case 3: errno = EIO; return -1;
	case 4: if (vf_ioplan.writes < 1000) return 0; errno = EIO; return -1;
	case 5: // wk bytes in total, then EIO
		if (vf_ioplan.waccepted >= (size_t)vf_ioplan.wk) { errno = EIO; return -1; }
		if (k > (size_t)vf_ioplan.wk - vf_ioplan.waccepted) k = (size_t)vf_ioplan.wk - vf_ioplan.waccepted;
		break;
	case 6: // EAGAIN after wk bytes
		if (vf_ioplan.waccepted >= (size_t)vf_ioplan.wk) { errno = vf_ioplan.writes > 1000 ? EIO : EAGAIN; return -1; }
		if (k > (size_t)vf_ioplan.wk - vf_ioplan.waccepted) k = (size_t)vf_ioplan.wk - vf_ioplan.waccepted;
		break;
	}
	ssize_t r = k ? __real_write(fd, b, k) : 0;
	if (r > 0) vf_ioplan.waccepted += (size_t)r;
	return r;
}
#endif

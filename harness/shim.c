// Preloaded into the worker processes: collects the coverage counters of the code under test, and
// accounts for (and on request refuses) the memory allocations it makes.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>

#define MAXR 256
static uint8_t *rs[MAXR]; static size_t rl[MAXR]; static int nr;
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
  for (int i = 0; i < nr; i++) if (rs[i] == a) return;
  if (nr < MAXR && b > a) { rs[nr] = a; rl[nr] = b - a; nr++; }
}
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) {}
int shim_cov_count(void) { return nr; }
void shim_cov_region(int i, uint8_t **p, size_t *l) { *p = rs[i]; *l = rl[i]; }

#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>
// Hash keys come from a fixed sequence, so that a run can be repeated.
static uint64_t rnd = 0x1234567;
ssize_t getrandom(void *b, size_t n, unsigned f) {
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) { rnd = rnd * 6364136223846793005ull + 1442695040888963407ull; p[i] = rnd >> 56; }
  return n;
}
long syscall(long nr, ...) {
  static long (*real)(long, ...);
  va_list a; va_start(a, nr);
  long x[6]; for (int i = 0; i < 6; i++) x[i] = va_arg(a, long);
  va_end(a);
  if (nr == SYS_getrandom) return getrandom((void *)x[0], x[1], x[2]);
  if (!real) real = dlsym(RTLD_NEXT, "syscall");
  return real(nr, x[0], x[1], x[2], x[3], x[4], x[5]);
}
#ifndef COVONLY
#include <malloc.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

static int gate;        // 1 while the code under test runs
static int tracking;    // 1: keep the table of live blocks
static long count;      // allocation requests made by the code under test since shim_reset
static long fail_at;    // 0: never; n: refuse request n
static long fail_all;   // refuse all from fail_at on
static long refused;
static long badfree;
static long maxreq;
static long peak, live_bytes;

#define TBL (1 << 18)
#define DEAD ((void *)1)
static void *tp[TBL]; static size_t ts[TBL]; static long live, used;
static void *up[TBL / 2]; static size_t us[TBL / 2];
static int overflow;
static unsigned hsh(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (TBL - 1); }
static void put(void *p, size_t n) {
  unsigned h = hsh(p);
  while (tp[h] && tp[h] != DEAD) h = (h + 1) & (TBL - 1);
  if (!tp[h]) used++;
  tp[h] = p; ts[h] = n;
}
static void add(void *p, size_t n) {
  if (!p || overflow) return;
  if (used > TBL / 2) {
    long k = 0;
    for (long i = 0; i < TBL; i++) if (tp[i] && tp[i] != DEAD) { up[k] = tp[i]; us[k] = ts[i]; k++; }
    if (k > TBL / 4) { overflow = 1; return; }
    memset(tp, 0, sizeof tp); used = 0;
    for (long i = 0; i < k; i++) put(up[i], us[i]);
  }
  put(p, n);
  live++; live_bytes += n; if (live_bytes > peak) peak = live_bytes;
}
static int del(void *p) {
  unsigned h = hsh(p);
  while (tp[h]) { if (tp[h] == p) { tp[h] = DEAD; live--; live_bytes -= ts[h]; return 1; } h = (h + 1) & (TBL - 1); }
  return 0;
}
void shim_gate(int g) { gate = g; }
void shim_reset(int track) { count = refused = badfree = maxreq = 0; fail_at = fail_all = 0; live = live_bytes = peak = 0; tracking = track; overflow = 0; if (used) { memset(tp, 0, sizeof tp); used = 0; } }
int shim_overflow(void) { return overflow; }
// calls f for every live block
void shim_each(void (*f)(void *, size_t)) { for (long i = 0; i < TBL; i++) if (tp[i] && tp[i] != DEAD) f(tp[i], ts[i]); }
void shim_track_off(void) { tracking = 0; fail_at = 0; }
void shim_fail(long n, long all) { fail_at = n; fail_all = all; count = 0; refused = 0; }
long shim_count(void) { return count; }
long shim_refused(void) { return refused; }
long shim_live(void) { return live; }
long shim_live_bytes(void) { return live_bytes; }
long shim_peak(void) { return peak; }
long shim_maxreq(void) { return maxreq; }
static int refuse(size_t n) {
  if (!gate) return 0;
  count++;
  if ((long)n > maxreq) maxreq = n;
  if (fail_at && (count == fail_at || (fail_all && count > fail_at))) { refused++; errno = ENOMEM; return 1; }
  return 0;
}
// New memory of the code under test is never zero by chance, and released memory does not keep what was there.
#define FILL 4096
static void fill(void *p, size_t n, int c) { if (p && gate) memset(p, c, n < FILL ? n : FILL); }
void *malloc(size_t n) { if (refuse(n)) return 0; void *p = __libc_malloc(n); fill(p, n, 0xA5); if (gate && tracking) add(p, n); return p; }
void *calloc(size_t a, size_t b) { if (refuse(a * b)) return 0; void *p = __libc_calloc(a, b); if (gate && tracking) add(p, a * b); return p; }
void *realloc(void *o, size_t n) {
  if (refuse(n)) return 0;
  if (gate) {
    // always to another place
    void *p = __libc_malloc(n ? n : 1);
    if (!p) return 0;
    size_t k = o ? malloc_usable_size(o) : 0;
    if (k < n) fill((char *)p + k, n - k, 0xA5);
    memcpy(p, o ? o : p, k < n ? k : n);
    if (o) { if (tracking) del(o); fill(o, k, 0xDB); __libc_free(o); }
    if (tracking) add(p, n);
    return p;
  }
  if (tracking && o) {
    int mine = del(o);
    void *p = __libc_realloc(o, n);
    if (mine) { if (p) add(p, n); else if (n) add(o, 0); }
    return p;
  }
  void *p = __libc_realloc(o, n);
  if (gate && tracking) add(p, n);
  return p;
}
void free(void *p) { if (tracking && p) del(p); if (p && gate) fill(p, malloc_usable_size(p), 0xDB); __libc_free(p); }
void *memalign(size_t a, size_t n) { if (refuse(n)) return 0; void *p = __libc_memalign(a, n); if (gate && tracking) add(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
#endif

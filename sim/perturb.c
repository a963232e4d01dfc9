// Preloaded into the simulated process: everything the environment is free to
// choose (heap contents and addresses, stack garbage, host clock, process id)
// is drawn from DST_PERTURB instead.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

static uint64_t st;
static int on = -1;
static uint64_t rnd(void) {
  uint64_t z = (st += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
extern char **environ;
static void init(void) {
  on = 0;
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, "DST_PERTURB=", 12)) {
      on = 1;
      for (const char *c = *e + 12; *c; c++) st = st * 31 + (unsigned char)*c;
    }
}
static void fill(void *p, size_t n) {
  if (!p) return;
  uint64_t mode = rnd() & 3, v = rnd();
  if (mode == 0) { memset(p, (int)(v & 0xff), n); return; }
  if (mode == 1) { memset(p, 0x01, n); return; }
  unsigned char *c = p;
  for (size_t i = 0; i < n; i++) { c[i] = (unsigned char)(v >> ((i & 7) * 8)); if ((i & 7) == 7) v = v * 6364136223846793005ull + 1442695040888963407ull; }
}
#define HOLD 64
static void *held[HOLD];
static unsigned nheld;
void *malloc(size_t n) {
  if (on < 0 && environ) init();
  if (on <= 0) return __libc_malloc(n);
  uint64_t r = rnd();
  if ((r & 15) == 0) {                  // moves later blocks around
    unsigned k = nheld++ % HOLD;
    if (held[k]) __libc_free(held[k]);
    held[k] = __libc_malloc(16 + ((r >> 8) & 0x3ff));
  }
  void *p = __libc_malloc(n + ((r >> 20) & 0x70));
  fill(p, n);
  return p;
}
#define LATE 128
static void *late[LATE];
void free(void *p) {
  if (on <= 0 || !p) { __libc_free(p); return; }
  unsigned k = rnd() % LATE;            // freed blocks come back in another order
  void *q = late[k];
  late[k] = p;
  __libc_free(q);
}
void *realloc(void *p, size_t n) { return p ? __libc_realloc(p, n) : malloc(n); }
void *aligned_alloc(size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  if (on > 0) fill(p, n);
  return p;
}
int posix_memalign(void **o, size_t a, size_t n) {
  *o = aligned_alloc(a, n);
  return *o ? 0 : 12;
}

static uint64_t skew(void) { return on > 0 ? rnd() % 1000000007u : 0; }
time_t time(time_t *t) {
  time_t v = on > 0 ? (time_t)(1000000000u + skew()) : 1000000000;
  if (t) *t = v;
  return v;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  tv->tv_sec = time(NULL);
  tv->tv_usec = skew() % 1000000;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  (void)c;
  ts->tv_sec = time(NULL);
  ts->tv_nsec = skew();
  return 0;
}
clock_t clock(void) { return (clock_t)(on > 0 ? skew() : 1); }
pid_t getpid(void) { return on > 0 ? (pid_t)(2 + skew() % 30000) : 2; }

static __attribute__((noinline)) void dirt(size_t n) {
  volatile unsigned char a[1024];
  for (size_t i = 0; i < sizeof a; i++) a[i] = (unsigned char)rnd();
  if (n) dirt(n - 1);
  (void)a[3];
}
static __attribute__((constructor)) void start(void) {
  if (on < 0) init();
  if (on > 0) dirt(400);
}

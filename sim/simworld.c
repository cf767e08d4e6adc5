/* libsimworld.so: the identity of the simulated machine, for checks that compare whole processes.
 *
 * LD_PRELOADed into a simulated process.  What the process can learn about itself and its surroundings is a pure function of its plan:
 *   SIMWORLD_CLOCK    wall clock at start, seconds since the epoch; every reading advances it by SIMWORLD_TICK nanoseconds
 *   SIMWORLD_PID      process identity
 *   SIMWORLD_ENTROPY  seed of the operating system's entropy source
 * Monotonic clocks stay real: they are only used for waiting.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int64_t clock0 = -1, tick = 1000000;
static long ticks = 0, reads = 0, draws = 0;
static pid_t pid = 0;
static uint64_t ent = 0;
static int has_ent = 0;

__attribute__((constructor)) static void init(void) {
  const char *s;
  if ((s = getenv("SIMWORLD_CLOCK"))) clock0 = atoll(s) * 1000000000LL;
  if ((s = getenv("SIMWORLD_TICK"))) tick = atoll(s);
  if ((s = getenv("SIMWORLD_PID"))) pid = (pid_t)atoi(s);
  if ((s = getenv("SIMWORLD_ENTROPY"))) { ent = strtoull(s, NULL, 10) * 2862933555777941757ULL + 3037000493ULL; has_ent = 1; }
}
long simworld_clock_reads(void) { return __atomic_load_n(&reads, __ATOMIC_SEQ_CST); }
long simworld_entropy_draws(void) { return __atomic_load_n(&draws, __ATOMIC_SEQ_CST); }

static int64_t now(void) { __atomic_add_fetch(&reads, 1, __ATOMIC_SEQ_CST); return clock0 + __atomic_add_fetch(&ticks, 1, __ATOMIC_SEQ_CST) * tick; }

int clock_gettime(clockid_t id, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  if (clock0 < 0 || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return real(id, ts);
  int64_t t = now(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  static int (*real)(struct timeval *, void *);
  if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
  if (clock0 < 0) return real(tv, tz);
  int64_t t = now(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0;
}
time_t time(time_t *o) {
  static time_t (*real)(time_t *);
  if (!real) real = dlsym(RTLD_NEXT, "time");
  if (clock0 < 0) return real(o);
  time_t t = now() / 1000000000; if (o) *o = t; return t;
}
pid_t getpid(void) {
  static pid_t (*real)(void);
  if (pid) return pid;
  if (!real) real = dlsym(RTLD_NEXT, "getpid");
  return real();
}
static void fill(unsigned char *b, size_t n) {
  __atomic_add_fetch(&draws, 1, __ATOMIC_SEQ_CST);
  for (size_t i = 0; i < n; i++) { ent ^= ent << 13; ent ^= ent >> 7; ent ^= ent << 17; b[i] = (unsigned char)(ent >> 32); }
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  static ssize_t (*real)(void *, size_t, unsigned);
  if (!real) real = dlsym(RTLD_NEXT, "getrandom");
  if (!has_ent) return real(b, n, f);
  fill(b, n); return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  static int (*real)(void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "getentropy");
  if (!has_ent) return real(b, n);
  fill(b, n); return 0;
}

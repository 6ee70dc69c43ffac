/* LD_PRELOAD: system clock of a simulated run, with scheduled jumps and stalls. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <dlfcn.h>
#include <stddef.h>

static int armed;
static long long now_ns, mono_ns, step_ns, ncalls;
static int nj;
static long long at[64], jump[64];
static int kind[64];   /* 0: system clock jumps, 1: everything stalls for a while */

static void advance(void) {
  ncalls++;
  now_ns += step_ns;
  mono_ns += step_ns;
  for (int i = 0; i < nj; i++)
    if (at[i] == ncalls) {
      now_ns += jump[i];
      if (kind[i]) mono_ns += jump[i];
    }
  if (now_ns < 1000000000LL) now_ns = 1000000000LL;
}

void trv_clock_arm(long long base, long long step, int n, const long long *a, const long long *j, const int *k) {
  now_ns = base; mono_ns = 100000000000000000LL; /* after every time read before */ step_ns = step; ncalls = 0;
  nj = n > 64 ? 64 : n;
  for (int i = 0; i < nj; i++) { at[i] = a[i]; jump[i] = j[i]; kind[i] = k[i]; }
  armed = 1;
}
long long trv_clock_disarm(void) { armed = 0; return ncalls; }

static int real_gettime(clockid_t id, struct timespec *ts) {
  static int (*f)(clockid_t, struct timespec *);
  if (!f) f = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  return f(id, ts);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!armed || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_MONOTONIC_RAW && id != CLOCK_BOOTTIME))
    return real_gettime(id, ts);
  advance();
  long long t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? now_ns : mono_ns;
  ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
  return 0;
}

time_t time(time_t *p) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

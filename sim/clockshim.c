/* LD_PRELOAD shim: a simulated wall, monotonic and CPU clock.  SIM_CLOCK="offset_seconds,rate_percent". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static int (*real)(clockid_t, struct timespec *);
static double offset, rate = 1.0, base[16];
static int ready, seen[16];

static void init(void) {
  real = dlsym(RTLD_NEXT, "clock_gettime");
  const char *s = getenv("SIM_CLOCK");
  double o = 0, r = 100;
  if (s && sscanf(s, "%lf,%lf", &o, &r) >= 1) { offset = o; rate = r / 100.0; }
  ready = 1;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!ready) init();
  int rc = real(id, ts);
  if (rc || id < 0 || id >= 16) return rc;
  double t = ts->tv_sec + ts->tv_nsec * 1e-9;
  if (!seen[id]) { seen[id] = 1; base[id] = t; }
  double v = base[id] + (t - base[id]) * rate + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? offset : (offset > 0 ? offset : 0));
  ts->tv_sec = (time_t)v;
  ts->tv_nsec = (long)((v - (double)ts->tv_sec) * 1e9);
  return 0;
}

time_t time(time_t *p) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}

int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

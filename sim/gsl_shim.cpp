// GSL interpolation seam: the library is not instrumented, but an
// interpolation accelerator is mutable state which callers may share between
// threads. Evaluating a spline here walks the accelerator as GSL does, with
// each access visible to the scheduler, the conflict detector and the heap.
#include "sim.h"
#include <gsl/gsl_spline.h>
#include <gsl/gsl_errno.h>
#include <dlfcn.h>
#include <cmath>
#define EXP extern "C" __attribute__((visibility("default")))
extern "C" void __tsan_read8(void*); extern "C" void __tsan_write8(void*);
typedef double (*ev_t)(const gsl_spline*, double, gsl_interp_accel*);
typedef int (*eve_t)(const gsl_spline*, double, gsl_interp_accel*, double*);
static size_t find(gsl_interp_accel* a, const double* xa, size_t n, double x) {
  __tsan_read8(&a->cache); size_t i = a->cache;
  if (i + 1 >= n) i = n - 2;
  if (x < xa[i]) { size_t k = gsl_interp_bsearch(xa, x, 0, i); __tsan_write8(&a->cache); a->cache = k; a->miss_count++; }
  else if (x >= xa[i + 1]) { size_t k = gsl_interp_bsearch(xa, x, i, n - 1); __tsan_write8(&a->cache); a->cache = k; a->miss_count++; }
  else a->hit_count++;
  __tsan_read8(&a->cache);
  return a->cache;
}
static double eval(const gsl_spline* s, double x, gsl_interp_accel* a) {
  static ev_t real = (ev_t)dlsym(RTLD_NEXT, "gsl_spline_eval");
  __tsan_read8((void*)&s->interp); __tsan_read8((void*)&s->interp->xmin);
  if (!a || !rt::in_parallel()) { if (a) __tsan_write8(&a->cache); return real(s, x, a); }
  if (x < s->interp->xmin || x > s->interp->xmax) return real(s, x, a);
  size_t n = s->size, i = find(a, s->x, n, x);
  gsl_interp_accel p = {0, 0, 0};
  if (i + 1 >= n) i = n - 2;
  if ((x >= s->x[i] && x < s->x[i + 1]) || (i + 2 == n && x == s->x[i + 1])) { p.cache = i; return real(s, x, &p); }
  // another thread moved the cached index: GSL evaluates the cubic of that interval
  double t[4], y[4], r = 0;
  for (int k = 0; k < 4; k++) { t[k] = s->x[i] + (s->x[i + 1] - s->x[i]) * k * 0.25; p.cache = i; y[k] = real(s, t[k], &p); }
  for (int k = 0; k < 4; k++) { double w = 1; for (int j = 0; j < 4; j++) if (j != k) w *= (x - t[j]) / (t[k] - t[j]); r += w * y[k]; }
  return r;
}
EXP double gsl_spline_eval(const gsl_spline* s, double x, gsl_interp_accel* a) { return eval(s, x, a); }
EXP int gsl_spline_eval_e(const gsl_spline* s, double x, gsl_interp_accel* a, double* y) {
  static eve_t real = (eve_t)dlsym(RTLD_NEXT, "gsl_spline_eval_e");
  if (!rt::in_parallel() || !a || x < s->interp->xmin || x > s->interp->xmax) return real(s, x, a, y);
  *y = eval(s, x, a); return GSL_SUCCESS;
}
EXP size_t gsl_interp_accel_find(gsl_interp_accel* a, const double xa[], size_t n, double x) { return find(a, xa, n, x); }

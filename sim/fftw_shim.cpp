// FFTW planner seam: measured planning is replaced by a seeded choice of
// (real) plans, and the arrays are scribbled on as the planner may do.
#include "sim.h"
#include <fftw3.h>
#include <dlfcn.h>
#include <cstdio>
namespace fsh {
uint64_t plans, scribbles, wis_imports, wis_exports, variants;
static Cfg cfg; static bool on = false; static Rng rng(1);
void begin(const Cfg& c) { cfg = c; on = true; rng = Rng(c.seed); plans = scribbles = wis_imports = wis_exports = variants = 0; }
void end() { on = false; }
static unsigned choose(unsigned flags) {
  unsigned f = flags & (FFTW_DESTROY_INPUT | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED | FFTW_WISDOM_ONLY);
  f |= FFTW_ESTIMATE;
  if (on && cfg.vary) switch (rng.below(5)) {   // undocumented but stable planner restrictions
    case 0: f |= (1u << 17); variants++; break;   // no SIMD
    case 1: f |= (1u << 14); variants++; break;   // no rank splits
    case 2: f |= FFTW_UNALIGNED; variants++; break;
    default: break;
  }
  return f;
}
static void scribble(fftw_complex* a, long n, unsigned flags) {
  if (!on || !cfg.scribble || (flags & (FFTW_ESTIMATE | FFTW_WISDOM_ONLY))) return;
  scribbles++;
  if (rng.chance(0.2)) return;
  for (long i = 0; i < n; i++) { a[i][0] = (rng.unif() - 0.5) * 1e4; a[i][1] = (rng.unif() - 0.5) * 1e4; }
}
// ledger of plans: arrays, size, alignment
struct PL { fftw_plan p; fftw_complex *in, *out; long n; };
static PL ledger[4096]; static int npl;
int64_t live_plans() { return npl; }
static void enter(fftw_plan p, fftw_complex* in, fftw_complex* out, long n) { if (p && npl < 4096) ledger[npl++] = PL{p, in, out, n}; }
static PL* look(fftw_plan p) { for (int i = npl - 1; i >= 0; i--) if (ledger[i].p == p) return &ledger[i]; return nullptr; }
static void use(fftw_plan p, fftw_complex* in, fftw_complex* out, bool given) {
  PL* e = look(p);
  if (!e) { if (npl < 4096) sim_violation("plan-misuse", "a destroyed or unknown FFTW plan was executed"); return; }
  if (!given) { in = e->in; out = e->out; }
  else if ((((uintptr_t)in ^ (uintptr_t)e->in) & 15) || (((uintptr_t)out ^ (uintptr_t)e->out) & 15)) sim_violation("plan-misuse", "an FFTW plan was executed on an array of another alignment");
  mem::check_block(in, e->n * sizeof(fftw_complex), "transform input"); mem::check_block(out, e->n * sizeof(fftw_complex), "transform output");
}
}
using namespace fsh;
extern "C" {
void fftw_execute(const fftw_plan p) {
  static auto f = (void (*)(fftw_plan))dlsym(RTLD_NEXT, "fftw_execute");
  use(p, nullptr, nullptr, false); mem::Pause q; f(p);
}
void fftw_execute_dft(const fftw_plan p, fftw_complex* in, fftw_complex* out) {
  static auto f = (void (*)(fftw_plan, fftw_complex*, fftw_complex*))dlsym(RTLD_NEXT, "fftw_execute_dft");
  use(p, in, out, true); mem::Pause q; f(p, in, out);
}
void fftw_destroy_plan(fftw_plan p) {
  static auto f = (void (*)(fftw_plan))dlsym(RTLD_NEXT, "fftw_destroy_plan");
  if (p) { PL* e = look(p); if (!e && npl < 4096) sim_violation("plan-misuse", "an FFTW plan was destroyed twice"); if (e) *e = ledger[--npl]; }
  mem::Pause q; f(p);
}
fftw_plan fftw_plan_dft_3d(int a, int b, int c, fftw_complex* in, fftw_complex* out, int sign, unsigned fl) {
  static auto f = (fftw_plan(*)(int, int, int, fftw_complex*, fftw_complex*, int, unsigned))dlsym(RTLD_NEXT, "fftw_plan_dft_3d");
  mem::Pause p; plans++;
  fftw_plan pl = f(a, b, c, in, out, sign, choose(fl));
  long n = (long)a * b * c; enter(pl, in, out, n); scribble(in, n, fl); if (out != in) scribble(out, n, fl);
  return pl;
}
fftw_plan fftw_plan_dft_1d(int a, fftw_complex* in, fftw_complex* out, int sign, unsigned fl) {
  static auto f = (fftw_plan(*)(int, fftw_complex*, fftw_complex*, int, unsigned))dlsym(RTLD_NEXT, "fftw_plan_dft_1d");
  mem::Pause p; plans++;
  fftw_plan pl = f(a, in, out, sign, choose(fl));
  enter(pl, in, out, a); scribble(in, a, fl); if (out != in) scribble(out, a, fl);
  return pl;
}
int fftw_import_wisdom_from_file(FILE* fp) {
  static auto f = (int (*)(FILE*))dlsym(RTLD_NEXT, "fftw_import_wisdom_from_file");
  mem::Pause p; int r = f(fp); wis_imports += r ? 1 : 0; return r;
}
int fftw_import_wisdom_from_filename(const char* n) {
  static auto f = (int (*)(const char*))dlsym(RTLD_NEXT, "fftw_import_wisdom_from_filename");
  mem::Pause p; int r = f(n); wis_imports += r ? 1 : 0; return r;
}
int fftw_export_wisdom_to_filename(const char* n) {
  static auto f = (int (*)(const char*))dlsym(RTLD_NEXT, "fftw_export_wisdom_to_filename");
  mem::Pause p; int r = f(n); wis_exports += r ? 1 : 0; return r;
}
}

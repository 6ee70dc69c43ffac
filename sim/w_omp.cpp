// Schedule campaigns: C01 two-point, C02 three-point.
#include "w_common.h"
#include <cmath>
using namespace drv;
namespace {
struct S { wl::W w; Out ref; std::vector<double> spr; };
bool setup(Case& cs, int npoint) {
  Rng r(mix64(cs.seed, 11)); S* s = new S; cs.w = s;
  s->w = wl::gen(r, npoint, cs.tier);
  sample("%s", s->w.describe().c_str());
  wl::run_reference(1, 0, [&] { s->ref = wl::measure(s->w); });
  if (!s->ref.err.empty()) { count("rejected_workloads"); return false; }
  Out p; wl::run_reference(2, 0, [&] { p = wl::measure(s->w, 77 + cs.seed); });
  s->spr = spread(s->ref, p);
  return true;
}
bool setup2(Case& c) { return setup(c, 2); }
bool setup3(Case& c) { return setup(c, 3); }
int nvar2(Case& c) { return c.tier ? 10 : 6; }
int nvar3(Case& c) { return c.tier ? 8 : 5; }
void exec(Case& cs, Variant& v) {
  S* s = (S*)cs.w;
  Rng r(mix64(cs.seed, 1000 + v.id));
  Out o;
  wl::SR sr = wl::run_scheduled(cs, v, r, [&] { o = wl::measure(s->w); });
  std::string d = compare(s->ref, o, s->spr);
  if (!d.empty()) sim_violation("schedule-dependence", "with %d threads: %s", sr.nthr, d.c_str());
}
Reg r2(Campaign{"omp2", "C01", setup2, nvar2, exec, 0});
Reg r3(Campaign{"omp3", "C02", setup3, nvar3, exec, 0});

// C06: any plan, any planner effort, any scribbling on the arrays
bool setupP(Case& cs) {
  Rng r(mix64(cs.seed, 12)); S* s = new S; cs.w = s;
  s->w = wl::gen(r, r.chance(0.5) ? 2 : 3, cs.tier); s->w.fftw = "estimate"; s->w.norms = r.chance(0.6);
  sample("%s", s->w.describe().c_str());
  wl::run_reference(1, 0, [&] { s->ref = wl::measure(s->w); });
  if (!s->ref.err.empty()) { count("rejected_workloads"); return false; }
  Out p; wl::run_reference(2, 0, [&] { p = wl::measure(s->w, 77 + cs.seed); });
  s->spr = spread(s->ref, p);
  return true;
}
int nvarP(Case& c) { return c.tier ? 12 : 8; }
void execP(Case& cs, Variant& v) {
  S* s = (S*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  ev.push_back(Ev{E_MISC, r.below(3), (int64_t)(r.next() >> 2), (uint64_t)r.range(0, 3)});
  ev.push_back(Ev{E_MISC, 10, r.range(1, 3), 0});
  if (v.replay) ev = v.ev;
  set_events(ev);
  static const char* sch[] = {"estimate", "measure", "patient"};
  uint64_t seed = 1; int fill = 0, rep = 1; wl::W w = s->w;
  for (auto& e : ev) { if (e.type != E_MISC) continue; if (e.a < 3) { w.fftw = sch[e.a]; seed = e.b; fill = (int)e.c; } else rep = (int)e.b; }
  rt::Cfg c; c.nthr = 1; c.mode = rt::SEQ;
  Out o[3]; uint64_t h = seed;
  wl::sim_begin(c, seed, fill, true); for (int i = 0; i < rep; i++) o[i] = wl::measure(w); 
  shm->sim_ns += vclock::covered_ns; wl::sim_end();
  count("fault_planner_scribble", fsh::scribbles); count("fault_planner_variant", fsh::variants); count("planned_transforms", fsh::plans); if (fill) count("fault_heap_garbage");
  if (fsh::scribbles + fsh::variants) state_hash(mix64(cs.seed, h));
  for (int i = 0; i < rep; i++) {
    std::string d = compare(s->ref, o[i], s->spr);
    if (!d.empty()) sim_violation("planner-dependence", "scheme %s, measurement %d: %s", w.fftw.c_str(), i + 1, d.c_str());
  }
}
Reg rP(Campaign{"planner", "C06", setupP, nvarP, execP, 0});
}

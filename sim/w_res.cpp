// C11: memory, plans and resource counters over histories of measurements and
// catalogue operations in one process, with allocation failures.
#include "w_common.h"
#include <cmath>
using namespace drv;
namespace trvs = trv::sys;
namespace {
template <class T> T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
struct M { std::vector<wl::W> w; std::vector<Out> ref; std::vector<std::vector<double>> spr; std::vector<uint64_t> nalloc; };
Out keep(const Out& o) { mem::Pause p; Out q; q.err = std::string(o.err.c_str()); for (auto& s : o.s) q.s.push_back(Out::Sec{std::string(s.name.c_str()), s.kind, s.floor, std::vector<double>(s.v.begin(), s.v.end())}); return q; }
struct Cnt { double gb; int r, c; float g; };
Cnt now() { return Cnt{trvs::gbytesMem, trvs::count_rgrid, trvs::count_cgrid, trvs::count_grid}; }
std::string range() {
  char b[200]; if (trvs::gbytesMem < 0 || trvs::count_rgrid < 0 || trvs::count_cgrid < 0 || trvs::count_grid < 0) { snprintf(b, 200, "negative usage: %g GiB, %d real, %d complex grids", trvs::gbytesMem, trvs::count_rgrid, trvs::count_cgrid); return b; }
  if (trvs::gbytesMaxMem < trvs::gbytesMem || trvs::max_count_rgrid < trvs::count_rgrid || trvs::max_count_cgrid < trvs::count_cgrid || trvs::max_count_grid < trvs::count_grid) { snprintf(b, 200, "peak below current: %g of %g GiB, %d of %d real, %d of %d complex grids", trvs::gbytesMaxMem, trvs::gbytesMem, trvs::max_count_rgrid, trvs::count_rgrid, trvs::max_count_cgrid, trvs::count_cgrid); return b; }
  return "";
}
void meta(const wl::W& w) {   // sizes of grids must match what is reported while they live
  trv::ParameterSet p; wl::to_params(w, p); Cnt a = now(); int64_t b0 = mem::live_bytes();
  {
    trv::MeshField f(p, true, "f"); Cnt b = now(); double want = (p.interlace == "true" ? 2. : 1.) * 16. * p.nmesh / 1073741824.;
    if (std::fabs(b.gb - a.gb - want) > 1e-12) sim_violation("reported-memory", "a mesh field of %g GiB is reported as %g GiB", want, b.gb - a.gb);
    double real = (mem::live_bytes() - b0) / 1073741824.; if (real < want * (1 - 1e-12)) sim_violation("reported-memory", "a mesh field reported as %g GiB holds %g GiB", want, real);
  }
}
bool setup(Case& cs) {
  Rng r(mix64(cs.seed, 111)); M* m = new M; cs.w = m; int n = r.range(1, 3);
  for (int i = 0; i < n; i++) { wl::W w = wl::gen(r, r.chance(0.55) ? 2 : 3, 0); w.verbose = 60; w.progbar = r.chance(0.2) ? "true" : "false"; w.wisdom = ""; if (w.ng[0] > 10) for (int a = 0; a < 3; a++) w.ng[a] = 8; m->w.push_back(w); }
  for (int i = 0; i < n; i++) {
    Out o, q; uint64_t na = 0;
    wl::run_reference(1, 0, [&] { trvs::logger.reset_level(60); { Out x = wl::measure(m->w[i]); o = keep(x); } na = mem::n_alloc; });
    wl::run_reference(1, 2, [&] { Out x = wl::measure(m->w[i], 77); q = keep(x); });
    m->ref.push_back(o); m->nalloc.push_back(na); m->spr.push_back(spread(o, q));
  }
  sample("%d workloads, first: %s", n, m->w[0].describe().c_str()); return true;
}
int nv(Case& c) { return c.tier ? 12 : 8; }
void exec(Case& cs, Variant& v) {
  M* m = (M*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev; int L = r.range(1, 5);
  // E_MISC a: step kind (0 measure, 1 catalogue history, 2 mesh fields), b: workload; E_ALLOC a: step*1e6+index in the step
  for (int i = 0; i < L; i++) {
    int k = pick(r, {0, 0, 0, 0, 1, 2}), w = (int)r.below(m->w.size()); ev.push_back(Ev{E_MISC, (uint64_t)k, w, r.next() >> 20});
    if (r.chance(0.35)) { uint64_t n = k == 0 ? m->nalloc[w] : 120; uint64_t at = r.chance(0.4) ? r.below(std::min<uint64_t>(n, 150) + 1) : r.below(n + 1); ev.push_back(Ev{E_ALLOC, at, (int64_t)(r.chance(0.7) ? 1 : r.chance(0.5) ? 4 : 1000000), 0}); }
  }
  int fill = r.range(0, 3), nthr = pick(r, {1, 1, 2, 3, 4}); uint64_t seed = r.next();
  if (v.replay) ev = v.ev;
  set_events(ev);
  uint64_t h = cs.seed; for (auto& e : ev) h = mix64(h, e.a * 131 + e.b * 17 + e.type);
  bool fails = false; for (auto& e : ev) if (e.type == E_ALLOC) fails = true;
  int step = -1; uint64_t nf = 0, judged = 0;
  for (size_t i = 0; i < ev.size(); i++) {
    if (ev[i].type != E_MISC) continue;
    step++; Ev& e = ev[i]; const wl::W& w = m->w[e.b % m->w.size()]; size_t wi = e.b % m->w.size();
    mem::Cfg mc; mc.fill = fill; mc.seed = mix64(seed, step); if (i + 1 < ev.size() && ev[i + 1].type == E_ALLOC) { mc.fail_at = ev[i + 1].a; mc.fail_count = ev[i + 1].b; }
    fsh::Cfg fc; fc.seed = mc.seed; fc.vary = fc.scribble = 0; rt::Cfg rc; rc.nthr = nthr; rc.mode = rt::SEQ; rc.seed = mc.seed;
    Cnt c0 = now(); int64_t p0 = fsh::live_plans(); Out o; bool threw = false;
    mem::begin(mc); fsh::begin(fc); vclock::begin(vclock::Cfg()); rt::begin(rc); trvs::logger.reset_level(60);
    if (e.a == 0) { Out x = wl::measure(w); o = keep(x); threw = !o.err.empty() && o.err != m->ref[wi].err; }
    else if (e.a == 1) {
      Rng q(e.c);
      try {
        trv::ParticleCatalogue cat(60), cat2(60); auto put = [&](trv::ParticleCatalogue& c, const wl::Particles& p, size_t n) { auto cut = [n](const std::vector<double>& v) { return std::vector<double>(v.begin(), v.begin() + std::min(n, v.size())); }; c.load_particle_data(cut(p.x), cut(p.y), cut(p.z), cut(p.nz), cut(p.ws), cut(p.wc)); };
        const wl::Particles& a = w.d.x.empty() ? w.r : w.d;
        for (int k = q.range(1, 6); k > 0; k--) {
          trv::ParticleCatalogue& c = q.chance(0.7) ? cat : cat2;
          switch (q.below(4)) {
            case 0: case 1: put(c, a, 1 + q.below(a.x.size())); break;
            case 2: c.finalise_particles(); break;
            default: try { c.initialise_particles(q.range(-1, 40)); } catch (const trvs::InvalidParameterError&) {} 
          }
          std::string s = range(); if (!s.empty()) sim_violation("counter-range", "after catalogue operation: %s", s.c_str());
          double want = (cat.pdata ? cat.ntotal : 0) + (cat2.pdata ? cat2.ntotal : 0); want *= sizeof(trv::ParticleData) / 1073741824.;
          if (std::fabs(trvs::gbytesMem - c0.gb - want) > 1e-12) sim_violation("reported-memory", "catalogues of %g GiB are reported as %g GiB", want, trvs::gbytesMem - c0.gb);
        }
      } catch (const std::exception&) { threw = true; }
    } else {
      try { meta(w); } catch (const std::exception&) { threw = true; }
    }
    size_t nl; char leak[200] = ""; { mem::Pause p; auto l = mem::live(); nl = l.size(); size_t b = 0; for (auto& x : l) b += x.size; if (nl) snprintf(leak, 200, "%zu blocks (%zu bytes), first of %zu bytes allocated at pc %llx", nl, b, l[0].size, (unsigned long long)(l[0].pc - text_base())); }
    mem::check_all_redzones(); int64_t failed = mem::n_failed; rt::end(); vclock::end(); fsh::end(); mem::end();
    nf += failed;
    std::string s = range(); if (!s.empty()) sim_violation("counter-range", "after step %d: %s", step, s.c_str());
    if (failed || threw) {
      if (threw && !failed) sim_violation("failed-without-fault", "step %d failed: %s, alone it %s", step, o.err.c_str(), m->ref[wi].err.empty() ? "returns" : m->ref[wi].err.c_str());
      if (threw || !o.err.empty()) { count("failed_steps"); continue; }
    }
    judged++; Cnt c1 = now();
    if (nl) sim_violation("leak", "step %d (kind %d, %s) left %s", step, (int)e.a, w.stat.c_str(), leak);
    if (fsh::live_plans() != p0) sim_violation("plan-leak", "step %d (kind %d, %s) left %lld plans", step, (int)e.a, w.stat.c_str(), (long long)(fsh::live_plans() - p0));
    if (std::fabs(c1.gb - c0.gb) > 1e-12 || c1.r != c0.r || c1.c != c0.c || c1.g != c0.g) sim_violation("counters", "step %d (kind %d, %s) changed the reported usage by %g GiB, %d real, %d complex, %g grids", step, (int)e.a, w.stat.c_str(), c1.gb - c0.gb, c1.r - c0.r, c1.c - c0.c, c1.g - c0.g);
    if (e.a == 0) { std::string d = compare(m->ref[wi], o, m->spr[wi], nthr == 1 ? 1e-11 : 1e-8); if (!d.empty()) sim_violation("history", "step %d (%s) after %d steps%s: %s", step, w.stat.c_str(), step, nf ? " with failures" : "", d.c_str()); }
  }
  count("steps_judged", judged); if (nf) count("fault_alloc-fail", nf); if (fill) count("fault_heap_garbage"); if (step > 0 || fails) state_hash(h);
}
Reg rr(Campaign{"resources", "C11", setup, nv, exec, 0});
}

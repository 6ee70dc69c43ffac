// C16: transform objects (FFTLog / spherical Bessel, mesh fields and field
// statistics) reused over seeded histories against fresh objects.
#include "w_common.h"
#include "fftlog.hpp"
#include <cmath>
#include <limits>
using namespace drv;
typedef std::complex<double> cd;
typedef std::vector<cd> vcd;
namespace {
template <class T> T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
// ------------------------------------------------------------ FFTLog ----
struct Conf { bool sph; double mu, q; int ell, n; bool threaded; std::vector<double> x; double krc; bool lowring; int extrap; double exp; };
struct TOut { std::string err; vcd y; std::vector<double> k; bool modified = false; };
struct H { std::vector<Conf> conf; std::vector<vcd> in; std::vector<int> dir; std::vector<std::vector<TOut>> ref; std::vector<std::vector<TOut>> ref2; };
Conf gconf(Rng& r) {
  Conf c; c.sph = r.chance(0.5); c.ell = r.range(0, 6); c.n = r.range(-1, 2); c.mu = r.chance(0.5) ? r.range(0, 4) + 0.5 : 3 * r.unif(); c.q = r.chance(0.5) ? 0 : 1.6 * (r.unif() - 0.5); c.threaded = r.chance(0.5);
  c.krc = r.chance(0.15) ? 0 : std::pow(10., r.unif() * 2 - 1); c.lowring = r.chance(0.6); c.extrap = r.chance(0.4) ? 0 : r.range(1, 4); c.exp = pick(r, {1., 1.5, 2., 2., 3., 4., 0.4});
  int N = pick(r, {3, 4, 8, 12, 16, 31, 32, 48, 64, 100, 127, 128, 200, 256}); if (c.extrap && r.chance(0.9)) N += N % 2;
  double lo = std::pow(10., -3 + 2 * r.unif()), step = 0.02 + 0.2 * r.unif(); if (r.chance(0.02)) N = r.range(0, 2);
  for (int i = 0; i < N; i++) c.x.push_back(lo * std::exp(i * step));
  if (N > 3 && r.chance(0.03)) c.x[N / 2] *= 1.3;
  return c;
}
trv::maths::HankelTransform* make(const Conf& c) { return c.sph ? new trv::maths::SphericalBesselTransform(c.ell, c.n, c.threaded) : new trv::maths::HankelTransform(c.mu, c.q, c.threaded); }
void init(trv::maths::HankelTransform* t, const Conf& c) { if (c.sph) static_cast<trv::maths::SphericalBesselTransform*>(t)->initialise(c.x, c.krc, c.lowring, c.extrap, c.exp); else t->initialise(c.x, c.krc, c.lowring, c.extrap, c.exp); }
// one transform; how: 0 plain, 1 in place (Hankel) or a wrongly sized output (spherical), 2 cosmological
TOut apply(trv::maths::HankelTransform* t, const Conf& c, const vcd& in, int dir, int how) {
  TOut o;
  try {
    vcd a(in), b; size_t n = t->nsamp;
    if (c.sph) {
      auto* s = static_cast<trv::maths::SphericalBesselTransform*>(t); b.resize(how == 1 ? n / 2 : n, cd(7, 7));
      if (dir) s->transform_cosmological_multipole(dir, a, b); else s->biased_transform(a, b);
    } else if (how == 1) { b = a; t->biased_transform(b.data(), b.data()); a = in; }
    else { b.resize(n); t->biased_transform(a.data(), b.data()); }
    mem::Pause p; o.modified = a != in && a.size() == in.size() && memcmp(a.data(), in.data(), a.size() * sizeof(cd)); o.y = b; o.y.resize(n); o.k = t->post_sampts;
  } catch (...) { o.err = describe_exception(); }
  return o;
}
bool setuph(Case& cs) {
  Rng r(mix64(cs.seed, 161)); H* m = new H; cs.w = m; int nc = r.range(1, 3), ni = r.range(2, 4);
  for (int i = 0; i < nc; i++) m->conf.push_back(gconf(r));
  if (nc > 1 && r.chance(0.5)) { m->conf[1].sph = m->conf[0].sph; m->conf[1].mu = m->conf[0].mu; m->conf[1].q = m->conf[0].q; m->conf[1].ell = m->conf[0].ell; m->conf[1].n = m->conf[0].n; }
  if (nc > 1 && r.chance(0.5)) {      // the same but for one or two features
    Conf& c = m->conf[1]; c = m->conf[0];
    for (int k = r.range(1, 2); k > 0; k--) switch (r.below(5)) {
      case 0: { double f = std::pow(10., r.unif() - 0.5); for (auto& x : c.x) x *= f; break; }
      case 1: { double f = 0.6 + r.unif(); for (auto& x : c.x) x = c.x[0] * std::pow(x / c.x[0], f); break; }
      case 2: c.krc = std::pow(10., r.unif() * 2 - 1); c.lowring = !c.lowring; break;
      case 3: c.extrap = c.extrap ? r.range(0, 4) : 0; break;
      default: c.exp = pick(r, {1.5, 2., 3.});
    }
  }
  size_t mx = 0; for (auto& c : m->conf) mx = std::max(mx, c.x.size());
  for (int i = 0; i < ni; i++) {
    vcd a(mx); double s = std::pow(10., 6 * r.unif() - 3); bool re = r.chance(0.6);
    for (size_t j = 0; j < mx; j++) a[j] = cd(s * (0.2 + r.unif()) * (r.chance(0.05) ? -1 : 1), re ? 0 : s * (r.unif() - 0.5));
    m->in.push_back(a); m->dir.push_back(pick(r, {0, 0, 1, -1}));
  }
  for (auto& c : m->conf) {
    std::vector<TOut> o;
    for (int i = 0; i < ni; i++) wl::run_reference(1, 0, [&] {
      trv::sys::logger.reset_level(60); TOut q;
      try { auto* t = make(c); try { init(t, c); q = apply(t, c, vcd(m->in[i].begin(), m->in[i].begin() + c.x.size()), m->dir[i], 0); } catch (...) { q.err = "init " + describe_exception(); } if (c.sph) delete static_cast<trv::maths::SphericalBesselTransform*>(t); else delete t; } catch (...) { q.err = "make " + describe_exception(); }
      mem::Pause p; o.push_back(q);
    });
    m->ref.push_back(o);
  }
  auto& c = m->conf[0]; sample("%d configurations, first: %s order %g bias %g, %zu points, lowring=%d extrap=%d x%g threaded=%d", nc, c.sph ? "spherical" : "Hankel", c.sph ? c.ell : c.mu, c.sph ? c.n : c.q, c.x.size(), c.lowring, c.extrap, c.exp, c.threaded);
  return true;
}
std::string cmp(const TOut& a, const TOut& b) {
  char s[300];
  if (a.err != b.err) { snprintf(s, 300, "%s instead of %s", b.err.empty() ? "returned" : b.err.c_str(), a.err.empty() ? "returning" : a.err.c_str()); return s; }
  if (b.modified) return "the input array was modified";
  if (a.k != b.k) return "the sample points differ";
  if (a.y.size() != b.y.size()) return "the sizes differ";
  double mx = 0; for (auto& z : a.y) if (std::isfinite(std::abs(z))) mx = std::max(mx, std::abs(z));
  // the output of a spherical transform spans many decades: judged relative to its envelope
  for (size_t j = 0; j < a.y.size(); j++) {
    double w = a.k.size() == a.y.size() ? 1 : 1; double env = 0; for (size_t i = j > 8 ? j - 8 : 0; i < std::min(a.y.size(), j + 9); i++) env = std::max(env, std::abs(a.y[i])); (void)w; (void)env;
    bool nf = !(std::isfinite(a.y[j].real()) && std::isfinite(a.y[j].imag())), ng = !(std::isfinite(b.y[j].real()) && std::isfinite(b.y[j].imag()));
    if (nf && ng) continue;
    if (nf != ng || !(std::abs(a.y[j] - b.y[j]) <= 1e-9 * mx)) { snprintf(s, 300, "sample %zu is (%.15g,%.15g) instead of (%.15g,%.15g)", j, b.y[j].real(), b.y[j].imag(), a.y[j].real(), a.y[j].imag()); return s; }
  }
  return "";
}
int nvh(Case& c) { return c.tier ? 16 : 10; }
void exech(Case& cs, Variant& v) {
  H* m = (H*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  // history: E_MISC op (a) on slot (b): 0 make+init, 1 init again with another configuration, 2 transform, 3 poison transform, 4 destroy, 5 use of another object, 6 failed init
  int L = r.range(4, 24); for (int i = 0; i < L; i++) ev.push_back(Ev{E_MISC, (uint64_t)pick(r, {0, 0, 1, 1, 2, 2, 2, 2, 2, 2, 3, 4, 6}), (int64_t)r.below(2), r.next() >> 20});
  if (r.chance(0.1)) ev.push_back(Ev{E_ALLOC, r.below(400), 1, 0});
  int fill = r.range(0, 3); uint64_t seed = r.next(); bool vary = r.chance(0.5);
  if (v.replay) ev = v.ev;
  set_events(ev);
  trv::maths::HankelTransform* t[2] = {nullptr, nullptr}; int conf[2] = {-1, -1}; bool ready[2] = {false, false}, known[2] = {true, true}; uint64_t h = cs.seed; std::string bad; int judged = 0;
  mem::Cfg mc; mc.fill = fill; mc.seed = seed; for (auto& e : ev) if (e.type == E_ALLOC) { mc.fail_at = e.a; mc.fail_count = e.b; }
  fsh::Cfg fc; fc.seed = seed; fc.vary = vary; fc.scribble = vary; rt::Cfg rc; rc.nthr = 1 + (int)(seed % 4); rc.mode = rt::SEQ; rc.seed = seed;
  mem::begin(mc); fsh::begin(fc); vclock::begin(vclock::Cfg()); rt::begin(rc); trv::sys::logger.reset_level(60);
  auto kill = [&](int s) { if (!t[s]) return; if (m->conf[conf[s]].sph) delete static_cast<trv::maths::SphericalBesselTransform*>(t[s]); else delete t[s]; t[s] = nullptr; ready[s] = false; };
  for (auto& e : ev) try {
    if (e.type != E_MISC || !bad.empty()) continue;
    h = mix64(h, e.a * 131 + e.b * 17 + e.c); Rng q(e.c); int s = (int)(e.b & 1), op = (int)e.a; int64_t f0 = mem::n_failed;
    if (op == 4) { kill(s); continue; }
    if (op == 0 || (!t[s] && op != 2)) {
      kill(s); conf[s] = (int)q.below(m->conf.size());
      try { t[s] = make(m->conf[conf[s]]); } catch (const std::exception&) { t[s] = nullptr; continue; }
      try { init(t[s], m->conf[conf[s]]); ready[s] = true; known[s] = true; } catch (const std::exception&) { mem::Pause p; ready[s] = false; std::string why = describe_exception(); if (mem::n_failed == f0 && m->ref[conf[s]][0].err.compare(0, 4, "init")) bad = "initialisation failed: " + why; }
      continue;
    }
    if (op == 6) {       // a failed initialisation, then use
      if (!t[s]) continue;
      try { std::vector<double> x = {1., 2., 3., 7.}; t[s]->initialise(x, 1., true, 0, 2.); } catch (const std::exception&) { ready[s] = false; }
      if (q.chance(0.5) && m->conf[conf[s]].x.size() % 2 == 0) { std::vector<double> x; for (int i = 0; i < 301; i++) x.push_back(std::exp(0.05 * i)); try { t[s]->initialise(x, 1., true, 3, 2.); } catch (const std::exception&) {} }
      count("fault_failed-init"); vcd a(2000, cd(1, 0)), b(2000);
      if (!m->conf[conf[s]].sph && (size_t)t[s]->nsamp <= a.size()) { try { t[s]->biased_transform(a.data(), b.data()); } catch (const std::exception&) {} }      // must not touch memory it does not own
      continue;
    }
    if (op == 1) {       // another configuration of the same transform kind
      int k = (int)q.below(m->conf.size()); auto &a = m->conf[conf[s]], &b = m->conf[k];
      if (a.sph != b.sph || (a.sph ? a.ell != b.ell || a.n != b.n : a.mu != b.mu || a.q != b.q)) k = conf[s];
      conf[s] = k;
      try { init(t[s], m->conf[k]); ready[s] = true; } catch (const std::exception&) { mem::Pause p; ready[s] = false; std::string why = describe_exception(); if (mem::n_failed == f0 && m->ref[k][0].err.compare(0, 4, "init")) bad = "initialising again failed: " + why; }
      count("fault_reinitialised"); continue;
    }
    if (!t[s] || !ready[s]) continue;
    const Conf& c = m->conf[conf[s]];
    if (op == 3) {       // values no later transform may see
      vcd a(c.x.size()), b(c.x.size()); double bads[] = {NAN, INFINITY, -INFINITY, 1e308, 0}; for (auto& z : a) z = cd(bads[q.below(5)], bads[q.below(5)]);
      apply(t[s], c, a, q.chance(0.5) ? 1 : 0, 0); count("fault_poisoned-history"); continue;
    }
    int i = (int)q.below(m->in.size()), how = q.chance(0.25) ? 1 : 0;
    vcd in(m->in[i].begin(), m->in[i].begin() + c.x.size()); TOut o = apply(t[s], c, in, m->dir[i], how);
    if (mem::n_failed != f0) continue;
    mem::Pause p; judged++; std::string d = cmp(m->ref[conf[s]][i], o);
    if (!d.empty()) bad = "transform " + std::to_string(i) + " of configuration " + std::to_string(conf[s]) + " with history: " + d;
  } catch (const std::bad_alloc&) {}      // an injected failure in this harness's own arrays
  kill(0); kill(1);
  mem::check_all_redzones(); int64_t nf = mem::n_failed; rt::end(); vclock::end(); fsh::end(); mem::end();
  if (nf) count("fault_alloc-fail"); if (fill) count("fault_heap_garbage"); if (vary) count("fault_planner_variant", fsh::variants);
  count("transforms_judged", judged); state_hash(h);
  if (!bad.empty()) sim_violation("fftlog-history", "%s", bad.c_str());
}
Reg rh(Campaign{"fftlog", "C16", setuph, nvh, exech, 0});
// ------------------------------------------------ mesh fields, statistics ----
struct F { wl::W w; std::vector<wl::Particles> p; double alpha; int ell, m, ell2, m2; double kb, dkb, rr; std::vector<int> steps; std::vector<Out> ref; };
const int NPIPE = 9;
struct Objs { trv::MeshField *a, *b; trv::FieldStats* s; };
void loadc(trv::ParticleCatalogue& c, const wl::Particles& p) { c.load_particle_data(p.x, p.y, p.z, p.nz, p.ws, p.wc); }
Out pipe(const F& f, trv::ParameterSet& p, Objs& o, int which, int cat, trv::Binning& kb) {
  Out out;
  try {
    trv::ParticleCatalogue c(60), c2(60); loadc(c, f.p[cat]); loadc(c2, f.p[1 - cat]);
    std::vector<trv::LineOfSight> l(c.ntotal), l2(c2.ntotal); auto los = [](trv::ParticleCatalogue& c, std::vector<trv::LineOfSight>& l) { for (int i = 0; i < c.ntotal; i++) { double n = 1e-30; for (int a = 0; a < 3; a++) n += c[i].pos[a] * c[i].pos[a]; for (int a = 0; a < 3; a++) l[i].pos[a] = c[i].pos[a] / std::sqrt(n); } }; los(c, l); los(c2, l2);
    auto put = [&](const char* n, trv::MeshField& m) { std::vector<double> v; for (long long g = 0; g < p.nmesh; g++) { v.push_back(m[g][0]); v.push_back(m[g][1]); } double mx = 0; for (double x : v) mx = std::max(mx, std::fabs(x)); mem::Pause q; out.D(n, v, 1e-9 * mx); };
    auto ylms = [&](int ell, int m, bool four, vcd& y) { y.assign(p.nmesh, 0.); if (four) trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(ell, m, p.boxsize, p.ngrid, y); else trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(ell, m, p.boxsize, p.ngrid, y); };
    auto first = [&](trv::MeshField& m, int e, int mm) { m.compute_ylm_wgtd_field(c, c2, l.data(), l2.data(), f.alpha, e, mm); m.fourier_transform(); };
    // magnitude of one mode product, below which rounding noise is not judged
    auto power = [&] { double ma = 0, mb = 0; for (long long g = 0; g < p.nmesh; g++) { ma = std::max(ma, std::hypot((*o.a)[g][0], (*o.a)[g][1])); mb = std::max(mb, std::hypot((*o.b)[g][0], (*o.b)[g][1])); } return 1e-9 * (ma * mb + 2); };
    double k_eff = 0; int nm = 0;
    switch (which) {
      case 0: first(*o.a, f.ell, f.m); put("field", *o.a); o.a->apply_assignment_compensation(); put("compensated", *o.a); break;
      case 1: { first(*o.a, 0, 0); vcd y; ylms(f.ell, f.m, true, y); o.b->inv_fourier_transform_ylm_wgtd_field_band_limited(*o.a, y, f.kb, f.dkb, k_eff, nm); put("band", *o.b); mem::Pause q; out.D1("k_eff", k_eff); out.I1("nmodes", nm); break; }
      case 2: { first(*o.a, f.ell, f.m); vcd y; ylms(f.ell2, f.m2, true, y); trv::maths::SphericalBesselCalculator sj(f.ell); o.b->inv_fourier_transform_sjl_ylm_wgtd_field(*o.a, y, sj, f.rr); put("sjl", *o.b); break; }
      case 3: { first(*o.a, f.ell, f.m); o.b->compute_ylm_wgtd_quad_field(c, c2, l.data(), l2.data(), f.alpha, f.ell2, f.m2); o.b->fourier_transform();
        o.s->compute_ylm_wgtd_2pt_stats_in_fourier(*o.a, *o.b, cd(3.5, 0.2), f.ell2, f.m2, kb); mem::Pause q; out.I("nmodes", o.s->nmodes); out.D("k", o.s->k); out.Z("pk", o.s->pk, power()); out.Z("sn", o.s->sn, 1e-9); break; }
      case 4: { first(*o.a, f.ell, f.m); first(*o.b, 0, 0); trv::Binning rb(p); rb.set_bins(0, p.boxsize[0] / 2, 4); o.s->compute_ylm_wgtd_2pt_stats_in_config(*o.a, *o.b, cd(2., 0.), f.ell2, f.m2, rb); mem::Pause q; out.I("npairs", o.s->npairs); out.D("r", o.s->r); out.Z("xi", o.s->xi, power() / p.volume); break; }
      case 5: { first(*o.a, 0, 0); first(*o.b, f.ell, f.m); vcd ya, yb; ylms(f.ell, f.m, false, ya); ylms(f.ell2, f.m2, false, yb); trv::Binning rb(p); rb.set_bins(0, p.boxsize[0] / 2, 4); o.s->compute_uncoupled_shotnoise_for_3pcf(*o.a, *o.b, ya, yb, cd(2., 0.), rb); mem::Pause q; out.I("npairs", o.s->npairs); out.D("r", o.s->r); out.Z("xi", o.s->xi, power() / p.volume); break; }
      case 6: { first(*o.a, 0, 0); first(*o.b, f.ell, f.m); vcd ya, yb; ylms(f.ell, f.m, false, ya); ylms(f.ell2, f.m2, false, yb); trv::maths::SphericalBesselCalculator sa(f.ell), sb(f.ell2); cd z = o.s->compute_uncoupled_shotnoise_for_bispec_per_bin(*o.a, *o.b, ya, yb, sa, sb, cd(2., 0.), f.kb, f.kb + f.dkb); mem::Pause q; out.D("S", {z.real(), z.imag()}, power()); break; }
      case 7: o.a->compute_unweighted_field(c); put("mesh", *o.a); o.a->fourier_transform(); o.a->inv_fourier_transform(); put("back", *o.a); o.a->compute_unweighted_field_fluctuations_insitu(c); put("fluct", *o.a); o.a->apply_wide_angle_pow_law_kernel(); put("kernel", *o.a); break;
      default: { double n = o.a->calc_grid_based_powlaw_norm(c, 2 + cat); mem::Pause q; out.D1("norm", n); }
    }
  } catch (...) { mem::Pause q; out.err = describe_exception(); }
  return out;
}
void build(trv::ParameterSet& p, const F& f, Objs& o) { (void)f; o.a = new trv::MeshField(p, true, "a"); o.b = new trv::MeshField(p, true, "b"); o.s = new trv::FieldStats(p); }
void drop(Objs& o) { delete o.a; delete o.b; delete o.s; }
void params(const F& f, trv::ParameterSet& p) { wl::to_params(f.w, p); }
trv::Binning bins(trv::ParameterSet& p) { trv::Binning kb(p); double kf = 2 * M_PI / p.boxsize[0]; kb.set_bins(0.3 * kf, 3.2 * kf, 3); return kb; }
bool setupf(Case& cs) {
  Rng r(mix64(cs.seed, 162)); F* f = new F; cs.w = f; f->w = wl::gen(r, 2, 0); wl::W& w = f->w; w.stat = "powspec"; w.cat = "sim"; w.binning = "lin"; w.custom_edges = false; w.nb = 3; w.verbose = 60; w.progbar = "false"; w.wisdom = "";
  static const int g[] = {4, 5, 6, 8, 8, 9, 10}; bool cube = r.chance(0.5); int g0 = g[r.below(7)]; for (int a = 0; a < 3; a++) { w.ng[a] = cube ? g0 : g[r.below(7)]; if (cube) w.box[a] = w.box[0]; }
  w.interlace = r.chance(0.4) ? "true" : "false"; w.i_wa = r.range(0, 2); w.j_wa = r.range(0, 2);
  double lo[3] = {0, 0, 0}; for (int k = 0; k < 2; k++) f->p.push_back(wl::gen_particles(r, r.range(5, 80), lo, w.box, nullptr, r.chance(0.3)));
  f->alpha = 0.1 + r.unif(); f->ell = r.range(0, 3); f->m = f->ell ? r.range(-f->ell, f->ell) : 0; f->ell2 = r.range(0, 2); f->m2 = f->ell2 ? r.range(-f->ell2, f->ell2) : 0;
  double kf = 2 * M_PI / w.box[0]; f->kb = kf * (0.5 + r.unif()); f->dkb = kf * (0.3 + r.unif()); f->rr = w.box[0] * r.unif() / 3;
  for (int i = 0; i < 2 * NPIPE; i++) wl::run_reference(1, 0, [&] {
    trv::sys::logger.reset_level(60); trv::ParameterSet p; params(*f, p); trv::Binning kb = bins(p); Objs o; build(p, *f, o); Out q = pipe(*f, p, o, i / 2, i % 2, kb); drop(o); mem::Pause z; f->ref.push_back(q);
  });
  sample("assign=%s interlace=%s ngrid=(%d,%d,%d) N=%zu,%zu ell=%d,%d", w.assignment.c_str(), w.interlace.c_str(), w.ng[0], w.ng[1], w.ng[2], f->p[0].x.size(), f->p[1].x.size(), f->ell, f->ell2);
  return true;
}
int nvf(Case& c) { return c.tier ? 8 : 5; }
void execf(Case& cs, Variant& v) {
  F* f = (F*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); std::vector<int> steps; int L = r.range(2, 5); for (int i = 0; i < L; i++) steps.push_back((int)r.below(2 * NPIPE)); if (r.chance(0.3)) steps.push_back(steps[0]);
  std::string bad; bool swap = r.chance(0.3);
  wl::SR sr = wl::run_scheduled(cs, v, r, [&] {
    trv::sys::logger.reset_level(60); trv::ParameterSet p; params(*f, p); trv::Binning kb = bins(p); Objs o; build(p, *f, o);
    for (size_t i = 0; i < steps.size() && bad.empty(); i++) {
      if (swap && i) std::swap(o.a, o.b);
      Out q = pipe(*f, p, o, steps[i] / 2, steps[i] % 2, kb); mem::Pause z;
      std::string d = compare(f->ref[steps[i]], q, std::vector<double>(), 1e-8); if (!d.empty()) { bad = "step " + std::to_string(i) + " (operation " + std::to_string(steps[i] / 2) + "," + std::to_string(steps[i] % 2) + ") after"; for (size_t k = 0; k < i; k++) bad += " " + std::to_string(steps[k] / 2) + "," + std::to_string(steps[k] % 2); bad += ": " + d; }
    }
    drop(o);
  }, true);
  if (!bad.empty()) sim_violation("field-history", "%d threads: %s", sr.nthr, bad.c_str());
}
Reg rf(Campaign{"fieldhist", "C16", setupf, nvf, execf, 0});
// ---- reported memory and counters while such objects live, and after ----
int nvm(Case& c) { return c.tier ? 10 : 6; }
void execm(Case& cs, Variant& v) {
  namespace trvs = trv::sys;
  F* f = (F*)cs.w; Rng r(mix64(cs.seed, 2000 + v.id)); Evs ev; int L = r.range(2, 9);
  // E_MISC a: operation (0..2*NPIPE-1; 100, 101, 102 renew a, b, the statistics; 103 further statistics; 104 further field; 105 swap)
  for (int i = 0; i < L; i++) ev.push_back(Ev{E_MISC, (uint64_t)(r.chance(0.55) ? r.below(2 * NPIPE) : 100 + r.below(6)), 0, r.next() >> 20});
  if (r.chance(0.2)) ev.push_back(Ev{E_ALLOC, r.below(r.chance(0.5) ? 200 : 1500), (int64_t)(r.chance(0.7) ? 1 : 3), 0});
  int fill = r.range(0, 3), nthr = pick(r, {1, 1, 2, 3}); uint64_t seed = r.next();
  if (v.replay) ev = v.ev;
  set_events(ev);
  mem::Cfg mc; mc.fill = fill; mc.seed = seed; for (auto& e : ev) if (e.type == E_ALLOC) { mc.fail_at = e.a; mc.fail_count = e.b; }
  fsh::Cfg fc; fc.seed = seed; fc.vary = fc.scribble = 0; rt::Cfg rc; rc.nthr = nthr; rc.mode = rt::SEQ; rc.seed = seed;
  double g0 = trvs::gbytesMem; int r0 = trvs::count_rgrid, c0 = trvs::count_cgrid; float n0 = trvs::count_grid; int64_t p0 = fsh::live_plans(); std::string bad; uint64_t h = cs.seed; int judged = 0;
  mem::begin(mc); fsh::begin(fc); vclock::begin(vclock::Cfg()); rt::begin(rc); trvs::logger.reset_level(60);
  try {
    trv::ParameterSet p; params(*f, p); trv::Binning kb = bins(p); Objs o; o.a = o.b = nullptr; o.s = nullptr; std::string hist;
    trv::MeshField* xf[2] = {nullptr, nullptr}; trv::FieldStats* xs[2] = {nullptr, nullptr}; int nxf = 0, nxs = 0;
    auto check = [&](const std::string& what) {
      mem::Pause z; hist += " " + what;
      if (trvs::gbytesMem < 0 || trvs::count_rgrid < 0 || trvs::count_cgrid < 0 || trvs::count_grid < 0) bad = "negative usage reported after" + hist;
      if (trvs::gbytesMaxMem < trvs::gbytesMem || trvs::max_count_rgrid < trvs::count_rgrid || trvs::max_count_cgrid < trvs::count_cgrid || trvs::max_count_grid < trvs::count_grid) bad = "peak below current after" + hist;
      if (mem::n_failed || !bad.empty()) return;
      int64_t real = 0; int nr = 0, nc = 0; for (auto& b : mem::live()) { if ((int64_t)b.size == 8 * p.nmesh) { real += b.size; nr++; } else if ((int64_t)b.size == 16 * p.nmesh) { real += b.size; nc++; } }
      double rep = (trvs::gbytesMem - g0) * 1073741824.; judged++; char s[300];
      if (std::fabs(rep - real) > 1) { snprintf(s, 300, "%.0f bytes of grids are held and %.0f reported after", (double)real, rep); bad = s + hist; }
      else if (trvs::count_rgrid - r0 != nr || trvs::count_cgrid - c0 != nc || std::fabs(trvs::count_grid - n0 - (nc + .5f * nr)) > 1e-6) { snprintf(s, 300, "%d real and %d complex grids are held and %d, %d (%g) reported after", nr, nc, trvs::count_rgrid - r0, trvs::count_cgrid - c0, trvs::count_grid - n0); bad = s + hist; }
    };
    auto act = [&](const std::string& what, const std::function<void()>& g) { try { g(); } catch (const std::exception&) { mem::Pause z; if (!mem::n_failed) bad = what + " failed: " + describe_exception(); } if (bad.empty()) check(what); };
    act("a", [&] { o.a = new trv::MeshField(p, true, "a"); }); act("b", [&] { o.b = new trv::MeshField(p, true, "b"); }); act("s", [&] { o.s = new trv::FieldStats(p); });
    for (auto& e : ev) {
      if (e.type != E_MISC || !bad.empty()) continue;
      h = mix64(h, e.a * 131 + e.c % 7);
      if (e.a == 100) act("a", [&] { delete o.a; o.a = nullptr; o.a = new trv::MeshField(p, true, "a"); });
      else if (e.a == 101) act("b", [&] { delete o.b; o.b = nullptr; o.b = new trv::MeshField(p, e.c & 1, "b"); if (!(e.c & 1)) { delete o.b; o.b = nullptr; o.b = new trv::MeshField(p, true, "b"); } });
      else if (e.a == 102) act("s", [&] { delete o.s; o.s = nullptr; o.s = new trv::FieldStats(p); });
      else if (e.a == 103) act("xs", [&] { int i = nxs++ & 1; delete xs[i]; xs[i] = nullptr; xs[i] = new trv::FieldStats(p, e.c & 1); if (o.a && o.b && e.c & 2) { xs[i]->compute_ylm_wgtd_2pt_stats_in_fourier(*o.a, *o.b, cd(1., 0.), 0, 0, kb); } });
      else if (e.a == 104) act("xf", [&] { int i = nxf++ & 1; delete xf[i]; xf[i] = nullptr; xf[i] = new trv::MeshField(p, e.c & 1, "x"); if (e.c & 2) xf[i]->apply_assignment_compensation(); });
      else if (e.a == 105) { mem::Pause z; std::swap(o.a, o.b); }
      else if (o.a && o.b && o.s) act(std::to_string(e.a / 2), [&] { Out q = pipe(*f, p, o, (int)e.a / 2, (int)e.a % 2, kb); mem::Pause z; if (!q.err.empty() && q.err != f->ref[e.a].err && !mem::n_failed) bad = "operation failed: " + q.err; });
    }
    for (int i = 0; i < 2; i++) { delete xf[i]; delete xs[i]; }
    drop(o);
    { mem::Pause z; std::string().swap(hist); }
  } catch (const std::bad_alloc&) {}
  size_t nl = 0; char leak[200] = ""; { mem::Pause z; auto l = mem::live(); nl = l.size(); if (nl) snprintf(leak, 200, "%zu blocks, first of %zu bytes allocated at pc %llx", nl, l[0].size, (unsigned long long)(l[0].pc - text_base())); }
  mem::check_all_redzones(); int64_t nf = mem::n_failed; rt::end(); vclock::end(); fsh::end(); mem::end();
  if (nf) count("fault_alloc-fail", nf); if (fill) count("fault_heap_garbage"); count("states_judged", judged); state_hash(h);
  if (!bad.empty()) sim_violation("reported-memory", "%s", bad.c_str());
  if (trvs::gbytesMem < -1e-12 || trvs::gbytesMaxMem < trvs::gbytesMem) sim_violation("counter-range", "%g GiB in use, peak %g", trvs::gbytesMem, trvs::gbytesMaxMem);
  if (nf) return;
  if (nl) sim_violation("leak", "after all objects are gone: %s", leak);
  if (fsh::live_plans() != p0) sim_violation("plan-leak", "%lld plans are left", (long long)(fsh::live_plans() - p0));
  if (std::fabs(trvs::gbytesMem - g0) > 1e-12 || trvs::count_rgrid != r0 || trvs::count_cgrid != c0 || trvs::count_grid != n0) sim_violation("counters", "the reported usage changed by %g GiB, %d real, %d complex, %g grids", trvs::gbytesMem - g0, trvs::count_rgrid - r0, trvs::count_cgrid - c0, trvs::count_grid - n0);
}
Reg rm(Campaign{"fieldmem", "C11", setupf, nvm, execm, 0});
}

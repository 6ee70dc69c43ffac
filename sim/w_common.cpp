#include "w_common.h"
#include <algorithm>
#include <cmath>
namespace trvs = trv::sys;
namespace wl {
template <class T> static T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
std::string W::describe() const {
  char b[900];
  snprintf(b, 900, "%s/%s assign=%s interlace=%s align=%s form=%s idx=%d ell=(%d,%d,%d) wa=(%d,%d) ngrid=(%d,%d,%d) box=(%.4g,%.4g,%.4g) bins=%s %d in [%.4g,%.4g]%s fftw=%s norm=%s N=%zu+%zu",
           stat.c_str(), cat.c_str(), assignment.c_str(), interlace.c_str(), alignment.c_str(), form.c_str(), idx, ell1, ell2, ELL, i_wa, j_wa, ng[0], ng[1], ng[2], box[0], box[1], box[2],
           binning.c_str(), nb, bmin, bmax, custom_edges ? " custom" : "", fftw.c_str(), norm.c_str(), d.x.size(), r.x.size());
  return b;
}
Particles gen_particles(Rng& r, int n, const double lo[3], const double span[3], const double* cell, bool unit_w) {
  Particles p;
  int style = r.range(0, 4);
  double c[3] = {r.unif(), r.unif(), r.unif()};
  for (int i = 0; i < n; i++) {
    double q[3];
    for (int a = 0; a < 3; a++) {
      double u = r.unif();
      if (style == 1) { u = c[a] + 0.1 * (r.unif() - 0.5); u -= std::floor(u); }               // clustered: many per cell
      if (style == 2 && cell) { double k = std::floor(u * span[a] / cell[a]); q[a] = lo[a] + k * cell[a] + (r.chance(0.5) ? 0 : 0.5 * cell[a]); if (q[a] >= lo[a] + span[a]) q[a] = lo[a]; continue; }
      if (style == 3 && r.chance(0.4)) u = r.chance(0.5) ? 0. : 1. - 1e-12 - 0.05 * r.unif();   // box edges
      q[a] = lo[a] + u * span[a];
    }
    p.x.push_back(q[0]); p.y.push_back(q[1]); p.z.push_back(q[2]);
    p.nz.push_back(unit_w ? 1e-4 : 1e-4 * (0.2 + r.unif()));
    p.ws.push_back(unit_w ? 1. : 0.5 + r.unif()); p.wc.push_back(unit_w ? 1. : 0.5 + r.unif());
  }
  return p;
}
W gen(Rng& r, int npoint, int tier) {
  W w;
  bool three = npoint == 3;
  static const char* s2[] = {"powspec", "powspec", "2pcf", "2pcf", "2pcf-win"};
  static const char* s3[] = {"bispec", "bispec", "3pcf", "3pcf", "3pcf-win", "3pcf-win-wa"};
  w.stat = three ? s3[r.below(6)] : s2[r.below(5)];
  if (w.stat.find("win") != std::string::npos) w.cat = "random";
  else w.cat = r.chance(0.6) ? "survey" : "sim";
  w.assignment = pick(r, {"ngp", "cic", "tsc", "pcs"});
  w.interlace = r.chance(0.35) ? "true" : "false";
  w.alignment = r.chance(0.7) ? "centre" : "pad";
  w.padscale = r.chance(0.5) ? "box" : "grid";
  static const int g2[] = {6, 8, 8, 9, 10, 12, 16, 7}, g3[] = {4, 6, 6, 8, 8, 5, 7, 10};
  int g = three ? g3[r.below(8)] : g2[r.below(8)];
  bool cube = r.chance(0.6);
  for (int a = 0; a < 3; a++) w.ng[a] = cube ? g : std::max(4, g + r.range(-2, 2));
  bool big = !three && r.chance(0.04);
  if (big) for (int a = 0; a < 3; a++) w.ng[a] = 24;
  double L = r.chance(0.5) ? 100. : 60. + 900. * r.unif();
  for (int a = 0; a < 3; a++) w.box[a] = cube || r.chance(0.3) ? L : L * (0.7 + 0.6 * r.unif());
  w.padfactor = w.padscale == "box" ? 0.02 + 0.05 * r.unif() : 0.1 + 0.4 * r.unif();
  static const int t3[][3] = {{0, 0, 0}, {0, 0, 0}, {1, 1, 0}, {2, 0, 2}, {0, 2, 2}, {1, 1, 2}, {2, 2, 0}, {2, 2, 2}, {3, 1, 2}};
  const int* t = t3[r.below(three ? (r.chance(0.7) ? 5 : 9) : 9)];
  w.ell1 = t[0]; w.ell2 = t[1]; w.ELL = t[2];
  if (!three) { w.ell1 = w.ell2 = 0; w.ELL = pick(r, {0, 0, 0, 0, 0, 0, 1, 1, 1, 2}); if (w.cat == "sim" || r.chance(0.08)) w.ELL = pick(r, {0, 0, 1, 2, 2, 3, 4}); }
  w.i_wa = w.j_wa = 0;
  if (w.stat == "3pcf-win-wa") { w.i_wa = r.range(0, 2); w.j_wa = r.range(0, 1); if (!w.i_wa && !w.j_wa) w.i_wa = 1; }
  w.form = three ? pick(r, {"diag", "full", "off-diag", "row"}) : "diag";
  w.nb = three ? r.range(2, 4) : r.range(2, 8);
  w.idx = w.form == "off-diag" ? r.range(0, w.nb - 1) : w.form == "row" ? r.range(0, w.nb - 1) : 0;
  if (w.form == "off-diag" && r.chance(0.3)) w.idx = -r.range(1, w.nb - 1);
  w.binning = r.chance(0.7) ? "lin" : "log";
  double Lmax = std::max(w.box[0], std::max(w.box[1], w.box[2])), Lmin = std::min(w.box[0], std::min(w.box[1], w.box[2]));
  int gmin = std::min(w.ng[0], std::min(w.ng[1], w.ng[2]));
  bool fourier = w.stat == "powspec" || w.stat == "bispec";
  if (fourier) {
    double kf = 2 * M_PI / Lmax, kn = M_PI * gmin / Lmax;
    w.bmin = r.chance(0.4) && w.binning == "lin" ? 0. : kf * (0.3 + 0.6 * r.unif());
    w.bmax = kn * (0.6 + 0.6 * r.unif()); if (w.bmax < w.bmin * 1.5) w.bmax = w.bmin * 1.5 + kf;
  } else {
    w.bmin = r.chance(0.4) && w.binning == "lin" ? 0. : Lmin / gmin * (0.4 + 0.5 * r.unif());
    w.bmax = Lmax * (0.3 + 0.3 * r.unif()); if (w.bmax < w.bmin * 1.5) w.bmax = w.bmin * 2;
  }
  w.custom_edges = r.chance(0.1);
  if (w.custom_edges) { double e = w.bmin; w.edges.push_back(e); for (int i = 0; i < w.nb; i++) { e += (w.bmax - w.bmin) / w.nb * (0.5 + r.unif()); w.edges.push_back(e); } }
  w.fftw = pick(r, {"estimate", "measure", "patient"});
  w.progbar = r.chance(0.15) ? (r.chance(0.5) ? "true" : "20") : "false";
  w.norm = "particle";
  w.verbose = r.chance(0.3) ? 0 : 60;
  w.norms = r.chance(0.35);
  w.nmeshes_cell = L / r.range(4, 8);
  int nd = three ? r.range(5, 60) : r.range(5, 150), nr = three ? r.range(5, 80) : r.range(10, 250);
  if (r.chance(0.05)) { nd = r.range(1, 3); }
  if (big || (tier && r.chance(0.1))) { nd *= 4; nr *= 4; }
  bool unit = r.chance(0.25);
  double cell[3]; for (int a = 0; a < 3; a++) cell[a] = w.box[a] / w.ng[a];
  double lo[3] = {0, 0, 0}, span[3];
  if (w.cat == "sim") {
    for (int a = 0; a < 3; a++) { span[a] = w.box[a]; if (r.chance(0.2)) lo[a] = -0.5 * w.box[a]; }
    w.d = gen_particles(r, nd, lo, span, cell, unit);
  } else {
    double f = 0.6 + 0.3 * r.unif();
    for (int a = 0; a < 3; a++) { span[a] = f * w.box[a]; lo[a] = r.chance(0.5) ? 300. * (a == 2 ? 1 : r.unif()) : -0.3 * w.box[a]; }
    if (w.cat == "survey") w.d = gen_particles(r, nd, lo, span, cell, unit);
    w.r = gen_particles(r, nr, lo, span, cell, unit);
  }
  return w;
}
void to_params(const W& w, trv::ParameterSet& p) {
  p.catalogue_type = w.cat; p.statistic_type = w.stat; p.assignment = w.assignment; p.interlace = w.interlace;
  p.alignment = w.alignment; p.padscale = w.padscale; p.padfactor = w.padfactor; p.form = w.form; p.binning = w.binning;
  for (int a = 0; a < 3; a++) { p.boxsize[a] = w.box[a]; p.ngrid[a] = w.ng[a]; }
  p.ell1 = w.ell1; p.ell2 = w.ell2; p.ELL = w.ELL; p.i_wa = w.i_wa; p.j_wa = w.j_wa;
  p.bin_min = w.bmin; p.bin_max = w.bmax; p.num_bins = w.nb; p.idx_bin = w.idx;
  p.fftw_scheme = w.fftw; p.progbar = w.progbar; p.norm_convention = w.norm; p.verbose = w.verbose;
  p.use_fftw_wisdom = w.wisdom.empty() ? "false" : w.wisdom;
  if (!w.wisdom.empty() && p.fftw_scheme == "estimate") p.fftw_scheme = "measure";
  p.validate(true);
}
std::vector<double> permuted(const std::vector<double>& v, uint64_t perm) {
  if (!perm) return v;
  std::vector<double> o(v); Rng r(perm);
  for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
  return o;
}
void counters(drv::Out& o) {
  o.D1("gbytesMem", trvs::gbytesMem, 1e-9); o.I1("count_rgrid", trvs::count_rgrid); o.I1("count_cgrid", trvs::count_cgrid); o.D1("count_grid", trvs::count_grid, 1e-4);
}
static trv::LineOfSight* mklos(trv::ParticleCatalogue& c) {
  trv::LineOfSight* l = new trv::LineOfSight[c.ntotal];
  for (int i = 0; i < c.ntotal; i++) {
    double m = std::sqrt(c.pdata[i].pos[0] * c.pdata[i].pos[0] + c.pdata[i].pos[1] * c.pdata[i].pos[1] + c.pdata[i].pos[2] * c.pdata[i].pos[2]);
    if (m == 0) m = 1;
    for (int a = 0; a < 3; a++) l[i].pos[a] = c.pdata[i].pos[a] / m;
  }
  return l;
}
static void load(trv::ParticleCatalogue& c, const Particles& p, uint64_t perm) {
  c.load_particle_data(permuted(p.x, perm), permuted(p.y, perm), permuted(p.z, perm), permuted(p.nz, perm), permuted(p.ws, perm), permuted(p.wc, perm));
}
struct LosGuard { trv::LineOfSight* p = nullptr; ~LosGuard() { delete[] p; } };
drv::Out measure(const W& w, uint64_t perm) {
  drv::Out o;
  try {
    trv::ParameterSet p; to_params(w, p);
    trv::Binning b(p);
    if (w.custom_edges) b.set_bins(w.edges); else b.set_bins();
    trv::ParticleCatalogue cd(w.verbose), cr(w.verbose);
    LosGuard ld, lr;
    bool hd = w.cat != "random", hr = w.cat != "sim";
    if (hd) { load(cd, w.d, perm); ld.p = mklos(cd); }
    if (hr) { load(cr, w.r, perm); lr.p = mklos(cr); }
    double gp[3] = {p.padfactor, p.padfactor, p.padfactor};
    if (w.cat == "survey") {
      if (p.alignment == "pad") { if (p.padscale == "grid") trv::ParticleCatalogue::pad_grids(cd, cr, p.boxsize, p.ngrid, gp); else trv::ParticleCatalogue::pad_in_box(cd, cr, p.boxsize, gp); }
      else trv::ParticleCatalogue::centre_in_box(cd, cr, p.boxsize);
    } else if (w.cat == "sim") cd.offset_coords_for_periodicity(p.boxsize);
    else {
      if (p.alignment == "pad") { if (p.padscale == "grid") trv::ParticleCatalogue::pad_grids(cr, p.boxsize, p.ngrid, gp); else trv::ParticleCatalogue::pad_in_box(cr, p.boxsize, gp); }
      else { trv::ParticleCatalogue::centre_in_box(cr, p.boxsize); cr.offset_coords_for_periodicity(p.boxsize); }
    }
    double alpha = hd && hr ? cd.wstotal / cr.wstotal : 1.;
    trv::ParticleCatalogue& cn = hr ? cr : cd;
    double W1 = 0; { if (hd) for (int i = 0; i < cd.ntotal; i++) W1 += std::fabs(cd.pdata[i].w); if (hr) for (int i = 0; i < cr.ntotal; i++) W1 += (hd ? alpha : 1.) * std::fabs(cr.pdata[i].w); }
    bool three = p.npoint == "3pt";
    double np = three ? trv::calc_bispec_normalisation_from_particles(cn, hr ? alpha : 1.) : trv::calc_powspec_normalisation_from_particles(cn, alpha);
    o.D1("norm_particles", np);
    if (w.norms) {
      o.D1("norm_mesh", three ? trv::calc_bispec_normalisation_from_mesh(cn, p, alpha) : trv::calc_powspec_normalisation_from_mesh(cn, p, alpha));
      if (!three && w.cat == "survey") {
        o.D1("norm_meshes", trv::calc_powspec_normalisation_from_meshes(cd, cr, p, alpha));
        o.D1("norm_meshes_pad", trv::calc_powspec_normalisation_from_meshes(cd, cr, p, alpha, 0.1, w.nmeshes_cell, w.assignment));
      }
      if (!three) o.D1("shotnoise_particles", trv::calc_powspec_shotnoise_from_particles(cn, alpha));
    }
    double n = np, V = p.volume;
    if (w.stat == "powspec") {
      auto m = w.cat == "survey" ? trv::compute_powspec(cd, cr, ld.p, lr.p, p, b, n) : trv::compute_powspec_in_gpp_box(cd, p, b, n);
      o.I1("dim", m.dim); o.E("kbin", m.kbin); o.D("keff", m.keff); o.I("nmodes", m.nmodes);
      double f = 1e-12 * n * W1 * W1; o.Z("pk_raw", m.pk_raw, f); o.Z("pk_shot", m.pk_shot, f);
    } else if (w.stat == "2pcf") {
      auto m = w.cat == "survey" ? trv::compute_corrfunc(cd, cr, ld.p, lr.p, p, b, n) : trv::compute_corrfunc_in_gpp_box(cd, p, b, n);
      o.I1("dim", m.dim); o.E("rbin", m.rbin); o.D("reff", m.reff); o.I("npairs", m.npairs); o.Z("xi", m.xi, 1e-12 * n * W1 * W1 / V);
    } else if (w.stat == "2pcf-win") {
      auto m = trv::compute_corrfunc_window(cr, lr.p, p, b, alpha, n);
      o.I1("dim", m.dim); o.E("rbin", m.rbin); o.D("reff", m.reff); o.I("npairs", m.npairs); o.Z("xi", m.xi, 1e-12 * n * W1 * W1 / V);
    } else if (w.stat == "bispec") {
      auto m = w.cat == "survey" ? trv::compute_bispec(cd, cr, ld.p, lr.p, p, b, n) : trv::compute_bispec_in_gpp_box(cd, p, b, n);
      o.I1("dim", m.dim); o.E("k1_bin", m.k1_bin); o.E("k2_bin", m.k2_bin); o.D("k1_eff", m.k1_eff); o.D("k2_eff", m.k2_eff); o.I("nmodes_1", m.nmodes_1); o.I("nmodes_2", m.nmodes_2);
      double f = 1e-12 * n * W1 * W1 * W1; o.Z("bk_raw", m.bk_raw, f); o.Z("bk_shot", m.bk_shot, f);
    } else {
      double f = 1e-12 * n * W1 * W1 * W1 / V / V;
      auto put = [&](auto& m) {
        o.I1("dim", m.dim); o.E("r1_bin", m.r1_bin); o.E("r2_bin", m.r2_bin); o.D("r1_eff", m.r1_eff); o.D("r2_eff", m.r2_eff); o.I("npairs_1", m.npairs_1); o.I("npairs_2", m.npairs_2);
        o.Z("zeta_raw", m.zeta_raw, f); o.Z("zeta_shot", m.zeta_shot, f);
      };
      if (w.stat == "3pcf") { auto m = w.cat == "survey" ? trv::compute_3pcf(cd, cr, ld.p, lr.p, p, b, n) : trv::compute_3pcf_in_gpp_box(cd, p, b, n); put(m); }
      else { auto m = trv::compute_3pcf_window(cr, lr.p, p, b, alpha, n, w.stat == "3pcf-win-wa"); put(m); }
    }
    // the catalogue after the measurement
    if (hd) { std::vector<double> v; for (int i = 0; i < cd.ntotal; i++) for (double q : {cd.pdata[i].pos[0], cd.pdata[i].pos[1], cd.pdata[i].pos[2], cd.pdata[i].w}) v.push_back(q); if (!perm) o.D("data_catalogue_after", v); }
  } catch (...) { o.err = drv::describe_exception(); }
  return o;
}
int pick_threads(Rng& r) { static const int t[] = {2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 12, 16}, many[] = {24, 32, 33, 48, 64, 65, 72}; return r.chance(0.05) ? many[r.below(7)] : t[r.below(12)]; }
rt::Cfg sched_cfg(Rng& r, int nthr, uint64_t est) {
  rt::Cfg c; c.nthr = nthr; c.seed = r.next(); c.shuffle_start = true;
  switch (r.below(6)) {
    case 0: c.mode = rt::RANDOM; c.p = 0.05; c.psync = 0.5; break;
    case 1: c.mode = rt::RANDOM; c.p = 0.002; c.psync = 0.3; break;
    case 2: c.mode = rt::PCT; c.depth = r.range(2, 12); c.est_steps = est; break;
    case 3: c.mode = rt::HUNT; c.p = 0.3; c.psync = 0.2; break;
    case 4: c.mode = rt::HUNT; c.p = 0.05; c.psync = 0.2; c.atomics = r.chance(0.3); break;
    default: c.mode = rt::RANDOM; c.p = 0.3; c.psync = 0.5; if (est > 3000000) c.p = 0.02; break;
  }
  // bound the number of switches of one run
  double cap = 12000. / (double)(est ? est : 1);
  if (c.mode == rt::RANDOM && c.p > cap) c.p = cap;
  return c;
}
void sim_begin(const rt::Cfg& c, uint64_t seed, int fill, bool planner_faults) {
  mem::Cfg m; m.fill = fill; m.seed = seed; mem::begin(m);
  fsh::Cfg f; f.seed = seed; f.vary = planner_faults; f.scribble = planner_faults; fsh::begin(f);
  vclock::begin(vclock::Cfg());
  rt::begin(c);
}
void sim_end() { rt::end(); fsh::end(); vclock::end(); mem::check_all_redzones(); mem::end(); }
void run_reference(uint64_t seed, int fill, const std::function<void()>& f) {
  rt::Cfg c; c.nthr = 1; c.mode = rt::SEQ;
  sim_begin(c, seed, fill); f(); sim_end();
}
SR run_scheduled(drv::Case& cs, drv::Variant& v, Rng& r, const std::function<void()>& f, bool planner_faults) {
  using namespace drv;
  SR o; rt::Cfg c; o.nthr = pick_threads(r);
  mvec<rt::Switch> sw;
  if (v.id == 0) { c.nthr = o.nthr; c.mode = rt::SEQ; c.detect = true; c.seed = r.next(); c.shuffle_start = true; }
  else {
    for (uint64_t i = 0; i < shm->racy_n; i++) rt::load_racy(shm->racy[i]);
    c = sched_cfg(r, o.nthr, shm->scratch[0] ? shm->scratch[0] : 1000000);
  }
  if (v.replay) { sw = sched_of(v); c.mode = rt::REPLAY; c.detect = false; c.replay = &sw; }
  o.fill = (int)r.below(4); o.seed = r.next();
  sim_begin(c, o.seed, o.fill, planner_faults); f(); shm->sim_ns += vclock::covered_ns; sim_end();
  count("steps", rt::stats.steps); count("switches", rt::stats.switches); count("forced_switches", rt::stats.forced);
  count("regions", rt::stats.mt_regions); count("barriers", rt::stats.barriers); count("criticals", rt::stats.criticals); count("atomics", rt::stats.atomics);
  count("chunks", rt::stats.chunks); count("postponements", rt::stats.postpones); count("postponement_hits", rt::stats.hits);
  count("preemptions", rt::stats.switches); if (planner_faults) { count("fault_planner_scribble", fsh::scribbles); count("fault_planner_variant", fsh::variants); }
  if (o.fill) count("fault_heap_garbage");
  if (v.id == 0 && !v.replay) { shm->racy_n = 0; for (auto x : rt::racy) if (shm->racy_n < 512) shm->racy[shm->racy_n++] = x; shm->scratch[0] = rt::stats.steps; count("conflicting_pcs", rt::stats.racy_pcs); }
  static const char* mn[] = {"mode_seq", "mode_random", "mode_pct", "mode_hunt", "mode_replay"};
  count(mn[c.mode]);
  if (rt::stats.switches + rt::stats.forced) state_hash(rt::stats.hash ^ cs.seed * 0x9E3779B97F4A7C15ull);
  return o;
}
}  // namespace wl

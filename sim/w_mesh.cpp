// C03: mesh deposit against a brute-force reference; C04: binned-vector records.
#include "w_common.h"
#include <algorithm>
#include <cmath>
using namespace drv;
typedef std::complex<double> cd;
namespace {
template <class T> T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }

// ---------------------------------------------------------------- C03 ----
struct M {
  wl::W w; wl::Particles p, q; double alpha; int mode; std::vector<double> wr, wi; int order;
  std::vector<cd> ref, refk; std::vector<char> skipk; double tol, tolk; bool reuse;
};
// one-dimensional kernels, independent of the implementation: cell index -> weight
void kernel(int order, double x, int n, std::vector<double>& out) {
  out.assign(n, 0.);
  double f = std::floor(x);
  for (int c = (int)f - 3; c <= (int)f + 4; c++) {
    double s = std::fabs(x - c), k = 0;
    switch (order) {
      case 1: k = (x - c >= -0.5 && x - c < 0.5) ? 1 : 0; break;
      case 2: k = s < 1 ? 1 - s : 0; break;
      case 3: k = s < 0.5 ? 0.75 - s * s : s < 1.5 ? 0.5 * (1.5 - s) * (1.5 - s) : 0; break;
      default: k = s < 1 ? (4 - 6 * s * s + 3 * s * s * s) / 6 : s < 2 ? (2 - s) * (2 - s) * (2 - s) / 6 : 0;
    }
    if (k != 0) out[((c % n) + n) % n] += k;
  }
}
void deposit(const M& m, const wl::Particles& p, const std::vector<double>& wr, const std::vector<double>& wi, double shift, double scale, std::vector<cd>& f) {
  const int* n = m.w.ng; double vc = m.w.box[0] / n[0] * (m.w.box[1] / n[1]) * (m.w.box[2] / n[2]);
  std::vector<double> kx, ky, kz;
  for (size_t i = 0; i < p.x.size(); i++) {
    kernel(m.order, n[0] * p.x[i] / m.w.box[0] + shift, n[0], kx);
    kernel(m.order, n[1] * p.y[i] / m.w.box[1] + shift, n[1], ky);
    kernel(m.order, n[2] * p.z[i] / m.w.box[2] + shift, n[2], kz);
    cd w(wr[i], wi[i]); w *= scale / vc;
    for (int a = 0; a < n[0]; a++) if (kx[a] != 0) for (int b = 0; b < n[1]; b++) if (ky[b] != 0) for (int c = 0; c < n[2]; c++) if (kz[c] != 0)
      f[(a * (size_t)n[1] + b) * n[2] + c] += w * (kx[a] * ky[b] * kz[c]);
  }
}
void dft(std::vector<cd>& f, const int* n) {
  size_t st[3] = {(size_t)n[1] * n[2], (size_t)n[2], 1};
  for (int ax = 0; ax < 3; ax++) {
    int N = n[ax]; std::vector<cd> e(N), t(N);
    for (int k = 0; k < N; k++) e[k] = std::polar(1., -2 * M_PI * k / N);
    for (size_t o = 0; o < f.size(); o++) {
      if ((o / st[ax]) % N) continue;
      for (int k = 0; k < N; k++) { t[k] = 0; for (int j = 0; j < N; j++) t[k] += f[o + j * st[ax]] * e[(j * k) % N]; }
      for (int k = 0; k < N; k++) f[o + k * st[ax]] = t[k];
    }
  }
}
void place(Rng& r, wl::Particles& p, const wl::W& w, int n) {
  int style = r.range(0, 5); bool ngp = w.assignment == std::string("ngp");
  double c[3] = {r.unif(), r.unif(), r.unif()};
  for (int i = 0; i < n; i++) {
    double q[3];
    for (int a = 0; a < 3; a++) {
      double u = r.unif(); int s = style == 5 ? r.range(0, 4) : style;
      double N = w.ng[a], L = w.box[a], h = L / N;
      switch (s) {
        case 1: u = c[a] + (r.unif() - 0.5) / N; u -= std::floor(u); q[a] = u * L; break;         // many in one cell
        case 2: {                                                                                // on or next to cell edges and centres
          double g = std::floor(u * N) + (r.chance(0.5) ? 0. : 0.5);
          double e = ngp ? (r.chance(0.5) ? 1e-7 : -1e-7) : pick(r, {0., 0., 1e-7, -1e-7, 1e-13, -1e-13});
          q[a] = (g + e) * h; break; }
        case 3: {                                                                                // first and last cells
          double e = ngp ? 1e-7 : pick(r, {0., 1e-16, 1e-12, 1e-7, 1e-3});
          int k = r.range(0, 3);
          if (ngp && k == 0 && w.interlace == std::string("false")) e = 0;
          q[a] = k == 0 ? e * L : k == 1 ? L - e * L : k == 2 ? (N - r.unif()) * h : r.unif() * h;
          if (!ngp && k == 1 && r.chance(0.3)) q[a] = std::nextafter(L, 0.);
          break; }
        default: q[a] = u * L;
      }
      if (q[a] < 0) q[a] += L;
      if (q[a] >= L) q[a] = ngp ? L * (1 - 1e-7 / N) : std::nextafter(L, 0.);
      // ties of the nearest-grid-point rule are left out: the property does not say which cell wins
      if (ngp) for (double sh : {0., 0.5}) { double x = N * q[a] / L + sh; double d = std::fabs(x - std::floor(x) - 0.5); if (d < 1e-9 && !(q[a] == 0 && sh == 0)) { if (w.interlace == std::string("true") || sh == 0) { q[a] += 1e-7 * h; if (q[a] >= L) q[a] -= 2e-7 * h; } } }
    }
    p.x.push_back(q[0]); p.y.push_back(q[1]); p.z.push_back(q[2]);
    p.nz.push_back(1e-4); p.ws.push_back(0.5 + r.unif()); p.wc.push_back(0.5 + r.unif());
  }
}
bool setup3(Case& cs) {
  Rng r(mix64(cs.seed, 31)); M* m = new M; cs.w = m;
  m->w = wl::gen(r, 2, 0); wl::W& w = m->w;
  w.cat = "sim"; w.stat = "powspec"; w.ELL = 0; w.d = w.r = wl::Particles(); w.binning = "lin"; w.custom_edges = false; w.nb = 4;
  w.bmin = 0; w.bmax = 1;
  w.interlace = r.chance(0.6) ? "true" : "false";
  w.progbar = "false"; w.verbose = r.chance(0.2) ? 10 : 60;
  static const int g[] = {4, 5, 6, 7, 8, 8, 10, 12, 16};
  int g0 = g[r.below(9)]; bool cube = r.chance(0.4);
  for (int a = 0; a < 3; a++) w.ng[a] = cube ? g0 : g[r.below(8)];
  m->order = w.assignment == "ngp" ? 1 : w.assignment == "cic" ? 2 : w.assignment == "tsc" ? 3 : 4;
  place(r, m->p, w, r.chance(0.1) ? r.range(1, 4) : r.range(5, cs.tier ? 800 : 300));
  m->mode = r.range(0, 4); m->alpha = 0.05 + r.unif(); m->reuse = r.chance(0.4);
  size_t n = m->p.x.size();
  m->wr.resize(n); m->wi.resize(n);
  std::vector<double> qr, qi;
  if (m->mode <= 1) for (size_t i = 0; i < n; i++) { m->wr[i] = r.unif() * 2 - 0.5; m->wi[i] = m->mode ? r.unif() - 0.5 : 0; if (r.chance(0.1)) (r.chance(0.6) ? m->wr : m->wi)[i] = 0; }
  else if (m->mode == 2) for (size_t i = 0; i < n; i++) { m->wr[i] = 1; m->wi[i] = 0; }
  else for (size_t i = 0; i < n; i++) { m->wr[i] = m->p.ws[i] * m->p.wc[i]; m->wi[i] = 0; }
  if (m->mode == 4) { place(r, m->q, w, r.range(3, 200)); for (size_t i = 0; i < m->q.x.size(); i++) { qr.push_back(m->q.ws[i] * m->q.wc[i]); qi.push_back(0); } }
  size_t N = (size_t)w.ng[0] * w.ng[1] * w.ng[2];
  double vc = w.box[0] * w.box[1] * w.box[2] / N;
  m->ref.assign(N, 0.); deposit(*m, m->p, m->wr, m->wi, 0, 1, m->ref);
  if (m->mode == 4) deposit(*m, m->q, qr, qi, 0, -m->alpha, m->ref);
  double tot = 0; for (size_t i = 0; i < n; i++) tot += std::fabs(m->wr[i]) + std::fabs(m->wi[i]);
  for (double x : qr) tot += x;
  m->tol = 1e-10 * tot / vc + (m->order > 1 ? 1e-11 * tot / vc : 0);
  m->refk = m->ref; dft(m->refk, w.ng); for (auto& x : m->refk) x *= vc;
  m->skipk.assign(N, 0);
  if (w.interlace == "true") {
    std::vector<cd> s(N, 0.); deposit(*m, m->p, m->wr, m->wi, 0.5, 1, s);
    if (m->mode == 4) deposit(*m, m->q, qr, qi, 0.5, -m->alpha, s);
    dft(s, w.ng);
    for (size_t o = 0; o < N; o++) {
      int i[3] = {(int)(o / ((size_t)w.ng[1] * w.ng[2])), (int)(o / w.ng[2] % w.ng[1]), (int)(o % w.ng[2])}; double arg = 0;
      for (int a = 0; a < 3; a++) {
        // the sign convention of the central frequency is not part of the property
        if (i[a] == w.ng[a] / 2) m->skipk[o] = 1;
        arg += (2 * i[a] < w.ng[a] ? i[a] : i[a] - w.ng[a]) / (double)w.ng[a];
      }
      m->refk[o] = 0.5 * (m->refk[o] + std::polar(1., M_PI * arg) * s[o] * vc);
    }
  }
  m->tolk = 1e-9 * tot;
  sample("assign=%s interlace=%s ngrid=(%d,%d,%d) box=(%.4g,%.4g,%.4g) N=%zu+%zu weights=%d reuse=%d", w.assignment.c_str(), w.interlace.c_str(), w.ng[0], w.ng[1], w.ng[2], w.box[0], w.box[1], w.box[2], n, m->q.x.size(), m->mode, (int)m->reuse);
  return true;
}
void loadc(trv::ParticleCatalogue& c, const wl::Particles& p) { c.load_particle_data(p.x, p.y, p.z, p.nz, p.ws, p.wc); }
void exec3(Case& cs, Variant& v) {
  M* m = (M*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id));
  size_t N = m->ref.size(); std::vector<cd> f(N), fk(N); std::string err;
  wl::SR sr = wl::run_scheduled(cs, v, r, [&] {
    try {
      trv::ParameterSet p; wl::to_params(m->w, p);
      trv::ParticleCatalogue c(60), c2(60); loadc(c, m->p);
      trv::LineOfSight* l = new trv::LineOfSight[c.ntotal]; for (int i = 0; i < c.ntotal; i++) { l[i].pos[0] = l[i].pos[1] = 0; l[i].pos[2] = 1; }
      trv::LineOfSight* l2 = nullptr;
      if (m->mode == 4) { loadc(c2, m->q); l2 = new trv::LineOfSight[c2.ntotal]; for (int i = 0; i < c2.ntotal; i++) { l2[i].pos[0] = l2[i].pos[1] = 0; l2[i].pos[2] = 1; } }
      {
        trv::MeshField mf(p, true, "mesh");
        for (int rep = 0; rep < (m->reuse ? 2 : 1); rep++) {     // an earlier assignment leaves nothing behind
          if (m->mode <= 1) {
            fftw_complex* w = fftw_alloc_complex(c.ntotal);
            for (int i = 0; i < c.ntotal; i++) { w[i][0] = m->wr[i] * (rep + 1 == (m->reuse ? 2 : 1) ? 1 : 3.7); w[i][1] = m->wi[i]; }
            mf.assign_weighted_field_to_mesh(c, w); fftw_free(w);
          } else if (m->mode == 2) mf.compute_unweighted_field(c);
          else if (m->mode == 3) mf.compute_ylm_wgtd_field(c, l, 1., 0, 0);
          else mf.compute_ylm_wgtd_field(c, c2, l, l2, m->alpha, 0, 0);
        }
        for (size_t g = 0; g < N; g++) f[g] = cd(mf[g][0], mf[g][1]);
        mf.fourier_transform();
        for (size_t g = 0; g < N; g++) fk[g] = cd(mf[g][0], mf[g][1]);
      }
      delete[] l; delete[] l2;
    } catch (...) { err = describe_exception(); }
  }, true);
  if (!err.empty()) sim_violation("deposit-exception", "mesh assignment %s", err.c_str());
  // the unit-weight and harmonic fields of one catalogue carry no alpha here
  for (size_t g = 0; g < N; g++) if (!(std::abs(f[g] - m->ref[g]) <= m->tol))
    sim_violation("deposit", "%d threads: cell %zu holds (%.15g,%.15g), expected (%.15g,%.15g)", sr.nthr, g, f[g].real(), f[g].imag(), m->ref[g].real(), m->ref[g].imag());
  cd a = 0, b = 0; for (size_t g = 0; g < N; g++) { a += f[g]; b += m->ref[g]; }
  if (!(std::abs(a - b) <= m->tol * 10)) sim_violation("deposit-total", "total %.15g, expected %.15g", a.real(), b.real());
  for (size_t g = 0; g < N; g++) if (!m->skipk[g] && !(std::abs(fk[g] - m->refk[g]) <= m->tolk))
    sim_violation("deposit-interlaced", "%d threads: transformed mode %zu holds (%.15g,%.15g), expected (%.15g,%.15g)", sr.nthr, g, fk[g].real(), fk[g].imag(), m->refk[g].real(), m->refk[g].imag());
}
int nv3(Case& c) { return c.tier ? 12 : 8; }
Reg r3(Campaign{"mesh", "C03", setup3, nv3, exec3, 0});

// ---------------------------------------------------------------- C04 ----
struct Rec { int bin; double lo, hi, x, y, z; };
bool key(const Rec& a, const Rec& b) { return std::tie(a.bin, a.x, a.y, a.z, a.lo, a.hi) < std::tie(b.bin, b.x, b.y, b.z, b.lo, b.hi); }
struct B4 { wl::W w; std::vector<double> edges; std::vector<Rec> ref; std::vector<Rec> seq; std::vector<int> cnt2, cnt3; bool amb2; std::string err; bool file; };
double len(const Rec& q) { return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z); }
bool ambiguous(double s, const std::vector<double>& e, double eps) { for (double x : e) if (std::fabs(s - x) <= eps) return true; return false; }
std::vector<Rec> record(B4* m, std::string& err, std::vector<double>* edges, std::string* text, int* cnt) {
  std::vector<Rec> o;
  try {
    trv::ParameterSet p; wl::to_params(m->w, p);
    trv::Binning b(p); if (m->w.custom_edges) b.set_bins(m->w.edges); else b.set_bins();
    if (edges) *edges = b.bin_edges;
    trv::FieldStats fs(p, false);
    trv::BinnedVectors bv = fs.record_binned_vectors(b, m->file ? "/out/bv.dat" : "");
    if (cnt) *cnt = bv.count;
    size_t n = bv.indices.size();
    if ((int)n != bv.count || bv.lower_edges.size() != n || bv.upper_edges.size() != n || bv.vecx.size() != n || bv.vecy.size() != n || bv.vecz.size() != n || bv.num_bins != b.num_bins) { err = "arrays of different lengths"; return o; }
    for (size_t i = 0; i < n; i++) o.push_back(Rec{bv.indices[i], bv.lower_edges[i], bv.upper_edges[i], bv.vecx[i], bv.vecy[i], bv.vecz[i]});
  } catch (...) { err = describe_exception(); }
  return o;
}
void files_on(bool on) { if (on) { vfs::reset(); vfs::mkdirs("/out"); vfs::set_faults({}); vfs::clear_log(); } vfs::activate(on); }
bool setup4(Case& cs) {
  Rng r(mix64(cs.seed, 41)); B4* m = new B4; cs.w = m;
  m->w = wl::gen(r, 2, 0); wl::W& w = m->w;
  w.cat = "sim"; w.stat = r.chance(0.5) ? "powspec" : "2pcf"; w.ELL = 0; w.d = w.r = wl::Particles(); w.progbar = "false"; w.verbose = 60; w.interlace = "false";
  static const int g[] = {4, 5, 6, 7, 8, 9, 10, 12, 14};
  int g0 = g[r.below(9)]; bool cube = r.chance(0.5);
  for (int a = 0; a < 3; a++) w.ng[a] = cube ? g0 : g[r.below(9)];
  if (r.chance(0.5)) { double L = w.box[0]; for (int a = 0; a < 3; a++) w.box[a] = L * (0.3 + 1.7 * r.unif()); }
  bool fourier = w.stat == "powspec";
  double unit = fourier ? 2 * M_PI / w.box[0] : w.box[0] / w.ng[0], half = 0.5 * w.ng[0] * unit;
  w.binning = pick(r, {"lin", "lin", "log", "linpad", "logpad"});
  w.nb = r.range(1, 9); if (w.binning == "linpad" || w.binning == "logpad") w.nb = r.range(7, 11);
  w.bmin = w.binning == "lin" && r.chance(0.4) ? 0 : unit * (0.2 + 1.3 * r.unif());
  w.bmax = half * (0.4 + 1.8 * r.unif()); if (w.bmax < w.bmin * 1.3) w.bmax = w.bmin * 1.3 + unit;
  if (w.binning == "linpad" || w.binning == "logpad") w.bmax = std::max(w.bmax, unit * 8);
  w.custom_edges = r.chance(0.25);
  if (w.custom_edges) { w.binning = "lin"; w.edges.clear(); double e = w.bmin; w.edges.push_back(e); for (int i = 0; i < w.nb; i++) { e += (w.bmax - w.bmin) / w.nb * (0.4 + r.unif()); w.edges.push_back(e); } w.bmax = e; }
  m->file = r.chance(0.5);
  wl::run_reference(1, 0, [&] { files_on(true); m->seq = record(m, m->err, &m->edges, nullptr, nullptr); vfs::activate(false); });
  sample("%s ngrid=(%d,%d,%d) box=(%.4g,%.4g,%.4g) bins=%s %d in [%.4g,%.4g]%s records=%zu file=%d", fourier ? "fourier" : "config", w.ng[0], w.ng[1], w.ng[2], w.box[0], w.box[1], w.box[2], w.binning.c_str(), w.nb, w.bmin, w.bmax, w.custom_edges ? " custom" : "", m->seq.size(), (int)m->file);
  if (!m->err.empty()) { count("rejected_workloads"); return false; }
  for (size_t b = 0; b + 1 < m->edges.size(); b++) if (!(m->edges[b] < m->edges[b + 1])) { count("rejected_workloads"); return false; }  // padding beyond the range
  // brute force over the whole mesh
  m->amb2 = false; double samp = fourier ? 1e-5 : 0.1;
  for (int i = 0; i < w.ng[0]; i++) for (int j = 0; j < w.ng[1]; j++) for (int k = 0; k < w.ng[2]; k++) {
    int id[3] = {i, j, k}; double q[3];
    for (int a = 0; a < 3; a++) { double c = fourier ? 2 * M_PI / w.box[a] : w.box[a] / w.ng[a]; q[a] = (id[a] < w.ng[a] / 2 ? id[a] : id[a] - w.ng[a]) * c; }
    Rec t{-1, 0, 0, q[0], q[1], q[2]}; double s = len(t);
    if (ambiguous(s, m->edges, 2.5 * samp)) m->amb2 = true;
    if (ambiguous(s, m->edges, 1e-10 * (s + unit))) continue;
    for (size_t b = 0; b + 1 < m->edges.size(); b++) if (m->edges[b] <= s && s < m->edges[b + 1]) { t.bin = (int)b; t.lo = m->edges[b]; t.hi = m->edges[b + 1]; m->ref.push_back(t); break; }
  }
  std::sort(m->ref.begin(), m->ref.end(), key);
  // counts of a measurement on the same mesh and binning
  Rng r2(mix64(cs.seed, 42)); double lo[3] = {0, 0, 0};
  wl::W mw = w; mw.d = wl::gen_particles(r2, 6, lo, w.box, nullptr, true);
  auto counts = [&](bool three, std::vector<int>& out) {
    std::string e;
    wl::run_reference(1, 0, [&] {
      try {
        wl::W x = mw; if (three) x.stat = "bispec", x.form = "diag", x.ell1 = x.ell2 = 0;
        trv::ParameterSet p; wl::to_params(x, p); trv::Binning b(p); if (x.custom_edges) b.set_bins(x.edges); else b.set_bins();
        trv::ParticleCatalogue c(60); loadc(c, x.d);
        if (three) out = trv::compute_bispec_in_gpp_box(c, p, b, 1.).nmodes_1;
        else if (fourier) out = trv::compute_powspec_in_gpp_box(c, p, b, 1.).nmodes;
        else out = trv::compute_corrfunc_in_gpp_box(c, p, b, 1.).npairs;
      } catch (...) { e = describe_exception(); }
    });
    if (!e.empty()) out.clear();
  };
  if (r.chance(0.4) && !m->amb2 && m->edges.back() < (fourier ? 10 : 1e5)) { counts(false, m->cnt2); count("pair_counts_compared"); }
  if (fourier && r.chance(0.3) && w.ng[0] * w.ng[1] * w.ng[2] < 600) { counts(true, m->cnt3); count("triangle_counts_compared"); }
  return true;
}
std::vector<Rec> strip(const std::vector<Rec>& v, const std::vector<double>& e, double unit) { std::vector<Rec> o; for (auto& q : v) { double s = len(q); if (!ambiguous(s, e, 1e-10 * (s + unit))) o.push_back(q); } return o; }
bool near(double a, double b, double rel) { return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b)) + 1e-13; }
void exec4(Case& cs, Variant& v) {
  B4* m = (B4*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id));
  std::string err; std::vector<Rec> got; int cnt = -1; std::string text;
  wl::SR sr = wl::run_scheduled(cs, v, r, [&] { files_on(true); vfs::set_bufseed(r.next()); got = record(m, err, nullptr, nullptr, &cnt); vfs::activate(false); });
  if (m->file) text = vfs::get("/out/bv.dat");
  if (!err.empty()) sim_violation("records-exception", "with %d threads: %s", sr.nthr, err.c_str());
  double unit = m->w.stat == "powspec" ? 2 * M_PI / m->w.box[0] : m->w.box[0] / m->w.ng[0];
  std::vector<Rec> a = strip(got, m->edges, unit);
  for (auto& q : a) if (q.bin < 0 || q.bin + 1 >= (int)m->edges.size() || !near(q.lo, m->edges[q.bin], 1e-12) || !near(q.hi, m->edges[q.bin + 1], 1e-12) || !(q.lo <= len(q) && len(q) < q.hi))
    sim_violation("record-torn", "%d threads: record bin %d [%.12g,%.12g) vector (%.12g,%.12g,%.12g) of length %.12g", sr.nthr, q.bin, q.lo, q.hi, q.x, q.y, q.z, len(q));
  std::vector<Rec> s = a; std::sort(s.begin(), s.end(), key);
  if (s.size() != m->ref.size()) sim_violation("record-count", "%d threads: %zu records, expected %zu", sr.nthr, s.size(), m->ref.size());
  for (size_t i = 0; i < s.size(); i++) if (s[i].bin != m->ref[i].bin || !near(s[i].x, m->ref[i].x, 1e-12) || !near(s[i].y, m->ref[i].y, 1e-12) || !near(s[i].z, m->ref[i].z, 1e-12))
    sim_violation("record-set", "%d threads: record %zu is bin %d (%.12g,%.12g,%.12g), expected bin %d (%.12g,%.12g,%.12g)", sr.nthr, i, s[i].bin, s[i].x, s[i].y, s[i].z, m->ref[i].bin, m->ref[i].x, m->ref[i].y, m->ref[i].z);
  for (size_t i = 1; i < got.size(); i++) if (got[i].bin < got[i - 1].bin) sim_violation("record-unsorted", "record %zu of bin %d follows bin %d", i, got[i].bin, got[i - 1].bin);
  for (size_t i = 0; i < got.size() && i < m->seq.size(); i++) if (got[i].bin != m->seq[i].bin || got[i].x != m->seq[i].x || got[i].y != m->seq[i].y || got[i].z != m->seq[i].z)
    sim_violation("record-order", "%d threads: record %zu is (%.12g,%.12g,%.12g), with one thread (%.12g,%.12g,%.12g)", sr.nthr, i, got[i].x, got[i].y, got[i].z, m->seq[i].x, m->seq[i].y, m->seq[i].z);
  std::vector<int> c(m->edges.size() - 1, 0); for (auto& q : got) c[q.bin]++;
  if (m->cnt2.size() == c.size()) for (size_t i = 0; i < c.size(); i++) if (c[i] != m->cnt2[i]) sim_violation("record-vs-count", "bin %zu has %d records, the two-point measurement counts %d", i, c[i], m->cnt2[i]);
  if (m->cnt3.size() == c.size()) for (size_t i = 0; i < c.size(); i++) if (c[i] != m->cnt3[i]) sim_violation("record-vs-count", "bin %zu has %d records, the three-point measurement counts %d", i, c[i], m->cnt3[i]);
  if (m->file) {
    size_t n = 0, pos = 0;
    while (pos < text.size()) {
      size_t e = text.find('\n', pos); if (e == std::string::npos) sim_violation("record-file", "last line is incomplete");
      std::string ln = text.substr(pos, e - pos); pos = e + 1;
      if (ln.empty() || ln[0] == '#') continue;
      Rec q; if (sscanf(ln.c_str(), "%d %lf %lf %lf %lf %lf", &q.bin, &q.lo, &q.hi, &q.x, &q.y, &q.z) != 6) sim_violation("record-file", "unreadable line '%s'", ln.c_str());
      if (n >= got.size()) sim_violation("record-file", "more rows than records");
      Rec& g = got[n];
      if (q.bin != g.bin || !near(q.lo, g.lo, 1e-9) || !near(q.hi, g.hi, 1e-9) || !near(q.x, g.x, 1e-9) || !near(q.y, g.y, 1e-9) || !near(q.z, g.z, 1e-9)) sim_violation("record-file", "row %zu '%s' differs from the record", n, ln.c_str());
      n++;
    }
    if (n != got.size()) sim_violation("record-file", "%zu rows for %zu records", n, got.size());
  }
}
int nv4(Case& c) { return c.tier ? 12 : 8; }
Reg r4(Campaign{"binvec", "C04", setup4, nv4, exec4, 0});
}

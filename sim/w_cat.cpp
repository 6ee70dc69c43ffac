// C05: sequences of catalogue operations against a sequential per-particle model.
#include "w_common.h"
#include <algorithm>
#include <cmath>
using namespace drv;
namespace {
struct P { double x[3], nz, ws, wc; };
struct Opn { int kind; int who; double a[3], b[3]; int g[3]; };
// 0 offset 1 wrap 2 centre 3 centre-pair 4 pad-box 5 pad-box-pair 6 pad-grid 7 pad-grid-pair 8 reload 9 totals 10 extents
const char* onames[] = {"offset_coords", "offset_coords_for_periodicity", "centre_in_box", "centre_in_box(pair)", "pad_in_box", "pad_in_box(pair)", "pad_grids", "pad_grids(pair)", "load_particle_data", "calc_total_weights", "calc_pos_extents"};
struct K { wl::Particles p[2], q[2]; std::vector<Opn> ops; };
// expected state of one catalogue
struct St { std::vector<P> v; double lo[3], hi[3], wt, wst, scale; };
void extents(St& s) { for (int a = 0; a < 3; a++) { s.lo[a] = s.hi[a] = s.v[0].x[a]; for (auto& p : s.v) { s.lo[a] = std::min(s.lo[a], p.x[a]); s.hi[a] = std::max(s.hi[a], p.x[a]); } } }
void fill(St& s, const wl::Particles& p) {
  s.v.clear(); s.wt = s.wst = 0; s.scale = 0;
  for (size_t i = 0; i < p.x.size(); i++) { P q = {{p.x[i], p.y[i], p.z[i]}, p.nz[i], p.ws[i], p.wc[i]}; s.v.push_back(q); s.wt += q.ws * q.wc; s.wst += q.ws; for (double c : q.x) s.scale = std::max(s.scale, std::fabs(c)); }
  extents(s);
}
void shift(St& s, const double* d) { for (auto& p : s.v) for (int a = 0; a < 3; a++) p.x[a] -= d[a]; for (int a = 0; a < 3; a++) s.scale = std::max(s.scale, std::fabs(d[a])); extents(s); }
void load(trv::ParticleCatalogue& c, const wl::Particles& p) { c.load_particle_data(p.x, p.y, p.z, p.nz, p.ws, p.wc); }
wl::Particles make(Rng& r, int n, const double* box) {
  double lo[3], span[3], f = 0.2 + 2.5 * r.unif();
  for (int a = 0; a < 3; a++) { span[a] = f * box[a] * (0.5 + r.unif()); lo[a] = (r.unif() - 0.6) * 2 * span[a]; if (r.chance(0.2)) lo[a] = 0, span[a] = box[a]; }
  wl::Particles p = wl::gen_particles(r, n, lo, span, nullptr, false);
  for (int i = 0; i < n; i++) if (r.chance(0.15)) {                    // exactly on box edges and multiples
    std::vector<double>* c[3] = {&p.x, &p.y, &p.z}; int a = r.range(0, 2); double k[] = {0, 1, -1, 2, 1, 3};
    (*c[a])[i] = k[r.below(6)] * box[a];
  }
  return p;
}
bool setup(Case& cs) {
  Rng r(mix64(cs.seed, 51)); K* k = new K; cs.w = k;
  double box[3]; double L = 10 + 1000 * r.unif(); bool cube = r.chance(0.5);
  for (int a = 0; a < 3; a++) box[a] = cube ? L : L * (0.5 + r.unif());
  for (int c = 0; c < 2; c++) {
    int n = r.chance(0.12) ? r.range(1, 4) : r.range(5, cs.tier ? 1200 : 500);
    k->p[c] = make(r, n, box); k->q[c] = make(r, r.chance(0.3) ? r.range(1, 5) : r.range(5, 200), box);
  }
  int no = r.range(2, 9);
  std::string d;
  for (int i = 0; i < no; i++) {
    Opn o; o.kind = r.range(0, 10); if (r.chance(0.25)) o.kind = 1; o.who = r.range(0, 1);
    bool samebox = r.chance(0.7);
    for (int a = 0; a < 3; a++) { o.a[a] = o.kind == 0 ? (r.unif() - 0.5) * 2 * L : samebox ? box[a] : box[a] * (0.3 + r.unif()); o.b[a] = r.unif() * (o.kind >= 6 ? 3 : 0.3); o.g[a] = r.range(1, 300); }
    k->ops.push_back(o); d += std::string(i ? ", " : "") + onames[o.kind];
  }
  sample("%zu and %zu particles in a box of (%.4g,%.4g,%.4g): %s", k->p[0].x.size(), k->p[1].x.size(), box[0], box[1], box[2], d.c_str());
  return true;
}
void check(int c, const char* op, int iop, trv::ParticleCatalogue& cat, St& s, const std::vector<char>& wrap, const double* box, int nthr) {
  if (cat.ntotal != (int)s.v.size()) sim_violation("catalogue-count", "after operation %d (%s): ntotal=%d, expected %zu", iop, op, cat.ntotal, s.v.size());
  double tol = 4e-15 * (1 + s.scale) * (iop + 4);
  for (int i = 0; i < cat.ntotal; i++) {
    trv::ParticleData& p = cat.pdata[i]; P& q = s.v[i];
    if (p.nz != q.nz || p.ws != q.ws || p.wc != q.wc || p.w != q.ws * q.wc)
      sim_violation("catalogue-attribute", "%d threads, after operation %d (%s): particle %d of catalogue %d has (nz,ws,wc,w)=(%.17g,%.17g,%.17g,%.17g), expected (%.17g,%.17g,%.17g,%.17g)", nthr, iop, op, i, c, p.nz, p.ws, p.wc, p.w, q.nz, q.ws, q.wc, q.ws * q.wc);
    for (int a = 0; a < 3; a++) {
      double e = std::fabs(p.pos[a] - q.x[a]);
      if (wrap.size()) { if (!(p.pos[a] >= 0 && p.pos[a] <= box[a])) sim_violation("catalogue-wrap", "%d threads: particle %d of catalogue %d wrapped to %.17g outside [0, %.17g]", nthr, i, c, p.pos[a], box[a]); e = std::min(e, std::fabs(e - box[a])); }
      if (!(e <= tol)) sim_violation("catalogue-position", "%d threads, after operation %d (%s): particle %d of catalogue %d axis %d at %.17g, expected %.17g", nthr, iop, op, i, c, a, p.pos[a], q.x[a]);
      q.x[a] = p.pos[a];             // follow rounding
    }
  }
  extents(s);
  for (int a = 0; a < 3; a++) {
    if (cat.pos_min[a] != s.lo[a] || cat.pos_max[a] != s.hi[a]) sim_violation("catalogue-extents", "%d threads, after operation %d (%s): extents of axis %d are [%.17g, %.17g], expected [%.17g, %.17g]", nthr, iop, op, a, cat.pos_min[a], cat.pos_max[a], s.lo[a], s.hi[a]);
    if (std::fabs(cat.pos_span[a] - (s.hi[a] - s.lo[a])) > 1e-12 * (1 + s.scale)) sim_violation("catalogue-extents", "after operation %d (%s): span of axis %d is %.17g, expected %.17g", iop, op, a, cat.pos_span[a], s.hi[a] - s.lo[a]);
  }
  if (!(std::fabs(cat.wtotal - s.wt) <= 1e-11 * std::fabs(s.wt)) || !(std::fabs(cat.wstotal - s.wst) <= 1e-11 * std::fabs(s.wst)))
    sim_violation("catalogue-weights", "%d threads, after operation %d (%s): weight sums (%.17g, %.17g), expected (%.17g, %.17g)", nthr, iop, op, cat.wtotal, cat.wstotal, s.wt, s.wst);
}
void exec(Case& cs, Variant& v) {
  K* k = (K*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id));
  wl::SR sr; sr.nthr = 0;
  std::string err;
  wl::run_scheduled(cs, v, r, [&] {
    int nthr = 0;
    try {
      trv::ParticleCatalogue c[2] = {trv::ParticleCatalogue(60), trv::ParticleCatalogue(60)}; St s[2]; std::vector<char> none, wr(1);
      for (int i = 0; i < 2; i++) { load(c[i], k->p[i]); mem::Pause mp; fill(s[i], k->p[i]); check(i, "load", -1, c[i], s[i], none, nullptr, nthr); }
      for (size_t i = 0; i < k->ops.size(); i++) {
        Opn o = k->ops[i]; int a = o.who, b = 1 - a; double gp[3]; memcpy(gp, o.b, sizeof gp);
        bool pair = o.kind == 3 || o.kind == 5 || o.kind == 7;
        switch (o.kind) {
          case 0: c[a].offset_coords(o.a); break;
          case 1: c[a].offset_coords_for_periodicity(o.a); break;
          case 2: trv::ParticleCatalogue::centre_in_box(c[a], o.a); break;
          case 3: trv::ParticleCatalogue::centre_in_box(c[a], c[b], o.a); break;
          case 4: trv::ParticleCatalogue::pad_in_box(c[a], o.a, o.b); break;
          case 5: trv::ParticleCatalogue::pad_in_box(c[a], c[b], o.a, o.b); break;
          case 6: trv::ParticleCatalogue::pad_grids(c[a], o.a, o.g, gp); break;
          case 7: trv::ParticleCatalogue::pad_grids(c[a], c[b], o.a, o.g, gp); break;
          case 8: load(c[a], k->q[a]); break;
          case 9: c[a].wtotal = c[a].wstotal = -5; c[a].calc_total_weights(); break;
          case 10: for (int q = 0; q < 3; q++) c[a].pos_min[q] = c[a].pos_max[q] = c[a].pos_span[q] = 77; c[a].calc_pos_extents(); break;
        }
        mem::Pause mp;
        St& ref = pair ? s[b] : s[a]; double d[3]; bool sh = true;
        for (int q = 0; q < 3; q++) switch (o.kind) {
          case 0: d[q] = o.a[q]; break;
          case 2: case 3: d[q] = 0.5 * (ref.lo[q] + ref.hi[q]) - 0.5 * o.a[q]; break;
          case 4: case 5: d[q] = ref.lo[q] - o.b[q] * o.a[q]; break;
          case 6: case 7: d[q] = ref.lo[q] - o.b[q] * o.a[q] / o.g[q]; break;
          default: sh = false; d[q] = 0;
        }
        if (sh) { shift(s[a], d); if (pair) shift(s[b], d); }
        if (o.kind == 1) for (size_t z = 0; z < s[a].v.size() && z < (size_t)c[a].ntotal; z++) for (int q = 0; q < 3; q++) {
          P& p = s[a].v[z]; double L = o.a[q];
          // only a negative coordinate may round up to the upper edge
          if (p.x[q] >= 0 && !(c[a].pdata[z].pos[q] < L)) sim_violation("catalogue-wrap", "%d threads: particle %zu of catalogue %d at %.17g wrapped to %.17g, not in [0, %.17g)", nthr, z, a, p.x[q], c[a].pdata[z].pos[q], L);
          p.x[q] -= L * std::floor(p.x[q] / L);
        }
        if (o.kind == 8) fill(s[a], k->q[a]);
        check(a, onames[o.kind], (int)i, c[a], s[a], o.kind == 1 ? wr : none, o.a, nthr);
        check(b, onames[o.kind], (int)i, c[b], s[b], none, o.a, nthr);
        count("operations");
      }
    } catch (...) { err = describe_exception(); }
  });
  if (!err.empty()) sim_violation("catalogue-exception", "%s", err.c_str());
}
int nv(Case& c) { return c.tier ? 12 : 8; }
Reg rg(Campaign{"catops", "C05", setup, nv, exec, 0});
}

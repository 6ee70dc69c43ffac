// C08: catalogue files in the simulated file system against an independent
// parser, under read faults, allocation faults and changes behind the
// program's back.
#include "w_common.h"
#include <algorithm>
#include <cmath>
using namespace drv;
namespace {
template <class T> T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
struct CF { std::vector<std::string> cols; std::vector<std::pair<std::string, std::string>> files; double volume; std::vector<vfs::OpRec> log; uint64_t nalloc, nlog; };
// -- reference: what a set of files contains ---------------------------------------
struct Row { double x[3], nz, ws, wc; };
enum { OK_ROWS = 0, REJECT = 1, EITHER = 2 };
struct Parsed { int st = OK_ROWS; std::vector<Row> rows; std::string why; };
bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
// a decimal number: 1 yes, 0 no, -1 not judged
int number(const std::string& s, double* v) {
  size_t i = 0, n = s.size(); if (i < n && (s[i] == '+' || s[i] == '-')) i++;
  if (n - i > 1 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) return -1;   // hexadecimal
  size_t d = 0; while (i < n && isdigit((unsigned char)s[i])) i++, d++;
  if (i < n && s[i] == '.') { i++; while (i < n && isdigit((unsigned char)s[i])) i++, d++; }
  if (!d) return 0;
  if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; size_t e = i; while (i < n && isdigit((unsigned char)s[i])) i++; if (i == e) return 0; }
  if (i != n) return 0;
  *v = strtod(s.c_str(), nullptr);
  if (!std::isfinite(*v)) return 0;
  if (*v == 0 || std::fabs(*v) < 1e-300) { for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') return -1; } }   // underflow
  return 1;
}
Parsed parse(const std::vector<std::string>& cols, const std::vector<std::string>& txt, double volume) {
  Parsed o; const char* names[6] = {"x", "y", "z", "nz", "ws", "wc"}; int idx[6];
  for (int k = 0; k < 6; k++) { idx[k] = -1; for (size_t c = 0; c < cols.size(); c++) if (cols[c] == names[k]) { idx[k] = (int)c; break; } }
  for (int k = 0; k < 3; k++) if (idx[k] < 0) { o.st = REJECT; o.why = "missing column"; return o; }
  for (auto& t : txt) {
    size_t p = 0;
    while (p < t.size()) {
      size_t e = t.find('\n', p); std::string l = t.substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? t.size() : e + 1;
      size_t i = 0; while (i < l.size() && blank(l[i])) i++;
      if (i == l.size() || l[i] == '#') continue;
      std::vector<std::string> tok; while (i < l.size()) { size_t s = i; while (i < l.size() && !blank(l[i])) i++; tok.push_back(l.substr(s, i - s)); while (i < l.size() && blank(l[i])) i++; }
      double v[6] = {0, 0, 0, NAN, 1, 1};
      for (int k = 0; k < 6; k++) if (idx[k] >= 0) {
        if ((size_t)idx[k] >= tok.size()) { o.st = REJECT; o.why = "short row"; return o; }
        int q = number(tok[idx[k]], &v[k]); if (q == 0) { o.st = REJECT; o.why = "not a number"; return o; }
        if (q < 0) o.st = EITHER;
      }
      o.rows.push_back(Row{{v[0], v[1], v[2]}, v[3], v[4], v[5]});
    }
  }
  if (o.st == EITHER) return o;
  if (o.rows.empty()) { o.st = REJECT; o.why = "no rows"; return o; }
  if (idx[3] < 0) for (auto& q : o.rows) q.nz = volume > 0 ? o.rows.size() / volume : 0.;
  return o;
}
// -- generation -------------------------------------------------------------------------
std::string numtext(Rng& r, double v) {
  char b[64]; snprintf(b, 64, pick(r, {"%.17g", "%.17g", "%.6f", "%.10e", "%+.3f", "%.1f", "%.0f", "%.17g", "%020.9f", "%E"}), v); return b;
}
std::string rowtext(Rng& r, const CF* m) {
  std::string l; if (r.chance(0.05)) l = pick<std::string>(r, {" ", "\t", "   "});
  for (size_t c = 0; c < m->cols.size(); c++) {
    double v = (r.unif() - 0.3) * 1000; if (r.chance(0.05)) v = 0; if (r.chance(0.03)) v *= 1e12; if (r.chance(0.03)) v *= 1e-12;
    std::string t = numtext(r, v);
    if (m->cols[c].size() > 2 && r.chance(0.3)) t = pick<std::string>(r, {"NGC", "nan", "-", "inf", "1e", "obj#7"});   // a column that is not asked for
    l += (c ? pick<std::string>(r, {" ", " ", "  ", "\t", " \t "}) : "") + t;
  }
  if (r.chance(0.03)) l += pick<std::string>(r, {" ", " extra", " 5.5", " # note"});
  return l;
}
std::string text(Rng& r, const CF* m, int n) {
  std::string t; bool crlf = r.chance(0.1); const char* nl = crlf ? "\r\n" : "\n";
  if (r.chance(0.4)) t += std::string("# x y z") + nl;
  for (int i = 0; i < n; i++) {
    if (r.chance(0.03)) t += pick<std::string>(r, {"", "# 1 2 3 4 5 6 7", "  ", "#", "\t", " # 1 2 3"}) + nl;
    t += rowtext(r, m) + nl;
  }
  if (r.chance(0.15) && !t.empty()) { t.pop_back(); if (crlf && !t.empty()) t.pop_back(); }   // no newline at the end
  return t;
}
void mutate(Rng& r, int kind, std::string& t) {
  auto at = [&] { return t.empty() ? 0 : r.below(t.size()); };
  auto line = [&](size_t& a, size_t& b) { a = at(); while (a > 0 && t[a - 1] != '\n') a--; b = t.find('\n', a); if (b == std::string::npos) b = t.size(); };
  auto token = [&](size_t& a, size_t& b) { a = at(); while (a < t.size() && blank(t[a])) a++; b = a; while (a > 0 && !blank(t[a - 1])) a--; while (b < t.size() && !blank(t[b])) b++; };
  size_t a, b;
  switch (kind) {
    case 1: t.resize(at()); break;                                                        // truncated
    case 2: { size_t k = at(); for (; k < t.size(); k++) t[k] = 0; break; }               // zero-filled tail (torn write)
    case 3: { size_t k = at(), n = std::min<size_t>(t.size() - k, 1 + r.below(40)); for (size_t i = 0; i < n; i++) t[k + i] = 0; break; }   // hole
    case 4: if (!t.empty()) t[at()] = (char)r.below(256); break;                          // one byte
    case 5: line(a, b); t.erase(a, std::min(t.size(), b + 1) - a); break;                 // line lost
    case 6: line(a, b); t.insert(a, t.substr(a, b - a) + "\n"); break;                    // line doubled
    case 7: token(a, b); t.erase(a, b - a); break;                                        // field lost
    case 8: token(a, b); t.replace(a, b - a, pick<std::string>(r, {"nan", "inf", "-inf", "NaN", "--", "1.5abc", "abc", "1,5", "1e999", "1.2.3", "e5", "1e", "+", "1d3", "*****", "0..5", "1e5.5", "\xc2\xa0" "1.0", "1_000"})); break;
    case 9: token(a, b); t.insert(b, std::string(1 + r.below(3), '\0')); break;           // stray NUL bytes after a number
    case 10: line(a, b); t.replace(b, t.size() > b ? 1 : 0, " "); break;                  // two lines joined
    case 11: { size_t k = at(); t.insert(k, "\n"); break; }                               // a line split
    case 12: t = ""; break;
    case 13: t = "# nothing\n\n"; break;
    case 14: line(a, b); t.insert(b, std::string(5000 + r.below(20000), ' ') + "7"); break;   // a long line
    case 15: { size_t k = at(), n = std::min<size_t>(t.size() - k, 1 + r.below(4000)); std::string s = t.substr(k, n); t.insert(at(), s); break; }  // a block repeated elsewhere
  }
}
std::vector<std::string> texts(const CF* m) { std::vector<std::string> t; for (auto& f : m->files) t.push_back(f.second); return t; }
void put_all(const CF* m) { vfs::reset(); vfs::mkdirs("/in"); for (auto& f : m->files) vfs::put(f.first.c_str(), f.second.data(), f.second.size()); }
std::string path_of(const CF* m) { std::string p; for (auto& f : m->files) p += (p.empty() ? "" : "::") + f.first; return p; }
std::string cols_of(const CF* m) { std::string p; for (auto& c : m->cols) p += (p.empty() ? "" : ",") + c; return p; }
// loads into a fresh catalogue; false: rejected
struct Loaded { bool ok = false; int ntotal = 0; std::string err; std::vector<trv::ParticleData> p; double w, ws, lo[3], hi[3]; };
void keep(trv::ParticleCatalogue& c, Loaded& o) { o.ntotal = c.ntotal; o.p.assign(c.pdata, c.pdata + c.ntotal); o.w = c.wtotal; o.ws = c.wstotal; for (int a = 0; a < 3; a++) o.lo[a] = c.pos_min[a], o.hi[a] = c.pos_max[a]; }
Loaded load(const std::string& path, const std::string& cols, double volume, bool twice) {
  Loaded o;
  try {
    trv::ParticleCatalogue c(60);
    int s = c.load_catalogue_file(path, cols, "", volume);
    o.ok = s == 0; if (s != 0) o.err = "status";
    if (o.ok) {
      if (twice) { bool t = false; try { t = c.load_catalogue_file(path, cols, "", volume) == 0; } catch (const std::exception&) {} if (t) o.err = "second"; }
      mem::Pause p; keep(c, o);
    }
  } catch (const std::exception&) { mem::Pause p; o.ok = false; o.err = describe_exception(); }
  return o;
}
std::string differs(const Loaded& l, const Parsed& p) {
  char b[300];
  if ((size_t)l.ntotal != p.rows.size()) { snprintf(b, 300, "%d particles, the file has %zu rows", l.ntotal, p.rows.size()); return b; }
  double w = 0, ws = 0, lo[3], hi[3];
  for (size_t i = 0; i < p.rows.size(); i++) {
    const Row& q = p.rows[i]; const trv::ParticleData& d = l.p[i];
    if (d.pos[0] != q.x[0] || d.pos[1] != q.x[1] || d.pos[2] != q.x[2] || !(std::fabs(d.nz - q.nz) <= 4e-16 * std::fabs(q.nz)) || d.ws != q.ws || d.wc != q.wc || d.w != q.ws * q.wc) {
      snprintf(b, 300, "particle %zu is (%.17g %.17g %.17g nz=%.17g ws=%.17g wc=%.17g w=%.17g), the row is (%.17g %.17g %.17g nz=%.17g ws=%.17g wc=%.17g)", i, d.pos[0], d.pos[1], d.pos[2], d.nz, d.ws, d.wc, d.w, q.x[0], q.x[1], q.x[2], q.nz, q.ws, q.wc); return b;
    }
    w += q.ws * q.wc; ws += q.ws;
    for (int a = 0; a < 3; a++) { if (!i || q.x[a] < lo[a]) lo[a] = q.x[a]; if (!i || q.x[a] > hi[a]) hi[a] = q.x[a]; }
  }
  double aw = 0, aws = 0; for (auto& q : p.rows) aw += std::fabs(q.ws * q.wc), aws += std::fabs(q.ws);
  if (!(std::fabs(l.w - w) <= 1e-12 * aw) || !(std::fabs(l.ws - ws) <= 1e-12 * aws)) { snprintf(b, 300, "weight sums (%.17g, %.17g) instead of (%.17g, %.17g)", l.w, l.ws, w, ws); return b; }
  for (int a = 0; a < 3; a++) if (l.lo[a] != lo[a] || l.hi[a] != hi[a]) { snprintf(b, 300, "extents [%.17g, %.17g] instead of [%.17g, %.17g]", l.lo[a], l.hi[a], lo[a], hi[a]); return b; }
  return "";
}
bool setup8(Case& cs) {
  Rng r(mix64(cs.seed, 81)); CF* m = new CF; cs.w = m;
  m->cols = {"x", "y", "z"};
  for (const char* n : {"nz", "ws", "wc"}) if (r.chance(0.6)) m->cols.push_back(n);
  for (int k = r.range(0, 2); k > 0; k--) m->cols.push_back(pick<std::string>(r, {"extra", "w_comp", "zred", "redshift"}));
  for (size_t i = m->cols.size(); i > 1; i--) std::swap(m->cols[i - 1], m->cols[r.below(i)]);
  if (r.chance(0.04)) { for (auto& c : m->cols) if (c.size() == 1 && r.chance(0.5)) { c = pick<std::string>(r, {" x", "X", "xx", "y ", "", "pos"}); break; } }
  m->volume = r.chance(0.2) ? 0 : r.chance(0.1) ? -3 : 1e6 * r.unif();
  int nf = r.chance(0.7) ? 1 : r.range(2, 3);
  for (int i = 0; i < nf; i++) { int n = r.chance(0.1) ? 0 : r.chance(0.4) ? r.range(1, 5) : r.range(5, cs.tier ? 600 : 250); m->files.push_back({pick<std::string>(r, {"/in/cat", "/in/c.d/cat", "/in/cat.dat"}) + std::to_string(i), text(r, m, n)}); }
  put_all(m); for (auto& f : m->files) { size_t s = f.first.rfind('/'); vfs::mkdirs(f.first.substr(0, s).c_str()); }
  sample("columns %s, %zu file(s) of %zu bytes, volume %g", cols_of(m).c_str(), m->files.size(), m->files[0].second.size(), m->volume);
  return true;
}
int nv8(Case& c) { return c.tier ? 60 : 40; }
void put8(const CF* m) { vfs::reset(); vfs::mkdirs("/in"); for (auto& f : m->files) { size_t s = f.first.rfind('/'); vfs::mkdirs(f.first.substr(0, s).c_str()); vfs::put(f.first.c_str(), f.second.data(), f.second.size()); } }
// arrays of unequal length are rejected, others taken over exactly
void arrays(int which, uint64_t s, uint64_t sseed, int nthr, int fill) {
  Rng q(s); int n = q.range(1, 60); std::vector<double> a[6];
  for (int k = 0; k < 6; k++) { int len = n; if (which == k) len = q.chance(0.5) ? n + q.range(1, 3000) : q.below(n); a[k].resize(len); for (auto& x : a[k]) x = q.unif() * 100; }
  rt::Cfg rc; rc.nthr = nthr; rc.mode = rt::SEQ; if (nthr > 1) { rc.mode = rt::RANDOM; rc.p = 0.01; rc.psync = 0.3; rc.seed = sseed; }
  mem::Cfg mc; mc.fill = fill; mc.seed = s; bool ok = true, same = true; trv::sys::logger.reset_level(60);
  rt::begin(rc); mem::begin(mc);
  try {
    trv::ParticleCatalogue c(60); c.load_particle_data(a[0], a[1], a[2], a[3], a[4], a[5]);
    same = c.ntotal == n;
    if (which > 5 && same) for (int i = 0; i < n; i++) { auto& p = c[i]; same = same && p.pos[0] == a[0][i] && p.pos[1] == a[1][i] && p.pos[2] == a[2][i] && p.nz == a[3][i] && p.ws == a[4][i] && p.wc == a[5][i] && p.w == a[4][i] * a[5][i]; }
  } catch (const std::exception&) { ok = false; }
  mem::end(); rt::end();
  if (which < 6 && ok) sim_violation("array-lengths", "data arrays of unequal length were accepted (array %d has %zu entries, others %d)", which, a[which].size(), n);
  if (which > 5 && (!ok || !same)) sim_violation("array-load", "%d particles given as arrays were %s", n, ok ? "not taken over exactly" : "rejected");
}
void exec8(Case& cs, Variant& v) {
  CF* m = new CF(*(CF*)cs.w); Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  // E_MISC: file f changed in way b by seed c; file -1 = path/object histories
  if (v.id && r.chance(0.65)) for (int k = r.chance(0.8) ? 1 : r.range(2, 4); k > 0; k--) ev.push_back(Ev{E_MISC, r.below(m->files.size()), (int64_t)r.range(1, 15), r.next() >> 20});
  if (r.chance(0.05)) ev.push_back(Ev{E_MISC, 98, (int64_t)r.range(0, 7), r.next() >> 20});
  if (r.chance(0.06)) ev.push_back(Ev{E_MISC, 99, (int64_t)r.range(0, 3), r.next() >> 20});
  int nio = v.id && r.chance(0.55) ? r.range(1, 3) : 0; bool changed = false;
  for (int k = 0; k < nio; k++) {
    int f = pick<int>(r, {vfs::F_OPEN_FAIL, vfs::F_READ_EIO, vfs::F_READ_EIO, vfs::F_READ_SHORT, vfs::F_READ_SHORT, vfs::F_READ_EINTR, vfs::F_CHANGED});
    if (f == vfs::F_CHANGED) { if (changed) continue; changed = true; }
    ev.push_back(Ev{E_IO, r.below(f == vfs::F_OPEN_FAIL ? 6 : 4 + 8 * m->files.size() + m->files[0].second.size() / 1500), f, r.next() >> 20});
  }
  if (v.id && r.chance(0.12)) ev.push_back(Ev{E_ALLOC, r.chance(0.5) ? r.below(40) : r.below(3000), (int64_t)(r.chance(0.7) ? 1 : 100000), 0});
  int nthr = r.chance(0.3) ? r.range(2, 5) : 1; uint64_t sseed = r.next(), seed = r.next(); bool twice = r.chance(0.2); int fill = r.range(0, 3);
  if (v.replay) ev = v.ev;
  set_events(ev);
  bool missing = false; std::string extra; uint64_t h = cs.seed;
  for (auto& e : ev) {
    h = mix64(h, e.type * 7919 + e.a * 131 + e.b * 17 + e.c);
    if (e.type != E_MISC) continue;
    if (e.a == 98) { count("fault_array-lengths"); arrays((int)e.b, e.c, sseed, nthr, fill); continue; }
    if (e.a == 99) { if (e.b == 0) extra = "::/in/none"; else if (e.b == 1) extra = "::"; else if (e.b == 2) missing = true; else extra = "::/in"; if (e.b == 0 || e.b == 3) missing = true; count("fault_bad-path"); continue; }
    if (e.a < m->files.size()) { Rng q(e.c); mutate(q, (int)e.b, m->files[e.a].second); count("fault_file-content"); }
  }
  put8(m); if (missing && extra.empty()) vfs::remove_file(m->files[0].first.c_str());
  std::vector<vfs::FaultAt> io; mem::Cfg mc; mc.fill = fill; mc.seed = seed;
  for (auto& e : ev) { if (e.type == E_IO) io.push_back(vfs::FaultAt{e.a, (int)e.b, e.c}); if (e.type == E_ALLOC) { mc.fail_at = e.a; mc.fail_count = e.b; } }
  rt::Cfg rc; rc.nthr = nthr; rc.mode = rt::SEQ; if (nthr > 1) { rc.mode = rt::RANDOM; rc.p = 0.002; rc.psync = 0.3; rc.seed = sseed; }
  std::string path = path_of(m) + extra, cols = cols_of(m);
  vfs::clear_log(); vfs::clear_fired(); vfs::set_faults(io); vfs::set_bufseed(seed >> 3); vclock::Cfg vc; vc.seed = seed;
  trv::sys::logger.reset_level(60);
  vclock::begin(vc); vfs::activate(true); rt::begin(rc); mem::begin(mc);
  Loaded l = load(path, cols, m->volume, twice);
  int64_t nfailed = mem::n_failed; mem::end(); rt::end(); vfs::activate(false); vclock::end();
  uint64_t hard = nfailed; for (int k = 1; k < vfs::F_NKINDS; k++) { uint64_t f = vfs::fired(k); if (f) { count((std::string("fault_") + vfs::fault_names[k]).c_str(), f); if (k != vfs::F_CHANGED && k != vfs::F_READ_SHORT && k != vfs::F_READ_EINTR) hard += f; } }
  if (nfailed) count("fault_alloc-fail", nfailed);
  bool chg = vfs::fired(vfs::F_CHANGED) > 0;
  if (ev.size()) state_hash(h);
  Parsed p = parse(m->cols, texts(m), m->volume); if (missing) { p.st = REJECT; p.why = "missing file"; }
  count(p.st == REJECT ? "must_reject" : p.st == EITHER ? "not_judged" : "must_load"); count(l.ok ? "loaded" : "rejected");
  if (l.err == "second") sim_violation("catalogue-reload", "a second load into the same catalogue was accepted");
  if (p.st == EITHER) return;
  if (l.ok) {
    std::string d = p.st == REJECT ? "it must be rejected: " + p.why : differs(l, p);
    if (!d.empty() && chg) {                     // the old or the new content of the changed file
      for (size_t f = 0; f < m->files.size() && !d.empty(); f++) {
        std::vector<std::string> t = texts(m); t[f] = vfs::get(m->files[f].first.c_str()); if (t[f] == m->files[f].second) continue;
        Parsed q = parse(m->cols, t, m->volume); if (q.st == EITHER) return; if (q.st == OK_ROWS && differs(l, q).empty()) d.clear();
      }
    }
    if (!d.empty()) sim_violation("catalogue-load", "loaded '%s' with columns '%s': %s", path.c_str(), cols.c_str(), d.c_str());
  } else if (p.st == OK_ROWS && !hard && !chg) sim_violation("catalogue-rejected", "a valid file was rejected without a fault: %s", l.err.c_str());
}
Reg r8(Campaign{"catload", "C08", setup8, nv8, exec8, 0});
}

// C10: parameter files in the simulated file system against an independent
// parser; the printed copy and copies of the object; read, write and
// allocation faults and damaged files.
#include "w_common.h"
#include <cmath>
#include <cstdlib>
#include <map>
using namespace drv;
namespace {
template <class T> T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
enum Kind { STR, STRD, DBL, INT };           // STRD: an empty value leaves the default
struct Field { const char* name; Kind k; };
const Field FIELDS[] = {
  {"catalogue_dir", STR}, {"measurement_dir", STR}, {"data_catalogue_file", STR}, {"rand_catalogue_file", STR}, {"catalogue_columns", STR}, {"catalogue_dataset", STR}, {"output_tag", STR},
  {"boxsize_x", DBL}, {"boxsize_y", DBL}, {"boxsize_z", DBL}, {"ngrid_x", INT}, {"ngrid_y", INT}, {"ngrid_z", INT}, {"expand", DBL}, {"alignment", STRD}, {"padscale", STRD}, {"padfactor", DBL},
  {"assignment", STRD}, {"interlace", STRD}, {"catalogue_type", STR}, {"statistic_type", STR}, {"form", STRD}, {"norm_convention", STRD}, {"binning", STRD},
  {"ell1", INT}, {"ell2", INT}, {"ELL", INT}, {"i_wa", INT}, {"j_wa", INT}, {"bin_min", DBL}, {"bin_max", DBL}, {"num_bins", INT}, {"idx_bin", INT}, {"cutoff_nyq", DBL},
  {"fftw_scheme", STRD}, {"use_fftw_wisdom", STRD}, {"save_binned_vectors", STRD}, {"progbar", STRD}, {"verbose", INT}};
const int NF = sizeof FIELDS / sizeof *FIELDS;
std::string* sref(trv::ParameterSet& p, const std::string& n) {
#define S(x) if (n == #x) return &p.x;
  S(catalogue_dir) S(measurement_dir) S(data_catalogue_file) S(rand_catalogue_file) S(catalogue_columns) S(catalogue_dataset) S(output_tag) S(alignment) S(padscale) S(assignment) S(interlace)
  S(catalogue_type) S(statistic_type) S(form) S(norm_convention) S(binning) S(fftw_scheme) S(use_fftw_wisdom) S(save_binned_vectors) S(progbar)
#undef S
  return nullptr;
}
double* dref(trv::ParameterSet& p, const std::string& n) {
  if (n == "boxsize_x") return &p.boxsize[0]; if (n == "boxsize_y") return &p.boxsize[1]; if (n == "boxsize_z") return &p.boxsize[2];
  if (n == "expand") return &p.expand; if (n == "padfactor") return &p.padfactor; if (n == "bin_min") return &p.bin_min; if (n == "bin_max") return &p.bin_max; if (n == "cutoff_nyq") return &p.cutoff_nyq;
  return nullptr;
}
int* iref(trv::ParameterSet& p, const std::string& n) {
  if (n == "ngrid_x") return &p.ngrid[0]; if (n == "ngrid_y") return &p.ngrid[1]; if (n == "ngrid_z") return &p.ngrid[2];
#define I(x) if (n == #x) return &p.x;
  I(ell1) I(ell2) I(ELL) I(i_wa) I(j_wa) I(num_bins) I(idx_bin) I(verbose)
#undef I
  return nullptr;
}
// all values of a parameter set, by name
typedef std::map<std::string, std::string> Vals;
std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
Vals values(const trv::ParameterSet& q) {
  trv::ParameterSet& p = const_cast<trv::ParameterSet&>(q); Vals m;
  for (auto& f : FIELDS) { if (auto s = sref(p, f.name)) m[f.name] = *s; else if (auto d = dref(p, f.name)) m[f.name] = num(*d); else if (auto i = iref(p, f.name)) m[f.name] = std::to_string(*i); }
  m["volume"] = num(p.volume); m["nmesh"] = std::to_string(p.nmesh); m["assignment_order"] = std::to_string(p.assignment_order); m["npoint"] = p.npoint; m["space"] = p.space; m["shape"] = p.shape;
  m["fftw_planner_flag"] = std::to_string(p.fftw_planner_flag); m["fftw_wisdom_file_f"] = p.fftw_wisdom_file_f; m["fftw_wisdom_file_b"] = p.fftw_wisdom_file_b;
  return m;
}
std::string slashes(const std::string& s) { std::string o; for (char c : s) if (c != '/' || o.empty() || o.back() != '/') o += c; return o; }
std::string diff(const Vals& a, const Vals& b, bool norm) {
  for (auto& x : a) { auto it = b.find(x.first); std::string v = it == b.end() ? "(none)" : it->second, u = x.second; if (norm) u = slashes(u), v = slashes(v); if (u != v) return x.first + ": '" + u + "' instead of '" + v + "'"; }
  return "";
}
// -- reference reading of a parameter file: name = value lines ------------------------
enum { VALID = 0, REJECT = 1, EITHER = 2 };
struct Ref { int st = VALID; std::map<std::string, std::string> kv; std::string why; };
int number(const std::string& s, bool integer, double* v) {       // 1 yes, 0 no, -1 not judged
  size_t i = 0, n = s.size(); bool neg = n && s[0] == '-'; if (i < n && (s[i] == '+' || s[i] == '-')) i++;
  size_t d = 0, z = i; while (i < n && isdigit((unsigned char)s[i])) i++, d++;
  if (integer) { if (!d || i != n) return 0; if (d > 9) { while (z < n && s[z] == '0') z++; if (n - z > 9) { long long x = n - z > 15 ? (1LL << 60) : atoll(s.c_str() + z); if (neg) x = -x; if (x > 2147483647LL || x < -2147483648LL) return 0; } } *v = (double)atoll(s.c_str()); return 1; }
  if (i < n && s[i] == '.') { i++; while (i < n && isdigit((unsigned char)s[i])) i++, d++; }
  if (!d) return 0;
  if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; size_t e = i; while (i < n && isdigit((unsigned char)s[i])) i++; if (i == e) return 0; }
  if (i != n) return 0;
  *v = strtod(s.c_str(), nullptr); if (!std::isfinite(*v)) return 0;
  if (std::fabs(*v) < 1e-300) for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') return -1; }
  return 1;
}
Ref parse(const std::string& t) {
  Ref o; size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p); std::string l = t.substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? t.size() : e + 1;
    if (!l.empty() && l[0] == '#') continue;
    std::vector<std::string> tok; size_t i = 0;
    while (i < l.size()) { if (blank(l[i])) { i++; continue; } size_t s = i; while (i < l.size() && !blank(l[i])) i++; tok.push_back(l.substr(s, i - s)); }
    if (tok.size() < 3 || tok[1] != "=") continue;
    for (auto& f : FIELDS) if (tok[0] == f.name) {
      if (f.k == DBL || f.k == INT) { double v; int q = number(tok[2], f.k == INT, &v); if (!q) { o.st = REJECT; o.why = tok[0] + " is not a number: " + tok[2]; return o; } if (q < 0) o.st = EITHER; }
      o.kv[tok[0]] = tok[2];
    }
  }
  return o;
}
// the parameters a file should give: its values, then the library's own validation
bool expected(const Ref& ref, Vals* out) {
  try {
    trv::ParameterSet p;
    for (auto& f : FIELDS) {
      auto it = ref.kv.find(f.name); std::string v = it == ref.kv.end() ? "" : it->second;
      if (f.k == STR) *sref(p, f.name) = v; else if (f.k == STRD) { if (!v.empty()) *sref(p, f.name) = v; }
      else if (!v.empty()) { double x; number(v, f.k == INT, &x); if (f.k == INT) *iref(p, f.name) = (int)x; else *dref(p, f.name) = x; }
    }
    p.validate(true); *out = values(p); return true;
  } catch (const std::exception&) { return false; }
}
// -- generation ---------------------------------------------------------------------
struct PF { std::string text; };
std::string dtext(Rng& r, double v) { char b[64]; snprintf(b, 64, pick(r, {"%g", "%.17g", "%.3f", "%.1f", "%e", "%+.10e", "%.12E", "%010.4f"}), v); return b; }
std::string word(Rng& r) { return pick<std::string>(r, {"a", "cat.dat", "sub/cat.txt", "x#1.dat", "/abs/cat", "c=1", "\xc3\xa9t\xc3\xa9.txt", "b.txt::c.txt", "k::", "d/", ".", "..", "a-b_c", "%s%d", "\"q\"", "'", "a;b", "a,b", "${TRVSIM_UNSET}/c", "${TRVSIM_DIR}/c", "~", "true", "false", "0"}); }
std::map<std::string, std::string> genvals(Rng& r) {
  std::map<std::string, std::string> m; std::string st = pick<std::string>(r, {"powspec", "2pcf", "2pcf-win", "bispec", "3pcf", "3pcf-win", "3pcf-win-wa", "modes", "pairs"});
  bool win = st.find("win") != std::string::npos, rec = st == "modes" || st == "pairs";
  std::string ct = win ? "random" : rec ? pick<std::string>(r, {"survey", "sim", "none", "random"}) : pick<std::string>(r, {"survey", "sim"});
  m["statistic_type"] = st; m["catalogue_type"] = ct;
  auto maybe = [&](const char* n, double p, const std::string& v) { if (r.chance(p)) m[n] = v; };
  auto dir = [&] { std::string d = word(r); return d.find("::") == std::string::npos ? d : "d.ir"; };   // "::" separates file names
  maybe("catalogue_dir", 0.8, r.chance(0.5) ? "/in" : dir()); maybe("measurement_dir", 0.8, r.chance(0.6) ? "/out" : dir()); maybe("data_catalogue_file", 0.7, word(r)); maybe("rand_catalogue_file", 0.7, word(r));
  maybe("catalogue_columns", 0.7, pick<std::string>(r, {"x,y,z", "x,y,z,nz,ws,wc", "#x,y,z", "x"})); maybe("catalogue_dataset", 0.2, word(r)); maybe("output_tag", 0.6, pick<std::string>(r, {"_tag", "-1", "#2", "_x.y", "=", "_%d"}));
  double b = std::pow(10., 1 + 3 * r.unif()) ; if (r.chance(0.9)) for (const char* n : {"boxsize_x", "boxsize_y", "boxsize_z"}) m[n] = dtext(r, r.chance(0.5) ? b : b * (0.5 + r.unif()));
  bool ng = r.chance(0.85); int g = 4 << r.range(0, 6); if (ng) for (const char* n : {"ngrid_x", "ngrid_y", "ngrid_z"}) m[n] = std::to_string(r.chance(0.6) ? g : r.range(1, 3000));
  if (!ng || r.chance(0.3)) m["cutoff_nyq"] = dtext(r, st == "powspec" || st == "bispec" || st == "modes" ? 20 / b : b / 10);
  maybe("expand", 0.3, dtext(r, 1 + r.unif())); maybe("alignment", 0.5, pick<std::string>(r, {"centre", "pad"})); maybe("padscale", 0.5, pick<std::string>(r, {"box", "grid"})); maybe("padfactor", 0.5, dtext(r, r.unif()));
  maybe("assignment", 0.7, pick<std::string>(r, {"ngp", "cic", "tsc", "pcs"})); maybe("interlace", 0.6, pick<std::string>(r, {"true", "false", "on", "off"}));
  maybe("form", 0.6, pick<std::string>(r, {"full", "diag", "off-diag", "row"})); maybe("norm_convention", 0.6, pick<std::string>(r, {"none", "particle", "mesh", "mesh-mixed"})); maybe("binning", 0.6, pick<std::string>(r, {"lin", "log", "linpad", "logpad", "custom"}));
  for (const char* n : {"ell1", "ell2", "ELL", "i_wa", "j_wa"}) maybe(n, 0.5, std::to_string(r.range(0, 4)));
  double lo = r.chance(0.4) ? 0 : r.unif() * 0.1; maybe("bin_min", 0.8, dtext(r, lo)); m["bin_max"] = dtext(r, lo + 0.01 + std::pow(10., 4 * r.unif() - 2)); int nb = r.range(2, 40); m["num_bins"] = std::to_string(nb); maybe("idx_bin", 0.4, std::to_string(r.range(r.chance(0.2) ? -nb : 0, nb)));
  std::string fs = pick<std::string>(r, {"estimate", "measure", "patient"}); maybe("fftw_scheme", 0.6, fs); maybe("use_fftw_wisdom", 0.4, pick<std::string>(r, {"false", "wis", "/wis", "wis/"})); maybe("save_binned_vectors", 0.4, r.chance(0.6) ? pick<std::string>(r, {"true", "false"}) : word(r)); maybe("progbar", 0.4, pick<std::string>(r, {"true", "false", "10", "2.5"})); m["verbose"] = r.chance(0.9) ? "60" : std::to_string(r.range(60, 90));
  // an unusual value here and there
  if (r.chance(0.35)) { const Field& f = FIELDS[r.below(NF)]; if (strcmp(f.name, "verbose")) m[f.name] = pick<std::string>(r, {"0", "-1", "1", "3.5", "1e3", "abc", "12abc", "0x10", "007", "+5", "nan", "inf", "1e999", "99999999999", "2147483647", "-2147483648", ".5", "5.", "1,000", "1d3", "-", "1e", "true", "#", "=", "12#", "0.1f", "1e-5", "1_0"}); }
  return m;
}
std::string render(Rng& r, const std::map<std::string, std::string>& m) {
  std::vector<std::string> lines; std::string sp;
  for (auto& x : m) {
    auto gap = [&] { return r.chance(0.75) ? std::string(" ") : pick<std::string>(r, {"  ", "\t", "        ", " \t "}); };
    std::string l = (r.chance(0.1) ? gap() : std::string()) + x.first + gap() + "=" + gap() + x.second;
    if (r.chance(0.1)) l += gap() + pick<std::string>(r, {"", "# comment", "#", "extra", "= 5", "# a = 2"});
    lines.push_back(l);
    if (r.chance(0.03)) lines.push_back(x.first + "=" + x.second + "9");     // not an assignment: no spaces
    if (r.chance(0.03)) lines.push_back(x.first + " = ");
    if (r.chance(0.03)) lines.push_back("#" + x.first + " = 1");
    if (r.chance(0.03)) lines.push_back(x.first + "_ = 1");
    if (r.chance(0.03)) lines.push_back(x.first + " : 1");
    if (r.chance(0.03)) lines.push_back("my" + x.first + " = 1");
    if (r.chance(0.02)) lines.push_back(" # " + x.first + " = 1");
    if (r.chance(0.02)) lines.insert(lines.begin(), x.first + " = " + x.second);   // given twice
  }
  for (size_t i = lines.size(); i > 1; i--) if (r.chance(0.9)) std::swap(lines[i - 1], lines[r.below(i)]);
  std::string t; bool crlf = r.chance(0.1); std::string nl = crlf ? "\r\n" : "\n";
  for (auto& l : lines) { if (r.chance(0.1)) t += pick<std::string>(r, {"", "# note", "  ", "### Mesh ###", "[io]", "\t"}) + nl; if (r.chance(0.01)) t += "# " + std::string(3000 + r.below(9000), 'x') + nl; t += l + nl; }
  if (r.chance(0.3)) { t.pop_back(); if (crlf) t.pop_back(); }
  return t;
}
void mutate(Rng& r, int kind, std::string& t) {
  auto at = [&] { return t.empty() ? 0 : r.below(t.size()); }; size_t a, b;
  auto line = [&](size_t& a, size_t& b) { a = at(); while (a > 0 && t[a - 1] != '\n') a--; b = t.find('\n', a); if (b == std::string::npos) b = t.size(); };
  switch (kind) {
    case 1: t.resize(at()); break;
    case 2: for (size_t k = at(); k < t.size(); k++) t[k] = 0; break;
    case 3: { size_t k = at(), n = std::min<size_t>(t.size() - k, 1 + r.below(40)); for (size_t i = 0; i < n; i++) t[k + i] = 0; break; }
    case 4: if (!t.empty()) t[at()] = (char)r.below(256); break;
    case 5: line(a, b); t.erase(a, std::min(t.size(), b + 1) - a); break;
    case 6: line(a, b); { std::string s = t.substr(a, b - a); t += "\n" + s; } break;
    case 7: line(a, b); t.replace(b, t.size() > b ? 1 : 0, " "); break;
    case 8: t.insert(at(), "\n"); break;
    case 9: t = ""; break;
    case 10: t.insert(at(), pick<std::string>(r, {" ", "#", "=", "0", "-", ".", "e", "\t", "\0x"})); break;
    case 11: t.insert(0, "\xef\xbb\xbf"); break;
    case 12: for (auto& c : t) if (c == '\n') c = '\r'; break;
  }
}
// -- execution -------------------------------------------------------------------------
bool setup10(Case& cs) {
  Rng r(mix64(cs.seed, 101)); PF* m = new PF; cs.w = m; m->text = render(r, genvals(r));
  std::string s = m->text.substr(0, 400); for (auto& c : s) if (c == '\n') c = ';'; sample("%s", s.c_str()); return true;
}
int nv10(Case& c) { return c.tier ? 60 : 40; }
struct Step { bool ok = false; Vals v; };
void exec10(Case& cs, Variant& v) {
  PF* m = (PF*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  // E_MISC 1: the file is damaged in way b; 2: missing file; 3: loaded into a used object
  if (v.id && r.chance(0.5)) for (int k = r.chance(0.8) ? 1 : r.range(2, 3); k > 0; k--) ev.push_back(Ev{E_MISC, 1, (int64_t)r.range(1, 12), r.next() >> 20});
  if (r.chance(0.02)) ev.push_back(Ev{E_MISC, 2, (int64_t)r.range(0, 1), 0});
  if (v.id && r.chance(0.5)) for (int k = r.chance(0.8) ? 1 : 2; k > 0; k--) ev.push_back(Ev{E_IO, r.below(m->text.size() > 1500 ? 16 : 12), pick<int>(r, {vfs::F_OPEN_FAIL, vfs::F_READ_EIO, vfs::F_READ_EIO, vfs::F_READ_SHORT, vfs::F_READ_EINTR, vfs::F_WRITE_EIO, vfs::F_WRITE_ENOSPC, vfs::F_WRITE_SHORT, vfs::F_CLOSE_EIO}), r.next() >> 20});
  if (v.id && r.chance(0.08)) ev.push_back(Ev{E_ALLOC, r.below(700), (int64_t)(r.chance(0.7) ? 1 : 100000), 0});
  uint64_t seed = r.next(); int fill = r.range(0, 3); bool dflt = r.chance(0.5);
  if (v.replay) ev = v.ev;
  set_events(ev);
  std::string text = m->text; int missing = -1; uint64_t h = cs.seed;
  for (auto& e : ev) {
    h = mix64(h, e.type * 7919 + e.a * 131 + e.b * 17 + e.c); if (e.type != E_MISC) continue;
    if (e.a == 2) { missing = (int)e.b; count("fault_bad-path"); } else if (e.a == 1) { Rng q(e.c); mutate(q, (int)e.b, text); count("fault_file-content"); }
  }
  if (ev.size()) state_hash(h);
  setenv("TRVSIM_DIR", "/env", 1);
  Ref ref = parse(text); trv::sys::logger.reset_level(60); Vals want; bool good = false;
  if (ref.st != REJECT && missing < 0) good = expected(ref, &want);
  if (ref.st == VALID && !good) { ref.st = REJECT; ref.why = "invalid parameters"; }
  if (missing >= 0) { ref.st = REJECT; ref.why = "missing file"; }
  vfs::reset(); vfs::mkdirs("/in"); vfs::mkdirs("/out"); vfs::put("/in/par.ini", text.data(), text.size());
  // directories the parameters name
  if (good) for (const char* n : {"measurement_dir"}) { std::string d = want[n]; if (!d.empty() && d[0] == '/') vfs::mkdirs(d.substr(0, d.find_last_not_of('/') + 1).c_str()); }
  std::vector<vfs::FaultAt> io; mem::Cfg mc; mc.fill = fill; mc.seed = seed;
  for (auto& e : ev) { if (e.type == E_IO) io.push_back(vfs::FaultAt{e.a, (int)e.b, e.c}); if (e.type == E_ALLOC) { mc.fail_at = e.a; mc.fail_count = e.b; } }
  vfs::clear_log(); vfs::clear_fired(); vfs::set_faults(io); vfs::set_bufseed(seed >> 3); vclock::Cfg vc; vc.seed = seed;
  Step load, copy, assign, print, again; bool dirty = false;
  auto env_on = [&] { vclock::begin(vc); vfs::activate(true); mem::begin(mc); };
  auto env_off = [&] { mem::end(); vfs::activate(false); vclock::end(); };
  std::string opath = "/out/copy"; uint64_t hard = 0; int64_t nfailed = 0;
  auto faults = [&] { uint64_t n = 0; for (int k = 1; k < vfs::F_NKINDS; k++) { uint64_t f = vfs::fired(k); if (f && k != vfs::F_READ_SHORT && k != vfs::F_READ_EINTR && k != vfs::F_WRITE_SHORT) n += f; } return n; };
  uint64_t hard1 = 0;
  rt::Cfg rc; rc.nthr = 1; rc.mode = rt::SEQ;
  env_on(); rt::begin(rc);
  trv::ParameterSet* p = nullptr;
  try {
    p = new trv::ParameterSet; char path[64]; snprintf(path, 64, "%s", missing == 0 ? "/in/none" : missing == 1 ? "/in" : "/in/par.ini");
    load.ok = p->read_from_file(path) == 0;
  } catch (const std::exception&) { load.ok = false; }
  hard1 = faults() + mem::n_failed;
  if (load.ok) {
    { mem::Pause q; load.v = values(*p); }
    try { trv::ParameterSet c(*p); copy.ok = true; mem::Pause q; copy.v = values(c); } catch (const std::exception&) {}
    try { trv::ParameterSet c; c = *p; assign.ok = true; mem::Pause q; assign.v = values(c); } catch (const std::exception&) {}
    try {
      char path[1200]; { mem::Pause q; bool nul = false; for (auto& x : load.v) nul |= x.second.find('\0') != std::string::npos; dirty = nul; if (dflt && load.v["measurement_dir"][0] == '/') opath = load.v["measurement_dir"] + "parameters_used" + load.v["output_tag"]; snprintf(path, sizeof path, "%s", opath.c_str()); }
      print.ok = (opath == "/out/copy" ? p->print_to_file(path) : p->print_to_file()) == 0;
    } catch (const std::exception&) {}
    { mem::Pause q; print.v = values(*p); }
  }
  hard = faults(); nfailed = mem::n_failed;
  delete p; env_off();
  for (int k = 1; k < vfs::F_NKINDS; k++) if (uint64_t f = vfs::fired(k)) count((std::string("fault_") + vfs::fault_names[k]).c_str(), f);
  if (nfailed) count("fault_alloc-fail", nfailed);
  vfs::set_faults({}); mc.fail_at = (uint64_t)-1;
  if (print.ok) {
    env_on();
    try { trv::ParameterSet q; char path[1200]; snprintf(path, sizeof path, "%s", opath.c_str()); again.ok = q.read_from_file(path) == 0; mem::Pause z; again.v = values(q); } catch (const std::exception&) {}
    env_off();
  }
  rt::end();
  count(ref.st == REJECT ? "must_reject" : ref.st == EITHER ? "not_judged" : "must_load"); count(load.ok ? "loaded" : "rejected"); if (print.ok) count("printed");
  if (ref.st == EITHER) return;
  if (load.ok) {
    if (ref.st == REJECT) sim_violation("param-load", "loaded although it must be rejected: %s", ref.why.c_str());
    std::string d = diff(load.v, want, false); if (!d.empty()) sim_violation("param-load", "loaded %s", d.c_str());
    if (copy.ok) { d = diff(copy.v, load.v, false); if (!d.empty()) sim_violation("param-copy", "copy has %s", d.c_str()); }
    if (assign.ok) { d = diff(assign.v, load.v, false); if (!d.empty()) sim_violation("param-copy", "assigned copy has %s", d.c_str()); }
    d = diff(print.v, load.v, false); if (!d.empty()) sim_violation("param-print", "printing changed %s", d.c_str());
    if (print.ok && hard > hard1) sim_violation("param-print", "printing reported success although its writes failed");
    if (!print.ok && hard == hard1 && !nfailed && !vfs::fired(vfs::F_WRITE_SHORT) && opath == "/out/copy") sim_violation("param-print", "printing failed without a fault");
    if (print.ok && !dirty) {
      if (!again.ok) sim_violation("param-reload", "the printed copy was rejected: %s", vfs::get(opath.c_str()).substr(0, 1500).c_str());
      d = diff(again.v, load.v, true); if (!d.empty()) sim_violation("param-reload", "the printed copy gave %s", d.c_str());
    }
  } else if (ref.st == VALID && !hard1) sim_violation("param-rejected", "a valid file was rejected without a fault");
}
Reg r10(Campaign{"params", "C10", setup10, nv10, exec10, 0});
}

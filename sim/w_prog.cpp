// Campaigns that run the whole command-line program in the simulated
// environment: C07 faults, C09 crash and restart, C17 clock jumps, C06
// wisdom-file states, C05/C01 schedules of the whole program.
#include "w_common.h"
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace drv;
int trv_main(int argc, char** argv);
namespace {
typedef std::map<std::string, std::string> Files;
struct PW {
  wl::W w; std::string param, outdir, wisdir, bvfile; Files in; bool nested, bv, unset_box; double expand, cutoff;
  Files ref; std::vector<vfs::OpRec> log; uint64_t nalloc, nread, nsteps; std::vector<std::string> created; std::string refout;
  std::vector<std::pair<std::string, std::string>> stale; Files wis; std::map<std::string, double> noise;
};
template <class T> T pick(Rng& r, std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
std::string catalogue(Rng& r, const wl::Particles& p, size_t a, size_t b, const std::vector<std::string>& cols) {
  std::string t; if (r.chance(0.5)) t += "# catalogue\n";
  for (size_t i = a; i < b; i++) {
    if (r.chance(0.03)) t += r.chance(0.5) ? "\n" : "# note\n";
    std::string l;
    for (auto& c : cols) { double v = c == "x" ? p.x[i] : c == "y" ? p.y[i] : c == "z" ? p.z[i] : c == "nz" ? p.nz[i] : c == "ws" ? p.ws[i] : c == "wc" ? p.wc[i] : 7.5; l += (l.empty() ? "" : " ") + num(v); }
    t += l + "\n";
  }
  return t;
}
void gen_prog(PW* m, Rng& r, int tier, int fixed_np) {
  int np = r.chance(0.6) ? 2 : 3; if (fixed_np) np = fixed_np;
  wl::W& w = m->w; w = wl::gen(r, np, 0);
  w.progbar = r.chance(0.3) ? pick<std::string>(r, {"true", "20", "7.5", "50"}) : "false"; w.custom_edges = false; w.verbose = pick(r, {0, 10, 20, 20, 30, 60});
  if (w.ng[0] > 12) for (int a = 0; a < 3; a++) w.ng[a] = 8;
  if (w.cat == "survey") {                 // the mixed-mesh normalisation uses cells of 10 length units
    double f = 90. / std::max(w.box[0], std::max(w.box[1], w.box[2]));
    for (auto* p : {&w.d, &w.r}) for (auto* c : {&p->x, &p->y, &p->z}) for (auto& v : *c) v *= f;
    for (int a = 0; a < 3; a++) w.box[a] *= f;
    double g = w.stat == "powspec" || w.stat == "bispec" ? 1 / f : f; w.bmin *= g; w.bmax *= g;
    if (np == 2 && w.ELL > 0 && r.chance(0.6)) w.ELL = 0;
  }
  w.norm = np == 2 && w.cat == "survey" ? pick<std::string>(r, {"none", "particle", "mesh", "mesh-mixed"}) : pick<std::string>(r, {"none", "particle", "mesh"});
  m->bv = r.chance(0.3);
  bool modes = r.chance(0.07);
  if (modes) { bool f = w.stat == "powspec" || w.stat == "bispec"; w.stat = f ? "modes" : "pairs"; w.cat = "none"; m->bv = r.chance(0.5); w.form = "diag"; w.idx = 0; w.norm = "particle"; }
  m->nested = r.chance(0.5);
  m->outdir = m->nested ? "/out/deep/er" : "/out"; if (r.chance(0.3)) m->outdir += "/";
  m->unset_box = !modes && r.chance(0.1); m->expand = 1.05 + 0.4 * r.unif();
  std::vector<std::string> cols = {"x", "y", "z", "nz"};
  if (r.chance(0.7)) cols.push_back("ws"); if (r.chance(0.7)) cols.push_back("wc"); if (r.chance(0.3)) cols.push_back("extra");
  for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[r.below(i)]);
  std::string cs; for (auto& c : cols) cs += (cs.empty() ? "" : ",") + c;
  std::string df, rf; bool absdir = r.chance(0.5);
  auto put = [&](const char* nm, const wl::Particles& p, std::string& f) {
    size_t n = p.x.size(), k = n > 3 && r.chance(0.2) ? 1 + r.below(n - 1) : n;
    std::string a = std::string(nm) + ".txt", b = std::string(nm) + "_2.txt";
    m->in["/in/" + a] = catalogue(r, p, 0, k, cols); f = absdir ? "/in/" + a : a;
    if (k < n) { m->in["/in/" + b] = catalogue(r, p, k, n, cols); f += "::" + (absdir ? "/in/" + b : b); }
  };
  if (w.cat == "survey" || w.cat == "sim") put("data", w.d, df);
  if (w.cat == "survey" || w.cat == "random") put("rand", w.r, rf);
  if (modes) df = rf = "";
  m->bvfile = r.chance(0.5) ? "true" : pick<std::string>(r, {"bvec.dat", "/out/bv2.dat"});
  std::vector<std::pair<std::string, std::string>> kv = {
    {"catalogue_dir", "/in"}, {"measurement_dir", m->outdir}, {"data_catalogue_file", df}, {"rand_catalogue_file", rf}, {"catalogue_columns", cs}, {"catalogue_dataset", ""},
    {"output_tag", pick<std::string>(r, {"", "_tag", "_run1"})}, {"expand", m->unset_box ? num(m->expand) : "1."}, {"alignment", w.alignment}, {"padscale", w.padscale}, {"padfactor", num(w.padfactor)},
    {"assignment", w.assignment}, {"interlace", w.interlace}, {"catalogue_type", w.cat}, {"statistic_type", w.stat}, {"ell1", num(w.ell1)}, {"ell2", num(w.ell2)}, {"ELL", num(w.ELL)},
    {"i_wa", num(w.i_wa)}, {"j_wa", num(w.j_wa)}, {"form", w.form}, {"norm_convention", w.norm}, {"binning", w.binning}, {"bin_min", num(w.bmin)}, {"bin_max", num(w.bmax)}, {"num_bins", num(w.nb)}, {"idx_bin", num(w.idx)},
    {"fftw_scheme", w.fftw}, {"use_fftw_wisdom", "false"}, {"save_binned_vectors", m->bv ? m->bvfile : "false"}, {"verbose", num(w.verbose)}, {"progbar", w.progbar}};
  if (!m->unset_box) for (int a = 0; a < 3; a++) kv.push_back({std::string("boxsize_") + "xyz"[a], num(w.box[a])});
  for (int a = 0; a < 3; a++) kv.push_back({std::string("ngrid_") + "xyz"[a], num(w.ng[a])});
  if (!m->wisdir.empty()) for (auto& x : kv) { if (x.first == "use_fftw_wisdom") x.second = m->wisdir; if (x.first == "fftw_scheme" && x.second == "estimate") x.second = "measure"; }
  for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[r.below(i)]);
  std::string t; if (r.chance(0.5)) t = "# parameters\n\n";
  for (auto& x : kv) { if (x.second.empty() && r.chance(0.5)) continue; t += x.first + " = " + x.second + "\n"; if (r.chance(0.05)) t += "\n# comment\n"; }
  m->param = t; m->in["/in/param.ini"] = t;
}
void fs_inputs(const PW* m) {
  vfs::reset(); vfs::mkdirs("/in"); vfs::mkdirs("/tmp");
  for (auto& f : m->in) vfs::put(f.first.c_str(), f.second.data(), f.second.size());
  if (!m->nested || m->outdir.find("/out") == 0) vfs::mkdirs("/out");
}
Files fs_outputs() { Files o; for (auto& p : vfs::list()) if (p.back() != '/' && p.compare(0, 4, "/in/") && p.compare(0, 5, "/wis/")) o[p] = vfs::get(p.c_str()); return o; }
// one execution of the program
struct RC { int nthr = 1; const char* scope = ""; uint64_t schedseed = 0; std::vector<vfs::FaultAt> io; int64_t fail_at = -1, fail_n = 1; std::vector<vclock::Jump> jumps; int fill = 0; uint64_t seed = 1; bool planner = false, capture = false; bool detect_leak = false; int cpu = 40; uint64_t est = 0; };
struct RR { int code = -1; bool crashed = false; uint64_t nalloc, nfailed, reads, jumps, nops, steps, switches, hash; int64_t ns; std::string out; };
const uint64_t SR = 600;   // resources in use at the end of the run
const uint64_t SC = 512;   // scratch slot of the program run
void save_stats() {
  rt::end();
  uint64_t* s = shm->scratch + SR; { auto l = mem::live(); s[0] = l.size(); s[1] = 0; for (auto& x : l) s[1] += x.size; s[2] = l.size() ? l[0].size : 0; s[3] = l.size() ? l[0].pc - text_base() : 0; }
  s[4] = (uint64_t)(int64_t)std::llround(trv::sys::gbytesMem * 1073741824.); s[5] = (uint64_t)(int64_t)(trv::sys::count_grid * 2); s[6] = (uint64_t)(int64_t)(trv::sys::count_rgrid + 1000 * trv::sys::count_cgrid); s[7] = (uint64_t)fsh::live_plans(); s[8] = (uint64_t)(trv::sys::gbytesMaxMem < trv::sys::gbytesMem); s[9] = (uint64_t)vfs::open_files();
  s = shm->scratch + SC;
  s[0] = mem::n_alloc; s[1] = mem::n_failed; s[2] = vclock::reads; s[3] = vclock::jumps; s[4] = rt::stats.steps; s[5] = rt::stats.switches + rt::stats.forced; s[6] = rt::stats.hash; s[7] = (uint64_t)vclock::covered_ns;
}
RR run_prog(const RC& c) {
  RR o; memset(shm->scratch + SC, 0, 64); memset(shm->scratch + SR, 0, 96); vfs::clear_log(); vfs::clear_fired();
  int mfd = -1; if (c.capture) mfd = memfd_create("out", 0);
  int st = in_fork([&] {
    if (mfd >= 0) { dup2(mfd, 1); dup2(mfd, 2); }
    atexit(save_stats); abort_hook = save_stats;
    rt::Cfg rc; rc.nthr = c.nthr; rc.mode = rt::SEQ;
    if (c.nthr > 1) { Rng q(c.schedseed); rc = wl::sched_cfg(q, c.nthr, c.est ? c.est : 1000000); if (rc.mode == rt::HUNT) { rc.mode = rt::RANDOM; rc.p = 0.002; rc.psync = 0.3; } }
    mem::Cfg mc; mc.fill = c.fill; mc.seed = c.seed; mc.fail_at = c.fail_at; mc.fail_count = c.fail_n;
    fsh::Cfg fc; fc.seed = c.seed; fc.vary = fc.scribble = c.planner; 
    vclock::Cfg vc; vc.seed = c.seed; vc.jumps = c.jumps;
    char a0[] = "triumvirate", a1[] = "/in/param.ini"; char* av[] = {a0, a1, nullptr};
    vfs::set_faults(c.io, c.scope); vfs::set_bufseed(c.seed >> 3);
    fsh::begin(fc); vclock::begin(vc); vfs::activate(true); rt::begin(rc); mem::begin(mc);
    int code = trv_main(2, av);
    exit(code);
  }, c.cpu);
  if (shm->rep.violated) _exit(77);            // crash, hang or memory error inside the program
  if (WIFSIGNALED(st)) sim_violation("signal", "the program ended on signal %d", WTERMSIG(st));
  o.code = WEXITSTATUS(st); o.crashed = o.code == 88 && vfs::crashed();
  uint64_t* s = shm->scratch + SC; o.nalloc = s[0]; o.nfailed = s[1]; o.reads = s[2]; o.jumps = s[3]; o.steps = s[4]; o.switches = s[5]; o.hash = s[6]; o.ns = (int64_t)s[7]; o.nops = vfs::n_ops();
  shm->sim_ns += std::max<int64_t>(0, std::min<int64_t>(o.ns, 86400ll * 1000000000ll)); count("program_runs"); count("steps", o.steps); count("io_operations", o.nops);
  for (int k = 1; k < vfs::F_NKINDS; k++) if (vfs::fired(k)) { std::string n = std::string("fault_") + vfs::fault_names[k]; count(n.c_str(), vfs::fired(k)); }
  if (o.nfailed) count("fault_alloc-fail", o.nfailed);
  if (mfd >= 0) { off_t n = lseek(mfd, 0, SEEK_END); lseek(mfd, 0, SEEK_SET); o.out.resize(n); ssize_t k = read(mfd, &o.out[0], n); (void)k; close(mfd); }
  return o;
}
bool reference(Case& cs, PW* m, bool capture = false) {
  fs_inputs(m); RC c; c.capture = capture; RR r = run_prog(c);
  if (r.code != 0) { count("rejected_workloads"); if (cs.verbose) printf("reference exit %d\n%s\n%s\n", r.code, m->param.c_str(), r.out.c_str()); return false; }
  m->ref = fs_outputs(); m->log = vfs::oplog(); m->nalloc = r.nalloc; m->nread = r.reads; m->nsteps = r.steps; m->refout = r.out;
  for (auto& f : m->in) if (vfs::get(f.first.c_str()) != f.second) sim_violation("input-modified", "fault-free run modified %s", f.first.c_str());
  // the outputs the run is meant to produce
  size_t want = (m->w.cat == "none" ? 0 : 1) + 1 + ((m->bv || m->w.cat == "none") ? 1 : 0);
  if (m->ref.size() < want) sim_violation("missing-output", "fault-free run exited 0 with %zu output files, expected %zu", m->ref.size(), want);
  for (auto& f : m->ref) if (f.second.empty()) sim_violation("missing-output", "fault-free run left %s empty", f.first.c_str());
  return true;
}
bool prog_setup(Case& cs, int salt, bool wisdom, bool capture = false, int np = 0) {
  Rng r(mix64(cs.seed, salt)); PW* m = new PW; cs.w = m;
  if (wisdom) m->wisdir = pick<std::string>(r, {"/wis", "/wis/sub"});
  gen_prog(m, r, cs.tier, np);
  sample("program: %s out=%s bv=%s wisdom=%s norm=%s", m->w.describe().c_str(), m->outdir.c_str(), m->bv ? m->bvfile.c_str() : "no", m->wisdir.empty() ? "no" : m->wisdir.c_str(), m->w.norm.c_str());
  return reference(cs, m, capture);
}
// differences of two output sets; exact or numeric. A numeric comparison is to
// rounding: relative to the largest measured value of the file and to what
// reordering the input rows changes (noise).
struct Row { bool data; std::vector<std::string> f; };
std::vector<Row> rows(const std::string& s) {
  std::vector<Row> v; Row r; std::string c; bool first = true; r.data = true;
  for (char ch : s + "\n") {
    if (first) { r.data = ch != '#'; first = false; }
    if (ch == ' ' || ch == '\t' || ch == '\n' || ch == ',' || ch == '(' || ch == ')' || ch == '[' || ch == ']') { if (!c.empty()) r.f.push_back(c); c.clear(); if (ch == '\n') { v.push_back(r); r = Row(); first = true; } } else c += ch;
  }
  return v;
}
bool isnum(const std::string& s, double* d) { char* e; *d = strtod(s.c_str(), &e); return e != s.c_str() && !*e; }
bool isint(const std::string& s) { return s.find_first_of(".en") == std::string::npos; }
// measured values start after the last integer column
size_t first_value(const Row& r) { for (size_t i = r.f.size(); i > 0; i--) if (isint(r.f[i - 1])) return i; return 0; }
double text_noise(const std::string& a, const std::string& b) {
  auto x = rows(a), y = rows(b); double n = 0, d, e; if (x.size() != y.size()) return 0;
  for (size_t i = 0; i < x.size(); i++) if (x[i].data && x[i].f.size() == y[i].f.size()) for (size_t j = first_value(x[i]); j < x[i].f.size(); j++)
    if (isnum(x[i].f[j], &d) && isnum(y[i].f[j], &e) && std::isfinite(d) && std::isfinite(e)) n = std::max(n, std::fabs(d - e));
  return n;
}
std::string diff_text(const std::string& a, const std::string& b, bool exact, double noise = 0) {
  if (a == b) return "";
  char t[300];
  if (exact) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; snprintf(t, 300, "%zu bytes instead of %zu, first difference at byte %zu", b.size(), a.size(), i); return t; }
  auto x = rows(a), y = rows(b); if (x.size() != y.size()) { snprintf(t, 300, "%zu lines instead of %zu", y.size(), x.size()); return t; }
  double mx = 0, hd = 0, d, e;   // largest measured value; largest normalisation (scale of what may cancel to nothing)
  for (auto& r : x) if (!r.data) for (auto& q : r.f) if (q.find("e+") != std::string::npos && isnum(q, &d) && std::isfinite(d)) hd = std::max(hd, std::fabs(d));
  for (auto& r : x) if (r.data) for (size_t j = first_value(r); j < r.f.size(); j++) if (isnum(r.f[j], &d) && std::isfinite(d)) mx = std::max(mx, std::fabs(d));
  for (size_t i = 0; i < x.size(); i++) {
    if (x[i].f.size() != y[i].f.size()) { snprintf(t, 300, "line %zu has %zu fields instead of %zu", i + 1, y[i].f.size(), x[i].f.size()); return t; }
    size_t fv = x[i].data ? first_value(x[i]) : 0;
    for (size_t j = 0; j < x[i].f.size(); j++) {
      const std::string &p = x[i].f[j], &q = y[i].f[j];
      if (p == q) continue;
      if (isnum(p, &d) && isnum(q, &e) && !(isint(p) && isint(q))) {
        if (!std::isfinite(d) && !std::isfinite(e)) continue;
        double tol = 2e-6 * std::max(std::fabs(d), std::fabs(e));
        if (!x[i].data) tol += p.find('e') == std::string::npos ? 2e-3 : 1e-300;
        else if (j >= fv) tol += 1e-8 * mx + 100 * noise + 1e-13 * hd;
        else tol += 1e-8 * std::fabs(d);
        if (std::fabs(d - e) <= tol) continue;
      }
      snprintf(t, 300, "line %zu field %zu is %s instead of %s", i + 1, j + 1, q.c_str(), p.c_str()); return t;
    }
  }
  return "";
}
std::string diff_outputs(const PW* m, const Files& got, bool exact, bool extra) {
  for (auto& f : m->ref) {
    auto g = got.find(f.first); if (g == got.end()) return f.first + " is missing";
    auto n = m->noise.find(f.first);
    std::string d = diff_text(f.second, g->second, exact, n == m->noise.end() ? 0 : n->second); if (!d.empty()) return f.first + ": " + d;
  }
  if (extra) for (auto& g : got) if (!m->ref.count(g.first)) return "unexpected file " + g.first;
  return "";
}
// what another order of the catalogue rows changes
void measure_noise(PW* m) {
  Files keep = m->in;
  for (auto& f : m->in) if (f.first.find("param") == std::string::npos) {
    std::vector<std::string> l; size_t p = 0; const std::string& s = f.second;
    while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); l.push_back(s.substr(p, e - p)); p = e + 1; }
    std::string o; for (size_t i = l.size(); i > 0; i--) o += l[i - 1] + "\n";
    f.second = o;
  }
  fs_inputs(m); RC c; c.seed = 77; RR r = run_prog(c);
  if (r.code == 0) { Files o = fs_outputs(); for (auto& f : m->ref) if (o.count(f.first)) m->noise[f.first] = text_noise(f.second, o[f.first]); }
  m->in = keep;
}
void check_inputs(const PW* m) { for (auto& f : m->in) if (vfs::get(f.first.c_str()) != f.second) sim_violation("input-modified", "%s was modified by the run", f.first.c_str()); }
// -- fault selection -------------------------------------------------------------
int applicable(Rng& r, int op) {
  using namespace vfs;
  switch (op) {
    case O_OPEN_R: case O_OPEN_W: return F_OPEN_FAIL;
    case O_READ: return pick(r, {F_READ_EIO, F_READ_EIO, F_READ_SHORT, F_READ_EINTR});
    case O_WRITE: return pick(r, {F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_ENOSPC, F_WRITE_SHORT});
    case O_CLOSE: return F_CLOSE_EIO; case O_MKDIR: return F_MKDIR_FAIL; case O_STAT: return F_STAT_FAIL;
  }
  return F_NONE;
}
void put_stale(PW* m, Rng& r) {   // left by an earlier run: other content, possibly longer
  for (auto& f : m->ref) if (r.chance(0.7)) {
    size_t s = f.first.rfind('/'); vfs::mkdirs(f.first.substr(0, s ? s : 1).c_str());
    std::string o = f.second; if (r.chance(0.5)) o = o + o; else o.resize(o.size() / 2);
    for (auto& ch : o) if (ch >= '1' && ch <= '9' && r.chance(0.5)) ch = '1' + r.below(9);
    vfs::put(f.first.c_str(), o.data(), o.size());
  }
}
// ---- C07 ------------------------------------------------------------------------
// an input the program cannot use; empty: this kind does not apply to the workload
const char* const BADNAME[] = {"", "missing-parameter-file", "missing-catalogue", "empty-catalogue", "short-row", "bad-number", "bad-parameter", "bad-choice", "missing-column", "catalogue-is-directory", "output-is-file", "empty-parameter-file", "missing-parameter"};
bool set_line(std::string& t, const std::string& key, const char* val) {
  size_t a = t.find(key + " = "); if (a == std::string::npos || (a && t[a - 1] != '\n')) return false; size_t e = t.find('\n', a);
  t.replace(a, e - a + (val ? 0 : 1), val ? key + " = " + val : ""); return true;
}
const char* badkey = "";
bool bad_input(PW* m, int kind, uint64_t seed) {
  Rng r(seed); std::vector<std::string> cats; for (auto& f : m->in) if (f.first != "/in/param.ini" && m->param.find(f.first.substr(4)) != std::string::npos) cats.push_back(f.first);
  std::string t = m->param; bool modes = m->w.cat == "none";
  auto putp = [&](const std::string& x) { vfs::put("/in/param.ini", x.data(), x.size()); };
  switch (kind) {
    case 1: vfs::remove_file("/in/param.ini"); return true;
    case 2: case 3: case 4: case 5: case 9: {
      if (cats.empty()) return false;
      std::string f = cats[r.below(cats.size())], c = m->in[f];
      if (kind == 2) { vfs::remove_file(f.c_str()); return true; }
      if (kind == 9) { vfs::remove_file(f.c_str()); vfs::mkdirs(f.c_str()); return true; }
      if (kind == 3) { c = r.chance(0.5) ? "" : "# nothing here\n"; if (cats.size() > 1) for (auto& g : cats) vfs::put(g.c_str(), c.data(), c.size()); }
      else {
        std::vector<size_t> rows; size_t p = 0; while (p < c.size()) { size_t e = c.find('\n', p); if (e == std::string::npos) e = c.size(); if (e > p && c[p] != '#') rows.push_back(p); p = e + 1; }
        size_t a = rows[r.below(rows.size())], e = c.find('\n', a);
        if (kind == 4) { size_t k = c.find(' ', a); c.erase(k, e - k); }   // only one value
        else for (;;) { // one position not a number
          std::string cols = t.substr(t.find("catalogue_columns = ") + 20); cols = cols.substr(0, cols.find('\n')); std::vector<std::string> cn; std::string q; for (char ch : cols) if (ch == ',') { cn.push_back(q); q.clear(); } else q += ch; cn.push_back(q);
          size_t k = 0; for (size_t i = 0; i < cn.size(); i++) if (cn[i] == (r.chance(0.5) ? "x" : "z")) k = i;
          if (cn[k] != "x" && cn[k] != "z") continue;
          size_t b = a; while (k--) b = c.find(' ', b) + 1;
          size_t d = c.find_first_of(" \n", b); c.replace(b, d - b, pick<std::string>(r, {"abc", "1.5x", "--3", "1,5", "e5", "."})); break;
        }
        (void)e;
      }
      vfs::put(f.c_str(), c.data(), c.size()); return true;
    }
    case 6: { static const char* k[] = {"boxsize_x", "ngrid_y", "num_bins", "ell1", "bin_max", "bin_min", "idx_bin", "padfactor", "verbose", "expand", "i_wa", "ELL"}; static const char* x[] = {"abc", "12x", "1.2.3", "--", "0x", ","}; if (!set_line(t, k[r.below(12)], x[r.below(6)])) return false; putp(t); return true; }
    case 7: {
      static const char* k[][2] = {{"alignment", "middle"}, {"assignment", "spline"}, {"interlace", "maybe"}, {"catalogue_type", "mock"}, {"statistic_type", "trispec"}, {"norm_convention", "some"}, {"binning", "cubic"}, {"fftw_scheme", "quick"}, {"num_bins", "0"}, {"num_bins", "-4"}, {"bin_min", "1e6"}, {"ngrid_x", "0"}, {"ngrid_z", "-8"}, {"form", "square"}};
      int i = (int)r.below(14); std::string key = k[i][0]; if (modes && (key == "alignment" || key == "norm_convention")) return false;
      if (key == "form" && (m->w.stat != "bispec" && m->w.stat != "3pcf" && m->w.stat != "bispec-win" && m->w.stat != "3pcf-win" && m->w.stat != "3pcf-win-wa")) return false;
      if ((m->unset_box && key == "ngrid_x") || (m->unset_box && key == "ngrid_z")) return false;
      if (!set_line(t, key, k[i][1])) return false; badkey = k[i][0]; putp(t); return true; }
    case 8: { if (modes) return false; if (!set_line(t, "catalogue_columns", r.chance(0.5) ? "x,y,nz,ws" : "a,b,c,d")) return false; putp(t); return true; }
    case 10: { for (auto& p : vfs::list()) if (p.compare(0, 10, "/out/deep/") == 0) return false; if (m->outdir.find("/out/deep") != 0) return false; vfs::put("/out/deep", "x", 1); return true; }
    case 11: putp(r.chance(0.5) ? "" : "# no parameters\n"); return true;
    default: { static const char* k[] = {"catalogue_type", "statistic_type", "bin_max", "num_bins", "data_catalogue_file", "rand_catalogue_file"}; const char* key = k[r.below(6)]; if (strstr(key, "file") && (modes || (key[0] == 'd' ? m->w.cat == "random" : m->w.cat == "sim"))) return false; if (t.find(std::string("\n") + key + " = ") == std::string::npos) return false; if (!set_line(t, key, nullptr)) return false; badkey = key; putp(t); return true; }
  }
}
bool setup7(Case& cs) { Rng r(mix64(cs.seed, 70)); if (!prog_setup(cs, 71, r.chance(0.2))) return false; measure_noise((PW*)cs.w); return true; }
int nv7(Case& c) { return c.tier ? 40 : 24; }
void exec7(Case& cs, Variant& v) {
  PW* m = (PW*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  bool stale = r.chance(0.4); uint64_t sseed = r.next(); int fill = r.range(0, 3); uint64_t seed = r.next();
  bool mt = r.chance(0.15); int nthr = mt ? r.range(2, 5) : 1; uint64_t schedseed = r.next();
  int kind = r.range(0, 9);
  size_t nf = r.chance(0.75) ? 1 : r.range(2, 4);
  if (kind >= 7) {
    uint64_t idx = r.chance(0.3) ? r.below(60) : r.chance(0.3) ? m->nalloc - std::min<uint64_t>(m->nalloc, 1 + r.below(60)) : r.below(m->nalloc ? m->nalloc : 1);
    ev.push_back(Ev{E_ALLOC, idx, (int64_t)(r.chance(0.7) ? 1 : r.chance(0.5) ? 3 : 1000000), 0});
  }
  if (kind < 7 || r.chance(0.2)) for (size_t i = 0; i < nf && !m->log.empty(); i++) {
    // choose the kind of operation first: rare ones count as much as reads
    int want = pick(r, {(int)vfs::O_OPEN_R, (int)vfs::O_OPEN_W, (int)vfs::O_OPEN_W, (int)vfs::O_READ, (int)vfs::O_READ, (int)vfs::O_WRITE, (int)vfs::O_WRITE, (int)vfs::O_WRITE, (int)vfs::O_CLOSE, (int)vfs::O_MKDIR, (int)vfs::O_STAT});
    std::vector<uint64_t> c; for (size_t k = 0; k < m->log.size(); k++) if (m->log[k].op == want) c.push_back(k);
    uint64_t k = c.empty() ? r.below(m->log.size()) : c[r.below(c.size())];
    ev.push_back(Ev{E_IO, k, applicable(r, m->log[k].op), r.next() >> 20});
  }
  if (r.chance(0.25)) { if (r.chance(0.85)) ev.clear(); ev.push_back(Ev{E_MISC, (uint64_t)r.range(1, 12), 0, r.next() >> 20}); }
  if (v.replay) ev = v.ev;
  set_events(ev);
  RC c; c.fill = fill; c.seed = seed; c.nthr = nthr; c.schedseed = schedseed; c.est = m->nsteps;
  for (auto& e : ev) { if (e.type == E_IO) c.io.push_back(vfs::FaultAt{e.a, (int)e.b, e.c}); if (e.type == E_ALLOC) { c.fail_at = e.a; c.fail_n = e.b; } }
  fs_inputs(m); if (stale) { Rng q(sseed); put_stale(m, q); }
  int bad = 0; for (auto& e : ev) if (e.type == E_MISC && bad_input(m, (int)e.a, e.c)) { bad = (int)e.a; std::string n = std::string("fault_") + BADNAME[bad]; count(n.c_str()); }
  if (bad) c.capture = true;
  RR o = run_prog(c);
  if (bad) {
    state_hash(mix64(cs.seed, bad * 1000 + v.id)); count(o.code == 0 ? "exit_zero" : "exit_nonzero");
    if (o.code == 0) sim_violation("bad-input-accepted", "exit status 0 with input defect '%s' %s", BADNAME[bad], badkey);
    if (o.out.empty() && m->w.verbose < 40) sim_violation("silent-failure", "exit status %d without any message for input defect '%s'", o.code, BADNAME[bad]);
    return;
  }
  uint64_t fired = o.nfailed; for (int k = 1; k < vfs::F_NKINDS; k++) fired += vfs::fired(k);
  { uint64_t h = cs.seed * 31 + o.code; for (auto& e : ev) h = mix64(h, e.a * 1000 + e.b * 10 + e.type); if (fired) state_hash(h); }
  count(o.code == 0 ? "exit_zero" : "exit_nonzero");
  if (o.code != 0 && !fired) sim_violation("failed-without-fault", "exit status %d although no fault was injected", o.code);
  if (o.code == 0) {
    std::string d = diff_outputs(m, fs_outputs(), nthr == 1, false);
    if (!d.empty()) sim_violation("silent-loss", "exit status 0 but %s", d.c_str());
  }
  check_inputs(m);
}
Reg r7(Campaign{"progfault", "C07", setup7, nv7, exec7, 0});
// ---- C11 ------------------------------------------------------------------------
bool setup11(Case& cs) { Rng r(mix64(cs.seed, 110)); return prog_setup(cs, 112, r.chance(0.3)); }
int nv11(Case& c) { return c.tier ? 16 : 10; }
void exec11(Case& cs, Variant& v) {
  PW* m = (PW*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev; uint64_t seed = r.next(); bool mt = r.chance(0.4); int nthr = mt ? r.range(2, 6) : 1; uint64_t ss = r.next(), stale = r.next(); int fill = r.range(0, 3);
  int nf = r.chance(0.7) ? r.range(1, 3) : 0;
  for (int i = 0; i < nf && !m->log.empty(); i++) { uint64_t k = r.below(m->log.size()); int f = m->log[k].op == vfs::O_READ ? pick(r, {(int)vfs::F_READ_SHORT, (int)vfs::F_READ_EINTR}) : applicable(r, m->log[k].op); ev.push_back(Ev{E_IO, k, f, r.next() >> 20}); }
  if (r.chance(0.25)) ev.push_back(Ev{E_ALLOC, r.below(m->nalloc ? m->nalloc : 1), 1, 0});
  if (v.replay) ev = v.ev;
  set_events(ev);
  RC c; c.seed = seed; c.nthr = nthr; c.schedseed = ss; c.est = m->nsteps; c.fill = fill;
  for (auto& e : ev) { if (e.type == E_IO) c.io.push_back(vfs::FaultAt{e.a, (int)e.b, e.c}); if (e.type == E_ALLOC) { c.fail_at = e.a; c.fail_n = e.b; } }
  fs_inputs(m); if (stale & 1) { Rng q(stale); put_stale(m, q); }
  RR o = run_prog(c); uint64_t* s = shm->scratch + SR; state_hash(mix64(cs.seed * 64 + v.id, o.code));
  count(o.code == 0 ? "exit_zero" : "exit_nonzero");
  if ((int64_t)s[4] < 0 || (int64_t)s[5] < 0 || (int64_t)s[6] < 0) sim_violation("counter-range", "negative usage at exit: %lld bytes, %lld half grids", (long long)s[4], (long long)s[5]);
  if (s[8]) sim_violation("counter-range", "the reported peak memory is below the current");
  if (o.code) return;
  if (s[0]) sim_violation("leak", "the program left %llu blocks (%llu bytes), first of %llu bytes allocated at pc %llx", (unsigned long long)s[0], (unsigned long long)s[1], (unsigned long long)s[2], (unsigned long long)s[3]);
  if (s[4] || s[5] || s[6]) sim_violation("counters", "at exit %lld bytes, %g grids are still reported in use", (long long)s[4], (double)(int64_t)s[5] / 2);
  if (s[7]) sim_violation("plan-leak", "the program left %llu FFT plans", (unsigned long long)s[7]);
  if (s[9]) sim_violation("file-leak", "the program left %llu files open", (unsigned long long)s[9]);
}
Reg r11(Campaign{"progres", "C11", setup11, nv11, exec11, 0});
// ---- C09 ------------------------------------------------------------------------
bool setup9(Case& cs) { Rng r(mix64(cs.seed, 90)); return prog_setup(cs, 91, r.chance(0.5)); }
int nv9(Case& c) { return c.tier ? 40 : 24; }
void exec9(Case& cs, Variant& v) {
  PW* m = (PW*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  bool stale = r.chance(0.3); uint64_t sseed = r.next(); uint64_t seed = r.next();
  int nc = r.chance(0.7) ? 1 : r.range(2, 4);
  for (int i = 0; i < nc; i++) {
    uint64_t k = r.below(m->log.size());
    if (r.chance(0.5)) { std::vector<uint64_t> c; for (size_t q = 0; q < m->log.size(); q++) if (m->log[q].op == vfs::O_WRITE || m->log[q].op == vfs::O_OPEN_W || m->log[q].op == vfs::O_MKDIR) c.push_back(q); if (!c.empty()) k = c[r.below(c.size())] + r.below(2); }
    ev.push_back(Ev{E_CRASH, k, (int64_t)r.below(4), r.next() >> 20});
  }
  if (v.replay) ev = v.ev;
  set_events(ev);
  fs_inputs(m); if (stale) { Rng q(sseed); put_stale(m, q); }
  uint64_t h = cs.seed; int crashes = 0;
  for (auto& e : ev) {
    if (e.type != E_CRASH) continue;
    vfs::mark();
    RC c; c.seed = seed + e.a; c.io.push_back(vfs::FaultAt{e.a, vfs::F_CRASH, e.c});
    RR o = run_prog(c);
    if (o.crashed) { crashes++; vfs::crash_state(e.c, (int)e.b); count("fault_lost-writes", e.b ? 1 : 0); }
    else if (o.code != 0) sim_violation("later-run-fails", "run after %d killed runs ended with status %d", crashes, o.code);
    h = mix64(h, vfs::content_hash());
  }
  if (crashes) state_hash(h);
  check_inputs(m);
  RC c; c.seed = seed; RR o = run_prog(c);
  if (o.code != 0) sim_violation("later-run-fails", "run after %d killed runs ended with status %d", crashes, o.code);
  std::string d = diff_outputs(m, fs_outputs(), true, !stale);
  if (!d.empty()) sim_violation("later-run-differs", "run after %d killed runs: %s", crashes, d.c_str());
  check_inputs(m);
}
Reg r9(Campaign{"progcrash", "C09", setup9, nv9, exec9, 0});
// ---- C17 ------------------------------------------------------------------------
bool setup17(Case& cs) { return prog_setup(cs, 171, mix64(cs.seed, 3) % 4 == 0, true); }
int nv17(Case& c) { return c.tier ? 30 : 16; }
// log text without time stamps and without the text of time-dependent messages
std::string logs(const std::string& s) {
  std::string o; size_t p = 0; std::string t = s; for (auto& ch : t) if (ch == '\r') ch = '\n';
  while (p < t.size()) {
    size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
    std::string l = t.substr(p, e - p); p = e + 1;
    if (l.find("Build timestamp") == 0 || l.find("seconds despite importing") != std::string::npos || (l.find("has been exported") != std::string::npos)) continue;
    if (l.size() > 2 && l[0] == '[') { size_t q = l.find(") "); if (q != std::string::npos && q < 60) l = l.substr(q + 2); }
    o += l + "\n";
  }
  return o;
}
void exec17(Case& cs, Variant& v) {
  PW* m = (PW*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev; uint64_t seed = r.next();
  const int64_t S = 1000000000ll;
  int n = r.range(1, 6);
  for (int i = 0; i < n; i++) {
    int64_t d = 0; int mono = 0;
    switch (r.below(8)) {
      case 0: d = -(int64_t)r.below(3600 * S); break;
      case 1: d = (int64_t)r.below(400ll * 86400 * S); break;
      case 2: d = -(int64_t)r.below(4000ll * 86400 * S); break;
      case 3: d = (int64_t)r.below(7200 * S); break;
      case 4: d = -1690000000ll * S; break;                        // back to about 1970
      case 5: d = -(int64_t)r.below(3 * S); break;
      case 6: d = (int64_t)r.below(100ll * 3600 * S); mono = 1; break;   // stall
      default: d = (int64_t)r.below(30 * S); mono = 1;
    }
    ev.push_back(Ev{E_CLOCK, r.below(m->nread + 2), d, (uint64_t)mono});
  }
  if (v.replay) ev = v.ev;
  set_events(ev);
  RC c; c.seed = seed; c.capture = true;
  for (auto& e : ev) if (e.type == E_CLOCK) c.jumps.push_back(vclock::Jump{e.a, e.b, (int)e.c});
  fs_inputs(m); RR o = run_prog(c);
  count("fault_clock-jump", o.jumps); count("clock_reads", o.reads);
  if (o.jumps) { uint64_t h = cs.seed; for (auto& e : ev) h = mix64(h, e.a + (uint64_t)e.b); state_hash(h); }
  if (o.code != 0) sim_violation("clock-exit", "exit status %d after clock jumps", o.code);
  std::string d = diff_outputs(m, fs_outputs(), true, true);
  if (!d.empty()) sim_violation("clock-output", "%s", d.c_str());
  std::string a = logs(m->refout), b = logs(o.out);
  if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = a.rfind('\n', i ? i - 1 : 0); s = s == std::string::npos ? 0 : s + 1; sim_violation("clock-log", "log differs beyond time stamps: '%s' instead of '%s'", b.substr(s, 120).c_str(), a.substr(s, 120).c_str()); }
  // every progress report is a percentage
  for (size_t i = 0; (i = o.out.find("%", i)) != std::string::npos; i++) {
    size_t k = i; while (k > 0 && (isdigit(o.out[k - 1]) || o.out[k - 1] == '-')) k--;
    if (k == i) continue; long p = atol(o.out.substr(k, i - k).c_str()); count("progress_reports");
    if (p < 0 || p > 100) sim_violation("progress-range", "progress report of %ld%%", p);
  }
  // elapsed times are printed as hours, minutes and seconds
  for (size_t i = 0; (i = o.out.find("(+", i)) != std::string::npos; i++) {
    int hh, mm, ss; if (sscanf(o.out.c_str() + i, "(+%d:%2d:%2d)", &hh, &mm, &ss) != 3 || hh < 0 || mm < 0 || mm > 59 || ss < 0 || ss > 59) sim_violation("elapsed-time", "elapsed time '%s'", o.out.substr(i, 20).c_str());
    count("elapsed_times");
  }
}
Reg r17(Campaign{"progclock", "C17", setup17, nv17, exec17, 0});
// ---- C01, C02: the program under schedules ----------------------------------------------
bool setup5a(Case& cs) { shm->scratch[SC + 16] = 0; if (!prog_setup(cs, 55, false, false, 2)) return false; measure_noise((PW*)cs.w); return true; }
bool setup5b(Case& cs) { shm->scratch[SC + 16] = 0; if (!prog_setup(cs, 56, false, false, 3)) return false; measure_noise((PW*)cs.w); return true; }
int nv5(Case& c) { return c.tier ? 12 : 8; }
void exec5(Case& cs, Variant& v) {
  PW* m = (PW*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  ev.push_back(Ev{E_MISC, (uint64_t)wl::pick_threads(r), (int64_t)(r.next() >> 2), shm->scratch[SC + 16]});
  if (v.replay) ev = v.ev;
  set_events(ev);
  RC c; c.seed = r.next(); c.fill = r.range(0, 3); 
  for (auto& e : ev) if (e.type == E_MISC) { c.nthr = (int)e.a; c.schedseed = e.b; c.est = e.c; }
  fs_inputs(m); RR o = run_prog(c);
  shm->scratch[SC + 16] = o.steps; count("switches", o.switches); if (o.switches) state_hash(o.hash ^ cs.seed);
  if (o.code != 0) sim_violation("schedule-exit", "exit status %d with %d threads", o.code, c.nthr);
  std::string d = diff_outputs(m, fs_outputs(), c.nthr == 1, true);
  if (!d.empty()) sim_violation("schedule-output", "with %d threads: %s", c.nthr, d.c_str());
}
Reg r5(Campaign{"progsched2", "C01", setup5a, nv5, exec5, 0}), r5b(Campaign{"progsched3", "C02", setup5b, nv5, exec5, 0});

// ---- C06: wisdom files and planner choices ------------------------------------------------
std::string data_lines(const std::string& s) { std::string o; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); if (s[p] != '#') o += s.substr(p, e - p) + "\n"; p = e + 1; } return o; }
bool setup6(Case& cs) {
  if (!prog_setup(cs, 61, true)) return false;
  PW* m = (PW*)cs.w;
  for (auto& p : vfs::list()) if (p.compare(0, 5, "/wis/") == 0 && p.back() != '/') m->wis[p] = vfs::get(p.c_str());
  count("wisdom_files", m->wis.size());
  measure_noise(m);
  // the same measurement without wisdom files
  std::string keep = m->in["/in/param.ini"], t = keep; size_t a = t.find("use_fftw_wisdom"), e = t.find('\n', a);
  t.replace(a, e - a, "use_fftw_wisdom = false"); m->in["/in/param.ini"] = t;
  fs_inputs(m); RC c; c.seed = 5; RR r = run_prog(c); Files o = fs_outputs(); m->in["/in/param.ini"] = keep;
  if (r.code != 0) sim_violation("wisdom-dependence", "exit status %d without wisdom files, 0 with", r.code);
  for (auto& f : m->ref) {
    if (!o.count(f.first)) sim_violation("wisdom-dependence", "%s is missing without wisdom files", f.first.c_str());
    if (f.first.find("parameters") != std::string::npos) continue;
    std::string d = diff_text(data_lines(f.second), data_lines(o[f.first]), false, m->noise[f.first]);
    if (!d.empty()) sim_violation("wisdom-dependence", "%s without wisdom files: %s", f.first.c_str(), d.c_str());
  }
  return true;
}
int nv6(Case& c) { return c.tier ? 24 : 14; }
void wisdom_state(PW* m, int kind, uint64_t seed) {
  Rng r(seed);
  if (kind == 0) return;
  std::vector<std::string> names; for (auto& f : m->wis) names.push_back(f.first);
  for (size_t i = 0; i < names.size(); i++) {
    if (names.size() > 1 && r.chance(0.2)) continue;
    const std::string& n = names[i]; std::string v = m->wis[n]; size_t s = n.rfind('/');
    vfs::mkdirs(n.substr(0, s).c_str());
    switch (kind) {
      case 1: vfs::remove_file(n.c_str()); continue;
      case 2: break;
      case 3: v = ""; break;
      case 4: v.resize(r.below(v.size() + 1)); break;
      case 5: v.resize(r.below(2000)); for (auto& c : v) c = (char)r.next(); break;
      case 6: for (auto& c : v) if (c >= '0' && c <= '9' && r.chance(0.1)) c = '0' + r.below(10); break;
      case 7: { size_t k = r.below(v.size() + 1); for (size_t q = k; q < v.size(); q++) v[q] = 0; break; }
      case 8: vfs::remove_file(n.c_str()); vfs::mkdirs(n.c_str()); continue;
      case 9: v = m->wis[names[(i + 1) % names.size()]]; break;
      default: v = v + v.substr(0, r.below(v.size() + 1));
    }
    vfs::put(n.c_str(), v.data(), v.size());
  }
}
void exec6(Case& cs, Variant& v) {
  PW* m = (PW*)cs.w; Rng r(mix64(cs.seed, 1000 + v.id)); Evs ev;
  int nr = r.range(1, 3); const int64_t S = 1000000000ll;
  uint64_t seed = r.next();
  for (int i = 0; i < nr; i++) {
    if (r.chance(i ? 0.3 : 0.7)) ev.push_back(Ev{E_MISC, (uint64_t)i, (int64_t)r.range(1, 10), r.next() >> 20});
    int nf = r.chance(0.5) ? r.range(1, 3) : 0;
    for (int k = 0; k < nf; k++) ev.push_back(Ev{E_IO, (uint64_t)i * 1000 + r.below(12), pick<int>(r, {vfs::F_OPEN_FAIL, vfs::F_READ_EIO, vfs::F_READ_SHORT, vfs::F_READ_EINTR, vfs::F_READ_TRUNC, vfs::F_READ_ZERO, vfs::F_WRITE_EIO, vfs::F_WRITE_ENOSPC, vfs::F_WRITE_SHORT, vfs::F_CLOSE_EIO}), r.next() >> 20});
    if (r.chance(0.4)) for (int k = r.range(1, 3); k > 0; k--) ev.push_back(Ev{E_CLOCK, (uint64_t)i * 100000 + r.below(m->nread + 1), (int64_t)r.below(20 * S) - 3 * S, 0});
    if (i + 1 < nr && r.chance(0.3)) ev.push_back(Ev{E_CRASH, (uint64_t)i * 1000 + r.below(10), (int64_t)r.below(4), r.next() >> 20});
  }
  if (v.replay) ev = v.ev;
  set_events(ev);
  fs_inputs(m); uint64_t h = cs.seed; bool any = false;
  for (int i = 0; i < nr; i++) {
    RC c; c.seed = mix64(seed, i); c.planner = true; c.fill = (int)(c.seed >> 7) & 3; c.scope = "/wis/"; int crash = -1; uint64_t cseed = 0;
    for (auto& e : ev) {
      if (e.type == E_MISC && (int)e.a == i) { wisdom_state(m, (int)e.b, e.c); count("fault_wisdom-state"); any = true; }
      if (e.type == E_IO && (int)(e.a / 1000) == i) c.io.push_back(vfs::FaultAt{e.a % 1000, (int)e.b, e.c});
      if (e.type == E_CLOCK && (int)(e.a / 100000) == i) c.jumps.push_back(vclock::Jump{e.a % 100000, e.b, 0});
      if (e.type == E_CRASH && (int)(e.a / 1000) == i) { c.io.push_back(vfs::FaultAt{e.a % 1000, vfs::F_CRASH, e.c}); crash = (int)e.b; cseed = e.c; }
    }
    vfs::mark();
    RR o = run_prog(c);
    uint64_t fired = 0; for (int k = 1; k < vfs::F_NKINDS; k++) fired += vfs::fired(k);
    if (fired || o.jumps) any = true;
    count("fault_clock-jump", o.jumps);
    for (auto& f : vfs::list()) if (f.compare(0, 5, "/wis/") == 0 && f.back() != '/') { std::string t = vfs::get(f.c_str()); for (char ch : t) h = (h ^ (uint8_t)ch) * 1099511628211ull; h = mix64(h, f.size()); }
    check_inputs(m);
    if (o.crashed) { vfs::crash_state(cseed, crash); continue; }
    if (o.code != 0) sim_violation("wisdom-failure", "run %d ended with status %d", i + 1, o.code);
    std::string d = diff_outputs(m, fs_outputs(), false, false);
    if (!d.empty()) sim_violation("wisdom-dependence", "run %d: %s", i + 1, d.c_str());
  }
  if (any) state_hash(h);
}
Reg r6(Campaign{"wisdom", "C06", setup6, nv6, exec6, 0});
}

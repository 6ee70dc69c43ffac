// Process management: cases, variants, replay and minimisation.
#include "drv.h"
#include "arena.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sched.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <ucontext.h>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <execinfo.h>
#include <sys/syscall.h>
#include <time.h>

Report* g_report;
extern "C" char __executable_start;
uint64_t text_base() { return 0; }   // no-pie: program counters are link addresses

namespace drv {
Shm* shm;
bool g_rec_sched = true;
static std::vector<Campaign>& regs() { static std::vector<Campaign> r; return r; }
void reg(const Campaign& c) { regs().push_back(c); }
static FILE* jout;
static int nullfd = -1;
static void silence(int verbose) { if (verbose) { setvbuf(stdout, nullptr, _IOLBF, 0); return; } if (nullfd < 0) nullfd = (int)syscall(SYS_open, "/dev/null", O_RDWR, 0); dup2(nullfd, 1); dup2(nullfd, 2); }
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

void count(const char* name, uint64_t n) {
  for (int i = 0; i < shm->nctr; i++) if (!strcmp(shm->ctr[i].name, name)) { shm->ctr[i].v += n; return; }
  if (shm->nctr >= 160) return;
  snprintf(shm->ctr[shm->nctr].name, 40, "%s", name); shm->ctr[shm->nctr].v = n; shm->nctr++;
}
void state_hash(uint64_t h) { if (shm->nhash < 4096) shm->hash[shm->nhash++] = h; }
void sample(const char* fmt, ...) {
  if (shm->sample[0]) return;
  va_list a; va_start(a, fmt); vsnprintf(shm->sample, sizeof shm->sample, fmt, a); va_end(a);
}
void set_events(const Evs& e) { shm->nev = 0; for (auto& x : e) if (shm->nev < EVCAP) shm->ev[shm->nev++] = x; }
mvec<rt::Switch> sched_of(const Variant& v) {
  mvec<rt::Switch> s; for (auto& e : v.ev) if (e.type == E_SWITCH) s.push_back(rt::Switch{e.a, (int)e.b, (int)e.c}); return s;
}
Evs events_of(const Variant& v, int type) { Evs r; for (auto& e : v.ev) if (e.type == type) r.push_back(e); return r; }

std::vector<double> spread(const Out& a, const Out& b) {
  std::vector<double> r(a.s.size(), 0.);
  for (size_t i = 0; i < a.s.size() && i < b.s.size(); i++)
    for (size_t j = 0; j < a.s[i].v.size() && j < b.s[i].v.size(); j++) {
      double d = fabs(a.s[i].v[j] - b.s[i].v[j]); if (d > r[i]) r[i] = d;
    }
  return r;
}
std::string compare(const Out& ref, const Out& got, const std::vector<double>& spr, double rel, double mult) {
  char b[400];
  if (ref.err != got.err) { snprintf(b, 400, "reference run: %s, this run: %s", ref.err.empty() ? "returned" : ref.err.c_str(), got.err.empty() ? "returned" : got.err.c_str()); return b; }
  if (ref.s.size() != got.s.size()) { snprintf(b, 400, "number of outputs %zu, expected %zu", got.s.size(), ref.s.size()); return b; }
  for (size_t i = 0; i < ref.s.size(); i++) {
    auto &x = ref.s[i], &y = got.s[i];
    if (x.v.size() != y.v.size()) { snprintf(b, 400, "%s: %zu values, expected %zu", x.name.c_str(), y.v.size(), x.v.size()); return b; }
    double mx = 0; for (double v : x.v) if (std::isfinite(v) && fabs(v) > mx) mx = fabs(v);
    double tol = x.kind == 0 ? 0 : std::max(std::max(rel * mx, x.floor), i < spr.size() ? mult * spr[i] : 0.);
    for (size_t j = 0; j < x.v.size(); j++) {
      double p = x.v[j], q = y.v[j];
      if (std::isnan(p) && std::isnan(q)) continue;
      if (p == q) continue;
      if (!(fabs(p - q) <= tol)) { snprintf(b, 400, "%s[%zu] = %.17g, expected %.17g (tolerance %.3g)", x.name.c_str(), j, q, p, tol); return b; }
    }
  }
  return "";
}
std::string describe_exception() {
  mem::Pause mp;
  std::string r;
  try { throw; }
  catch (std::exception& e) { int st; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); r = std::string("threw ") + (n ? n : "?"); free(n); }
  catch (...) { r = "threw an unknown object"; }
  return r;
}
static void debug_backtrace() {   // development aid
  if (!getenv("TRVSIM_BT")) return;
  void* b[60]; int n = backtrace(b, 60); 
  int f = (int)syscall(SYS_open, getenv("TRVSIM_BT"), O_WRONLY | O_CREAT | O_APPEND, 0644);
  char t[40]; for (int i = 0; i < n; i++) { int k = snprintf(t, 40, "%p\n", b[i]); syscall(SYS_write, f, t, k); } syscall(SYS_write, f, "--\n", 3); syscall(SYS_close, f);
}
static void finish_report(const char* kind, const char* fmt, va_list a) {
  if (g_report->violated) _Exit(77);
  debug_backtrace();
  snprintf(g_report->kind, sizeof g_report->kind, "%s", kind);
  vsnprintf(g_report->detail, sizeof g_report->detail, fmt, a);
  if (g_rec_sched) for (size_t i = 0; i < rt::trace.size() && shm->nev < EVCAP; i++)
    shm->ev[shm->nev++] = Ev{E_SWITCH, rt::trace[i].step, rt::trace[i].target, (uint64_t)rt::trace[i].forced};
  __sync_synchronize();
  g_report->violated = 1;
  _Exit(77);
}
void (*abort_hook)();
static void oom_abort() { if (abort_hook && mem::n_failed_region) { abort_hook(); _Exit(134); } }
static void on_signal(int s, siginfo_t* si, void* uc) {
  uint64_t pc = 0;
#ifdef __x86_64__
  pc = (uint64_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
#endif
  if (s == SIGABRT) oom_abort();
  if (s == SIGXCPU) sim_violation("no-progress", "processor-time limit of the run exceeded (pc %llx)", (unsigned long long)pc);
  sim_violation("signal", "signal %d at pc %llx, address %llx", s, (unsigned long long)pc, (unsigned long long)si->si_addr);
}
static void on_terminate() {
  oom_abort();
  std::string w = "terminate called";
  if (std::current_exception()) { try { throw; } catch (...) { w += ": " + describe_exception(); } }
  sim_violation("terminate", "%s", w.c_str());
}
static char* altstk;
static void child_env(int cpu_s, bool handlers) {
  struct rlimit rl; getrusage(RUSAGE_SELF, (struct rusage*)alloca(sizeof(struct rusage)));
  rl.rlim_cur = cpu_s; rl.rlim_max = cpu_s + 5; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  if (!altstk) altstk = (char*)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (handlers) {
    stack_t ss; ss.ss_sp = altstk; ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, 0);
    std::set_terminate(on_terminate);
  } else {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) signal(s, SIG_DFL);
  }
}
int in_fork(const std::function<void()>& f, int cpu_s) {
  fflush(jout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { child_env(cpu_s, true); f(); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return st;
}

// ---- one case -----------------------------------------------------------------
struct VRes { bool bad; std::string kind, detail; Evs ev; };
static void clear_rep() { shm->rep.done = shm->rep.violated = 0; shm->rep.kind[0] = shm->rep.detail[0] = 0; shm->nev = 0; }
static int g_cpu = 60;
static VRes run_variant(const Campaign& C, Case& cs, Variant& v) {
  clear_rep();
  int st = in_fork([&]() { C.exec(cs, v); shm->rep.done = 1; }, g_cpu);
  VRes r; r.bad = false;
  if (shm->rep.violated) {
    r.bad = true; r.kind = shm->rep.kind; r.detail = shm->rep.detail;
    r.ev.assign(shm->ev, shm->ev + shm->nev);
  } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->rep.done)) {
    r.bad = true; r.kind = WIFSIGNALED(st) ? "signal" : "exit";
    char b[100]; snprintf(b, 100, "run ended with status %x", st); r.detail = b;
    r.ev.assign(shm->ev, shm->ev + shm->nev);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.bad = true; r.kind = "infrastructure"; }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71)) r.kind = "infrastructure";
  }
  return r;
}
static bool still_bad(const Campaign& C, Case& cs, int id, const Evs& e, const std::string& kind, VRes* out) {
  Variant v; v.id = id; v.replay = true; v.ev = e;
  VRes r = run_variant(C, cs, v);
  if (out) *out = r;
  return r.bad && r.kind == kind;
}
static Evs ddmin(const Campaign& C, Case& cs, int id, Evs e, const std::string& kind, double budget, int* tests) {
  double t0 = wall(); *tests = 0;
  auto test = [&](const Evs& x) { ++*tests; return still_bad(C, cs, id, x, kind, nullptr); };
  if (e.empty()) return e;
  { Evs z; if (test(z)) return z; }
  size_t n = 2;
  while (e.size() >= 2 && wall() - t0 < budget) {
    size_t ch = (e.size() + n - 1) / n; bool red = false;
    for (size_t i = 0; i < e.size() && wall() - t0 < budget; i += ch) {
      Evs c; for (size_t j = 0; j < e.size(); j++) if (j < i || j >= i + ch) c.push_back(e[j]);
      if (test(c)) { e = c; red = true; n = n > 2 ? n - 1 : 2; break; }
    }
    if (!red) { if (n >= e.size()) break; n = n * 2 < e.size() ? n * 2 : e.size(); }
  }
  return e;
}
static void write_replay(const char* path, const Campaign& C, const Case& cs, int id, const VRes& r, const Evs& e, size_t orig) {
  FILE* f = fopen(path, "w"); if (!f) return;
  fprintf(f, "trvsim-replay 1\nproperty %s\ncampaign %s\nseed %llu\ntier %d\nvariant %d\nkind %s\ndetail %s\nsample %s\noriginal_events %zu\nevents %zu\n",
          C.property, C.name, (unsigned long long)cs.seed, cs.tier, id, r.kind.c_str(), r.detail.c_str(), shm->sample, orig, e.size());
  for (auto& x : e) fprintf(f, "%d %llu %lld %llu\n", x.type, (unsigned long long)x.a, (long long)x.b, (unsigned long long)x.c);
  fclose(f);
}
// JSON string
static std::string js(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static double g_case_t0;
static void case_reset() { g_case_t0 = wall();
  shm->nctr = 0; shm->nhash = 0; shm->sample[0] = 0; shm->sim_ns = 0; shm->racy_n = 0; clear_rep();
}
struct Opts { std::string campaign, replaydir; uint64_t seed = 1; long start = 0, stride = 1, count = 1L << 40; double secs = 30, minsecs = 30; int tier = 0, cpu = -1, only = -1; int maxviol = 3; int verbose = 0; };

static void emit_stats(const Campaign& C, uint64_t seed) {
  fprintf(jout, "{\"t\":\"case\",\"campaign\":%s,\"seed\":%llu,\"sim_ns\":%lld,\"ctr\":{", js(C.name).c_str(), (unsigned long long)seed, (long long)shm->sim_ns);
  for (int i = 0; i < shm->nctr; i++) fprintf(jout, "%s%s:%llu", i ? "," : "", js(shm->ctr[i].name).c_str(), (unsigned long long)shm->ctr[i].v);
  fprintf(jout, "},\"hash\":[");
  for (uint64_t i = 0; i < shm->nhash; i++) fprintf(jout, "%s\"%llx\"", i ? "," : "", (unsigned long long)shm->hash[i]);
  fprintf(jout, "],\"sample\":%s,\"wall\":%.3f}\n", js(shm->sample).c_str(), wall() - g_case_t0);
  fflush(jout);
}
static int run_cases(const Campaign& C, const Opts& o) {
  double t0 = wall(); int nviol = 0;
  for (long i = 0; i < o.count && (wall() - t0 < o.secs || i == 0); i++) {
    uint64_t seed = mix64(o.seed * 1000003ull + 17, (uint64_t)(o.start + i * o.stride) * 2654435761ull + 1) >> 8;
    if (o.only >= 0) seed = (uint64_t)o.seed;
    case_reset();
    fflush(jout);
    pid_t p = fork();
    if (p == 0) {
      // case process: set up, then fork the variants
      child_env(600, true); silence(o.verbose);
      Case cs; cs.seed = seed; cs.tier = o.tier; cs.verbose = o.verbose;
      bool ok = C.setup(cs);
      if (shm->rep.violated) _exit(77);
      if (!ok) { count("cases_skipped"); emit_stats(C, seed); _exit(0); }
      count("cases");
      int nv = C.nvariants(cs);
      for (int k = 0; k < nv; k++) {
        if (o.only >= 0 && k != o.only) continue;
        Variant v; v.id = k;
        VRes r = run_variant(C, cs, v);
        count("variants");
        if (r.bad && r.kind == "no-progress") {   // confirm with a larger allowance
          int old = g_cpu; g_cpu = 240; VRes q = run_variant(C, cs, v); g_cpu = old; r = q;
        }
        if (r.bad && r.kind == "infrastructure") { count("infrastructure"); fprintf(stderr, "trvsim: %s\n", r.detail.c_str()); continue; }
        if (r.bad) {
          // must reproduce from its own events
          VRes q; int tests = 0; size_t orig = r.ev.size();
          bool rep = still_bad(C, cs, k, r.ev, r.kind, &q);
          Evs m = r.ev;
          if (rep) { m = ddmin(C, cs, k, r.ev, r.kind, o.minsecs, &tests); still_bad(C, cs, k, m, r.kind, &q); r.detail = q.detail; }
          char path[600]; snprintf(path, 600, "%s/%s-%llu-%d.replay", o.replaydir.c_str(), C.name, (unsigned long long)seed, k);
          write_replay(path, C, cs, k, r, m, orig);
          fprintf(jout, "{\"t\":\"violation\",\"property\":%s,\"campaign\":%s,\"seed\":%llu,\"variant\":%d,\"kind\":%s,\"detail\":%s,\"replay\":%s,\"reproduced\":%s,\"events\":%zu,\"original_events\":%zu,\"tests\":%d,\"sample\":%s}\n",
                 js(C.property).c_str(), js(C.name).c_str(), (unsigned long long)seed, k, js(r.kind).c_str(), js(r.detail).c_str(), js(path).c_str(), rep ? "true" : "false", m.size(), orig, tests, js(shm->sample).c_str());
          fflush(jout);
          count("violations");
          break;
        }
      }
      emit_stats(C, seed);
      _exit(shm->rep.violated ? 77 : 0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (shm->rep.violated && strcmp(shm->rep.kind, "") && WIFEXITED(st) && WEXITSTATUS(st) == 77 && shm->nctr == 0) {
      // the set-up itself (reference runs) violated
    }
    bool viol = false; for (int c = 0; c < shm->nctr; c++) if (!strcmp(shm->ctr[c].name, "violations")) viol = true;
    if (!viol && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      if (shm->rep.violated) {
        Case cs; cs.seed = seed; cs.tier = o.tier; VRes r; r.kind = shm->rep.kind; r.detail = std::string("in the reference run: ") + shm->rep.detail;
        char path[600]; snprintf(path, 600, "%s/%s-%llu-ref.replay", o.replaydir.c_str(), C.name, (unsigned long long)seed);
        write_replay(path, C, cs, -1, r, Evs(), 0);
        fprintf(jout, "{\"t\":\"violation\",\"property\":%s,\"campaign\":%s,\"seed\":%llu,\"variant\":-1,\"kind\":%s,\"detail\":%s,\"replay\":%s,\"reproduced\":true,\"events\":0,\"original_events\":0,\"tests\":0,\"sample\":%s}\n",
               js(C.property).c_str(), js(C.name).c_str(), (unsigned long long)seed, js(r.kind).c_str(), js(r.detail).c_str(), js(path).c_str(), js(shm->sample).c_str());
        viol = true;
      } else fprintf(jout, "{\"t\":\"error\",\"detail\":\"case %llu ended with status %x\"}\n", (unsigned long long)seed, st);
      fflush(jout);
    }
    if (viol && ++nviol >= o.maxviol) break;
    if (o.only >= 0) break;
  }
  fprintf(jout, "{\"t\":\"end\",\"wall\":%.3f}\n", wall() - t0);
  return nviol ? 1 : 0;
}
static int replay(const char* path, int verbose) {
  FILE* f = fopen(path, "r"); if (!f) { perror(path); return 2; }
  char line[8192], camp[100] = "", kind[100] = ""; Case cs; int id = 0; size_t n = 0; Evs e; cs.verbose = verbose;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    unsigned long long s;
    if (sscanf(line, "campaign %99s", camp) == 1) continue;
    if (sscanf(line, "seed %llu", &s) == 1) { cs.seed = s; continue; }
    if (sscanf(line, "tier %d", &cs.tier) == 1) continue;
    if (sscanf(line, "variant %d", &id) == 1) continue;
    if (sscanf(line, "kind %99s", kind) == 1) continue;
    if (sscanf(line, "events %zu", &n) == 1) break;
  }
  for (size_t i = 0; i < n; i++) { int t; unsigned long long a, c; long long b; if (fscanf(f, "%d %llu %lld %llu", &t, &a, &b, &c) != 4) break; e.push_back(Ev{t, a, b, c}); }
  fclose(f);
  for (auto& C : regs()) if (!strcmp(C.name, camp)) {
    case_reset();
    int st = in_fork([&]() {
      silence(cs.verbose);
      bool ok = C.setup(cs);
      if (!ok) _exit(0);
      Variant v; v.id = id; v.replay = true; v.ev = e;
      VRes r = run_variant(C, cs, v);
      if (r.bad) { fprintf(jout, "REPRODUCED kind=%s %s\n", r.kind.c_str(), r.detail.c_str()); fflush(jout); _exit(1); }
      _exit(0);
    }, 600);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
    if (shm->rep.violated) { fprintf(jout, "REPRODUCED kind=%s %s\n", shm->rep.kind, shm->rep.detail); return 1; }
    fprintf(jout, "not reproduced\n"); return 0;
  }
  fprintf(stderr, "unknown campaign %s\n", camp); return 2;
}
}  // namespace drv
using namespace drv;

void sim_violation(const char* kind, const char* fmt, ...) {
  mem::Pause mp; va_list a; va_start(a, fmt); finish_report(kind, fmt, a); _Exit(77);
}
void sim_soft_violation(const char* kind, const char* fmt, ...) {
  mem::Pause mp; va_list a; va_start(a, fmt); finish_report(kind, fmt, a); _Exit(77);
}

int main(int argc, char** argv) {
  // fixed address-space layout
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("TRVSIM_REEXEC")) {
    setenv("TRVSIM_REEXEC", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  for (const char* v : {"OMP_NUM_THREADS", "OMP_SCHEDULE", "TRV_OVERRIDE_BOXSIZE"}) unsetenv(v);
  Opts o; std::string cmd = argc > 1 ? argv[1] : "";
  std::string file;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--campaign") o.campaign = nx(); else if (a == "--seed") o.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--start") o.start = atol(nx().c_str()); else if (a == "--stride") o.stride = atol(nx().c_str());
    else if (a == "--count") o.count = atol(nx().c_str()); else if (a == "--secs") o.secs = atof(nx().c_str());
    else if (a == "--minsecs") o.minsecs = atof(nx().c_str());
    else if (a == "--tier") o.tier = atoi(nx().c_str()); else if (a == "--cpu") o.cpu = atoi(nx().c_str());
    else if (a == "--replaydir") o.replaydir = nx(); else if (a == "--only") o.only = atoi(nx().c_str());
    else if (a == "--maxviol") o.maxviol = atoi(nx().c_str()); else if (a == "-v") o.verbose++;
    else file = a;
  }
  if (o.replaydir.empty()) o.replaydir = ".";
  if (o.cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(o.cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
  else {  // one processor: only one simulated thread runs at a time anyway
    cpu_set_t cs; if (!sched_getaffinity(0, sizeof cs, &cs)) { int c = sched_getcpu(); if (c >= 0 && CPU_ISSET(c, &cs)) { CPU_ZERO(&cs); CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); } }
  }
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  jout = fdopen(dup(1), "w");
  g_report = &shm->rep;
  vfs::init_shared();
  if (cmd == "list") { for (auto& c : regs()) printf("%s %s\n", c.name, c.property); return 0; }
  if (cmd == "replay") return replay(file.c_str(), o.verbose);
  if (cmd == "run") {
    for (auto& c : regs()) if (o.campaign == c.name) return run_cases(c, o);
    fprintf(stderr, "unknown campaign %s\n", o.campaign.c_str()); return 2;
  }
  fprintf(stderr, "usage: trvsim run|replay|list\n"); return 2;
}

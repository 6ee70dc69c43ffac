// Campaign framework: one case = one seed; a case is set up once (workload,
// reference runs) and every variant runs in a fork of that state.
#pragma once
#include "sim.h"
#include <complex>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace drv {
// One event of a schedule or fault trace (what replay files hold and the
// minimiser removes).
enum EvType { E_SWITCH = 0, E_IO = 1, E_ALLOC = 2, E_CLOCK = 3, E_CRASH = 4, E_MISC = 5 };
struct Ev { int type; uint64_t a; int64_t b; uint64_t c; };
typedef std::vector<Ev> Evs;

struct Variant {
  int id = 0;
  bool replay = false;      // use ev instead of drawing events
  Evs ev;
};

struct Counter { char name[40]; uint64_t v; };
static const size_t EVCAP = 3000000;
struct Shm {
  Report rep;
  uint64_t nev; int ev_variant;
  Counter ctr[160]; int nctr;
  uint64_t racy_n; uint64_t racy[512];
  uint64_t nhash; uint64_t hash[4096];
  int64_t sim_ns;
  char sample[1500];
  int variant_ok;
  uint64_t scratch[4096];
  char blob[1 << 20]; uint64_t nblob;
  Ev ev[EVCAP];
};
extern Shm* shm;

void count(const char* name, uint64_t n = 1);
void state_hash(uint64_t h);          // a distinct interleaving / state reached
void sample(const char* fmt, ...);    // description of the case (first call wins)
// record the fault events of the current variant (the schedule is added on violation)
void set_events(const Evs& e);
extern bool g_rec_sched;              // add rt::trace to the events on violation
mvec<rt::Switch> sched_of(const Variant& v);
Evs events_of(const Variant& v, int type);

struct Case {
  uint64_t seed = 0;
  int tier = 0;             // 0 quick, 1 thorough
  void* w = nullptr;        // workload
  int verbose = 0;
};
struct Campaign {
  const char* name;
  const char* property;
  bool (*setup)(Case&);                 // false: nothing to explore for this seed
  int (*nvariants)(Case&);
  void (*exec)(Case&, Variant&);        // runs in a fork; reports via sim_violation
  int mem_mb;
};
void reg(const Campaign& c);
struct Reg { Reg(const Campaign& c) { reg(c); } };

// ---- results --------------------------------------------------------------
struct Out {
  struct Sec { std::string name; int kind; double floor; std::vector<double> v; };
  std::vector<Sec> s;
  std::string err;          // exception class when the call failed
  void I(const char* n, const std::vector<int>& x) { Sec q{n, 0, 0, {}}; q.v.assign(x.begin(), x.end()); s.push_back(q); }
  void I1(const char* n, double x) { Sec q{n, 0, 0, {x}}; s.push_back(q); }
  void D(const char* n, const std::vector<double>& x, double floor = 0) { s.push_back(Sec{n, 1, floor, x}); }
  void E(const char* n, const std::vector<double>& x) { s.push_back(Sec{n, 0, 0, x}); }
  void D1(const char* n, double x, double floor = 0) { s.push_back(Sec{n, 1, floor, {x}}); }
  void Z(const char* n, const std::vector<std::complex<double>>& x, double floor = 0) {
    Sec q{n, 1, floor, {}}; for (auto& c : x) { q.v.push_back(c.real()); q.v.push_back(c.imag()); } s.push_back(q);
  }
};
// maximal deviation per section between equally shaped outputs
std::vector<double> spread(const Out& a, const Out& b);
// empty string: equal up to tolerance
std::string compare(const Out& ref, const Out& got, const std::vector<double>& spr, double rel = 1e-9, double mult = 1e3);
std::string describe_exception();
// runs f in a forked child; returns wait status (signals are reported as such)
extern void (*abort_hook)();   // an abort on memory exhausted inside a parallel region ends the run with status 134
int in_fork(const std::function<void()>& f, int cpu_s = 120);
}

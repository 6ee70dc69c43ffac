// Seeded measurement workloads shared by the native campaigns.
#pragma once
#include "drv.h"
#include "monitor.hpp"
#include "parameters.hpp"
#include "particles.hpp"
#include "dataobjs.hpp"
#include "field.hpp"
#include "twopt.hpp"
#include "threept.hpp"
#include "io.hpp"
#include "fftlog.hpp"

namespace wl {
struct Particles { std::vector<double> x, y, z, nz, ws, wc; };
struct W {
  // measurement kind: statistic type + catalogue type
  std::string stat, cat, assignment, interlace, alignment, padscale, form, binning, fftw, progbar, norm;
  double box[3]; int ng[3]; double padfactor; int ell1, ell2, ELL, i_wa, j_wa, nb, idx; double bmin, bmax;
  bool custom_edges; std::vector<double> edges; int verbose;
  std::string wisdom;               // wisdom directory ("" none)
  Particles d, r;
  bool norms;                       // evaluate the normalisation factors too
  double nmeshes_cell;
  std::string describe() const;
};
// how one run of a workload is executed
struct RunCfg { int threads = 1; uint64_t perm = 0; };
W gen(Rng& r, int npoint, int tier);        // npoint 2 or 3
Particles gen_particles(Rng& r, int n, const double lo[3], const double span[3], const double* cell, bool unit_w);
void to_params(const W& w, trv::ParameterSet& p);
// full measurement as a user performs it; exceptions are recorded in Out::err
drv::Out measure(const W& w, uint64_t perm = 0);
std::vector<double> permuted(const std::vector<double>& v, uint64_t perm);
void counters(drv::Out& o);
struct Quiet { Quiet(); };
int pick_threads(Rng& r);
// schedule configuration of a variant; base on the estimated number of steps
rt::Cfg sched_cfg(Rng& r, int nthr, uint64_t est);
// the simulated environment around one piece of code under test
void sim_begin(const rt::Cfg& c, uint64_t seed, int fill, bool planner_faults = false);
void sim_end();
// one schedule variant: draws (or replays) the schedule, runs f, records statistics
struct SR { int nthr = 1; int fill = 0; uint64_t seed = 1; };
SR run_scheduled(drv::Case& cs, drv::Variant& v, Rng& r, const std::function<void()>& f, bool planner_faults = false);
void run_reference(uint64_t seed, int fill, const std::function<void()>& f);
}

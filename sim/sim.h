// Deterministic simulator for the native part of Triumvirate.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <new>
#include <vector>
#include <string>

// ---- PRNG -----------------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed ^ 0x9E3779B97F4A7C15ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unif() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unif() < p; }
};
static inline uint64_t mix64(uint64_t a, uint64_t b) {
  Rng r(a * 0x2545F4914F6CDD1Dull + b); return r.next();
}

// malloc-based allocator: simulator bookkeeping never goes through the
// simulated heap.
template <class T> struct MA {
  typedef T value_type;
  MA() {}
  template <class U> MA(const MA<U>&) {}
  T* allocate(size_t n) { return (T*)::malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { ::free(p); }
};
template <class T, class U> bool operator==(const MA<T>&, const MA<U>&) { return true; }
template <class T, class U> bool operator!=(const MA<T>&, const MA<U>&) { return false; }
template <class T> using mvec = std::vector<T, MA<T>>;

// ---- scheduler --------------------------------------------------------
namespace rt {
enum Mode { SEQ = 0, RANDOM = 1, PCT = 2, HUNT = 3, REPLAY = 4 };
struct Switch { uint64_t step; int target; int forced; };
struct Cfg {
  int nthr = 1;
  int mode = SEQ;
  double p = 0;            // per-step switch probability (RANDOM)
  double psync = 0;        // switch probability at synchronisation points
  int depth = 3;           // PCT change points
  uint64_t est_steps = 0;  // PCT horizon
  uint64_t seed = 1;
  bool detect = false;     // conflict detection, fills the racy-PC set
  bool atomics = false;    // HUNT also at atomic accesses
  bool shuffle_start = false;
  uint64_t step_limit = 4000000000ull;
  const mvec<Switch>* replay = nullptr;
};
struct Stats {
  uint64_t steps = 0, switches = 0, forced = 0, regions = 0, mt_regions = 0, barriers = 0,
           criticals = 0, chunks = 0, atomics = 0, racy_pcs = 0, postpones = 0, hits = 0;
  uint64_t hash = 1469598103934665603ull;  // hash of the decision sequence
};
void begin(const Cfg&);
void end();
extern Stats stats;
extern mvec<Switch> trace;       // decisions taken between begin and end
extern mvec<uint64_t> racy;      // racy program counters
void clear_racy();
void load_racy(uint64_t pc);
bool in_parallel();
bool in_region();
void yield_point();              // synchronisation point
}

// ---- memory -----------------------------------------------------------
namespace mem {
struct Cfg {
  int fill = 0;              // 0 zero, 1 NaN, 2 random doubles, 3 random bytes
  uint64_t seed = 1;
  int64_t fail_at = -1;      // index of the tracked allocation that fails
  int64_t fail_count = 1;
};
void begin(const Cfg&);      // starts tracking allocations of code under test
void end();
extern int64_t n_alloc, n_failed, n_failed_region;   // the last: failed inside a parallel region
struct Leak { void* p; size_t size; int kind; int64_t seq; uint64_t pc; };
// live blocks allocated since begin
mvec<Leak> live();
int64_t live_bytes();
int64_t peak_grid_bytes();
struct Pause { int saved; Pause(); ~Pause(); };  // untracked section (driver code)
void check_all_redzones();
void check_block(const void* p, size_t n, const char* what);   // n bytes from p lie in one live block
extern uint64_t n_ops;
}

// ---- virtual clock ----------------------------------------------------
namespace vclock {
// wall-clock jumps happen at given reads of any clock; a stall (mono) moves
// the monotonic clock forward as well
struct Jump { uint64_t read; int64_t ns; int mono; };
struct Cfg { uint64_t seed = 1; std::vector<Jump> jumps; };
void begin(const Cfg&);
void end();
extern int64_t now_ns;        // monotonic time
extern uint64_t reads, jumps;
extern int64_t covered_ns;
}

// ---- virtual file system ------------------------------------------------
namespace vfs {
enum Fault {
  F_NONE = 0, F_OPEN_FAIL, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_READ_TRUNC,
  F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_CLOSE_EIO, F_MKDIR_FAIL, F_STAT_FAIL,
  F_CRASH, F_CHANGED, F_READ_ZERO, F_NKINDS
};
extern const char* fault_names[F_NKINDS];
struct FaultAt { uint64_t op; int kind; uint64_t arg; };
struct OpRec { uint8_t op; int16_t inode; int32_t len; uint8_t fault; };
enum OpKind { O_OPEN_R = 1, O_OPEN_W, O_READ, O_WRITE, O_CLOSE, O_MKDIR, O_STAT, O_UNLINK, O_RENAME };
extern const char* op_names[];
int open_files();             // of this process
void init_shared();           // call once before forking
void reset();                 // empty file system with "/"
void put(const char* path, const char* data, size_t n);
void mkdirs(const char* path);
void remove_file(const char* path);
bool exists(const char* path, bool* isdir = nullptr);
std::string get(const char* path);
std::vector<std::string> list();
void activate(bool on);       // route I/O of this process to the VFS
bool active();
void set_faults(const std::vector<FaultAt>& f, const char* scope = "");
void clear_log();
uint64_t n_ops();             // operations since clear_log
uint64_t n_scoped_ops();
std::vector<OpRec> oplog();
uint64_t fired(int kind);
void clear_fired();
bool crashed();
int open_handles();
void close_all_handles();
// journal: everything changed since mark(); crash() keeps a seeded prefix
void mark();
void crash_state(uint64_t seed, int mode);
uint64_t content_hash();
void set_bufseed(uint64_t s);
}

// ---- FFTW shim ----------------------------------------------------------
namespace fsh {
struct Cfg {
  uint64_t seed = 1;
  int scribble = 1;       // 0 off, 1 scribble when the flags allow it
  int vary = 1;           // choose plan variant at random
  double p_planfail = 0;
};
void begin(const Cfg&);
void end();
int64_t live_plans();
extern uint64_t plans, scribbles, wis_imports, wis_exports, variants;
}

// ---- violation reporting from inside the simulated process ---------------
[[noreturn]] void sim_violation(const char* kind, const char* fmt, ...);
void sim_soft_violation(const char* kind, const char* fmt, ...);
struct Report {
  volatile int done;
  volatile int violated;
  char kind[64];
  char detail[2000];
};
extern Report* g_report;      // shared with the parent process
extern volatile int g_oob_on; // heap access checking
uint64_t text_base();

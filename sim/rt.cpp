// Simulated OpenMP runtime, thread scheduler and memory-access hooks.
#include "sim.h"
#include "arena.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <dlfcn.h>
#include <climits>

#define RA ((uint64_t)__builtin_return_address(0))
#define EXP extern "C" __attribute__((visibility("default")))

namespace rt {
Stats stats;
mvec<Switch> trace;
mvec<uint64_t> racy;
static uint8_t racy_bits[1 << 16];
static const int MAXT = 72;
static int NT = 1;                  // threads that exist in this process

enum St { IDLE, RUN, BLOCKED };
struct Team;
struct Thr {
  int futex_word; int id; St st; pthread_t pt; bool made;
  void (*fn)(void*); void* data; Team* team; int tid; const void* key;
  int64_t prio; uintptr_t slo, shi; uint64_t locks; int ws_idx;
  bool postponed; uintptr_t paddr; int psz;
  Team* save_team; int nest;
  int single_cnt;
};
struct WS {
  bool init; long next, end, incr, chunk; int kind;  // kind 0 dynamic 1 guided 2 static
  unsigned long long unext, uend, uincr; bool up;
  int done; bool copyset; void* copy; long ordered_next;
};
struct Team {
  int n; int arrived; uint64_t bgen; int finished; mvec<WS*> ws; int id;
};
static Thr thr[MAXT];
static int cur = 0;
static bool g_on = false;          // inside begin/end
static bool g_multi = false;       // more than one thread may run
static uint64_t g_step, g_next;
static bool g_slow;
static Cfg cfg;
static Rng rng(1);
static pid_t owner = 0;
static size_t rpos;
static int par_depth = 0;
bool in_region() { return par_depth > 0; }
static uint64_t quantum_start;
static int pending_release = -1;   // postponed thread released at the next point
static int ntasks_default = 1;
static mvec<uint64_t> change_pts;
static int64_t low = -1;
static size_t change_pos;

static void fwait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void wait_go(int me) {
  while (!__atomic_load_n(&thr[me].futex_word, __ATOMIC_ACQUIRE)) fwait(&thr[me].futex_word, 0);
  __atomic_store_n(&thr[me].futex_word, 0, __ATOMIC_RELEASE);
}
static void handoff(int to) {
  int me = cur;
  if (to == me) return;
  cur = to;
  quantum_start = g_step;
  __atomic_store_n(&thr[to].futex_word, 1, __ATOMIC_RELEASE);
  fwake(&thr[to].futex_word);
  wait_go(me);
}

// ---- conflict detection ----------------------------------------------
struct Ent { uintptr_t g; uint32_t epoch; int8_t wt, r1t, r2t; uint8_t wm, r1m, r2m;
             uint64_t wpc, r1pc, r2pc; uint64_t wl, r1l, r2l; };
static Ent* tab; static const size_t TABN = 1 << 18; static uint32_t epoch = 1; static size_t tabused;
static void add_racy(uint64_t pc) {
  for (auto x : racy) if (x == pc) return;
  if (racy.size() >= 512) return;
  racy.push_back(pc);
  racy_bits[(pc ^ (pc >> 16)) & 0xffff] = 1;
  stats.racy_pcs = racy.size();
}
static inline bool is_racy(uint64_t pc) {
  if (!racy_bits[(pc ^ (pc >> 16)) & 0xffff]) return false;
  for (auto x : racy) if (x == pc) return true;
  return false;
}
static void new_epoch() { epoch++; tabused = 0; }
static void detect1(uintptr_t g, uint8_t m, int wr, uint64_t pc, uint64_t lk) {
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 46;
  Ent* e;
  for (int i = 0;; i++) {
    e = &tab[(h + i) & (TABN - 1)];
    if (e->epoch != epoch) {
      if (tabused > TABN / 2) return;
      tabused++;
      memset(e, 0, sizeof *e); e->g = g; e->epoch = epoch; e->wt = e->r1t = e->r2t = -1; break;
    }
    if (e->g == g) break;
    if (i > 64) return;
  }
  int t = cur;
  if (e->wt >= 0 && e->wt != t && (e->wm & m) && !(e->wl & lk)) { add_racy(e->wpc); add_racy(pc); }
  if (wr) {
    if (e->r1t >= 0 && e->r1t != t && (e->r1m & m) && !(e->r1l & lk)) { add_racy(e->r1pc); add_racy(pc); }
    if (e->r2t >= 0 && e->r2t != t && (e->r2m & m) && !(e->r2l & lk)) { add_racy(e->r2pc); add_racy(pc); }
    if (e->wt == t) { e->wm |= m; e->wl &= lk; e->wpc = pc; }
    else { e->wt = t; e->wm = m; e->wl = lk; e->wpc = pc; }
  } else {
    if (e->r1t < 0 || e->r1t == t) { e->r1l = e->r1t == t ? (e->r1l & lk) : lk; e->r1t = t; e->r1m |= m; e->r1pc = pc; }
    else { e->r2l = e->r2t == t ? (e->r2l & lk) : lk; e->r2m = (e->r2t == t ? e->r2m : 0) | m; e->r2t = t; e->r2pc = pc; }
  }
}
static void detect(uintptr_t x, int sz, int wr, uint64_t pc, bool atomic) {
  Thr& T = thr[cur];
  if (cur != 0 && x >= T.slo && x < T.shi) return;
  uint64_t lk = T.locks | (atomic ? 1ull << 63 : 0);
  uintptr_t g = x >> 3;
  int off = x & 7;
  while (sz > 0) {
    int n = 8 - off < sz ? 8 - off : sz;
    uint8_t m = (uint8_t)(((1u << n) - 1) << off);
    detect1(g, m, wr, pc, lk);
    g++; sz -= n; off = 0;
  }
}

// ---- decisions ----------------------------------------------------------
static void record(int target, int forced) {
  trace.push_back(Switch{g_step, target, forced});
  stats.hash = (stats.hash ^ (g_step * 31 + target)) * 1099511628211ull;
}
static int default_next() {
  for (int i = 1; i <= NT; i++) { int j = (cur + i) % NT; if (thr[j].st == RUN && j != cur) return j; }
  return -1;
}
static int pick_other(bool forced) {
  // choose a runnable thread other than cur
  int cand[MAXT], n = 0;
  for (int pass = 0; pass < 2 && !n; pass++)
    for (int i = 0; i < NT; i++)
      if (thr[i].st == RUN && i != cur && (pass || !thr[i].postponed)) cand[n++] = i;
  if (!n) return -1;
  switch (cfg.mode) {
    case SEQ: return default_next();
    case PCT: { int b = cand[0]; for (int i = 1; i < n; i++) if (thr[cand[i]].prio > thr[b].prio) b = cand[i]; return b; }
    default: return cand[rng.below(n)];
  }
}
static void set_next();
static void set_next() {
  switch (cfg.mode) {
    case RANDOM: {
      if (cfg.p <= 0) { g_next = UINT64_MAX; break; }
      double u = rng.unif();
      uint64_t gap = 1 + (uint64_t)(-__builtin_log(1 - u) / cfg.p);
      g_next = g_step + gap; break;
    }
    case PCT:
      g_next = change_pos < change_pts.size() ? change_pts[change_pos] : UINT64_MAX; break;
    case REPLAY: {
      while (rpos < cfg.replay->size() && (*cfg.replay)[rpos].step < g_step) rpos++;
      g_next = rpos < cfg.replay->size() ? (*cfg.replay)[rpos].step : UINT64_MAX; break;
    }
    default: g_next = UINT64_MAX;
  }
  if (g_next > quantum_start + 20000000 && g_multi) {
    if (g_next > g_step + 20000000) g_next = g_step + 20000000;
  }
}
static void voluntary(int to) {
  if (to < 0 || to == cur) return;
  if (thr[to].postponed) thr[to].postponed = false;
  record(to, 0);
  stats.switches++;
  handoff(to);
  ++g_step;  // every decision gets its own step number
}
static void forced_switch() {
  // current thread cannot continue
  int d = default_next(), to = -1;
  if (d < 0) sim_violation("deadlock", "all simulated threads are blocked at step %llu", (unsigned long long)g_step);
  if (cfg.mode == REPLAY) {
    while (rpos < cfg.replay->size() && (*cfg.replay)[rpos].step < g_step) rpos++;
    to = d;
    for (size_t i = rpos; i < cfg.replay->size() && (*cfg.replay)[i].step == g_step; i++)
      if ((*cfg.replay)[i].forced) { int t = (*cfg.replay)[i].target; if (t >= 0 && t < MAXT && thr[t].st == RUN) to = t; rpos = i + 1; break; }
    set_next();
  } else to = pick_other(true);
  if (thr[to].postponed) thr[to].postponed = false;
  if (to != d) record(to, 1);
  stats.forced++;
  handoff(to);
}
static __attribute__((noinline)) void timed() {
  if (g_step > cfg.step_limit) sim_violation("no-progress", "step limit %llu exceeded", (unsigned long long)cfg.step_limit);
  switch (cfg.mode) {
    case RANDOM: { int t = pick_other(false); set_next(); voluntary(t); set_next(); break; }
    case PCT: {
      if (change_pos < change_pts.size() && g_step >= change_pts[change_pos]) { change_pos++; thr[cur].prio = low--; }
      else thr[cur].prio = low--;
      int t = pick_other(false);
      set_next();
      if (t >= 0 && thr[t].prio > thr[cur].prio) voluntary(t);
      break;
    }
    case REPLAY: {
      for (;;) {
        while (rpos < cfg.replay->size() && (*cfg.replay)[rpos].step < g_step) rpos++;
        if (rpos >= cfg.replay->size() || (*cfg.replay)[rpos].step != g_step || (*cfg.replay)[rpos].forced) break;
        int t = (*cfg.replay)[rpos].target; rpos++;
        if (t >= 0 && t < MAXT && t != cur && thr[t].st == RUN) voluntary(t); else break;
      }
      set_next(); if (g_next <= g_step) g_next = g_step + 1;
      break;
    }
    default: { // SEQ / HUNT: fairness quantum
      quantum_start = g_step; int t = pick_other(false); set_next(); voluntary(t); set_next();
    }
  }
}
static __attribute__((noinline)) void slow(uintptr_t x, int sz, int wr, uint64_t pc, bool atomic) {
  if (g_step >= g_next) { timed(); }
  if (cfg.mode == HUNT) {
    if (pending_release >= 0) {
      int t = pending_release; pending_release = -1;
      if (thr[t].st == RUN && thr[t].postponed) { stats.hits++; voluntary(t); }
    }
    if (x && (is_racy(pc) || (atomic && cfg.atomics)) && stats.postpones < 6000) {
      int victim = -1;
      for (int i = 0; i < NT; i++)
        if (i != cur && thr[i].postponed && thr[i].paddr < x + sz && x < thr[i].paddr + thr[i].psz) { victim = i; break; }
      if (victim >= 0) { if (wr) pending_release = victim; }
      else if (rng.chance(cfg.p)) {
        Thr& T = thr[cur]; T.paddr = x; T.psz = sz; T.postponed = true; stats.postpones++;
        int t = pick_other(false);
        if (t >= 0 && !thr[t].postponed) voluntary(t);
        else { T.postponed = false; if (t >= 0 && rng.chance(0.5)) voluntary(t); }
        thr[cur].postponed = false;
      }
    }
  }
  if (cfg.detect && x) detect(x, sz, wr, pc, atomic);
}
static inline __attribute__((always_inline)) void acc(const volatile void* a, int sz, int wr, uint64_t pc, bool atomic = false) {
  uintptr_t x = (uintptr_t)a;
  if (x - ARENA_BASE < ARENA_SIZE) arena_check(x, sz, wr, pc);
  if (!g_multi) return;
  ++g_step;
  if (g_step < g_next && !g_slow) return;
  slow(x, sz, wr, pc, atomic);
}
static void sync_point() {
  if (!g_multi) return;
  ++g_step;
  if (g_step >= g_next) timed();
  if (cfg.mode == REPLAY || cfg.mode == SEQ || cfg.mode == PCT) return;
  if (cfg.psync > 0 && rng.chance(cfg.psync)) { int t = pick_other(false); voluntary(t); }
}
void yield_point() { sync_point(); }
static void block_on(const void* key) {
  ++g_step;
  thr[cur].st = BLOCKED; thr[cur].key = key;
  forced_switch();
}
static void wake(const void* key) {
  for (int i = 0; i < NT; i++) if (thr[i].st == BLOCKED && thr[i].key == key) { thr[i].st = RUN; thr[i].key = nullptr; }
}

// ---- worker threads -------------------------------------------------------
static void* worker(void* p) {
  int id = (int)(intptr_t)p;
  pthread_attr_t at; void* lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  thr[id].slo = (uintptr_t)lo; thr[id].shi = (uintptr_t)lo + sz;
  for (;;) {
    wait_go(id);
    Thr& T = thr[id];
    T.fn(T.data);
    // finished
    T.st = IDLE; T.postponed = false;
    Team* tm = T.team;
    tm->finished++;
    ++g_step;
    if (tm->finished == tm->n - 1) wake(tm);
    int d = default_next();
    // hand off without waiting to be resumed here: the loop waits
    int to = d;
    if (cfg.mode == REPLAY) {
      while (rpos < cfg.replay->size() && (*cfg.replay)[rpos].step < g_step) rpos++;
      for (size_t i = rpos; i < cfg.replay->size() && (*cfg.replay)[i].step == g_step; i++)
        if ((*cfg.replay)[i].forced) { int t = (*cfg.replay)[i].target; if (t >= 0 && t < MAXT && thr[t].st == RUN) to = t; rpos = i + 1; break; }
      set_next();
    } else to = pick_other(true);
    if (to < 0) sim_violation("deadlock", "thread %d finished and nobody can run", id);
    if (thr[to].postponed) thr[to].postponed = false;
    if (to != d) record(to, 1);
    stats.forced++;
    cur = to; quantum_start = g_step;
    __atomic_store_n(&thr[to].futex_word, 1, __ATOMIC_RELEASE);
    fwake(&thr[to].futex_word);
  }
  return nullptr;
}
static void ensure_threads(int n) {
  if (owner != getpid()) {
    owner = getpid();
    for (int i = 0; i < MAXT; i++) { memset((void*)&thr[i], 0, sizeof(Thr)); thr[i].id = i; }
    cur = 0; thr[0].st = RUN; NT = 1;
  }
  if (n > NT) NT = n;
  for (int i = 1; i < n; i++) if (!thr[i].made) {
    thr[i].made = true; thr[i].st = IDLE;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&thr[i].pt, &at, worker, (void*)(intptr_t)i)) { fprintf(stderr, "pthread_create failed\n"); _exit(70); }
    pthread_attr_destroy(&at);
    while (!__atomic_load_n(&thr[i].shi, __ATOMIC_ACQUIRE)) sched_yield();
  }
}
void load_racy(uint64_t pc) { add_racy(pc); }
void clear_racy() { racy.clear(); memset(racy_bits, 0, sizeof racy_bits); stats.racy_pcs = 0; }
bool in_parallel() { return g_multi; }
void begin(const Cfg& c) {
  cfg = c; if (cfg.nthr > MAXT) cfg.nthr = MAXT;
  ensure_threads(cfg.nthr);
  rng = Rng(c.seed); trace.clear(); uint64_t rp = stats.racy_pcs; stats = Stats(); stats.racy_pcs = rp;
  g_step = 0; quantum_start = 0; rpos = 0; pending_release = -1; g_on = true; low = -1; change_pos = 0;
  change_pts.clear();
  for (int i = 0; i < MAXT; i++) { thr[i].prio = (int64_t)(rng.next() >> 2); thr[i].postponed = false; thr[i].locks = 0; }
  if (c.mode == PCT) {
    for (int i = 0; i < c.depth; i++) change_pts.push_back(1 + rng.below(c.est_steps ? c.est_steps : 100000));
    for (size_t i = 0; i < change_pts.size(); i++) for (size_t j = i + 1; j < change_pts.size(); j++)
      if (change_pts[j] < change_pts[i]) std::swap(change_pts[i], change_pts[j]);
  }
  g_slow = c.detect || c.mode == HUNT;
  if (c.detect && !tab) tab = (Ent*)calloc(TABN, sizeof(Ent));
  ntasks_default = cfg.nthr;
  set_next();
}
void end() { stats.steps = g_step; g_on = false; g_multi = false; ntasks_default = 1; g_slow = false; }

// ---- teams -------------------------------------------------------------------
static Team solo;
static int team_size(unsigned n) {
  if (!g_on || par_depth > 0) return 1;
  int k = n ? (int)n : ntasks_default;
  return k > MAXT ? MAXT : (k < 1 ? 1 : k);
}
static void region(void (*fn)(void*), void* data, unsigned nreq, WS* pre) {
  int n = team_size(nreq);
  Thr& M = thr[cur];
  if (g_on) stats.regions++;
  Team* old = M.team; int oldtid = M.tid, oldws = M.ws_idx, oldsc = M.single_cnt;
  Team tm; tm.n = n; tm.arrived = 0; tm.bgen = 0; tm.finished = 0;
  if (pre) { tm.ws.push_back(pre); }
  M.team = &tm; M.tid = 0; M.ws_idx = pre ? -1 : 0; M.single_cnt = 0;
  if (pre) M.ws_idx = 1;  // the pre-initialised work share is index 0, already entered
  if (n == 1) {
    par_depth++;
    fn(data);
    par_depth--;
  } else {
    ensure_threads(n);
    stats.mt_regions++;
    int base = par_depth; par_depth = 1;
    new_epoch();
    for (int i = 1; i < n; i++) {
      Thr& W = thr[i];
      W.fn = fn; W.data = data; W.team = &tm; W.tid = i; W.st = RUN; W.ws_idx = pre ? 1 : 0; W.single_cnt = 0;
      W.locks = 0; W.postponed = false; W.key = nullptr;
      if (cfg.mode == PCT) W.prio = (int64_t)(rng.next() >> 2);
    }
    if (cfg.mode == PCT) M.prio = (int64_t)(rng.next() >> 2);
    g_multi = true; quantum_start = g_step;
    set_next(); if (g_next <= g_step) g_next = g_step + 1;
    ++g_step;
    if (cfg.mode == REPLAY) { if (g_step >= g_next) timed(); }
    else if (cfg.mode != SEQ || cfg.shuffle_start) {
      uint64_t k = rng.below(n);
      if (cfg.mode == PCT) { int t = pick_other(false); if (t >= 0 && thr[t].prio > M.prio) voluntary(t); }
      else if (k) { voluntary((int)k); }
    }
    fn(data);
    while (tm.finished < n - 1) block_on(&tm);
    g_multi = false; par_depth = base;
    M.postponed = false;
    new_epoch();
  }
  for (size_t i = 0; i < tm.ws.size(); i++) if (tm.ws[i] != pre) free(tm.ws[i]);
  if (pre) free(pre);
  M.team = old; M.tid = oldtid; M.ws_idx = oldws; M.single_cnt = oldsc;
}
static Team* myteam() {
  Thr& T = thr[cur];
  if (T.team) return T.team;
  // orphaned construct outside a parallel region
  for (size_t i = 0; i < solo.ws.size(); i++) free(solo.ws[i]);
  solo.ws.clear(); solo.n = 1; T.ws_idx = 0; return &solo;
}
static void barrier() {
  Thr& T = thr[cur]; Team* tm = T.team;
  if (!tm || tm->n == 1) return;
  stats.barriers++;
  sync_point();
  uint64_t g = tm->bgen;
  if (++tm->arrived == tm->n) { tm->arrived = 0; tm->bgen++; new_epoch(); wake(&tm->bgen); sync_point(); }
  else while (tm->bgen == g) block_on(&tm->bgen);
}
static WS* cur_ws(bool enter, bool* first) {
  Team* tm = myteam(); Thr& T = thr[cur];
  if (enter) {
    size_t i = T.ws_idx++;
    while (tm->ws.size() <= i) { WS* w = (WS*)calloc(1, sizeof(WS)); tm->ws.push_back(w); }
    if (first) *first = !tm->ws[i]->init;
    return tm->ws[i];
  }
  return tm->ws[T.ws_idx - 1];
}
static int my_n() { return thr[cur].team ? thr[cur].team->n : 1; }
static bool ws_next(WS* w, long* is, long* ie) {
  sync_point();
  // chunk hand-out points interleave even in non-preemptive modes
  if (g_multi && cfg.mode == SEQ && cfg.detect && rng.chance(0.5)) { int t = pick_other(false); voluntary(t); }
  stats.chunks++;
  long n = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->end - w->next + w->incr + 1) / w->incr;
  if ((w->incr > 0 && w->next >= w->end) || (w->incr < 0 && w->next <= w->end) || n <= 0) return false;
  long c = w->chunk < 1 ? 1 : w->chunk;
  if (w->kind == 1) { long q = (n + my_n() - 1) / my_n(); if (q > c) c = q; }
  if (c > n) c = n;
  *is = w->next; w->next += c * w->incr; *ie = w->next;
  if ((w->incr > 0 && *ie > w->end) || (w->incr < 0 && *ie < w->end)) *ie = w->end;
  return true;
}
static void ws_setup(WS* w, int kind, long s, long e, long inc, long chunk) {
  w->init = true; w->kind = kind == 2 ? 0 : kind; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk;
  if (kind == 2 && chunk <= 0) {
    long n = inc > 0 ? (e - s + inc - 1) / inc : (e - s + inc + 1) / inc;
    w->chunk = n > 0 ? (n + my_n() - 1) / my_n() : 1;
  }
}
static bool ws_nextu(WS* w, unsigned long long* is, unsigned long long* ie) {
  sync_point();
  if (g_multi && cfg.mode == SEQ && cfg.detect && rng.chance(0.5)) { int t = pick_other(false); voluntary(t); }
  stats.chunks++;
  unsigned long long n;
  if (w->up) { if (w->unext >= w->uend) return false; n = (w->uend - w->unext + w->uincr - 1) / w->uincr; }
  else { if (w->unext <= w->uend) return false; unsigned long long d = 0 - w->uincr; n = (w->unext - w->uend + d - 1) / d; }
  unsigned long long c = w->chunk < 1 ? 1 : w->chunk;
  if (w->kind == 1) { unsigned long long q = (n + my_n() - 1) / my_n(); if (q > c) c = q; }
  if (c > n) c = n;
  *is = w->unext; w->unext += c * w->uincr; *ie = w->unext;
  if (c == n) { *ie = w->uend; w->unext = w->uend; }
  return true;
}
static void ws_setupu(WS* w, int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk) {
  w->init = true; w->kind = kind == 2 ? 0 : kind; w->up = up; w->unext = s; w->uend = e; w->uincr = inc; w->chunk = (long)chunk;
  if (kind == 2 && chunk == 0) {
    unsigned long long n = up ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + (0 - inc) - 1) / (0 - inc) : 0);
    w->chunk = n ? (long)((n + my_n() - 1) / my_n()) : 1;
  }
}
// locks
struct LockEnt { const void* k; int owner; int depth; int bit; };
static mvec<LockEnt> locks;
static LockEnt& lock_of(const void* k) {
  for (auto& l : locks) if (l.k == k) return l;
  LockEnt l; l.k = k; l.owner = -1; l.depth = 0; l.bit = (int)(locks.size() % 62); locks.push_back(l); return locks.back();
}
static void lock(const void* k) {
  if (!g_multi) return;
  stats.criticals++;
  sync_point();
  while (lock_of(k).owner >= 0 && lock_of(k).owner != cur) block_on(k);
  LockEnt& l = lock_of(k);
  if (l.owner == cur) sim_violation("deadlock", "thread %d re-enters a critical section it holds", cur);
  l.owner = cur; thr[cur].locks |= 1ull << l.bit;
}
static void unlock(const void* k) {
  if (!g_multi) return;
  LockEnt& l = lock_of(k);
  l.owner = -1; thr[cur].locks &= ~(1ull << l.bit);
  wake(k);
  sync_point();
}
static bool trylock(const void* k) {
  if (!g_multi) return true;
  sync_point();
  LockEnt& l = lock_of(k); if (l.owner >= 0) return false;
  l.owner = cur; thr[cur].locks |= 1ull << l.bit; return true;
}
}  // namespace rt
using namespace rt;

// ---- libgomp entry points ---------------------------------------------------
typedef unsigned long long ull;
static char crit_default, atomic_default, named_dummy;
EXP void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { region(fn, d, n, nullptr); }
EXP unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { region(fn, d, n, nullptr); return team_size(n); }
static WS* mkws(int kind, long s, long e, long i, long c, unsigned n) {
  WS* w = (WS*)calloc(1, sizeof(WS));
  w->init = true; w->kind = kind == 2 ? 0 : kind; w->next = s; w->end = e; w->incr = i; w->chunk = c;
  if (kind == 2 && c <= 0) { long k = i > 0 ? (e - s + i - 1) / i : (e - s + i + 1) / i; int t = team_size(n); w->chunk = k > 0 ? (k + t - 1) / t : 1; }
  return w;
}
#define PL(name, kind) \
  EXP void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { region(fn, d, n, mkws(kind, s, e, i, c, n)); }
PL(static, 2) PL(dynamic, 0) PL(guided, 1) PL(nonmonotonic_dynamic, 0) PL(nonmonotonic_guided, 1)
#define PLR(name) \
  EXP void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { region(fn, d, n, mkws(0, s, e, i, 1, n)); }
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
#define LS(name, kind) \
  EXP bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { bool f; WS* w = cur_ws(true, &f); if (f) ws_setup(w, kind, s, e, i, c); return ws_next(w, is, ie); } \
  EXP bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(cur_ws(false, nullptr), is, ie); }
LS(static, 2) LS(dynamic, 0) LS(guided, 1) LS(nonmonotonic_dynamic, 0) LS(nonmonotonic_guided, 1)
#define LSR(name) \
  EXP bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { bool f; WS* w = cur_ws(true, &f); if (f) ws_setup(w, 0, s, e, i, 1); return ws_next(w, is, ie); } \
  EXP bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(cur_ws(false, nullptr), is, ie); }
LSR(runtime) LSR(nonmonotonic_runtime) LSR(maybe_nonmonotonic_runtime)
#define LU(name, kind) \
  EXP bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) { bool f; WS* w = cur_ws(true, &f); if (f) ws_setupu(w, kind, up, s, e, i, c); return ws_nextu(w, is, ie); } \
  EXP bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return ws_nextu(cur_ws(false, nullptr), is, ie); }
LU(static, 2) LU(dynamic, 0) LU(guided, 1) LU(nonmonotonic_dynamic, 0) LU(nonmonotonic_guided, 1)
#define LUR(name) \
  EXP bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* is, ull* ie) { bool f; WS* w = cur_ws(true, &f); if (f) ws_setupu(w, 0, up, s, e, i, 1); return ws_nextu(w, is, ie); } \
  EXP bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return ws_nextu(cur_ws(false, nullptr), is, ie); }
LUR(runtime) LUR(nonmonotonic_runtime) LUR(maybe_nonmonotonic_runtime)
EXP void GOMP_loop_end() { barrier(); }
EXP void GOMP_loop_end_nowait() { sync_point(); }
EXP bool GOMP_loop_end_cancel() { barrier(); return false; }
EXP bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* is, long* ie, uintptr_t*, void**) {
  bool f; WS* w = cur_ws(true, &f); int kind = (sched & 0xff) == 3 ? 1 : ((sched & 0xff) == 1 ? 2 : 0);
  if (f) ws_setup(w, kind, s, e, i, c); if (!is) return true; return ws_next(w, is, ie);
}
EXP void GOMP_barrier() { barrier(); }
EXP bool GOMP_barrier_cancel() { barrier(); return false; }
EXP bool GOMP_cancel(int, bool) { return false; }
EXP bool GOMP_cancellation_point(int) { return false; }
EXP void GOMP_critical_start() { lock(&crit_default); }
EXP void GOMP_critical_end() { unlock(&crit_default); }
EXP void GOMP_critical_name_start(void** p) { lock(p); }
EXP void GOMP_critical_name_end(void** p) { unlock(p); }
EXP void GOMP_atomic_start() { lock(&atomic_default); }
EXP void GOMP_atomic_end() { unlock(&atomic_default); }
EXP bool GOMP_single_start() { sync_point(); bool f; WS* w = cur_ws(true, &f); w->init = true; return f; }
EXP void* GOMP_single_copy_start() {
  sync_point(); bool f; WS* w = cur_ws(true, &f); w->init = true;
  if (f) return nullptr;
  while (!w->copyset) block_on(w);
  return w->copy;
}
EXP void GOMP_single_copy_end(void* d) { WS* w = cur_ws(false, nullptr); w->copy = d; w->copyset = true; wake(w); barrier(); }
EXP unsigned GOMP_sections_start(unsigned n) { bool f; WS* w = cur_ws(true, &f); if (f) { w->init = true; w->next = 1; w->end = n; } sync_point(); return w->next <= w->end ? (unsigned)w->next++ : 0; }
EXP unsigned GOMP_sections_next() { WS* w = cur_ws(false, nullptr); sync_point(); return w->next <= w->end ? (unsigned)w->next++ : 0; }
EXP void GOMP_sections_end() { barrier(); }
EXP void GOMP_sections_end_nowait() { sync_point(); }
EXP bool GOMP_sections_end_cancel() { barrier(); return false; }
EXP void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) {
  WS* w = (WS*)calloc(1, sizeof(WS)); w->init = true; w->next = 1; w->end = cnt; region(fn, d, n, w);
}
EXP void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  sync_point();
  if (cpy) { char* b = (char*)malloc(sz + al); char* a = (char*)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); free(b); }
  else fn(data);
  sync_point();
}
EXP void GOMP_taskwait() { sync_point(); }
EXP void GOMP_taskyield() { sync_point(); }
EXP void GOMP_taskgroup_start() {}
EXP void GOMP_taskgroup_end() { sync_point(); }
EXP void GOMP_ordered_start() { lock(&named_dummy); }
EXP void GOMP_ordered_end() { unlock(&named_dummy); }
EXP int omp_get_thread_num() { return thr[cur].team ? thr[cur].tid : 0; }
EXP int omp_get_num_threads() { return thr[cur].team ? thr[cur].team->n : 1; }
EXP int omp_get_max_threads() { return g_on ? ntasks_default : 1; }
EXP void omp_set_num_threads(int n) { if (g_on && n > 0 && n <= MAXT) ntasks_default = n; }
EXP int omp_get_num_procs() { return 8; }
EXP int omp_in_parallel() { return thr[cur].team && thr[cur].team->n > 1; }
EXP int omp_get_level() { return thr[cur].team ? 1 : 0; }
EXP int omp_get_active_level() { return omp_in_parallel(); }
EXP void omp_set_dynamic(int) {}
EXP int omp_get_dynamic() { return 0; }
EXP void omp_set_nested(int) {}
EXP int omp_get_nested() { return 0; }
EXP void omp_set_max_active_levels(int) {}
EXP int omp_get_max_active_levels() { return 1; }
EXP int omp_get_thread_limit() { return MAXT; }
EXP void omp_set_schedule(int, int) {}
EXP double omp_get_wtime() { vclock::now_ns += 1000; return vclock::now_ns * 1e-9; }
EXP double omp_get_wtick() { return 1e-9; }
EXP void omp_init_lock(void* l) { *(int*)l = 0; }
EXP void omp_destroy_lock(void*) {}
EXP void omp_set_lock(void* l) { lock(l); }
EXP void omp_unset_lock(void* l) { unlock(l); }
EXP int omp_test_lock(void* l) { return trylock(l); }
EXP void omp_init_nest_lock(void* l) { memset(l, 0, 16); }
EXP void omp_destroy_nest_lock(void*) {}
EXP void omp_set_nest_lock(void* l) { if (!g_multi) return; LockEnt& e = lock_of(l); if (e.owner == cur) { e.depth++; return; } lock(l); lock_of(l).depth = 1; }
EXP void omp_unset_nest_lock(void* l) { if (!g_multi) return; LockEnt& e = lock_of(l); if (--e.depth == 0) unlock(l); }

// std::mutex and function-local statics under the simulated scheduler
EXP int pthread_mutex_trylock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  return real(m);
}
EXP int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr, (*rtry)(pthread_mutex_t*) = nullptr;
  if (!real) { real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); rtry = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
  if (!g_multi) return real(m);
  sync_point();
  int r;
  while ((r = rtry(m)) == EBUSY) block_on(m);
  return r;
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m);
  if (g_multi) { wake(m); sync_point(); }
  return r;
}
EXP int __cxa_guard_acquire(int64_t* g) {
  char* b = (char*)g;
  if (b[0]) return 0;
  while (b[1]) { if (g_multi) block_on(g); else break; }
  if (b[0]) return 0;
  b[1] = 1; return 1;
}
EXP void __cxa_guard_release(int64_t* g) { char* b = (char*)g; b[0] = 1; b[1] = 0; wake(g); }
EXP void __cxa_guard_abort(int64_t* g) { char* b = (char*)g; b[1] = 0; wake(g); }

// ---- memory-access hooks (-fsanitize=thread call-outs) ------------------------
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) {}
EXP void __tsan_func_exit() {}
#define RW(n) \
  EXP void __tsan_read##n(void* a) { acc(a, n, 0, RA); } \
  EXP void __tsan_write##n(void* a) { acc(a, n, 1, RA); } \
  EXP void __tsan_unaligned_read##n(void* a) { acc(a, n, 0, RA); } \
  EXP void __tsan_unaligned_write##n(void* a) { acc(a, n, 1, RA); } \
  EXP void __tsan_volatile_read##n(void* a) { acc(a, n, 0, RA); } \
  EXP void __tsan_volatile_write##n(void* a) { acc(a, n, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void* a, unsigned long n) { if (n) acc(a, (int)n, 0, RA); }
EXP void __tsan_write_range(void* a, unsigned long n) { if (n) acc(a, (int)n, 1, RA); }
EXP void __tsan_vptr_update(void**, void*) {}
EXP void __tsan_vptr_read(void**) {}
EXP void __tsan_atomic_thread_fence(int) { sync_point(); }
EXP void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
  EXP T __tsan_atomic##bits##_load(const volatile T* a, int) { acc(a, sizeof(T), 0, RA, true); stats.atomics++; return __atomic_load_n(a, 5); } \
  EXP void __tsan_atomic##bits##_store(volatile T* a, T v, int) { acc(a, sizeof(T), 1, RA, true); __atomic_store_n(a, v, 5); } \
  EXP T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { acc(a, sizeof(T), 1, RA, true); return __atomic_exchange_n(a, v, 5); } \
  EXP T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { acc(a, sizeof(T), 1, RA, true); return __atomic_fetch_add(a, v, 5); } \
  EXP T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { acc(a, sizeof(T), 1, RA, true); return __atomic_fetch_sub(a, v, 5); } \
  EXP T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { acc(a, sizeof(T), 1, RA, true); return __atomic_fetch_and(a, v, 5); } \
  EXP T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { acc(a, sizeof(T), 1, RA, true); return __atomic_fetch_or(a, v, 5); } \
  EXP T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { acc(a, sizeof(T), 1, RA, true); return __atomic_fetch_xor(a, v, 5); } \
  EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { acc(a, sizeof(T), 1, RA, true); stats.atomics++; return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { acc(a, sizeof(T), 1, RA, true); stats.atomics++; return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { acc(a, sizeof(T), 1, RA, true); stats.atomics++; __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// Simulated heap: redzones, quarantine, ledger, garbage fill, injected failures.
#include "sim.h"
#include "arena.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <dlfcn.h>
#include <unistd.h>
#include <fftw3.h>

#define RA ((uint64_t)__builtin_return_address(0))
volatile int g_oob_on = 0;

namespace {
struct Hdr { uint64_t magic; uint64_t size; uint64_t rsize; int32_t kind; int32_t tracked; int64_t seq; uint64_t pc; uint64_t pad[2]; };  // 64 bytes
const uint64_t MAGIC = 0xA110CA7EDB10C000ull, FREED = 0xDEADFEEDDEADFEEDull;
bool inited = false;
uintptr_t brk_ = ARENA_BASE;
// free lists: power-of-two-ish classes
struct FNode { FNode* next; };
FNode* freelist[64];
uint64_t quarantine_bytes = 0;
struct Q { uintptr_t p; uint64_t rsize; };
Q* qbuf; size_t qh, qt; const size_t QN = 1 << 20;
int tracking = 0;
mem::Cfg cfg;
Rng rng(1);
int64_t seq_ = 0;
// live tracked blocks: intrusive index table
Hdr** livetab; size_t nlive; const size_t LIVEMAX = 1 << 20;
int pause_ = 0;

void init() {
  if (inited) return;
  inited = true;
  void* a = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap((void*)SHADOW_BASE, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  qbuf = (Q*)mmap(nullptr, sizeof(Q) * QN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  livetab = (Hdr**)mmap(nullptr, sizeof(Hdr*) * LIVEMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (a != (void*)ARENA_BASE || b != (void*)SHADOW_BASE) { fprintf(stderr, "trvsim: cannot map the simulated heap\n"); _exit(70); }
}
int cls(uint64_t n) { int c = 0; uint64_t s = 64; while (s < n) { s <<= 1; c++; if (s >= n) break; uint64_t h = s - (s >> 2); (void)h; } return c; }
void set_shadow(uintptr_t p, uint64_t size) {
  uint8_t* s = (uint8_t*)(SHADOW_BASE + ((p - ARENA_BASE) >> 3));
  memset(s, 8, size >> 3);
  if (size & 7) s[size >> 3] = size & 7;
}
void clear_shadow(uintptr_t p, uint64_t size) {
  memset((uint8_t*)(SHADOW_BASE + ((p - ARENA_BASE) >> 3)), 0, (size + 7) >> 3);
}
void fill(void* p, uint64_t n) {
  // large blocks: a cheap pattern in the body, the seeded one at both ends
  int mode = cfg.fill;
  if (mode >= 2 && n > (1 << 18)) {
    uint64_t k = 1 << 14;
    memset((char*)p + k, mode == 2 ? 0x41 : 0xFF, n - 2 * k);
    uint64_t* a = (uint64_t*)p; uint64_t* b = (uint64_t*)((char*)p + ((n - k) & ~7ull));
    for (uint64_t i = 0; i < k / 8; i++) { if (mode == 2) { ((double*)a)[i] = (rng.unif() - 0.5) * 2e3; ((double*)b)[i] = a[i]; } else { a[i] = rng.next(); b[i] = rng.next(); } }
    return;
  }
  switch (mode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: { double* d = (double*)p; uint64_t k = n / 8; for (uint64_t i = 0; i < k; i++) d[i] = (rng.unif() - 0.5) * 2e3; memset((char*)p + k * 8, 0x5A, n - k * 8); break; }
    default: { uint64_t* d = (uint64_t*)p; uint64_t k = n / 8; for (uint64_t i = 0; i < k; i++) d[i] = rng.next(); memset((char*)p + k * 8, 0xA5, n - k * 8); }
  }
}
void drain(uint64_t limit) {
  while (quarantine_bytes > limit && qh != qt) {
    Q q = qbuf[qh % QN]; qh++;
    quarantine_bytes -= q.rsize;
    FNode* f = (FNode*)q.p; int c = cls(q.rsize);
    f->next = freelist[c]; freelist[c] = f;
  }
}
void* alloc(uint64_t n, int kind, uint64_t pc) {
  init();
  bool trk = tracking && !pause_;
  if (trk) {
    int64_t i = mem::n_alloc++;
    if (cfg.fail_at >= 0 && i >= cfg.fail_at && i < cfg.fail_at + cfg.fail_count) { mem::n_failed++; if (rt::in_region()) mem::n_failed_region++; return nullptr; }
    if (n > (1ull << 31)) return nullptr;
  }
  if (n > (1ull << 31)) return nullptr;
  uint64_t need = sizeof(Hdr) + ((n + 15) & ~15ull) + 64;   // trailing redzone >= 64
  int c = cls(need); uint64_t rs = 64ull << c;
  if (rs > (1 << 16)) { rs = (need + 4095) & ~4095ull; c = -1; }
  uintptr_t p = 0;
  if (c >= 0 && freelist[c]) { p = (uintptr_t)freelist[c]; freelist[c] = freelist[c]->next; }
  if (c < 0) {
    // large blocks: first fit of the same size in a small cache
    int cc = cls(rs);
    FNode** pp = &freelist[cc];
    for (int k = 0; *pp && k < 32; pp = &(*pp)->next, k++) {
      Hdr* h = (Hdr*)*pp;
      if (((uint64_t*)h)[2] == rs) { p = (uintptr_t)h; *pp = (*pp)->next; break; }
    }
  }
  if (!p) {
    p = brk_; brk_ += rs;
    if (brk_ > ARENA_BASE + ARENA_SIZE) { fprintf(stderr, "trvsim: simulated heap exhausted\n"); _exit(71); }
  }
  Hdr* h = (Hdr*)p;
  h->magic = MAGIC; h->size = n; h->rsize = rs; h->kind = kind; h->seq = seq_++; h->pc = pc; h->tracked = -1;
  void* u = (void*)(p + sizeof(Hdr));
  if (trk) {
    fill(u, n);
    if (nlive < LIVEMAX) { h->tracked = (int32_t)nlive; livetab[nlive++] = h; }
    memset((char*)u + n, 0xFB, 16);
  } else memset((char*)u + n, 0xFB, 16);
  set_shadow((uintptr_t)u, n);
  mem::n_ops++;
  return u;
}
void dealloc(void* u, int kind, uint64_t pc) {
  if (!u) return;
  uintptr_t x = (uintptr_t)u;
  if (x - ARENA_BASE >= ARENA_SIZE) { ::free(u); return; }
  Hdr* h = (Hdr*)(x - sizeof(Hdr));
  if (h->magic == FREED) sim_violation("double-free", "block of %llu bytes freed twice (pc %llx)", (unsigned long long)h->size, (unsigned long long)(pc - text_base()));
  if (h->magic != MAGIC) sim_violation("heap-corruption", "bad block header at free (pc %llx)", (unsigned long long)(pc - text_base()));
  if (h->kind != kind) sim_violation("mismatched-free", "block of kind %d freed as kind %d (pc %llx)", h->kind, kind, (unsigned long long)(pc - text_base()));
  for (int i = 0; i < 16; i++) if (((unsigned char*)u)[h->size + i] != 0xFB)
    sim_violation("heap-overflow", "write past the end of a block of %llu bytes", (unsigned long long)h->size);
  if (h->tracked >= 0) {
    Hdr* last = livetab[--nlive];
    livetab[h->tracked] = last; last->tracked = h->tracked; h->tracked = -1;
  }
  clear_shadow(x, h->size + 8);
  if (cfg.fill == 1 || cfg.fill == 3) memset(u, 0xDB, h->size < 4096 ? h->size : 4096);
  h->magic = FREED;
  mem::n_ops++;
  uint64_t rs = h->rsize;
  if (qt - qh >= QN - 1) drain(0);
  qbuf[qt % QN] = Q{x - sizeof(Hdr), rs}; qt++; quarantine_bytes += rs;
  drain(24ull << 20);
}
}  // namespace

namespace mem {
int64_t n_alloc = 0, n_failed = 0, n_failed_region = 0;
uint64_t n_ops = 0;
void begin(const Cfg& c) { init(); cfg = c; rng = Rng(c.seed); n_alloc = 0; n_failed = 0; n_failed_region = 0; nlive = 0; tracking = 1; g_oob_on = 1; }
void end() { tracking = 0; cfg.fail_at = -1; for (size_t i = 0; i < nlive; i++) livetab[i]->tracked = -1; nlive = 0; g_oob_on = 0; }
mvec<Leak> live() {
  mvec<Leak> v;
  for (size_t i = 0; i < nlive; i++) { Hdr* h = livetab[i]; v.push_back(Leak{(char*)h + sizeof(Hdr), h->size, h->kind, h->seq, h->pc}); }
  return v;
}
int64_t live_bytes() { int64_t b = 0; for (size_t i = 0; i < nlive; i++) b += livetab[i]->size; return b; }
Pause::Pause() { saved = pause_; pause_ = 1; }
Pause::~Pause() { pause_ = saved; }
void check_block(const void* p, size_t n, const char* what) {
  uintptr_t x = (uintptr_t)p; if (!g_oob_on || x - ARENA_BASE >= ARENA_SIZE) { if (g_oob_on && x < 4096) sim_violation("heap-out-of-bounds", "%s at a null pointer", what); return; }
  const uint8_t* s = (const uint8_t*)(SHADOW_BASE + ((x - ARENA_BASE) >> 3));
  for (size_t i = 0; i < n / 8; i++) if (s[i] != 8) sim_violation("heap-out-of-bounds", "%s of %zu bytes outside any live heap block at offset %zu", what, n, i * 8);
}
void check_all_redzones() {
  for (size_t i = 0; i < nlive; i++) {
    Hdr* h = livetab[i]; unsigned char* e = (unsigned char*)h + sizeof(Hdr) + h->size;
    for (int k = 0; k < 16; k++) if (e[k] != 0xFB) sim_violation("heap-overflow", "write past the end of a block of %llu bytes", (unsigned long long)h->size);
  }
}
}
void arena_bad(uintptr_t x, int sz, int wr, uint64_t pc) {
  if (!g_oob_on) return;
  sim_violation("heap-out-of-bounds", "%s of %d bytes outside any live heap block at pc %llx", wr ? "write" : "read", sz, (unsigned long long)(pc - text_base()));
}

// ---- operator new / delete ----------------------------------------------------
static void* onew(size_t n, uint64_t pc, int kind) {
  void* p = alloc(n, kind, pc);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return onew(n, RA, 1); }
void* operator new[](size_t n) { return onew(n, RA, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 1, RA); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 2, RA); }
void operator delete(void* p) noexcept { dealloc(p, 1, RA); }
void operator delete[](void* p) noexcept { dealloc(p, 2, RA); }
void operator delete(void* p, size_t) noexcept { dealloc(p, 1, RA); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, 2, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, 1, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, 2, RA); }

extern "C" {
void* fftw_malloc(size_t n) { return alloc(n, 3, RA); }
double* fftw_alloc_real(size_t n) { return (double*)alloc(n * sizeof(double), 3, RA); }
fftw_complex* fftw_alloc_complex(size_t n) { return (fftw_complex*)alloc(n * sizeof(fftw_complex), 3, RA); }
void fftw_free(void* p) { dealloc(p, 3, RA); }
}

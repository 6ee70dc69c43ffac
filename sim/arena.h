#pragma once
#include <cstdint>
static const uintptr_t ARENA_BASE = 0x610000000000ull;
static const uintptr_t ARENA_SIZE = 0x100000000ull;        // 4 GiB reserved
static const uintptr_t SHADOW_BASE = 0x640000000000ull;    // one byte per 8
void arena_bad(uintptr_t x, int sz, int wr, uint64_t pc);
extern volatile int g_oob_on;
static inline __attribute__((always_inline)) void arena_check(uintptr_t x, int sz, int wr, uint64_t pc) {
  const uint8_t* s = (const uint8_t*)(SHADOW_BASE + ((x - ARENA_BASE) >> 3));
  // shadow byte k: first k bytes of the 8 are addressable (8 = all)
  unsigned off = x & 7;
  if (off + sz <= 8) { if (__builtin_expect(s[0] < off + sz, 0)) arena_bad(x, sz, wr, pc); }
  else {
    if (__builtin_expect(s[0] != 8, 0)) { arena_bad(x, sz, wr, pc); return; }
    unsigned last = (unsigned)(off + sz); unsigned n = (last + 7) / 8;
    for (unsigned i = 1; i < n; i++) { unsigned need = last - 8 * i > 8 ? 8 : last - 8 * i; if (s[i] < need) { arena_bad(x, sz, wr, pc); return; } }
  }
}

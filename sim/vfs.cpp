// In-memory file system, virtual clock and I/O fault injection.
#include "sim.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <dirent.h>

#define EXP extern "C" __attribute__((visibility("default")))
template <class F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) ([]() { static decltype(&name) f = real<decltype(&name)>(#name); return f; }())

namespace vclock {
static const int64_t EPOCH = 1700000000ll * 1000000000ll;
int64_t now_ns = 1000000000ll;
uint64_t reads = 0, jumps = 0; int64_t covered_ns = 0;
static int64_t wall_off = EPOCH;
static Jump J[64]; static int nj = 0; static bool on = false; static Rng rng(1);
void begin(const Cfg& c) {
  nj = 0; for (auto& j : c.jumps) if (nj < 64) J[nj++] = j;
  on = true; rng = Rng(c.seed); reads = jumps = 0; now_ns = 1000000000ll; wall_off = EPOCH; covered_ns = 0;
}
void end() { on = false; }
static void tick() {
  if (!on) { now_ns += 1000; return; }
  int64_t d = 1000 + (int64_t)rng.below(2000000);
  now_ns += d; covered_ns += d;
  for (int i = 0; i < nj; i++) if (J[i].read == reads) {
    jumps++;
    if (J[i].mono) { now_ns += J[i].ns; covered_ns += J[i].ns; } else { wall_off += J[i].ns; covered_ns += J[i].ns < 0 ? -J[i].ns : J[i].ns; }
  }
  reads++;
}
static int64_t real_ns() { tick(); int64_t n = now_ns + wall_off; return n < 0 ? 0 : n; }
static int64_t mono_ns() { tick(); return now_ns; }
}
EXP int clock_gettime(clockid_t c, struct timespec* t) {
  int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? vclock::real_ns() : vclock::mono_ns();
  t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll; return 0;
}
EXP int gettimeofday(struct timeval* t, void*) { int64_t n = vclock::real_ns(); t->tv_sec = n / 1000000000ll; t->tv_usec = n % 1000000000ll / 1000; return 0; }
EXP time_t time(time_t* p) { time_t s = vclock::real_ns() / 1000000000ll; if (p) *p = s; return s; }
EXP clock_t clock() { return (clock_t)(vclock::mono_ns() / 1000); }

namespace vfs {
const char* fault_names[F_NKINDS] = {"none", "open-fail", "read-EIO", "read-short", "read-EINTR", "read-truncated",
  "write-EIO", "write-ENOSPC", "write-short", "close-EIO", "mkdir-fail", "stat-fail", "crash", "file-changed", "read-zeroed"};
const char* op_names[] = {"", "open-r", "open-w", "read", "write", "close", "mkdir", "stat", "unlink", "rename"};
struct Inode { char path[200]; bool used, exists, isdir; uint64_t off, size, cap; };
struct JRec { uint8_t type; int16_t inode; uint64_t pos, len, data; };   // 1 create/trunc 2 write 3 mkdir 4 unlink
static const int NI = 96, NJ = 200000, NOP = 200000;
struct Shared {
  uint64_t brk;
  Inode in[NI]; Inode snap[NI];
  JRec j[NJ]; uint64_t nj;
  OpRec op[NOP]; uint64_t nop, nsop;
  uint64_t fired[F_NKINDS];
  int crashed;
};
static Shared* S; static char* D; static const uint64_t DSZ = 1ull << 30;
static bool on = false;
static const int MAXF = 64;
static FaultAt faults[MAXF]; static int nfaults = 0; static char scope[200];
static const int FD0 = 900000, NH = 256;
struct Handle { bool used; int inode; uint64_t pos; bool rd, wr, app; FILE* f; uint64_t eof_at; bool eofcut; bool dirty; };
static Handle H[NH];
static uint64_t bufseed = 0;

int open_files() { int n = 0; for (auto& h : H) n += h.used; return n; }
void init_shared() {
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  D = (char*)mmap(nullptr, DSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || D == MAP_FAILED) { fprintf(stderr, "trvsim: mmap failed\n"); _exit(70); }
  reset();
}
static uint64_t dalloc(uint64_t n) {
  uint64_t o = S->brk; S->brk += (n + 63) & ~63ull;
  if (S->brk > DSZ) { fprintf(stderr, "trvsim: file-system arena exhausted\n"); _exit(71); }
  return o;
}
static void norm(const char* p, char* out, size_t n) {
  // absolute, collapsed path
  std::vector<std::string> parts; 
  mem::Pause mp;
  std::string cur;
  for (const char* c = p;; c++) {
    if (*c == '/' || !*c) {
      if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
      if (!*c) break;
    } else cur += *c;
  }
  std::string r;
  for (auto& s : parts) { r += "/"; r += s; }
  if (r.empty()) r = "/";
  snprintf(out, n, "%s", r.c_str());
}
static int find(const char* path, bool create_slot = false) {
  for (int i = 0; i < NI; i++) if (S->in[i].used && !strcmp(S->in[i].path, path)) return i;
  if (!create_slot) return -1;
  for (int i = 0; i < NI; i++) if (!S->in[i].used) {
    memset(&S->in[i], 0, sizeof(Inode)); S->in[i].used = true; snprintf(S->in[i].path, 200, "%s", path); return i;
  }
  fprintf(stderr, "trvsim: too many files\n"); _exit(71);
}
void reset() {
  S->brk = 0; memset(S->in, 0, sizeof S->in); memset(S->snap, 0, sizeof S->snap); S->nj = S->nop = S->nsop = 0; memset(S->fired, 0, sizeof S->fired); S->crashed = 0;
  int r = find("/", true); S->in[r].exists = S->in[r].isdir = true;
}
static void setdata(int i, const char* d, size_t n) {
  Inode& I = S->in[i]; I.off = dalloc(n); I.cap = n; I.size = n; memcpy(D + I.off, d, n);
}
void put(const char* p, const char* d, size_t n) { char q[200]; norm(p, q, 200); int i = find(q, true); S->in[i].exists = true; S->in[i].isdir = false; setdata(i, d, n); }
void mkdirs(const char* p) {
  char q[200]; norm(p, q, 200);
  for (char* c = q + 1;; c++) if (*c == '/' || !*c) {
    char s = *c; *c = 0; int i = find(q, true); S->in[i].exists = S->in[i].isdir = true; *c = s; if (!s) break;
  }
}
void remove_file(const char* p) { char q[200]; norm(p, q, 200); int i = find(q); if (i >= 0) { S->in[i].exists = false; S->in[i].size = 0; } }
bool exists(const char* p, bool* isdir) { char q[200]; norm(p, q, 200); int i = find(q); if (i < 0 || !S->in[i].exists) return false; if (isdir) *isdir = S->in[i].isdir; return true; }
std::string get(const char* p) { char q[200]; norm(p, q, 200); int i = find(q); if (i < 0 || !S->in[i].exists || S->in[i].isdir) return ""; return std::string(D + S->in[i].off, S->in[i].size); }
std::vector<std::string> list() {
  std::vector<std::string> v; for (int i = 0; i < NI; i++) if (S->in[i].used && S->in[i].exists) v.push_back(std::string(S->in[i].path) + (S->in[i].isdir && strcmp(S->in[i].path, "/") ? "/" : "")); return v;
}
uint64_t content_hash() {
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < NI; i++) if (S->in[i].used && S->in[i].exists) {
    for (char* c = S->in[i].path; *c; c++) h = (h ^ (uint8_t)*c) * 1099511628211ull;
    for (uint64_t k = 0; k < S->in[i].size; k++) h = (h ^ (uint8_t)D[S->in[i].off + k]) * 1099511628211ull;
  }
  return h;
}
void activate(bool b) { on = b; }
bool active() { return on; }
static int change_inode = -1; static uint64_t change_arg = 0;
void set_faults(const std::vector<FaultAt>& f, const char* sc) {
  change_inode = -1; nfaults = 0; for (auto& x : f) if (nfaults < MAXF) faults[nfaults++] = x;
  snprintf(scope, sizeof scope, "%s", sc);
}
void clear_log() { S->nop = S->nsop = 0; S->crashed = 0; }
uint64_t n_ops() { return S->nop; }
uint64_t n_scoped_ops() { return S->nsop; }
std::vector<OpRec> oplog() { std::vector<OpRec> v; for (uint64_t i = 0; i < S->nop && i < NOP; i++) v.push_back(S->op[i]); return v; }
uint64_t fired(int k) { return S->fired[k]; }
void clear_fired() { memset(S->fired, 0, sizeof S->fired); }
bool crashed() { return S->crashed; }
int open_handles() { int n = 0; for (auto& h : H) if (h.used) n++; return n; }
void close_all_handles() { for (auto& h : H) h.used = false; }
static void jrec(int type, int inode, uint64_t pos, uint64_t len, const void* d) {
  if (S->nj >= NJ) return;
  JRec& r = S->j[S->nj++]; r.type = type; r.inode = inode; r.pos = pos; r.len = len; r.data = 0;
  if (len && d) { r.data = dalloc(len); memcpy(D + r.data, d, len); }
}
void mark() {
  S->nj = 0;
  for (int i = 0; i < NI; i++) {
    S->snap[i] = S->in[i];
    if (S->in[i].used && S->in[i].exists && !S->in[i].isdir) { uint64_t o = dalloc(S->in[i].size); memcpy(D + o, D + S->in[i].off, S->in[i].size); S->snap[i].off = o; S->snap[i].cap = S->in[i].size; }
  }
}
static void apply_write(int i, uint64_t pos, const char* d, uint64_t n) {
  Inode& I = S->in[i];
  if (pos + n > I.cap) {
    uint64_t nc = (pos + n) * 2 + 4096; uint64_t o = dalloc(nc); memcpy(D + o, D + I.off, I.size); I.off = o; I.cap = nc;
  }
  if (pos > I.size) memset(D + I.off + I.size, 0, pos - I.size);
  memcpy(D + I.off + pos, d, n);
  if (pos + n > I.size) I.size = pos + n;
}
void crash_state(uint64_t seed, int mode) {
  if (mode == 0) return;  // everything written survives
  Rng r(seed);
  Inode nowt[NI]; memcpy(nowt, S->in, sizeof nowt);
  for (int i = 0; i < NI; i++) {
    if (!nowt[i].used) continue;
    // count journal records of this inode
    uint64_t n = 0; for (uint64_t k = 0; k < S->nj; k++) if (S->j[k].inode == i) n++;
    if (!n) continue;
    uint64_t keep = mode == 3 ? 0 : r.below(n + 1);
    if (mode == 1 && r.chance(0.3)) keep = n;
    bool torn = mode >= 2 && r.chance(0.6), zero = mode >= 2 && r.chance(0.3);
    Inode base = S->snap[i].used ? S->snap[i] : nowt[i];
    if (!S->snap[i].used) { base.exists = false; base.size = 0; }
    bool isdir = nowt[i].isdir;
    S->in[i] = base; S->in[i].used = true;
    if (base.used && base.exists && !base.isdir && S->snap[i].used) { uint64_t o = dalloc(base.size); memcpy(D + o, D + base.off, base.size); S->in[i].off = o; S->in[i].cap = base.size; }
    uint64_t c = 0;
    for (uint64_t k = 0; k < S->nj; k++) {
      JRec& j = S->j[k];
      if (j.inode != i) continue;
      bool last = c + 1 == keep;
      if (c == keep && !(torn && j.type == 2)) break;
      if (c > keep) break;
      switch (j.type) {
        case 1: S->in[i].exists = true; S->in[i].isdir = false; S->in[i].size = 0; S->in[i].cap = 0; break;
        case 3: S->in[i].exists = true; S->in[i].isdir = true; break;
        case 4: S->in[i].exists = false; break;
        case 2: {
          uint64_t len = j.len; if (c == keep) len = r.below(j.len + 1);
          std::string z; const char* d = D + j.data;
          if (zero && (last || c == keep)) { z.assign(len, '\0'); d = z.data(); }
          if (len) apply_write(i, j.pos, d, len); break;
        }
      }
      c++;
    }
    (void)isdir;
  }
  // a file whose directory did not survive is gone
  for (int pass = 0; pass < 4; pass++)
    for (int i = 0; i < NI; i++) if (S->in[i].used && S->in[i].exists && strcmp(S->in[i].path, "/")) {
      char q[200]; snprintf(q, 200, "%s", S->in[i].path); char* s = strrchr(q, '/'); if (s == q) continue; *s = 0;
      int p = find(q); if (p < 0 || !S->in[p].exists || !S->in[p].isdir) S->in[i].exists = false;
    }
}
// --- one operation: log it, decide the fault --------------------------------
static const char* op_path = "";   // path of an operation on a file that does not exist
static int op(int kind, int inode, int64_t len, uint64_t* arg, int** slot = nullptr) {
  uint64_t k = S->nop++;
  int f = F_NONE; uint64_t a = 0;
  uint64_t q = k; bool in = true;    // with a scope, faults are indexed by the operations inside it
  if (scope[0]) { const char* p = inode >= 0 ? S->in[inode].path : op_path; in = !strncmp(p, scope, strlen(scope)); q = in ? S->nsop++ : 0; }
  if (in) for (int i = 0; i < nfaults; i++) if (faults[i].op == q) { f = faults[i].kind; a = faults[i].arg; }
  if (f == F_CRASH) { if (kind != O_WRITE) { S->fired[F_CRASH]++; S->crashed = 1; _exit(88); } }
  // keep only faults applicable to this operation
  bool ok = f == F_NONE || f == F_CRASH || f == F_CHANGED ||
    ((kind == O_OPEN_R || kind == O_OPEN_W) && f == F_OPEN_FAIL) ||
    (kind == O_READ && (f == F_READ_EIO || f == F_READ_SHORT || f == F_READ_EINTR || f == F_READ_TRUNC || f == F_READ_ZERO)) ||
    (kind == O_WRITE && (f == F_WRITE_EIO || f == F_WRITE_ENOSPC || f == F_WRITE_SHORT)) ||
    (kind == O_CLOSE && f == F_CLOSE_EIO) || (kind == O_MKDIR && f == F_MKDIR_FAIL) || (kind == O_STAT && f == F_STAT_FAIL);
  if (!ok) f = F_NONE;
  if (k < NOP) { S->op[k].op = kind; S->op[k].inode = inode; S->op[k].len = (int32_t)len; S->op[k].fault = f; }
  if (arg) *arg = a;
  if (f == F_CHANGED) {   // takes effect when the file is next read from its beginning
    if (inode >= 0) { change_inode = inode; change_arg = a; }
    f = F_NONE;
  } else if (f != F_NONE && f != F_CRASH) S->fired[f]++;
  return f;
}
static int persist_nospace = 0;
static int do_open(const char* path, bool rd, bool wr, bool trunc, bool creat, bool app, bool excl = false) {
  char q[200]; norm(path, q, 200);
  int i = find(q);
  op_path = q; uint64_t a; int f = op(wr ? O_OPEN_W : O_OPEN_R, i, 0, &a);
  if (f == F_OPEN_FAIL) { errno = (a % 3) == 0 ? EACCES : (a % 3) == 1 ? EMFILE : (wr ? ENOSPC : EIO); return -1; }
  bool ex = i >= 0 && S->in[i].exists;
  if (ex && excl && creat) { errno = EEXIST; return -1; }
  if (ex && S->in[i].isdir && wr) { errno = EISDIR; return -1; }
  if (!ex) {
    if (!creat) { errno = ENOENT; return -1; }
    char p[200]; snprintf(p, 200, "%s", q); char* s = strrchr(p, '/'); if (s == p) s[1] = 0; else *s = 0;
    int pi = find(p); if (pi < 0 || !S->in[pi].exists) { errno = ENOENT; return -1; }
    if (!S->in[pi].isdir) { errno = ENOTDIR; return -1; }
    i = find(q, true); S->in[i].exists = true; S->in[i].isdir = false; S->in[i].size = 0; S->in[i].cap = 0;
    jrec(1, i, 0, 0, nullptr);
  } else if (trunc) { S->in[i].size = 0; S->in[i].cap = 0; jrec(1, i, 0, 0, nullptr); }
  for (int h = 0; h < NH; h++) if (!H[h].used) {
    memset(&H[h], 0, sizeof(Handle)); H[h].used = true; H[h].inode = i; H[h].rd = rd; H[h].wr = wr; H[h].app = app; H[h].pos = 0; return h;
  }
  errno = EMFILE; return -1;
}
static ssize_t do_read(int h, char* b, size_t n) {
  Handle& x = H[h]; Inode& I = S->in[x.inode];
  uint64_t a; int f = op(O_READ, x.inode, (int64_t)n, &a);
  if (x.inode == change_inode && x.pos == 0) {   // another process has rewritten the file behind the program's back
    change_inode = -1;
    if (I.exists && !I.isdir && I.size) {
      S->fired[F_CHANGED]++; Rng r(change_arg);
      std::string c(D + I.off, I.size);
      if (r.chance(0.5)) c = c + c; else c.resize(c.size() / 2);
      setdata(x.inode, c.data(), c.size());
    }
  }
  if (I.isdir) { errno = EISDIR; return -1; }
  if (f == F_READ_EIO) { errno = EIO; return -1; }
  if (f == F_READ_EINTR) { errno = EINTR; return -1; }
  if (f == F_READ_TRUNC) { x.eofcut = true; x.eof_at = x.pos + (I.size > x.pos ? a % (I.size - x.pos + 1) : 0); }
  uint64_t end = I.size; if (x.eofcut && x.eof_at < end) end = x.eof_at;
  uint64_t av = x.pos < end ? end - x.pos : 0; if (n > av) n = av;
  if (f == F_READ_SHORT && n > 1) n = 1 + a % (n - 1);
  memcpy(b, D + I.off + x.pos, n);
  if (f == F_READ_ZERO) memset(b, 0, n);
  x.pos += n; return (ssize_t)n;
}
static ssize_t do_write(int h, const char* b, size_t n) {
  Handle& x = H[h];
  uint64_t a; int f = op(O_WRITE, x.inode, (int64_t)n, &a);
  if (x.app) x.pos = S->in[x.inode].size;
  if (f == F_CRASH) {
    uint64_t k = a % (n + 1); if (k) { apply_write(x.inode, x.pos, b, k); jrec(2, x.inode, x.pos, k, b); }
    S->fired[F_CRASH]++; S->crashed = 1; _exit(88);
  }
  if (f == F_WRITE_EIO) { errno = EIO; return -1; }
  if (f == F_WRITE_ENOSPC) persist_nospace = (a % 4 && !scope[0]) ? 1 << 30 : 1;   // a full disk stays full, except in a scope
  if (persist_nospace > 0) { persist_nospace--; errno = ENOSPC; return -1; }
  if (f == F_WRITE_SHORT && n > 1) n = 1 + a % (n - 1);
  apply_write(x.inode, x.pos, b, n); jrec(2, x.inode, x.pos, n, b);
  x.pos += n; return (ssize_t)n;
}
static int do_close(int h) {
  uint64_t a; int f = op(O_CLOSE, H[h].inode, 0, &a);
  H[h].used = false; H[h].f = nullptr;
  if (f == F_CLOSE_EIO) { errno = EIO; return -1; }
  return 0;
}
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = do_write((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) {
  Handle& x = H[(int)(intptr_t)c]; int64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? (int64_t)x.pos + *o : (int64_t)S->in[x.inode].size + *o;
  if (p < 0) { errno = EINVAL; return -1; } x.pos = (uint64_t)p; *o = p; return 0;
}
static int ck_close(void* c) { return do_close((int)(intptr_t)c); }
static bool mine(const char* p) { return on && p && strncmp(p, "/proc/", 6) && strncmp(p, "/etc/", 5) && strncmp(p, "/usr/", 5) && strncmp(p, "/dev/", 5); }
static FILE* vfopen(const char* p, const char* m) {
  bool plus = strchr(m, '+'), excl = strchr(m, 'x'); int h;
  if (m[0] == 'r') h = do_open(p, true, plus, false, false, false);
  else if (m[0] == 'w') h = do_open(p, plus, true, true, true, false, excl);
  else h = do_open(p, plus, true, false, true, true, excl);
  if (h < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  mem::Pause mp;
  FILE* f = fopencookie((void*)(intptr_t)h, m, io);
  if (!f) { H[h].used = false; return nullptr; }
  static const int sizes[] = {64, 256, 1024, 4096};
  static char bufs[NH][4096];
  setvbuf(f, bufs[h], _IOFBF, sizes[bufseed & 3]);
  H[h].f = f; return f;
}
static int fill_stat(const char* p, struct stat* st) {
  char q[200]; norm(p, q, 200); int i = find(q);
  op_path = q; uint64_t a; int f = op(O_STAT, i, 0, &a);
  if (f == F_STAT_FAIL) { errno = (a & 1) ? EACCES : EIO; return -1; }
  if (i < 0 || !S->in[i].exists) {
    // a path component that is a regular file
    char* s = q; for (char* c = q + 1; *c; c++) if (*c == '/') { *c = 0; int k = find(s); if (k >= 0 && S->in[k].exists && !S->in[k].isdir) { errno = ENOTDIR; return -1; } *c = '/'; }
    errno = ENOENT; return -1;
  }
  memset(st, 0, sizeof *st); st->st_mode = S->in[i].isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = (off_t)S->in[i].size; st->st_nlink = 1; st->st_ino = (ino_t)(1000 + i); st->st_blksize = 4096;
  return 0;
}
}  // namespace vfs
using namespace vfs;

EXP FILE* fopen(const char* p, const char* m) { if (mine(p)) return vfopen(p, m); return REAL(fopen)(p, m); }
EXP FILE* fopen64(const char* p, const char* m) { if (mine(p)) return vfopen(p, m); return REAL(fopen64)(p, m); }
EXP FILE* freopen(const char* p, const char* m, FILE* f) { return REAL(freopen)(p, m, f); }
EXP int fileno(FILE* f) __THROW { for (int h = 0; h < NH; h++) if (H[h].used && H[h].f == f) return FD0 + h; return REAL(fileno)(f); }
static bool vfd(int fd) { return fd >= FD0 && fd < FD0 + NH; }
EXP ssize_t read(int fd, void* b, size_t n) { if (vfd(fd)) return do_read(fd - FD0, (char*)b, n); return syscall(SYS_read, fd, b, n); }
EXP ssize_t write(int fd, const void* b, size_t n) { if (vfd(fd)) return do_write(fd - FD0, (const char*)b, n); return syscall(SYS_write, fd, b, n); }
EXP ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!vfd(fd)) return syscall(SYS_writev, fd, v, n);
  ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd - FD0, (const char*)v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
EXP off_t lseek(int fd, off_t o, int w) __THROW { if (!vfd(fd)) return syscall(SYS_lseek, fd, o, w); off64_t x = o; return ck_seek((void*)(intptr_t)(fd - FD0), &x, w) ? -1 : x; }
EXP off64_t lseek64(int fd, off64_t o, int w) __THROW { return lseek(fd, o, w); }
EXP int close(int fd) { if (vfd(fd)) return do_close(fd - FD0); return (int)syscall(SYS_close, fd); }
EXP int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (!mine(p)) return (int)syscall(SYS_open, p, fl, m);
  int acc = fl & O_ACCMODE; int h = do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_TRUNC, fl & O_CREAT, fl & O_APPEND, fl & O_EXCL);
  return h < 0 ? -1 : FD0 + h;
}
EXP int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
EXP int openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (mine(p) && (d == AT_FDCWD || *p == '/')) return open(p, fl, m); return (int)syscall(SYS_openat, d, p, fl, m); }
EXP int openat64(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openat(d, p, fl, m); }
EXP int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXP int creat64(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXP ssize_t sendfile(int o, int i, off_t* off, size_t n) __THROW { if (vfd(o) || vfd(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
EXP ssize_t sendfile64(int o, int i, off64_t* off, size_t n) __THROW { return sendfile(o, i, off, n); }
EXP ssize_t copy_file_range(int i, off64_t* a, int o, off64_t* b, size_t n, unsigned f) { if (vfd(o) || vfd(i)) { errno = EINVAL; return -1; } return syscall(SYS_copy_file_range, i, a, o, b, n, f); }
EXP int fchmod(int fd, mode_t m) __THROW { if (vfd(fd)) return 0; return (int)syscall(SYS_fchmod, fd, m); }
EXP int chmod(const char* p, mode_t m) __THROW { if (mine(p)) { struct stat st; return fill_stat(p, &st); } return (int)syscall(SYS_chmod, p, m); }
EXP int fsync(int fd) { if (vfd(fd)) return 0; return (int)syscall(SYS_fsync, fd); }
EXP int fdatasync(int fd) { if (vfd(fd)) return 0; return (int)syscall(SYS_fdatasync, fd); }
static int do_truncate(int i, off_t n) {   // shrinking only: nothing here grows a file without writing to it
  std::string c(D + S->in[i].off, std::min<uint64_t>(S->in[i].size, (uint64_t)n)); c.resize((size_t)n);
  S->in[i].size = 0; S->in[i].cap = 0; jrec(1, i, 0, 0, nullptr);
  if (n) { apply_write(i, 0, c.data(), c.size()); jrec(2, i, 0, c.size(), c.data()); }
  return 0;
}
EXP int ftruncate(int fd, off_t n) __THROW { if (vfd(fd)) return do_truncate(H[fd - FD0].inode, n); return (int)syscall(SYS_ftruncate, fd, n); }
EXP int ftruncate64(int fd, off64_t n) __THROW { return ftruncate(fd, n); }
EXP int truncate(const char* p, off_t n) __THROW {
  if (!mine(p)) return (int)syscall(SYS_truncate, p, n);
  char q[200]; norm(p, q, 200); int i = find(q); if (i < 0 || !S->in[i].exists) { errno = ENOENT; return -1; } return do_truncate(i, n);
}
EXP int truncate64(const char* p, off64_t n) __THROW { return truncate(p, n); }
EXP int stat(const char* p, struct stat* st) __THROW { if (mine(p)) return fill_stat(p, st); return (int)syscall(SYS_stat, p, st); }
EXP int lstat(const char* p, struct stat* st) __THROW { if (mine(p)) return fill_stat(p, st); return (int)syscall(SYS_lstat, p, st); }
EXP int stat64(const char* p, struct stat64* st) __THROW { return stat(p, (struct stat*)st); }
EXP int lstat64(const char* p, struct stat64* st) __THROW { return lstat(p, (struct stat*)st); }
EXP int fstat(int fd, struct stat* st) __THROW {
  if (!vfd(fd)) return (int)syscall(SYS_fstat, fd, st);
  Inode& I = S->in[H[fd - FD0].inode]; memset(st, 0, sizeof *st); st->st_mode = I.isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = (off_t)I.size; st->st_blksize = 4096; return 0;
}
EXP int fstat64(int fd, struct stat64* st) __THROW { return fstat(fd, (struct stat*)st); }
EXP int fstatat(int dfd, const char* p, struct stat* st, int fl) __THROW { if (mine(p)) return fill_stat(p, st); return (int)syscall(SYS_newfstatat, dfd, p, st, fl); }
EXP int access(const char* p, int m) __THROW { if (mine(p)) { struct stat st; return fill_stat(p, &st); } return (int)syscall(SYS_access, p, m); }
EXP int mkdir(const char* p, mode_t m) __THROW {
  if (!mine(p)) return (int)syscall(SYS_mkdir, p, m);
  char q[200]; norm(p, q, 200); int i = find(q);
  op_path = q; uint64_t a; int f = op(O_MKDIR, i, 0, &a);
  if (f == F_MKDIR_FAIL) { errno = (a % 3) == 0 ? EACCES : (a % 3) == 1 ? ENOSPC : EIO; return -1; }
  if (i >= 0 && S->in[i].exists) { errno = EEXIST; return -1; }
  char par[200]; snprintf(par, 200, "%s", q); char* s = strrchr(par, '/'); if (s == par) s[1] = 0; else *s = 0;
  int pi = find(par); if (pi < 0 || !S->in[pi].exists) { errno = ENOENT; return -1; } if (!S->in[pi].isdir) { errno = ENOTDIR; return -1; }
  i = find(q, true); S->in[i].exists = S->in[i].isdir = true; jrec(3, i, 0, 0, nullptr); return 0;
}
EXP int unlink(const char* p) __THROW {
  if (!mine(p)) return (int)syscall(SYS_unlink, p);
  char q[200]; norm(p, q, 200); int i = find(q); op_path = q; op(O_UNLINK, i, 0, nullptr);
  if (i < 0 || !S->in[i].exists) { errno = ENOENT; return -1; } if (S->in[i].isdir) { errno = EISDIR; return -1; } S->in[i].exists = false; jrec(4, i, 0, 0, nullptr); return 0;
}
EXP int rmdir(const char* p) __THROW {
  if (!mine(p)) return (int)syscall(SYS_rmdir, p);
  char q[200]; norm(p, q, 200); int i = find(q); op_path = q; op(O_UNLINK, i, 0, nullptr);
  if (i < 0 || !S->in[i].exists) { errno = ENOENT; return -1; } if (!S->in[i].isdir) { errno = ENOTDIR; return -1; }
  size_t n = strlen(q); for (auto& e : list()) if (e.size() > n + 1 && !e.compare(0, n, q) && e[n] == '/') { errno = ENOTEMPTY; return -1; }
  S->in[i].exists = false; jrec(4, i, 0, 0, nullptr); return 0;
}
EXP int unlinkat(int d, const char* p, int fl) __THROW { if (mine(p) && (d == AT_FDCWD || *p == '/')) return (fl & AT_REMOVEDIR) ? rmdir(p) : unlink(p); return (int)syscall(SYS_unlinkat, d, p, fl); }
EXP int remove(const char* p) __THROW { if (!mine(p)) return REAL(remove)(p); return unlink(p); }
EXP int rename(const char* a, const char* b) __THROW {
  if (!mine(a)) return (int)syscall(SYS_rename, a, b);
  char q[200], w[200]; norm(a, q, 200); norm(b, w, 200); int i = find(q); op_path = q; op(O_RENAME, i, 0, nullptr);
  if (i < 0 || !S->in[i].exists) { errno = ENOENT; return -1; }
  int k = find(w, true); jrec(1, k, 0, 0, nullptr); jrec(2, k, 0, S->in[i].size, D + S->in[i].off); jrec(4, i, 0, 0, nullptr);
  S->in[k].exists = true; S->in[k].isdir = false; setdata(k, D + S->in[i].off, S->in[i].size); S->in[i].exists = false; return 0;
}
EXP int ioctl(int fd, unsigned long rq, ...) __THROW {
  va_list ap; va_start(ap, rq); void* p = va_arg(ap, void*); va_end(ap);
  if (vfd(fd)) { if (rq == FIONREAD) { Handle& x = H[fd - FD0]; *(int*)p = (int)(S->in[x.inode].size > x.pos ? S->in[x.inode].size - x.pos : 0); return 0; } errno = ENOTTY; return -1; }
  return (int)syscall(SYS_ioctl, fd, rq, p);
}
EXP int poll(struct pollfd* f, nfds_t n, int t) { if (n == 1 && vfd(f->fd)) { f->revents = POLLIN; return 1; } return (int)syscall(SYS_poll, f, n, t); }
EXP int isatty(int fd) __THROW { if (vfd(fd)) { errno = ENOTTY; return 0; } return 0; }
namespace vfs { void set_bufseed(uint64_t s) { bufseed = s; persist_nospace = 0; } }

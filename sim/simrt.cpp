// Preloaded runtime of the simulator: the allocator seen by glmmsr.so, the clocks, entropy
// and process identity seen by the whole R process.  Everything is off until simR.so turns
// it on; then every answer given here is a function of the control block alone.
#define _GNU_SOURCE 1
#include "simrt.h"
#include <cerrno>
#include <cxxabi.h>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void  __libc_free(void *);
void *__libc_memalign(size_t, size_t);
struct sim_ctl sim_ctl;
}

static inline struct sim_ctl &C() { return sim_ctl; }

extern "C" uint64_t sim_mix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------------ registry of tracked blocks
struct Block { char *user; size_t size; char *base; bool cxx; };
static Block *table = nullptr;
static size_t table_cap = 0, table_used = 0, table_live = 0;   // used counts tombstones
static char *const TOMB = reinterpret_cast<char *>(1);

static size_t slot_hash(const void *p) {
  uint64_t x = reinterpret_cast<uintptr_t>(p) >> 4;
  x *= 0x9E3779B97F4A7C15ULL;
  return static_cast<size_t>(x >> 20);
}
static void table_put(Block b);
static void table_grow() {
  Block *old = table;
  size_t ocap = table_cap;
  table_cap = ocap ? (table_live * 4 > ocap ? ocap * 2 : ocap) : (1u << 14);
  table = static_cast<Block *>(__libc_calloc(table_cap, sizeof(Block)));
  table_used = table_live = 0;
  for (size_t i = 0; i < ocap; i++)
    if (old[i].user && old[i].user != TOMB) table_put(old[i]);
  __libc_free(old);
}
static void table_put(Block b) {
  if (table_used * 2 >= table_cap) table_grow();
  size_t i = slot_hash(b.user) & (table_cap - 1);
  while (table[i].user && table[i].user != TOMB) i = (i + 1) & (table_cap - 1);
  if (!table[i].user) table_used++;
  table_live++;
  table[i] = b;
}
static Block *table_find(const void *p) {
  if (!table_live) return nullptr;
  size_t i = slot_hash(p) & (table_cap - 1);
  while (table[i].user) {
    if (table[i].user == p) return &table[i];
    i = (i + 1) & (table_cap - 1);
  }
  return nullptr;
}
static void table_del(Block *b) { b->user = TOMB; table_live--; }

// ------------------------------------------------------------------ memory contents
static const size_t ZONE = 32;
static inline unsigned char zone_byte() { return C().zone ? (unsigned char)(C().zone - 1) : 0xD7; }

static void fill(void *p, size_t n) {
  C().poison_fills++;
  uint64_t *q = static_cast<uint64_t *>(p);
  size_t w = n / 8;
  switch (C().poison) {
  case 1: for (size_t i = 0; i < w; i++) q[i] = 0x7ff8dead0000beefULL; break;      // NaN
  case 2: for (size_t i = 0; i < w; i++) q[i] = 0x40c81c8000000000ULL; break;      // 12345.0
  case 3: memset(p, 0xFF, n); break;
  case 4: memset(p, 0x41, n); break;
  case 5: {
    static uint64_t pool[4096];
    static bool made = false;
    if (!made) { uint64_t s = C().poison_seed; for (uint64_t &x : pool) x = sim_mix(&s); made = true; }
    size_t at = (C().poison_seed += 0x9E3779B9) >> 7 & 2047;
    for (size_t i = 0; i < w; i += 2048) memcpy(q + i, pool + at, (w - i < 2048 ? w - i : 2048) * 8);
    break;
  }
  default: return;
  }
  if (C().poison != 3 && C().poison != 4) memset(static_cast<char *>(p) + w * 8, 0x5A, n - w * 8);
}

static int zone_ok(const Block &b) {
  const unsigned char *f = reinterpret_cast<unsigned char *>(b.user) - ZONE;
  const unsigned char *r = reinterpret_cast<unsigned char *>(b.user) + b.size;
  const unsigned char z = zone_byte();
  for (size_t i = 0; i < ZONE; i++)
    if (f[i] != z || r[i] != z) return 0;
  return 1;
}

// ------------------------------------------------------------------ quarantine of freed blocks
static const size_t QCAP = 4096;
static Block quar[QCAP];
static size_t q_at = 0, q_n = 0, q_bytes = 0;
static const unsigned char Q_BYTE = 0xEB;

static int quar_ok(const Block &b) {
  const unsigned char *p = reinterpret_cast<unsigned char *>(b.user);
  for (size_t i = 0; i < b.size; i++)
    if (p[i] != Q_BYTE) return 0;
  return 1;
}
static void quar_pop() {
  size_t i = (q_at + QCAP - q_n) % QCAP;
  if (!quar_ok(quar[i])) C().bad_quarantine++;
  q_bytes -= quar[i].size;
  __libc_free(quar[i].base);
  q_n--;
}
static void quar_push(Block b) {
  while (q_n == QCAP || (q_n && q_bytes + b.size > (64u << 20))) quar_pop();
  memset(b.user, Q_BYTE, b.size);
  quar[q_at] = b;
  q_at = (q_at + 1) % QCAP;
  q_n++;
  q_bytes += b.size;
}

extern "C" void sim_drain_quarantine(void) { while (q_n) quar_pop(); }

extern "C" uint64_t sim_check_heap(void) {
  uint64_t bad = C().bad_redzone + C().bad_quarantine + C().bad_free;
  for (size_t i = 0; i < table_cap; i++)
    if (table[i].user && table[i].user != TOMB && !zone_ok(table[i])) bad++;
  for (size_t k = 0; k < q_n; k++)
    if (!quar_ok(quar[(q_at + QCAP - 1 - k) % QCAP])) bad++;
  return bad;
}

extern "C" void sim_forget_exceptions(void);
extern "C" void sim_reset_alloc(void) {
  sim_forget_exceptions();      // an R error may have jumped out of a catch block
  struct sim_ctl &c = C();
  c.n_alloc = c.n_free = c.n_sized = 0;
  c.fail_at = c.fail_len = c.budget = c.min_fail_size = 0;
  c.intr_at = 0;
  c.site_ra = c.site_n = 0; c.site_rec = 0;
  c.chk_act = 0;
  c.chk_n = c.chk_at = c.chk_fired = c.edge_n = c.edge_of = c.edge_fired = 0;
  c.r_n = c.r_fail_at = c.r_fail_len = c.r_min = 0;
}
// the operation is over: no fault strikes what the simulator does next
extern "C" void sim_calm_alloc(void) {
  struct sim_ctl &c = C();
  c.site_ra = 0;
  c.fail_at = c.budget = c.intr_at = c.chk_at = c.edge_of = c.r_fail_at = c.r_min = 0;
}

// Inside a catch block it is Rcpp, turning the exception into an R condition, that allocates: no
// property of glmmsr hangs on that, and nothing there survives a failure.
struct eh_globals { void *caught; unsigned uncaught; };
static inline bool handling() { return reinterpret_cast<eh_globals *>(__cxxabiv1::__cxa_get_globals())->caught != nullptr; }
extern "C" void sim_forget_exceptions(void) { reinterpret_cast<eh_globals *>(__cxxabiv1::__cxa_get_globals())->caught = nullptr; }

extern "C" int sim_handling(void) { return handling(); }

// ------------------------------------------------------------------ allocation
static inline bool mine(const void *ra) {
  uintptr_t a = reinterpret_cast<uintptr_t>(ra);
  return C().alloc_on && a >= C().lo && a < C().hi;
}
static inline bool fromR(const void *ra) {
  uintptr_t a = reinterpret_cast<uintptr_t>(ra);
  return a >= C().rlo && a < C().rhi;
}

// Where allocations are made: rare places must be struck as often as busy ones.
static const size_t SITES = 4096;
static struct { uint64_t at, n; } site[SITES];
static uint16_t site_order[SITES];
static size_t site_used = 0;
static void site_note(uint64_t at) {
  size_t i = (at * 0x9E3779B97F4A7C15ULL >> 40) & (SITES - 1);
  while (site[i].at && site[i].at != at) i = (i + 1) & (SITES - 1);
  if (!site[i].at) {
    if (site_used > SITES / 2) return;
    site[i].at = at;
    site[i].n = 0;
    site_order[site_used++] = (uint16_t)i;
  }
  site[i].n++;
}
extern "C" size_t sim_sites(uint64_t *out, size_t max) {
  size_t k = 0;
  for (; k < site_used && k < max; k++) { out[2 * k] = site[site_order[k]].at; out[2 * k + 1] = site[site_order[k]].n; }
  return k;
}
static void *tracked(size_t n, size_t align, const void *ra, bool cxx = false) {
  struct sim_ctl &c = C();
  bool exempt = handling();
  if (!exempt) {
  c.n_alloc++;
  if (__builtin_expect(c.site_rec || c.site_ra, 0)) {
    uint64_t at = (uintptr_t)ra - c.lo;
    if (c.site_rec) site_note(at);
    if (c.site_ra && at == c.site_ra && ++c.site_n == c.site_at) {
      if (c.site_act == 1) c.fail_at = c.n_sized + 1;
      else c.intr_at = c.n_alloc;
    }
  }
  if (c.intr_at && c.n_alloc == c.intr_at) { c.chk_at = c.chk_n + 1; c.intr_fired++; }   // R sees it when it next looks
  if (n >= c.min_fail_size) c.n_sized++;
  if (c.fail_at && n >= c.min_fail_size && c.n_sized >= c.fail_at && c.n_sized < c.fail_at + c.fail_len) {
    c.fails_fired++;
    return nullptr;
  }
  if (c.budget && c.live_bytes + n > c.budget) { c.fails_fired++; return nullptr; }
  }
  if (align < 16) align = 16;
  size_t front = align > ZONE ? align : ZONE;
  char *base = static_cast<char *>(__libc_memalign(align, n + front + ZONE));
  if (!base) return nullptr;
  Block b = { base + front, n, base, cxx };
  memset(b.user - ZONE, zone_byte(), ZONE);
  memset(b.user + n, zone_byte(), ZONE);
  if (c.poison) fill(b.user, n);
  table_put(b);
  c.live_blocks++;
  c.live_bytes += n;
  if (cxx) c.cxx_bytes += n;
  if (c.live_bytes > c.peak_bytes) c.peak_bytes = c.live_bytes;
  return b.user;
}

static void release(void *p, const void *ra) {
  if (!p) return;
  if (Block *b = table_find(p)) {
    struct sim_ctl &c = C();
    Block k = *b;
    table_del(b);
    c.n_free++;
    c.live_blocks--;
    c.live_bytes -= k.size;
    if (k.cxx) c.cxx_bytes -= k.size;
    if (!zone_ok(k)) c.bad_redzone++;
    if (c.quarantine) quar_push(k);
    else {
      if (c.poison) fill(k.user, k.size);
      __libc_free(k.base);
    }
    return;
  }
  if (C().poison && (mine(ra) || fromR(ra))) fill(p, malloc_usable_size(p));
  if (C().quarantine && mine(ra))
    for (size_t k = 0; k < q_n; k++)
      if (quar[(q_at + QCAP - 1 - k) % QCAP].user == p) { C().bad_free++; return; }   // double free
  __libc_free(p);
}

#define RA __builtin_return_address(0)

// What lies on the stack below the code of glmmsr is what earlier calls left there.
static const size_t STACK = 2048;
__attribute__((noinline)) static void scribble() {
  char b[STACK] __attribute__((aligned(16)));
  fill(b, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}
#define STALE_STACK do { if (__builtin_expect(C().poison && mine(RA), 0)) scribble(); } while (0)

static bool r_fails(size_t n, const void *ra) {
  struct sim_ctl &c = C();
  if (!c.r_min || n < c.r_min || (uintptr_t)ra < c.vlo || (uintptr_t)ra >= c.vhi) return false;   // R's own vectors only
  if (handling()) return false;
  c.r_n++;
  if (c.r_fail_at && c.r_n >= c.r_fail_at && c.r_n < c.r_fail_at + c.r_fail_len) {
    c.r_fails_fired++;
    return true;
  }
  return false;
}

// A successful allocation may leave anything in errno.
static inline void errno_after(void *p) { if (!p) errno = ENOMEM; else if (C().stale) errno = C().stale; }

extern "C" void *malloc(size_t n) {
  const void *ra = RA;
  if (mine(ra)) { void *p = tracked(n, 16, ra); errno_after(p); STALE_STACK; return p; }
  if (r_fails(n, ra)) { errno = ENOMEM; return nullptr; }
  void *p = __libc_malloc(n);
  if (p && C().poison && fromR(ra)) fill(p, n);
  return p;
}
extern "C" void *calloc(size_t a, size_t b) {
  const void *ra = RA;
  if (mine(ra)) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = tracked(n, 16, ra);
    if (p) memset(p, 0, n);
    errno_after(p);
    return p;
  }
  return __libc_calloc(a, b);
}
extern "C" void free(void *p) { release(p, RA); STALE_STACK; }
extern "C" void *realloc(void *p, size_t n) {
  const void *ra = RA;
  Block *b = p ? table_find(p) : nullptr;
  if (!b && !(mine(ra) && !p)) return __libc_realloc(p, n);
  if (p && n == 0) { release(p, ra); return nullptr; }
  void *q = tracked(n, 16, ra);
  if (!q) { errno = ENOMEM; return nullptr; }
  if (p) {
    b = table_find(p);
    memcpy(q, p, b->size < n ? b->size : n);
    release(p, ra);
  }
  return q;
}
extern "C" void *memalign(size_t al, size_t n) {
  if (mine(RA)) { void *p = tracked(n, al, RA); errno_after(p); return p; }
  return __libc_memalign(al, n);
}
extern "C" void *aligned_alloc(size_t al, size_t n) {
  if (mine(RA)) { void *p = tracked(n, al, RA); errno_after(p); return p; }
  return __libc_memalign(al, n);
}
extern "C" int posix_memalign(void **out, size_t al, size_t n) {
  void *p = mine(RA) ? tracked(n, al, RA) : __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

static void *cxx_new(size_t n, size_t al, const void *ra) {
  if (!n) n = 1;
  return mine(ra) ? tracked(n, al, ra, true) : __libc_memalign(al < 16 ? 16 : al, n);
}
void *operator new(size_t n) { void *p = cxx_new(n, 16, RA); if (!p) throw std::bad_alloc(); STALE_STACK; return p; }
void *operator new[](size_t n) { void *p = cxx_new(n, 16, RA); if (!p) throw std::bad_alloc(); STALE_STACK; return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return cxx_new(n, 16, RA); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return cxx_new(n, 16, RA); }
void *operator new(size_t n, std::align_val_t a) { void *p = cxx_new(n, (size_t)a, RA); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = cxx_new(n, (size_t)a, RA); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { release(p, RA); STALE_STACK; }
void operator delete[](void *p) noexcept { release(p, RA); }
void operator delete(void *p, size_t) noexcept { release(p, RA); STALE_STACK; }
void operator delete[](void *p, size_t) noexcept { release(p, RA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p, RA); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p, RA); }
void operator delete(void *p, std::align_val_t) noexcept { release(p, RA); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p, RA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { release(p, RA); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { release(p, RA); }

// ------------------------------------------------------------------ collections
// R may collect garbage at any of its allocations.  Here it does so at some of those that the native
// code of glmmsr asks for (with their arguments protected, as R protects them), and at the saving and
// restoring of the generator's state that surround every native function.
typedef void *SEXP_;
static void *r_fun(const char *n) { return dlsym(RTLD_NEXT, n); }
static bool edge(const void *ra, bool any) {
  struct sim_ctl &c = C();
  if (!c.edge_of || !(any || mine(ra)) || handling()) return false;
  c.edge_n++;
  if (c.edge_fired >= c.edge_max || sim_mix(&c.edge_seed) % c.edge_of) return false;
  c.edge_fired++;
  return true;
}
#define REAL(name, ...) static const auto real = reinterpret_cast<__VA_ARGS__>(r_fun(#name))
static void collect_now(SEXP_ a = nullptr, SEXP_ b = nullptr, SEXP_ d = nullptr) {
  typedef SEXP_ (*protect_t)(SEXP_); typedef void (*unprotect_t)(int); typedef void (*gc_t)(void);
  static protect_t pr = nullptr; static unprotect_t un = nullptr; static gc_t gc = nullptr;
  if (!gc) {
    pr = reinterpret_cast<protect_t>(dlsym(RTLD_DEFAULT, "Rf_protect"));
    un = reinterpret_cast<unprotect_t>(dlsym(RTLD_DEFAULT, "Rf_unprotect"));
    gc = reinterpret_cast<gc_t>(dlsym(RTLD_DEFAULT, "R_gc"));
  }
  SEXP_ x[3] = { a, b, d };
  int n = 0;
  for (SEXP_ s : x) if (s) { pr(s); n++; }
  gc();
  if (n) un(n);
}
extern "C" SEXP_ Rf_allocVector(unsigned t, ptrdiff_t n) {
  REAL(Rf_allocVector, SEXP_ (*)(unsigned, ptrdiff_t));
  if (edge(RA, false)) collect_now();
  return real(t, n);
}
extern "C" SEXP_ Rf_mkString(const char *s) {
  REAL(Rf_mkString, SEXP_ (*)(const char *));
  if (edge(RA, false)) collect_now();
  return real(s);
}
extern "C" SEXP_ Rf_mkChar(const char *s) {
  REAL(Rf_mkChar, SEXP_ (*)(const char *));
  if (edge(RA, false)) collect_now();
  return real(s);
}
extern "C" SEXP_ Rf_cons(SEXP_ a, SEXP_ b) {
  REAL(Rf_cons, SEXP_ (*)(SEXP_, SEXP_));
  if (edge(RA, false)) collect_now(a, b);
  return real(a, b);
}
extern "C" SEXP_ Rf_lcons(SEXP_ a, SEXP_ b) {
  REAL(Rf_lcons, SEXP_ (*)(SEXP_, SEXP_));
  if (edge(RA, false)) collect_now(a, b);
  return real(a, b);
}
extern "C" SEXP_ Rf_coerceVector(SEXP_ a, unsigned t) {
  REAL(Rf_coerceVector, SEXP_ (*)(SEXP_, unsigned));
  if (edge(RA, false)) collect_now(a);
  return real(a, t);
}
extern "C" SEXP_ R_MakeExternalPtr(void *p, SEXP_ tag, SEXP_ prot) {
  REAL(R_MakeExternalPtr, SEXP_ (*)(void *, SEXP_, SEXP_));
  if (edge(RA, false)) collect_now(tag, prot);
  return real(p, tag, prot);
}
extern "C" void GetRNGstate(void) {
  REAL(GetRNGstate, void (*)(void));
  if (edge(RA, true)) collect_now();
  real();
  if (C().poison && C().alloc_on) scribble();
}
extern "C" void PutRNGstate(void) {
  REAL(PutRNGstate, void (*)(void));
  if (edge(RA, true)) collect_now();
  real();
}

// ------------------------------------------------------------------ clocks
static void look() {
  struct sim_ctl &c = C();
  c.clock_reads++;
  c.real_ns += c.tick_ns;
  c.mono_ns += c.tick_ns;
  c.cpu_ns += c.tick_ns;
  c.clock_total_ns += c.tick_ns;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  struct sim_ctl &c = C();
  if (!c.clock_on) return (int)syscall(SYS_clock_gettime, id, ts);
  look();
  int64_t v;
  switch (id) {
  case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = c.real_ns; break;
  case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = c.cpu_ns; break;
  default: v = c.mono_ns;
  }
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *tz) {
  if (!C().clock_on) return (int)syscall(SYS_gettimeofday, tv, tz);
  look();
  tv->tv_sec = C().real_ns / 1000000000;
  tv->tv_usec = C().real_ns % 1000000000 / 1000;
  return 0;
}
extern "C" int timespec_get(struct timespec *ts, int base) {        // R's own, behind Sys.time() and elapsed times
  if (base != TIME_UTC) return 0;
  if (!C().clock_on) { syscall(SYS_clock_gettime, CLOCK_REALTIME, ts); return base; }
  look();
  ts->tv_sec = C().real_ns / 1000000000;
  ts->tv_nsec = C().real_ns % 1000000000;
  return base;
}
extern "C" time_t time(time_t *t) {
  time_t v;
  if (C().clock_on) { look(); v = C().real_ns / 1000000000; }
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  if (t) *t = v;
  return v;
}
extern "C" clock_t clock(void) {
  if (C().clock_on) { look(); return C().cpu_ns / 1000; }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
extern "C" clock_t times(struct tms *b) {
  if (!C().clock_on) return (clock_t)syscall(SYS_times, b);
  look();
  if (b) { memset(b, 0, sizeof *b); b->tms_utime = C().cpu_ns / 10000000; }
  return C().mono_ns / 10000000;
}
extern "C" int getrusage(int who, struct rusage *u) __THROW {
  if (!C().clock_on) return (int)syscall(SYS_getrusage, who, u);
  look();
  memset(u, 0, sizeof *u);
  if (who == RUSAGE_SELF) {
    u->ru_utime.tv_sec = C().cpu_ns / 1000000000;
    u->ru_utime.tv_usec = C().cpu_ns % 1000000000 / 1000;
  }
  return 0;
}

// ------------------------------------------------------------------ entropy and identity
extern "C" ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!C().entropy_on) return syscall(SYS_getrandom, buf, n, fl);
  C().entropy_reads++;
  unsigned char *b = static_cast<unsigned char *>(buf);
  for (size_t i = 0; i < n; i++) b[i] = (unsigned char)sim_mix(&C().entropy);
  return (ssize_t)n;
}
extern "C" pid_t getpid(void) {
  if (C().entropy_on && C().fake_pid) return C().fake_pid;
  return (pid_t)syscall(SYS_getpid);
}
// std::random_device::_M_getval()
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void *) {
  if (C().entropy_on) { C().entropy_reads++; return (unsigned)sim_mix(&C().entropy); }
  unsigned v = 0;
  syscall(SYS_getrandom, &v, sizeof v, 0);
  return v;
}

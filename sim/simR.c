/* R glue of the simulator: access to the control block of simrt.so, forking, interrupts,
   descriptors.  No decision is taken here. */
#define _GNU_SOURCE 1
#include "simrt.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fenv.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <R.h>
#include <Rembedded.h>
#include <Rinternals.h>
#include <R_ext/Rdynload.h>

extern int R_interrupts_pending;
extern void Rf_onintr(void);
extern void (*R_PolledEvents)(void);
static void (*polled)(void);
static SEXP label_call, event_call;      /* what to evaluate at a check, if anything */
static int busy;
/* R calls this at every one of its checks for interrupts: what is due is delivered, though not while
   Rcpp turns an exception into a condition */
static void ask(SEXP call) {
  int err = 0;
  busy = 1;
  R_tryEvalSilent(call, R_GlobalEnv, &err);
  busy = 0;
}
static void at_check(void) {
  if (busy) return;
  sim_ctl.chk_n++;
  if (label_call) ask(label_call);
  if (sim_ctl.chk_at && sim_ctl.chk_n >= sim_ctl.chk_at && !sim_handling()) {
    uint64_t at = sim_ctl.chk_at;
    sim_ctl.chk_at = 0;
    if (sim_ctl.chk_act == 2) {
      /* the handler says whether it could run here */
      int err = 0;
      SEXP r = event_call ? R_tryEvalSilent(event_call, R_GlobalEnv, &err) : NULL;
      if (r && TYPEOF(r) == LGLSXP && LENGTH(r) == 1 && !LOGICAL(r)[0]) sim_ctl.chk_at = at;
      else sim_ctl.chk_fired++;
    } else {
      sim_ctl.chk_fired++;
      if (sim_ctl.chk_act == 1) Rf_error("reached elapsed time limit");
      Rf_onintr();
    }
  }
  if (polled) polled();
}

static int64_t real_now_ms(void) {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (int64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

static int find_range(struct dl_phdr_info *i, size_t n, void *d) {
  (void)n; (void)d;
  const char *b = strrchr(i->dlpi_name, '/');
  b = b ? b + 1 : i->dlpi_name;
  uintptr_t lo = (uintptr_t)-1, hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      if (a < lo) lo = a;
      if (a + i->dlpi_phdr[k].p_memsz > hi) hi = a + i->dlpi_phdr[k].p_memsz;
    }
  if (!strcmp(b, "glmmsr.so")) { sim_ctl.lo = lo; sim_ctl.hi = hi; }
  if (!strncmp(b, "libR.so", 7)) { sim_ctl.rlo = lo; sim_ctl.rhi = hi; }
  return 0;
}
SEXP sim_setup(void) {
  dl_iterate_phdr(find_range, NULL);
  polled = R_PolledEvents;
  R_PolledEvents = at_check;
  Dl_info di;
  ElfW(Sym) *sy = NULL;
  void *f = dlsym(RTLD_DEFAULT, "Rf_allocVector3");
  if (!f || !dladdr1(f, &di, (void **)&sy, RTLD_DL_SYMENT) || !sy) return ScalarLogical(0);
  sim_ctl.vlo = (uintptr_t)f;
  sim_ctl.vhi = (uintptr_t)f + sy->st_size;
  return ScalarLogical(sim_ctl.lo != 0 && sim_ctl.rlo != 0);
}

enum kind { I32, U64, I64 };
static struct { const char *n; enum kind k; void *p; } fields[] = {
#define F(name, kind) { #name, kind, &sim_ctl.name }
  F(alloc_on, I32), F(n_alloc, U64), F(n_free, U64), F(live_blocks, U64), F(live_bytes, U64), F(cxx_bytes, U64),
  F(peak_bytes, U64), F(fail_at, U64), F(fail_len, U64), F(budget, U64), F(min_fail_size, U64),
  F(n_sized, U64), F(fails_fired, U64), F(intr_at, U64), F(intr_fired, U64), F(r_n, U64),
  F(site_rec, I32), F(chk_act, I32), F(zone, I32), F(stale, I32), F(chk_n, U64), F(chk_at, U64), F(chk_fired, U64), F(edge_n, U64), F(edge_of, U64), F(edge_seed, U64), F(edge_max, U64), F(edge_fired, U64),
  F(r_min, U64), F(r_fail_at, U64), F(r_fail_len, U64), F(r_fails_fired, U64), F(poison, I32),
  F(poison_seed, U64), F(quarantine, I32), F(bad_redzone, U64), F(bad_quarantine, U64),
  F(bad_free, U64), F(poison_fills, U64), F(clock_on, I32), F(real_ns, I64), F(mono_ns, I64),
  F(cpu_ns, I64), F(tick_ns, I64), F(clock_reads, U64), F(clock_total_ns, I64),
  F(entropy_on, I32), F(entropy, U64), F(fake_pid, I32), F(entropy_reads, U64),
#undef F
};
static int field(SEXP n) {
  const char *s = CHAR(STRING_ELT(n, 0));
  for (size_t i = 0; i < sizeof fields / sizeof *fields; i++)
    if (!strcmp(s, fields[i].n)) return (int)i;
  error("no simulator field %s", s);
}
SEXP sim_get(SEXP n) {
  int i = field(n);
  switch (fields[i].k) {
  case I32: return ScalarReal(*(int *)fields[i].p);
  case U64: return ScalarReal((double)*(uint64_t *)fields[i].p);
  default:  return ScalarReal((double)*(int64_t *)fields[i].p);
  }
}
SEXP sim_set(SEXP n, SEXP v) {
  int i = field(n);
  double x = asReal(v);
  switch (fields[i].k) {
  case I32: *(int *)fields[i].p = (int)x; break;
  case U64: *(uint64_t *)fields[i].p = (uint64_t)x; break;
  default:  *(int64_t *)fields[i].p = (int64_t)x;
  }
  return R_NilValue;
}
SEXP sim_reset(void) {
  sim_reset_alloc();
  if (sim_ctl.stale) { feraiseexcept(FE_ALL_EXCEPT); errno = sim_ctl.stale; }
  return R_NilValue;
}
SEXP sim_calm(void) { sim_calm_alloc(); return R_NilValue; }
SEXP sim_arm_r(SEXP v) {
  sim_ctl.r_min = (uint64_t)REAL(v)[0];
  sim_ctl.r_fail_at = (uint64_t)REAL(v)[1];
  sim_ctl.r_fail_len = (uint64_t)REAL(v)[2];
  sim_ctl.r_n = 0;
  return R_NilValue;
}
SEXP sim_heap(void) { return ScalarReal((double)sim_check_heap()); }
SEXP sim_drain(void) { sim_drain_quarantine(); return R_NilValue; }
SEXP sim_advance(SEXP real, SEXP mono, SEXP cpu) {
  double r = asReal(real) * 1e9, m = asReal(mono) * 1e9, c = asReal(cpu) * 1e9;
  sim_ctl.real_ns += (int64_t)r;
  sim_ctl.mono_ns += (int64_t)m;
  sim_ctl.cpu_ns += (int64_t)c;
  sim_ctl.clock_total_ns += (int64_t)(r < 0 ? -r : r);
  return R_NilValue;
}
SEXP sim_unif(SEXP seed, SEXP n) {
  uint64_t s = (uint64_t)asReal(seed) * 0x9E3779B97F4A7C15ULL + 0x1234567;
  int k = asInteger(n);
  SEXP r = PROTECT(allocVector(REALSXP, k));
  for (int i = 0; i < k; i++) REAL(r)[i] = (double)(sim_mix(&s) >> 11) * 0x1.0p-53;
  UNPROTECT(1);
  return r;
}
SEXP sim_interrupt_now(void) {
  R_interrupts_pending = 1;
  R_CheckUserInterrupt();
  return R_NilValue;
}
SEXP sim_pending(SEXP v) {
  int old = R_interrupts_pending;
  if (LENGTH(v)) R_interrupts_pending = asInteger(v);
  return ScalarInteger(old);
}
/* the operation is over: was an interrupt delivered to it? */
SEXP sim_over(void) {
  int d = sim_ctl.chk_fired > 0 && sim_ctl.chk_act == 0 && !R_interrupts_pending;
  R_interrupts_pending = 0;
  sim_calm_alloc();
  return ScalarLogical(d);
}
static void keep(SEXP *where, SEXP v) {
  if (*where) R_ReleaseObject(*where);
  *where = isNull(v) ? NULL : v;
  if (*where) R_PreserveObject(v);
}
SEXP sim_label(SEXP call) { keep(&label_call, call); return R_NilValue; }
SEXP sim_event(SEXP call) { keep(&event_call, call); return R_NilValue; }
SEXP sim_site(SEXP act, SEXP ra, SEXP at, SEXP len) {
  sim_ctl.site_act = asInteger(act);
  sim_ctl.site_ra = (uint64_t)asReal(ra);
  sim_ctl.site_at = (uint64_t)asReal(at);
  sim_ctl.site_n = 0;
  sim_ctl.fail_len = (uint64_t)asReal(len);
  return R_NilValue;
}
SEXP sim_site_table(void) {
  static uint64_t b[2 * 4096];
  size_t n = sim_sites(b, 4096);
  SEXP r = PROTECT(allocMatrix(REALSXP, 2, (int)n));
  for (size_t i = 0; i < 2 * n; i++) REAL(r)[i] = (double)b[i];
  UNPROTECT(1);
  return r;
}
/* a pipe: c(read end, write end) */
SEXP sim_pipe(void) {
  int fd[2];
  if (pipe(fd)) error("pipe: %s", strerror(errno));
  SEXP r = allocVector(INTSXP, 2);
  for (int i = 0; i < 2; i++) { INTEGER(r)[i] = fcntl(fd[i], F_DUPFD_CLOEXEC, 110); close(fd[i]); }
  return r;
}
SEXP sim_close(SEXP fd) { close(asInteger(fd)); return R_NilValue; }
SEXP sim_redirect_fd(SEXP fd_, SEXP to) {
  int fd = asInteger(fd_);
  fflush(stdout); fflush(stderr);
  int saved = fcntl(fd, F_DUPFD_CLOEXEC, 100);
  dup2(asInteger(to), fd);
  return ScalarInteger(saved);
}
SEXP sim_hash(SEXP raw) {
  uint64_t h = 0xcbf29ce484222325ULL;
  for (R_xlen_t i = 0; i < XLENGTH(raw); i++) { h ^= RAW(raw)[i]; h *= 0x100000001b3ULL; }
  char b[24];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
  return mkString(b);
}

/* fork: c(pid, read end) in the parent, c(0, write end) in the child */
SEXP sim_fork(void) {
  int fd[2];
  if (pipe(fd)) error("pipe: %s", strerror(errno));
  fflush(stdout); fflush(stderr);
  pid_t parent = (pid_t)syscall(SYS_getpid);
  pid_t p = fork();
  if (p < 0) { close(fd[0]); close(fd[1]); error("fork: %s", strerror(errno)); }
  SEXP r = PROTECT(allocVector(INTSXP, 2));
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if ((pid_t)syscall(SYS_getppid) != parent) _exit(97);
    close(fd[0]);
    INTEGER(r)[0] = 0; INTEGER(r)[1] = fd[1];
  } else {
    close(fd[1]);
    INTEGER(r)[0] = p; INTEGER(r)[1] = fd[0];
  }
  UNPROTECT(1);
  return r;
}
SEXP sim_send(SEXP fd, SEXP raw) {
  const unsigned char *b = RAW(raw);
  size_t n = XLENGTH(raw);
  while (n) {
    ssize_t k = write(asInteger(fd), b, n);
    if (k < 0) { if (errno == EINTR) continue; break; }
    b += k; n -= k;
  }
  return R_NilValue;
}
/* read to EOF or for at most ms real milliseconds (then the child is killed): list(raw, status) */
SEXP sim_collect(SEXP pid_, SEXP fd_, SEXP ms_) {
  pid_t pid = asInteger(pid_);
  int fd = asInteger(fd_), timed = 0;
  int64_t end = real_now_ms() + asInteger(ms_);
  size_t cap = 65536, n = 0;
  unsigned char *b = malloc(cap);
  for (;;) {
    struct pollfd pf = { fd, POLLIN, 0 };
    int64_t left = end - real_now_ms();
    if (left <= 0) { timed = 1; break; }
    int k = poll(&pf, 1, (int)left);
    if (k < 0 && errno == EINTR) continue;
    if (k == 0) { timed = 1; break; }
    if (n == cap) b = realloc(b, cap *= 2);
    ssize_t g = read(fd, b + n, cap - n);
    if (g < 0 && errno == EINTR) continue;
    if (g <= 0) break;
    n += g;
  }
  close(fd);
  if (timed) kill(pid, SIGKILL);
  int st = 0;
  for (;;) {
    pid_t w = waitpid(pid, &st, timed ? 0 : WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) { st = 0; break; }
    if (w == 0) {
      if (real_now_ms() > end) { kill(pid, SIGKILL); timed = 1; }
      else usleep(500);
    }
  }
  SEXP r = PROTECT(allocVector(VECSXP, 2));
  SEXP raw = allocVector(RAWSXP, n);
  SET_VECTOR_ELT(r, 0, raw);
  memcpy(RAW(raw), b, n);
  free(b);
  char s[40];
  if (timed) snprintf(s, sizeof s, "timeout");
  else if (WIFSIGNALED(st)) snprintf(s, sizeof s, "signal %d", WTERMSIG(st));
  else snprintf(s, sizeof s, "exit %d", WEXITSTATUS(st));
  SET_VECTOR_ELT(r, 1, mkString(s));
  UNPROTECT(1);
  return r;
}
SEXP sim_exit(SEXP code) { fflush(stdout); _exit(asInteger(code)); return R_NilValue; }
SEXP sim_die(SEXP sig) { kill((pid_t)syscall(SYS_getpid), asInteger(sig)); return R_NilValue; }

SEXP sim_redirect(SEXP fd_, SEXP path) {
  int fd = asInteger(fd_);
  fflush(stdout); fflush(stderr);
  int to = open(CHAR(STRING_ELT(path, 0)), O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (to < 0) error("open: %s", strerror(errno));
  int saved = fcntl(fd, F_DUPFD_CLOEXEC, 100);
  dup2(to, fd);
  close(to);
  return ScalarInteger(saved);
}
SEXP sim_restore(SEXP fd_, SEXP saved) {
  fflush(stdout); fflush(stderr);
  clearerr(stdout);
  dup2(asInteger(saved), asInteger(fd_));
  close(asInteger(saved));
  return R_NilValue;
}
/* back from a pipe nobody may read: what could not be written is lost */
SEXP sim_unpipe(SEXP fd_, SEXP saved) {
  int null = open("/dev/null", O_WRONLY);
  dup2(null, asInteger(fd_));
  close(null);
  fflush(stdout); clearerr(stdout);
  dup2(asInteger(saved), asInteger(fd_));
  close(asInteger(saved));
  return R_NilValue;
}
SEXP sim_fds(void) {
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  if (d) { while (readdir(d)) n++; closedir(d); }
  return ScalarInteger(n - 3);
}
SEXP sim_limits(SEXP mb) {
  struct rlimit r = { (rlim_t)asReal(mb) << 20, (rlim_t)asReal(mb) << 20 };
  setrlimit(RLIMIT_AS, &r);
  struct rlimit z = { 0, 0 };
  setrlimit(RLIMIT_CORE, &z);
  return R_NilValue;
}
SEXP sim_readline(SEXP fd_) {
  int fd = asInteger(fd_);
  char b[8192];
  size_t n = 0;
  while (n < sizeof b - 1) {
    ssize_t g = read(fd, b + n, 1);
    if (g < 0 && errno == EINTR) continue;
    if (g <= 0) { if (!n) return R_NilValue; break; }
    if (b[n] == '\n') break;
    n++;
  }
  b[n] = 0;
  return mkString(b);
}
/* a directory for temporary files of its own */
SEXP sim_tempdir(SEXP path) {
  R_TempDir = strdup(CHAR(STRING_ELT(path, 0)));
  return R_NilValue;
}
SEXP sim_puts(SEXP fd_, SEXP s) {
  void (*old)(int) = signal(SIGPIPE, SIG_IGN);
  const char *c = CHAR(STRING_ELT(s, 0));
  size_t n = strlen(c);
  while (n) {
    ssize_t k = write(asInteger(fd_), c, n);
    if (k < 0) { if (errno == EINTR) continue; break; }
    c += k; n -= k;
  }
  signal(SIGPIPE, old);
  return R_NilValue;
}
SEXP sim_dup(SEXP fd) { return ScalarInteger(fcntl(asInteger(fd), F_DUPFD_CLOEXEC, 90)); }

static const R_CallMethodDef calls[] = {
#define E(f, n) { #f, (DL_FUNC)&f, n }
  E(sim_setup, 0), E(sim_get, 1), E(sim_set, 2), E(sim_reset, 0), E(sim_heap, 0), E(sim_calm, 0), E(sim_arm_r, 1), E(sim_drain, 0),
  E(sim_advance, 3), E(sim_unif, 2), E(sim_interrupt_now, 0), E(sim_pending, 1), E(sim_over, 0), E(sim_hash, 1),
  E(sim_fork, 0), E(sim_send, 2), E(sim_collect, 3), E(sim_exit, 1), E(sim_die, 1),
  E(sim_redirect, 2), E(sim_restore, 2), E(sim_fds, 0), E(sim_limits, 1), E(sim_readline, 1),
  E(sim_puts, 2), E(sim_tempdir, 1), E(sim_dup, 1), E(sim_label, 1), E(sim_event, 1), E(sim_site, 4), E(sim_site_table, 0),
  E(sim_pipe, 0), E(sim_unpipe, 2), E(sim_close, 1), E(sim_redirect_fd, 2),
#undef E
  { NULL, NULL, 0 }
};
void R_init_simR(DllInfo *i) {
  R_registerRoutines(i, NULL, calls, NULL, NULL);
  R_useDynamicSymbols(i, FALSE);
}

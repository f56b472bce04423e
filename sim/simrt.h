// Shared control block between the preloaded runtime (simrt.so) and the R glue (simR.so).
#ifndef SIMRT_H
#define SIMRT_H
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

enum { SIM_MAX_FAULTS = 64 };

struct sim_ctl {
  // ---- native allocations made by glmmsr.so
  int      alloc_on;        // track allocations whose caller lies in [lo, hi)
  uintptr_t lo, hi;         // mapped range of glmmsr.so
  uintptr_t rlo, rhi;       // mapped range of libR.so
  uintptr_t vlo, vhi;       // R's vector allocator in it
  uint64_t n_alloc;         // tracked allocations since the last reset
  uint64_t n_free;
  uint64_t live_blocks, live_bytes, peak_bytes;
  uint64_t cxx_bytes;       // live, from operator new
  uint64_t fail_at;         // fail the fail_at-th tracked allocation (1-based; 0 = off) ...
  uint64_t fail_len;        // ... and the fail_len-1 that follow it
  uint64_t budget;          // fail whatever would take live_bytes past this (0 = off)
  uint64_t min_fail_size;   // only count allocations at least this big for fail_at
  uint64_t n_sized;         // how many of those
  uint64_t fails_fired;
  uint64_t intr_at;         // the user interrupts at this tracked allocation
  uint64_t intr_fired;
  // ---- allocations by where in the code they are made
  int      site_rec;        // count them
  uint64_t site_ra, site_at, site_n;   // strike at the site_at-th of those made at site_ra ...
  int      site_act;        // ... by failing it (1) or with an interrupt (2)
  // ---- what happens at R's own checks for events
  uint64_t chk_n, chk_at, chk_fired;
  int      chk_act;         // 0 the user interrupts, 1 the time limit is reached, 2 an event handler runs
  // ---- collections at R allocations made by glmmsr.so, and where its calls begin and end
  uint64_t edge_n, edge_of, edge_seed, edge_max, edge_fired;
  // ---- R vectors (malloc called from libR)
  uint64_t r_n, r_min, r_fail_at, r_fail_len, r_fails_fired;
  // ---- memory contents
  int      zone;            // the byte around blocks
  int      stale;           // errno as it may be left behind, and all exception flags raised when an operation starts
  int      poison;          // 0 off; 1..5 pattern for fresh and freed memory
  uint64_t poison_seed;
  int      quarantine;      // keep freed tracked blocks back and check nobody wrote to them
  uint64_t bad_redzone, bad_quarantine, bad_free;
  uint64_t poison_fills;
  // ---- clock
  int      clock_on;
  int64_t  real_ns, mono_ns, cpu_ns;   // simulated now
  int64_t  tick_ns;                    // every look at a clock moves it by this
  uint64_t clock_reads;
  int64_t  clock_total_ns;             // how far the simulated clock was moved in all
  // ---- entropy and identity
  int      entropy_on;
  uint64_t entropy;
  int      fake_pid;
  uint64_t entropy_reads;
};

extern struct sim_ctl sim_ctl;
void     sim_reset_alloc(void);
void     sim_calm_alloc(void);
uint64_t sim_check_heap(void);     // walk live tracked blocks and the quarantine; number of bad blocks
uint64_t sim_mix(uint64_t *s);     // splitmix64
int      sim_handling(void);
size_t   sim_sites(uint64_t *out, size_t max);   // pairs of site and count, in order of first use
void     sim_drain_quarantine(void);

#ifdef __cplusplus
}
#endif
#endif

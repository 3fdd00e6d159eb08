// Shared vocabulary of the simulator: PRNG, configurations, results, coverage.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include "api.h"

namespace sim {

inline uint64_t mix64 (uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t mix2 (uint64_t a, uint64_t b) { return mix64 (mix64 (a) ^ (b * 0xd6e8feb86659fd93ULL)); }

struct Rng
{
  uint64_t s;
  explicit Rng (uint64_t seed) : s (mix64 (seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64 (s); }
  int64_t range (int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + int64_t (next() % uint64_t (hi - lo + 1)); }
  bool chance (int num, int den) { return int64_t (next() % uint64_t (den)) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template<class T> T pick (std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
};

struct Cfg
{
  int mode = 0, ratio = 2, prec = 8, sse = 1, filter = 0;     // mode: 0 up 1 down; filter: 0 FIR 1 IIR
  bool supported() const
  {
    if (ratio == 1)
      return true;
    return !(filter == 1 && prec == 1);
  }
  int index() const                                            // 0 .. N-1
  {
    int p = prec == 1 ? 0 : prec == 8 ? 1 : prec == 12 ? 2 : prec == 16 ? 3 : prec == 20 ? 4 : 5;
    int r = ratio == 1 ? 0 : ratio == 2 ? 1 : ratio == 4 ? 2 : 3;
    return (((mode * 4 + r) * 6 + p) * 2 + sse) * 2 + filter;
  }
  static constexpr int N = 2 * 4 * 6 * 2 * 2;
  int64_t pack() const { return ((((mode * 10 + ratio) * 100 + prec) * 10 + sse) * 10 + filter); }
  static Cfg unpack (int64_t v)
  {
    Cfg c; c.filter = v % 10; v /= 10; c.sse = v % 10; v /= 10; c.prec = v % 100; v /= 100; c.ratio = v % 10; v /= 10; c.mode = int (v & 1);
    c.filter &= 1; c.sse &= 1;
    if (c.ratio != 1 && c.ratio != 2 && c.ratio != 4 && c.ratio != 8) c.ratio = 2;
    if (c.prec != 1 && c.prec != 8 && c.prec != 12 && c.prec != 16 && c.prec != 20 && c.prec != 24) c.prec = 8;
    if (!c.supported()) c.prec = 8;
    return c;
  }
  std::string str() const;
  int nominal_db() const { return prec == 8 ? 48 : prec == 12 ? 72 : prec == 16 ? 96 : prec == 20 ? 120 : prec == 24 ? 144 : 0; }
  int in_mul() const { return mode ? ratio : 1; }              // low-rate n -> input samples
  int out_mul() const { return mode ? 1 : ratio; }
};

// ---- statistics ----
#define SIM_STATS(X) \
  X(ops) X(calls) X(proc_calls) X(low_samples) X(out_samples_checked) X(instances) X(streams_compared) \
  X(f_alloc_fail) X(f_alloc_garbage) X(f_alloc_misplaced) X(f_alloc_reuse) X(f_ctor_throw) X(f_size_overflow) \
  X(f_round_mode) X(f_ftz) X(f_x87) X(f_stack_poison) X(f_host) X(host_reads) X(f_rand_state) X(f_guard_page) X(f_misaligned) X(f_far_buffer) X(f_adjacent) X(f_far_heap) \
  X(f_zero_block) X(f_tiny_block) X(f_huge_block) X(f_giant_block) X(f_vast_block) X(f_nan_inf) X(f_garbage) X(f_reset) X(f_call_cut) X(f_restart) \
  X(f_move) X(f_swap) X(f_grow) X(f_preempt) X(f_preempt_global) X(f_silence) X(f_level_jump) X(f_long_run) X(f_repeat) X(f_crowd) \
  X(f_query) X(f_selftest) X(f_misuse) X(f_stderr_fails) X(f_stdout_fails) X(mem_accesses_checked) X(sched_steps) X(alloc_calls) X(aa_objects) X(tone_windows) X(lock_contended)

enum Stat {
#define X(n) S_##n,
  SIM_STATS (X)
#undef X
  S_COUNT
};
extern const char *stat_names[S_COUNT];

constexpr size_t FEATURE_BITS = 1 << 18;

struct Result            // shared between runner (parent) and run (child)
{
  int      status;       // 0 not finished, 1 ok, 2 violation, 3 internal error
  char     oracle[48];
  char     msg[1024];
  uint64_t hash;         // of everything observed in the run
  uint64_t ileave;       // of the schedule taken
  uint64_t stats[S_COUNT];
  double   max_ratio;    // largest |error| / tolerance seen
  char     max_where[128];
  unsigned char features[FEATURE_BITS / 8];
  size_t   nfeat;        // new features set in this run
};
extern Result *res;

[[noreturn]] void fail (const char *oracle, const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
[[noreturn]] void internal_error (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));

inline void stat (Stat s, uint64_t n = 1) { res->stats[s] += n; }
inline void hash_u64 (uint64_t v) { res->hash = mix2 (res->hash, v); }
inline void hash_bytes (const void *p, size_t n)
{
  const unsigned char *b = static_cast<const unsigned char *> (p);
  uint64_t h = res->hash;
  while (n >= 8) { uint64_t v; memcpy (&v, b, 8); h = (h ^ v) * 0x9ddfea08eb382d69ULL; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) h = (h ^ *b++) * 0x100000001b3ULL;
  res->hash = h;
}
inline void feature (uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0)
{
  uint64_t h = mix2 (mix2 (a, b), mix2 (c, d)) % FEATURE_BITS;
  unsigned char m = 1 << (h & 7);
  if (!(res->features[h >> 3] & m)) { res->features[h >> 3] |= m; res->nfeat++; }
}

// ---- simulated allocator ----
namespace arena {
  enum Fill { FILL_ZERO, FILL_FF, FILL_NAN, FILL_HUGE, FILL_RANDOM, FILL_STALE, FILL_COUNT };
  enum FailMode { FAIL_NONE, FAIL_MASK, FAIL_FROM, FAIL_PROB };
  struct Ctx
  {
    int      fill = FILL_ZERO;
    int      place = 0;          // 0 calm (64 aligned + 16), 1 seeded residues and gaps, 2 reuse freed blocks first
    uint64_t seed = 1;
    int      fail_mode = FAIL_NONE;
    uint64_t fail_arg = 0;
    int      owner = 0;
    // out
    uint64_t n_allocs = 0, n_failed = 0;
  };
  extern __thread Ctx *cur;      // non-null: calls of this thread go to the arena
  void init();
  void check();                  // redzones and freed memory
  size_t live_count();
  void jump (int window);        // further allocations come from a distant part of the address space
  void set_reclaim (bool on);
  size_t live_owned (int owner);
  void set_owner (int from, int to);
  bool owner_has (int owner);
  std::string live_desc (int owner);
  // 0 not arena, 1 inside a live block, 2 in the arena but not in a live block
  int classify (const void *p, size_t n);
  bool block_of (const void *p, const unsigned char **start, size_t *size);
}

// ---- scheduler ----
namespace sched {
  struct Slice { int task; int64_t steps; };
  // runs bodies as simulated threads; cut: if >= 0, task 0 is abandoned after that many steps
  struct Params
  {
    std::vector<Slice> slices;
    int64_t  quantum = 1 << 30;       // after the slices
    uint64_t seed = 0;
    int      gsw = 0;                 // probability (1/256) of a switch when touching the variant's globals
    int64_t  step_cap = 40000000;
    int64_t  cut_at = -1;
  };
  typedef void (*Body) (void *arg, int task);
  bool run (int n_tasks, Body body, void *arg, const Params& p);   // false: cut happened
  extern __thread int cur_task;        // -1 outside
  extern __thread bool in_call;        // inside the code under test
  void op_boundary();
  void set_globals (uintptr_t base, uintptr_t lo, uintptr_t hi);
  // memory regions checked on instrumented accesses
  struct Region { uintptr_t lo, hi, rd_lo, rd_hi, wr_lo, wr_hi; };
  extern Region regions[40];
  extern int n_regions;
  extern bool check_access;
}

// ---- interposed C library state ----
extern uint64_t sim_rand_state;
extern uint64_t sim_rand_calls;
extern uint64_t host_seed, host_reads;      // what clocks, environment variables etc. say
extern int64_t host_time;

// ---- reference model ----
struct IR
{
  bool ok = false;
  int R = 1, mode = 0;
  int nph = 1;                              // 1 (up) or R (down)
  std::vector<std::vector<double>> h, e;    // impulse response / error envelope per input phase
  std::vector<std::vector<int>> cut;        // [phase][b]: first index from which e < 2^-b * peak
  double l1 = 0, peak = 0;
  int low_len = 0;                          // length in low-rate samples
  bool exact_len = false;                   // FIR: zero afterwards
};

struct Variant
{
  std::string name, path;
  void *handle = nullptr;
  const VApi *api = nullptr;
  const VApi *ref = nullptr;               // separate copy of the same build, used under calm conditions only
  uintptr_t base = 0;
  uintptr_t glob_lo = 0, glob_hi = 0;
};
}

// The simulated host: interprets a trace against one or more builds of the
// library and checks the oracles of the property under test after every step.
#include "world.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <signal.h>
#include <math.h>
#include <errno.h>
#include <alloca.h>
#include <algorithm>
#include <memory>
#include <functional>

namespace sim {

int stdout_fd = -1, stderr_fd = -1;

static const double U = ldexp (1, -24);
static const size_t PAGE = 4096;

unsigned oracles_for (const std::string& p)
{
  if (p == "C01") return O_ONECALL | O_R1 | O_OUTPUT;
  if (p == "C02") return 0;                         // parallel section has its own bitwise oracle
  if (p == "C03") return O_TWIN | O_FRESH | O_QUERY;
  if (p == "C04") return O_IO | O_NAN;
  if (p == "C05") return O_LEAK | O_TWIN;
  if (p == "C06") return O_ENV | O_TWIN;
  if (p == "C07") return O_MODEL;
  if (p == "C08") return O_DELAY | O_QUERY;
  if (p == "C09") return O_GROUP;
  if (p == "C10") return O_TONE;
  if (p == "C11") return O_TWIN | O_LEAK | O_QUERY;
  if (p == "C12") return O_AA | O_LEAK;
  if (p == "C13") return O_QUERY | O_TWIN;
  if (p == "C14") return O_BOUND | O_SILENCE;
  if (p == "C15") return O_BITS;
  if (p == "C16") return O_SELF | O_LEAK | O_TWIN;
  if (p == "C17") return O_MODEL;
  if (p == "C19") return O_MISUSE | O_TWIN | O_LEAK | O_QUERY;
  return 0;
}

// ------------------------------------------------------------------ buffers
struct IoMap { unsigned char *lo; size_t bytes; };
static IoMap in_map[2][8], out_map[2][8];          // [small, big][task + 1]
static IoMap far_in[2], far_out[2];                // the same across other address bits
static const size_t BIG_FLOATS = 256 * 1024;
static float *calm_in, *calm_out, *calm_in0, *calm_out0;
static unsigned char *obj_pool;                    // object storage
static const size_t OBJ_STRIDE = 256, N_OBJ = 4096;
static size_t next_obj;
static float *shared_out;                          // for solo reruns in a child
static const size_t SHARED_FLOATS = 1 << 20;

static IoMap map_fixed (uintptr_t at, size_t bytes)
{
  bytes = (bytes + PAGE - 1) & ~(PAGE - 1);
  void *p = mmap ((void *) at, bytes + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *) at) { fprintf (stderr, "sim: cannot map buffers\n"); _exit (3); }
  mprotect ((char *) p + PAGE, bytes, PROT_READ | PROT_WRITE);
  return IoMap { (unsigned char *) p + PAGE, bytes };
}

void world_init()
{
  uintptr_t a = 0x220000000000ULL;
  for (int t = 0; t < 8; t++)
    {
      in_map[0][t] = map_fixed (a, PAGE); a += 0x10000;
      out_map[0][t] = map_fixed (a, PAGE); a += 0x10000;
    }
  a = 0x221000000000ULL;
  for (int t = 0; t < 8; t++)
    {
      in_map[1][t] = map_fixed (a, BIG_FLOATS * 4); a += 0x1000000;
      out_map[1][t] = map_fixed (a, BIG_FLOATS * 4); a += 0x1000000;
    }
  // across a multiple of 4 GB and of 2 GB, the output below the input
  far_in[0] = map_fixed (0x2298fffff000ULL - PAGE, PAGE);
  far_in[1] = map_fixed (0x229a00000000ULL - BIG_FLOATS * 2 - PAGE, BIG_FLOATS * 4);
  far_out[0] = map_fixed (0x229080000000ULL - PAGE, PAGE);
  far_out[1] = map_fixed (0x229280000000ULL - BIG_FLOATS * 2 - PAGE, BIG_FLOATS * 4);
  calm_in0 = (float *) map_fixed (0x222000000000ULL, (BIG_FLOATS + 1024) * 4).lo;
  calm_out0 = (float *) map_fixed (0x223000000000ULL, (BIG_FLOATS + 1024) * 4).lo;
  calm_in = calm_in0 + 64; calm_out = calm_out0 + 64;
  obj_pool = map_fixed (0x224000000000ULL, N_OBJ * OBJ_STRIDE).lo;
  shared_out = (float *) mmap (nullptr, SHARED_FLOATS * 4 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

struct Buf { float *p; unsigned char *lo, *hi; size_t n; };
static const uint32_t PAD = 0x7fc0bad1u, UNWRITTEN = 0x7fa0c0deu;

static void fill32 (void *lo, void *hi, uint32_t v)
{
  for (uint32_t *p = (uint32_t *) lo; p < (uint32_t *) hi; p++) *p = v;
}
// pmode 0: ends at unmapped memory, 1: begins at unmapped memory, 2: in the middle at alignment al
static uint64_t elsewhere;     // if set, other addresses which are the same modulo 64
static void pad (Buf& b, IoMap& m)
{
  b.lo = std::max (m.lo, (unsigned char *) (b.p - 80));
  b.hi = std::min (m.lo + m.bytes, (unsigned char *) (b.p + b.n + 64));
  if (m.bytes == PAGE) { b.lo = m.lo; b.hi = m.lo + m.bytes; }
  fill32 (b.lo, b.p, PAD);
  fill32 (b.p + b.n, b.hi, PAD);
}
static Buf place_in (IoMap& m, size_t n, int pmode, int al)
{
  Buf b;
  b.n = n;
  unsigned char *end = m.lo + m.bytes;
  al &= 15;
  if (n == 0)
    b.p = (float *) (pmode == 1 ? m.lo : end);
  else if (pmode == 0) { b.p = (float *) end - n; stat (S_f_guard_page); }
  else if (pmode == 1) { b.p = (float *) m.lo; stat (S_f_guard_page); }
  else
    {
      b.p = (float *) m.lo + 64 + al;
      if (&m == &far_in[1] || &m == &far_out[1]) b.p = (float *) (m.lo + m.bytes / 2) - n / 2 / 16 * 16 + al;     // across the boundary
      if (al & 3) stat (S_f_misaligned);
    }
  return b;
}
static Buf place (IoMap maps[2][8], int task, size_t n, int pmode, int al)
{
  IoMap& m = maps[n > 800][task + 1];
  Buf b = place_in (m, n, pmode, al);
  pad (b, m);
  return b;
}
// both buffers of a call; pmodes 3 to 5 as above at other addresses; pout 6: the output
// begins where the input ends, 7: it ends where the input begins
static void place_pair (size_t nin, int64_t pin, int ain, Buf& in, size_t nout, int64_t pout, int aout, Buf& out)
{
  pin &= 15; pout &= 15;
  if ((pout == 6 || pout == 7) && nin && nout && nin + nout + 400 < BIG_FLOATS)
    {
      IoMap& m = pin / 3 == 1 ? far_in[1] : in_map[1][0];
      float *p = (float *) m.lo + 96 + (ain & 15);
      in.n = nin; out.n = nout;
      (pout == 6 ? in : out).p = p;
      (pout == 6 ? out : in).p = p + (pout == 6 ? nin : nout);
      stat (S_f_adjacent);
      if (!elsewhere)
        {
          Buf both; both.n = nin + nout; both.p = p;
          pad (both, m);
          in.lo = pout == 6 ? both.lo : (unsigned char *) in.p; in.hi = pout == 6 ? (unsigned char *) (in.p + nin) : both.hi;
          out.lo = pout == 7 ? both.lo : (unsigned char *) out.p; out.hi = pout == 7 ? (unsigned char *) (out.p + nout) : both.hi;
          return;
        }
    }
  else
    {
      IoMap *mi = pin / 3 == 1 ? &far_in[nin > 800] : &in_map[nin > 800][0], *mo = pout / 3 == 1 ? &far_out[nout > 800] : &out_map[nout > 800][0];
      if (pin / 3 == 1 || pout / 3 == 1) stat (S_f_far_buffer);
      in = place_in (*mi, nin, int (pin % 3), ain);
      out = place_in (*mo, nout, int (pout % 3), aout);
      if (!elsewhere || (!nin && !nout))
        { pad (in, *mi); pad (out, *mo); return; }
    }
  elsewhere = mix64 (elsewhere);
  IoMap& mi = elsewhere & 1 ? far_in[1] : in_map[1][0];
  IoMap& mo = elsewhere & 2 ? far_out[1] : out_map[1][0];
  if (nin) in.p = (float *) (mi.lo + ((uintptr_t) in.p & 63) + 64 * (4 + (elsewhere >> 8) % 200));
  if (nout) out.p = (float *) (mo.lo + ((uintptr_t) out.p & 63) + 64 * (4 + (elsewhere >> 20) % 200));
  if (nin) pad (in, mi);
  if (nout) pad (out, mo);
}
static void check_pad (const Buf& b, const char *which)
{
  for (uint32_t *p = (uint32_t *) b.lo; p < (uint32_t *) b.p; p++)
    if (*p != PAD) fail ("buffer", "%s buffer: sample %ld (before the first) was modified", which, long ((float *) p - b.p));
  for (uint32_t *p = (uint32_t *) (b.p + b.n); p < (uint32_t *) b.hi; p++)
    if (*p != PAD) fail ("buffer", "%s buffer: sample %ld of %zu was modified", which, long ((float *) p - b.p), b.n);
}
static void set_regions (int task, const Buf& in, const Buf& out)
{
  using sched::Region;
  int k = (task + 1) * 4, n = 0;
  auto add = [&] (const IoMap& m)
    {
      bool hi = (unsigned char *) in.p >= m.lo && (unsigned char *) in.p <= m.lo + m.bytes;
      bool ho = (unsigned char *) out.p >= m.lo && (unsigned char *) out.p <= m.lo + m.bytes;
      sched::regions[k + n++] = Region { (uintptr_t) m.lo, (uintptr_t) m.lo + m.bytes, hi ? (uintptr_t) in.p : 0, hi ? (uintptr_t) (in.p + in.n) : 0,
                                         ho ? (uintptr_t) out.p : 0, ho ? (uintptr_t) (out.p + out.n) : 0 };
    };
  for (int s = 0; s < 2; s++)
    { add (in_map[s][task + 1]); add (out_map[s][task + 1]); }
  sched::n_regions = std::max (sched::n_regions, k + n);
  if (task < 0)
    {
      k = 32; n = 0;
      for (int s = 0; s < 2; s++)
        { add (far_in[s]); add (far_out[s]); }
      sched::n_regions = 36;
    }
}
static void *new_obj()
{
  if (next_obj >= N_OBJ) internal_error ("object pool exhausted");
  unsigned char *p = obj_pool + OBJ_STRIDE * next_obj++;
  return p + 64;
}

// ------------------------------------------------------------------ signals
enum { SIG_SILENCE, SIG_NOISE, SIG_SPARSE, SIG_TONE, SIG_DC, SIG_NYQUIST, SIG_LEVELS, SIG_WORST, SIG_SQUARE, SIG_STOP, SIG_COUNT };
struct Signal
{
  int kind = 0; uint64_t seed = 1; double amp = 1; int64_t p1 = 0, p2 = 0;
};
static inline double hunit (uint64_t h) { return (int64_t (h) >> 10) * (1.0 / 9007199254740992.0); }   // [-1, 1)
static double tone_freq (const Signal& s, int k)
{
  if (k == 0) return s.p1 * 1e-6;
  return 0.005 + 0.402 * ((mix2 (s.seed, 100 + k) >> 11) * (1.0 / 9007199254740992.0));
}
static double tone_phase (const Signal& s, int k) { return M_PI * hunit (mix2 (s.seed, 200 + k)); }
static int tone_count (const Signal& s) { return s.kind == SIG_STOP ? 1 : int (std::max<int64_t> (1, std::min<int64_t> (4, s.p2))); }
static double tone_at (const Signal& s, double t)        // t in low-rate samples
{
  double v = 0;
  for (int k = 0; k < tone_count (s); k++)
    v += cos (2 * M_PI * tone_freq (s, k) * t + tone_phase (s, k));
  return v * s.amp / tone_count (s);
}
static float sample_at (const Signal& s, uint64_t pos, int in_mul, const IR *ir)
{
  switch (s.kind)
    {
      case SIG_NOISE: return float (s.amp * hunit (mix2 (s.seed, pos)));
      case SIG_SPARSE:
        {
          uint64_t h = mix2 (s.seed, pos);
          if (h % uint64_t (std::max<int64_t> (1, s.p1))) return 0;
          return float (s.amp * hunit (mix64 (h)));
        }
      case SIG_TONE:
      case SIG_STOP: return float (tone_at (s, double (pos) / in_mul));
      case SIG_DC: return float (s.amp);
      case SIG_NYQUIST: return float ((pos & 1) ? -s.amp : s.amp);
      case SIG_LEVELS:
        {
          uint64_t h = mix2 (s.seed, pos);
          return float (s.amp * hunit (h) * ldexp (1, -int ((h & 0xff) * uint64_t (std::max<int64_t> (0, s.p1)) / 256)));
        }
      case SIG_WORST:
        {
          if (!ir || ir->h.empty() || ir->h[0].empty()) return float (s.amp);
          int64_t per = std::max<int64_t> (ir->mode ? ir->low_len : 1, 1);
          per = std::min<int64_t> (per, 400);
          double h;
          if (ir->mode)
            {
              int64_t low = int64_t (pos / in_mul) % per;
              size_t t = size_t (per - 1 - low);
              const auto& hh = ir->h[pos % in_mul];
              h = t < hh.size() ? hh[t] : 0;
            }
          else
            {
              per = std::min<int64_t> (ir->low_len, 400);
              int64_t low = int64_t (pos) % per;
              size_t t = size_t (per - 1 - low) * ir->R + size_t (uint64_t (s.p1) % ir->R);
              h = t < ir->h[0].size() ? ir->h[0][t] : 0;
            }
          return float (h < 0 ? -s.amp : s.amp);
        }
      case SIG_SQUARE: return float (((pos / uint64_t (std::max<int64_t> (1, s.p1))) & 1) ? -s.amp : s.amp);
      default: return 0;
    }
}
static double amp_of (int64_t quarter_octaves) { return exp2 (std::max<int64_t> (-400, std::min<int64_t> (440, quarter_octaves)) / 4.0); }

// ------------------------------------------------------------------ calls into the library
struct FpEnv { unsigned mxcsr = 0x1f80; unsigned short cw = 0x37f; };
static inline unsigned get_mxcsr() { unsigned v; asm volatile ("stmxcsr %0" : "=m" (v)); return v; }
static inline void set_mxcsr (unsigned v) { asm volatile ("ldmxcsr %0" : : "m" (v)); }
// which x87 (and MMX) registers are in use: none between calls
static inline unsigned short get_tags() { struct { unsigned short cw, a, sw, b, tags, c; unsigned rest[4]; } e; asm volatile ("fnstenv %0" : "=m" (e)); return e.tags; }
static inline unsigned short get_cw() { unsigned short v; asm volatile ("fnstcw %0" : "=m" (v)); return v; }
static inline void set_cw (unsigned short v) { asm volatile ("fldcw %0" : : "m" (v)); }

static __attribute__ ((noinline)) void poison_stack (uint64_t pattern)
{
  volatile uint64_t mem[96 * 1024 / 8];
  for (size_t i = 0; i < sizeof (mem) / 8; i++) mem[i] = pattern;
  asm volatile ("" : : "r" (&mem[0]) : "memory");
}
static uint64_t stack_pattern (int64_t p)
{
  switch (p % 6)
    {
      case 1: return ~0ULL;
      case 2: return 0x7fc001237fc00123ULL;
      case 3: return 0x7e9676997e967699ULL;
      case 4: return 0x3f8000003f800000ULL;
      case 5: return 0xdeadbeefcafebabeULL;
      default: return 0;
    }
}

struct Env          // what the simulated host looks like to the library
{
  arena::Ctx mem;
  FpEnv fp;
  int64_t poison = 0;
  uint64_t host = 0;
  bool oomrun = false;
  uint64_t rnd = 0;
};
struct CallInfo { uint64_t allocs = 0, failed = 0; };

static unsigned g_or;
static uint64_t call_no;

// the same call with the stack somewhere else
template<class F> static __attribute__ ((noinline)) int shifted (F& f, size_t bytes)
{
  void *gap = alloca (bytes);
  asm volatile ("" : : "r" (gap) : "memory");
  return f();
}

template<class F> static int vcall (const Env& env, int owner, bool process_like, F f, CallInfo *ci = nullptr, int fail_mode = 0, uint64_t fail_arg = 0)
{
  arena::Ctx c = env.mem;
  c.owner = owner;
  c.seed = mix2 (env.mem.seed, call_no++);
  c.fail_mode = fail_mode;
  c.fail_arg = fail_arg;
  if (process_like && env.oomrun) { c.fail_mode = arena::FAIL_FROM; c.fail_arg = 0; }
  if (env.poison) { poison_stack (stack_pattern (env.poison)); stat (S_f_stack_poison); }
  const bool fp = process_like;
  uint64_t r0 = sim_rand_calls;
  stat (S_calls);
  if (fp)
    {
      if (env.fp.mxcsr & 0x6000) stat (S_f_round_mode);
      if (env.fp.mxcsr & 0x8040) stat (S_f_ftz);
      if (env.fp.cw != 0x37f) stat (S_f_x87);
    }
  const uint64_t hs = env.host ? mix2 (env.host, call_no) : 0, reads = host_reads;
  host_seed = env.host;
  if (hs) stat (S_f_host);
  arena::cur = &c;
  sched::in_call = true;
  errno = hs & 1 ? int (hs >> 8 & 127) : 0;
  if (fp) { set_cw (env.fp.cw); set_mxcsr (env.fp.mxcsr | (hs >> 16 & 0x3f)); }
  int rc = hs ? shifted (f, 16 * (hs >> 24 & 63) + 16) : f();
  unsigned m = get_mxcsr();
  unsigned short cw = get_cw();
  const unsigned short tags = get_tags();
  if (tags != 0xffff) asm volatile ("fninit");
  set_mxcsr (0x1f80); set_cw (0x37f);
  sched::in_call = false;
  arena::cur = nullptr;
  stat (S_host_reads, host_reads - reads);
  if (g_or & O_ENV)
    {
      unsigned want = fp ? env.fp.mxcsr : 0x1f80;
      unsigned short wcw = fp ? env.fp.cw : 0x37f;
      if ((m & 0xffc0) != (want & 0xffc0)) fail ("environment", "MXCSR control bits changed from %04x to %04x", want & 0xffc0, m & 0xffc0);
      if ((cw & 0xf3f) != (wcw & 0xf3f)) fail ("environment", "x87 control word changed from %04x to %04x", wcw, cw);
      if (tags != 0xffff) fail ("environment", "x87 registers were left in use, tag word %04x", tags);
      if (sim_rand_calls != r0 && process_like) fail ("environment", "the C library random generator was used");
    }
  if (ci) { ci->allocs = c.n_allocs; ci->failed = c.n_failed; }
  hash_u64 (rc * 77 + c.n_allocs);
  return rc;
}

static const Env calm_env;

// ------------------------------------------------------------------ tolerance
static double tol_factor (const Cfg& c, const FpEnv& fp)
{
  double k;
  if (c.ratio == 1) k = 0;
  else if (!c.filter) k = c.ratio == 2 ? (c.prec == 24 ? 60 : c.prec == 20 ? 50 : c.prec == 16 ? 40 : c.prec == 12 ? 32 : 24) : 60;
  else k = 60;
  if (fp.mxcsr & 0x6000) k *= 3.5;
  return k * U;
}
static FILE *dump_to = getenv ("SIM_DUMP") ? fopen (getenv ("SIM_DUMP"), "w") : nullptr;
static double abs_floor (double floor_level) { return std::max (1e-35, floor_level * ldexp (1, -32)); }

// ------------------------------------------------------------------ instances
struct Inst
{
  bool live = false;
  Cfg cfg;
  Variant *v = nullptr;
  const VApi *api = nullptr;
  void *mem = nullptr;
  int owner = 0;
  int group = 0;
  const IR *ir = nullptr;
  Signal sig;
  uint64_t pos = 0;                    // input position
  uint64_t start = 0;                  // input position at which this incarnation started
  uint64_t sig_start = 0;
  // overlay
  int64_t idx = 0;
  int64_t gl_from = -1, gl_len = 0; int gl_kind = 0; uint64_t gl_seed = 0;
  // constants
  unsigned order = 0; double delay = 0; int sse = 0;
  // oracle state
  void *twin = nullptr;
  model::Acc acc;
  bool use_acc = false;
  std::vector<float> rec_in, rec_out;
  std::vector<double> rec_tol;
  bool rec_full = false;
  uint64_t opos = 0;                   // output position
  double amax = 0;
  uint64_t last_nz = 0; bool any_nz = false;
  uint64_t skip_from = UINT64_MAX, skip_to = 0;
  bool dead_until_reset = false;
  FpEnv worst_fp;
  std::vector<double> win; uint64_t win_at = 0;
  int age = 0;
  double recent_level = 0;
};

struct AA
{
  bool live = false;
  void *mem = nullptr;
  int kind = 0;
  size_t n = 0;
  std::vector<unsigned char> content;
  int owner = 0;
  std::vector<void *> constructed;
};

struct World
{
  const Trace& tr;
  std::vector<Variant *>& vars;
  unsigned orc;
  Env env;
  std::map<int64_t, Inst> inst;
  std::vector<std::pair<const VApi *, void *>> zombies;     // moved-from objects, destroyed at the end
  std::map<int64_t, AA> aas;
  int next_owner = 1;
  double floor_level;
  std::map<Variant *, std::map<int, const char *>> names;
  int oom_mode = 0; uint64_t oom_arg = 0; uint64_t oom_seed = 0;
  int64_t aa_throw = -1;
  size_t opi = 0;
  int prev_kind = 0;
  // solo rerun (C15)
  int64_t only = -1;
  bool solo = false;
  std::map<int64_t, std::vector<float>> all_out;

  World (const Trace& t, std::vector<Variant *>& v) : tr (t), vars (v), orc (oracles_for (t.prop)), floor_level (amp_of (t.floor)) { g_or = orc; host_time = 0; host_reads = 0; host_seed = 0; }

  const VApi *api_of (Variant *v) const { return solo ? v->ref : v->api; }

  // ---------------------------------------------------------------- twin
  void twin_new (Inst& x)
  {
    x.twin = new_obj();
    const Cfg& c = x.cfg;
    int rc = vcall (calm_env, 1000000, false, [&] { return x.v->ref->construct (x.twin, c.mode, c.ratio, c.prec, c.sse, c.filter); });
    if (rc != RC_OK) internal_error ("twin construction failed");
  }
  void twin_del (Inst& x)
  {
    if (!x.twin) return;
    vcall (calm_env, 1000000, false, [&] { x.v->ref->destroy (x.twin); return 0; });
    x.twin = nullptr;
  }

  // ---------------------------------------------------------------- helpers
  Inst *get (int64_t i)
  {
    auto it = inst.find (i);
    return it != inst.end() && it->second.live ? &it->second : nullptr;
  }
  void make_input (Inst& x, uint64_t pos, size_t n, float *out)
  {
    const int im = x.cfg.in_mul();
    for (size_t k = 0; k < n; k++)
      {
        uint64_t p = pos + k;
        float v = sample_at (x.sig, p, im, x.ir);
        if (x.gl_from >= 0 && int64_t (p) >= x.gl_from && int64_t (p) < x.gl_from + x.gl_len)
          {
            uint64_t h = mix2 (x.gl_seed, p);
            static const float bad[] = { NAN, INFINITY, -INFINITY };
            switch (x.gl_kind % 5)
              {
                case 0: v = float (hunit (h) * 1e30); break;
                case 1: v = float (hunit (h) * ldexp (1, int (mix64 (h) % 100))); break;
                case 2: v = (h & 1) ? 0.0f : -0.0f; break;
                case 3: v = bad[h % 3]; break;
                default: v = float (hunit (h) * 3.3e38); break;        // finite, but sums overflow
              }
          }
        out[k] = v;
        if (x.cfg.ratio == 1 && !(orc & O_GROUP))
          {
            // nothing is computed here: every bit pattern has to come through
            const uint64_t h = mix2 (x.sig.seed ^ 0x1a77e, p);
            static const uint32_t odd[] = { 0x80000000, 0x00000001, 0x807fffff, 0x7fa00001, 0xffc12345, 0x7f800000, 0xff800000, 0x7f7fffff, 0xff7fffff, 0x00800000, 0x007fffff, 0x3f800001 };
            if (h % 8 == 0) memcpy (&out[k], &odd[(h >> 8) % 12], 4);
          }
      }
  }
  double ftol (const Inst& x) const { return tol_factor (x.cfg, x.worst_fp); }

  void stream_start (Inst& x)
  {
    x.opos = x.start / x.cfg.in_mul() * x.cfg.out_mul();
    if (x.use_acc)
      x.acc.start (x.ir, floor_level, x.opos);
    x.amax = 0; x.any_nz = false; x.skip_from = UINT64_MAX; x.skip_to = 0; x.dead_until_reset = false;
    x.rec_in.clear(); x.rec_out.clear(); x.rec_tol.clear(); x.rec_full = false;
    x.win.clear();
    x.worst_fp = FpEnv();
    x.sig_start = x.start;
  }

  void query_const (Inst& x)
  {
    unsigned o = 0; double d = 0; int s = 0;
    vcall (env, x.owner, true, [&] { return x.api->order (x.mem, &o); });
    vcall (env, x.owner, true, [&] { return x.api->delay (x.mem, &d); });
    vcall (env, x.owner, true, [&] { return x.api->sse_enabled (x.mem, &s); });
    if (o != x.order) fail ("query", "order() is %u, was %u after construction (%s)", o, x.order, x.cfg.str().c_str());
    if (env.fp.mxcsr & 0x6000 ? !(fabs (d - x.delay) <= 1e-12 * (1 + x.delay)) : memcmp (&d, &x.delay, sizeof d) != 0) fail ("query", "delay() is %.17g, was %.17g after construction (%s)", d, x.delay, x.cfg.str().c_str());
    if (s != x.sse) fail ("query", "sse_enabled() is %d, was %d after construction (%s)", s, x.sse, x.cfg.str().c_str());
    stat (S_f_query);
  }

  // compares the finished stream with one single call over all of it
  void finish_stream (Inst& x)
  {
    if ((orc & O_ONECALL) && !x.rec_out.empty() && x.cfg.ratio > 1)
      {
        Inst t; t.cfg = x.cfg; t.v = x.v;
        twin_new (t);
        std::vector<float> in (x.rec_in.size() + 64), out (x.rec_out.size() + 64);
        float *ip = (float *) (((uintptr_t) in.data() + 63) & ~uintptr_t (63)), *op = (float *) (((uintptr_t) out.data() + 63) & ~uintptr_t (63));
        in.resize (in.size()); 
        memcpy (ip, x.rec_in.data(), x.rec_in.size() * 4);
        int rc = vcall (calm_env, 1000000, false, [&] { return x.v->ref->process (t.twin, ip, unsigned (x.rec_in.size()), op); });
        if (rc != RC_OK) internal_error ("twin process");
        compare (x, x.rec_out.data(), op, x.rec_tol.data(), x.rec_out.size(), x.start / x.cfg.in_mul() * x.cfg.out_mul(), "one call over the whole stream");
        twin_del (t);
      }
    x.rec_in.clear(); x.rec_out.clear(); x.rec_tol.clear();
  }

  void note_ratio (const Inst& x, double r, const char *what)
  {
    if (r > res->max_ratio)
      {
        res->max_ratio = r;
        snprintf (res->max_where, sizeof res->max_where, "%s %s op %zu", what, x.cfg.str().c_str(), opi);
      }
  }
  void compare (const Inst& x, const float *got, const float *want, const double *tol, size_t n, uint64_t o0, const char *what)
  {
    const double f = ftol (x), fl = abs_floor (floor_level);
    stat (S_out_samples_checked, n);
    stat (S_streams_compared);
    for (size_t k = 0; k < n; k++)
      {
        if (memcmp (&got[k], &want[k], 4) == 0) continue;
        uint64_t o = o0 + k;
        if (x.dead_until_reset || (o >= x.skip_from && o < x.skip_to)) continue;
        if (!(tol[k] < 1e37)) continue;
        double e = fabs (double (got[k]) - double (want[k])), t = f * tol[k] + fl;
        if (got[k] != got[k] && want[k] != want[k]) continue;
        if (!(e <= t))
          fail ("stream", "output sample %llu is %.9g, %s gives %.9g (difference %.3g, float rounding allows %.3g; %s)",
                (unsigned long long) o, got[k], what, want[k], e, t, x.cfg.str().c_str());
        if (e > 0) note_ratio (x, e / t, what);
      }
  }

  void check_unwritten (const Inst& x, const float *out, size_t n)
  {
    for (size_t k = 0; k < n; k++)
      {
        uint32_t b; memcpy (&b, out + k, 4);
        if (b == UNWRITTEN) fail ("buffer", "output sample %zu of %zu was not written (%s)", k, n, x.cfg.str().c_str());
      }
  }

  // ---------------------------------------------------------------- ops
  void op_new (const Op& op)
  {
    int64_t i = op.a[0];
    if (get (i)) return;
    Inst& x = inst[i];
    x = Inst();
    x.idx = i;
    x.cfg = Cfg::unpack (op.a[1]);
    x.v = vars[uint64_t (op.a[2]) % vars.size()];
    x.api = api_of (x.v);
    x.group = int (op.a[3]);
    x.mem = new_obj();
    x.owner = next_owner++;
    x.start = uint64_t (std::max<int64_t> (0, op.a[4])) * x.cfg.in_mul();
    x.pos = x.start;
    const Cfg& c = x.cfg;
    arena::Ctx m = env.mem;
    // storage of the object itself: whatever the host's memory contained
    if (env.poison)
      { uint64_t pat = stack_pattern (env.poison); for (int k = 0; k < 16; k++) memcpy ((char *) x.mem + 8 * k, &pat, 8); }
    CallInfo ci;
    Env e = env; e.mem.seed = mix2 (env.mem.seed, oom_seed);
    int fm = oom_mode; uint64_t fa = oom_arg; oom_mode = 0;
    if (solo) fm = 0;
    int rc = vcall (e, x.owner, false, [&] { return x.api->construct (x.mem, c.mode, c.ratio, c.prec, c.sse, c.filter); }, &ci, fm, fa);
    feature (1, c.index(), fm, std::min<uint64_t> (ci.failed, 3) * 64 + std::min<uint64_t> (ci.allocs, 63));
    if (rc != RC_OK)
      {
        if (rc != RC_BAD_ALLOC) fail ("construct", "construction of %s threw something other than std::bad_alloc", c.str().c_str());
        if (!ci.failed) fail ("construct", "construction of %s threw std::bad_alloc although no allocation failed", c.str().c_str());
        if ((orc & O_LEAK) && arena::live_owned (x.owner))
          fail ("leak", "failed construction of %s leaked blocks of bytes:%s", c.str().c_str(), arena::live_desc (x.owner).c_str());
        arena::check();
        return;
      }
    x.live = true;
    stat (S_instances);
    x.ir = c.ratio > 1 ? model::cached (x.v->name, c) : nullptr;
    x.use_acc = c.ratio > 1 && x.ir && (orc & (O_MODEL | O_TWIN | O_ONECALL | O_GROUP));
    stream_start (x);
    if (orc & O_TWIN) twin_new (x);
    if (orc & (O_QUERY | O_DELAY | O_TONE))
      {
        // what this configuration answers, from an instance of its own
        void *m = new_obj();
        vcall (calm_env, 1000000, false, [&] { return x.v->ref->construct (m, c.mode, c.ratio, c.prec, c.sse, c.filter); });
        rc = vcall (calm_env, 1000000, false, [&] { return x.v->ref->delay (m, &x.delay); });
        if (orc & O_QUERY)
          {
            rc |= vcall (calm_env, 1000000, false, [&] { return x.v->ref->order (m, &x.order); });
            rc |= vcall (calm_env, 1000000, false, [&] { return x.v->ref->sse_enabled (m, &x.sse); });
          }
        vcall (calm_env, 1000000, false, [&] { x.v->ref->destroy (m); return 0; });
        if (rc) fail ("query", "a query of %s threw an exception", c.str().c_str());
      }
    if ((orc & O_DELAY) && !(x.delay >= 0)) fail ("delay", "delay() of %s is %g", c.str().c_str(), x.delay);
  }

  void op_del (Inst& x)
  {
    finish_stream (x);
    int rc = vcall (env, x.owner, true, [&] { x.api->destroy (x.mem); return 0; });
    (void) rc;
    x.live = false;
    twin_del (x);
    memset (x.mem, 0xdd, 64);
    if ((orc & O_LEAK) && arena::live_owned (x.owner))
      fail ("leak", "destroying %s did not release blocks of bytes:%s", x.cfg.str().c_str(), arena::live_desc (x.owner).c_str());
    if (orc & (O_LEAK | O_IO | O_BITS)) arena::check();
  }

  // what happens to the expected stream when these inputs arrive
  void account_input (Inst& x, const float *in, size_t n)
  {
    const uint64_t p0 = x.pos;
    if (x.use_acc)
      x.acc.feed (p0, in, n);
    const int im = x.cfg.in_mul(), om = x.cfg.out_mul();
    for (size_t k = 0; k < n; k++)
      {
        float v = in[k];
        if (v != 0) { x.last_nz = p0 + k; x.any_nz = true; }
        double a = fabs (v);
        bool bad = !(a <= 3.4e38);
        if (bad || a > 1e35)
          {
            if (bad) stat (S_f_nan_inf);
            if (x.cfg.filter || !x.ir)
              { if (x.cfg.ratio > 1) x.dead_until_reset = true; }
            else
              {
                uint64_t low = (p0 + k) / im;
                uint64_t f = low > 12 ? low - 12 : 0, t = low + x.ir->low_len + 12;     // groups of 4 and zero taps of the vector code: 6 + 3 + 1.5
                if (x.skip_to <= x.opos || x.skip_from == UINT64_MAX) x.skip_from = f * om;
                x.skip_to = std::max (x.skip_to, t * om);
              }
          }
        else if (a > x.amax) x.amax = a;
      }
  }

  void run_threaded (int64_t thr, const std::function<void()>& f);

  void op_proc (const Op& op, Inst& x)
  {
    const Cfg& c = x.cfg;
    int64_t nl = std::max<int64_t> (0, op.a[1]);
    nl = std::min<int64_t> (nl, int64_t (BIG_FLOATS - 4096) / c.ratio);
    const size_t nin = nl * c.in_mul(), nout = nl * c.out_mul();
    // zero-length and tiny blocks are ordinary host behaviour, counted as schedule faults
    if (nl == 0) stat (S_f_zero_block);
    else if (nl < 4) stat (S_f_tiny_block);
    else if (nl > 1024) stat (S_f_huge_block);
    Buf in, out;
    place_pair (nin, op.a[2], int (op.a[3]), in, nout, op.a[4], int (op.a[5]), out);
    make_input (x, x.pos, nin, in.p);
    static std::vector<float> copy;
    copy.assign (in.p, in.p + nin);
    fill32 (out.p, out.p + nout, UNWRITTEN);
    if (sched::check_access) set_regions (-1, in, out);
    int rc = 0;
    auto body = [&] { rc = vcall (env, x.owner, true, [&] { return x.api->process (x.mem, in.p, unsigned (nin), out.p); }); };
    if (op.a[6] && !solo) run_threaded (op.a[6], body); else body();
    stat (S_proc_calls);
    stat (S_low_samples, nl);
    feature (2, c.index(), uint64_t (nl < 130 ? nl : 130 + (63 - __builtin_clzll (uint64_t (nl)))), (((uintptr_t) in.p >> 2) & 3) + 4 * (((uintptr_t) out.p >> 2) & 3));
    feature (3, c.index(), op.kind * 64 + prev_kind, std::min<uint64_t> (x.age, 8));
    x.age++;
    if (rc != RC_OK)
      fail ("process", "process_block() of %s with %zu samples threw an exception", c.str().c_str(), nin);
    hash_bytes (out.p, nout * 4);
    if (orc & O_IO)
      {
        if (nin && memcmp (in.p, copy.data(), nin * 4)) fail ("buffer", "the input buffer was modified (%s)", c.str().c_str());
        check_pad (in, "input"); check_pad (out, "output");
        check_unwritten (x, out.p, nout);
        arena::check();
      }
    after_output (x, copy.data(), nin, out.p, nout);
  }

  void after_output (Inst& x, const float *in, size_t nin, const float *out, size_t nout)
  {
    const Cfg& c = x.cfg;
    if ((env.fp.mxcsr & 0x6000) && !(x.worst_fp.mxcsr & 0x6000)) x.worst_fp = env.fp;
    account_input (x, in, nin);
    const double *tol = nullptr;
    const double *ref = nullptr;
    static std::vector<double> zeros;
    if (x.use_acc)
      {
        size_t off = x.opos - x.acc.base;
        if (x.acc.ref.size() < off + nout) { x.acc.ref.resize (off + nout, 0.0); x.acc.tol.resize (off + nout, 0.0); }
        tol = x.acc.tol.data() + off; ref = x.acc.ref.data() + off;
      }
    else { zeros.assign (std::max<size_t> (nout, 1), 0.0); tol = ref = zeros.data(); }

    if ((orc & O_OUTPUT)) check_unwritten (x, out, nout);
    if ((orc & O_R1) && c.ratio == 1 && nout && memcmp (out, in, nout * 4))
      fail ("stream", "ratio 1 did not pass the samples through unchanged");
    if (orc & O_ONECALL)
      {
        if (x.rec_out.size() + nout > 1000000) x.rec_full = true;      // the beginning is compared
        if (!x.rec_full)
          {
            x.rec_in.insert (x.rec_in.end(), in, in + nin);
            x.rec_out.insert (x.rec_out.end(), out, out + nout);
            x.rec_tol.insert (x.rec_tol.end(), tol, tol + nout);
          }
      }
    if (orc & O_GROUP)
      {
        x.rec_out.insert (x.rec_out.end(), out, out + nout);
        x.rec_tol.insert (x.rec_tol.end(), tol, tol + nout);
      }
    if ((orc & O_TWIN) && x.twin && nin)
      {
        memcpy (calm_in, in, nin * 4);
        int rc = vcall (calm_env, 1000000, false, [&] { return x.v->ref->process (x.twin, calm_in, unsigned (nin), calm_out); });
        if (rc != RC_OK) internal_error ("twin process");
        if (c.ratio == 1)
          { if (memcmp (out, calm_out, nout * 4)) fail ("stream", "ratio 1 output differs from an undisturbed instance"); }
        else
          compare (x, out, calm_out, tol, nout, x.opos, orc & O_FRESH ? "a newly constructed instance" : "an undisturbed instance");
      }
    if (orc & O_NAN)
      for (size_t k = 0; k < nout; k++)
        {
          uint64_t o = x.opos + k;
          if (out[k] != out[k] && !x.dead_until_reset && !(o >= x.skip_from && o < x.skip_to) && x.amax < 1e30 && c.ratio > 1)
            fail ("buffer", "output sample %llu is NaN: memory outside the input buffer was used (%s)", (unsigned long long) o, c.str().c_str());
        }
    if ((orc & O_MODEL) && c.ratio > 1)
      {
        const double f = ftol (x), fl = abs_floor (floor_level);
        stat (S_out_samples_checked, nout);
        for (size_t k = 0; k < nout; k++)
          {
            uint64_t o = x.opos + k;
            if (x.dead_until_reset || (o >= x.skip_from && o < x.skip_to) || !(tol[k] < 1e37)) continue;
            double e = fabs (double (out[k]) - ref[k]), t = f * tol[k] + fl;
            if (dump_to) fprintf (dump_to, "D %llu %.9g %.9g %.3g %.3g\n", (unsigned long long) o, out[k], ref[k], e, e / t);
            if (!(e <= t))
              fail ("linear", "output sample %llu is %.9g, the filter's response to the input gives %.9g (difference %.3g, float rounding allows %.3g; %s)",
                    (unsigned long long) o, out[k], ref[k], e, t, c.str().c_str());
            note_ratio (x, e / t, "linear model");
          }
      }
    if ((orc & O_BOUND) && c.ratio > 1)
      {
        const double cap = c.filter ? 8 : 5;
        const double g = x.ir && x.ir->ok ? std::min (cap, x.ir->l1 * 1.02) : cap;
        stat (S_out_samples_checked, nout);
        for (size_t k = 0; k < nout; k++)
          if (!(fabs (out[k]) <= x.amax * g + 1e-35) && !x.dead_until_reset)
            fail ("bounded", "output sample %llu is %.9g for input bounded by %.9g (gain limit %.3g; %s)",
                  (unsigned long long) (x.opos + k), out[k], x.amax, g, c.str().c_str());
      }
    if ((orc & O_SILENCE) && c.ratio > 1 && x.ir)
      {
        uint64_t quiet_from = x.any_nz ? x.last_nz / c.in_mul() + 1 : x.start / c.in_mul();   // low-rate index
        uint64_t lim = quiet_from + (c.filter ? 1500 : uint64_t (x.ir->low_len) + 1);
        if (!x.any_nz) lim = quiet_from;
        for (size_t k = 0; k < nout; k++)
          {
            uint64_t low = (x.opos + k) / c.out_mul();
            if (low < lim || x.dead_until_reset) continue;
            stat (S_f_silence);
            if (c.filter ? !(fabs (out[k]) <= x.amax * 1e-20 + 1e-37) : out[k] != 0)
              fail ("silence", "output sample %llu is %.9g, %llu low-rate samples after the input fell silent (%s)", (unsigned long long) (x.opos + k), out[k],
                    (unsigned long long) (low - quiet_from), c.str().c_str());
          }
      }
    if ((orc & (O_TONE | O_DELAY)) && c.ratio > 1) tone_check (x, out, nout);
    if ((orc & O_BITS))
      {
        auto& v = all_out[x.idx];
        v.insert (v.end(), out, out + nout);
      }
    x.pos += nin;
    x.opos += nout;
    // drop consumed history
    if (x.use_acc && x.opos - x.acc.base > 65536)
      {
        size_t d = x.opos - x.acc.base;
        x.acc.ref.erase (x.acc.ref.begin(), x.acc.ref.begin() + d);
        x.acc.tol.erase (x.acc.tol.begin(), x.acc.tol.begin() + d);
        x.acc.base = x.opos;
      }
  }

  // ---------------------------------------------------------------- tones
  void tone_check (Inst& x, const float *out, size_t n)
  {
    const Cfg& c = x.cfg;
    const Signal& s = x.sig;
    if ((s.kind != SIG_TONE && s.kind != SIG_STOP) || (c.prec == 1 && (orc & O_TONE))) return;
    const int om = c.out_mul();
    const uint64_t settle = (c.filter ? 700 : 120) + x.sig_start / c.in_mul();
    const double f0 = s.p1 * 1e-6;
    const double nom = c.nominal_db();
    static const int up_slack[9] = { 0, 0, 8, 0, 10, 0, 0, 0, 13 }, dn_slack[9] = { 0, 0, 3, 0, 6, 0, 0, 0, 9 };
    double pass_db = std::min (112.0, nom - (c.mode ? dn_slack : up_slack)[c.ratio]);
    double stop_db = std::min (112.0, nom - (c.filter ? 6 : 3));
    double iir_db = std::min (112.0, nom - 6);
    for (size_t k = 0; k < n; k++)
      {
        uint64_t o = x.opos + k;
        if (o / om < settle) continue;
        if (s.kind == SIG_STOP)
          {
            if (!(orc & O_TONE)) continue;
            double lim = s.amp * (pow (10, -stop_db / 20) + 8 * U);
            if (!(fabs (out[k]) <= lim))
              fail ("accuracy", "a tone of frequency %.4f (of the low rate) comes through at %.1f dB, %s promises %.1f dB", f0, 20 * log10 (fabs (out[k]) / s.amp), c.str().c_str(), -stop_db);
            note_ratio (x, fabs (out[k]) / lim, "stop");
            stat (S_out_samples_checked);
            continue;
          }
        if (!c.filter && (orc & O_TONE))
          {
            double t = (double (o) - x.delay) / om;
            double want = tone_at (s, t), e = fabs (out[k] - want), lim = s.amp * (pow (10, -pass_db / 20) + 16 * U);
            if (!(e <= lim))
              fail ("accuracy", "output sample %llu deviates from the ideally resampled signal by %.1f dB, %s promises %.1f dB", (unsigned long long) o, 20 * log10 (e / s.amp), c.str().c_str(), -pass_db);
            note_ratio (x, e / lim, "pass");
            stat (S_out_samples_checked);
          }
        if ((c.filter || (orc & O_DELAY)) && tone_count (s) == 1)
          {
            if (x.win.empty()) x.win_at = o;
            x.win.push_back (out[k]);
            if (x.win.size() >= size_t (512) * om) { tone_fit (x, nom, iir_db, om); x.win.clear(); }
          }
      }
  }
  void tone_fit (Inst& x, double nom, double iir_db, int om)
  {
    const Signal& s = x.sig;
    const Cfg& c = x.cfg;
    const double w = 2 * M_PI * s.p1 * 1e-6 / om;
    double cc = 0, ss = 0, cs = 0, yc = 0, ys = 0;
    const size_t n = x.win.size();
    for (size_t k = 0; k < n; k++)
      {
        double p = w * double (x.win_at + k), a = cos (p), b = sin (p);
        cc += a * a; ss += b * b; cs += a * b; yc += a * x.win[k]; ys += b * x.win[k];
      }
    double det = cc * ss - cs * cs;
    if (!(det > 1e-6 * n * n)) return;
    double a = (yc * ss - ys * cs) / det, b = (ys * cc - yc * cs) / det;
    stat (S_tone_windows);
    if (orc & O_TONE)
      {
        double amp = hypot (a, b), resid = 0;
        for (size_t k = 0; k < n; k++)
          {
            double p = w * double (x.win_at + k);
            resid = std::max (resid, fabs (x.win[k] - a * cos (p) - b * sin (p)));
          }
        stat (S_out_samples_checked, n);
        double lim = s.amp * (pow (10, -iir_db / 20) + 8 * U);
        if (!(fabs (amp - s.amp) <= s.amp * pow (10, -std::min (iir_db, 96.0) / 20)))
          fail ("accuracy", "amplitude of a tone of frequency %.4f changed from %.9g to %.9g (%s)", s.p1 * 1e-6, s.amp, amp, c.str().c_str());
        if (!(resid <= lim))
          fail ("accuracy", "a tone of frequency %.4f gains other components at %.1f dB, %s promises %.1f dB", s.p1 * 1e-6, 20 * log10 (resid / s.amp), c.str().c_str(), -iir_db);
        note_ratio (x, resid / lim, "iir residual");
        note_ratio (x, fabs (amp - s.amp) / (s.amp * pow (10, -std::min (iir_db, 96.0) / 20)), "iir amplitude");
      }
    if (orc & O_DELAY)
      {
        double d = 0;
        vcall (env, x.owner, true, [&] { return x.api->delay (x.mem, &d); });
        if (!(d >= 0)) fail ("delay", "delay() of %s is %g", c.str().c_str(), d);
        delay_fit (x, a, b, w, d, om, "delay()");
      }
  }
  void delay_fit (const Inst& x, double a, double b, double w, double d, int om, const char *what)
  {
    const Signal& s = x.sig;
    const Cfg& c = x.cfg;
    const double f = s.p1 * 1e-6;
    // y = A cos (w k - phi): expected phase  -w d + phase0
    double ph = atan2 (-b, a);
    double want = tone_phase (s, 0) - w * d;
    double diff = remainder (ph - want, 2 * M_PI);
    double samples = fabs (diff / w);
    if (c.filter && f > 0.0228) return;
    double lim = c.filter ? 0.02 * om : 0.02 * om;
    if (!(samples <= lim))
      fail ("delay", "%s says %.4f output samples, the stream is off by %.4f samples from that at frequency %.4f (%s)", what, d, diff / -w, f, c.str().c_str());
    note_ratio (x, samples / lim, "delay");
    stat (S_out_samples_checked, x.win.size());
  }

  void op_chain (const Op& op)
  {
    Inst *a = get (op.a[0]), *b = get (op.a[1]);
    if (!a || !b || a == b || a->cfg.mode != 0 || b->cfg.mode != 1 || a->cfg.ratio != b->cfg.ratio || a->sig.kind != SIG_TONE || a->cfg.ratio == 1) return;
    int64_t n = std::min<int64_t> (std::max<int64_t> (0, op.a[2]), 4096);
    if (b->start != 0 || a->start != 0 || a->pos != b->pos / b->cfg.ratio) return;
    const int R = a->cfg.ratio;
    std::vector<float> in (n + 16), mid (n * R + 64), out (n + 16);
    make_input (*a, a->pos, n, in.data());
    float *mp = (float *) (((uintptr_t) mid.data() + 31) & ~uintptr_t (31));
    vcall (env, a->owner, true, [&] { return a->api->process (a->mem, in.data(), unsigned (n), mp); });
    vcall (env, b->owner, true, [&] { return b->api->process (b->mem, mp, unsigned (n * R), out.data()); });
    stat (S_proc_calls, 2);
    stat (S_low_samples, n);
    hash_bytes (out.data(), n * 4);
    const double w = 2 * M_PI * a->sig.p1 * 1e-6;
    for (int64_t k = 0; k < n; k++)
      {
        uint64_t o = b->opos + k;
        if (o < ((a->cfg.filter || b->cfg.filter) ? 1400u : 240u) + a->sig_start) continue;
        if (b->win.empty()) b->win_at = o;
        b->win.push_back (out[k]);
        if (b->win.size() >= 512)
          {
            double cc = 0, ss = 0, cs = 0, yc = 0, ys = 0;
            for (size_t q = 0; q < b->win.size(); q++)
              {
                double p = w * double (b->win_at + q), A = cos (p), B = sin (p);
                cc += A * A; ss += B * B; cs += A * B; yc += A * b->win[q]; ys += B * b->win[q];
              }
            double det = cc * ss - cs * cs;
            if (det > 1e-6 * 512 * 512)
              {
                Inst t = *b; t.sig = a->sig; t.cfg.filter = a->cfg.filter | b->cfg.filter;
                double va = 0, vb = 0;
                a->api->delay (a->mem, &va); b->api->delay (b->mem, &vb);
                stat (S_tone_windows);
                delay_fit (t, (yc * ss - ys * cs) / det, (ys * cc - yc * cs) / det, w, va / R + vb, 1, "the sum of both delay()s");
              }
            b->win.clear();
          }
      }
    a->pos += n; a->opos += n * R; b->pos += n * R; b->opos += n;
  }

  void op_reset (Inst& x, int64_t times)
  {
    finish_stream (x);
    for (int64_t k = 0; k < std::max<int64_t> (1, std::min<int64_t> (times, 4)); k++)
      {
        int rc = vcall (env, x.owner, true, [&] { return x.api->reset (x.mem); });
        if (rc != RC_OK) fail ("reset", "reset() threw an exception (%s)", x.cfg.str().c_str());
        stat (S_f_reset);
      }
    feature (4, x.cfg.index(), std::min<uint64_t> (x.age, 20), prev_kind);
    after_reset (x);
  }
  void after_reset (Inst& x)
  {
    if (x.twin)
      {
        if (orc & O_FRESH) { twin_del (x); twin_new (x); }
        else vcall (calm_env, 1000000, false, [&] { return x.v->ref->reset (x.twin); });
      }
    x.start = x.pos;
    stream_start (x);
    if (orc & O_QUERY) query_const (x);
  }

  void op_move (const Op& op, Inst& x)
  {
    int how = int (uint64_t (op.a[1]) % 5);
    stat (S_f_move);
    feature (5, x.cfg.index(), how, prev_kind);
    const VApi *api = x.api;
    int rc = 0;
    if (how == 1)
      {
        Inst *y = get (op.a[2]);
        if (!y || y == &x || y->v != x.v) how = 0;
        else
          {
            finish_stream (*y);
            void *src = x.mem, *dst = y->mem;
            int oldowner = y->owner;
            rc = vcall (env, x.owner, true, [&] { return api->move_assign (dst, src); });
            if (rc != RC_OK) fail ("move", "move assignment threw an exception");
            y->live = false; twin_del (*y);
            x.mem = dst;
            vcall (env, x.owner, true, [&] { api->destroy (src); return 0; });
            memset (src, 0xdd, 64);
            if ((orc & O_LEAK) && arena::live_owned (oldowner))
              fail ("leak", "move assignment over %s did not release blocks of bytes:%s", y->cfg.str().c_str(), arena::live_desc (oldowner).c_str());
          }
      }
    if (how == 0 || how == 4)
      {
        void *dst = new_obj(), *src = x.mem;
        rc = vcall (env, x.owner, true, [&] { return api->move_construct (dst, src); });
        if (rc != RC_OK) fail ("move", "move construction threw an exception");
        x.mem = dst;
        if (how == 0)
          {
            vcall (env, x.owner, true, [&] { api->destroy (src); return 0; });
            memset (src, 0xdd, 64);
          }
        else
          zombies.push_back ({ api, src });
      }
    if (how == 2)                 // there and back again
      {
        void *tmp = new_obj(), *src = x.mem;
        rc = vcall (env, x.owner, true, [&] { return api->move_construct (tmp, src); });
        rc |= vcall (env, x.owner, true, [&] { return api->move_assign (src, tmp); });
        vcall (env, x.owner, true, [&] { api->destroy (tmp); return 0; });
        memset (tmp, 0xdd, 64);
        if (rc != RC_OK) fail ("move", "moving threw an exception");
      }
    if (how == 3)                 // into an older moved-from object
      {
        for (size_t z = 0; z < zombies.size(); z++)
          if (zombies[z].first == api)
            {
              void *dst = zombies[z].second, *src = x.mem;
              zombies.erase (zombies.begin() + z);
              rc = vcall (env, x.owner, true, [&] { return api->move_assign (dst, src); });
              if (rc != RC_OK) fail ("move", "move assignment threw an exception");
              vcall (env, x.owner, true, [&] { api->destroy (src); return 0; });
              memset (src, 0xdd, 64);
              x.mem = dst;
              break;
            }
      }
    if (orc & O_QUERY) query_const (x);
    if (orc & O_LEAK) arena::check();
  }
  void op_swap (Inst& x, Inst& y)
  {
    if (&x == &y || x.v != y.v) return;
    stat (S_f_swap);
    int rc = vcall (env, x.owner, true, [&] { return x.api->swap (x.mem, y.mem); });
    if (rc != RC_OK) fail ("move", "swap threw an exception");
    std::swap (x.mem, y.mem);
    if (orc & O_QUERY) { query_const (x); query_const (y); }
  }
  // the host breaks the contract: the library has to say so, and nothing else may happen
  off_t err_known = 0;
  std::string err_text()
  {
    off_t n = file_size (2);
    std::string s (size_t (std::max<off_t> (0, n - err_known)), 0);
    if (!s.empty() && pread (stderr_fd, &s[0], s.size(), err_known) < 0) internal_error ("pread");
    err_known = n;
    return s;
  }
  void no_false_alarm()
  {
    fflush (stdout);
    if (file_size (1)) fail ("diagnosis", "something was printed to stdout");
    std::string s = err_text();
    if (!s.empty()) fail ("diagnosis", "correct use of the library printed: %.200s", s.c_str());
  }
  void op_misuse (const Op& op, Inst *x)
  {
    no_false_alarm();
    const int what = int (op.a[1] & 1), sink = int (uint64_t (op.a[6]) % 3);
    const bool odd = x && what == 0 && x->cfg.mode && x->cfg.ratio == 2 && !x->cfg.filter;
    if (!odd && what == 0) return;
    stat (S_f_misuse);
    int keep = -1;
    if (sink)
      {
        stat (S_f_stderr_fails);
        keep = fcntl (2, F_DUPFD_CLOEXEC, 100);
        if (sink == 1) { int f = open ("/dev/full", O_WRONLY); if (f < 0 || dup2 (f, 2) < 0) internal_error ("/dev/full"); close (f); }
        else close (2);
      }
    int rc = 0;
    bool expected = true;
    std::string request;
    if (odd)
      {
        const unsigned n = unsigned (op.a[2]) | 1;
        // at the end of accessible memory: a single access is one too many
        Buf in = place (in_map, -1, 0, 0, 0), out = place (out_map, -1, 0, 0, 0);
        if (sched::check_access) set_regions (-1, in, out);
        request = std::to_string (n) + " samples for " + x->cfg.str();
        rc = vcall (env, x->owner, true, [&] { return x->api->process (x->mem, in.p, n, out.p); });
        if (rc != RC_OK) fail ("diagnosis", "%s: an exception", request.c_str());
        check_pad (in, "input"); check_pad (out, "output");
        feature (9, x->cfg.index(), std::min<uint64_t> (n, 4000), sink);
      }
    else
      {
        const VApi *api = vars[0]->api;
        const unsigned ratio = unsigned (op.a[3]);
        const int prec = int (op.a[4]), mode = op.a[5] & 1, sse = op.a[5] >> 1 & 1, filter = op.a[5] >> 2 & 1;
        static const int grades[] = { 1, 8, 12, 16, 20, 24 };
        const bool ok_prec = std::count (grades, grades + 6, prec) && !(filter && prec == 1);
        const bool bad_ratio = ratio != 1 && ratio != 2 && ratio != 4 && ratio != 8, bad_filter = !ok_prec && ratio > 1;
        char b[100]; snprintf (b, sizeof b, "ratio %u precision %d %s", ratio, prec, filter ? "IIR" : "FIR");
        request = b;
        void *m = new_obj(), *to = new_obj();
        const int owner = next_owner++;
        int fm = oom_mode; uint64_t fa = oom_arg; oom_mode = 0;
        CallInfo ci;
        feature (10, ratio, prec * 8 + filter * 4 + mode * 2 + sse, sink * 4 + fm);
        rc = vcall (env, owner, false, [&] { return api->construct (m, mode, ratio, prec, sse, filter); }, &ci, fm, fa);
        expected = (bad_ratio || bad_filter) && rc == RC_OK;
        if (rc == RC_OK)
          {
            // good for nothing, but an object
            if (op.a[2] & 1)
              {
                rc |= vcall (env, owner, true, [&] { return api->move_construct (to, m); });
                vcall (env, owner, true, [&] { api->destroy (m); return 0; });
                m = to;
              }
            if (op.a[2] & 2)
              {
                unsigned o; int s;
                rc |= vcall (env, owner, true, [&] { return api->order (m, &o); });
                rc |= vcall (env, owner, true, [&] { return api->sse_enabled (m, &s); });
              }
            vcall (env, owner, true, [&] { api->destroy (m); return 0; });
            if (rc != RC_OK) fail ("diagnosis", "%s: an exception", request.c_str());
          }
        else if (rc != RC_BAD_ALLOC || !ci.failed)
          fail ("diagnosis", "%s: an exception", request.c_str());
        if (arena::live_owned (owner)) fail ("leak", "%s leaks blocks of bytes:%s", request.c_str(), arena::live_desc (owner).c_str());
        if (rc != RC_OK && !sink) err_text();
        if (sink == 0 && expected && bad_ratio) request += ", ratio";
      }
    if (sink) { if (dup2 (keep, 2) < 0) internal_error ("dup2"); close (keep); clearerr (stderr); err_text(); }
    else
      {
        std::string s = err_text();
        if (expected)
          {
            if (s.find ("CHECK FAILED") == std::string::npos || s.back() != '\n')
              fail ("diagnosis", "%s was not diagnosed on stderr (printed: \"%.200s\")", request.c_str(), s.c_str());
            if (request.find (", ratio") != std::string::npos && s.find ("ratio") == std::string::npos)
              fail ("diagnosis", "%s: the message does not name the condition: %.200s", request.c_str(), s.c_str());
          }
        else if (!s.empty())
          fail ("diagnosis", "%s is fine, but printed: %.200s", request.c_str(), s.c_str());
      }
    fflush (stdout);
    if (file_size (1)) fail ("diagnosis", "something was printed to stdout");
    arena::check();
  }
  void op_grow (const Op& op, Inst& x)
  {
    stat (S_f_grow);
    int tmp = next_owner++;
    Env e = env; e.oomrun = false;
    // everything the container allocates is released again; the stream's own blocks must survive
    size_t before = arena::live_owned (x.owner), all = arena::live_count();
    int rc = vcall (e, tmp, true, [&] { return x.api->grow (x.mem, int (uint64_t (op.a[1]) % 6), int (op.a[2] & 3)); });
    if (rc != RC_OK) fail ("move", "container growth threw an exception");
    if ((orc & O_LEAK) && !tr.cold && (arena::live_owned (tmp) != 0 || arena::live_owned (x.owner) != before || arena::live_count() != all))
      fail ("leak", "moving %s through containers leaked or lost memory", x.cfg.str().c_str());
    if (orc & O_QUERY) query_const (x);
  }
  // ages the stream: one chunk of the signal again and again. The reference
  // model skips this part, but the output has to become periodic as well.
  void op_ff (const Op& op, Inst& x)
  {
    int64_t n = std::max<int64_t> (0, op.a[1]);
    const Cfg& c = x.cfg;
    if (c.ratio == 1 || (orc & (O_ONECALL | O_GROUP | O_BITS))) return;
    stat (S_f_long_run);
    const int64_t chunk = 4096, total = n;
    const size_t full = chunk * c.in_mul();
    const bool need_acc = x.use_acc, jump = need_acc && total > x.ir->low_len + 64;
    const bool tone = x.sig.kind == SIG_TONE || x.sig.kind == SIG_STOP;   // stays what it is, for the oracles which know it
    static std::vector<float> data, first, out;
    data.resize (full); out.resize (chunk * c.out_mul() + 16);
    float *op0 = (float *) (((uintptr_t) out.data() + 15) & ~uintptr_t (15));
    double level = 0;
    if (!tone)
      {
        make_input (x, x.pos, full, data.data());
        for (float v : data) level = fabs (v) < 1e30f ? std::max (level, fabs (double (v))) : 1e30;
      }
    memcpy (calm_in, data.data(), full * 4);
    uint64_t done = 0;
    while (n > 0)
      {
        int64_t k = std::min (n, chunk);
        size_t nin = k * c.in_mul(), nout = k * c.out_mul();
        if (done % 65536 == 65535)
          {
            itimerval it = { { 0, 0 }, { 30, 0 } };       // it is long, but it moves
            setitimer (ITIMER_PROF, &it, nullptr);
          }
        if (tone) make_input (x, x.pos, nin, calm_in);
        int rc = vcall (env, x.owner, true, [&] { return x.api->process (x.mem, calm_in, unsigned (nin), op0); });
        if (rc != RC_OK) fail ("process", "process_block() threw an exception");
        hash_bytes (op0, std::min<size_t> (nout, 64) * 4);
        if (!tone && done == 1) first.assign (op0, op0 + nout);
        else if (!tone && done > 1 && level < 1e30 && !x.dead_until_reset && memcmp (first.data(), op0, nout * 4))
          {
            const double t = level * 1e-5 + abs_floor (floor_level);
            for (size_t q = 0; q < nout; q++)
              if (!(fabs (double (op0[q]) - double (first[q])) <= t))
                fail ("age", "output sample %llu is %.9g; the stream repeats itself, but the same samples gave %.9g at its beginning (%s)",
                      (unsigned long long) (x.opos + q), op0[q], first[q], c.str().c_str());
          }
        done++;
        if (x.twin)
          vcall (calm_env, 1000000, false, [&] { return x.v->ref->process (x.twin, calm_in, unsigned (nin), calm_out); });
        x.use_acc = need_acc && !jump;
        if (tone || !jump || done < 3 || n <= 2 * chunk) account_input (x, calm_in, nin);
        x.use_acc = need_acc;
        if ((orc & (O_TONE | O_DELAY)) && tone) tone_check (x, op0, nout);
        x.pos += nin; x.opos += nout; n -= k;
        stat (S_low_samples, k); stat (S_proc_calls);
      }
    if (jump)
      {
        x.acc.start (x.ir, floor_level, x.opos);
        uint64_t len = std::min<uint64_t> (uint64_t (x.ir->low_len) * c.in_mul(), total * c.in_mul()), p = x.pos - len;
        uint64_t off = (total * c.in_mul() - len) % full;                 // position of p within the repeated chunk
        std::vector<float> part;
        while (p < x.pos)
          {
            size_t k = std::min<uint64_t> (x.pos - p, 8192);
            part.resize (k);
            if (tone) make_input (x, p, k, part.data());
            else for (size_t q = 0; q < k; q++) { part[q] = data[off]; if (++off == full) off = 0; }
            x.acc.feed (p, part.data(), k);
            p += k;
          }
      }
    x.win.clear();
  }
  // one call with a block of many million samples
  void op_big (const Op& op, Inst& x)
  {
    const Cfg& c = x.cfg;
    int64_t n = std::max<int64_t> (0, op.a[1]);
    n = std::min<int64_t> (n, (int64_t (1) << 28) / (c.in_mul() + c.out_mul()));
    const int64_t chunk = 4096;
    if (n < 3 * chunk || (orc & (O_GROUP | O_BITS)) || x.sig.kind == SIG_TONE || x.sig.kind == SIG_STOP || solo) return;
    const size_t nin = n * c.in_mul(), nout = n * c.out_mul(), cin = chunk * c.in_mul(), cout = chunk * c.out_mul();
    finish_stream (x);
    x.rec_full = true;
    std::vector<float> data (cin), want (cout);
    make_input (x, x.pos, cin, data.data());
    double level = 0;
    for (float v : data) level = fabs (v) < 1e30f ? std::max (level, fabs (double (v))) : 1e30;
    // what the block repeats, seen by an undisturbed instance in ordinary portions
    Inst t; t.cfg = c; t.v = x.v;
    if (c.ratio > 1)
      {
        twin_new (t);
        for (int k = 0; k < 3; k++)
          {
            memcpy (calm_in, data.data(), cin * 4);
            if (vcall (calm_env, 1000000, false, [&] { return x.v->ref->process (t.twin, calm_in, unsigned (cin), calm_out); }) != RC_OK) internal_error ("twin process");
          }
        memcpy (want.data(), calm_out, cout * 4);
        twin_del (t);
      }
    else
      want = data;
    struct Map
    {
      unsigned char *m; size_t bytes;
      Map (size_t b) : bytes ((b + 4 * PAGE) & ~(PAGE - 1))
      {
        m = (unsigned char *) mmap (nullptr, bytes + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED || mprotect (m + PAGE, bytes, PROT_READ | PROT_WRITE) != 0) internal_error ("no memory for a giant block");
      }
      ~Map() { munmap (m, bytes + 2 * PAGE); }
      Buf place (size_t n, int mode, int al)
      {
        unsigned char *lo = m + PAGE, *hi = lo + bytes;
        Buf b; b.n = n;
        b.p = mode == 0 ? (float *) hi - n : mode == 1 ? (float *) lo : (float *) lo + 64 + (al & 15);
        b.lo = std::max (lo, (unsigned char *) (b.p - 64)); b.hi = std::min (hi, (unsigned char *) (b.p + n + 64));
        fill32 (b.lo, b.p, PAD); fill32 (b.p + n, b.hi, PAD);
        return b;
      }
    } mi (nin * 4), mo (nout * 4);
    Buf in = mi.place (nin, int (uint64_t (op.a[2]) % 3), int (op.a[3])), out = mo.place (nout, int (uint64_t (op.a[4]) % 3), int (op.a[5]));
    for (size_t k = 0; k < nin; k += cin)
      memcpy (in.p + k, data.data(), std::min (cin, nin - k) * 4);
    fill32 (out.p, out.p + nout, UNWRITTEN);
    int rc = vcall (env, x.owner, true, [&] { return x.api->process (x.mem, in.p, unsigned (nin), out.p); });
    if (rc != RC_OK) fail ("process", "process_block() of %s with %zu samples threw an exception", c.str().c_str(), nin);
    stat (S_f_giant_block); stat (S_proc_calls); stat (S_low_samples, n);
    feature (8, c.index(), uint64_t (63 - __builtin_clzll (uint64_t (n + 1))));
    check_pad (in, "input"); check_pad (out, "output");
    check_unwritten (x, out.p, nout);
    if (c.ratio == 1)
      { if (memcmp (in.p, out.p, nin * 4)) fail ("stream", "ratio 1 did not pass the samples through unchanged"); }
    const double tol = c.ratio == 1 ? 0 : level * 1e-5 * ftol (x) / tol_factor (c, FpEnv()) + abs_floor (floor_level);
    for (size_t k = 0; k < nin; k += cin)
      if (memcmp (in.p + k, data.data(), std::min (cin, nin - k) * 4)) fail ("buffer", "the input buffer was modified (%s)", c.str().c_str());
    if (level < 1e30 && !x.dead_until_reset)
      for (size_t k = 2 * cout; k < nout; k += cout)
        {
          size_t m = std::min (cout, nout - k);
          if (memcmp (out.p + k, want.data(), m * 4))
            for (size_t q = 0; q < m; q++)
              if (!(fabs (double (out.p[k + q]) - double (want[q])) <= tol))
                fail ("stream", "output sample %llu of a block of %zu samples is %.9g, the same samples in small blocks give %.9g (%s)",
                      (unsigned long long) (k + q), nin, out.p[k + q], want[q], c.str().c_str());
        }
    stat (S_out_samples_checked, nout);
    hash_bytes (out.p, std::min<size_t> (nout, 4096) * 4);
    if (x.twin)
      for (size_t k = 0; k < nin; k += cin)
        {
          memcpy (calm_in, data.data(), cin * 4);
          vcall (calm_env, 1000000, false, [&] { return x.v->ref->process (x.twin, calm_in, unsigned (std::min (cin, nin - k)), calm_out); });
        }
    const bool need_acc = x.use_acc;
    x.use_acc = false;
    account_input (x, in.p, nin);
    x.use_acc = need_acc;
    x.pos += nin; x.opos += nout;
    if (need_acc)
      {
        // what the filter remembers
        const uint64_t len = std::min<uint64_t> (uint64_t (x.ir->low_len) * c.in_mul(), nin);
        if (nin >= uint64_t (x.ir->low_len) * c.in_mul())
          x.acc.start (x.ir, floor_level, x.opos);
        for (uint64_t k = nin - len; k < nin; k += 8192)
          x.acc.feed (x.pos - nin + k, in.p + k, std::min<uint64_t> (8192, nin - k));
      }
    x.win.clear();
  }
  // A single call that makes more samples than a 32 bit count can hold. The
  // signal repeats itself, and so do the buffers: a few MB mapped over and over.
  // Their period is no divisor of 2^32, so a sample which is written to a place
  // 2^32 (or 2^31, 2^33...) too low is out of step with its neighbours.
  void op_vast (const Op& op, Inst& x)
  {
    const Cfg& c = x.cfg;
    const size_t n = size_t (op.a[1]), im = c.in_mul(), om = c.out_mul();
    const size_t chunk = 3 << 12, cin = chunk * im, cout = chunk * om;
    if (n < 4 * chunk || n * im > 0xffffffffu || n * om > (size_t (1) << 34) || solo) return;
    finish_stream (x);
    const size_t al = uint64_t (op.a[2]) & 15, bl = uint64_t (op.a[3]) & 15;
    std::vector<float> data (cin), want (cout);
    Rng r (mix2 (uint64_t (op.a[1]), x.sig.seed));
    for (auto& v : data) v = float (r.unit() * 2 - 1);
    Inst t; t.cfg = c; t.v = x.v;
    const bool one = c.ratio == 1;
    if (!one) twin_new (t);
    auto feed = [&] (Variant *v, void *m, bool ref, size_t low)
      {
        memcpy (calm_in, data.data(), low * im * 4);
        int rc = ref ? vcall (calm_env, 1000000, false, [&] { return v->ref->process (m, calm_in, unsigned (low * im), calm_out); })
                     : vcall (env, x.owner, true, [&] { return x.api->process (m, calm_in, unsigned (low * im), calm_out); });
        if (rc != RC_OK) internal_error ("process");
      };
    if (one) want = data;
    else
      {
        for (int k = 0; k < 3; k++) feed (x.v, t.twin, true, chunk);
        memcpy (want.data(), calm_out, cout * 4);
      }
    struct Ring
    {
      unsigned char *m; size_t bytes, file; int fd;
      Ring (size_t period_bytes, size_t need) : file (period_bytes * 64)
      {
        bytes = (need + 4 * PAGE) & ~(PAGE - 1);
        fd = memfd_create ("ring", 0);
        if (fd < 0 || ftruncate (fd, off_t (file)) != 0) internal_error ("memfd");
        m = (unsigned char *) mmap (nullptr, bytes + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) internal_error ("no address space");
        for (size_t at = 0; at < bytes; at += file)
          if (mmap (m + PAGE + at, std::min (file, bytes - at), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) internal_error ("ring");
      }
      ~Ring() { munmap (m, bytes + 2 * PAGE); close (fd); }
      float *at (size_t k) { return (float *) (m + PAGE) + k; }
    };
    Ring ri (cin * 4, (n * im + al) * 4), ro (cout * 4, (n * om + bl) * 4);
    for (size_t k = 0; k < ri.file / 4; k++) *ri.at (k) = data[(k + cin - al) % cin];
    fill32 (ro.at (0), ro.at (ro.file / 4), UNWRITTEN);
    itimerval it = { { 0, 0 }, { 110, 0 } };
    setitimer (ITIMER_PROF, &it, nullptr);
    vcall (env, x.owner, true, [&] { return x.api->reset (x.mem); });
    int rc = vcall (env, x.owner, true, [&] { return x.api->process (x.mem, ri.at (al), unsigned (n * im), ro.at (bl)); });
    it.it_value.tv_sec = 30;
    setitimer (ITIMER_PROF, &it, nullptr);
    if (rc != RC_OK) fail ("process", "process_block() of %s with %zu samples threw an exception", c.str().c_str(), n * im);
    stat (S_f_vast_block); stat (S_proc_calls); stat (S_low_samples, n);
    feature (8, c.index(), uint64_t (63 - __builtin_clzll (uint64_t (n + 1))), 1);
    const double tol = one ? 0 : 1e-5 * ftol (x) / tol_factor (c, FpEnv()) + abs_floor (floor_level);
    const size_t first = n * om - ro.file / 4;
    for (size_t k = first; k < n * om; k++)
      if (!(fabs (double (*ro.at (bl + k)) - want[k % cout]) <= tol))
        fail ("stream", "near output sample %zu of a block of %zu samples there is %.9g, the same samples in small blocks give %.9g (%s)",
              k, n * im, *ro.at (bl + k), want[k % cout], c.str().c_str());
    for (size_t k = 0; k < ri.file / 4; k++)
      if (*ri.at (k) != data[(k + cin - al) % cin]) fail ("buffer", "the input buffer was modified (%s)", c.str().c_str());
    stat (S_out_samples_checked, ro.file / 4);
    // the stream goes on: bring both to the beginning of a period
    const size_t rest = (chunk - n % chunk) % chunk;
    std::vector<float> whole = data;
    std::rotate (data.begin(), data.begin() + (n % chunk) * im, data.end());
    feed (x.v, x.mem, false, std::max<size_t> (rest, 1));
    for (size_t k = 0; k < rest * om; k++)
      if (!(fabs (double (calm_out[k]) - want[(n * om + k) % cout]) <= tol))
        fail ("stream", "output sample %zu after a block of %zu samples is %.9g, the same samples in small blocks give %.9g (%s)", k, n * im, calm_out[k], want[(n * om + k) % cout], c.str().c_str());
    if (!one) twin_del (t);
    op_reset (x, 1);
  }
  // large numbers of something: calls, resets, instances
  void op_many (const Op& op, Inst *x)
  {
    const int what = int (uint64_t (op.a[1]) % 7);
    int64_t count = std::max<int64_t> (1, std::min<int64_t> (op.a[2], 200000));
    if (what != 2 && what != 5 && what != 6 && !x) return;
    if (solo && what != 0 && what != 1) return;
    stat (S_f_repeat);
    feature (9, what, uint64_t (63 - __builtin_clzll (uint64_t (count))), x ? x->cfg.index() : 0);
    Cfg sc = Cfg::unpack (op.a[4]);
    static void *pool[600]; static int pooled;
    auto obj = [&] (int k) { while (pooled <= k) pool[pooled++] = new_obj(); return pool[k]; };
    Variant *v = vars[0];
    const VApi *api = api_of (v);
    struct Reclaim { Reclaim() { arena::set_reclaim (true); } ~Reclaim() { arena::set_reclaim (false); } } reclaim_for_now;
    switch (what)
      {
        case 0:
          {
            Op p = op;
            p.kind = K_PROC;
            int64_t n = std::max<int64_t> (0, std::min<int64_t> (op.a[3], 4096));
            count = std::min<int64_t> (count, 250000 / std::max<int64_t> (1, n * std::max (1, x->cfg.ratio / 2)));
            for (int64_t k = 0; k < count; k++)
              {
                int64_t al[] = { op.a[0], n, 2, k & 15, 2, (k >> 2) & 15, 0 };
                memcpy (p.a, al, sizeof al);
                op_proc (p, *x);
              }
            break;
          }
        case 1:
          finish_stream (*x);
          for (int64_t k = 0; k < count; k++)
            if (vcall (env, x->owner, true, [&] { return x->api->reset (x->mem); }) != RC_OK) fail ("reset", "reset() threw an exception (%s)", x->cfg.str().c_str());
          stat (S_f_reset, count);
          after_reset (*x);
          break;
        case 2:                   // one stranger after the other
          for (int64_t k = 0; k < std::min<int64_t> (count, 20000); k++)
            {
              int owner = next_owner++;
              void *m = obj (0);
              int rc = vcall (env, owner, false, [&] { return api->construct (m, sc.mode, sc.ratio, sc.prec, sc.sse, sc.filter); });
              if (rc != RC_OK) fail ("construct", "construction of %s threw an exception although no allocation failed", sc.str().c_str());
              vcall (env, owner, false, [&] { api->destroy (m); return 0; });
              if ((orc & O_LEAK) && arena::live_owned (owner)) fail ("leak", "destroying %s did not release blocks of bytes:%s", sc.str().c_str(), arena::live_desc (owner).c_str());
            }
          break;
        case 3:
          for (int64_t k = 0; k < std::min<int64_t> (count, 20000); k++)
            {
              unsigned o; double d; int s;
              vcall (env, x->owner, true, [&] { return x->api->order (x->mem, &o) | x->api->delay (x->mem, &d) | x->api->sse_enabled (x->mem, &s); });
            }
          if (orc & O_QUERY) query_const (*x);
          break;
        case 4:
          {
            void *a = x->mem, *b = obj (1);
            for (int64_t k = 0; k < std::min<int64_t> (count, 20000); k++)
              {
                int rc = vcall (env, x->owner, true, [&] { return x->api->move_construct (b, a); });
                vcall (env, x->owner, true, [&] { x->api->destroy (a); return 0; });
                rc |= vcall (env, x->owner, true, [&] { return x->api->move_construct (a, b); });
                vcall (env, x->owner, true, [&] { x->api->destroy (b); return 0; });
                if (rc != RC_OK) fail ("move", "move construction threw an exception");
              }
            stat (S_f_move, count);
            break;
          }
        case 5:                   // a crowd of instances at the same time
          {
            const int N = int (std::min<int64_t> (count, 500));
            int owner = next_owner++;
            Signal s; s.kind = SIG_NOISE; s.seed = uint64_t (op.a[5]); s.amp = 1;
            const size_t low = 40, nin = low * sc.in_mul(), nout = low * sc.out_mul();
            std::vector<float> first;
            stat (S_f_crowd);
            for (int k = 0; k < N; k++)
              if (vcall (env, owner, false, [&] { return api->construct (obj (2 + k), sc.mode, sc.ratio, sc.prec, sc.sse, sc.filter); }) != RC_OK)
                fail ("construct", "construction of %s threw an exception although no allocation failed", sc.str().c_str());
            for (int round = 0; round < 2; round++)
              {
                for (size_t k = 0; k < nin; k++) calm_in[k] = sample_at (s, round * nin + k, sc.in_mul(), nullptr);
                for (int k = 0; k < N; k++)
                  {
                    fill32 (calm_out, calm_out + nout, UNWRITTEN);
                    if (vcall (env, owner, false, [&] { return api->process (obj (2 + k), calm_in, unsigned (nin), calm_out); }) != RC_OK) fail ("process", "process_block() threw an exception");
                    if (k == 0) first.assign (calm_out, calm_out + nout);
                    else for (size_t q = 0; q < nout; q++)
                      if (!(fabs (double (calm_out[q]) - double (first[q])) <= 1e-5))
                        fail ("crowd", "instance %d of %d gives %.9g where the first one gives %.9g for the same blocks (%s)", k, N, calm_out[q], first[q], sc.str().c_str());
                  }
              }
            // the order of destruction is seeded
            std::vector<int> order;
            for (int k = 0; k < N; k++) order.push_back (k);
            Rng r (s.seed);
            for (int k = N - 1; k > 0; k--) std::swap (order[k], order[r.range (0, k)]);
            for (int k : order) vcall (env, owner, false, [&] { api->destroy (obj (2 + k)); return 0; });
            if ((orc & O_LEAK) && arena::live_owned (owner)) fail ("leak", "destroying %d instances of %s did not release blocks of bytes:%s", N, sc.str().c_str(), arena::live_desc (owner).c_str());
            if (orc & O_LEAK) arena::check();
            break;
          }
        case 6:
          for (int64_t k = 0; k < std::min<int64_t> (count, 400); k++)
            {
              Op p = op; p.kind = K_SELF; p.a[0] = 0; p.a[1] = int64_t (mix2 (op.a[5], k) >> 2);
              op_self (p);
            }
          break;
      }
  }
  void op_self (const Op& op)
  {
    bool verbose = op.a[0] & 1;
    sim_rand_state = uint64_t (op.a[1]);
    stat (S_f_selftest); stat (S_f_rand_state);
    fflush (stdout); fflush (stderr);
    off_t s0 = file_size (1), e0 = file_size (2);
    CallInfo ci;
    int ok = 0, owner = next_owner++;
    int fm = oom_mode; uint64_t fa = oom_arg; oom_mode = 0;
    const int sink = int (uint64_t (op.a[2]) % 3);         // 1: the disk is full, 2: stdout is closed
    int keep = -1;
    struct Restore
    {
      int& keep;
      ~Restore() { if (keep < 0) return; __fpurge (stdout); if (dup2 (keep, 1) < 0) internal_error ("dup2"); close (keep); keep = -1; clearerr (stdout); static char b[1 << 16]; setvbuf (stdout, b, _IOFBF, sizeof b); }
    };
    for (auto v : vars)
      {
        Restore restore { keep };
        if (sink)
          {
            stat (S_f_stdout_fails);
            setvbuf (stdout, nullptr, (op.a[1] & 1) ? _IOLBF : _IONBF, 0);      // as on a terminal
            keep = fcntl (1, F_DUPFD_CLOEXEC, 100);
            if (sink == 1) { int f = open ("/dev/full", O_WRONLY); if (f < 0 || dup2 (f, 1) < 0) internal_error ("/dev/full"); close (f); }
            else close (1);
          }
        int rc = vcall (env, owner, false, [&] { return api_of (v)->self_test (verbose, &ok); }, &ci, fm, fa);
        feature (6, fm, std::min<uint64_t> (ci.failed, 3) * 64 + std::min<uint64_t> (ci.allocs, 63), rc);
        if (!(orc & O_SELF)) continue;
        if (rc == RC_BAD_ALLOC)
          { if (!ci.failed) fail ("selftest", "the self test reported out of memory although no allocation failed"); }
        else if (rc != RC_OK) fail ("selftest", "the self test threw something other than std::bad_alloc");
        else if (!ok) fail ("selftest", "the self test reports failure");
        if (arena::live_owned (owner) && !tr.cold) fail ("leak", "the self test leaked blocks of bytes:%s", arena::live_desc (owner).c_str());
        fflush (stdout); fflush (stderr);
        if (!verbose && !sink && (file_size (1) != s0 || file_size (2) != e0)) fail ("selftest", "the self test printed although it was not asked to be verbose");
        arena::check();
      }
  }
  static off_t file_size (int fd) { struct stat st; return fstat (fd, &st) == 0 ? st.st_size : 0; }

  void op_cut (const Op& op, Inst& x);
  void run_par (size_t from, size_t to, const Op& par);

  // ---------------------------------------------------------------- AlignedArray
  static World *self;
  static std::vector<void *> *track_new;      // elements constructed in the call
  static std::vector<void *> *track_del;
  static int64_t throw_at; static int64_t ctor_count;
  static int hook_new (void *p)
  {
    arena::Ctx *c = arena::cur; arena::cur = nullptr;
    int r = 0;
    if (throw_at >= 0 && ctor_count == throw_at) { stat (S_f_ctor_throw); r = 1; }
    else track_new->push_back (p);
    ctor_count++;
    arena::cur = c;
    return r;
  }
  static void hook_del (void *p)
  {
    arena::Ctx *c = arena::cur; arena::cur = nullptr;
    track_del->push_back (p);
    arena::cur = c;
  }
  void op_aanew (const Op& op, Variant *v)
  {
    if (aas[op.a[0]].live) return;
    AA& a = aas[op.a[0]];
    a = AA();
    const VApi *api = v->api;
    a.kind = int (uint64_t (op.a[1]) % 7);
    const bool tracked = a.kind >= 3;
    const size_t es = api->aa_elem_size (a.kind);
    size_t n = size_t (op.a[2]);
    const int how = int (op.a[3] & 1);
    if (op.a[3] & 2) n = SIZE_MAX / es - (uint64_t (op.a[2]) % 200) + 40;     // byte count wraps around
    else if (how == 1) n = std::min<size_t> (n, 100000);
    a.mem = new_obj();
    a.owner = next_owner++;
    std::vector<void *> made, gone;
    track_new = &made; track_del = &gone; throw_at = tracked ? aa_throw : -1; ctor_count = 0;
    aa_throw = -1;
    static const TrackHooks hooks = { hook_new, hook_del };
    api->set_hooks (&hooks);
    int fm = oom_mode; uint64_t fa = oom_arg; oom_mode = 0;
    CallInfo ci;
    unsigned long seed = (unsigned long) op.a[4];
    size_t live0 = arena::live_count();
    int rc = vcall (env, a.owner, false, [&] { return how ? api->aa_construct_vec (a.mem, a.kind, n, seed) : api->aa_construct (a.mem, a.kind, n); }, &ci, fm, fa);
    api->set_hooks (nullptr);
    stat (S_aa_objects);
    feature (7, a.kind * 4 + rc, std::min<size_t> (n, 70), how * 8 + fm);
    if (rc != RC_OK)
      {
        const char *why = rc == RC_USER_EXCEPTION ? "an element constructor's exception" : "an allocation failure";
        if (rc == RC_BAD_ALLOC && !ci.failed && n * (unsigned __int128) es < ((unsigned __int128) 1 << 40)) fail ("array", "std::bad_alloc although no allocation failed");
        if (rc == RC_USER_EXCEPTION && throw_at < 0) fail ("array", "unexpected exception");
        if (rc == RC_EXCEPTION && n < (size_t (1) << 40)) fail ("array", "unexpected exception");
        if (arena::live_count() != live0) fail ("leak", "AlignedArray of %zu elements of %zu bytes leaked %zu blocks after %s", n, es, arena::live_count() - live0, why);
        check_lifetimes (made, gone, false, why);
        arena::check();
        return;
      }
    if (throw_at >= 0 && ctor_count > throw_at) fail ("array", "an element constructor's exception was swallowed");
    if (n > (size_t (1) << 40)) fail ("array", "construction of %zu elements of %zu bytes claims to have succeeded", n, es);
    a.live = true; a.n = n;
    if (tracked)
      {
        // temporaries may come and go; what remains must be exactly the elements
        for (void *g : gone)
          {
            auto it = std::find (made.begin(), made.end(), g);
            if (it == made.end()) fail ("array", "an element was destroyed that was never constructed");
            made.erase (it);
          }
        if (made.size() != n) fail ("array", "%zu elements constructed for an array of %zu", made.size(), n);
        a.constructed = made;
      }
    unsigned char *b = (unsigned char *) api->aa_begin (a.mem, a.kind), *e = (unsigned char *) api->aa_end (a.mem, a.kind);
    if (api->aa_size (a.mem, a.kind) != n) fail ("array", "size() is %zu for an array of %zu elements", api->aa_size (a.mem, a.kind), n);
    if ((uintptr_t) b & 63) fail ("array", "elements start at %zu bytes past a 64-byte boundary", size_t ((uintptr_t) b & 63));
    if (e != b + n * es) fail ("array", "end() is %zd bytes after begin() for %zu bytes of elements", e - b, n * es);
    const unsigned char *bs; size_t bn;
    if (n)
      {
        if (!arena::block_of (b, &bs, &bn) || (uintptr_t) b < (uintptr_t) bs) fail ("array", "the elements are not inside allocated memory");
        uintptr_t line_end = ((uintptr_t) e + 63) & ~uintptr_t (63);
        if (line_end > (uintptr_t) bs + bn)
          fail ("array", "the last cache line of the elements extends %zu bytes beyond the allocated block (%zu elements of %zu bytes)", size_t (line_end - (uintptr_t) bs - bn), n, es);
        if (a.constructed.size())
          {
            std::vector<void *> s = a.constructed;
            std::sort (s.begin(), s.end());
            for (size_t k = 0; k < n; k++)
              if (s[k] != b + k * es) fail ("array", "element %zu was not constructed in place", k);
          }
      }
    a.content.assign (n * es, 0);
    if (how)
      for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < es; k++)
          a.content[i * es + k] = (unsigned char) ((i * 37 + k * 11 + seed) & 0x3f);
    if (n && memcmp (b, a.content.data(), n * es)) fail ("array", how ? "elements do not have the values of the vector" : "elements are not value-initialised");
    hash_bytes (b, n * es);
  }
  void check_lifetimes (const std::vector<void *>& made, const std::vector<void *>& gone, bool reverse, const char *why)
  {
    std::vector<void *> m = made;
    for (void *g : gone)
      {
        auto it = std::find (m.begin(), m.end(), g);
        if (it == m.end()) fail ("array", "an element was destroyed twice or without having been constructed (%s)", why);
        m.erase (it);
      }
    if (!m.empty()) fail ("array", "%zu constructed elements were never destroyed (%s)", m.size(), why);
    if (reverse)
      for (size_t k = 0; k < gone.size(); k++)
        if (gone[k] != made[made.size() - 1 - k]) fail ("array", "elements are not destroyed in reverse order of construction");
  }
  void op_aause (const Op& op, Variant *v)
  {
    AA& a = aas[op.a[0]];
    if (!a.live || !a.n) return;
    const VApi *api = v->api;
    const size_t es = api->aa_elem_size (a.kind);
    Rng r (op.a[1]);
    for (int k = 0; k < 8; k++)
      {
        size_t i = size_t (r.range (0, int64_t (a.n) - 1));
        if (k == 0) i = 0;
        if (k == 1) i = a.n - 1;
        unsigned char *p = (unsigned char *) api->aa_at (a.mem, a.kind, i);
        if (api->aa_cat (a.mem, a.kind, i) != p || p != (unsigned char *) api->aa_begin (a.mem, a.kind) + i * es)
          fail ("array", "operator[] (%zu) does not address element %zu", i, i);
        for (size_t q = 0; q < es; q++)
          p[q] = a.content[i * es + q] = (unsigned char) (r.next() & 0x3f);
      }
    aa_verify (a, api);
  }
  void aa_verify (AA& a, const VApi *api)
  {
    if (a.n && memcmp (api->aa_begin (a.mem, a.kind), a.content.data(), a.content.size()))
      fail ("array", "elements lost the values written to them");
    arena::check();
  }
  void op_aadel (AA& a, Variant *v)
  {
    if (!a.live) return;
    const VApi *api = v->api;
    aa_verify (a, api);
    std::vector<void *> made, gone;
    track_new = &made; track_del = &gone; throw_at = -1; ctor_count = 0;
    static const TrackHooks hooks = { hook_new, hook_del };
    api->set_hooks (&hooks);
    size_t had = arena::live_owned (a.owner);
    vcall (env, a.owner, false, [&] { api->aa_destroy (a.mem, a.kind); return 0; });
    api->set_hooks (nullptr);
    a.live = false;
    if (a.kind >= 3) check_lifetimes (a.constructed, gone, true, "normal destruction");
    if (arena::live_owned (a.owner)) fail ("leak", "destroying an AlignedArray of %zu elements leaks its memory", a.n);
    (void) had;
    arena::check();
  }
  void op_aacopy (const Op& op, Variant *v)
  {
    AA& a = aas[op.a[0]];
    if (!a.live || op.a[0] == op.a[1] || aas[op.a[1]].live) return;
    const VApi *api = v->api;
    if (!api->aa_copyable (a.kind)) return;
    AA& b = aas[op.a[1]];
    b = AA();
    b.kind = a.kind; b.n = a.n; b.mem = new_obj(); b.owner = next_owner++; b.content = a.content;
    std::vector<void *> made, gone;
    track_new = &made; track_del = &gone; throw_at = -1; ctor_count = 0;
    static const TrackHooks hooks = { hook_new, hook_del };
    api->set_hooks (&hooks);
    int rc = vcall (env, b.owner, false, [&] { return api->aa_copy (b.mem, a.mem, a.kind); });
    api->set_hooks (nullptr);
    if (rc != RC_OK) fail ("array", "copying an AlignedArray threw an exception");
    b.live = true;
    b.constructed = made;
    if (b.n && api->aa_begin (b.mem, b.kind) == api->aa_begin (a.mem, a.kind))
      fail ("array", "an AlignedArray can be copied, and the copy shares (and will release again) the memory of the original");
    aa_verify (b, api);
  }

  // ---------------------------------------------------------------- main loop
  void group_check()
  {
    std::map<int, std::vector<Inst *>> g;
    for (auto& e : inst)
      if (e.second.live && e.second.cfg.ratio > 1 && !e.second.rec_out.empty()) g[e.second.group].push_back (&e.second);
    for (auto& e : g)
      {
        // the longest-lived member is the base
        Inst *base = nullptr;
        for (Inst *x : e.second) if (!base || x->start < base->start || (x->start == base->start && x->rec_out.size() > base->rec_out.size())) base = x;
        for (Inst *x : e.second)
          {
            if (x == base) continue;
            if (base->cfg.mode != x->cfg.mode || base->cfg.ratio != x->cfg.ratio || base->cfg.prec != x->cfg.prec || base->cfg.filter != x->cfg.filter) continue;
            const Cfg& c = x->cfg;
            uint64_t bo = base->start / c.in_mul() * c.out_mul(), xo = x->start / c.in_mul() * c.out_mul();
            uint64_t from = std::max (bo, xo);
            if (xo != bo)
              from += uint64_t (base->ir ? (c.filter ? std::min (base->ir->low_len, 900) : base->ir->low_len + 1) : 0) * c.out_mul();
            uint64_t to = std::min (bo + base->rec_out.size(), xo + x->rec_out.size());
            if (from >= to) continue;
            const double f = ftol (*x) * 1.3, fl = abs_floor (floor_level);
            stat (S_out_samples_checked, to - from); stat (S_streams_compared);
            for (uint64_t o = from; o < to; o++)
              {
                float a = base->rec_out[o - bo], b = x->rec_out[o - xo];
                if (memcmp (&a, &b, 4) == 0) continue;
                double t = base->rec_tol[o - bo];
                if (!(t < 1e37)) continue;
                t = f * t + fl;
                double er = fabs (double (a) - double (b));
                if (!(er <= t))
                  fail ("agree", "output sample %llu is %.9g in build '%s' (%s) but %.9g in build '%s' (%s); rounding allows a difference of %.3g", (unsigned long long) o,
                        a, base->v->name.c_str(), base->cfg.str().c_str(), b, x->v->name.c_str(), x->cfg.str().c_str(), t);
                note_ratio (*x, er / t, "implementations");
              }
          }
      }
  }

  void step (const Op& op)
  {
    stat (S_ops);
    hash_u64 (op.kind);
    Inst *x = nullptr;
    switch (op.kind)
      {
        case K_DEL: case K_PROC: case K_RESET: case K_SIG: case K_GLITCH: case K_MOVE: case K_SWAP: case K_GROW: case K_FF: case K_BIG: case K_VAST: case K_CUT:
          if (!(x = get (op.a[0]))) return;
          break;
        default: break;
      }
    if (solo)
      switch (op.kind)
        {
          case K_NEW: case K_DEL: case K_PROC: case K_RESET: case K_SIG: case K_GLITCH: case K_MANY:
            if (op.a[0] != only) return;
            break;
          default: return;
        }
    switch (op.kind)
      {
        case K_NEW: op_new (op); break;
        case K_DEL: op_del (*x); break;
        case K_PROC: op_proc (op, *x); break;
        case K_RESET: op_reset (*x, op.a[1]); break;
        case K_SIG:
          {
            int kind = int (uint64_t (op.a[1]) % SIG_COUNT);
            if (kind != x->sig.kind || amp_of (op.a[3]) != x->sig.amp) stat (S_f_level_jump);
            x->sig = Signal { kind, uint64_t (op.a[2]), amp_of (op.a[3]), op.a[4], op.a[5] };
            x->sig_start = x->pos;
            x->win.clear();
            break;
          }
        case K_GLITCH:
          x->gl_from = int64_t (x->pos) + std::max<int64_t> (0, op.a[4]); x->gl_len = op.a[1]; x->gl_kind = int (op.a[2]); x->gl_seed = uint64_t (op.a[3]);
          if (x->cfg.filter && (x->gl_kind % 5) == 4) x->gl_kind = 0;
          stat (S_f_garbage);
          break;
        case K_MOVE: op_move (op, *x); break;
        case K_SWAP: if (Inst *y = get (op.a[1])) op_swap (*x, *y); break;
        case K_GROW: op_grow (op, *x); break;
        case K_QUERY:
          if (Inst *q = get (op.a[0])) if (orc & O_QUERY) query_const (*q);
          if ((orc & O_QUERY))
            for (auto v : vars)
              {
                int a = 0, b = 0;
                vcall (env, 0, true, [&] { a = v->api->sse_available(); b = v->api->find_prec (unsigned (op.a[1])); return 0; });
                int ra = v->ref->sse_available(), rb = v->ref->find_prec (unsigned (op.a[1]));
                if (a != ra || b != rb) fail ("query", "a static query changed its answer");
                static const int grades[] = { 1, 8, 12, 16, 20, 24, 77 };
                const int g = grades[uint64_t (op.a[1]) % 7];
                auto& kept = names[v];
                const char *name = nullptr;
                vcall (env, 0, true, [&] { name = v->api->prec_name (g); return 0; });
                if (!name) fail ("query", "precision %d has no name", g);
                // names handed out earlier are still what they were
                kept[g] = name;
                for (auto& e : kept)
                  {
                    bool same = false;
                    const std::string want = v->ref->prec_name (e.first);
                    vcall (env, 0, true, [&] { same = !strcmp (e.second, want.c_str()); return 0; });
                    if (!same) fail ("query", "the name returned for precision %d does not say '%s' any more", e.first, want.c_str());
                  }
              }
          break;
        case K_OOM: oom_mode = int (uint64_t (op.a[0]) % 4); oom_arg = uint64_t (op.a[1]); oom_seed = uint64_t (op.a[2]); break;
        case K_OOMRUN: env.oomrun = op.a[0] != 0; break;
        case K_MEM: if (op.a[1] > 2) arena::jump (int (op.a[1]) / 3); env.mem.fill = int (uint64_t (op.a[0]) % arena::FILL_COUNT); env.mem.place = int (uint64_t (op.a[1]) % 3); env.mem.seed = uint64_t (op.a[2]); break;
        case K_FPENV:
          {
            unsigned m = 0x1f80;
            m |= unsigned (op.a[0] & 3) << 13;
            if (op.a[1]) m |= 0x8000;
            if (op.a[2]) m |= 0x0040;
            env.fp.mxcsr = m;
            env.fp.cw = (unsigned short) (0x37f & ~0xf00) | (unsigned short) ((op.a[3] & 3) << 10) | (unsigned short) ((op.a[3] & 4) ? 0x300 : (op.a[3] & 8) ? 0x200 : 0x300);
            break;
          }
        case K_POISON: env.poison = op.a[0]; break;
        case K_HOST: env.host = uint64_t (op.a[0]); break;
        case K_SELF: op_self (op); break;
        case K_FF: op_ff (op, *x); break;
        case K_VAST: op_vast (op, *x); break;
        case K_BIG: op_big (op, *x); break;
        case K_MANY: op_many (op, get (op.a[0])); break;
        case K_CUT: op_cut (op, *x); break;
        case K_MISUSE: op_misuse (op, get (op.a[0])); break;
        case K_CHAIN: op_chain (op); break;
        case K_AANEW: op_aanew (op, vars[0]); break;
        case K_AADEL: op_aadel (aas[op.a[0]], vars[0]); break;
        case K_AAUSE: op_aause (op, vars[0]); break;
        case K_AACOPY: op_aacopy (op, vars[0]); break;
        case K_AATHROW: aa_throw = op.a[0]; break;
        default: break;
      }
    prev_kind = op.kind;
  }

  void solo_checks()
  {
    // C15: each instance again, alone, in a process whose memory is clean
    for (auto& e : all_out)
      {
        pid_t pid = fork();
        if (pid == 0)
          {
            res = (Result *) mmap (nullptr, sizeof (Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            *(volatile uint32_t *) (shared_out + SHARED_FLOATS) = 0;
            World w (tr, vars);
            w.solo = true; w.only = e.first;
            elsewhere = mix2 (tr.seed, 77);
            for (auto v : vars) open_fresh (v);
            w.loop (true);
            auto& v = w.all_out[e.first];
            size_t n = std::min (v.size(), SHARED_FLOATS);
            memcpy (shared_out, v.data(), n * 4);
            *(volatile uint32_t *) (shared_out + SHARED_FLOATS) = uint32_t (n + 1);
            _exit (0);
          }
        int st;
        while (waitpid (pid, &st, 0) < 0) {}
        uint32_t n = *(volatile uint32_t *) (shared_out + SHARED_FLOATS);
        if (!WIFEXITED (st) || WEXITSTATUS (st) != 0 || n != e.second.size() + 1)
          fail ("reproduce", "the same calls behave differently in a clean process");
        for (size_t k = 0; k + 1 < n; k++)
          if (memcmp (&shared_out[k], &e.second[k], 4))
            fail ("reproduce", "output sample %zu of instance %lld is %.9g, the same calls alone in clean memory give %.9g", k, (long long) e.first, e.second[k], shared_out[k]);
        stat (S_out_samples_checked, n); stat (S_streams_compared);
      }
  }

  void loop (bool just_ops = false)
  {
    for (opi = 0; opi < tr.ops.size(); opi++)
      {
        const Op& op = tr.ops[opi];
        if (op.kind == K_PAR)
          {
            size_t to = opi + 1;
            while (to < tr.ops.size() && tr.ops[to].kind != K_JOIN) to++;
            run_par (opi + 1, to, op);
            opi = to;
            continue;
          }
        if (op.task >= 0) continue;
        step (op);
      }
    if (just_ops) return;
    if (orc & O_GROUP) group_check();
    for (auto& e : inst) if (e.second.live) op_del (e.second);
    for (auto& z : zombies)
      vcall (env, 0, true, [&] { z.first->destroy (z.second); return 0; });
    zombies.clear();
    for (auto& a : aas) op_aadel (a.second, vars[0]);
    if ((orc & O_LEAK) && !tr.cold && arena::live_count())
      fail ("leak", "%zu heap blocks are still allocated after everything was destroyed", arena::live_count());
    if (orc & (O_LEAK | O_IO | O_BITS)) arena::check();
    if (orc & O_MISUSE) no_false_alarm();
    if (orc & (O_ENV))
      {
        fflush (stdout); fflush (stderr);
        if (file_size (1) || file_size (2)) fail ("environment", "the library printed %ld bytes to stdout/stderr", long (file_size (1) + file_size (2)));
      }
    if (orc & O_BITS) solo_checks();
  }
};
World *World::self;
std::vector<void *> *World::track_new, *World::track_del;
int64_t World::throw_at = -1, World::ctor_count = 0;

// ------------------------------------------------------------------ threads
struct ThreadArg { const std::function<void()> *f; };
static void thread_body (void *p, int) { (*((ThreadArg *) p)->f)(); }

void World::run_threaded (int64_t, const std::function<void()>& f)
{
  ThreadArg a { &f };
  sched::Params p;
  sched::run (1, thread_body, &a, p);
}

void World::op_cut (const Op& op, Inst& x)
{
  const Cfg& c = x.cfg;
  int64_t nl = std::min<int64_t> (std::max<int64_t> (1, op.a[1]), 3000);
  const size_t nin = nl * c.in_mul(), nout = nl * c.out_mul();
  static float in[3000 * 8 + 64] __attribute__ ((aligned (64))), out[3000 * 8 + 64] __attribute__ ((aligned (64)));
  make_input (x, x.pos, nin, in);
  memset (out, 0, nout * 4);
  int rc = 0;
  std::function<void()> body = [&] { rc = vcall (env, x.owner, true, [&] { return x.api->process (x.mem, in, unsigned (nin), out); }); };
  ThreadArg a { &body };
  sched::Params p;
  p.cut_at = std::max<int64_t> (0, op.a[2]);
  finish_stream (x);
  bool done = sched::run (1, thread_body, &a, p);
  x.pos += nin;
  if (done)
    { x.opos += nout; }
  int r = vcall (env, x.owner, true, [&] { return x.api->reset (x.mem); });
  if (r != RC_OK) fail ("reset", "reset() threw an exception (%s)", c.str().c_str());
  feature (8, c.index(), done, prev_kind);
  after_reset (x);
}

// one simulated thread's private world inside a parallel section
struct PInst { bool live = false; Cfg cfg; void *mem = nullptr; Signal sig; uint64_t pos = 0; const IR *ir = nullptr; };
struct PTask
{
  const std::vector<const Op *> *ops;
  const VApi *api;
  const VApi *ref;
  Env env;
  std::vector<uint32_t> log;
  Inst *shared = nullptr;
  int task = 0;
  bool parallel = false;
  void **objs = nullptr;
};
static void run_ptask (PTask& t)
{
  PInst pi[8];
  const VApi *api = t.api;
  int nobj = 0;
  auto push = [&] (uint32_t v) { t.log.push_back (v); };
  for (const Op *o : *t.ops)
    {
      const Op& op = *o;
      PInst& x = pi[uint64_t (op.a[0]) & 7];
      if (t.parallel) stat (S_ops);
      switch (op.kind)
        {
          case K_NEW:
            {
              if (x.live) break;
              x = PInst();
              x.cfg = Cfg::unpack (op.a[1]);
              x.mem = t.objs[nobj++ & 31];
              const Cfg& c = x.cfg;
              int rc = vcall (t.env, 500 + t.task, false, [&] { return api->construct (x.mem, c.mode, c.ratio, c.prec, c.sse, c.filter); });
              push (uint32_t (rc));
              x.live = rc == RC_OK;
              x.sig = Signal { SIG_NOISE, uint64_t (op.a[4]) + 7, 1, 0, 0 };
              if (t.parallel) stat (S_instances);
              break;
            }
          case K_DEL:
            if (!x.live) break;
            vcall (t.env, 500 + t.task, true, [&] { api->destroy (x.mem); return 0; });
            x.live = false;
            break;
          case K_SIG:
            if (!x.live) break;
            x.sig = Signal { int (uint64_t (op.a[1]) % SIG_COUNT), uint64_t (op.a[2]), amp_of (op.a[3]), op.a[4], op.a[5] };
            break;
          case K_RESET:
            if (!x.live) break;
            push (uint32_t (vcall (t.env, 500 + t.task, true, [&] { return api->reset (x.mem); })));
            if (t.parallel) stat (S_f_reset);
            break;
          case K_MOVE:
            {
              if (!x.live) break;
              void *dst = t.objs[nobj++ & 31], *src = x.mem;
              push (uint32_t (vcall (t.env, 500 + t.task, true, [&] { return api->move_construct (dst, src); })));
              vcall (t.env, 500 + t.task, true, [&] { api->destroy (src); return 0; });
              x.mem = dst;
              break;
            }
          case K_QUERY:
            {
              const int g = 4 * (1 + int (uint64_t (op.a[1]) % 6));
              const char *name = nullptr;
              char want[64] = "";
              strncpy (want, t.ref->prec_name (g), 63);
              int same = 0;
              vcall (t.env, 500 + t.task, true, [&] { name = api->prec_name (g); return 0; });
              unsigned ord = 0; double d = 0; int s = 0;
              const void *m = t.shared ? t.shared->mem : x.live ? x.mem : nullptr;
              if (!m) break;
              vcall (t.env, 500 + t.task, true, [&] { return api->delay (m, &d); });
              vcall (t.env, 500 + t.task, true, [&] { return api->order (m, &ord); });
              vcall (t.env, 500 + t.task, true, [&] { return api->sse_enabled (m, &s); });
              uint64_t db; memcpy (&db, &d, 8);
              push (ord); push (uint32_t (s)); push (uint32_t (db)); push (uint32_t (db >> 32));
              if (t.shared)
                {
                  if (ord != t.shared->order || s != t.shared->sse || memcmp (&d, &t.shared->delay, 8))
                    fail ("query", "concurrent queries of %s answered order %u delay %.9g sse %d instead of %u %.9g %d", t.shared->cfg.str().c_str(), ord, d, s, t.shared->order, t.shared->delay, t.shared->sse);
                }
              int a = 0, b = 0;
              vcall (t.env, 500 + t.task, true, [&] { a = api->sse_available(); b = api->find_prec (unsigned (op.a[1])); return 0; });
              push (uint32_t (a)); push (uint32_t (b));
              vcall (t.env, 500 + t.task, true, [&] { same = name && !strncmp (name, want, 63); return 0; });
              push (uint32_t (same));
              if (!same && t.shared) fail ("query", "concurrent queries got a name for precision %d that is not '%s'", g, want);
              if (t.parallel) stat (S_f_query);
              break;
            }
          case K_MANY:
            {
              const Cfg c = Cfg::unpack (op.a[4]);
              void *m = t.objs[nobj++ & 31];
              for (int64_t k = std::min<int64_t> (op.a[2], 300); k > 0; k--)
                {
                  int rc = vcall (t.env, 500 + t.task, false, [&] { return api->construct (m, c.mode, c.ratio, c.prec, c.sse, c.filter); });
                  push (uint32_t (rc));
                  if (rc == RC_OK) vcall (t.env, 500 + t.task, true, [&] { api->destroy (m); return 0; });
                  if (t.parallel) stat (S_f_crowd);
                }
              break;
            }
          case K_SELF:
            {
              // several threads may run the self test; only the verdict is compared
              int ok = 0;
              int rc = vcall (t.env, 500 + t.task, false, [&] { return api->self_test (0, &ok); });
              push (uint32_t (rc * 2 + ok));
              if ((g_or & O_SELF) && t.parallel && (rc != RC_OK || !ok)) fail ("selftest", "the self test run by several threads at once reports failure");
              if (t.parallel) stat (S_f_selftest);
              break;
            }
          case K_PROC:
            {
              if (!x.live) break;
              const Cfg& c = x.cfg;
              int64_t nl = std::min<int64_t> (std::max<int64_t> (0, op.a[1]), 4096);
              size_t nin = nl * c.in_mul(), nout = nl * c.out_mul();
              Buf in = place (in_map, t.task, nin, int (uint64_t (op.a[2]) % 3), int (op.a[3]));
              Buf out = place (out_map, t.task, nout, int (uint64_t (op.a[4]) % 3), int (op.a[5]));
              for (size_t k = 0; k < nin; k++) in.p[k] = sample_at (x.sig, x.pos + k, c.in_mul(), nullptr);
              fill32 (out.p, out.p + nout, UNWRITTEN);
              if (sched::check_access && t.parallel) set_regions (t.task, in, out);
              push (uint32_t (vcall (t.env, 500 + t.task, true, [&] { return api->process (x.mem, in.p, unsigned (nin), out.p); })));
              size_t at = t.log.size();
              t.log.resize (at + nout);
              memcpy (t.log.data() + at, out.p, nout * 4);
              x.pos += nin;
              if (t.parallel)
                {
                  stat (S_proc_calls); stat (S_low_samples, nl);
                  feature (2, c.index(), uint64_t (std::min<int64_t> (nl, 200)), t.task);
                  hash_bytes (out.p, nout * 4);
                }
              break;
            }
          default: break;
        }
      if (t.parallel) sched::op_boundary();
    }
  for (auto& x : pi)
    if (x.live) vcall (t.env, 500 + t.task, true, [&] { api->destroy (x.mem); return 0; });
}
static void par_body (void *p, int task) { run_ptask (((PTask *) p)[task]); }

void World::run_par (size_t from, size_t to, const Op& par)
{
  std::map<int, std::vector<const Op *>> by;
  sched::Params p;
  p.quantum = std::max<int64_t> (1, par.a[0] ? par.a[0] : 1 << 30);
  p.seed = uint64_t (par.a[1]);
  p.gsw = int (par.a[2]);
  for (size_t k = from; k < to; k++)
    {
      const Op& op = tr.ops[k];
      if (op.kind == K_SLICE) p.slices.push_back ({ int (op.a[0]), op.a[1] });
      else if (op.task >= 0 && op.task < 6) by[op.task].push_back (&op);
    }
  if (by.empty()) return;
  Inst *sh = par.a[3] > 0 ? get (par.a[3] - 1) : nullptr;
  Variant *v = sh ? sh->v : vars[0];
  std::vector<PTask> pt, solo_t;
  static void *objs[2][6][32];
  for (auto& e : by)
    {
      PTask t;
      t.ops = &e.second; t.api = v->api; t.ref = v->ref; t.env = env; t.task = int (pt.size()); t.parallel = true; t.shared = sh;
      t.objs = objs[0][pt.size()];
      for (int k = 0; k < 32; k++) t.objs[k] = new_obj();
      t.log.reserve (1 << 16);
      pt.push_back (t);
      t.api = v->ref; t.env = calm_env; t.parallel = false; t.objs = objs[1][pt.size() - 1];
      for (int k = 0; k < 32; k++) t.objs[k] = new_obj();
      solo_t.push_back (t);
    }
  size_t n = pt.size();
  sched::run (int (n), par_body, pt.data(), p);
  bool ca = sched::check_access; sched::check_access = false;
  for (size_t k = 0; k < n; k++)
    {
      if (sh) continue;
      run_ptask (solo_t[k]);
      if (pt[k].log.size() != solo_t[k].log.size())
        fail ("isolation", "thread %zu took a different course than when run alone", k);
      for (size_t q = 0; q < pt[k].log.size(); q++)
        if (pt[k].log[q] != solo_t[k].log[q])
          {
            float a, b; memcpy (&a, &pt[k].log[q], 4); memcpy (&b, &solo_t[k].log[q], 4);
            fail ("isolation", "thread %zu observed %.9g (bits %08x) at position %zu of its history, run alone it observes %.9g (bits %08x)", k, a, pt[k].log[q], q, b, solo_t[k].log[q]);
          }
      stat (S_streams_compared); stat (S_out_samples_checked, pt[k].log.size());
    }
  sched::check_access = ca;
  arena::check();
}

void run_world (const Trace& t, std::vector<Variant *>& vars)
{
  World w (t, vars);
  World::self = &w;
  cur_world_op = &w.opi;
  cur_trace = &t;
  w.loop();
}
}

// Linear reference model: the impulse response of one configuration, measured
// once under calm conditions, convolved in double precision.
#include "model.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <math.h>
#include <algorithm>

namespace sim { namespace model {

static const int LMAX = 2600;                // low-rate samples
struct Shared { int done; float data[size_t (LMAX) * 8 + 64]; };
static Shared *sh;
static std::map<std::string, std::vector<IR>> cache;

void init()
{
  sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static void measure (const VApi *api, const Cfg& c, double amp)
{
  alignas (64) static char mem[256];
  arena::Ctx ctx;
  static float in[size_t (LMAX) * 8 + 64], out[size_t (LMAX) * 8 + 64];
  const int R = c.ratio, nph = c.mode ? R : 1;
  const int L = c.filter ? LMAX : 256;
  for (int p = 0; p < nph; p++)
    {
      arena::cur = &ctx;
      if (api->construct (mem, c.mode, c.ratio, c.prec, c.sse, c.filter) != RC_OK) _exit (1);
      memset (in, 0, sizeof in);
      in[p] = float (amp);
      if (api->process (mem, in, L * c.in_mul(), out) != RC_OK) _exit (1);
      api->destroy (mem);
      arena::cur = nullptr;
      memcpy (sh->data + size_t (p) * L, out, sizeof (float) * L * c.out_mul());
    }
  sh->done = 1;
  _exit (0);
}

static void build (IR& ir, const Cfg& c, double amp)
{
  const int R = c.ratio, L = c.filter ? LMAX : 256;
  ir.R = R; ir.mode = c.mode; ir.nph = c.mode ? R : 1;
  // full-rate response H[m]
  std::vector<double> H;
  const int N = L * R;
  H.assign (N, 0.0);
  if (c.mode == 0)
    for (int m = 0; m < N; m++) H[m] = sh->data[m] / amp;
  else
    for (int p = 0; p < R; p++)
      for (int t = 0; t < L; t++)
        H[t * R + R - 1 - p] = sh->data[size_t (p) * L + t] / amp;
  for (auto& v : H) if (!(fabs (v) < 1e6)) v = 0;
  double peak = 0;
  int first = N, last = -1;
  for (int m = 0; m < N; m++)
    if (H[m] != 0) { first = std::min (first, m); last = m; peak = std::max (peak, fabs (H[m])); }
  ir.peak = peak;
  std::vector<double> E (N, 0.0);
  if (last < 0)
    { last = 0; first = 0; peak = 1; }
  if (!c.filter)
    {
      int D = R <= 2 ? 0 : 8 * R;
      for (int m = first; m <= last; m++)
        {
          double v = 0;
          for (int d = std::max (first, m - D); d <= std::min (last, m + D); d++) v = std::max (v, fabs (H[d]));
          E[m] = v;
        }
      ir.exact_len = true;
    }
  else
    {
      std::vector<double> S (N + 1, 0.0);
      for (int m = N - 1; m >= 0; m--) S[m] = std::max (S[m + 1], fabs (H[m]));
      int m1 = 0, m2 = 0;
      while (m1 < N && S[m1] > peak * 1e-8) m1++;
      while (m2 < N && S[m2] > peak * 1e-24) m2++;
      double lam = 0.9;
      if (m2 < N && m2 > m1 && S[m2] > 0 && S[m1] > 0)
        lam = pow (S[m2] / S[m1], double (R) / (m2 - m1));
      lam = std::min (0.995, std::max (0.5, lam * 1.002));
      double l1 = pow (lam, 1.0 / R), run = 0;
      int D = 3 * R;
      for (int m = 0; m < N; m++)
        {
          double v = 0;
          for (int d = std::max (0, m - D); d <= std::min (N - 1, m + D); d++) v = std::max (v, fabs (H[d]));
          run = std::max (run * l1, v);
          E[m] = run;
        }
      last = N - 1;
      for (int m = 0; m < N; m++)
        if (E[m] < peak * 1e-68 && S[m] < peak * 1e-68) { last = m; break; }
    }
  // l1 gain per output phase
  ir.l1 = 0;
  int oph = c.mode ? 1 : R;
  for (int q = 0; q < oph; q++)
    {
      double s = 0;
      for (int m = q; m < N; m += oph) s += fabs (H[m]);
      ir.l1 = std::max (ir.l1, s);
    }
  ir.low_len = last / R + 1;
  ir.h.resize (ir.nph); ir.e.resize (ir.nph); ir.cut.resize (ir.nph);
  for (int p = 0; p < ir.nph; p++)
    {
      int n = c.mode ? ir.low_len : ir.low_len * R;
      for (int t = 0; t < n; t++)
        {
          int m = c.mode ? t * R + R - 1 - p : t;
          ir.h[p].push_back (H[m]);
          ir.e[p].push_back (E[m]);
        }
      while (!ir.e[p].empty() && ir.e[p].back() == 0) { ir.e[p].pop_back(); ir.h[p].pop_back(); }
      // cut table from the suffix maximum
      std::vector<int>& cut = ir.cut[p];
      cut.assign (400, 0);
      double suf = 0;
      int t = int (ir.e[p].size());
      for (int b = 399; b >= 0; b--)
        {
          double lim = ldexp (peak, -b);
          while (t > 0 && std::max (suf, ir.e[p][t - 1]) < lim) { suf = std::max (suf, ir.e[p][t - 1]); t--; }
          cut[b] = t;
        }
    }
  ir.ok = true;
}

const IR *cached (const std::string& variant, const Cfg& c)
{
  auto it = cache.find (variant);
  if (it == cache.end()) return nullptr;
  const IR& ir = it->second[c.index()];
  return ir.nph && !ir.h.empty() ? &ir : nullptr;
}

const IR& ensure (Variant& v, const Cfg& c)
{
  auto& vec = cache[v.name];
  if (vec.empty()) vec.resize (Cfg::N);
  IR& ir = vec[c.index()];
  if (!ir.h.empty()) return ir;
  sh->done = 0;
  memset (sh->data, 0, sizeof sh->data);
  double amp = c.filter ? ldexp (1, 120) : 1;
  pid_t pid = fork();
  if (pid == 0)
    measure (v.ref, c, amp);
  int st;
  while (waitpid (pid, &st, 0) < 0) {}
  build (ir, c, amp);
  if (!sh->done) ir.ok = false;
  return ir;
}

void Acc::start (const IR *i, double floor_level, uint64_t out_base)
{
  ir = i;
  cut_level = floor_level * ldexp (1, -42);      // what is cut off per input sample adds up over at most ~120 of them
  ref.clear(); tol.clear();
  base = out_base;
}

void Acc::feed (uint64_t in_pos, const float *x, size_t n)
{
  const int R = ir->R;
  // make room: outputs influenced by the last sample
  uint64_t last_out = ir->mode ? (in_pos + n) / R + ir->low_len + 1 : (in_pos + n) * R + uint64_t (ir->low_len) * R + R;
  if (last_out > base && ref.size() < last_out - base)
    {
      size_t want = last_out - base;
      if (ref.capacity() < want) { ref.reserve (want * 3 / 2 + 1024); tol.reserve (want * 3 / 2 + 1024); }
      ref.resize (want, 0.0); tol.resize (want, 0.0);
    }
  for (size_t i = 0; i < n; i++)
    {
      const double v = x[i], a = fabs (v);
      if (v == 0 || !(a <= 3.5e38)) continue;
      const uint64_t j = in_pos + i;
      const int p = ir->mode ? int (j % R) : 0;
      const uint64_t o0 = ir->mode ? j / R : j * R;
      size_t len = ir->e[p].size();
      if (cut_level > 0)
        {
          int ex;
          frexp (a * ir->peak / cut_level, &ex);
          if (ex < 0) len = 0;
          else if (ex < 400) len = std::min<size_t> (len, ir->cut[p][ex]);
        }
      size_t t0 = 0;
      if (o0 < base) { if (base - o0 >= len) continue; t0 = base - o0; }
      double *r = &ref[o0 + t0 - base], *e = &tol[o0 + t0 - base];
      const double *h = &ir->h[p][t0], *ev = &ir->e[p][t0];
      for (size_t t = 0; t < len - t0; t++) { r[t] += v * h[t]; e[t] += a * ev[t]; }
    }
}
}}

// Compiled once per variant together with /repo's sources.
#include "pandaresampler.hh"
#include "api.h"
#include <new>
#include <string>
#include <utility>
#include <type_traits>
#include <cstring>
#include <cstdint>

#ifndef VARIANT_ID
#define VARIANT_ID "?"
#endif

using PandaResampler::Resampler2;
using PandaResampler::AlignedArray;
typedef Resampler2 R;

#define GUARD(...) try { __VA_ARGS__; return RC_OK; } catch (const std::bad_alloc&) { return RC_BAD_ALLOC; } catch (...) { return RC_EXCEPTION; }

static inline R *r (void *m) { return static_cast<R *> (m); }
static inline const R *r (const void *m) { return static_cast<const R *> (m); }

static int v_construct (void *mem, int mode, unsigned ratio, int prec, int sse, int filter)
{ GUARD (new (mem) R (mode ? R::DOWN : R::UP, ratio, R::Precision (prec), sse != 0, filter ? R::FILTER_IIR : R::FILTER_FIR)) }
static void v_destroy (void *mem) { r (mem)->~R(); }
static int v_process (void *mem, const float *in, unsigned n, float *out) { GUARD (r (mem)->process_block (in, n, out)) }
static int v_reset (void *mem) { GUARD (r (mem)->reset()) }
static int v_order (const void *mem, unsigned *v) { GUARD (*v = r (mem)->order()) }
static int v_delay (const void *mem, double *v) { GUARD (*v = r (mem)->delay()) }
static int v_sse (const void *mem, int *v) { GUARD (*v = r (mem)->sse_enabled()) }
static int v_mc (void *dst, void *src) { GUARD (new (dst) R (std::move (*r (src)))) }
static int v_ma (void *dst, void *src) { GUARD (*r (dst) = std::move (*r (src))) }
static int v_swap (void *a, void *b) { GUARD (std::swap (*r (a), *r (b))) }
// lets the resampler live in containers that relocate it, then moves it back
static int v_grow (void *mem, int extra, int how)
{
  GUARD (
    std::vector<R> v;
    v.push_back (std::move (*r (mem)));
    for (int i = 0; i < extra; i++)
      v.emplace_back (R::UP, 2, R::PREC_48DB);
    if (how & 1)
      {
        v.insert (v.begin(), R (R::DOWN, 4, R::PREC_72DB));
        std::vector<R> w (std::move (v));
        v.swap (w);
        v.erase (v.begin());
      }
    v.shrink_to_fit();
    if (how & 2)
      {
        std::vector<R> w;
        w = std::move (v);
        std::unique_ptr<R> p (new R (std::move (w.front())));
        w.clear();
        *r (mem) = std::move (*p);
      }
    else
      *r (mem) = std::move (v.front());
  )
}
static int v_avail() { return R::sse_available(); }
static int v_find (unsigned b) { return int (R::find_precision_for_bits (b)); }
static const char *v_name (int p) { return R::precision_name (R::Precision (p)); }
static int v_selftest (int verbose, int *ok) { GUARD (*ok = R::test_filter_impl (verbose != 0)) }

static const TrackHooks *g_hooks;
struct UserError {};
template<size_t N>
struct Tracked
{
  alignas (N % 4 ? 1 : 4) unsigned char bytes[N];
  Tracked() { memset (bytes, 0, N); if (g_hooks && g_hooks->on_construct (this)) throw UserError(); }
  Tracked (const Tracked& o) { memcpy (bytes, o.bytes, N); if (g_hooks && g_hooks->on_construct (this)) throw UserError(); }
  Tracked& operator= (const Tracked& o) { memcpy (bytes, o.bytes, N); return *this; }
  ~Tracked() { if (g_hooks) g_hooks->on_destroy (this); }
};
typedef Tracked<16> T16;
typedef Tracked<12> T12;
typedef Tracked<200> T200;
struct T1 : Tracked<1> {};

#define AGUARD(...) try { __VA_ARGS__; return RC_OK; } catch (const UserError&) { return RC_USER_EXCEPTION; } catch (const std::bad_alloc&) { return RC_BAD_ALLOC; } catch (...) { return RC_EXCEPTION; }
#define KIND(...) switch (kind) { \
  case 0: { typedef float T; __VA_ARGS__; break; } case 1: { typedef double T; __VA_ARGS__; break; } case 2: { typedef char T; __VA_ARGS__; break; } \
  case 3: { typedef T16 T; __VA_ARGS__; break; } case 4: { typedef T12 T; __VA_ARGS__; break; } case 5: { typedef T200 T; __VA_ARGS__; break; } default: { typedef T1 T; __VA_ARGS__; break; } }
template<class T> static AlignedArray<T> *aa (void *m) { return static_cast<AlignedArray<T> *> (m); }
template<class T> static const AlignedArray<T> *aa (const void *m) { return static_cast<const AlignedArray<T> *> (m); }

template<class T> static void fill (T& t, size_t i, unsigned long seed)
{
  unsigned char *b = reinterpret_cast<unsigned char *> (&t);
  for (size_t k = 0; k < sizeof (T); k++)
    b[k] = (unsigned char) ((i * 37 + k * 11 + seed) & 0x3f);
}
template<class T> static void vec_construct (void *mem, size_t n, unsigned long seed)
{
  const TrackHooks *h = g_hooks;
  g_hooks = nullptr;               // the vector's own elements are not tracked
  struct Restore { const TrackHooks *h; ~Restore() { g_hooks = h; } };
  std::vector<T> v (n);
  for (size_t i = 0; i < n; i++)
    fill (v[i], i, seed);
  {
    Restore restore { h };
    g_hooks = h;
    try { new (mem) AlignedArray<T> (v); } catch (...) { restore.h = nullptr; g_hooks = nullptr; throw; }
    restore.h = nullptr;
  }
  g_hooks = nullptr;
}
template<class T> static typename std::enable_if<std::is_copy_constructible<AlignedArray<T>>::value, void>::type copy (void *d, void *s) { new (d) AlignedArray<T> (*aa<T> (s)); }
template<class T> static typename std::enable_if<!std::is_copy_constructible<AlignedArray<T>>::value, void>::type copy (void *, void *) {}

static size_t aa_elem_size (int kind) { KIND (return sizeof (T)); return 0; }
static int aa_construct (void *mem, int kind, size_t n) { AGUARD (KIND (new (mem) AlignedArray<T> (n))) }
static int aa_construct_vec (void *mem, int kind, size_t n, unsigned long seed)
{
  const TrackHooks *h = g_hooks;
  int rc;
  struct Run { static int go (void *mem, int kind, size_t n, unsigned long seed) { AGUARD (KIND (vec_construct<T> (mem, n, seed))) } };
  rc = Run::go (mem, kind, n, seed);
  g_hooks = h;
  return rc;
}
static void aa_destroy (void *mem, int kind) { KIND (typedef AlignedArray<T> A; aa<T> (mem)->~A()); }
static size_t aa_size (void *mem, int kind) { KIND (return aa<T> (mem)->size()); return 0; }
static void *aa_at (void *mem, int kind, size_t i) { KIND (return &(*aa<T> (mem))[i]); return 0; }
static const void *aa_cat (const void *mem, int kind, size_t i) { KIND (return &(*aa<T> (mem))[i]); return 0; }
static void *aa_begin (void *mem, int kind) { KIND (return aa<T> (mem)->begin()); return 0; }
static void *aa_end (void *mem, int kind) { KIND (return aa<T> (mem)->end()); return 0; }
static int aa_copyable (int kind) { KIND (return std::is_copy_constructible<AlignedArray<T>>::value); return 0; }
static int aa_copy (void *dst, void *src, int kind) { AGUARD (KIND (copy<T> (dst, src))) }
static void set_hooks (const TrackHooks *h) { g_hooks = h; }

extern "C" __attribute__((visibility("default"))) const VApi *
panda_variant_api()
{
  static VApi api;
  api.obj_size = sizeof (R); api.obj_align = alignof (R);
  api.construct = v_construct; api.destroy = v_destroy; api.process = v_process; api.reset = v_reset;
  api.order = v_order; api.delay = v_delay; api.sse_enabled = v_sse;
  api.move_construct = v_mc; api.move_assign = v_ma; api.swap = v_swap; api.grow = v_grow;
  api.sse_available = v_avail; api.find_prec = v_find; api.prec_name = v_name; api.self_test = v_selftest;
  api.aa_elem_size = aa_elem_size; api.aa_construct = aa_construct; api.aa_construct_vec = aa_construct_vec;
  api.aa_destroy = aa_destroy; api.aa_size = aa_size; api.aa_at = aa_at; api.aa_cat = aa_cat;
  api.aa_begin = aa_begin; api.aa_end = aa_end; api.aa_copyable = aa_copyable; api.aa_copy = aa_copy;
  api.aa_obj_size = sizeof (AlignedArray<float>);
  api.set_hooks = set_hooks; api.id = VARIANT_ID;
  return &api;
}

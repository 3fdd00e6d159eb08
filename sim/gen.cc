// Seed -> trace, one generator per property. Everything random about a run is
// decided here; executing a trace makes no further choices.
#include "trace.h"
#include <algorithm>
#include <math.h>

namespace sim {

struct Gen
{
  Trace t;
  Rng r;
  int tier;
  Gen (const std::string& p, uint64_t seed, int tier) : r (mix2 (seed, std::hash<std::string>() (p))), tier (tier) { t.prop = p; t.seed = seed; }

  Op& op (int kind, std::initializer_list<int64_t> a, int task = -1)
  {
    Op o; o.kind = kind; o.task = task;
    int k = 0;
    for (auto v : a) o.a[k++] = v;
    t.ops.push_back (o);
    return t.ops.back();
  }
  Cfg cfg (int filter = -1, int ratio = -1, bool linear = true)
  {
    Cfg c;
    c.mode = int (r.range (0, 1));
    c.ratio = ratio > 0 ? ratio : r.pick ({ 2, 2, 4, 8 });
    c.filter = filter >= 0 ? filter : int (r.range (0, 1));
    c.prec = r.pick ({ 1, 8, 12, 16, 20, 24 });
    if (c.prec == 1 && (!linear || c.filter)) c.prec = r.pick ({ 8, 12, 16, 20, 24 });
    c.sse = r.chance (3, 4);
    return c;
  }
  void variant (std::initializer_list<const char *> l) { t.variants.push_back (r.pick (l)); }
  void any_variant() { variant ({ "gcc", "gcc", "clang", "clang", "honly", "nosse", "neon", "ndebug", "dbg", "avx" }); }
  int style = 0;
  bool huge = false;
  // a block length in low-rate samples
  int64_t block (const Cfg& c)
  {
    if (huge && r.chance (1, 400))         // far longer than any internal block, and beyond 16 bit counts
      return std::min<int64_t> (int64_t (exp2 (11 + r.unit() * 6)), 250000 / std::max (2, c.ratio));
    int s = style ? style : int (r.range (1, 8));
    switch (s)
      {
        case 1: return r.range (0, 3);
        case 2: return r.range (1, 16);
        case 3: return r.range (1, 130);
        case 4: return r.chance (1, 3) ? 0 : r.range (1, 60);
        case 5: { int64_t per = c.mode && c.ratio > 2 ? 1024 / c.ratio : 1024; return std::max<int64_t> (0, per * r.range (1, 3) + r.range (-3, 3)); }
        case 6: return r.range (30, 700);
        case 7: return r.chance (1, 2) ? r.range (0, 2) : r.range (900, 2600);
        default: return r.chance (1, 12) ? 0 : int64_t (exp2 (r.unit() * 9));
      }
  }
  int64_t amp (int lo = -40, int hi = 20) { return r.chance (1, 2) ? 0 : r.chance (1, 12) ? r.range (-240, 340) : r.range (lo, hi); }
  int64_t budget (const Cfg& c, int64_t fir = 9000, int64_t iir = 2500) { int64_t b = c.filter ? iir : fir; return b / (c.ratio >= 4 ? c.ratio / 2 : 1) + 300; }
  int where = 0;        // how this run's host places its buffers
  Op& proc (int64_t i, int64_t n)
  {
    if (!where) where = int (r.range (1, 8));
    int64_t pin = r.chance (2, 5) ? 2 : r.range (0, 1), pout = r.chance (2, 5) ? 2 : r.range (0, 1);
    if (where == 1 || (where < 4 && r.chance (1, 8))) pin += 3;
    if (where == 2 || (where < 4 && r.chance (1, 8))) pout += 3;
    if (where == 3 || (where == 4 && r.chance (1, 4))) pout = r.range (6, 7);
    return op (K_PROC, { i, n, pin, r.range (0, 15), pout, r.range (0, 15), 0 });
  }
  Op& proc_calm (int64_t i, int64_t n) { return op (K_PROC, { i, n, 2, 0, 2, 0, 0 }); }
  // 0 silence 1 noise 2 sparse 3 tone 4 dc 5 nyquist 6 levels 7 worst 8 square
  int64_t sig (int64_t i, int64_t a = 9999, int kind = -1)
  {
    if (kind < 0) kind = r.pick ({ 1, 1, 1, 2, 2, 4, 5, 6, 7, 8 });
    if (a == 9999) a = amp();
    int64_t p1 = kind == 2 ? r.pick ({ 3, 20, 100, 300 }) : kind == 6 ? r.range (2, 24) : r.range (1, 60);
    op (K_SIG, { i, kind, int64_t (r.next() >> 16), a, p1, 1 });
    t.floor = std::min (t.floor, a - (kind == 6 ? 4 * p1 : 0) - 4);
    return a;
  }
  void mem (int fill = -1) { op (K_MEM, { fill >= 0 ? fill : r.range (0, 5), r.range (0, 2) + (r.chance (1, 5) ? 3 * r.range (1, 2) : 0), int64_t (r.next() >> 20) }); }
  void poison() { op (K_POISON, { r.range (0, 5) }); }
  void fpenv() { op (K_FPENV, { r.range (0, 3), r.range (0, 1), r.range (0, 1), r.chance (1, 3) ? r.range (0, 15) : 0 }); }

  // where counters overflow
  int64_t exact() { return (int64_t (1) << r.pick ({ 3, 4, 5, 6, 7, 8, 8, 8, 8, 9, 10, 10, 11, 12 })) * (r.chance (1, 4) ? r.range (1, 5) : 1) + (r.chance (1, 3) ? r.range (-2, 2) : 0); }
  // many repetitions: of tiny calls, resets, foreign instances, queries, moves, whole crowds, self tests
  void many (int64_t i, std::initializer_list<int> whats)
  {
    int what = r.pick (whats);
    int64_t count = what == 5 ? r.range (2, 300) : what == 6 ? r.range (2, 40) : int64_t (exp2 (3 + r.unit() * (r.chance (1, 6) ? 14 : 9)));
    if (what < 5 && r.chance (1, 2)) count = exact();
    Cfg c = cfg (-1, r.pick ({ 2, 2, 4, 8 }));
    op (K_MANY, { i, what, count, r.chance (1, 2) ? 1 : r.range (0, 8), c.pack(), int64_t (r.next() >> 20) });
  }
  // a single call with a block beyond all reason
  void big (int64_t i, const Cfg& c, int lo = 17, int hi = 22)
  {
    int64_t n = int64_t (exp2 (lo + r.unit() * (hi - lo))) / (hi <= 22 ? std::max (1, c.ratio / 2) : 1);
    sig (i, amp (-20, 10), r.pick ({ 1, 1, 2, 8 }));
    op (K_BIG, { i, n, r.range (0, 2), r.range (0, 15), r.range (0, 2), r.range (0, 15) });
    sig (i);
  }
  // a few samples that are no numbers, and what a host does about it
  void nan_burst (int64_t i, const Cfg& c)
  {
    op (K_GLITCH, { i, r.range (1, 5), 3, int64_t (r.next() >> 20), r.chance (1, 3) ? 0 : r.range (0, 30) });
    for (int q = int (r.range (1, 3)); q > 0; q--) proc (i, r.range (1, 60));
    if (c.filter || r.chance (1, 4)) op (K_RESET, { i, 1 });
  }
  void strangers (int64_t i, const Cfg& like);
  void c01();
  void c02();
  void c03();
  void c04();
  void c05();
  void c06();
  void c07();
  void c08();
  void c09();
  void c10();
  void c11();
  void c12();
  void c13();
  void c14();
  void c15();
  void c16();
  void c17();
  void c19();
  void marathon (int64_t k);
  void giant (int64_t k);
  void vast (int64_t k);
};

void Gen::c01()
{
  huge = true;
  any_variant();
  int k = int (r.range (1, 2));
  std::vector<Cfg> cs;
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.chance (1, 30) ? 1 : -1);
      cs.push_back (c);
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i);
    }
  for (int i = 0; i < k; i++)
    {
      style = r.chance (1, 3) ? 0 : int (r.range (1, 8));
      int64_t left = budget (cs[i]);
      int procs = 0;
      while (left > 0 && procs++ < 120)
        {
          int64_t n = block (cs[i]);
          int which = r.chance (1, 6) ? int (r.range (0, k - 1)) : i;
          proc (which, n);
          left -= n + 3;
          if (r.chance (1, 600)) many (i, { 0, 0, 2, 5 });
          if (r.chance (1, 40)) op (K_RESET, { i, 1 });
          if (r.chance (1, 30)) sig (i);
          if (r.chance (1, 4000)) big (i, cs[i]);
        }
    }
}

void Gen::c02()
{
  t.cold = 1;
  t.variants.push_back ("cov");
  int tasks = r.pick ({ 2, 2, 2, 3, 3, 4 });
  int gsw = r.pick ({ 0, 8, 64, 128, 255 });
  op (K_PAR, { r.pick ({ 0, 0, 1, 7, 50, 400, 3000, 20000 }), int64_t (r.next() >> 16), gsw, 0 });
  int ns = int (r.range (0, 40));
  for (int i = 0; i < ns; i++)
    op (K_SLICE, { r.range (0, tasks - 1), int64_t (exp2 (r.unit() * (r.chance (1, 2) ? 6 : 14))) });
  Cfg same = cfg (-1, r.pick ({ 2, 2, 2, 4, 8 }));
  bool use_same = r.chance (1, 2);
  bool crowd = r.chance (1, 12);        // many short-lived instances in between
  for (int k = 0; k < tasks; k++)
    {
      int ni = int (r.range (1, 2));
      std::vector<Cfg> cs;
      if (r.chance (1, 12)) op (K_SELF, { 0 }, k);
      for (int i = 0; i < ni; i++)
        {
          Cfg c = use_same ? same : cfg (-1, r.pick ({ 1, 2, 2, 2, 4, 8 }));
          if (use_same && r.chance (1, 3)) c.sse ^= 1;
          cs.push_back (c);
          if (crowd && r.chance (1, 2))
            {
              Cfg d = c;
              if (r.chance (1, 3)) d.prec = 8;
              op (K_MANY, { 0, 2, r.chance (2, 3) ? (int64_t (1) << r.pick ({ 2, 3, 4, 5, 6, 6, 7, 8 })) - r.range (0, 4) : r.range (1, 150), 0, d.pack(), 0 }, k);
            }
          op (K_NEW, { i, c.pack(), 0, 0, int64_t (r.next() >> 24) }, k);
          if (r.chance (1, 3)) op (K_QUERY, { i, r.range (0, 30) }, k);
        }
      int nops = int (r.range (1, 5));
      for (int q = 0; q < nops; q++)
        {
          int i = int (r.range (0, ni - 1));
          int64_t n = r.chance (1, 5) ? r.range (60, 150) : r.chance (1, 3) ? r.range (0, 60) : r.range (1, 16);
          if (cs[i].ratio > 1) n = std::max<int64_t> (1, n * 2 / cs[i].ratio);
          if (r.chance (1, 25)) n = r.range (200, 1300) * 2 / std::max (2, cs[i].ratio);
          op (K_PROC, { i, n, r.range (0, 2), r.range (0, 15), r.range (0, 2), r.range (0, 15) }, k);
          if (r.chance (1, 8)) op (K_RESET, { i, 1 }, k);
          if (r.chance (1, 12)) op (K_MOVE, { i, 0, 0 }, k);
          if (r.chance (1, 10)) op (K_QUERY, { i, r.range (0, 30) }, k);
          if (r.chance (1, 15)) { op (K_DEL, { i }, k); op (K_NEW, { i, cs[i].pack(), 0, 0, 5 }, k); }
        }
    }
  op (K_JOIN, {});
}

void Gen::c03()
{
  huge = true;
  bool cut = r.chance (1, 2);
  if (cut) t.variants.push_back ("cov"); else any_variant();
  int k = cut ? 1 : int (r.range (1, 2));
  if (r.chance (1, 2)) mem();
  std::vector<Cfg> cs;
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.chance (1, 40) ? 1 : -1);
      cs.push_back (c);
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i, 9999, r.chance (1, 2) ? 1 : -1);
      if (r.chance (1, 8)) op (K_RESET, { i, r.range (1, 3) });
    }
  style = r.chance (1, 3) ? 0 : int (r.range (1, 4));
  int cycles = int (r.range (1, 6));
  for (int q = 0; q < cycles; q++)
    {
      int i = int (r.range (0, k - 1));
      int np = int (r.range (0, 5));
      for (int p = 0; p < np; p++)
        {
          if (r.chance (1, 10)) op (K_GLITCH, { i, r.range (1, 40), r.pick ({ 0, 1, 3, 3 }), int64_t (r.next() >> 20), r.range (0, 20) });
          proc (i, std::min<int64_t> (block (cs[i]), 600));
        }
      if (r.chance (1, 50)) many (i, { 0, 1, 1, 2 });
      if (!cut && r.chance (1, 40))
        {
          op (K_RESET, { i, 1 });
          op (K_MANY, { i, 0, exact(), r.range (0, 3), cs[i].pack(), int64_t (r.next() >> 20) });
        }
      if (r.chance (1, 5)) op (K_MOVE, { i, r.pick ({ 0, 2, 4 }), 0 });
      if (r.chance (1, 6)) sig (i);
      if (cut && cs[i].ratio > 1)
        {
          int64_t n = r.chance (1, 3) ? r.range (1, 300) : r.range (1, 40);
          op (K_CUT, { i, n, int64_t (exp2 (r.unit() * 13)) });
        }
      else
        op (K_RESET, { i, r.chance (1, 4) ? 2 : 1 });
      np = int (r.range (1, 4));
      for (int p = 0; p < np; p++)
        proc (i, std::min<int64_t> (block (cs[i]), 400));
    }
}

void Gen::c04()
{
  huge = true;
  if (r.chance (1, 3)) t.variants.push_back ("cov"); else any_variant();
  if (r.chance (1, 2)) mem();
  int k = int (r.range (1, 3));
  std::vector<Cfg> cs;
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.pick ({ 1, 2, 2, 2, 4, 8 }));
      cs.push_back (c);
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i, 9999, r.pick ({ 1, 2, 6 }));
    }
  int np = int (r.range (10, 60));
  style = r.chance (1, 2) ? 0 : int (r.range (1, 8));
  int64_t left = 6000;
  for (int p = 0; p < np && left > 0; p++)
    {
      int i = int (r.range (0, k - 1));
      int64_t n = block (cs[i]);
      proc (i, n);
      if (r.chance (1, 400)) many (i, { 0 });
      if (t.variants[0] != "cov" && r.chance (1, 3000)) big (i, cs[i]);
      left -= n * std::max (1, cs[i].ratio / 2);
      if (r.chance (1, 25)) op (K_RESET, { i, 1 });
    }
}

void Gen::c05()
{
  any_variant();
  if (r.chance (2, 3)) mem();
  int np = int (r.range (6, 18));
  std::vector<Cfg> cs (6);
  std::vector<int> made (6, 0);
  for (int p = 0; p < np; p++)
    {
      int i = int (r.range (0, 5));
      if (!made[i])
        {
          Cfg c = cfg (-1, r.pick ({ 1, 2, 4, 8, 8 }));
          cs[i] = c;
          if (r.chance (4, 5))
            switch (r.range (0, 3))
              {
                case 0: op (K_OOM, { 1, int64_t (1) << r.range (0, 20), 0 }); break;
                case 1: op (K_OOM, { 2, r.range (0, 22), 0 }); break;
                case 2: op (K_OOM, { 1, int64_t (r.next() & r.next() & 0xffffff), 0 }); break;
                default: op (K_OOM, { 3, r.range (4, 80), int64_t (r.next() >> 20) }); break;
              }
          op (K_NEW, { i, c.pack(), 0, 0, 0 });
          made[i] = 1;      // may have failed; later operations are then skipped
          if (r.chance (1, 2)) { op (K_OOM, { 0, 0, 0 }); op (K_NEW, { i, c.pack(), 0, 0, 0 }); }
          sig (i, 9999, 1);
        }
      else if (r.chance (1, 3)) { op (K_DEL, { i }); made[i] = 0; }
      else
        proc (i, r.range (1, cs[i].filter ? 60 : 120));
      if (r.chance (1, 60)) many (i, { 2, 5, 5 });
      if (r.chance (1, 12)) mem();
    }
}

void Gen::c06()
{
  huge = true;
  any_variant();
  if (r.chance (1, 3)) mem();
  int k = int (r.range (1, 4));
  std::vector<Cfg> cs;
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.pick ({ 1, 2, 2, 4, 8 }));
      cs.push_back (c);
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i, 9999, r.chance (1, 2) ? 1 : -1);
    }
  if (r.chance (5, 6)) op (K_OOMRUN, { 1 });
  int np = int (r.range (8, 40));
  int64_t left = 5000;
  for (int p = 0; p < np && left > 0; p++)
    {
      int i = int (r.range (0, k - 1));
      if (r.chance (1, 4)) fpenv();
      if (r.chance (1, 3000)) big (i, cs[i]);
      switch (r.range (0, 11))
        {
          case 0: op (K_RESET, { i, 1 }); break;
          case 1: op (K_MOVE, { i, r.range (0, 4), r.range (0, k - 1) }); break;
          case 2: op (K_SWAP, { i, r.range (0, k - 1) }); break;
          case 3: op (K_QUERY, { i, r.range (0, 30) }); break;
          case 4: poison(); break;
          case 5: if (r.chance (1, 6)) op (K_DEL, { i }); break;
          default:
            {
              int64_t n = block (cs[i]);
              proc (i, n);
              left -= n * std::max (1, cs[i].ratio / 2) * (cs[i].filter ? 3 : 1);
            }
        }
      if (r.chance (1, 150)) many (i, { 0, 1, 3, 4 });
      if (r.chance (1, 15)) sig (i);
      if (r.chance (1, 40)) nan_burst (i, cs[i]);
    }
}

void Gen::c07()
{
  huge = true;
  any_variant();
  if (r.chance (1, 4)) mem();
  Cfg c = cfg (r.chance (3, 5) ? 1 : 0);
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  int64_t a = sig (0, 9999, r.pick ({ 1, 1, 2, 4, 5, 8 }));
  (void) a;
  int64_t left = budget (c, 5000, 2200);
  style = r.chance (1, 2) ? 0 : int (r.range (2, 6));
  while (left > 0)
    {
      if (r.chance (1, 5))
        {
          int kind = c.filter ? r.pick ({ 0, 1, 2 }) : r.pick ({ 0, 1, 2, 3, 3, 4 });
          if (c.filter && r.chance (1, 20))
            { op (K_GLITCH, { 0, r.range (1, 5), 3, int64_t (r.next() >> 20), r.range (0, 10) }); proc (0, r.range (12, 60)); op (K_RESET, { 0, 1 }); left -= 60; }
          else
            {
              op (K_GLITCH, { 0, r.chance (1, 2) ? r.range (1, 4) : r.range (1, 90), kind, int64_t (r.next() >> 20), r.range (0, 40) });
              if (r.chance (1, 12)) { proc (0, r.range (5, 100)); op (K_RESET, { 0, 1 }); left -= 60; }
            }
        }
      int64_t n = block (c);
      proc (0, n);
      left -= n + 4;
      if (r.chance (1, 40)) sig (0);
    }
  if (c.filter) proc (0, 700 / std::max (1, c.ratio / 4));
}

void Gen::c08()
{
  any_variant();
  if (r.chance (1, 4))
    {
      Cfg a = cfg (-1, -1, false), b = cfg (-1, a.ratio, false);
      a.mode = 0; b.mode = 1;
      op (K_NEW, { 0, a.pack(), 0, 0, 0 });
      op (K_NEW, { 1, b.pack(), 0, 0, 0 });
      bool iir = a.filter || b.filter;
      op (K_SIG, { 0, 3, int64_t (r.next() >> 16), 0, iir ? r.range (6000, 22600) : r.range (10000, 400000), 1 });
      int64_t left = iir ? 2700 : 1600;
      while (left > 0)
        {
          int64_t n = r.range (1, r.chance (1, 2) ? 40 : 600);
          op (K_CHAIN, { 0, 1, n });
          left -= n;
          if (r.chance (1, 20)) op (K_MOVE, { r.range (0, 1), r.pick ({ 0, 2, 4 }), 0 });
        }
      return;
    }
  Cfg c = cfg (-1, -1, true);
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  if (r.chance (1, 4)) op (K_RESET, { 0, 1 });
  style = r.chance (1, 2) ? 0 : int (r.range (3, 8));
  int rounds = int (r.range (1, 2));
  for (int q = 0; q < rounds; q++)
    {
      op (K_SIG, { 0, 3, int64_t (r.next() >> 16), r.range (-20, 8), c.filter ? r.range (5000, 22700) : r.range (8000, c.prec == 1 ? 100000 : 408000), 1 });
      int64_t left = c.filter ? 1800 : 1300;
      while (left > 0)
        {
          int64_t n = block (c);
          proc (0, n);
          left -= n + 1;
          if (r.chance (1, 30)) op (K_MOVE, { 0, r.pick ({ 0, 2, 4 }), 0 });
          if (r.chance (1, 20)) op (K_QUERY, { 0, r.range (0, 30) });
        }
      if (r.chance (1, 2)) op (K_RESET, { 0, 1 });
    }
}

void Gen::c09()
{
  huge = true;
  std::vector<const char *> all = { "gcc", "clang", "honly", "nosse", "neon", "ndebug", "dbg", "avx" };
  int k = int (r.range (2, 4));
  for (int i = 0; i < k; i++)
    t.variants.push_back (all[r.range (0, int64_t (all.size()) - 1)]);
  Cfg c = cfg();
  int kind = r.pick ({ 1, 1, 2, 2, 4, 6, 7, 8 });
  if (kind == 7) kind = 1;
  int64_t a = amp(), seed = int64_t (r.next() >> 16), p1 = kind == 2 ? r.pick ({ 20, 100, 300 }) : kind == 6 ? r.range (2, 20) : r.range (1, 60);
  t.floor = std::min<int64_t> (0, a - (kind == 6 ? 4 * p1 : 0) - 4);
  std::vector<int64_t> pos (k + 4, 0);
  int64_t total = budget (c, 5000, 2200);
  int n = k;
  auto start = [&] (int i, int64_t at, int var)
    {
      Cfg x = c;
      x.sse = i == 0 ? 1 : int (r.range (0, 1));
      op (K_NEW, { i, x.pack(), var, 1, at });
      op (K_SIG, { i, kind, seed, a, p1, 1 });
      pos[i] = at;
    };
  for (int i = 0; i < k; i++) start (i, 0, i);
  for (int i = 0; i < n; i++)
    {
      style = r.chance (1, 3) ? 0 : int (r.range (2, 8));
      while (pos[i] < total)
        {
          int64_t b = std::min (block (c), total - pos[i]);
          proc (i, b);
          pos[i] += b;
          if (b == 0 && r.chance (1, 4)) pos[i] += 0;
          if (r.chance (1, 400)) { many (i, { 2, 5 }); }
          if (i && n < k + 3 && r.chance (1, 60))
            { start (n, r.range (0, total / 3), int (r.range (0, k - 1))); n++; }
        }
    }
}

void Gen::c10()
{
  any_variant();
  Cfg c = cfg (-1, -1, false);
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  int rounds = int (r.range (1, 3));
  style = r.chance (1, 2) ? 0 : int (r.range (3, 8));
  for (int q = 0; q < rounds; q++)
    {
      bool stop = c.mode && r.chance (1, 2);
      int64_t f;
      if (stop)
        {
          // folds into the passband: m +- [0, 0.408]
          int m = int (r.range (1, c.ratio / 2));
          double d = r.chance (1, 2) ? r.range (395000, 408000) : r.range (1000, 408000);
          f = int64_t (m * 1000000 + ((m == c.ratio / 2 || r.chance (1, 2)) ? -d : d));
        }
      else
        f = r.chance (1, 2) ? r.range (380000, 408000) : r.range (8000, 408000);
      op (K_SIG, { 0, stop ? 9 : 3, int64_t (r.next() >> 16), r.range (-30, 20), f, c.filter ? 1 : r.range (1, 3) });
      if (c.filter == 0 && r.chance (1, tier ? 12 : 40)) op (K_FF, { 0, r.range (20000, 300000) });
      int64_t left = c.filter ? 1300 : 700;
      if (q == 0 && c.filter) left += 200;
      while (left > 0)
        {
          int64_t n = block (c);
          proc (0, n);
          left -= n + 1;
        }
      if (r.chance (1, 4)) op (K_RESET, { 0, 1 });
    }
}

void Gen::c11()
{
  huge = true;
  any_variant();
  if (r.chance (1, 2)) mem();
  int k = int (r.range (1, 4));
  std::vector<Cfg> cs;
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.pick ({ 1, 2, 2, 4, 8 }));
      cs.push_back (c);
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i, 9999, r.chance (1, 2) ? 1 : -1);
    }
  int np = int (r.range (8, 40));
  int64_t left = 4000;
  for (int p = 0; p < np && left > 0; p++)
    {
      int i = int (r.range (0, k - 1));
      if (r.chance (1, 60)) nan_burst (i, cs[i]);
      if (r.chance (1, 120)) many (i, { 0, 4, 5 });
      switch (r.range (0, 9))
        {
          case 0: case 1: op (K_MOVE, { i, r.range (0, 4), r.range (0, k - 1) }); break;
          case 2: op (K_SWAP, { i, r.range (0, k - 1) }); break;
          case 3: op (K_GROW, { i, r.range (0, 5), r.range (0, 3) }); break;
          case 4: if (r.chance (1, 4)) op (K_RESET, { i, 1 }); else op (K_QUERY, { i, r.range (0, 30) }); break;
          case 5: if (r.chance (1, 4)) { op (K_DEL, { i }); } op (K_NEW, { i, cs[i].pack(), 0, 0, 0 }); sig (i, 9999, 1); break;
          default:
            {
              int64_t n = std::min<int64_t> (block (cs[i]), 500);
              proc (i, n).a[6] = r.chance (1, 5);
              left -= n * std::max (1, cs[i].ratio / 2) * (cs[i].filter ? 3 : 1);
            }
        }
    }
}

void Gen::c12()
{
  any_variant();
  int np = int (r.range (6, 30));
  for (int p = 0; p < np; p++)
    {
      if (r.chance (1, 3)) mem();
      int j = int (r.range (0, 4));
      switch (r.range (0, 5))
        {
          case 0: case 1: case 2:
            {
              int kind = int (r.range (0, 6));
              if (r.chance (1, 3)) op (K_OOM, { r.range (1, 3), r.range (0, 3), int64_t (r.next() >> 20) });
              if (kind >= 3 && r.chance (1, 3)) op (K_AATHROW, { r.range (0, 20) });
              int64_t n = r.chance (1, 8) ? 0 : r.chance (1, 2) ? r.range (1, 70) : r.range (1, 2000);
              if (kind >= 3) n = std::min<int64_t> (n, 150);
              if (r.chance (1, 150)) n = (int64_t (1) << r.pick ({ 8, 8, 10, 12, 16 })) * r.range (1, 2) + r.range (-2, 3);
              int how = int (r.range (0, 1));
              if (r.chance (1, 12)) { how = 2; n = r.range (0, 199); }
              op (K_AANEW, { j, kind, n, how, r.range (0, 1000) });
              break;
            }
          case 3: op (K_AAUSE, { j, int64_t (r.next() >> 20) }); break;
          case 4: op (K_AADEL, { j }); break;
          default: op (K_AACOPY, { j, r.range (0, 4) }); break;
        }
    }
}

void Gen::c13()
{
  if (r.chance (1, 2))
    {
      // several threads query one resampler
      t.variants.push_back ("cov");
      t.cold = r.chance (2, 3);
      Cfg c = cfg (-1, r.pick ({ 1, 2, 4, 8, 8 }));
      op (K_NEW, { 0, c.pack(), 0, 0, 0 });
      sig (0, 0, 1);
      int rounds = int (r.range (1, 3));
      for (int q = 0; q < rounds; q++)
        {
          if (q || r.chance (1, 2)) proc (0, r.range (1, 60));
          int tasks = int (r.range (2, 4));
          op (K_PAR, { r.pick ({ 0, 1, 1, 2, 3, 5, 11 }), int64_t (r.next() >> 16), r.pick ({ 0, 64, 255 }), 1 });
          int ns = int (r.range (0, 30));
          for (int i = 0; i < ns; i++)
            op (K_SLICE, { r.range (0, tasks - 1), int64_t (exp2 (r.unit() * 5)) });
          for (int k = 0; k < tasks; k++)
            for (int64_t i = r.range (1, 4); i > 0; i--)
              op (K_QUERY, { 0, r.range (0, 30) }, k);
          op (K_JOIN, {});
        }
      proc (0, r.range (60, 200));
      op (K_QUERY, { 0, r.range (0, 30) });
      return;
    }
  any_variant();
  if (r.chance (1, 3)) mem();
  int k = int (r.range (1, 3));
  std::vector<Cfg> cs;
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.pick ({ 1, 2, 2, 4, 8 }));
      cs.push_back (c);
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i, 9999, 1);
    }
  int np = int (r.range (6, 30));
  for (int p = 0; p < np; p++)
    {
      int i = int (r.range (0, k - 1));
      if (r.chance (1, 2)) op (K_QUERY, { i, r.range (0, 40) });
      else if (r.chance (1, 6)) op (K_RESET, { i, 1 });
      else if (r.chance (1, 5)) op (K_MOVE, { i, r.range (0, 4), r.range (0, k - 1) });
      else proc (i, r.range (0, cs[i].filter ? 100 : 300));
      if (r.chance (1, 100)) many (i, { 0, 1, 3, 3, 4 });
      if (r.chance (1, 12)) fpenv();
    }
}

void Gen::c14()
{
  huge = true;
  any_variant();
  if (r.chance (1, 3)) mem();
  Cfg c = cfg (r.chance (3, 5) ? 1 : 0);
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  style = r.chance (1, 3) ? 0 : int (r.range (2, 8));
  int rounds = int (r.range (1, 3));
  if (r.chance (1, 4)) fpenv();
  for (int q = 0; q < rounds; q++)
    {
      sig (0, r.range (-60, 120), r.pick ({ 1, 2, 4, 5, 6, 7, 7, 8 }));
      int64_t left = r.range (1, c.filter ? 900 : 1500);
      if (r.chance (1, 60)) op (K_FF, { 0, r.range (5000, 200000) });
      while (left > 0) { int64_t n = block (c); proc (0, n); left -= n + 1; }
      if (r.chance (3, 4))
        {
          if (r.chance (1, 4)) fpenv();
          op (K_SIG, { 0, 0, 0, 0, 0, 0 });
          left = c.filter ? 1700 : 200;
          while (left > 0) { int64_t n = block (c); proc (0, n); left -= n + 1; }
        }
      if (r.chance (1, 8)) op (K_RESET, { 0, 1 });
    }
}

void Gen::c15()
{
  huge = true;
  any_variant();
  int k = int (r.range (1, 3));
  poison(); mem();
  std::vector<Cfg> cs;
  // what the process did before
  int pre = int (r.range (0, 3));
  for (int i = 10; i < 10 + pre; i++)
    {
      Cfg c = cfg (-1, r.pick ({ 1, 2, 4, 8 }));
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i, r.range (-40, 100));
      for (int64_t q = r.range (1, 4); q > 0; q--) proc (i, r.range (1, 400));
      if (r.chance (2, 3)) op (K_DEL, { i });
    }
  if (r.chance (1, 4)) op (K_SELF, { 0, int64_t (r.next() >> 20) });
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.pick ({ 1, 2, 2, 4, 8 }));
      cs.push_back (c);
      if (r.chance (1, 2)) poison();
      if (r.chance (1, 2)) mem();
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i);
    }
  int np = int (r.range (4, 40));
  style = r.chance (1, 2) ? 0 : int (r.range (1, 8));
  int64_t left = 8000;
  for (int p = 0; p < np && left > 0; p++)
    {
      int i = int (r.range (0, k - 1));
      if (r.chance (1, 100)) many (i, { 0, 1, 2, 5 });
      if (r.chance (1, 40)) nan_burst (i, cs[i]);
      if (r.chance (1, 5)) poison();
      if (r.chance (1, 8)) mem();
      if (r.chance (1, 12)) op (K_RESET, { i, 1 });
      if (r.chance (1, 20)) op (K_SELF, { 0, int64_t (r.next() >> 20) });
      if (r.chance (1, 20)) { op (K_DEL, { i }); op (K_NEW, { i, cs[i].pack(), 0, 0, 0 }); sig (i); }
      int64_t n = block (cs[i]);
      proc (i, n).a[6] = r.chance (1, 12);
      left -= n * cs[i].ratio / 2;
    }
}

void Gen::c16()
{
  if (r.chance (1, 20))
    {
      // several threads run it, while others use resamplers
      t.cold = r.chance (1, 2);
      t.variants.push_back ("cov");
      int tasks = int (r.range (2, 3));
      op (K_PAR, { r.pick ({ 0, 1, 7, 50, 400, 3000, 20000 }), int64_t (r.next() >> 16), r.pick ({ 0, 8, 64, 255 }), 0 });
      int ns = int (r.range (0, 30));
      for (int i = 0; i < ns; i++)
        op (K_SLICE, { r.range (0, tasks - 1), int64_t (exp2 (r.unit() * 14)) });
      for (int k = 0; k < tasks; k++)
        {
          if (k && r.chance (1, 3))
            {
              op (K_NEW, { 0, cfg().pack(), 0, 0, int64_t (r.next() >> 24) }, k);
              op (K_PROC, { 0, r.range (1, 60), 2, 0, 2, 0 }, k);
            }
          op (K_SELF, { 0 }, k);
        }
      op (K_JOIN, {});
      return;
    }
  any_variant();
  int np = int (r.range (4, 16));
  Cfg c = cfg (-1, r.pick ({ 2, 4, 8 }));
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  sig (0, 0, 1);
  for (int p = 0; p < np; p++)
    {
      if (r.chance (1, 3)) mem();
      if (r.chance (1, 3)) poison();
      if (r.chance (1, 3)) proc (0, r.range (1, 100));
      if (r.chance (1, 60)) many (0, { 2, 5, 6 });
      if (r.chance (1, 3))
        switch (r.range (0, 2))
          {
            case 0: op (K_OOM, { 1, int64_t (1) << r.range (0, 40), 0 }); break;
            case 1: op (K_OOM, { 2, r.range (0, 60), 0 }); break;
            default: op (K_OOM, { 3, r.range (2, 60), int64_t (r.next() >> 20) }); break;
          }
      bool verbose = r.chance (1, 10);
      op (K_SELF, { verbose, r.chance (1, 8) ? r.range (0, 3) : int64_t (r.next() >> 2), r.chance (1, verbose ? 2 : 10) ? r.range (1, 2) : 0 });
    }
}

void Gen::c17()
{
  huge = true;
  any_variant();
  Cfg c = cfg();
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  int rounds = int (r.range (1, 4));
  style = r.chance (1, 3) ? 0 : int (r.range (2, 8));
  int64_t base = r.chance (1, 2) ? r.range (-240, 300) : r.range (-24, 24);
  bool ffed = false;
  for (int q = 0; q < rounds; q++)
    {
      int64_t a = base + (r.chance (1, 2) ? 0 : r.range (-40, 40));
      a = std::max<int64_t> (-280, std::min<int64_t> (a, 380));
      sig (0, a);
      if (!ffed && r.chance (1, 10))
        {
          ffed = true;
          int64_t n = int64_t (exp2 (14 + r.unit() * (tier ? 9.0 : 6.0)));
          if (r.chance (1, tier ? 10 : 40)) n = (int64_t (1) << (c.ratio == 2 ? 22 : 20)) + r.range (0, 3000);
          if (r.chance (1, 200)) n = (int64_t (1) << (tier && r.chance (1, 4) ? 28 : 24)) + r.range (0, 3000);
          sig (0, a, r.pick ({ 1, 4, 8 }));
          op (K_FF, { 0, n / (c.ratio / 2) });
          sig (0, a);
        }
      if (r.chance (1, 600)) { big (0, c); sig (0, a); }
      int64_t left = budget (c, 2500, 900);
      while (left > 0) { int64_t n = block (c); proc (0, n); left -= n + 1; }
      if (r.chance (1, 3)) { op (K_SIG, { 0, 0, 0, 0, 0, 0 }); proc (0, r.range (1, 300)); }
      if (r.chance (1, 80)) many (0, { 0, 0, 2, 4 });
      if (r.chance (1, 12)) op (K_RESET, { 0, 1 });
    }
}

void Gen::c19()
{
  if (r.chance (1, 8)) t.variants.push_back ("cov"); else any_variant();
  if (r.chance (1, 2)) mem();
  int k = int (r.range (1, 4));
  std::vector<Cfg> cs;
  for (int i = 0; i < k; i++)
    {
      Cfg c = cfg (-1, r.pick ({ 1, 2, 2, 4, 8 }));
      if (i == 0 || r.chance (1, 3)) { c.ratio = 2; c.mode = 1; c.filter = 0; }
      cs.push_back (c);
      op (K_NEW, { i, c.pack(), 0, 0, 0 });
      sig (i, 9999, r.chance (1, 2) ? 1 : -1);
    }
  int np = int (r.range (10, 50));
  int64_t left = 3000;
  style = r.chance (1, 2) ? 0 : int (r.range (1, 4));
  for (int p = 0; p < np && left > 0; p++)
    {
      int i = int (r.range (0, k - 1));
      if (r.chance (1, 8)) poison();
      if (r.chance (1, 40)) nan_burst (i, cs[i]);
      if (r.chance (1, 20)) fpenv();
      if (r.chance (1, 3))
        {
          int sink = r.chance (2, 3) ? 0 : int (r.range (1, 2));
          if (r.chance (1, 2))
            op (K_MISUSE, { i, 0, r.chance (1, 3) ? 2 * r.range (0, 3) + 1 : r.chance (1, 10) ? int64_t (exp2 (r.unit() * 32)) | 1 : r.range (0, 3000) | 1, 0, 0, 0, sink });
          else
            {
              int64_t ratio = r.chance (1, 3) ? r.range (0, 20) : r.chance (1, 3) ? (int64_t (1) << r.range (0, 31)) + r.range (-1, 1) : r.chance (1, 2) ? r.pick ({ 1, 2, 4, 8 }) : int64_t (exp2 (r.unit() * 32));
              int64_t prec = r.chance (2, 3) ? r.pick ({ 1, 8, 12, 16, 20, 24 }) : r.range (0, 31);
              if (r.chance (1, 6)) op (K_OOM, { r.range (1, 2), r.range (0, 20), int64_t (r.next() >> 20) });
              op (K_MISUSE, { -1, 1, r.range (0, 3), ratio & 0xffffffff, prec, r.range (0, 7), sink });
            }
        }
      if (r.chance (1, 6)) op (K_QUERY, { i, r.range (0, 30) });
      if (r.chance (1, 15)) op (K_RESET, { i, 1 });
      if (r.chance (1, 15)) op (K_MOVE, { i, r.pick ({ 0, 2, 4 }), 0 });
      int64_t n = block (cs[i]);
      proc (i, n);
      left -= n * std::max (1, cs[i].ratio / 2) * (cs[i].filter ? 3 : 1);
    }
}

// a stream of half a day: more samples than a 32 bit counter can hold, on either side of the factor 2
void Gen::marathon (int64_t k)
{
  variant ({ "gcc", "clang" });
  Cfg c = cfg (k >> 1 & 1, 2);
  c.mode = k & 1; c.sse = k >> 2 & 1;
  c.prec = c.filter ? r.pick ({ 8, 12, 16, 20, 24 }) : r.pick ({ 8, 12 });
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  int64_t a = r.range (-24, 24);
  sig (0, a);
  for (int i = int (r.range (0, 6)); i > 0; i--) proc (0, block (c));
  sig (0, a, 1);
  op (K_FF, { 0, (int64_t (1) << (tier || c.filter == 0 ? 32 : 31)) + r.range (0, 5000) });
  sig (0, a);
  for (int64_t left = 4000; left > 0;) { int64_t n = block (c); proc (0, n); left -= n + 1; }
}

// one call with more than 2^32 samples
void Gen::vast (int64_t k)
{
  variant ({ "gcc", "clang" });
  Cfg c = cfg (k & 1, r.chance (2, 3) ? 2 : -1);
  c.mode = k == 3 ? 1 : k == 0 ? 0 : r.chance (1, 4);
  c.sse = k == 0 || r.chance (2, 3);
  if (!c.filter) c.prec = r.pick ({ 8, 8, 12 });
  if (k == 7) c.ratio = 1;
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  sig (0, 0, 1);
  for (int i = int (r.range (0, 3)); i > 0; i--) proc (0, block (c));
  int64_t n = c.mode ? (int64_t (1) << 32) / c.ratio - 1 - r.range (0, 30) : (int64_t (1) << 32) / c.ratio + r.range (1, 1 << 20);
  if (c.ratio == 1 || (c.mode == 0 && c.ratio == 2 && r.chance (1, 3))) n = (int64_t (1) << 32) - 1 - r.range (0, 7);
  op (K_VAST, { 0, n, r.range (0, 15), r.range (0, 15) });
  for (int i = int (r.range (1, 3)); i > 0; i--) proc (0, block (c));
}

void Gen::giant (int64_t k)
{
  variant ({ "gcc", "clang" });
  Cfg c = cfg (k >> 1 & 1, k < 6 ? 2 : -1);
  c.mode = k & 1; c.sse = k >> 2 & 1;
  op (K_NEW, { 0, c.pack(), 0, 0, 0 });
  sig (0);
  for (int i = int (r.range (0, 6)); i > 0; i--) proc (0, block (c));
  big (0, c, 24, 25);
  for (int i = int (r.range (2, 9)); i > 0; i--) proc (0, block (c));
  if (r.chance (1, 2)) op (K_RESET, { 0, 1 });
  for (int i = int (r.range (2, 9)); i > 0; i--) proc (0, block (c));
}

// an instance the run is not about, of a configuration close to one it is about
void Gen::strangers (int64_t i, const Cfg& like)
{
  Cfg c = like;
  for (int k = int (r.range (1, 2)); k > 0; k--)
    switch (r.range (0, 5))
      {
        case 0: c.mode ^= 1; break;
        case 1: c.filter ^= 1; break;
        case 2: c.sse ^= 1; break;
        case 3: c.prec = r.pick ({ 8, 12, 16, 20, 24 }); break;
        case 4: c.ratio = r.pick ({ 2, 4, 8 }); break;
        default: break;
      }
  if (c.prec == 1 && (c.filter || c.ratio == 1)) c.prec = 16;
  op (K_NEW, { i, c.pack(), r.range (0, 1), 100 + i, 0 });
  sig (i, 9999, r.pick ({ 1, 1, 8 }));
  for (int k = int (r.range (0, 3)); k > 0; k--) proc (i, r.chance (1, 6) ? r.range (100, 1200) : r.range (1, 90));
  if (r.chance (1, 4)) op (K_RESET, { i, 1 });
  if (r.chance (1, 3)) op (K_DEL, { i });
}

Trace generate (const std::string& prop, uint64_t seed, int tier, int64_t k)
{
  Gen g (prop, seed, tier);
  int n = atoi (prop.c_str() + 1);
  if ((n == 1 || n == 4) && k >= 0 && k < 8)
    {
      if (n == 1 && (k < 4 || k == 7)) g.vast (k); else g.giant (k);
      return g.t;
    }
  if (n == 17 && k >= 0 && k < 8)
    {
      g.marathon (k);
      return g.t;
    }
  switch (n)
    {
      case 1: g.c01(); break; case 2: g.c02(); break; case 3: g.c03(); break; case 4: g.c04(); break; case 5: g.c05(); break;
      case 6: g.c06(); break; case 7: g.c07(); break; case 8: g.c08(); break; case 9: g.c09(); break; case 10: g.c10(); break;
      case 11: g.c11(); break; case 12: g.c12(); break; case 13: g.c13(); break; case 14: g.c14(); break; case 15: g.c15(); break;
      case 16: g.c16(); break; case 17: g.c17(); break; case 19: g.c19(); break;
    }
  if (g.t.variants.empty()) g.t.variants.push_back ("gcc");
  Rng h (mix2 (seed, 0x1057));
  bool par = false, oom = false;
  const Op *first = nullptr;
  for (auto& p : g.t.ops)
    {
      par |= p.kind == K_PAR;
      oom |= p.kind == K_OOM || p.kind == K_OOMRUN;
      if (p.kind == K_NEW && !first) first = &p;
    }
  bool alone = n == 7 || n == 8 || n == 9 || n == 10 || n == 14 || n == 17;
  if (n != 2 && n != 12 && first && !par && !oom && h.chance (alone ? 10 : 3, 30))
    {
      Cfg like = Cfg::unpack (first->a[1]);
      for (int64_t i = 50, k = 50 + h.range (1, 3); i < k; i++)
        {
          Gen f (prop, h.next(), tier);
          f.strangers (i, like);
          g.t.floor = std::min (g.t.floor, f.t.floor);
          // in one place, or one operation here and one there
          int64_t at = h.chance (1, 2) ? h.range (0, std::min<int64_t> (4, int64_t (g.t.ops.size()))) : h.range (0, int64_t (g.t.ops.size()));
          bool spread = h.chance (1, 3);
          for (auto& o : f.t.ops)
            {
              g.t.ops.insert (g.t.ops.begin() + at, o);
              at++;
              if (spread) at = std::min<int64_t> (at + h.range (0, 3), int64_t (g.t.ops.size()));
            }
        }
    }
  if (n != 2 && n != 12 && h.chance (n == 15 ? 2 : 1, 3))
    {
      // a host with a past, clocks and environment variables
      Op o; o.kind = K_HOST; o.a[0] = int64_t (h.next() >> 20) | 1;
      g.t.ops.insert (g.t.ops.begin(), o);
      if (!par && h.chance (1, 2))
        { o.a[0] = h.chance (1, 3) ? 0 : int64_t (h.next() >> 20) | 1; g.t.ops.insert (g.t.ops.begin() + h.range (1, int64_t (g.t.ops.size()) - 1), o); }
    }
  return g.t;
}
}

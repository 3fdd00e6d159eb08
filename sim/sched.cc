// Cooperative scheduler: simulated threads are real threads of which exactly
// one runs at a time. The code under test is compiled with coverage callbacks
// at every basic block, load and store; each callback is one step, and the
// run's slice list decides after which step which thread continues.
#include "core.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>

namespace sim { namespace sched {

__thread int cur_task = -1;
__thread bool in_call = false;
Region regions[40];
int n_regions = 0;
bool check_access = false;

struct Task { pthread_t th; sem_t sem; bool done; };
static Task tasks[16];
static int n_tasks = 0, active = -1;
static sem_t main_sem;
static Params P;
static size_t slice_i;
static int64_t remaining, steps, cut_left;
static bool was_cut, post_cut;
static int stack_gen;
static Body body_fn;
static void *body_arg;
static int block_spins;
static uint64_t gcount;
static uintptr_t mod_base, glob_lo, glob_hi;

void set_globals (uintptr_t base, uintptr_t lo, uintptr_t hi) { mod_base = base; glob_lo = lo; glob_hi = hi; }

static int n_alive() { int n = 0; for (int i = 0; i < n_tasks; i++) n += !tasks[i].done; return n; }

static int rr_next (int from)
{
  for (int k = 1; k <= n_tasks; k++)
    {
      int t = (from + k) % n_tasks;
      if (!tasks[t].done) return t;
    }
  return -1;
}
static int choose (int from, bool must_leave)
{
  while (slice_i < P.slices.size())
    {
      Slice s = P.slices[slice_i++];
      int t = int (uint64_t (s.task) % uint64_t (n_tasks));
      if (tasks[t].done || (must_leave && t == from && n_alive() > 1))
        continue;
      remaining = s.steps < 1 ? 1 : s.steps;
      return t;
    }
  remaining = P.quantum;
  return rr_next (from);
}
static void wait_sem (sem_t *s) { while (sem_wait (s) != 0) {} }

static void go (int from, int to, uintptr_t where)
{
  if (to == from) return;
  res->ileave = mix2 (res->ileave, mix2 (uint64_t (from) * 64 + uint64_t (to), where));
  hash_u64 (where * 64 + uint64_t (to));
  active = to;
  sem_post (&tasks[to].sem);
  if (from >= 0)
    wait_sem (&tasks[from].sem);
}

static void *thread_main (void *p)
{
  int id = int ((intptr_t) p);
  wait_sem (&tasks[id].sem);
  cur_task = id;
  body_fn (body_arg, id);
  in_call = false;
  cur_task = -1;
  tasks[id].done = true;
  int next = choose (id, true);
  if (next < 0)
    { active = -1; sem_post (&main_sem); }
  else
    {
      res->ileave = mix2 (res->ileave, uint64_t (next) + 1000);
      active = next;
      sem_post (&tasks[next].sem);
    }
  return nullptr;
}

bool run (int n, Body body, void *arg, const Params& p)
{
  P = p;
  n_tasks = n; body_fn = body; body_arg = arg;
  slice_i = 0; steps = 0; cut_left = p.cut_at; was_cut = false; block_spins = 0; gcount = 0;
  sem_init (&main_sem, 0, 0);
  const size_t SS = 1 << 20;
  for (int i = 0; i < n; i++)
    {
      tasks[i].done = false;
      sem_init (&tasks[i].sem, 0, 0);
      void *want = (void *) (0x210000000000ULL + uint64_t (i + stack_gen * 16) * 0x1000000ULL);
      void *st = mmap (want, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
      if (st == MAP_FAILED) internal_error ("stack mmap");
      pthread_attr_t a;
      pthread_attr_init (&a);
      pthread_attr_setstack (&a, st, SS);
      if (pthread_create (&tasks[i].th, &a, thread_main, (void *) (intptr_t) i) != 0)
        internal_error ("pthread_create");
      pthread_attr_destroy (&a);
    }
  int first = choose (n - 1, false);
  active = first;
  sem_post (&tasks[first].sem);
  wait_sem (&main_sem);
  if (was_cut) { post_cut = true; stack_gen++; }      // the abandoned thread keeps its stack
  for (int i = 0; i < n; i++)
    if (tasks[i].done)
      pthread_join (tasks[i].th, nullptr);
  return !was_cut;
}

static void preempt (uintptr_t where, Stat st)
{
  int me = cur_task;
  int next = choose (me, st == S_f_preempt_global);
  if (next >= 0 && next != me)
    {
      stat (st);
      feature (77, where, uint64_t (next), uint64_t (me));
      go (me, next, where);
    }
}

static inline void step (uintptr_t pc, uintptr_t addr, unsigned size, bool wr)
{
  if (addr && check_access && in_call)
    {
      res->stats[S_mem_accesses_checked]++;
      if (addr >= 0x220000000000ULL && addr < 0x22a000000000ULL)
      for (int i = 0; i < n_regions; i++)
        {
          const Region& r = regions[i];
          if (addr + size > r.lo && addr < r.hi)
            {
              bool ok = (addr >= r.wr_lo && addr + size <= r.wr_hi) || (!wr && addr >= r.rd_lo && addr + size <= r.rd_hi);
              if (!ok)
                fail ("buffer", "%s of %u bytes %s the caller's buffer", wr ? "write" : "read", size,
                      wr && addr >= r.rd_lo && addr + size <= r.rd_hi ? "to the input side of" : addr < r.rd_lo && addr < r.wr_lo ? "before" : "outside");
              break;
            }
        }
      if (addr >= 0x200000000000ULL && addr < 0x210000000000ULL && arena::classify ((void *) addr, size) == 2)
        fail ("heap-access", "%s of %u bytes outside any live heap block", wr ? "write" : "read", size);
    }
  if (cur_task < 0 || !in_call)
    return;
  block_spins = 0;
  steps++;
  res->stats[S_sched_steps]++;
  if (steps > P.step_cap)
    fail ("no-progress", "simulated threads made no progress within %lld steps", (long long) P.step_cap);
  if (cut_left >= 0 && cur_task == 0 && cut_left-- == 0)
    {
      was_cut = true;
      stat (S_f_call_cut);
      hash_u64 (pc - mod_base);
      feature (78, pc - mod_base);
      sem_post (&main_sem);
      for (;;) pause();
    }
  if (n_tasks > 1)
    {
      if (P.gsw && addr >= glob_lo && addr < glob_hi && addr)
        {
          if (int (mix2 (P.seed, gcount++) & 255) < P.gsw)
            { preempt (pc - mod_base, S_f_preempt_global); return; }
        }
      if (--remaining <= 0)
        preempt (pc - mod_base, S_f_preempt);
    }
}

void op_boundary()
{
  if (cur_task < 0 || n_tasks < 2) return;
  if (remaining > 1 && slice_i < P.slices.size()) { remaining -= 1; return; }
  preempt (1, S_f_preempt);
}

// returns after other tasks had a chance; fails when nobody can make progress
static void blocked (const char *what)
{
  stat (S_lock_contended);
  if (cur_task < 0)
    fail ("deadlock", "%s is held by a call that was abandoned", what);
  if (++block_spins > 4 * n_tasks + 4)
    fail ("deadlock", "all simulated threads wait for %s", what);
  int next = rr_next (cur_task);
  remaining = P.quantum < 1000 ? P.quantum : 1000;
  if (next >= 0 && next != cur_task)
    go (cur_task, next, 2);
}

static inline bool managed() { return cur_task >= 0 || post_cut; }

template<class F> static F real (F& slot, const char *name)
{
  if (!slot) slot = (F) dlsym (RTLD_NEXT, name);
  return slot;
}
}} // sim::sched

using namespace sim;
using namespace sim::sched;
#define VIS __attribute__ ((visibility ("default")))
#define PC (uintptr_t) __builtin_return_address (0)

extern "C" {
VIS void __sanitizer_cov_trace_pc_guard_init (uint32_t *a, uint32_t *b) { for (uint32_t n = 1; a < b; a++) *a = n++; }
VIS void __sanitizer_cov_trace_pc_guard (uint32_t *) { step (PC, 0, 0, false); }
#define CB(n) \
VIS void __sanitizer_cov_load##n (void *p) { step (PC, (uintptr_t) p, n, false); } \
VIS void __sanitizer_cov_store##n (void *p) { step (PC, (uintptr_t) p, n, true); }
CB (1) CB (2) CB (4) CB (8) CB (16)

// one-time initialisation of function-local statics
VIS int __cxa_guard_acquire (uint64_t *g)
{
  unsigned char *b = (unsigned char *) g;
  for (;;)
    {
      if (__atomic_load_n (b, __ATOMIC_ACQUIRE)) return 0;
      if (!b[1]) break;
      if (!managed()) internal_error ("recursive static initialisation");
      blocked ("a static initialisation guard");
    }
  b[1] = 1;
  return 1;
}
VIS void __cxa_guard_release (uint64_t *g) { unsigned char *b = (unsigned char *) g; b[1] = 0; __atomic_store_n (b, 1, __ATOMIC_RELEASE); }
VIS void __cxa_guard_abort (uint64_t *g) { ((unsigned char *) g)[1] = 0; }

VIS int pthread_mutex_lock (pthread_mutex_t *m)
{
  static int (*lock) (pthread_mutex_t *), (*tryl) (pthread_mutex_t *);
  if (!managed()) return real (lock, "pthread_mutex_lock") (m);
  for (;;)
    {
      int r = real (tryl, "pthread_mutex_trylock") (m);
      if (r != EBUSY) return r;
      blocked ("a mutex");
    }
}
VIS int pthread_rwlock_wrlock (pthread_rwlock_t *m)
{
  static int (*lock) (pthread_rwlock_t *), (*tryl) (pthread_rwlock_t *);
  if (!managed()) return real (lock, "pthread_rwlock_wrlock") (m);
  for (;;)
    {
      int r = real (tryl, "pthread_rwlock_trywrlock") (m);
      if (r != EBUSY) return r;
      blocked ("a rwlock");
    }
}
VIS int pthread_rwlock_rdlock (pthread_rwlock_t *m)
{
  static int (*lock) (pthread_rwlock_t *), (*tryl) (pthread_rwlock_t *);
  if (!managed()) return real (lock, "pthread_rwlock_rdlock") (m);
  for (;;)
    {
      int r = real (tryl, "pthread_rwlock_tryrdlock") (m);
      if (r != EBUSY) return r;
      blocked ("a rwlock");
    }
}
VIS int pthread_once (pthread_once_t *o, void (*f) (void))
{
  static int (*once) (pthread_once_t *, void (*) (void));
  if (!managed()) return real (once, "pthread_once") (o, f);
  int *s = (int *) o;
  for (;;)
    {
      if (*s == 2) return 0;
      if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; return 0; }
      blocked ("a once flag");
    }
}
VIS int sched_yield() { if (cur_task >= 0) preempt (3, S_f_preempt); return 0; }
}

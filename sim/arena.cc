// Simulated heap. While a thread is inside the code under test, every memory
// request of the process goes to this allocator, which decides placement,
// contents and failure from the run's seed and verifies every block.
#include "core.h"
#include <sys/mman.h>
#include <errno.h>
#include <unistd.h>
#include <link.h>
#include <dlfcn.h>

extern "C" {
void *__libc_malloc (size_t);
void *__libc_calloc (size_t, size_t);
void *__libc_realloc (void *, size_t);
void *__libc_memalign (size_t, size_t);
void  __libc_free (void *);
}

namespace sim { namespace arena {

__thread Ctx *cur = nullptr;

static unsigned char *base = nullptr;
// three windows: at the start, across a 2 GB boundary, across a 4 GB boundary
static const size_t MB = size_t (1) << 20, WINDOW = 192 * MB, AREA = 4096 * MB + 2 * WINDOW;
static const uintptr_t WANT = 0x200000000000ULL;
static const size_t window_at[3] = { 0, 2048 * MB - 0x6000, 4096 * MB - 0x6000 };
static size_t bump = 0;
static const size_t RED = 64;
static uintptr_t ldso_lo, ldso_hi;

struct Block { unsigned char *p; size_t size, cap; int owner; bool live; int freed_fill; uint64_t serial; };
static Block *blocks = nullptr;
static const size_t MAXB = 1 << 20;
static size_t nblocks = 0, nlive = 0;
static bool reclaim = false;

static int ldso_cb (struct dl_phdr_info *info, size_t, void *)
{
  if (info->dlpi_name && strstr (info->dlpi_name, "ld-linux"))
    {
      ldso_lo = info->dlpi_addr; ldso_hi = ldso_lo;
      for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_LOAD)
          {
            uintptr_t e = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr + info->dlpi_phdr[i].p_memsz;
            if (e > ldso_hi) ldso_hi = e;
          }
    }
  return 0;
}

void init()
{
  void *want = (void *) WANT;
  base = (unsigned char *) mmap (want, AREA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  blocks = (Block *) mmap (nullptr, MAXB * sizeof (Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base != want || blocks == MAP_FAILED)
    { fprintf (stderr, "sim: cannot map arena\n"); _exit (3); }
  dl_iterate_phdr (ldso_cb, nullptr);
}

static inline bool inside (const void *p) { return base && (unsigned char *) p >= base && (unsigned char *) p < base + AREA; }

static void fill_mem (unsigned char *p, size_t n, int mode, uint64_t seed)
{
  switch (mode)
    {
      case FILL_ZERO: memset (p, 0, n); break;
      case FILL_FF:   memset (p, 0xff, n); break;
      case FILL_NAN:
      case FILL_HUGE:
        {
          uint32_t v = mode == FILL_NAN ? 0x7fc00123u : 0x7e967699u;   // NaN / 1e38
          for (size_t i = 0; i < n; i++) p[i] = (unsigned char) (v >> (8 * (((uintptr_t) p + i) & 3)));
          break;
        }
      case FILL_RANDOM:
        { Rng r (seed); for (size_t i = 0; i < n; i++) p[i] = (unsigned char) r.next(); break; }
      default: break;
    }
}

static void check_red (const Block& b)
{
  for (size_t i = 0; i < RED; i++)
    if (b.p[-(ptrdiff_t) i - 1] != 0xcb)
      fail ("heap-overflow", "write %zu bytes before a heap block of %zu bytes", i + 1, b.size);
  for (size_t i = b.size; i < b.cap + RED; i++)
    if (b.p[i] != 0xcb)
      fail ("heap-overflow", "write %zu bytes past the end of a heap block of %zu bytes", i - b.size + 1, b.size);
}
static unsigned char freed_byte (const Block& b, size_t i)
{
  if (b.freed_fill == 1) { uint32_t v = 0x7fc00456u; return (unsigned char) (v >> (8 * (((uintptr_t) b.p + i) & 3))); }
  return 0xdd;
}
static void check_freed (const Block& b)
{
  if (b.freed_fill == 0) return;
  for (size_t i = 0; i < b.size; i++)
    if (b.p[i] != freed_byte (b, i))
      fail ("use-after-free", "write to a released heap block of %zu bytes at offset %zu", b.size, i);
}

static void *alloc (size_t size, size_t align)
{
  Ctx *c = cur;
  uint64_t ord = c->n_allocs++;
  stat (S_alloc_calls);
  hash_u64 (size * 31 + 7);
  bool f = false;
  switch (c->fail_mode)
    {
      case FAIL_MASK: f = ord < 63 && ((c->fail_arg >> ord) & 1); break;
      case FAIL_FROM: f = ord >= c->fail_arg; break;
      case FAIL_PROB: f = (mix2 (c->seed ^ 0x77, ord) & 255) < c->fail_arg; break;
      default: break;
    }
  if (f || size > (size_t (40) << 20))
    {
      c->n_failed++;
      if (f) stat (S_f_alloc_fail); else stat (S_f_size_overflow);
      errno = ENOMEM;
      return nullptr;
    }
  uint64_t r = mix2 (c->seed, nblocks * 1315423911ULL + ord);
  Block *b = nullptr;
  if (align < 16) align = 16;
  if (c->place == 2)
    {
      for (size_t i = nblocks; i-- > 0;)
        if (!blocks[i].live && blocks[i].cap >= size && blocks[i].cap <= size + 256 && ((uintptr_t) blocks[i].p % align) == 0)
          { b = &blocks[i]; break; }
      if (b)
        {
          check_freed (*b);
          stat (S_f_alloc_reuse);
        }
    }
  if (!b)
    {
      size_t pos = (bump + RED + 63) & ~size_t (63);
      if (c->place)
        {
          pos += (r & 3) * 16;
          pos += ((r >> 8) & 15) == 0 ? ((r >> 16) & 255) * 64 : ((r >> 16) & 3) * 64;
          stat (S_f_alloc_misplaced);
        }
      pos = (pos + align - 1) & ~(align - 1);
      size_t cap = (size + 15) & ~size_t (15);
      if (pos + cap + RED > AREA || nblocks >= MAXB)
        { c->n_failed++; errno = ENOMEM; return nullptr; }
      bump = pos + cap + RED;
      b = &blocks[nblocks++];
      b->p = base + pos;
      b->cap = cap;
      b->freed_fill = 0;
      memset (b->p - RED, 0xcb, RED);
    }
  b->size = size;
  b->owner = c->owner;
  b->live = true;
  b->serial = ord;
  nlive++;
  if (c->fill != FILL_STALE)
    fill_mem (b->p, size, c->fill, r);
  if (c->fill != FILL_ZERO)
    stat (S_f_alloc_garbage);
  memset (b->p + size, 0xcb, b->cap - size + RED);
  return b->p;
}

static Block *find (void *p)
{
  for (size_t i = nblocks; i-- > 0;)
    if (blocks[i].p == p && blocks[i].live)
      return &blocks[i];
  return nullptr;
}

static void release (void *p)
{
  Block *b = find (p);
  if (!b)
    fail ("invalid-free", "free() of an address that is not an allocated block (double free?)");
  check_red (*b);
  b->live = false;
  nlive--;
  int mode = cur && cur->fill == FILL_STALE ? 0 : (cur && cur->fill == FILL_NAN ? 1 : 2);
  b->freed_fill = mode;
  if (mode)
    for (size_t i = 0; i < b->size; i++)
      b->p[i] = freed_byte (*b, i);
  hash_u64 (b->size * 33 + 5);
  if (reclaim)                    // long series of short-lived objects: hand the end of the arena back
    while (nblocks && !blocks[nblocks - 1].live)
      {
        check_freed (blocks[--nblocks]);
        bump = nblocks ? size_t (blocks[nblocks - 1].p - base) + blocks[nblocks - 1].cap + RED : 0;
      }
}
void jump (int window)
{
  size_t at = window_at[window % 3];
  if (bump < at) { bump = at; stat (S_f_far_heap); }
}
void set_reclaim (bool on) { reclaim = on; }

void check()
{
  for (size_t i = 0; i < nblocks; i++)
    if (blocks[i].live) check_red (blocks[i]); else check_freed (blocks[i]);
}
size_t live_count() { return nlive; }
size_t live_owned (int owner)
{
  size_t n = 0;
  for (size_t i = 0; i < nblocks; i++)
    n += blocks[i].live && blocks[i].owner == owner;
  return n;
}
void set_owner (int from, int to)
{
  for (size_t i = 0; i < nblocks; i++)
    if (blocks[i].live && blocks[i].owner == from)
      blocks[i].owner = to;
}
std::string live_desc (int owner)
{
  std::string s;
  for (size_t i = 0; i < nblocks && s.size() < 200; i++)
    if (blocks[i].live && blocks[i].owner == owner)
      s += " " + std::to_string (blocks[i].size);
  return s;
}
bool block_of (const void *p, const unsigned char **start, size_t *size)
{
  for (size_t i = nblocks; i-- > 0;)
    if (blocks[i].live && (const unsigned char *) p >= blocks[i].p && (const unsigned char *) p <= blocks[i].p + blocks[i].size)
      { *start = blocks[i].p; *size = blocks[i].size; return true; }
  return false;
}
int classify (const void *p, size_t n)
{
  if (!inside (p)) return 0;
  static size_t hint = 0;
  const unsigned char *a = (const unsigned char *) p;
  if (hint < nblocks && blocks[hint].live && a >= blocks[hint].p && a + n <= blocks[hint].p + blocks[hint].size)
    return 1;
  for (size_t i = nblocks; i-- > 0;)
    if (blocks[i].live && a >= blocks[i].p && a + n <= blocks[i].p + blocks[i].size)
      { hint = i; return 1; }
  return 2;
}
} // arena

using arena::cur;

static inline bool from_ldso (void *ra)
{
  return (uintptr_t) ra >= arena::ldso_lo && (uintptr_t) ra < arena::ldso_hi;
}
} // sim

using namespace sim;
#define RA __builtin_return_address (0)
#define VIS __attribute__ ((visibility ("default")))

extern "C" {
VIS void *malloc (size_t n)
{
  if (cur && !from_ldso (RA)) return arena::alloc (n, 16);
  return __libc_malloc (n);
}
VIS void *calloc (size_t a, size_t b)
{
  if (cur && !from_ldso (RA))
    {
      size_t n;
      if (__builtin_mul_overflow (a, b, &n)) { errno = ENOMEM; return nullptr; }
      void *p = arena::alloc (n, 16);
      if (p) memset (p, 0, n);
      return p;
    }
  return __libc_calloc (a, b);
}
VIS void free (void *p)
{
  if (!p) return;
  if (arena::inside (p)) arena::release (p);
  else __libc_free (p);
}
VIS void *realloc (void *p, size_t n)
{
  if (!p) return cur && !from_ldso (RA) ? arena::alloc (n, 16) : __libc_malloc (n);
  if (!arena::inside (p))
    return __libc_realloc (p, n);
  arena::Block *b = arena::find (p);
  if (!b) fail ("invalid-free", "realloc() of an address that is not an allocated block");
  if (!cur) internal_error ("realloc of arena block outside a call");
  void *q = arena::alloc (n, 16);
  if (q) { memcpy (q, p, n < b->size ? n : b->size); arena::release (p); }
  return q;
}
VIS void *memalign (size_t a, size_t n)
{
  if (cur && !from_ldso (RA)) return arena::alloc (n, a);
  return __libc_memalign (a, n);
}
VIS void *aligned_alloc (size_t a, size_t n)
{
  if (cur && !from_ldso (RA)) return arena::alloc (n, a);
  return __libc_memalign (a, n);
}
VIS int posix_memalign (void **out, size_t a, size_t n)
{
  void *p = cur && !from_ldso (RA) ? arena::alloc (n, a) : __libc_memalign (a, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
VIS void *valloc (size_t n) { return cur ? arena::alloc (n, 4096) : __libc_memalign (4096, n); }
VIS size_t malloc_usable_size (void *p)
{
  if (arena::inside (p)) { arena::Block *b = arena::find (p); return b ? b->size : 0; }
  return p ? ((size_t *) p)[-1] & ~size_t (7) : 0;
}

// ---- C library randomness ----
VIS int rand()
{
  if (!cur) { static uint64_t s = 1; return int ((s = mix64 (s)) & 0x7fffffff); }
  sim_rand_calls++;
  sim_rand_state += 0x9e3779b97f4a7c15ULL;
  return int (mix64 (sim_rand_state) & 0x7fffffff);
}
VIS void srand (unsigned s) { sim_rand_calls++; sim_rand_state = s; }
VIS long random() { return rand(); }
VIS void srandom (unsigned s) { srand (s); }
VIS double drand48() { return rand() / 2147483648.0; }
VIS long lrand48() { return rand(); }
VIS void srand48 (long s) { srand (unsigned (s)); }
VIS int rand_r (unsigned *s) { *s = *s * 1103515245u + 12345u; return int (*s & 0x7fffffff); }
}
namespace sim { uint64_t sim_rand_state = 1, sim_rand_calls = 0; }

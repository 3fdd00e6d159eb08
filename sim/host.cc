// What the C library tells about the host: clocks, environment variables,
// identities. The library under test has no business asking, and if it asks,
// gets an answer that the trace decides (0: a calm host).
#include "core.h"
#include <errno.h>
#include <sched.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {
uint64_t host_seed = 0, host_reads = 0;
int64_t host_time = 0;

// nanoseconds; moves on (or jumps) with every look at the clock
static int64_t sim_now (bool wall)
{
  int64_t& t = host_time;
  const uint64_t n = host_reads++;
  if (!host_seed) return 1000000000000000000 + int64_t (n) * 1000;
  const uint64_t h = mix2 (host_seed, n);
  switch (h % 8)
    {
      case 0: break;                                       // stands still
      case 1: t += 1000000000LL * int64_t ((h >> 8) % 100); break;  // the process was stopped
      case 2: t += 20000000; break;
      case 3: if (wall) t -= 3600000000000LL; break;                // somebody set the clock
      default: t += int64_t ((h >> 8) % 100000); break;
    }
  return int64_t (mix64 (host_seed) % 2000000000u) * 1000000000 + t;
}
}
using namespace sim;
#define VIS __attribute__ ((visibility ("default")))
static bool asked() { return arena::cur != nullptr; }

extern "C" {
VIS int clock_gettime (clockid_t id, timespec *ts)
{
  if (!asked()) return int (syscall (SYS_clock_gettime, id, ts));
  int64_t t = sim_now (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI);
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
VIS int gettimeofday (timeval *tv, void *) noexcept
{
  timespec ts;
  clock_gettime (CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
VIS time_t time (time_t *out) noexcept
{
  timespec ts;
  clock_gettime (CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
VIS clock_t clock() noexcept
{
  timespec ts;
  clock_gettime (CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
VIS int timespec_get (timespec *ts, int base) noexcept
{
  clock_gettime (CLOCK_REALTIME, ts);
  return base;
}
VIS char *getenv (const char *name) noexcept
{
  if (asked())
    {
      host_reads++;
      if (!host_seed) return nullptr;
      uint64_t h = host_seed;
      for (const char *p = name; *p; p++) h = mix2 (h, uint64_t (*p));
      static char val[6][8] = { "", "0", "1", "yes", "x", "9" };
      return h % 4 ? val[(h >> 8) % 6] : nullptr;
    }
  const size_t n = strlen (name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp (*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
VIS char *secure_getenv (const char *name) noexcept { return getenv (name); }
VIS pid_t getpid() noexcept { return asked() ? pid_t (1000 + mix2 (host_seed, 1) % 30000) : pid_t (syscall (SYS_getpid)); }
VIS pid_t gettid() noexcept { return asked() ? pid_t (1000 + mix2 (host_seed, 2) % 30000) : pid_t (syscall (SYS_gettid)); }
VIS int sched_getcpu() noexcept
{
  if (asked()) return int (mix2 (host_seed, host_reads++) % 64);
  unsigned cpu = 0;
  syscall (SYS_getcpu, &cpu, nullptr, nullptr);
  return int (cpu);
}
}

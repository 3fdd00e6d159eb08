// Command line: work (search over seeds), replay, min (minimise), gen.
#include "world.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <math.h>
#include <time.h>
#include <algorithm>
#include <set>
#include <fstream>
#include <sstream>
#include <functional>
#include <chrono>

namespace sim {
Result *res;
const size_t *cur_world_op; const Trace *cur_trace;
static bool in_child = false;
static int saved_err = 2;
static std::string libdir;

static const char *where()
{
  static char b[96];
  if (cur_world_op && cur_trace && *cur_world_op < cur_trace->ops.size())
    snprintf (b, sizeof b, " [op #%zu %s]", *cur_world_op, op_names[cur_trace->ops[*cur_world_op].kind]);
  else
    snprintf (b, sizeof b, " [end of run]");
  return b;
}
void fail (const char *oracle, const char *fmt, ...)
{
  arena::cur = nullptr;
  asm volatile ("ldmxcsr %0" : : "m" (*(const unsigned *) "\x80\x1f\0\0"));
  if (res->status == 0)
    {
      va_list ap; va_start (ap, fmt);
      vsnprintf (res->msg, sizeof res->msg - 100, fmt, ap);
      va_end (ap);
      strncat (res->msg, where(), 99);
      snprintf (res->oracle, sizeof res->oracle, "%s", oracle);
      res->status = 2;
    }
  _exit (99);
}
void internal_error (const char *fmt, ...)
{
  arena::cur = nullptr;
  va_list ap; va_start (ap, fmt);
  if (res && res->status == 0)
    {
      vsnprintf (res->msg, sizeof res->msg - 100, fmt, ap);
      strncat (res->msg, where(), 99);
      res->status = 3;
    }
  else vfprintf (stderr, fmt, ap);
  va_end (ap);
  _exit (98);
}

static void on_crash (int sig)
{
  bool lib = arena::cur || sched::in_call;
  const char *n = sig == SIGSEGV ? "segmentation fault" : sig == SIGBUS ? "bus error" : sig == SIGFPE ? "arithmetic trap" : sig == SIGILL ? "illegal instruction" : sig == SIGABRT ? "abort (failed assertion or terminate)" : "signal";
  if (sig == SIGPROF)
    { if (lib) fail ("hang", "a call into the library did not return"); internal_error ("simulator ran out of CPU time"); }
  if (!lib) internal_error ("%s outside the library", n);
  fail ("crash", "%s inside a library call", n);
}

static uint64_t glob_lo, glob_hi, glob_base;
static const char *want_path;
static int seg_cb (struct dl_phdr_info *info, size_t, void *)
{
  if (info->dlpi_name && !strcmp (info->dlpi_name, want_path))
    {
      glob_base = info->dlpi_addr;
      uintptr_t relro_lo = 0, relro_hi = 0;
      for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO)
          { relro_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; relro_hi = relro_lo + info->dlpi_phdr[i].p_memsz; }
      for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_W))
          {
            glob_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            glob_hi = glob_lo + info->dlpi_phdr[i].p_memsz;
            if (relro_hi > glob_lo && relro_lo <= glob_lo) glob_lo = relro_hi;
          }
    }
  return 0;
}
static const VApi *open_lib (const std::string& path, Variant *v)
{
  void *h = dlopen (path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf (stderr, "sim: %s\n", dlerror()); return nullptr; }
  auto f = (const VApi *(*) ()) dlsym (h, "panda_variant_api");
  if (!f) return nullptr;
  if (v)
    {
      want_path = path.c_str(); glob_lo = glob_hi = 0;
      dl_iterate_phdr (seg_cb, nullptr);
      v->base = glob_base; v->glob_lo = glob_lo; v->glob_hi = glob_hi;
    }
  return f();
}

void open_fresh (Variant *v)
{
  v->ref = open_lib (libdir + "/" + v->name + ".solo.so", nullptr);
  if (!v->ref) _exit (3);
}

// first use of everything that may legitimately be initialised once per process
static void warm (const VApi *api)
{
  alignas (64) static char a[256], b[256];
  static float in[2048], out[16384];
  for (int mode = 0; mode < 2; mode++)
    for (int ratio : { 1, 2, 4, 8 })
      for (int prec : { 1, 8, 12, 16, 20, 24 })
        for (int sse = 0; sse < 2; sse++)
          for (int filter = 0; filter < 2; filter++)
            {
              Cfg c; c.mode = mode; c.ratio = ratio; c.prec = prec; c.sse = sse; c.filter = filter;
              if (!c.supported()) continue;
              if (api->construct (a, mode, ratio, prec, sse, filter) != RC_OK) continue;
              unsigned o; double d; int s;
              if (ratio > 1) { api->order (a, &o); api->sse_enabled (a, &s); }
              api->delay (a, &d);
              api->process (a, in, 64, out);
              api->reset (a);
              api->move_construct (b, a);
              api->destroy (a);
              api->destroy (b);
            }
  int ok;
  api->self_test (0, &ok);
}

static std::map<std::string, Variant *> variants;
static Variant *load (const std::string& name, bool cold)
{
  Variant *&v = variants[name];
  if (!v)
    {
      v = new Variant;
      v->name = name;
      v->path = libdir + "/" + name + ".so";
      v->ref = open_lib (libdir + "/" + name + ".ref.so", nullptr);
      if (!v->ref) { fprintf (stderr, "sim: cannot load build %s\n", name.c_str()); _exit (3); }
    }
  if (!cold && !v->api)
    {
      v->api = open_lib (v->path, v);
      if (!v->api) _exit (3);
    }
  return v;
}
// warming up executes library code, which may crash in a broken tree: try it in a child first
static void warm_guarded (Variant *v, bool cold)
{
  static std::set<std::string> done;
  std::string key = v->name + (cold ? "c" : "w");
  if (!done.insert (key).second) return;
  for (int k = 0; k < 2; k++)
    {
      const VApi *api = k ? v->ref : v->api;
      if (!api || (cold && !k)) continue;
      pid_t pid = fork();
      if (pid == 0)
        {
          signal (SIGPROF, SIG_DFL);
          itimerval it = { { 0, 0 }, { 20, 0 } };
          setitimer (ITIMER_PROF, &it, nullptr);
          int n = open ("/dev/null", 1); dup2 (n, 1); dup2 (n, 2);
          warm (api); _exit (0);
        }
      int st;
      while (waitpid (pid, &st, 0) < 0) {}
      if (WIFEXITED (st) && WEXITSTATUS (st) == 0)
        warm (api);
    }
}

static void prepare (const Trace& t, std::vector<Variant *>& vs)
{
  vs.clear();
  for (auto& n : t.variants) vs.push_back (load (n, t.cold));
  for (auto v : vs) warm_guarded (v, t.cold);
  for (auto& op : t.ops)
    if (op.kind == K_NEW && op.task < 0)
      {
        Cfg c = Cfg::unpack (op.a[1]);
        if (c.ratio > 1) model::ensure (*vs[uint64_t (op.a[2]) % vs.size()], c);
      }
}

static void run_child (const Trace& t, std::vector<Variant *>& vs)
{
  in_child = true;
  stdout_fd = memfd_create ("out", 0); stderr_fd = memfd_create ("err", 0);
  dup2 (stdout_fd, 1); dup2 (stderr_fd, 2);
  static char ob[1 << 16], eb[1 << 12];
  setvbuf (stdout, ob, _IOFBF, sizeof ob); setvbuf (stderr, eb, _IOFBF, sizeof eb);
  if (t.prop == "C19") setvbuf (stderr, nullptr, _IONBF, 0);      // as it is in real programs
  static char alt[1 << 16];
  stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack (&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF }) sigaction (s, &sa, nullptr);
  itimerval it = { { 0, 0 }, { 30, 0 } };
  setitimer (ITIMER_PROF, &it, nullptr);
  for (auto v : vs)
    if (!v->api)
      { v->api = open_lib (v->path, v); if (!v->api) internal_error ("dlopen"); }
  sched::set_globals (vs[0]->base, vs[0]->glob_lo, vs[0]->glob_hi);
  sched::check_access = false;
  for (auto v : vs) if (v->name == "cov") sched::check_access = true;
  run_world (t, vs);
  if (res->status == 0) res->status = 1;
  _exit (0);
}

// low-rate samples of fast forwarded streams
static double weight (const Trace& t)
{
  double w = 0;
  for (auto& o : t.ops) {
    if (o.kind == K_FF) w += double (o.a[1]);
    if (o.kind == K_VAST) w += 8 * double (o.a[1]);
  }
  return w;
}

static void run_forked (const Trace& t, double wall_limit = 100)
{
  if (wall_limit >= 100 && weight (t) > 1e9) wall_limit = 150;
  std::vector<Variant *> vs;
  prepare (t, vs);
  memset ((void *) res, 0, offsetof (Result, features));
  res->nfeat = 0;
  fflush (stdout); fflush (stderr);
  pid_t pid = fork();
  if (pid < 0) { perror ("fork"); _exit (3); }
  if (pid == 0)
    run_child (t, vs);
  int st = 0;
  auto t0 = std::chrono::steady_clock::now();
  int spins = 0;
  for (;;)
    {
      pid_t w = waitpid (pid, &st, spins < 0 ? 0 : WNOHANG);
      if (w == pid) break;
      if (std::chrono::duration<double> (std::chrono::steady_clock::now() - t0).count() > wall_limit)
        {
          kill (pid, SIGKILL);
          waitpid (pid, &st, 0);
          if (res->status == 0) { res->status = 3; snprintf (res->msg, sizeof res->msg, "run exceeded %g s of wall time", wall_limit); }
          break;
        }
      if (spins++ > 50) usleep (spins < 200 ? 100 : 1000); else sched_yield();
    }
  if (res->status == 0 || (res->status == 1 && !(WIFEXITED (st) && WEXITSTATUS (st) == 0)))
    {
      if (WIFSIGNALED (st) && WTERMSIG (st) != SIGKILL)
        { res->status = 2; strcpy (res->oracle, "crash"); snprintf (res->msg, sizeof res->msg, "the run died from signal %d", WTERMSIG (st)); }
      else if (WIFEXITED (st))
        { res->status = 2; strcpy (res->oracle, "exit"); snprintf (res->msg, sizeof res->msg, "the library ended the process (exit status %d)", WEXITSTATUS (st)); }
      else
        { res->status = 3; snprintf (res->msg, sizeof res->msg, "run was killed"); }
    }
}

static double now() { return std::chrono::duration<double> (std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::string jesc (const char *s)
{
  std::string o;
  for (; *s; s++)
    if (*s == '"' || *s == '\\') { o += '\\'; o += *s; }
    else if ((unsigned char) *s < 32) o += ' ';
    else o += *s;
  return o;
}
static std::string slurp (const std::string& f) { std::ifstream i (f); std::stringstream s; s << i.rdbuf(); return s.str(); }

// ---------------------------------------------------------------- minimise
static Trace minimise (const Trace& t0, const std::string& oracle, double budget, int *tries)
{
  double end = now() + budget;
  *tries = 0;
  auto bad = [&] (const Trace& t)
    {
      if (now() > end) return false;
      ++*tries;
      run_forked (t, 20);
      return res->status == 2 && oracle == res->oracle;
    };
  Trace best = t0;
  bool progress = true;
  while (progress && now() < end)
    {
      progress = false;
      // drop operations, large chunks first
      for (size_t chunk = std::max<size_t> (1, best.ops.size() / 2); chunk >= 1; chunk /= 2)
        {
          for (size_t at = best.ops.size(); at > 0;)
            {
              size_t lo = at > chunk ? at - chunk : 0;
              Trace c = best;
              c.ops.erase (c.ops.begin() + lo, c.ops.begin() + at);
              if (bad (c)) { best = c; progress = true; }
              at = lo;
              if (at > best.ops.size()) at = best.ops.size();
              if (now() > end) return best;
            }
          if (chunk == 1) break;
        }
      // shrink arguments
      for (size_t k = 0; k < best.ops.size(); k++)
        {
          int kind = best.ops[k].kind;
          auto try_arg = [&] (int a, int64_t v)
            {
              if (best.ops[k].a[a] == v) return false;
              Trace c = best;
              c.ops[k].a[a] = v;
              if (!bad (c)) return false;
              best = c; progress = true;
              return true;
            };
          auto shrink = [&] (int a, int64_t lo)
            {
              int64_t v = best.ops[k].a[a];
              if (v <= lo) return;
              if (try_arg (a, lo)) return;
              int64_t good = v, low = lo;
              while (good - low > 1 && now() < end)
                {
                  int64_t mid = low + (good - low) / 2;
                  if (try_arg (a, mid)) good = mid; else low = mid;
                }
            };
          switch (kind)
            {
              case K_PROC: shrink (1, 0); try_arg (6, 0); try_arg (2, 2); if (best.ops[k].a[2] % 3 == 2) try_arg (3, 0); try_arg (4, 2); if (best.ops[k].a[4] % 3 == 2) try_arg (5, 0); break;
              case K_MISUSE: shrink (2, 0); try_arg (6, 0); break;
              case K_CUT: shrink (1, 1); shrink (2, 0); break;
              case K_SLICE: shrink (1, 1); break;
              case K_FF: shrink (1, 0); break;
              case K_VAST: shrink (1, 0); break;
              case K_BIG: shrink (1, 0); try_arg (2, 2); try_arg (4, 2); break;
              case K_MANY: shrink (2, 1); shrink (3, 0); break;
              case K_CHAIN: shrink (2, 0); break;
              case K_GLITCH: shrink (1, 1); shrink (4, 0); break;
              case K_AANEW: shrink (2, 0); break;
              case K_RESET: try_arg (1, 1); break;
              case K_MEM: try_arg (1, 0); break;
              default: break;
            }
          if (now() > end) return best;
        }
    }
  return best;
}

static int cmd_work (std::map<std::string, std::string>& o)
{
  const std::string prop = o["prop"], out = o["out"];
  uint64_t base = strtoull (o["seed"].c_str(), 0, 10);
  int64_t start = atoll (o["start"].c_str()), stride = atoll (o["stride"].c_str()), count = atoll (o["count"].c_str());
  double wall = atof (o["wall"].c_str());
  int tier = atoi (o["tier"].c_str());
  std::vector<std::string> known;
  { std::istringstream k (o["known"]); std::string s; while (std::getline (k, s, '|')) if (!s.empty()) known.push_back (s); }
  double t0 = now();
  uint64_t tot[S_COUNT] = {};
  uint64_t runs = 0, rechecked = 0, mismatch = 0, newfeat_runs = 0, internal = 0, skipped = 0;
  double max_ratio = 0; std::string max_where, fails, first_internal;
  std::map<std::string, int> known_hits;
  std::set<uint64_t> ileaves, traces;
  int nfails = 0;
  for (int64_t k = start; k < count && now() - t0 < wall; k += stride)
    {
      uint64_t seed = mix2 (base, uint64_t (k)) >> 8;
      Trace t = generate (prop, seed, tier, count - 1 - k);
      const bool lengthy = weight (t) > 1e9;
      run_forked (t);
      runs++;
      if (res->nfeat) newfeat_runs++;
      for (int s = 0; s < S_COUNT; s++) tot[s] += res->stats[s];
      if (res->max_ratio > max_ratio) { max_ratio = res->max_ratio; max_where = std::string (res->max_where) + " seed " + std::to_string (seed); }
      if (res->ileave) ileaves.insert (res->ileave);
      traces.insert (std::hash<std::string>() (t.text()));
      if (res->status == 3 && lengthy)
        skipped++;                       // a slow machine: there is no time for such a run
      else if (res->status == 3)
        { internal++; if (first_internal.empty()) first_internal = std::string (res->msg) + " seed " + std::to_string (seed); }
      else if (res->status == 2)
        {
          std::string sig = std::string (res->oracle) + ": " + res->msg;
          bool isk = false;
          for (auto& s : known) if (sig.find (s) != std::string::npos) { known_hits[s]++; isk = true; break; }
          if (!isk)
            {
              std::string f = out + ".fail" + std::to_string (nfails);
              std::ofstream (f) << t.text();
              fails += (nfails ? "," : "") + std::string ("{\"seed\":\"") + std::to_string (seed) + "\",\"oracle\":\"" + res->oracle + "\",\"msg\":\"" + jesc (res->msg) + "\",\"trace\":\"" + f + "\"}";
              if (++nfails >= 1) break;
            }
        }
      else if (!lengthy && rechecked <= runs / 40)
        {
          uint64_t h = res->hash, i = res->ileave;
          run_forked (t);
          rechecked++;
          if (res->status != 1 || res->hash != h || res->ileave != i)
            { mismatch++; if (first_internal.empty()) first_internal = "run not repeatable, seed " + std::to_string (seed); }
        }
    }
  std::ofstream f (out);
  f << "{\"runs\":" << runs << ",\"wall\":" << now() - t0 << ",\"rechecked\":" << rechecked << ",\"mismatch\":" << mismatch << ",\"skipped\":" << skipped << ",\"internal\":" << internal
    << ",\"first_internal\":\"" << jesc (first_internal.c_str()) << "\",\"newfeat_runs\":" << newfeat_runs << ",\"max_ratio\":" << (max_ratio < 1e300 ? max_ratio : 1e300) << ",\"max_where\":\"" << jesc (max_where.c_str()) << "\",\"fails\":[" << fails << "],\"known\":{";
  bool first = true;
  for (auto& k : known_hits) { f << (first ? "" : ",") << "\"" << jesc (k.first.c_str()) << "\":" << k.second; first = false; }
  f << "},\"stats\":{";
  for (int s = 0; s < S_COUNT; s++) f << (s ? "," : "") << "\"" << stat_names[s] << "\":" << tot[s];
  f << "},\"traces\":" << traces.size() << ",\"ileaves\":[";
  first = true;
  for (auto v : ileaves) { f << (first ? "" : ",") << "\"" << v << "\""; first = false; }
  f << "]}\n";
  f.close();
  std::ofstream fb (out + ".feat", std::ios::binary);
  fb.write ((const char *) res->features, sizeof res->features);
  return 0;
}
} // sim

using namespace sim;
int main (int argc, char **argv)
{
  setvbuf (stderr, nullptr, _IONBF, 0);
  if (argc > 1 && !getenv ("SIM_NOASLR"))
    {
      // identical addresses in every process where the kernel allows it; nothing depends on it
      setenv ("SIM_NOASLR", "1", 1);
      int p = personality (0xffffffff);
      if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality (p | ADDR_NO_RANDOMIZE) != -1)
        execv ("/proc/self/exe", argv);
    }
  res = (Result *) mmap (nullptr, sizeof (Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  arena::init();
  model::init();
  world_init();
  std::string cmd = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> o;
  for (int i = 2; i + 1 < argc; i += 2)
    o[argv[i] + 2] = argv[i + 1];
  libdir = o["lib"];
  if (cmd == "work") return cmd_work (o);
  if (cmd == "gen")
    {
      printf ("%s", generate (o["prop"], strtoull (o["seed"].c_str(), 0, 10), atoi (o["tier"].c_str())).text().c_str());
      return 0;
    }
  if (cmd == "replay" || cmd == "min")
    {
      Trace t; std::string err;
      if (!Trace::parse (slurp (o["trace"]), t, err)) { fprintf (stderr, "sim: %s\n", err.c_str()); return 3; }
      run_forked (t);
      if (cmd == "min" && res->status == 2)
        {
          std::string oracle = res->oracle;
          int tries = 0;
          Trace m = minimise (t, oracle, atof (o["budget"].c_str()), &tries);
          run_forked (m);
          if (res->status != 2) { m = t; run_forked (m); }
          std::ofstream f (o["out"]);
          f << "# " << res->oracle << ": " << res->msg << "\n# minimised from " << t.ops.size() << " to " << m.ops.size() << " operations in " << tries << " runs\n" << m.text();
        }
      if (res->status == 2) { printf ("\nFAILED %s: %s\n", res->oracle, res->msg); return 1; }
      if (res->status == 1) { printf ("\nHELD hash %016llx max_ratio %.3f (%s)\n", (unsigned long long) res->hash, res->max_ratio, res->max_where); return 0; }
      printf ("\nERROR %s\n", res->msg);
      return 3;
    }
  fprintf (stderr, "usage: sim work|replay|min|gen ...\n");
  return 3;
}

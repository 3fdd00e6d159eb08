// A trace is everything one simulated run depends on: parameters and a list of
// operations (including faults). It is plain text and can be edited freely.
#pragma once
#include "core.h"

namespace sim {

#define SIM_OPS(X) \
  X(NEW,    "new",    "i cfg var grp start") \
  X(DEL,    "del",    "i") \
  X(PROC,   "proc",   "i n pin ain pout aout thr") \
  X(RESET,  "reset",  "i times") \
  X(SIG,    "sig",    "i kind seed amp p1 p2") \
  X(GLITCH, "glitch", "i len kind seed at") \
  X(MOVE,   "move",   "i how j") \
  X(SWAP,   "swap",   "i j") \
  X(GROW,   "grow",   "i extra how") \
  X(QUERY,  "query",  "i what") \
  X(OOM,    "oom",    "mode arg seed") \
  X(OOMRUN, "oomrun", "on") \
  X(MEM,    "mem",    "fill place seed") \
  X(FPENV,  "fpenv",  "rc ftz daz x87") \
  X(POISON, "poison", "pattern") \
  X(HOST,   "host",   "seed") \
  X(SELF,   "selftest","verbose rnd sink") \
  X(FF,     "ff",     "i n") \
  X(BIG,    "big",    "i n pin ain pout aout") \
  X(VAST,   "vast",   "i n ain aout") \
  X(MANY,   "many",   "i what count n cfg seed") \
  X(CUT,    "cut",    "i n steps") \
  X(MISUSE, "misuse", "i what arg ratio prec bits sink") \
  X(CHAIN,  "chain",  "i j n") \
  X(AANEW,  "aanew",  "j kind n how seed") \
  X(AADEL,  "aadel",  "j") \
  X(AAUSE,  "aause",  "j seed") \
  X(AACOPY, "aacopy", "j k") \
  X(AATHROW,"aathrow","at") \
  X(SLICE,  "slice",  "task steps") \
  X(PAR,    "par",    "quantum seed gsw shared") \
  X(JOIN,   "join",   "")

enum Kind {
#define X(a, b, c) K_##a,
  SIM_OPS (X)
#undef X
  K_COUNT
};
extern const char *op_names[K_COUNT];
extern const char *op_args[K_COUNT];

struct Op
{
  int     kind = 0;
  int     task = -1;                 // >= 0: belongs to that simulated thread
  int64_t a[7] = { 0, 0, 0, 0, 0, 0, 0 };
};

struct Trace
{
  std::string prop;
  uint64_t    seed = 0;
  int64_t     floor = 0;             // smallest signal amplitude, quarter octaves
  int         cold = 0;              // tested variant is loaded freshly in the run
  std::vector<std::string> variants; // tested builds by name
  std::vector<Op> ops;
  std::string text() const;
  static bool parse (const std::string& s, Trace& t, std::string& err);
};

Trace generate (const std::string& prop, uint64_t seed, int tier, int64_t k = -1);     // k: number of runs that follow, -1 if unknown

}

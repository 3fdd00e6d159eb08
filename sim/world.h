#pragma once
#include "trace.h"
#include "model.h"
namespace sim {
enum Oracle {
  O_IO = 1, O_TWIN = 2, O_ONECALL = 4, O_BITS = 8, O_GROUP = 16, O_MODEL = 32, O_BOUND = 64, O_SILENCE = 128,
  O_LEAK = 256, O_ENV = 512, O_TONE = 1024, O_DELAY = 2048, O_QUERY = 4096, O_FRESH = 8192, O_NAN = 16384, O_SELF = 32768,
  O_AA = 65536, O_R1 = 131072, O_OUTPUT = 262144, O_MISUSE = 524288
};
extern const size_t *cur_world_op; extern const Trace *cur_trace;        // for reports
unsigned oracles_for (const std::string& prop);
void run_world (const Trace& t, std::vector<Variant *>& variants);       // in the child; returns when the run held
void world_init();                                                       // fixed mappings (parent)
void open_fresh (Variant *v);                                             // v->ref becomes a copy of the build no code of which has run yet
extern int stdout_fd, stderr_fd;                                         // memfds standing in for 1 and 2
}

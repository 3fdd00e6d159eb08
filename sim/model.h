#pragma once
#include "core.h"
namespace sim { namespace model {
void init();
const IR& ensure (Variant& v, const Cfg& cfg);     // measures when not cached yet (in a forked child)
const IR *cached (const std::string& variant, const Cfg& cfg);

// expected output and error bound of one stream, fed input sample by input sample
struct Acc
{
  const IR *ir = nullptr;
  double cut_level = 0;
  std::vector<double> ref, tol;        // indexed by output sample - base
  uint64_t base = 0;                   // output index of ref[0]
  void start (const IR *ir, double floor_level, uint64_t out_base);
  void feed (uint64_t in_pos, const float *x, size_t n);     // in_pos relative to out_base alignment (input index)
};
}}

#include "trace.h"
#include <sstream>
namespace sim {
const char *op_names[K_COUNT] = {
#define X(a, b, c) b,
  SIM_OPS (X)
#undef X
};
const char *op_args[K_COUNT] = {
#define X(a, b, c) c,
  SIM_OPS (X)
#undef X
};
const char *stat_names[S_COUNT] = {
#define X(n) #n,
  SIM_STATS (X)
#undef X
};

std::string Cfg::str() const
{
  char b[64];
  snprintf (b, sizeof b, "%s x%d prec%d %s %s", mode ? "DOWN" : "UP", ratio, prec, sse ? "sse" : "fpu", filter ? "IIR" : "FIR");
  return b;
}

std::string Trace::text() const
{
  std::ostringstream o;
  o << "trace 1\nprop " << prop << "\nseed " << seed << "\nfloor " << floor << "\ncold " << cold << "\n";
  for (auto& v : variants)
    o << "variant " << v << "\n";
  for (auto& op : ops)
    {
      o << (op.task >= 0 ? "t" + std::to_string (op.task) : std::string ("-")) << " " << op_names[op.kind];
      std::istringstream names (op_args[op.kind]);
      std::string n;
      for (int k = 0; names >> n; k++)
        o << " " << n << "=" << op.a[k];
      if (op.kind == K_NEW)
        o << "   # " << Cfg::unpack (op.a[1]).str();
      o << "\n";
    }
  return o.str();
}

bool Trace::parse (const std::string& s, Trace& t, std::string& err)
{
  t = Trace();
  std::istringstream in (s);
  std::string line;
  while (std::getline (in, line))
    {
      size_t h = line.find ('#');
      if (h != std::string::npos) line.resize (h);
      std::istringstream l (line);
      std::string w, v;
      if (!(l >> w)) continue;
      if (w == "trace") continue;
      if (w == "prop") { l >> t.prop; continue; }
      if (w == "seed") { l >> t.seed; continue; }
      if (w == "floor") { l >> t.floor; continue; }
      if (w == "cold") { l >> t.cold; continue; }
      if (w == "variant") { l >> v; t.variants.push_back (v); continue; }
      Op op;
      if (w == "-") op.task = -1;
      else if (w[0] == 't') op.task = atoi (w.c_str() + 1);
      else { err = "bad line: " + line; return false; }
      std::string name;
      l >> name;
      int k = 0;
      while (k < K_COUNT && name != op_names[k]) k++;
      if (k == K_COUNT) { err = "unknown op: " + name; return false; }
      op.kind = k;
      std::istringstream names (op_args[k]);
      std::string n, tok;
      std::vector<std::string> an;
      while (names >> n) an.push_back (n);
      while (l >> tok)
        {
          size_t e = tok.find ('=');
          if (e == std::string::npos) { err = "bad argument: " + tok; return false; }
          std::string an1 = tok.substr (0, e);
          for (size_t q = 0; q < an.size(); q++)
            if (an[q] == an1) op.a[q] = atoll (tok.c_str() + e + 1);
        }
      t.ops.push_back (op);
    }
  if (t.prop.empty() || t.variants.empty()) { err = "incomplete trace"; return false; }
  return true;
}
}

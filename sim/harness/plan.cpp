#include "plan.hpp"
#include <algorithm>
std::string g_known;
void Plan::sort_ops() { std::stable_sort(ops.begin(), ops.end(), [](const Op & a, const Op & b) { return a.t < b.t; }); }
std::string Plan::text() const
{
  std::ostringstream o;
  o << "prop " << prop << "\nkind " << kind << "\nseed " << seed << "\n";
  for (auto & c : cfg) o << "cfg " << c.first << "=" << c.second << "\n";
  for (auto & c : par) o << "par " << c.first << "=" << c.second << "\n";
  for (auto & x : ops)
  {
    o << "op " << x.t << " " << x.kind;
    for (auto & a : x.a) o << " " << a.first << "=" << a.second;
    o << "\n";
  }
  o << "sched " << sched.kind << " seed=" << sched.seed << " p_sync=" << fnum(sched.p_sync) << " p_mem=" << fnum(sched.p_mem)
    << " depth=" << sched.depth << " horizon=" << sched.horizon;
  if (sched.p_stall > 0) o << " p_stall=" << fnum(sched.p_stall) << " stall_ms=" << sched.stall_ms;
  o << "\n";
  for (auto & d : sched.dev) o << "dev " << d.first << " " << d.second << "\n";
  return o.str();
}
static void kv(const std::string & s, std::string & k, std::string & v)
{
  size_t e = s.find('=');
  k = s.substr(0, e); v = e == std::string::npos ? "" : s.substr(e + 1);
}
Plan Plan::parse(const std::string & text)
{
  Plan p;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line))
  {
    std::istringstream l(line);
    std::string w, k, v;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "prop") l >> p.prop;
    else if (w == "kind") l >> p.kind;
    else if (w == "seed") l >> p.seed;
    else if (w == "cfg" || w == "par")
    {
      std::string rest; std::getline(l, rest);
      size_t b = rest.find_first_not_of(' ');
      kv(b == std::string::npos ? "" : rest.substr(b), k, v);
      (w == "cfg" ? p.cfg : p.par)[k] = v;
    }
    else if (w == "op")
    {
      Op o; l >> o.t >> o.kind;
      std::string t;
      while (l >> t) { kv(t, k, v); o.a[k] = v; }
      p.ops.push_back(o);
    }
    else if (w == "sched")
    {
      l >> p.sched.kind; std::string t;
      while (l >> t)
      {
        kv(t, k, v);
        if (k == "seed") p.sched.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "p_sync") p.sched.p_sync = strtod(v.c_str(), nullptr);
        else if (k == "p_mem") p.sched.p_mem = strtod(v.c_str(), nullptr);
        else if (k == "depth") p.sched.depth = atoi(v.c_str());
        else if (k == "p_stall") p.sched.p_stall = strtod(v.c_str(), nullptr);
        else if (k == "stall_ms") p.sched.stall_ms = atoi(v.c_str());
        else if (k == "horizon") p.sched.horizon = strtoull(v.c_str(), nullptr, 10);
      }
    }
    else if (w == "dev") { u64 s; int f; l >> s >> f; p.sched.dev.push_back({s, f}); }
  }
  return p;
}

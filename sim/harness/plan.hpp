// A plan is the complete input of one simulated run: configuration, operations, faults, schedule.
#pragma once
#include <kernel.hpp>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <vector>
typedef sim::i64 i64;
typedef sim::u64 u64;
inline std::string fnum(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
struct Op
{
  i64 t = 0;                       // microseconds after the start of the run
  std::string kind;
  std::map<std::string, std::string> a;
  double num(const std::string & k, double d = 0) const { auto i = a.find(k); return i == a.end() ? d : strtod(i->second.c_str(), nullptr); }
  i64 integer(const std::string & k, i64 d = 0) const { auto i = a.find(k); return i == a.end() ? d : strtoll(i->second.c_str(), nullptr, 10); }
  std::string str(const std::string & k, const std::string & d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
  bool has(const std::string & k) const { return a.count(k) > 0; }
  Op & set(const std::string & k, const std::string & v) { a[k] = v; return *this; }
  Op & set(const std::string & k, double v) { a[k] = fnum(v); return *this; }
};
struct Plan
{
  std::string prop, kind;
  u64 seed = 0;
  std::map<std::string, std::string> cfg;
  std::map<std::string, std::string> par;      // node parameters: name -> b:/i:/d:/s: value
  std::vector<Op> ops;
  sim::SchedCfg sched;
  double num(const std::string & k, double d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtod(i->second.c_str(), nullptr); }
  i64 integer(const std::string & k, i64 d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtoll(i->second.c_str(), nullptr, 10); }
  std::string str(const std::string & k, const std::string & d = "") const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
  void set(const std::string & k, double v) { cfg[k] = fnum(v); }
  void set(const std::string & k, const std::string & v) { cfg[k] = v; }
  void set(const std::string & k, const char * v) { cfg[k] = v; }
  void pd(const std::string & k, double v) { par[k] = "d:" + fnum(v); }
  void pi(const std::string & k, i64 v) { par[k] = "i:" + std::to_string(v); }
  void pb(const std::string & k, bool v) { par[k] = v ? "b:1" : "b:0"; }
  void ps(const std::string & k, const std::string & v) { par[k] = "s:" + v; }
  double parnum(const std::string & k, double d) const { auto i = par.find(k); return i == par.end() ? d : strtod(i->second.c_str() + 2, nullptr); }
  std::string parstr(const std::string & k, const std::string & d) const { auto i = par.find(k); return i == par.end() ? d : i->second.substr(2); }
  Op & add(i64 t_us, const std::string & k) { Op o; o.t = t_us; o.kind = k; ops.push_back(o); return ops.back(); }
  void sort_ops();
  std::string text() const;
  static Plan parse(const std::string & text);
};
Plan generate(const std::string & prop, u64 seed, bool fine);
/** Executes the plan in this process; returns normally when the property held. */
void execute(const Plan & p);
/** Ids of the findings that are known not to hold (comma separated, with a leading and trailing comma). */
extern std::string g_known;
inline bool known_finding(const std::string & id) { return g_known.find("," + id + ",") != std::string::npos; }

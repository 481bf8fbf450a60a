// Shared by the component simulations: one object under test, driven through generated histories.
#pragma once
#include "plan.hpp"
#include <cmath>
#include <functional>
#include <set>
#include <string>
#include <vector>
extern std::string g_prop;
/** Reports a violation. */
void chk(bool cond, const std::string & klass, const std::string & what);
/** Counts a violation that is listed as known; reports it otherwise. */
void known_or_fail(const std::string & id, const std::string & klass, const std::string & what);
inline double wrapa(double a) { return std::remainder(a, 2 * M_PI); }
/** Folds a value into the event log (makes histories comparable). */
void lognum(double v);
typedef void (*GenFn)(Plan & p, sim::Rng & r);
typedef void (*ExecFn)(const Plan & p);
struct Comp { GenFn gen; ExecFn exec; };
void gen_ndt(Plan &, sim::Rng &); void exec_ndt(const Plan &);
void gen_matcher(Plan &, sim::Rng &); void exec_matcher(const Plan &);
void gen_graph(Plan &, sim::Rng &); void exec_graph(const Plan &);
void gen_solver(Plan &, sim::Rng &); void exec_solver(const Plan &);
void gen_filter(Plan &, sim::Rng &); void exec_filter(const Plan &);
void gen_resample(Plan &, sim::Rng &); void exec_resample(const Plan &);
void gen_motion(Plan &, sim::Rng &); void exec_motion(const Plan &);
inline Op & cop(Plan & p, const std::string & k, sim::Rng & r)
{
  Op & o = p.add(static_cast<i64>(p.ops.size()) * 1000, k);
  o.set("seed", std::to_string(r.next() >> 12));
  return o;
}
inline sim::Rng orng(const Op & o) { return sim::Rng(strtoull(o.str("seed", "1").c_str(), nullptr, 10)); }

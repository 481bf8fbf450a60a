// Component simulations: dispatch and reporting.
#include "comp.hpp"
std::string g_prop;
static const std::map<std::string, Comp> & table()
{
  static const std::map<std::string, Comp> t = {
    {"C13", {gen_matcher, exec_matcher}}, {"C14", {gen_ndt, exec_ndt}}, {"C17", {gen_solver, exec_solver}}, {"C18", {gen_filter, exec_filter}},
    {"C19", {gen_resample, exec_resample}}, {"C20", {gen_motion, exec_motion}}, {"C24", {gen_graph, exec_graph}}};
  return t;
}
void chk(bool cond, const std::string & klass, const std::string & what)
{
  sim::count("checks");
  if (!cond) sim::fail_run(klass, what);
}
void known_or_fail(const std::string & id, const std::string & klass, const std::string & what)
{
  if (known_finding(id)) sim::count(("known_" + id).c_str());
  else sim::fail_run(klass, what);
}
void lognum(double v) { sim::log_bytes(&v, sizeof v); }
Plan generate(const std::string & prop, u64 seed, bool)
{
  Plan p;
  p.prop = prop.substr(0, prop.find('/')); p.kind = "comp"; p.seed = seed;
  auto i = table().find(p.prop);
  if (i == table().end()) { fprintf(stderr, "no component simulation of %s\n", prop.c_str()); exit(3); }
  sim::Rng r(seed ^ sim::hash_str(p.prop));
  p.set("rand_seed", std::to_string(r.next() >> 12));
  i->second.gen(p, r);
  return p;
}
void execute(const Plan & p)
{
  g_prop = p.prop;
  auto i = table().find(p.prop);
  if (i == table().end()) sim::harness_error("no component simulation of " + p.prop);
  i->second.exec(p);
}

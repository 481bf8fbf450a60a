#include "simctl.hpp"
#include <tf2_ros/buffer.h>
#include <tf2_ros/transform_broadcaster.h>
#include <rclcpp_components/register_node_macro.hpp>
#include <pluginlib/class_loader.hpp>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <set>

using sim::NoPreempt;
namespace simros
{
std::vector<Process> procs;
Hooks hooks;
i64 clock_jump = 0;

// ------------------------------------------------------------------ processes
struct Queued { std::shared_ptr<const void> msg; std::shared_ptr<void> req; u64 id; u64 seq; };
struct Ep { std::shared_ptr<Endpoint> e; void * node; std::deque<Queued> q; };
struct Exec
{
  int group; std::string component; Params overrides; sim::Rng rng; bool random_order;
  std::vector<Ep> eps; Params params; std::set<std::string> declared;
  std::shared_ptr<rclcpp::Node> node; int waitobj = 0;
};
static std::vector<std::unique_ptr<Exec>> execs;
static u64 g_seq = 0;
static std::map<std::string, NodeFactory> & factories() { static std::map<std::string, NodeFactory> m; return m; }
void register_node(const char * cls, NodeFactory f) { factories()[cls] = f; }
Process & proc(int g) { return procs.at(static_cast<size_t>(g - 1)); }
static Exec & exec_of(int g) { return *execs.at(static_cast<size_t>(g - 1)); }
static int g_as = 0;
void act_as(int g) { g_as = g; }
static int my_group() { int g = sim::group_of(sim::current()); return g > 0 ? g : g_as; }
static std::string norm(const std::string & t)
{
  size_t i = 0;
  while (i < t.size() && (t[i] == '/' || t[i] == '~')) ++i;
  return t.substr(i);
}

bool ok()
{
  sim::yield(0);
  int g = my_group();
  return g < 1 ? true : proc(g).ok;
}
void shutdown() { int g = my_group(); if (g >= 1) request_shutdown(g); }
void point(int k) { sim::yield(k); }
i64 sim_now() { return sim::now(); }
i64 ros_now() { return sim::now() + clock_jump; }
void sleep_ns(i64 d) { sim::sleep_for(d < 0 ? 0 : d); }
void log(int level, const char * fmt, ...)
{
  sim::yield(0);
  char buf[1024];
  { NoPreempt np;
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    sim::log_event("LOG%d %s", level, buf);
    if (hooks.on_log) hooks.on_log(level, buf); }
  sim::yield(0);
}
void publish(const std::string & topic, const std::type_info & t, const void * m)
{
  sim::yield(0);
  { NoPreempt np; if (hooks.on_publish) hooks.on_publish(norm(topic), t, m); }
  sim::yield(0);
}
void tf_broadcast(const void * m)
{
  sim::yield(0);
  { NoPreempt np; if (hooks.on_tf) hooks.on_tf(m); }
  sim::yield(0);
}

void add_endpoint(void * node, const std::shared_ptr<Endpoint> & e)
{
  NoPreempt np;
  int g = my_group();
  if (g < 1) sim::harness_error("endpoint created outside a node process");
  e->name = norm(e->name);
  exec_of(g).eps.push_back(Ep{e, node, {}});
}
void remove_node(void * node)
{
  NoPreempt np;
  for (auto & x : execs) for (auto & e : x->eps) if (e.node == node) { e.e->cancelled = true; e.q.clear(); }
}
void node_created(void *, const std::string &) {}
static Exec & my_exec() { int g = my_group(); if (g < 1) sim::harness_error("parameter access outside a node process"); return exec_of(g); }
Value param_get(void *, const std::string & n, bool & f)
{
  NoPreempt np;
  Exec & x = my_exec();
  auto i = x.params.find(n);
  f = i != x.params.end();
  return f ? i->second : Value();
}
bool param_has(void *, const std::string & n) { NoPreempt np; return my_exec().params.count(n) > 0; }
void param_set(void *, const std::string & n, const Value & v) { NoPreempt np; my_exec().params[n] = v; }
void param_declare(void *, const std::string & n, const Value & d)
{
  sim::yield(0);
  NoPreempt np;
  Exec & x = my_exec();
  if (x.params.count(n)) throw rclcpp::exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
  Value v = d;
  auto o = x.overrides.find(n);
  if (o != x.overrides.end())
  {
    if (o->second.k != d.k && !(d.k == Value::NONE))
      throw rclcpp::exceptions::InvalidParameterTypeException("parameter '" + n + "' has invalid type");
    v = o->second;
  }
  x.params[n] = v;
}

static void run_callback(Exec & x, Ep & e, Queued q)
{
  std::shared_ptr<Endpoint> ep = e.e;
  Process & p = proc(x.group);
  p.in_callback = 1; p.in_what = ep->name; ++p.callbacks;
  { NoPreempt np; sim::log_event("CB+ %s #%llu", ep->name.c_str(), static_cast<unsigned long long>(q.id));
    if (hooks.on_callback) hooks.on_callback(ep->kind, ep->name, q.id, true); }
  if (ep->kind == 0) ep->on_msg(q.msg);
  else if (ep->kind == 1)
  {
    std::shared_ptr<void> rs; { NoPreempt np; rs = ep->make_response(); }
    ep->on_req(q.req, rs);
  }
  else ep->on_timer();
  { NoPreempt np; sim::log_event("CB- %s #%llu", ep->name.c_str(), static_cast<unsigned long long>(q.id));
    proc(x.group).in_callback = 0;
    if (hooks.on_callback) hooks.on_callback(ep->kind, ep->name, q.id, false); }
}

static void * exec_main(void * a)
{
  Exec & x = *static_cast<Exec *>(a);
  int g = x.group;
  sim::set_group(g);
  bool built = false;
  try
  {
    rclcpp::NodeOptions o;
    x.node = factories().at(x.component)(o);
    built = true;
  }
  catch (const std::exception & e)
  {
    NoPreempt np;
    proc(g).ctor_failed = true; proc(g).ctor_error = e.what(); proc(g).end_at = sim::now();
    sim::log_event("node constructor failed: %s", e.what());
  }
  if (!built) return nullptr;
  proc(g).built = true; proc(g).spinning = true;
  while (proc(g).ok && !proc(g).unload)
  {
    Queued q; Ep * pick = nullptr; i64 next = sim::NEVER;
    {
      NoPreempt np;
      std::vector<size_t> ready;
      for (size_t i = 0; i < x.eps.size(); ++i)
      {
        Ep & e = x.eps[i];
        if (e.e->cancelled) continue;
        if (e.e->kind == 2) { if (e.e->next <= sim::now()) ready.push_back(i); else if (e.e->next < next) next = e.e->next; }
        else if (!e.q.empty()) ready.push_back(i);
      }
      if (!ready.empty())
      {
        size_t c = 0;
        if (x.random_order) c = x.rng.below(ready.size());
        else for (size_t k = 1; k < ready.size(); ++k)
        {
          auto key = [&](size_t i) { Ep & e = x.eps[ready[i]]; return e.e->kind == 2 ? 0 : e.q.front().seq; };
          if (key(k) < key(c)) c = k;
        }
        pick = &x.eps[ready[c]];
        if (pick->e->kind == 2) { pick->e->next = sim::now() + pick->e->period; q.id = 0; q.seq = 0; }
        else { q = pick->q.front(); pick->q.pop_front(); }
      }
    }
    if (!pick) { sim::block_on(&x.waitobj, next, "idle in spin()"); continue; }
    sim::hb_acquire(&x.waitobj);
    run_callback(x, *pick, std::move(q));
    sim::yield(0);
  }
  proc(g).spinning = false;
  proc(g).destroy_at = sim::now();
  { NoPreempt np; sim::log_event("destroying node"); }
  x.node.reset();
  proc(g).destroyed = true; proc(g).end_at = sim::now();
  { NoPreempt np; sim::log_event("node destroyed"); }
  return nullptr;
}

int boot(const std::string & c, const Params & ov, u64 seed, bool rnd)
{
  if (!factories().count(c)) sim::harness_error("component " + c + " is not registered");
  int g = static_cast<int>(procs.size()) + 1;
  Process p; p.group = g; procs.push_back(p);
  std::unique_ptr<Exec> x(new Exec);
  x->group = g; x->component = c; x->overrides = ov; x->rng.reseed(seed); x->random_order = rnd;
  execs.push_back(std::move(x));
  char name[24]; snprintf(name, sizeof name, "spin%d", g);
  sim::spawn(name, exec_main, execs.back().get(), g);
  return g;
}
int bare(const Params & ov)
{
  int g = static_cast<int>(procs.size()) + 1;
  Process p; p.group = g; procs.push_back(p);
  std::unique_ptr<Exec> x(new Exec);
  x->group = g; x->overrides = ov;
  execs.push_back(std::move(x));
  return g;
}
void request_shutdown(int g)
{
  if (!proc(g).ok) return;
  proc(g).ok = false; proc(g).shutdown_at = sim::now();
  sim::log_event("shutdown requested");
  sim::wake_all(&exec_of(g).waitobj);
}
void request_unload(int g)
{
  proc(g).unload = true; proc(g).shutdown_at = sim::now();
  sim::log_event("unload requested");
  sim::wake_all(&exec_of(g).waitobj);
}
bool deliver(int g, const std::string & topic, const std::type_info & t, std::shared_ptr<const void> m, u64 id)
{
  Exec & x = exec_of(g);
  bool any = false;
  for (auto & e : x.eps)
  {
    if (e.e->kind != 0 || e.e->cancelled || e.e->name != topic || *e.e->type != t) continue;
    any = true;
    if (e.q.size() >= e.e->depth)
    {
      u64 old = e.q.front().id;
      e.q.pop_front();
      sim::count("queue_overflow_drop");
      if (hooks.on_drop) hooks.on_drop(0, topic, old);
    }
    Queued q; q.msg = m; q.id = id; q.seq = ++g_seq;
    e.q.push_back(q);
  }
  sim::hb_release(&x.waitobj);
  sim::wake_all(&x.waitobj);
  return any;
}
bool call_service(int g, const std::string & s, std::shared_ptr<void> r, u64 id)
{
  Exec & x = exec_of(g);
  for (auto & e : x.eps)
  {
    if (e.e->kind != 1 || e.e->cancelled || e.e->name != s) continue;
    Queued q; q.req = r; q.id = id; q.seq = ++g_seq;
    e.q.push_back(q);
    sim::hb_release(&x.waitobj);
    sim::wake_all(&x.waitobj);
    return true;
  }
  return false;
}
size_t queued(int g) { size_t n = 0; for (auto & e : exec_of(g).eps) n += e.q.size(); return n; }

// ------------------------------------------------------------------ TF
struct Edge { std::string parent, child; bool is_static; std::vector<TfSample> s; };
static std::vector<Edge> edges;
void tf_reset() { edges.clear(); }
void tf_edge(const std::string & p, const std::string & c, bool st)
{
  for (auto & e : edges) if (e.child == c && e.parent == p) return;
  edges.push_back(Edge{p, c, st, {}});
}
void tf_add(const std::string & p, const std::string & c, const TfSample & s)
{
  for (auto & e : edges) if (e.child == c && e.parent == p)
  {
    if (!e.s.empty() && e.s.back().stamp > s.stamp) sim::harness_error("tf samples out of order");
    e.s.push_back(s);
    return;
  }
  sim::harness_error("no such tf edge");
}
typedef std::array<double, 4> Q;   // x y z w
static Tf mul(const Tf & a, const Tf & b)
{
  Tf r;
  auto rot = [](const Tf & q, double x, double y, double z, double & ox, double & oy, double & oz) {
      double tx = 2 * (q.qy * z - q.qz * y), ty = 2 * (q.qz * x - q.qx * z), tz = 2 * (q.qx * y - q.qy * x);
      ox = x + q.qw * tx + q.qy * tz - q.qz * ty;
      oy = y + q.qw * ty + q.qz * tx - q.qx * tz;
      oz = z + q.qw * tz + q.qx * ty - q.qy * tx;
    };
  double x, y, z;
  rot(a, b.x, b.y, b.z, x, y, z);
  r.x = a.x + x; r.y = a.y + y; r.z = a.z + z;
  r.qw = a.qw * b.qw - a.qx * b.qx - a.qy * b.qy - a.qz * b.qz;
  r.qx = a.qw * b.qx + a.qx * b.qw + a.qy * b.qz - a.qz * b.qy;
  r.qy = a.qw * b.qy - a.qx * b.qz + a.qy * b.qw + a.qz * b.qx;
  r.qz = a.qw * b.qz + a.qx * b.qy - a.qy * b.qx + a.qz * b.qw;
  return r;
}
static Tf inv(const Tf & a)
{
  Tf c; c.qx = -a.qx; c.qy = -a.qy; c.qz = -a.qz; c.qw = a.qw;
  Tf t; t.x = -a.x; t.y = -a.y; t.z = -a.z;
  Tf r = mul(c, t);
  r.qx = c.qx; r.qy = c.qy; r.qz = c.qz; r.qw = c.qw;
  return r;
}
static Tf interp(const TfSample & a, const TfSample & b, i64 t)
{
  double f = b.stamp == a.stamp ? 0.0 : static_cast<double>(t - a.stamp) / static_cast<double>(b.stamp - a.stamp);
  Tf r;
  r.x = a.tf.x + f * (b.tf.x - a.tf.x); r.y = a.tf.y + f * (b.tf.y - a.tf.y); r.z = a.tf.z + f * (b.tf.z - a.tf.z);
  double d = a.tf.qx * b.tf.qx + a.tf.qy * b.tf.qy + a.tf.qz * b.tf.qz + a.tf.qw * b.tf.qw;
  double s = d < 0 ? -1 : 1; d = std::fabs(d);
  double wa, wb;
  if (d > 1 - 1e-12) { wa = 1 - f; wb = f; }
  else { double th = std::acos(d), sn = std::sin(th); wa = std::sin((1 - f) * th) / sn; wb = std::sin(f * th) / sn; }
  wb *= s;
  r.qx = wa * a.tf.qx + wb * b.tf.qx; r.qy = wa * a.tf.qy + wb * b.tf.qy;
  r.qz = wa * a.tf.qz + wb * b.tf.qz; r.qw = wa * a.tf.qw + wb * b.tf.qw;
  double n = std::sqrt(r.qx * r.qx + r.qy * r.qy + r.qz * r.qz + r.qw * r.qw);
  r.qx /= n; r.qy /= n; r.qz /= n; r.qw /= n;
  return r;
}
static const i64 CACHE = 10 * sim::SEC;
/** newest visible stamp; -1 when nothing is visible */
static i64 newest(const Edge & e, i64 created)
{
  i64 t = sim::now();
  for (size_t i = e.s.size(); i-- > 0; ) if (e.s[i].arrival <= t && e.s[i].arrival >= created) return e.s[i].stamp;
  return -1;
}
static int edge_at(const Edge & e, i64 created, i64 stamp, Tf & out, std::string & err)
{
  i64 t = sim::now();
  if (e.is_static)
  {
    for (size_t i = e.s.size(); i-- > 0; ) if (e.s[i].arrival <= t) { out = e.s[i].tf; return 0; }
    err = "no transform"; return 1;
  }
  i64 nw = newest(e, created);
  if (nw < 0) { err = "no transform received yet"; return 1; }
  const TfSample * a = nullptr, * b = nullptr;
  for (size_t i = e.s.size(); i-- > 0; )
  {
    const TfSample & s = e.s[i];
    if (s.arrival > t || s.arrival < created || s.stamp < nw - CACHE) continue;
    if (s.stamp >= stamp) b = &s;
    if (s.stamp <= stamp) { a = &s; break; }
  }
  if (a && b) { out = interp(*a, *b, stamp); return 0; }
  if (!b) { err = "Lookup would require extrapolation into the future"; return 3; }
  err = "Lookup would require extrapolation into the past"; return 4;
}
int tf_lookup(i64 created, const std::string & target, const std::string & source, i64 stamp, Tf & out, i64 & ostamp, std::string & err)
{
  if (target == source) { out = Tf(); ostamp = stamp; return 0; }
  auto known = [&](const std::string & f) {
      for (auto & e : edges) if ((e.child == f || e.parent == f) && (e.is_static ? (!e.s.empty() && e.s[0].arrival <= sim::now()) : newest(e, created) >= 0)) return true;
      return false;
    };
  if (!known(target)) { err = "\"" + target + "\" passed to lookupTransform argument target_frame does not exist."; return 1; }
  if (!known(source)) { err = "\"" + source + "\" passed to lookupTransform argument source_frame does not exist."; return 1; }
  auto up = [&](const std::string & f) {
      std::vector<const Edge *> v; std::string c = f;
      for (int guard = 0; guard < 20; ++guard)
      {
        const Edge * n = nullptr;
        for (auto & e : edges) if (e.child == c && (e.is_static ? !e.s.empty() : newest(e, created) >= 0)) n = &e;
        if (!n) break;
        v.push_back(n); c = n->parent;
      }
      return v;
    };
  std::vector<const Edge *> us = up(source), ut = up(target);
  auto root = [&](const std::vector<const Edge *> & v, const std::string & f) { return v.empty() ? f : v.back()->parent; };
  if (root(us, source) != root(ut, target)) { err = "Could not find a connection between '" + target + "' and '" + source + "'"; return 2; }
  while (!us.empty() && !ut.empty() && us.back() == ut.back()) { us.pop_back(); ut.pop_back(); }
  if (stamp == 0)
  {
    i64 m = sim::NEVER;
    for (auto * e : us) if (!e->is_static) m = std::min(m, newest(*e, created));
    for (auto * e : ut) if (!e->is_static) m = std::min(m, newest(*e, created));
    stamp = m == sim::NEVER ? 0 : m;
  }
  Tf s, t, x;
  for (auto * e : us) { int r = edge_at(*e, created, stamp, x, err); if (r) return r; s = mul(x, s); }
  for (auto * e : ut) { int r = edge_at(*e, created, stamp, x, err); if (r) return r; t = mul(x, t); }
  out = mul(inv(t), s); ostamp = stamp;
  return 0;
}
int tf_lookup_wait(i64 created, const std::string & target, const std::string & source, i64 stamp, i64 timeout, Tf & out, i64 & os, std::string & err)
{
  i64 start = ros_now();
  int r;
  for (;;)
  {
    { NoPreempt np; r = tf_lookup(created, target, source, stamp, out, os, err); }
    if (!r) return 0;
    i64 n = ros_now();
    if (n >= start + timeout || n + 3 * sim::SEC < start || !ok()) return r;
    sim::sleep_for(10 * sim::MS);
    sim::count("tf_wait_polls");
  }
}

// ------------------------------------------------------------------ disk
std::map<std::string, Bag> disk;
i64 disk_capacity = -1, bag_op_delay = 0;
bool bag_yields = true;
struct Handle { std::string uri; size_t pos = 0; bool writer = false; bool closed = false; bool failed = false; };
static std::vector<Handle> handles;
static std::vector<DiskFault> armed;
static std::map<int, int> op_count;
static int fired = 0;
void arm_fault(const DiskFault & f) { DiskFault g = f; g.nth += op_count[f.op]; armed.push_back(g); }
int faults_fired() { return fired; }
void clear_faults() { armed.clear(); }
static bool fault(FaultOp op)
{
  int n = op_count[op]++;
  for (size_t i = 0; i < armed.size(); ++i)
    if (armed[i].op == op && armed[i].nth == n)
    {
      ++fired;
      static const char * names[] = {"", "disk_fault_open_write", "disk_fault_write", "disk_fault_close", "disk_fault_open_read", "disk_fault_read"};
      sim::count(names[op]);
      sim::log_event("disk fault %s", names[op]);
      armed.erase(armed.begin() + static_cast<long>(i));
      return true;
    }
  return false;
}
static void bag_point(const char * what)
{
  if (bag_yields) sim::yield(0);
  if (hooks.on_bag_op) { NoPreempt np; hooks.on_bag_op(what); }
  if (bag_op_delay) sim::sleep_for(bag_op_delay);
}
static i64 used() { i64 n = 0; for (auto & b : disk) n += b.second.bytes; return n; }
int bag_writer_open(const std::string & uri)
{
  bag_point("open");
  NoPreempt np;
  if (uri.empty()) throw std::runtime_error("Failed to create database directory ().");
  if (fault(F_OPEN_W)) throw std::runtime_error("Failed to create database directory (" + uri + ").");
  if (disk.count(uri)) throw std::runtime_error("Bag directory already exists (" + uri + "), can't overwrite existing bag");
  disk[uri] = Bag();
  Handle h; h.uri = uri; h.writer = true;
  handles.push_back(h);
  sim::log_event("bag create %s", uri.c_str());
  return static_cast<int>(handles.size()) - 1;
}
void bag_write(int i, const BagMsg & m)
{
  bag_point("write");
  NoPreempt np;
  Handle & h = handles.at(static_cast<size_t>(i));
  Bag & b = disk[h.uri];
  i64 n = static_cast<i64>(m.data.size()) + 64;
  bool full = disk_capacity >= 0 && used() + n > disk_capacity;
  if (full) { sim::count("disk_full"); ++fired; }
  if (fault(F_WRITE) || full)
  {
    h.failed = true;
    throw std::runtime_error(full ? "disk I/O error: database or disk is full" : "disk I/O error");
  }
  b.msgs.push_back(m); b.bytes += n;
}
void bag_close(int i)
{
  bag_point("close");
  NoPreempt np;
  Handle & h = handles.at(static_cast<size_t>(i));
  if (h.closed) return;
  h.closed = true;
  Bag & b = disk[h.uri];
  if (fault(F_CLOSE))
  {
    // metadata could not be written: the bag stays unreadable; destructors report nothing
    b.torn = true;
    return;
  }
  if (h.failed) { b.torn = true; return; }
  b.complete = true;
  sim::log_event("bag complete %s (%zu messages)", h.uri.c_str(), b.msgs.size());
}
int bag_reader_open(const std::string & uri)
{
  bag_point("ropen");
  NoPreempt np;
  if (fault(F_OPEN_R)) throw std::runtime_error("could not open bag " + uri);
  auto b = disk.find(uri);
  if (b == disk.end() || !b->second.complete) throw std::runtime_error("No storage could be initialized from the inputs. (" + uri + ")");
  Handle h; h.uri = uri;
  handles.push_back(h);
  return static_cast<int>(handles.size()) - 1;
}
bool bag_has_next(int i) { NoPreempt np; Handle & h = handles.at(static_cast<size_t>(i)); return h.pos < disk[h.uri].msgs.size(); }
BagMsg bag_read(int i)
{
  bag_point("read");
  NoPreempt np;
  Handle & h = handles.at(static_cast<size_t>(i));
  if (fault(F_READ)) throw std::runtime_error("disk I/O error while reading");
  return disk[h.uri].msgs.at(h.pos++);
}
std::vector<std::pair<std::string, std::string>> bag_topics(int i)
{
  NoPreempt np;
  std::vector<std::pair<std::string, std::string>> r; std::set<std::string> seen;
  for (auto & m : disk[handles.at(static_cast<size_t>(i)).uri].msgs) if (seen.insert(m.topic).second) r.push_back({m.topic, m.type});
  return r;
}
void bag_reader_close(int) {}

// ------------------------------------------------------------------ plugins
static std::map<std::string, PluginFactory> & plugins() { static std::map<std::string, PluginFactory> m; return m; }
void register_plugin(const std::string & cls, const std::string & base, PluginFactory f) { plugins()[cls + "|" + base] = f; }
std::shared_ptr<void> make_plugin_real(const std::string & cls, const std::string & base)
{
  auto i = plugins().find(cls + "|" + base);
  if (i == plugins().end()) return nullptr;
  return std::shared_ptr<void>(i->second(), [](void *) {});
}
std::shared_ptr<void> create_plugin(const std::string & cls, const std::string & base)
{
  sim::yield(0);
  NoPreempt np;
  if (hooks.on_plugin) return hooks.on_plugin(cls, base, nullptr, plugins().count(cls + "|" + base) > 0);
  return make_plugin_real(cls, base);
}

void reset_all()
{
  procs.clear(); execs.clear(); edges.clear(); disk.clear(); handles.clear(); armed.clear(); op_count.clear();
  fired = 0; clock_jump = 0; disk_capacity = -1; bag_op_delay = 0; g_seq = 0;
  procs.reserve(64);
}
}  // namespace simros

// -------------------------------------------------------------------- rclcpp / tf2 definitions
namespace rclcpp
{
Node::Node(const std::string & name, const NodeOptions &)
: name_(name), clock_(std::make_shared<Clock>(RCL_ROS_TIME)) { simros::node_created(this, name_); }
Node::Node(const std::string & name, const std::string &, const NodeOptions &)
: name_(name), clock_(std::make_shared<Clock>(RCL_ROS_TIME)) { simros::node_created(this, name_); }
Node::~Node() { simros::remove_node(this); }
}
namespace tf2
{
static simros::Tf from(const geometry_msgs::msg::Transform & t)
{
  simros::Tf r; r.x = t.translation.x; r.y = t.translation.y; r.z = t.translation.z;
  r.qx = t.rotation.x; r.qy = t.rotation.y; r.qz = t.rotation.z; r.qw = t.rotation.w; return r;
}
void doTransform(const geometry_msgs::msg::Pose & in, geometry_msgs::msg::Pose & out, const geometry_msgs::msg::TransformStamped & ts)
{
  sim::NoPreempt np;
  simros::Tf t = from(ts.transform), p;
  p.x = in.position.x; p.y = in.position.y; p.z = in.position.z;
  p.qx = in.orientation.x; p.qy = in.orientation.y; p.qz = in.orientation.z; p.qw = in.orientation.w;
  simros::Tf r = simros::mul(t, p);
  out.position.x = r.x; out.position.y = r.y; out.position.z = r.z;
  out.orientation.x = r.qx; out.orientation.y = r.qy; out.orientation.z = r.qz; out.orientation.w = r.qw;
}
void sim_do_transform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out, const geometry_msgs::msg::TransformStamped & t)
{
  doTransform(in.pose, out.pose, t);
  out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
void sim_do_transform(const geometry_msgs::msg::PointStamped & in, geometry_msgs::msg::PointStamped & out, const geometry_msgs::msg::TransformStamped & t)
{
  geometry_msgs::msg::Pose p, q; p.position = in.point;
  doTransform(p, q, t);
  out.point = q.position; out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
}
namespace tf2_ros
{
Buffer::Buffer(rclcpp::Clock::SharedPtr, tf2::Duration) : created_(sim::now()) { if (simros::hooks.on_tf_buffer) { sim::NoPreempt np; simros::hooks.on_tf_buffer(); } }
geometry_msgs::msg::TransformStamped Buffer::lookup(const std::string & target, const std::string & source, int64_t stamp, int64_t timeout, bool wait) const
{
  sim::yield(0);
  simros::Tf r; int64_t os = 0; std::string err;
  int c = wait ? simros::tf_lookup_wait(created_, target, source, stamp, timeout, r, os, err)
               : simros::tf_lookup(created_, target, source, stamp, r, os, err);
  sim::NoPreempt np;
  if (simros::hooks.on_lookup) simros::hooks.on_lookup(target, source);
  if (c) sim::count("tf_lookup_failed");
  if (c == 1) throw tf2::LookupException(err);
  if (c == 2) throw tf2::ConnectivityException(err);
  if (c) throw tf2::ExtrapolationException(err);
  geometry_msgs::msg::TransformStamped t;
  t.header.frame_id = target; t.child_frame_id = source;
  t.header.stamp.sec = static_cast<int32_t>(os / 1000000000LL); t.header.stamp.nanosec = static_cast<uint32_t>(os % 1000000000LL);
  t.transform.translation.x = r.x; t.transform.translation.y = r.y; t.transform.translation.z = r.z;
  t.transform.rotation.x = r.qx; t.transform.rotation.y = r.qy; t.transform.rotation.z = r.qz; t.transform.rotation.w = r.qw;
  return t;
}
bool Buffer::canTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t, const tf2::Duration timeout, std::string * e) const
{
  sim::yield(0);
  simros::Tf r; int64_t os = 0; std::string err;
  int64_t st = t.time_since_epoch().count();
  int c = timeout.count() > 0 ? simros::tf_lookup_wait(created_, target, source, st, timeout.count(), r, os, err)
                              : simros::tf_lookup(created_, target, source, st, r, os, err);
  if (e) *e = err;
  return c == 0;
}
}

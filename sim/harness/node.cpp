#include "node.hpp"
#include <Eigen/Core>
#include <ndt_2d/scan_matcher.hpp>
#include <ndt_2d/msg/scan.hpp>
#include <ndt_2d/msg/constraint.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <pluginlib/class_loader.hpp>
#include <cstring>

using sim::NoPreempt;
World W;
const Plan * g_plan = nullptr;
int g_group = 0;
P2 g_map_origin;
static u64 next_id = 1;
static int probe_n = 0;
static sim::Rng script_rng(1), scan_rng(1);
static int inst_n = 0;
static double d_local = 0, d_global = 0, d_score = 0, d_publish = 0;
static bool hash_messages = true;

namespace simx
{
struct ScriptAnswer { double dx, dy, dth, score; double cov[9]; };
ScriptAnswer script_answer(const std::string & inst, size_t content, size_t npts)
{
  NoPreempt np;
  const Plan & p = *g_plan;
  ScriptAnswer a; memset(&a, 0, sizeof a);
  sim::Rng & r = script_rng;
  bool local = inst.find("local") != std::string::npos;
  double amp = p.num(local ? "script_amp_local" : "script_amp_global", local ? 0.02 : 0.05);
  a.dx = r.range(-amp, amp); a.dy = r.range(-amp, amp); a.dth = r.range(-amp, amp);
  double lo = p.num(local ? "script_local_lo" : "script_global_lo", local ? -0.8 : -1.0);
  double hi = p.num(local ? "script_local_hi" : "script_global_hi", local ? -0.4 : 0.0);
  a.score = r.range(lo, hi);
  double s[3] = {r.range(0.01, 0.1), r.range(0.01, 0.1), r.range(0.005, 0.05)};
  double c01 = r.range(-0.5, 0.5) * s[0] * s[1], c02 = r.range(-0.3, 0.3) * s[0] * s[2], c12 = r.range(-0.3, 0.3) * s[1] * s[2];
  double c[9] = {s[0] * s[0], c01, c02, c01, s[1] * s[1], c12, c02, c12, s[2] * s[2]};
  memcpy(a.cov, c, sizeof c);
  (void)content;
  if (npts && p.integer("script_nanmix", 0) && r.p(p.num("script_p_nan", 0)))
  {
    sim::count("fault_matcher_not_finite");
    const double bad = r.p(0.7) ? std::nan("") : (r.p(0.5) ? 1 : -1) * std::numeric_limits<double>::infinity();
    switch (r.below(6))
    {
      case 0: a.score = bad; break;
      case 1: a.dx = bad; break;
      case 2: a.dy = bad; break;
      case 3: a.dth = bad; break;
      case 4: a.dx = a.dy = a.dth = bad; break;
      default: a.score = a.dth = bad; break;
    }
    return a;
  }
  if (npts == 0 || r.p(p.num("script_p_nan", 0)))
  {
    if (npts) sim::count("fault_matcher_nan_score");
    if (p.integer("script_nan", 0)) { a.score = std::nan(""); if (r.p(0.5)) for (double & x : a.cov) x = std::nan(""); }
    else a.score = 0;
  }
  else if (r.p(p.num("script_p_singular", 0)))
  {
    sim::count("fault_matcher_singular_covariance");
    switch (r.below(3))
    {
      case 0: for (double & x : a.cov) x = 0; break;
      case 1: for (double & x : a.cov) x = std::nan(""); break;
      default: a.cov[2] = a.cov[5] = a.cov[6] = a.cov[7] = a.cov[8] = 0; break;
    }
  }
  return a;
}
double script_score(const std::string &, size_t, size_t npts, double x, double y, double th)
{
  NoPreempt np;
  if (!npts) return g_plan->integer("script_nan", 0) ? std::nan("") : 0.0;
  switch (g_plan->integer("script_field", 0))
  {
    case 1: return 0;
    case 2: { double k = std::sin(9173.13 * x + 1331.7 * y + 77.7 * th); return k > 0.2 ? 0 : -0.5 + 0.3 * k; }    // many without weight
    case 3: return -std::exp(-40 * (std::sin(x) * std::sin(x) + std::sin(y) * std::sin(y) + std::sin(th) * std::sin(th)));   // peaked
    case 4: return std::fabs(std::sin(9173.13 * x + 1331.7 * y)) > 0.05 ? 0 : -1;
    default: break;
  }
  double b = std::sin(3 * x) * std::cos(2 * y) * std::cos(th);
  return -0.5 - 0.4 * b;
}
}  // namespace simx

// ------------------------------------------------------------------ matcher spy
static ScanRec rec_of(const ndt_2d::ScanPtr & s)
{
  ScanRec r;
  if (!s) return r;
  r.id = s->getId();
  ndt_2d::Pose2d p = s->getPose();
  r.pose = P2{p.x, p.y, p.theta};
  for (auto & q : s->getPoints()) r.pts.push_back({q.x, q.y});
  return r;
}
class SpyMatcher : public ndt_2d::ScanMatcher
{
public:
  SpyMatcher(std::shared_ptr<ndt_2d::ScanMatcher> real, int inst) : real_(real), inst_(inst) {}
  MEv & begin(MEv::K k) const
  {
    H.mev.emplace_back();
    MEv & e = H.mev.back();
    e.k = k; e.inst = inst_; e.name = name_; e.fiber = sim::current(); e.group = sim::group_of(sim::current());
    e.seq0 = ++H.seq; e.t0 = sim::now(); e.cidx = cidx_;
    return e;
  }
  static void end(MEv & e) { e.seq1 = ++H.seq; e.t1 = sim::now(); }
  void nap(double ms) const { if (ms > 0) { sim::count("slow_matcher_calls"); sim::sleep_for(static_cast<i64>(ms * 1e6)); } }
  bool local() const { return name_.find("local") != std::string::npos; }
  void initialize(const std::string & name, rclcpp::Node * node, double range_max) override
  {
    MEv * e;
    { NoPreempt np; name_ = name; e = &begin(MEv::INIT); e->range_max = range_max; e->name = name; sim::log_event("MATCHER init %s %.9g", name.c_str(), range_max); }
    real_->initialize(name, node, range_max);
    { NoPreempt np; end(*e); }
  }
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator & b, const std::vector<ndt_2d::ScanPtr>::const_iterator & en) override
  {
    MEv * e;
    {
      NoPreempt np; e = &begin(MEv::ADD); cidx_ = static_cast<i64>(H.mev.size()) - 1;
      for (auto i = b; i != en; ++i) { e->add.push_back(rec_of(*i)); e->addp.push_back(i->get()); }
      sim::log_event("MATCHER add %s n=%zu", name_.c_str(), e->add.size());
    }
    real_->addScans(b, en);
    { NoPreempt np; end(*e); }
  }
  double matchScan(const ndt_2d::ScanPtr & scan, ndt_2d::Pose2d & pose, Eigen::Matrix3d & cov) const override
  {
    MEv * e;
    { NoPreempt np; e = &begin(MEv::MATCH); e->scan = rec_of(scan); e->scanp = scan.get(); }
    double s = real_->matchScan(scan, pose, cov);
    {
      NoPreempt np;
      e->corr = P2{pose.x, pose.y, pose.theta};
      for (int i = 0; i < 9; ++i) e->cov[i] = cov(i / 3, i % 3);
      e->score = s;
      sim::log_event("MATCHER match %s scan=%llu score=%.9g corr=%.9g %.9g %.9g", name_.c_str(), static_cast<unsigned long long>(e->scan.id), s, pose.x, pose.y, pose.theta);
    }
    nap(local() ? d_local : d_global);
    { NoPreempt np; end(*e); }
    return s;
  }
  double scoreScan(const ndt_2d::ScanPtr & scan) const override
  {
    MEv * e;
    { NoPreempt np; e = &begin(MEv::SCORE); e->scan = rec_of(scan); e->scanp = scan.get(); }
    double s = real_->scoreScan(scan);
    { NoPreempt np; e->score = s; end(*e); }
    return s;
  }
  double scorePoints(const std::vector<ndt_2d::Point> & pts, const ndt_2d::Pose2d & pose) const override
  {
    double s = real_->scorePoints(pts, pose);
    NoPreempt np;
    bool first = H.mev.empty() || H.mev.back().k != MEv::SCOREPTS || (!H.cbs.empty() && H.mev.back().seq0 < H.cbs.back().seq0);
    MEv & e = begin(MEv::SCOREPTS); if (first) for (auto & q : pts) e.scan.pts.push_back({q.x, q.y});
    e.pose = P2{pose.x, pose.y, pose.theta}; e.npts = pts.size(); e.score = s; end(e);
    return s;
  }
  void reset() override
  {
    { NoPreempt np; MEv & e = begin(MEv::RESET); cidx_ = -1; end(e); }
    real_->reset();
  }
private:
  std::shared_ptr<ndt_2d::ScanMatcher> real_;
  int inst_;
  std::string name_;
  i64 cidx_ = -1;
};
static std::shared_ptr<void> spy_plugin(const std::string & cls, const std::string & base, std::shared_ptr<void>, bool known)
{
  H.mev.emplace_back();
  MEv & e = H.mev.back();
  e.k = MEv::CREATE; e.cls = cls; e.inst = ++inst_n; e.seq0 = e.seq1 = ++H.seq; e.t0 = e.t1 = sim::now();
  e.group = sim::group_of(sim::current());
  sim::log_event("PLUGIN create %s", cls.c_str());
  if (!known) return nullptr;
  std::shared_ptr<void> raw = simros::make_plugin_real(cls, base);
  std::shared_ptr<ndt_2d::ScanMatcher> real(static_cast<ndt_2d::ScanMatcher *>(raw.get()));
  std::shared_ptr<ndt_2d::ScanMatcher> spy = std::make_shared<SpyMatcher>(real, e.inst);
  return std::static_pointer_cast<void>(spy);
}

// ------------------------------------------------------------------ solver control
static u64 solve_n = 0;
static sim::SolveCtl solve_hook(int phase, bool usable)
{
  NoPreempt np;
  sim::SolveCtl c;
  if (phase == 0)
  {
    SolveRec s; s.seq0 = ++H.seq; s.t0 = sim::now(); s.fiber = sim::current();
    u64 n = solve_n++;
    const std::string l = "," + g_plan->str("solve_fail") + ",";
    if (l.find("," + std::to_string(n) + ",") != std::string::npos) { c.fail = true; s.injected = true; sim::count("fault_solver_failure"); }
    c.delay = static_cast<i64>(g_plan->num("solve_delay_ms", 0) * 1e6);
    H.solves.push_back(s);
    sim::log_event("SOLVE begin");
  }
  else if (!H.solves.empty())
  {
    SolveRec & s = H.solves.back(); s.seq1 = ++H.seq; s.t1 = sim::now(); s.usable = usable;
    sim::log_event("SOLVE end usable=%d", usable);
  }
  return c;
}

// ------------------------------------------------------------------ history recording
static void on_publish(const std::string & topic, const std::type_info & t, const void * m)
{
  int g = sim::group_of(sim::current());
  if (t == typeid(nav_msgs::msg::OccupancyGrid))
  {
    const auto & x = *static_cast<const nav_msgs::msg::OccupancyGrid *>(m);
    H.grids.push_back(GridRec{++H.seq, sim::now(), g, x});
    if (hash_messages) sim::log_bytes(x.data.data(), x.data.size());
    sim::log_event("PUB %s %ux%u", topic.c_str(), x.info.width, x.info.height);
    if (d_publish > 0) { sim::count("slow_publications"); sim::sleep_for(static_cast<i64>(d_publish * 1e6)); }
  }
  else if (t == typeid(visualization_msgs::msg::MarkerArray))
  {
    const auto & x = *static_cast<const visualization_msgs::msg::MarkerArray *>(m);
    H.graphs.push_back(GraphRec{++H.seq, sim::now(), g, x});
    for (auto & k : x.markers) { sim::log_bytes(&k.pose.position, 24); for (auto & p : k.points) sim::log_bytes(&p, 24); }
    sim::log_event("PUB %s n=%zu", topic.c_str(), x.markers.size());
  }
  else if (t == typeid(geometry_msgs::msg::PoseArray))
  {
    const auto & x = *static_cast<const geometry_msgs::msg::PoseArray *>(m);
    H.clouds.push_back(CloudRec{++H.seq, sim::now(), g, x});
    for (auto & k : x.poses) sim::log_bytes(&k, sizeof k);
    sim::log_event("PUB %s n=%zu", topic.c_str(), x.poses.size());
  }
}
static void on_tf(const void * m)
{
  const auto & x = *static_cast<const geometry_msgs::msg::TransformStamped *>(m);
  TfRec r; r.seq = ++H.seq; r.t = sim::now(); r.frame = x.header.frame_id; r.child = x.child_frame_id;
  r.group = sim::group_of(sim::current());
  r.stamp = static_cast<i64>(x.header.stamp.sec) * sim::SEC + x.header.stamp.nanosec;
  simros::Tf t; t.x = x.transform.translation.x; t.y = x.transform.translation.y;
  t.qx = x.transform.rotation.x; t.qy = x.transform.rotation.y; t.qz = x.transform.rotation.z; t.qw = x.transform.rotation.w;
  r.tf = tf2p(t);
  H.tfs.push_back(r);
  sim::log_event("TF %.12g %.12g %.12g", r.tf.x, r.tf.y, r.tf.th);
}
static std::map<int, i64> boot_time;
static bool odom_at_boot(i64 stamp, P2 & out)
{
  simros::Tf t; i64 os; std::string e;
  if (simros::tf_lookup(boot_time[g_group], W.odom, W.base, stamp, t, os, e)) return false;
  out = tf2p(t);
  return true;
}
static bool scan_avail(u64 id)
{
  auto s = H.scans.find(id);
  if (s == H.scans.end()) return false;
  P2 o;
  if (!std::isfinite(s->second.m->time_increment)) return false;
  i64 n = static_cast<i64>(s->second.m->ranges.size());
  i64 end = s->second.stamp + static_cast<i64>(static_cast<double>(n > 0 ? n - 1 : 0) * static_cast<double>(s->second.m->time_increment) * 1e9);
  return odom_at_boot(s->second.stamp, o) && odom_at_boot(end, o);
}
// what the node can know of odometry when it asks
static void on_lookup(const std::string & target, const std::string & source)
{
  if (target != W.odom || source != W.base) return;
  for (size_t i = H.cbs.size(); i-- > 0; )
  {
    CbRec & c = H.cbs[i];
    if (c.fiber != sim::current() || c.t1 >= 0) continue;
    if (c.kind != 0 || c.name != "initialpose") return;
    c.looked = true;
    c.odom_now_ok = c.odom_now_ok0 = odom_at_boot(0, c.odom_now);
    c.odom_now0 = c.odom_now;
    return;
  }
}
static void on_callback(int kind, const std::string & name, u64 id, bool begin)
{
  int g = sim::group_of(sim::current());
  if (begin)
  {
    CbRec c; c.kind = kind; c.name = name; c.id = id; c.group = g; c.seq0 = ++H.seq; c.t0 = sim::now();
    c.fiber = sim::current();
    if (kind == 0)
    {
      c.odom_now_ok0 = odom_at_boot(0, c.odom_now0);
      c.avail0 = scan_avail(id);
      simros::Tf t; i64 os; std::string e;
      c.laser0 = !simros::tf_lookup(boot_time[g_group], W.base, W.laser, 0, t, os, e);
    }
    H.cbs.push_back(c);
    if (kind == 1)
    {
      auto r = H.reqs.find(id);
      if (r != H.reqs.end())
      {
        r->second.faults0 = static_cast<u64>(simros::faults_fired());
        auto f = simros::disk.find(r->second.file);
        r->second.existed = f != simros::disk.end() && (f->second.complete || !(r->second.action & 4));
      }
    }
    return;
  }
  for (size_t i = H.cbs.size(); i-- > 0; )
  {
    CbRec & c = H.cbs[i];
    if (c.id != id || c.group != g || c.t1 >= 0 || c.name != name || c.kind != kind) continue;
    c.seq1 = ++H.seq; c.t1 = sim::now();
    auto s = H.scans.find(id);
    if (kind == 0 && s != H.scans.end()) { c.odom_ok = odom_at_boot(s->second.stamp, c.odom); c.avail1 = scan_avail(id); }
    if (kind == 0 && !c.looked) c.odom_now_ok = odom_at_boot(0, c.odom_now);
    break;
  }
  if (kind == 1)
  {
    auto r = H.reqs.find(id);
    if (r != H.reqs.end())
    {
      r->second.t_done = sim::now(); r->second.seq_done = H.seq;
      r->second.faulted = static_cast<u64>(simros::faults_fired()) != r->second.faults0;
      if (g_plan->kind == "conc" && (r->second.action & 12))
      {
        NoPreempt np;
        if ((r->second.action & 4) ? !r->second.existed : r->second.existed) r->second.faulted = true;
        if (!r->second.faulted) r->second.snap = std::make_shared<Snap>(decode_bag(r->second.file));
      }
      sim::wake_all(&H);
    }
  }
}

void node_setup(const Plan & p)
{
  g_plan = &p;
  g_group = 0; next_id = 1; probe_n = 0; inst_n = 0; solve_n = 0;
  g_map_origin = P2();
  H = Hist();
  simros::reset_all();
  script_rng.reseed(static_cast<u64>(p.integer("script_seed", 5)));
  scan_rng.reseed(static_cast<u64>(p.integer("world_seed", 1)) + 99);
  d_local = p.num("local_delay_ms", 0); d_global = p.num("global_delay_ms", 0); d_score = 0; d_publish = p.num("publish_delay_ms", 0);
  simros::bag_op_delay = static_cast<i64>(p.num("bag_delay_us", 0) * 1e3);
  simros::hooks.on_publish = on_publish;
  simros::hooks.on_tf = on_tf;
  simros::hooks.on_lookup = on_lookup;
  simros::hooks.on_tf_buffer = []() { boot_time[sim::group_of(sim::current())] = sim::now(); };
  simros::hooks.on_callback = on_callback;
  simros::hooks.on_plugin = spy_plugin;
  simros::hooks.on_drop = [](int, const std::string & topic, u64 id) {
      if (topic == "scan") H.scans[id].dropped = true;
      else if (topic == "initialpose") H.poses[id].dropped = true;
    };
  simros::hooks.on_log = nullptr;
  sim::on_solve = solve_hook;
  W = World();
  W.build(p);
}

// ------------------------------------------------------------------ driver actions
static simros::Params params_of(const Plan & p)
{
  simros::Params r;
  for (auto & x : p.par)
  {
    const std::string v = x.second.substr(2);
    switch (x.second[0])
    {
      case 'b': r[x.first] = simros::Value(v == "1"); break;
      case 'i': r[x.first] = simros::Value(static_cast<i64>(strtoll(v.c_str(), nullptr, 10))); break;
      case 'd': r[x.first] = simros::Value(strtod(v.c_str(), nullptr)); break;
      default: r[x.first] = simros::Value(v); break;
    }
  }
  return r;
}
int node_boot(const std::string & map_file)
{
  simros::Params pr = params_of(*g_plan);
  if (!map_file.empty()) pr["map_file"] = simros::Value(map_file);
  g_group = simros::boot("ndt_2d::Mapper", pr, static_cast<u64>(g_plan->integer("exec_seed", 1)) + 7919 * (simros::procs.size() + 1),
                         g_plan->integer("exec_random", 0) != 0);
  boot_time[g_group] = sim::now();
  sim::log_event("BOOT %d map='%s'", g_group, map_file.c_str());
  return g_group;
}
P2 odom_lookup(i64 stamp, bool & ok) { P2 o; ok = odom_at_boot(stamp, o); return o; }
bool settle(i64 limit)
{
  i64 end = sim::now() + limit;
  for (;;)
  {
    sim::wait_quiescent();
    simros::Process & p = simros::proc(g_group);
    if ((p.built || p.ctor_failed) && !p.in_callback && !simros::queued(g_group)) return true;
    if (sim::now() >= end) return false;
    sim::sleep_for(5 * sim::MS);
  }
}
P2 in_map(const P2 & w) { P2 p = mulp(invp(g_map_origin), w); p.th = wrap(p.th); return p; }
u64 send_scan(const Op & o, bool wait)
{
  (void)wait;
  double age = o.num("lat", 0.01) + W.tinc * (W.beams - 1) + o.num("old", 0);
  double t = o.t * 1e-6 - age;
  ScanSent s; s.id = next_id++; s.m = W.scan(t, o, scan_rng);
  if (o.has("jump")) { i64 st = W.ns(t) + static_cast<i64>(o.num("jump") * 1e9); s.m->header.stamp.sec = static_cast<int32_t>(st / sim::SEC); s.m->header.stamp.nanosec = static_cast<uint32_t>(st % sim::SEC); sim::count("fault_stamp_jump"); }
  s.stamp = static_cast<i64>(s.m->header.stamp.sec) * sim::SEC + s.m->header.stamp.nanosec;
  s.t = sim::now(); s.bad = o.str("bad"); s.group = g_group;
  H.scans[s.id] = s;
  sim::log_event("SEND scan #%llu stamp=%lld %s", static_cast<unsigned long long>(s.id), static_cast<long long>(s.stamp), s.bad.c_str());
  if (o.integer("drop", 0)) { H.scans[s.id].dropped = true; sim::count("fault_message_lost"); return s.id; }
  simros::deliver(g_group, "scan", typeid(sensor_msgs::msg::LaserScan), s.m, s.id);
  for (i64 i = 0; i < o.integer("dup", 0); ++i)
  {
    sim::count("fault_message_duplicated");
    simros::deliver(g_group, "scan", typeid(sensor_msgs::msg::LaserScan), s.m, s.id);
  }
  return s.id;
}
u64 send_pose(const Op & o)
{
  PoseSent s; s.id = next_id++; s.t = sim::now(); s.group = g_group; s.frame = o.str("frame", "map");
  if (o.integer("abs", 0)) s.p = P2{o.num("x"), o.num("y"), o.num("th")};
  else
  {
    s.p = in_map(W.truth(o.t * 1e-6));
    s.p.x += o.num("x"); s.p.y += o.num("y"); s.p.th = wrap(s.p.th + o.num("th"));
  }
  auto m = std::make_shared<geometry_msgs::msg::PoseWithCovarianceStamped>();
  m->header.frame_id = s.frame;
  m->pose.pose.position.x = s.p.x; m->pose.pose.position.y = s.p.y;
  m->pose.pose.orientation.z = std::sin(s.p.th / 2); m->pose.pose.orientation.w = std::cos(s.p.th / 2);
  for (auto & c : m->pose.covariance) c = 0;
  m->pose.covariance[0] = o.num("cx", 0.02); m->pose.covariance[7] = o.num("cy", 0.03); m->pose.covariance[35] = o.num("ct", 0.01);
  std::string bad = o.str("badpose");
  if (!bad.empty())
  {
    const double nan = std::nan("");
    if (bad == "nanpos") m->pose.pose.position.x = nan;
    else if (bad == "nanquat") m->pose.pose.orientation.z = nan;
    else if (bad == "infpos") m->pose.pose.position.y = HUGE_VAL;
    else if (bad == "zeroquat") m->pose.pose.orientation.z = m->pose.pose.orientation.w = 0;
    else if (bad == "nancov") m->pose.covariance[0] = m->pose.covariance[35] = nan;
    else if (bad == "negcov") m->pose.covariance[0] = m->pose.covariance[35] = -1;
    else if (bad == "hugecov") m->pose.covariance[0] = m->pose.covariance[7] = m->pose.covariance[35] = 1e6;
    else if (bad == "farpos") { m->pose.pose.position.x = 1e12; m->pose.pose.position.y = -3e9; m->pose.covariance[0] = m->pose.covariance[7] = 1e20; }
    else if (bad == "infcov") m->pose.covariance[7] = HUGE_VAL;
    s.not_finite = bad == "nanpos" || bad == "nanquat" || bad == "infpos";
    sim::count("fault_malformed_pose");
  }
  for (size_t i = 0; i < 36; ++i) s.cov[i] = m->pose.covariance[i];
  H.poses[s.id] = s;
  sim::log_event("SEND pose #%llu", static_cast<unsigned long long>(s.id));
  simros::deliver(g_group, "initialpose", typeid(geometry_msgs::msg::PoseWithCovarianceStamped), m, s.id);
  return s.id;
}
u64 send_req(int action, const std::string & file)
{
  auto r = std::make_shared<ndt_2d::srv::Configure::Request>();
  r->action = action; r->filename = file;
  ReqRec q; q.id = next_id++; q.action = action; q.file = file; q.t_sent = sim::now(); q.group = g_group;
  q.faults0 = static_cast<u64>(simros::faults_fired());
  H.reqs[q.id] = q;
  sim::log_event("SEND configure #%llu action=%d %s", static_cast<unsigned long long>(q.id), action, file.c_str());
  if (!simros::call_service(g_group, "configure", r, q.id))
  {
    if (simros::proc(g_group).built && simros::proc(g_group).ok) chk("*", false, "service", "the node offers no configure service");
  }
  return q.id;
}
bool wait_req(u64 id, i64 limit)
{
  i64 end = sim::now() + limit;
  while (H.reqs[id].t_done < 0 && sim::now() < end)
    sim::block_on(&H, end, "waiting for an answer");
  return H.reqs[id].t_done >= 0;
}
u64 probe_seq = 0;
i64 probe_t = 0;
Snap probe(bool must)
{
  char f[64]; snprintf(f, sizeof f, "/nonexistent_sim/probe%d", probe_n++);
  probe_t = sim::now();
  u64 id = send_req(8, f);
  bool ok = wait_req(id, 600 * sim::SEC);
  probe_seq = ~0ULL;
  for (auto i = H.cbs.rbegin(); i != H.cbs.rend(); ++i) if (i->kind == 1 && i->id == id) { probe_seq = i->seq1; break; }
  Snap s = decode_bag(f);
  simros::disk.erase(f);
  if (must && !ok) sim::fail_run("unresponsive", "a save request was never answered");
  if (must && !s.ok && g_prop != "C06") sim::fail_run("save", "a save request on good storage was answered but left no readable file");
  sim::log_event("PROBE %zu scans %zu constraints", s.scans.size(), s.cons.size());
  for (auto & x : s.scans) { sim::log_bytes(&x.pose, sizeof x.pose); if (!x.pts.empty()) sim::log_bytes(x.pts.data(), x.pts.size() * 16); }
  for (auto & c : s.cons) { sim::log_bytes(c.t, 24); sim::log_bytes(c.info, 72); }
  return s;
}
void make_map(const Op & o)
{
  sim::Rng r(static_cast<u64>(o.integer("seed", 1)));
  int n = static_cast<int>(o.integer("n", 5));
  simros::Bag b; b.complete = true;
  double span = o.num("span", 3.0), off = o.num("t0", 0);
  bool random_content = o.integer("random", 0) != 0;
  P2 prev;
  auto push = [&](const std::string & topic, const std::string & type, simros::OutAr & ar) {
      simros::BagMsg m; m.topic = topic; m.type = type; m.data = ar.b; b.bytes += static_cast<i64>(m.data.size()) + 64; b.msgs.push_back(m);
    };
  std::vector<P2> poses;
  for (int i = 0; i < n; ++i)
  {
    double t = off + span * i / std::max(1, n - 1);
    P2 w = W.truth(t);
    P2 pose = w;
    if (o.integer("rel", 0)) pose = in_map(w);
    ndt_2d::msg::Scan s; s.id = static_cast<uint64_t>(i);
    int beams = static_cast<int>(o.integer("beams", W.beams));
    if (random_content) { pose = P2{r.range(-4, 4), r.range(-4, 4), r.range(-4, 4)}; beams = static_cast<int>(r.below(12)); }
    pose.x += o.num("dx"); pose.y += o.num("dy"); w.x += o.num("wx"); w.y += o.num("wy");
    s.pose.position.x = pose.x; s.pose.position.y = pose.y; s.pose.orientation.w = pose.th;
    for (int k = 0; k < beams; ++k)
    {
      double a = -M_PI + 2 * M_PI * k / beams + 0.01;
      double d = W.cast(w, w.th + a);
      if (random_content) d = r.range(0.1, 5);
      if (d > 50) continue;
      geometry_msgs::msg::Point p; p.x = std::cos(a) * d; p.y = std::sin(a) * d; s.points.push_back(p);
    }
    simros::OutAr ar; s.sim_visit(ar); push("scans", "ndt_2d/msg/Scan", ar);
    poses.push_back(pose);
  }
  auto con = [&](int a, int c, bool sw) {
      ndt_2d::msg::Constraint k; k.begin = a; k.end = c; k.switchable = sw;
      P2 d = mulp(invp(poses[static_cast<size_t>(a)]), poses[static_cast<size_t>(c)]);
      k.transform.translation.x = d.x; k.transform.translation.y = d.y; k.transform.translation.z = d.th;
      double m[9];
      for (double & x : m) x = r.range(-1, 1);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
      {
        double v = (i == j) ? 50 + 100 * r.u() : 0;
        for (int l = 0; l < 3; ++l) v += 20 * m[i * 3 + l] * m[j * 3 + l];
        k.information[static_cast<size_t>(i * 3 + j)] = v;
      }
      // make it exactly symmetric
      for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) k.information[static_cast<size_t>(i * 3 + j)] = k.information[static_cast<size_t>(j * 3 + i)];
      if (random_content) for (auto & x : k.information) x += r.range(-1e-3, 1e-3);
      simros::OutAr ar; k.sim_visit(ar); push("constraints", "ndt_2d/msg/Constraint", ar);
    };
  for (int i = 1; i < n; ++i) con(i - 1, i, false);
  if (random_content) for (int i = 0; i < n / 2; ++i) { int a = r.irange(0, n - 1), c = r.irange(0, n - 1); if (a != c) con(a, c, true); }
  simros::disk[o.str("file")] = b;
}
static void crash_now() { sim::log_event("CRASH"); sim::count("fault_crash"); sim::kill_group(g_group); }
void crash_node() { crash_now(); }
static void shutdown_now() { simros::request_shutdown(g_group); }
static void unload_now() { simros::request_unload(g_group); }
bool common_op(const Op & o)
{
  if (o.kind == "way" || o.kind == "tfgap" || o.kind == "tflate") return true;
  if (o.kind == "mkmap") { make_map(o); return true; }
  if (o.kind == "stall")
  {
    int f = sim::find_fiber(g_group, static_cast<int>(o.integer("nth")));
    if (f >= 0 && !sim::fiber_done(f)) { sim::stall(f, sim::now() + static_cast<i64>(o.num("d") * 1e9)); sim::count("fault_thread_stalled"); sim::log_event("STALL %d", f); }
    return true;
  }
  if (o.kind == "jam") { sim::set_stalls(o.num("p"), static_cast<int>(o.integer("ms", 100))); return true; }
  if (o.kind == "fault")
  {
    simros::DiskFault f; const std::string k = o.str("on");
    f.op = k == "open" ? simros::F_OPEN_W : k == "write" ? simros::F_WRITE : k == "close" ? simros::F_CLOSE : k == "ropen" ? simros::F_OPEN_R : simros::F_READ;
    f.nth = static_cast<int>(o.integer("nth"));
    simros::arm_fault(f);
    return true;
  }
  if (o.kind == "diskcap") { simros::disk_capacity = o.integer("bytes", -1); return true; }
  if (o.kind == "clockjump") { simros::clock_jump += static_cast<i64>(o.num("d") * 1e9); sim::count("fault_clock_jump"); return true; }
  if (o.kind == "crash_at") { sim::at_step(sim::steps() + static_cast<u64>(o.integer("steps", 1)), crash_now); return true; }
  if (o.kind == "shutdown_at") { sim::at_step(sim::steps() + static_cast<u64>(o.integer("steps", 1)), shutdown_now); sim::count("fault_shutdown"); return true; }
  if (o.kind == "unload_at") { sim::at_step(sim::steps() + static_cast<u64>(o.integer("steps", 1)), unload_now); sim::count("fault_unload"); return true; }
  if (o.kind == "slow") { if (o.has("local")) d_local = o.num("local"); if (o.has("global")) d_global = o.num("global"); if (o.has("publish")) d_publish = o.num("publish"); return true; }
  return false;
}

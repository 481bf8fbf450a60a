#include "demo.hpp"
#include <tf2_ros/transform_broadcaster.h>
#include <pluginlib/class_loader.hpp>
#include <pluginlib/class_list_macros.hpp>
#include <cstdarg>
#include <set>

namespace demo
{
std::mutex mtx;
std::vector<nav_msgs::msg::OccupancyGrid> maps;
std::vector<visualization_msgs::msg::MarkerArray> graphs;
std::vector<geometry_msgs::msg::PoseArray> clouds;
std::vector<geometry_msgs::msg::TransformStamped> tfs;
std::map<std::string, std::vector<simros::BagMsg>> disk;
std::vector<std::pair<int, std::string>> logs;
std::function<bool(const std::string &, const std::string &)> bag_fault;
std::function<bool(double, double &, double &, double &)> odom;
simros::Tf laser;
std::function<bool()> laser_known;
std::function<void(const std::string &)> hook;
std::function<Answer(const std::string &, const std::vector<Content> &, const ndt_2d::ScanPtr &)> matcher;
simros::Params params;
int failures = 0;
double latest = 0;
static simros::Params overrides_;
static std::vector<std::shared_ptr<simros::Endpoint>> eps;
static std::atomic<bool> is_ok(true);
static simros::NodeFactory factory;
int result() { std::printf(failures ? "%d failures\n" : "passed\n", failures); return failures ? 1 : 0; }

class Matcher : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & n, rclcpp::Node *, double) override { name_ = n; }
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator & b, const std::vector<ndt_2d::ScanPtr>::const_iterator & e) override
  { content_.clear(); for (auto s = b; s != e; ++s) content_.push_back(Content{(*s)->getPose(), (*s)->getId(), (*s)->getPoints().size()}); }
  double matchScan(const ndt_2d::ScanPtr & s, ndt_2d::Pose2d & p, Eigen::Matrix3d & c) const override
  {
    Answer a = matcher ? matcher(name_, content_, s) : Answer();
    p.x = a.x; p.y = a.y; p.theta = a.th; c = a.cov; return a.score;
  }
  double scoreScan(const ndt_2d::ScanPtr &) const override { return -0.5; }
  double scorePoints(const std::vector<ndt_2d::Point> &, const ndt_2d::Pose2d &) const override { return -0.5; }
  void reset() override { content_.clear(); }
private:
  std::string name_; std::vector<Content> content_;
};

void wait(double s) { std::this_thread::sleep_for(std::chrono::duration<double>(s)); }
bool until(double s, const std::function<bool()> & f)
{
  for (int i = 0; i < s * 50; ++i) { { std::lock_guard<std::mutex> l(mtx); if (f()) return true; } wait(0.02); }
  std::lock_guard<std::mutex> l(mtx); return f();
}
template<class M> static std::vector<M> decode(const std::string & f, const std::string & topic)
{
  std::lock_guard<std::mutex> l(mtx);
  std::vector<M> v;
  if (disk.count(f)) for (auto & m : disk[f]) if (m.topic == topic)
  { M x; simros::InAr ar(m.data.data(), m.data.size()); x.sim_visit(ar); v.push_back(x); }
  return v;
}
std::vector<ndt_2d::msg::Scan> file_scans(const std::string & f) { return decode<ndt_2d::msg::Scan>(f, "scans"); }
std::vector<ndt_2d::msg::Constraint> file_constraints(const std::string & f) { return decode<ndt_2d::msg::Constraint>(f, "constraints"); }
std::vector<float> room(double x, double y, double th, double a0, double inc, size_t n)
{
  std::vector<float> r;
  for (size_t i = 0; i < n; ++i)
  {
    double a = th + a0 + inc * static_cast<double>(i), c = std::cos(a), s = std::sin(a), d = 1e9;
    if (c > 1e-9) d = std::min(d, (4 - x) / c);
    if (c < -1e-9) d = std::min(d, (-4 - x) / c);
    if (s > 1e-9) d = std::min(d, (3 - y) / s);
    if (s < -1e-9) d = std::min(d, (-3 - y) / s);
    r.push_back(static_cast<float>(d));
  }
  return r;
}
void overrides(const simros::Params & o) { overrides_ = o; }
Node::Node(const simros::Params & o)
{
  is_ok = true; eps.clear(); params.clear(); overrides_ = o;
  node = factory(rclcpp::NodeOptions());
}
Node::~Node() { node.reset(); is_ok = false; }
bool Node::has(const std::string & t) { for (auto & e : eps) if (e->name == t) return true; return false; }
static simros::Endpoint & ep(const std::string & t)
{ for (auto & e : eps) if (e->name == t) return *e; std::printf("no endpoint %s\n", t.c_str()); std::exit(3); }
static builtin_interfaces::msg::Time stamp(double t)
{ builtin_interfaces::msg::Time s; s.sec = static_cast<int>(std::floor(t)); s.nanosec = static_cast<unsigned>((t - std::floor(t)) * 1e9); return s; }
void Node::scan(double t, const std::vector<float> & r, double a0, double inc, double time_inc, double rmin, double rmax)
{
  auto m = std::make_shared<sensor_msgs::msg::LaserScan>();
  m->header.stamp = stamp(t); m->header.frame_id = "laser";
  m->angle_min = static_cast<float>(a0); m->angle_increment = static_cast<float>(inc);
  m->angle_max = static_cast<float>(a0 + inc * static_cast<double>(r.size() - 1)); m->time_increment = static_cast<float>(time_inc);
  m->range_min = static_cast<float>(rmin); m->range_max = static_cast<float>(rmax); m->ranges = r;
  ep("scan").on_msg(m);
}
void Node::pose(double x, double y, double th, double var)
{
  auto m = std::make_shared<geometry_msgs::msg::PoseWithCovarianceStamped>();
  m->header.frame_id = "map"; m->pose.pose.position.x = x; m->pose.pose.position.y = y;
  m->pose.pose.orientation.z = std::sin(th / 2); m->pose.pose.orientation.w = std::cos(th / 2);
  m->pose.covariance[0] = m->pose.covariance[7] = m->pose.covariance[35] = var;
  ep("initialpose").on_msg(m);
}
void Node::configure(unsigned a, const std::string & f)
{
  auto q = std::make_shared<ndt_2d::srv::Configure::Request>();
  q->action = static_cast<decltype(q->action)>(a); q->filename = f;
  ep("configure").on_req(q, ep("configure").make_response());
}
}  // namespace demo
PLUGINLIB_EXPORT_CLASS(demo::Matcher, ndt_2d::ScanMatcher)

namespace simros
{
using namespace demo;
void register_node(const char *, NodeFactory f) { factory = f; }
bool ok() { return is_ok; }
void shutdown() { is_ok = false; }
void point(int) {}
i64 sim_now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
i64 ros_now() { if (hook) hook("now"); return sim_now(); }
void sleep_ns(i64 d) { if (hook) hook("sleep"); std::this_thread::sleep_for(std::chrono::nanoseconds(d)); }
void log(int level, const char * fmt, ...)
{
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (hook) hook(std::string("log ") + b);
  std::lock_guard<std::mutex> l(mtx); logs.push_back({level, b});
  if (std::getenv("DEMO_LOG")) std::printf("[%d] %s\n", level, b);
}
void publish(const std::string &, const std::type_info & t, const void * m)
{
  if (hook) hook("publish");
  std::lock_guard<std::mutex> l(mtx);
  if (t == typeid(nav_msgs::msg::OccupancyGrid)) maps.push_back(*static_cast<const nav_msgs::msg::OccupancyGrid *>(m));
  if (t == typeid(visualization_msgs::msg::MarkerArray)) graphs.push_back(*static_cast<const visualization_msgs::msg::MarkerArray *>(m));
  if (t == typeid(geometry_msgs::msg::PoseArray)) clouds.push_back(*static_cast<const geometry_msgs::msg::PoseArray *>(m));
}
void tf_broadcast(const void * m) { if (hook) hook("tf"); std::lock_guard<std::mutex> l(mtx); tfs.push_back(*static_cast<const geometry_msgs::msg::TransformStamped *>(m)); }
void add_endpoint(void *, const std::shared_ptr<Endpoint> & e) { while (!e->name.empty() && (e->name[0] == '/' || e->name[0] == '~')) e->name.erase(0, 1); eps.push_back(e); }
void remove_node(void *) { eps.clear(); }
void node_created(void *, const std::string &) {}
Value param_get(void *, const std::string & n, bool & f) { auto i = params.find(n); f = i != params.end(); return f ? i->second : Value(); }
bool param_has(void *, const std::string & n) { return params.count(n) > 0; }
void param_set(void *, const std::string & n, const Value & v) { params[n] = v; }
void param_declare(void *, const std::string & n, const Value & d)
{
  if (params.count(n)) throw rclcpp::exceptions::ParameterAlreadyDeclaredException(n);
  auto o = overrides_.find(n);
  params[n] = o == overrides_.end() ? d : o->second;
}
struct Handle { std::string uri; size_t pos = 0; bool bad = false; std::vector<BagMsg> w; };
static std::vector<Handle> handles;
static bool fault(const char * op, const std::string & w) { return bag_fault && bag_fault(op, w); }
int bag_writer_open(const std::string & uri)
{
  if (fault("open", uri)) throw std::runtime_error("cannot create " + uri);
  std::lock_guard<std::mutex> l(mtx);
  if (disk.count(uri)) throw std::runtime_error("already exists: " + uri);
  Handle h; h.uri = uri; handles.push_back(h);
  disk[uri];
  return static_cast<int>(handles.size()) - 1;
}
void bag_write(int h, const BagMsg & m)
{
  if (fault("write", m.topic)) { handles[static_cast<size_t>(h)].bad = true; throw std::runtime_error("disk I/O error"); }
  std::lock_guard<std::mutex> l(mtx);
  disk[handles[static_cast<size_t>(h)].uri].push_back(m);
}
void bag_close(int) {}
int bag_reader_open(const std::string & uri)
{
  if (fault("ropen", uri)) throw std::runtime_error("cannot open " + uri);
  std::lock_guard<std::mutex> l(mtx);
  if (!disk.count(uri)) throw std::runtime_error("no such bag: " + uri);
  Handle h; h.uri = uri; handles.push_back(h);
  return static_cast<int>(handles.size()) - 1;
}
bool bag_has_next(int h) { std::lock_guard<std::mutex> l(mtx); Handle & x = handles[static_cast<size_t>(h)]; return x.pos < disk[x.uri].size(); }
BagMsg bag_read(int h)
{
  if (fault("read", handles[static_cast<size_t>(h)].uri)) throw std::runtime_error("disk I/O error");
  std::lock_guard<std::mutex> l(mtx); Handle & x = handles[static_cast<size_t>(h)]; return disk[x.uri].at(x.pos++);
}
std::vector<std::pair<std::string, std::string>> bag_topics(int h)
{
  std::lock_guard<std::mutex> l(mtx); std::vector<std::pair<std::string, std::string>> r; std::set<std::string> seen;
  for (auto & m : disk[handles[static_cast<size_t>(h)].uri]) if (seen.insert(m.topic).second) r.push_back({m.topic, m.type});
  return r;
}
void bag_reader_close(int) {}
static std::map<std::string, PluginFactory> & plugins() { static std::map<std::string, PluginFactory> m; return m; }
void register_plugin(const std::string & c, const std::string & b, PluginFactory f) { plugins()[c + "|" + b] = f; }
std::shared_ptr<void> create_plugin(const std::string & c, const std::string & b)
{
  auto i = plugins().find(c + "|" + b);
  if (i == plugins().end()) return nullptr;
  return std::shared_ptr<void>(i->second(), [](void *) {});
}
static Tf mul(const Tf & a, const Tf & b)
{
  Tf r;
  double tx = 2 * (a.qy * b.z - a.qz * b.y), ty = 2 * (a.qz * b.x - a.qx * b.z), tz = 2 * (a.qx * b.y - a.qy * b.x);
  r.x = a.x + b.x + a.qw * tx + a.qy * tz - a.qz * ty;
  r.y = a.y + b.y + a.qw * ty + a.qz * tx - a.qx * tz;
  r.z = a.z + b.z + a.qw * tz + a.qx * ty - a.qy * tx;
  r.qw = a.qw * b.qw - a.qx * b.qx - a.qy * b.qy - a.qz * b.qz;
  r.qx = a.qw * b.qx + a.qx * b.qw + a.qy * b.qz - a.qz * b.qy;
  r.qy = a.qw * b.qy - a.qx * b.qz + a.qy * b.qw + a.qz * b.qx;
  r.qz = a.qw * b.qz + a.qx * b.qy - a.qy * b.qx + a.qz * b.qw;
  return r;
}
}  // namespace simros

namespace rclcpp
{
Node::Node(const std::string & name, const NodeOptions &) : name_(name), clock_(std::make_shared<Clock>(RCL_ROS_TIME)) {}
Node::Node(const std::string & name, const std::string &, const NodeOptions &) : name_(name), clock_(std::make_shared<Clock>(RCL_ROS_TIME)) {}
Node::~Node() {}
}
namespace tf2
{
void doTransform(const geometry_msgs::msg::Pose & in, geometry_msgs::msg::Pose & out, const geometry_msgs::msg::TransformStamped & ts)
{
  simros::Tf t, p; t.x = ts.transform.translation.x; t.y = ts.transform.translation.y; t.z = ts.transform.translation.z;
  t.qx = ts.transform.rotation.x; t.qy = ts.transform.rotation.y; t.qz = ts.transform.rotation.z; t.qw = ts.transform.rotation.w;
  p.x = in.position.x; p.y = in.position.y; p.z = in.position.z;
  p.qx = in.orientation.x; p.qy = in.orientation.y; p.qz = in.orientation.z; p.qw = in.orientation.w;
  simros::Tf r = simros::mul(t, p);
  out.position.x = r.x; out.position.y = r.y; out.position.z = r.z;
  out.orientation.x = r.qx; out.orientation.y = r.qy; out.orientation.z = r.qz; out.orientation.w = r.qw;
}
void sim_do_transform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out, const geometry_msgs::msg::TransformStamped & t)
{ doTransform(in.pose, out.pose, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id; }
void sim_do_transform(const geometry_msgs::msg::PointStamped & in, geometry_msgs::msg::PointStamped & out, const geometry_msgs::msg::TransformStamped & t)
{ geometry_msgs::msg::Pose p, q; p.position = in.point; doTransform(p, q, t); out.point = q.position; out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id; }
}
namespace tf2_ros
{
Buffer::Buffer(rclcpp::Clock::SharedPtr, tf2::Duration) : created_(0) {}

geometry_msgs::msg::TransformStamped Buffer::lookup(const std::string & target, const std::string & source, int64_t st, int64_t, bool) const
{
  geometry_msgs::msg::TransformStamped t;
  t.header.frame_id = target; t.child_frame_id = source;
  t.header.stamp.sec = static_cast<int32_t>(st / 1000000000LL); t.header.stamp.nanosec = static_cast<uint32_t>(st % 1000000000LL);
  if (source == "laser")
  {
    if (demo::laser_known && !demo::laser_known()) throw tf2::LookupException("no frame laser");
    t.transform.translation.x = demo::laser.x; t.transform.translation.y = demo::laser.y; t.transform.translation.z = demo::laser.z;
    t.transform.rotation.x = demo::laser.qx; t.transform.rotation.y = demo::laser.qy; t.transform.rotation.z = demo::laser.qz; t.transform.rotation.w = demo::laser.qw;
    return t;
  }
  double s = static_cast<double>(st) * 1e-9, x = 0, y = 0, th = 0;
  if (st == 0) s = demo::latest; else demo::latest = std::max(demo::latest, s);
  if (demo::odom && !demo::odom(s, x, y, th)) throw tf2::ExtrapolationException("no transform at that time");
  t.transform.translation.x = x; t.transform.translation.y = y;
  t.transform.rotation.z = std::sin(th / 2); t.transform.rotation.w = std::cos(th / 2);
  return t;
}
bool Buffer::canTransform(const std::string &, const std::string &, const tf2::TimePoint &, const tf2::Duration, std::string *) const { return true; }
}

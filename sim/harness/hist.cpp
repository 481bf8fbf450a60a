#include "hist.hpp"
#include <rclcpp/serialization.hpp>
#include <ndt_2d/msg/scan.hpp>
#include <ndt_2d/msg/constraint.hpp>
#include <cstring>
Hist H;
std::string g_prop;
bool deciding(const char * prop)
{
  if (g_prop == "*") return true;
  std::string p = prop;
  size_t i = 0;
  while (i < p.size())
  {
    size_t e = p.find(',', i); if (e == std::string::npos) e = p.size();
    if (p.compare(i, e - i, g_prop) == 0) return true;
    i = e + 1;
  }
  return false;
}
void chk(const char * prop, bool cond, const std::string & klass, const std::string & what)
{
  if (cond || !deciding(prop)) return;
  sim::fail_run(klass, what);
}
std::string pstr(const P2 & p) { char b[120]; snprintf(b, sizeof b, "(%.9g, %.9g, %.9g)", p.x, p.y, p.th); return b; }
static bool beq(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b || (std::isnan(a) && std::isnan(b)); }
bool same_pose(const P2 & a, const P2 & b) { return beq(a.x, b.x) && beq(a.y, b.y) && beq(a.th, b.th); }
bool same_scan(const ScanRec & a, const ScanRec & b, bool pose)
{
  if (a.id != b.id || a.pts.size() != b.pts.size()) return false;
  if (pose && !same_pose(a.pose, b.pose)) return false;
  for (size_t i = 0; i < a.pts.size(); ++i) if (!beq(a.pts[i][0], b.pts[i][0]) || !beq(a.pts[i][1], b.pts[i][1])) return false;
  return true;
}
bool same_con(const ConRec & a, const ConRec & b)
{
  if (a.begin != b.begin || a.end != b.end || a.sw != b.sw) return false;
  for (int i = 0; i < 3; ++i) if (!beq(a.t[i], b.t[i])) return false;
  for (int i = 0; i < 9; ++i) if (!beq(a.info[i], b.info[i])) return false;
  return true;
}
bool same_snap(const Snap & a, const Snap & b, std::string * why)
{
  char s[160];
  if (a.scans.size() != b.scans.size() || a.cons.size() != b.cons.size())
  {
    snprintf(s, sizeof s, "%zu scans/%zu constraints versus %zu/%zu", a.scans.size(), a.cons.size(), b.scans.size(), b.cons.size());
    if (why) *why = s;
    return false;
  }
  for (size_t i = 0; i < a.scans.size(); ++i)
    if (!same_scan(a.scans[i], b.scans[i]))
    {
      snprintf(s, sizeof s, "scan #%zu differs: id %llu/%llu, %zu/%zu points, pose ", i, static_cast<unsigned long long>(a.scans[i].id),
               static_cast<unsigned long long>(b.scans[i].id), a.scans[i].pts.size(), b.scans[i].pts.size());
      if (why) *why = s + pstr(a.scans[i].pose) + " / " + pstr(b.scans[i].pose);
      return false;
    }
  for (size_t i = 0; i < a.cons.size(); ++i)
    if (!same_con(a.cons[i], b.cons[i]))
    {
      snprintf(s, sizeof s, "constraint #%zu differs (%lld->%lld / %lld->%lld)", i, static_cast<long long>(a.cons[i].begin),
               static_cast<long long>(a.cons[i].end), static_cast<long long>(b.cons[i].begin), static_cast<long long>(b.cons[i].end));
      if (why) *why = s;
      return false;
    }
  return true;
}
Snap decode_bag(const std::string & uri)
{
  Snap s;
  auto b = simros::disk.find(uri);
  if (b == simros::disk.end() || !b->second.complete) return s;
  s.ok = true;
  for (auto & m : b->second.msgs)
  {
    simros::InAr ar(m.data.data(), m.data.size());
    if (m.topic == "scans")
    {
      ndt_2d::msg::Scan x; x.sim_visit(ar);
      ScanRec r; r.id = x.id; r.pose = P2{x.pose.position.x, x.pose.position.y, x.pose.orientation.w};
      for (auto & p : x.points) r.pts.push_back({p.x, p.y});
      s.scans.push_back(std::move(r));
    }
    else
    {
      ndt_2d::msg::Constraint x; x.sim_visit(ar);
      ConRec c; c.begin = x.begin; c.end = x.end; c.sw = x.switchable;
      c.t[0] = x.transform.translation.x; c.t[1] = x.transform.translation.y; c.t[2] = x.transform.translation.z;
      for (int i = 0; i < 9; ++i) c.info[i] = x.information[static_cast<size_t>(i)];
      s.cons.push_back(c);
    }
    if (ar.bad) s.ok = false;
  }
  return s;
}
Graphed decode_graph(const visualization_msgs::msg::MarkerArray & m)
{
  Graphed g;
  std::map<std::pair<std::string, int>, int> seen;
  for (auto & k : m.markers)
  {
    if (++seen[{k.ns, k.id}] > 1) { g.bad = true; g.why = "two markers share namespace " + k.ns + " and id " + std::to_string(k.id); }
    if (k.points.empty())
    {
      g.nodes[k.id] = P2{k.pose.position.x, k.pose.position.y, 0};
    }
    else if (k.points.size() == 2)
    {
      Graphed::E e; e.a = P2{k.points[0].x, k.points[0].y, 0}; e.b = P2{k.points[1].x, k.points[1].y, 0}; e.id = k.id;
      e.sw = k.color.g > k.color.b;
      g.edges.push_back(e);
    }
    else { g.bad = true; g.why = "an edge marker with " + std::to_string(k.points.size()) + " points"; }
    if (k.header.frame_id != "map") { g.bad = true; g.why = "a marker outside the map frame"; }
  }
  return g;
}

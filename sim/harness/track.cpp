// C29: the whole system in a simulated room - does the pose it publishes follow the robot, and do the walls of
// its map stand where the walls of the room are?
#include "model.hpp"
#include <algorithm>
#include <cstring>
using sim::SEC; using sim::MS;

namespace
{
Plan T;                         // the plan with the parameters of the current incarnation
double wall_distance(double x, double y)
{
  double best = 1e9;
  for (auto & s : W.segs)
  {
    double ex = s.x1 - s.x0, ey = s.y1 - s.y0, l2 = ex * ex + ey * ey;
    double f = l2 > 0 ? std::min(1.0, std::max(0.0, ((x - s.x0) * ex + (y - s.y0) * ey) / l2)) : 0;
    best = std::min(best, std::hypot(x - s.x0 - f * ex, y - s.y0 - f * ey));
  }
  return best;
}
struct Bound { double lin, ang; };
struct Track
{
  const Plan & p;
  std::string mode = "map";
  size_t i_tf = 0;
  i64 from = -1;                // transforms are judged from here on
  bool origin = false;
  double worst = 0, worst_a = 0;
  explicit Track(const Plan & q) : p(q) {}
  void boot(const std::string & m, const std::string & file)
  {
    mode = m; T = p;
    if (m == "map" && !file.empty()) {}
    if (m == "track") T.pb("enable_mapping", false);
    if (m == "pf") { T.pb("enable_mapping", false); T.pb("use_particle_filter", true); }
    g_plan = &T;
    node_boot(file);
    from = -1;
    if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not start");
    if (simros::proc(g_group).ctor_failed) sim::fail_run("exception", "the node could not be constructed: " + simros::proc(g_group).ctor_error);
  }
  Bound bound() const
  {
    if (mode == "pf") return Bound{p.num("tol_pf", 0.6), p.num("tol_pf_a", 0.5)};
    return Bound{p.num("tol", 0.45), p.num("tol_a", 0.25)};
  }
  void judge()
  {
    for (; i_tf < H.tfs.size(); ++i_tf)
    {
      const TfRec & t = H.tfs[i_tf];
      if (t.group != g_group || from < 0 || t.t < from) continue;
      bool ok; P2 o = odom_lookup(0, ok);
      // the odometry the robot has at that time
      double at = static_cast<double>(t.t - W.t0) * 1e-9;
      P2 tr = in_map(W.truth(at));
      simros::Tf q; i64 os; std::string e;
      i64 now = t.t - static_cast<i64>(0.1e9);
      if (simros::tf_lookup(0, W.odom, W.base, now, q, os, e)) continue;
      tr = in_map(W.truth(static_cast<double>(now - W.t0) * 1e-9));
      o = tf2p(q);
      P2 r = mulp(t.tf, o);
      double d = std::hypot(r.x - tr.x, r.y - tr.y), a = std::fabs(wrap(r.th - tr.th));
      worst = std::max(worst, d); worst_a = std::max(worst_a, a);
      Bound b = bound();
      sim::count("probe_poses_compared_with_truth");
      char s[300]; snprintf(s, sizeof s, "%.3f s after the start (%s) the published transform puts the robot at (%.3f, %.3f, %.3f), it is at (%.3f, %.3f, %.3f): off by %.3f m and %.3f rad", at,
        mode.c_str(), r.x, r.y, r.th, tr.x, tr.y, tr.th, d, a);
      sim::log_event("ERR %.4f %.4f", d, a);
      chk("C29", d <= b.lin && a <= b.ang, "lost", s);
    }
  }
  void walls()
  {
    const GridRec * g = nullptr;
    for (auto i = H.grids.rbegin(); i != H.grids.rend(); ++i) if (i->group == g_group) { g = &*i; break; }
    if (!g) return;
    const auto & m = g->m;
    double res = static_cast<double>(m.info.resolution);
    size_t occ = 0, good = 0;
    double far = 0;
    for (unsigned y = 0; y < m.info.height; ++y)
      for (unsigned x = 0; x < m.info.width; ++x)
        if (m.data[y * m.info.width + x] == 100)
        {
          P2 c = mulp(g_map_origin, P2{m.info.origin.position.x + (x + 0.5) * res, m.info.origin.position.y + (y + 0.5) * res, 0});
          double d = wall_distance(c.x, c.y);
          ++occ;
          if (d <= res + 0.1) ++good;
          far = std::max(far, d);
        }
    sim::log_event("WALLS %zu of %zu far %.3f", good, occ, far);
    if (occ >= 20)
    {
      sim::count("probe_walls_compared_with_truth");
      char s[200]; snprintf(s, sizeof s, "of the %zu occupied cells of the published map, only %zu are within %.2f m of a wall of the room (the farthest is off by %.2f m)", occ, good, res + 0.1, far);
      chk("C29", static_cast<double>(good) >= 0.75 * static_cast<double>(occ), "walls", s);
    }
  }
};
}
void run_track(const Plan & p)
{
  node_setup(p);
  Track t(p);
  t.boot("map", "");
  for (auto & o : p.ops)
  {
    if (o.kind == "way" || o.kind == "tfgap" || o.kind == "tflate") continue;
    i64 at = W.t0 + o.t * 1000;
    if (at > sim::now()) sim::sleep_until(at);
    t.judge();
    if (o.kind == "scan")
    {
      u64 id = send_scan(o, false);
      if (!t.origin && !H.scans[id].dropped)
      {
        // the first scan of a new map defines its origin
        if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not finish handling the first scan");
        g_map_origin = W.truth(static_cast<double>(H.scans[id].stamp - W.t0) * 1e-9);
        t.origin = true; t.from = sim::now();
      }
    }
    else if (o.kind == "pose")
    {
      send_pose(o);
      if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not finish handling an initial pose");
      t.from = sim::now() + 300 * MS;
    }
    else if (o.kind == "save") { u64 id = send_req(8, o.str("file")); wait_req(id, 600 * SEC); }
    else if (o.kind == "load") { t.from = -1; u64 id = send_req(4, o.str("file")); wait_req(id, 600 * SEC); }
    else if (o.kind == "disable") { t.from = -1; t.mode = "track"; u64 id = send_req(2, ""); wait_req(id, 600 * SEC); }
    else if (o.kind == "enable") { t.mode = "map"; u64 id = send_req(1, ""); wait_req(id, 600 * SEC); }
    else if (o.kind == "crash") { t.walls(); crash_node(); }
    else if (o.kind == "boot") t.boot(o.str("mode", "map"), o.str("file"));
    else if (!common_op(o)) sim::harness_error("unknown operation " + o.kind);
  }
  sim::sleep_for(3 * SEC);
  if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not finish handling the last input");
  sim::sleep_for(2 * SEC);
  t.judge();
  t.walls();
  for (double v : {0.02, 0.05, 0.1, 0.2, 0.4}) if (t.worst > v) { char s[60]; snprintf(s, sizeof s, "track_worst_over_%03d_mm", static_cast<int>(v * 1000)); sim::count(s); }
  for (double v : {0.02, 0.05, 0.1, 0.2, 0.4}) if (t.worst_a > v) { char s[60]; snprintf(s, sizeof s, "track_worst_over_%03d_mrad", static_cast<int>(v * 1000)); sim::count(s); }
  simros::request_shutdown(g_group);
  sim::sleep_for(3 * SEC);
}

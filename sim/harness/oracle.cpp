// Oracles for published grids and graph markers.
#include "model.hpp"
#include <algorithm>
#include <cstring>

namespace
{
typedef std::pair<int, int> C2;
// cells touched by a ray between two cells, end cell last
void walk(int sx0, int sy0, int ex, int ey, bool dependent, std::vector<C2> & out)
{
  out.clear();
  int dx = std::abs(ex - sx0), sx = sx0 < ex ? 1 : -1, dy = -std::abs(ey - sy0), sy = sy0 < ey ? 1 : -1, err = dx + dy, x = sx0, y = sy0;
  for (int guard = 0; guard < 200000; ++guard)
  {
    out.push_back({x, y});
    if (x == ex && y == ey) return;
    int e2 = 2 * err;
    if (e2 >= dy) { if (x == ex) return; err += dy; x += sx; }
    if (dependent) e2 = 2 * err;
    if (e2 <= dx) { if (y == ey) return; err += dx; y += sy; }
  }
}
struct Ray { int sx, sy, ex, ey; bool unclear; };
}  // namespace

std::string grid_diff(const nav_msgs::msg::OccupancyGrid & g, const Snap & s, double occ, double res)
{
  char b[300];
  double ox = g.info.origin.position.x, oy = g.info.origin.position.y;
  i64 w = g.info.width, h = g.info.height;
  if (std::fabs(static_cast<double>(g.info.resolution) - res) > 1e-6)
  { snprintf(b, sizeof b, "its resolution is %.6g, configured is %.6g", static_cast<double>(g.info.resolution), res); return b; }
  if (!std::isfinite(ox) || !std::isfinite(oy)) return "its origin is not finite";
  if (g.info.origin.orientation.z != 0 || std::fabs(g.info.origin.orientation.w) != 1) return "its origin is rotated";
  if (g.header.frame_id != "map") return "it is in frame " + g.header.frame_id;
  if (static_cast<i64>(g.data.size()) != w * h) { snprintf(b, sizeof b, "it has %zu cells for a size of %lldx%lld", g.data.size(), static_cast<long long>(w), static_cast<long long>(h)); return b; }
  std::vector<Ray> rays;
  const double eps = 1e-5;
  auto cell = [&](double v, double o, bool & unclear) {
      double c = (v - o) / res;
      if (std::fabs(c - std::round(c)) < eps) unclear = true;
      return static_cast<int>(std::floor(c));
    };
  for (auto & sc : s.scans)
  {
    double c = std::cos(sc.pose.th), n = std::sin(sc.pose.th);
    bool u0 = false;
    int sx = cell(sc.pose.x, ox, u0), sy = cell(sc.pose.y, oy, u0);
    // scans without points do not have to be covered, but every scan pose does
    if (sc.pose.x < ox - 1e-9 || sc.pose.y < oy - 1e-9 || sc.pose.x > ox + static_cast<double>(w) * res + 1e-9 || sc.pose.y > oy + static_cast<double>(h) * res + 1e-9)
    { snprintf(b, sizeof b, "scan %llu at (%.6g, %.6g) lies outside of the grid", static_cast<unsigned long long>(sc.id), sc.pose.x, sc.pose.y); return b; }
    for (auto & p : sc.pts)
    {
      double x = p[0] * c - p[1] * n + sc.pose.x, y = p[0] * n + p[1] * c + sc.pose.y;
      bool u = u0;
      int ex = cell(x, ox, u), ey = cell(y, oy, u);
      if (x < ox - 1e-9 || y < oy - 1e-9 || x > ox + static_cast<double>(w) * res + 1e-9 || y > oy + static_cast<double>(h) * res + 1e-9)
      { snprintf(b, sizeof b, "point (%.6g, %.6g) of scan %llu lies outside of the grid [%.6g..%.6g]x[%.6g..%.6g]", x, y, static_cast<unsigned long long>(sc.id), ox, ox + static_cast<double>(w) * res, oy, oy + static_cast<double>(h) * res); return b; }
      rays.push_back(Ray{sx, sy, ex, ey, u});
    }
  }
  size_t n = g.data.size();
  auto at = [&](int x, int y) -> i64 { return x < 0 || y < 0 || x >= w || y >= h ? -1 : x + y * w; };
  auto value = [&](int hit, int touch) { return touch == 0 ? -1 : static_cast<double>(hit) / static_cast<double>(touch) > occ ? 100 : 0; };
  {
    std::vector<C2> cs;
    for (int variant = 0; variant < 2; ++variant)
    {
      std::vector<int> hit(n, 0), touch(n, 0);
      for (auto & r : rays)
      {
        walk(r.sx, r.sy, r.ex, r.ey, variant == 0, cs);
        for (auto & q : cs) { i64 i = at(q.first, q.second); if (i >= 0) ++touch[static_cast<size_t>(i)]; }
        i64 i = at(r.ex, r.ey); if (i >= 0) ++hit[static_cast<size_t>(i)];
      }
      bool same = true;
      for (size_t i = 0; i < n && same; ++i) if (value(hit[i], touch[i]) != g.data[i]) same = false;
      if (same) return "";
    }
  }
  // tolerant: which cells a ray must and may touch, whatever line drawing is used
  std::vector<int> hlo(n, 0), hhi(n, 0), tlo(n, 0), thi(n, 0);
  for (auto & r : rays)
  {
    double dx = r.ex - r.sx, dy = r.ey - r.sy, len = std::hypot(dx, dy);
    int pad = r.unclear ? 3 : 2;
    int x0 = std::min(r.sx, r.ex) - pad, x1 = std::max(r.sx, r.ex) + pad, y0 = std::min(r.sy, r.ey) - pad, y1 = std::max(r.sy, r.ey) + pad;
    for (int y = y0; y <= y1; ++y)
      for (int x = x0; x <= x1; ++x)
      {
        i64 i = at(x, y);
        if (i < 0) continue;
        size_t k = static_cast<size_t>(i);
        double along = len > 0 ? ((x - r.sx) * dx + (y - r.sy) * dy) / len : 0;
        double off = len > 0 ? std::fabs((x - r.sx) * dy - (y - r.sy) * dx) / len : std::hypot(x - r.sx, y - r.sy);
        double lim = r.unclear ? 2.6 : 1.3;
        bool end = x == r.ex && y == r.ey;
        if (off <= lim && along >= -lim && along <= len + lim) ++thi[k];
        if (r.unclear) { if (std::abs(x - r.ex) <= 1 && std::abs(y - r.ey) <= 1) ++hhi[k]; continue; }
        if (end) { ++hlo[k]; ++hhi[k]; ++tlo[k]; }
        else if (off <= 0.3 && along >= 0 && along <= len) ++tlo[k];
      }
  }
  for (size_t k = 0; k < n; ++k)
  {
    int v = g.data[k];
    bool may_unknown = tlo[k] == 0, may_free, may_occ;
    // share = hits / touches with hits in [hlo,hhi], touches in [max(tlo,hits), thi]
    double lo = thi[k] ? static_cast<double>(hlo[k]) / std::max(thi[k], hlo[k]) : 0;
    double hi = hhi[k] ? static_cast<double>(hhi[k]) / std::max({tlo[k] + (hhi[k] - hlo[k]), hhi[k], 1}) : 0;
    // (a threshold that is a binary fraction is compared exactly)
    const double eps = occ * 64 == std::floor(occ * 64) ? 0 : 1e-12;
    may_free = thi[k] > 0 && !(lo > occ + eps);
    may_occ = hhi[k] > 0 && (eps > 0 ? hi > occ - eps : hi > occ);
    if ((v == -1 && may_unknown) || (v == 0 && may_free) || (v == 100 && may_occ)) continue;
    snprintf(b, sizeof b, "cell (%lld, %lld) is %d, but %d..%d of %d..%d rays touching it end in it (threshold %.4g, %zu scans)", static_cast<long long>(static_cast<i64>(k) % w),
             static_cast<long long>(static_cast<i64>(k) / w), v, hlo[k], hhi[k], tlo[k], thi[k], occ, s.scans.size());
    return b;
  }
  return "";
}
void check_grid(const char * prop, const nav_msgs::msg::OccupancyGrid & g, const Snap & s, double occ, double res, const std::string & when)
{
  if (!deciding(prop)) return;
  sim::count("probe_grids_checked");
  std::string d = grid_diff(g, s, occ, res);
  if (!d.empty()) chk(prop, false, "grid", "grid " + std::to_string(g.info.width) + "x" + std::to_string(g.info.height) + " " + when + ": " + d);
}
void check_graph(const char * prop, const visualization_msgs::msg::MarkerArray & m, const Snap & s, const std::string & when)
{
  if (!deciding(prop)) return;
  sim::count("probe_graphs_checked");
  Graphed g = decode_graph(m);
  char b[240];
  chk(prop, !g.bad, "graph-odd", "graph " + when + ": " + g.why);
  if (g.nodes.size() != s.scans.size())
  { snprintf(b, sizeof b, "graph %s has %zu nodes, the map has %zu scans", when.c_str(), g.nodes.size(), s.scans.size()); chk(prop, false, "graph-nodes", b); return; }
  for (auto & sc : s.scans)
  {
    auto i = g.nodes.find(static_cast<int>(sc.id));
    if (i == g.nodes.end()) { snprintf(b, sizeof b, "graph %s has no node for scan %llu", when.c_str(), static_cast<unsigned long long>(sc.id)); chk(prop, false, "graph-nodes", b); return; }
    if (std::fabs(i->second.x - sc.pose.x) > 1e-9 || std::fabs(i->second.y - sc.pose.y) > 1e-9)
    { snprintf(b, sizeof b, "graph %s shows scan %llu at (%.9g, %.9g), it is at (%.9g, %.9g)", when.c_str(), static_cast<unsigned long long>(sc.id), i->second.x, i->second.y, sc.pose.x, sc.pose.y); chk(prop, false, "graph-position", b); return; }
  }
  if (g.edges.size() != s.cons.size())
  { snprintf(b, sizeof b, "graph %s has %zu edges, the map has %zu constraints", when.c_str(), g.edges.size(), s.cons.size()); chk(prop, false, "graph-edges", b); return; }
  // edges in any order: match each constraint with an unused edge of its color
  std::vector<char> used(g.edges.size(), 0);
  for (size_t k = 0; k < s.cons.size(); ++k)
  {
    const ConRec & c = s.cons[k];
    const P2 & a = s.scans[static_cast<size_t>(c.begin)].pose, & e = s.scans[static_cast<size_t>(c.end)].pose;
    bool found = false;
    for (size_t t = 0; t < g.edges.size() && !found; ++t)
    {
      size_t j = (k + t) % g.edges.size();
      const auto & d = g.edges[j];
      auto near = [](const P2 & p, const P2 & q) { return std::fabs(p.x - q.x) < 1e-9 && std::fabs(p.y - q.y) < 1e-9; };
      if (!used[j] && d.sw == c.sw && ((near(d.a, a) && near(d.b, e)) || (near(d.a, e) && near(d.b, a)))) { used[j] = 1; found = true; }
    }
    if (!found)
    {
      snprintf(b, sizeof b, "graph %s has no %s edge for constraint %zu (%lld -> %lld) between the current positions of its scans", when.c_str(), c.sw ? "loop closure" : "odometry", k,
               static_cast<long long>(c.begin), static_cast<long long>(c.end));
      chk(prop, false, "graph-edges", b);
      return;
    }
  }
}

// C14: NDT cells against batch statistics; C13: the scan matcher against its own search window.
#include "comp.hpp"
#include <Eigen/Dense>
#include <ndt_2d/ndt_model.hpp>
#include <ndt_2d/scan_matcher_ndt.hpp>
#include <simctl.hpp>
#include <array>
#include <memory>
using ndt_2d::Cell; using ndt_2d::NDT; using ndt_2d::Scan; using ndt_2d::ScanPtr; using ndt_2d::Point; using ndt_2d::Pose2d;
typedef std::array<double, 2> V2;
static const double BAD[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e20, -1e12, 4.3e9};

// ---- reference of one cell
struct RefCell
{
  std::vector<V2> pts;
  bool taint = false;      // a point near its border may or may not be in it
  bool dirty = true;       // points added since the last compute
  bool never = true;       // not computed yet
};
struct Val { double v = 0, tol = 0; bool known = false; double alt = 0; bool any = false; };   // any: only [0,1] is certain
static Val ref_score(const RefCell & c, double x, double y)
{
  Val r;
  size_t n = c.pts.size();
  if (c.taint) { r.any = true; return r; }
  if (n < 5) return r;
  if (c.dirty) { r.any = true; return r; }
  long double mx = 0, my = 0, cm = 0;
  for (auto & p : c.pts) { mx += p[0]; my += p[1]; cm = std::max<long double>(cm, std::max(std::fabs(p[0]), std::fabs(p[1]))); }
  mx /= n; my /= n;
  long double a = 0, b = 0, d = 0;
  for (auto & p : c.pts) { a += (p[0] - mx) * (p[0] - mx); b += (p[0] - mx) * (p[1] - my); d += (p[1] - my) * (p[1] - my); }
  a /= (n - 1); b /= (n - 1); d /= (n - 1);
  long double h = (a + d) / 2, s = std::sqrt((a - d) * (a - d) / 4 + b * b), L = h + s, S = h - s;
  long double dm = (8.0L + n) * 1.2e-16L * (cm + 1e-3L);          // error of a running mean
  long double dc = (16.0L + 2 * n) * 1.2e-16L * cm * cm + 1e-30L;  // error of the running covariance
  if (L == 0 || (L < 1e-26 && dc < 2e-13)) { if (dc < 2e-13) return r; r.any = true; return r; }
  if (L < 1e-10 || L < 1e6 * dc) { r.any = true; return r; }
  long double qx = x - mx, qy = y - my;
  long double I00, I01, I11, A00 = 0, A01 = 0, A11 = 0;
  long double thr = 0.001L * L;
  if (std::fabs(S - thr) < 8 * dc + 1e-9L * thr) { r.any = true; return r; }
  if (S > thr)
  {
    long double det = a * d - b * b;
    I00 = d / det; I01 = -b / det; I11 = a / det;
  }
  else
  {
    // eigenvector of L
    long double vx, vy;
    if (s < 1e-3L * L) { r.any = true; return r; }
    if (std::fabs(a - S) >= std::fabs(d - S)) { vx = a - S; vy = b; } else { vx = b; vy = d - S; }
    long double nn = std::sqrt(vx * vx + vy * vy); vx /= nn; vy /= nn;
    long double il = 1 / L, is = 1 / thr;
    I00 = il * vx * vx + is * vy * vy; I01 = (il - is) * vx * vy; I11 = il * vy * vy + is * vx * vx;
    r.known = true;
    A00 = d / (thr * L); A01 = -b / (thr * L); A11 = a / (thr * L);
  }
  auto eval = [&](long double P, long double Q, long double R, double & tol) {
    long double gx = P * qx + Q * qy, gy = Q * qx + R * qy, d2 = qx * gx + qy * gy;
    if (d2 < 0) d2 = 0;
    long double g = std::sqrt(gx * gx + gy * gy), q = std::sqrt(qx * qx + qy * qy);
    long double imax = std::max(P, R) * 2;
    long double t = 8 * dc * (g * g + imax * g * q) + 4 * g * (dm + 4e-16L * cm) + imax * (dm + 4e-16L * cm) * (dm + 4e-16L * cm) + 1e-9L * d2;
    if (S <= thr) t += 8 * dc * q * q / (thr * L) + 1e-9L * q * q * imax * 1e-3L;
    long double v = std::exp(-d2 / 2), lo = std::exp(-(d2 + t) / 2), hi = std::exp(-std::max(d2 - t, 0.0L) / 2);
    tol = static_cast<double>(std::max(v - lo, hi - v)) + 1e-12;
    return static_cast<double>(v);
  };
  r.v = eval(I00, I01, I11, r.tol);
  if (r.known) { double t2; r.alt = eval(A00, A01, A11, t2); r.tol = std::max(r.tol, t2); }
  if (!(r.tol < 0.2)) r.any = true;
  return r;
}
static std::string at(double x, double y) { return "(" + fnum(x) + ", " + fnum(y) + ")"; }
static bool value_ok(const Val & r, double got, bool & used_known)
{
  if (!(got >= 0.0 && got <= 1.0)) return false;
  if (r.any) return true;
  if (std::fabs(got - r.v) <= r.tol) return true;
  if (r.known && std::fabs(got - r.alt) <= r.tol) { used_known = true; return true; }
  return false;
}
static void expect(const Val & r, double got, const std::string & what)
{
  lognum(got);
  chk(got >= 0.0 && got <= 1.0, "likelihood-range", "likelihood " + fnum(got) + " of " + what + " is not within [0, 1]");
  bool k = false;
  bool ok = value_ok(r, got, k);
  chk(ok, "likelihood-value", "likelihood of " + what + " is " + fnum(got) + ", the points of the cell give " + fnum(r.v) + " (+-" + fnum(r.tol) + ")");
  if (k) known_or_fail("C14-clamp", "likelihood-clamp", "likelihood of " + what + " is " + fnum(got) + ", with the smaller variance limited to a thousandth of the larger it is " + fnum(r.v));
  sim::count(r.any ? "value_indeterminate" : "value_checked");
  if (!r.any && r.v > 1e-3 && r.v < 0.999) sim::count("probe_value_inside");
}

// ---- point shapes around a center
static void shape_points(sim::Rng & r, const std::string & shape, int n, double cx, double cy, double w, std::vector<V2> & out)
{
  double ang = r.p(0.3) ? 0.5 * M_PI * r.irange(0, 3) : r.range(-M_PI, M_PI), ca = std::cos(ang), sa = std::sin(ang);
  for (int i = 0; i < n; ++i)
  {
    double x = cx, y = cy;
    if (shape == "gauss") { x += 0.15 * w * r.gauss(); y += 0.1 * w * r.gauss(); }
    else if (shape == "line") { double t = r.range(-0.45, 0.45) * w; x += ca * t; y += sa * t; }
    else if (shape == "band") { double t = r.range(-0.45, 0.45) * w, u = r.range(-0.02, 0.02) * w; x += ca * t - sa * u; y += sa * t + ca * u; }
    else if (shape == "thin") { double t = r.range(-0.4, 0.4) * w, u = r.range(-0.1, 0.1) * w; x += ca * t - sa * u; y += sa * t + ca * u; }
    else if (shape == "same") {}
    else if (shape == "tiny") { x += 1e-4 * w * r.gauss(); y += 1e-4 * w * r.gauss(); }
    else if (shape == "lattice") { x += w * 0.25 * r.irange(-1, 1); y += w * 0.25 * r.irange(-1, 1); }
    else if (shape == "wide") { x += r.range(-3, 3) * w; y += r.range(-3, 3) * w; }
    else if (shape == "bad") { if (r.p(0.5)) x = BAD[r.below(8)]; else y = BAD[r.below(8)]; }
    out.push_back({x, y});
  }
}
static const char * SHAPES[] = {"gauss", "gauss", "thin", "thin", "band", "line", "same", "tiny", "lattice", "wide", "wide", "bad"};

void gen_ndt(Plan & p, sim::Rng & r)
{
  int n = r.irange(4, 26);
  bool cells = r.p(0.3);
  if (!cells) cop(p, "new", r);
  for (int i = 0; i < n; ++i)
  {
    double u = r.u();
    if (cells) { cop(p, "cell", r).set("n", r.irange(1, 60)).set("shape", SHAPES[r.below(11)]).set("scale", std::pow(10.0, r.range(-2, 1.3))); continue; }
    if (u < 0.03) cop(p, "new", r);
    else if (u < 0.45) cop(p, "add", r).set("n", r.p(0.4) ? r.irange(0, 6) : r.irange(1, 60)).set("shape", SHAPES[r.below(12)]);
    else if (u < 0.65) cop(p, "compute", r);
    else cop(p, "query", r).set("n", r.irange(1, 40)).set("how", r.irange(0, 3));
  }
  if (!cells) { cop(p, "compute", r); cop(p, "query", r).set("n", 60).set("how", r.irange(0, 3)); cop(p, "query", r).set("n", 60).set("how", 0); }
}
static void exec_cell(const Op & o)
{
  sim::Rng r = orng(o);
  Cell c;
  RefCell ref;
  double sc = o.num("scale", 1), cx = r.range(-1, 1) * sc, cy = r.range(-1, 1) * sc;
  int n = static_cast<int>(o.integer("n", 10));
  std::vector<V2> pts;
  shape_points(r, o.str("shape", "gauss"), n, cx, cy, sc * r.range(0.05, 1), pts);
  for (int i = 0; i < n; ++i)
  {
    c.addPoint(Eigen::Vector2d(pts[static_cast<size_t>(i)][0], pts[static_cast<size_t>(i)][1]));
    ref.pts.push_back(pts[static_cast<size_t>(i)]); ref.dirty = true;
    if (r.p(0.25) || i == n - 1)
    {
      c.compute(); ref.dirty = false; ref.never = false;
      if (r.p(0.2)) c.compute();
      size_t m = ref.pts.size();
      if (m >= 3)
      {
        long double mx = 0, my = 0, cm = 0;
        for (auto & p : ref.pts) { mx += p[0]; my += p[1]; cm = std::max<long double>(cm, std::max(std::fabs(p[0]), std::fabs(p[1]))); }
        mx /= m; my /= m;
        long double e[3] = {0, 0, 0};
        for (auto & p : ref.pts) { e[0] += (p[0] - mx) * (p[0] - mx); e[1] += (p[0] - mx) * (p[1] - my); e[2] += (p[1] - my) * (p[1] - my); }
        double t = static_cast<double>((16.0L + 2 * m) * 1.2e-16L * cm * cm) * 2 + 1e-28;
        for (auto & v : e) v /= (m - 1);
        bool ok = std::fabs(c.covariance(0, 0) - e[0]) <= t && std::fabs(c.covariance(1, 1) - e[2]) <= t && std::fabs(c.covariance(0, 1) - e[1]) <= t &&
          std::fabs(c.covariance(1, 0) - e[1]) <= t && std::fabs(c.mean(0) - mx) <= 1e-15 * static_cast<double>((8 + m) * (cm + 1e-3L)) && std::fabs(c.mean(1) - my) <= 1e-15 * static_cast<double>((8 + m) * (cm + 1e-3L));
        chk(ok, "cell-statistics", "mean/covariance of a cell with " + std::to_string(m) + " points are not those of its points: covariance " +
            fnum(c.covariance(0, 0)) + " " + fnum(c.covariance(0, 1)) + " " + fnum(c.covariance(1, 1)) + " instead of " + fnum(static_cast<double>(e[0])) + " " + fnum(static_cast<double>(e[1])) + " " + fnum(static_cast<double>(e[2])));
        sim::count("probe_cell_stats");
      }
    }
    if (r.p(0.3) || i == n - 1)
      for (int k = 0; k < 3; ++k)
      {
        const V2 & b = ref.pts[r.below(ref.pts.size())];
        double w = k == 0 ? 0 : std::pow(10.0, r.range(-4, 0.5)) * sc;
        double x = b[0] + w * r.gauss(), y = b[1] + w * r.gauss();
        expect(ref_score(ref, x, y), c.score(Eigen::Vector2d(x, y)), at(x, y) + " in a single cell of " + std::to_string(ref.pts.size()) + " points");
      }
  }
}
struct NdtRef
{
  double cs = 1, sx = 1, sy = 1, ox = 0, oy = 0;
  std::map<std::pair<i64, i64>, RefCell> cells;
  std::vector<V2> centers;
  // 0 in a definite cell, 1 near a border, 2 certainly outside, 3 beyond size (may be covered by the last row)
  int locate(double x, double y, i64 & ix, i64 & iy, bool & border) const
  {
    border = false;
    if (!std::isfinite(x) || !std::isfinite(y)) return 2;
    double fx = (x - ox) / cs, fy = (y - oy) / cs;
    if (!(std::fabs(fx) < 1e9) || !(std::fabs(fy) < 1e9)) return 2;
    ix = static_cast<i64>(std::floor(fx)); iy = static_cast<i64>(std::floor(fy));
    double ex = std::fabs(fx - std::round(fx)), ey = std::fabs(fy - std::round(fy));
    border = ex < 1e-8 || ey < 1e-8;
    double lx = sx / cs, ly = sy / cs;
    if (fx < -1e-8 || fy < -1e-8 || fx > std::floor(lx + 1e-6) + 1 + 1e-8 || fy > std::floor(ly + 1e-6) + 1 + 1e-8) { if (!(fx > -1e-8 && fy > -1e-8)) return 2; return (fx > lx + 2 || fy > ly + 2) ? 2 : 3; }
    if (border) return 1;
    if (fx > lx - 1e-8 || fy > ly - 1e-8) return 3;
    return 0;
  }
  void add(double x, double y)
  {
    i64 ix, iy; bool b;
    int k = locate(x, y, ix, iy, b);
    if (k == 2) return;
    if (k == 0) { RefCell & c = cells[{ix, iy}]; c.pts.push_back({x, y}); c.dirty = true; return; }
    for (i64 i = ix - 1; i <= ix + 1; ++i) for (i64 j = iy - 1; j <= iy + 1; ++j)
      if (k == 1 || (i == ix && j == iy)) cells[{i, j}].taint = true;
  }
  Val query(double x, double y) const
  {
    i64 ix, iy; bool b;
    int k = locate(x, y, ix, iy, b);
    Val v;
    if (k == 2) return v;
    if (k != 0) { v.any = true; return v; }
    auto i = cells.find({ix, iy});
    if (i == cells.end()) return v;
    return ref_score(i->second, x, y);
  }
};
void exec_ndt(const Plan & p)
{
  std::unique_ptr<NDT> ndt;
  NdtRef ref;
  size_t id = 0;
  for (auto & o : p.ops)
  {
    sim::Rng r = orng(o);
    sim::count(("op_" + o.kind).c_str());
    if (o.kind == "cell") { exec_cell(o); continue; }
    if (o.kind == "new" || !ndt)
    {
      sim::Rng q = o.kind == "new" ? r : sim::Rng(7);
      ref = NdtRef();
      ref.cs = q.p(0.5) ? 0.25 * q.irange(1, 8) : q.range(0.05, 2);
      ref.sx = q.p(0.4) ? ref.cs * q.irange(1, 30) : ref.cs * q.range(0.4, 40);
      ref.sy = q.p(0.4) ? ref.cs * q.irange(1, 30) : ref.cs * q.range(0.4, 40);
      ref.ox = q.p(0.3) ? 0 : q.range(-12, 4); ref.oy = q.p(0.3) ? 0 : q.range(-12, 4);
      if (q.p(0.2)) { ref.ox = -ref.sx / 2; ref.oy = -ref.sy / 2; }
      ndt = std::make_unique<NDT>(ref.cs, ref.sx, ref.sy, ref.ox, ref.oy);
      int n = q.irange(1, 6);
      for (int i = 0; i < n; ++i)
      {
        double fx = std::floor(q.range(0, ref.sx / ref.cs)) + 0.5, fy = std::floor(q.range(0, ref.sy / ref.cs)) + 0.5;
        ref.centers.push_back({ref.ox + ref.cs * fx, ref.oy + ref.cs * fy});
      }
      if (q.p(0.4)) ref.centers.push_back({ref.ox + ref.sx - 0.3 * ref.cs, ref.oy + ref.sy - 0.3 * ref.cs});
      if (q.p(0.4)) ref.centers.push_back({ref.ox - 0.4 * ref.cs, ref.oy + 0.5 * ref.cs});
      if (q.p(0.4)) ref.centers.push_back({ref.ox + 0.5 * ref.cs, ref.oy + ref.sy + 2.6 * ref.cs});
      if (o.kind == "new") continue;
    }
    if (o.kind == "add")
    {
      V2 c = ref.centers[r.below(ref.centers.size())];
      std::vector<V2> w;
      shape_points(r, o.str("shape", "gauss"), static_cast<int>(o.integer("n", 10)), c[0], c[1], ref.cs, w);
      auto s = std::make_shared<Scan>(id++);
      Pose2d pose(0, 0, 0);
      double u = r.u();
      if (u > 0.3) { pose = Pose2d(r.range(-8, 8), r.range(-8, 8), r.range(-4, 4)); }
      s->setPose(pose);
      double ca = std::cos(pose.theta), sa = std::sin(pose.theta);
      std::vector<Point> pts;
      for (auto & v : w)
      {
        double dx = v[0] - pose.x, dy = v[1] - pose.y;
        Point q; q.x = ca * dx + sa * dy; q.y = -sa * dx + ca * dy;
        pts.push_back(q);
        ref.add(pose.x + ca * q.x - sa * q.y, pose.y + sa * q.x + ca * q.y);
      }
      s->setPoints(pts);
      ndt->addScan(s);
      if (o.str("shape") == "bad") sim::count("fault_bad_points", pts.size());
    }
    else if (o.kind == "compute")
    {
      ndt->compute();
      for (auto & c : ref.cells) { c.second.dirty = false; c.second.never = false; }
    }
    else if (o.kind == "query")
    {
      int n = static_cast<int>(o.integer("n", 10)), how = static_cast<int>(o.integer("how", 0));
      std::vector<V2> qs;
      std::vector<std::pair<i64, i64>> keys;
      for (auto & c : ref.cells) if (!c.second.pts.empty()) keys.push_back(c.first);
      for (int i = 0; i < n; ++i)
      {
        double u = r.u();
        if (u < 0.05) { V2 v = {r.range(-5, 5), r.range(-5, 5)}; v[r.below(2)] = BAD[r.below(8)]; qs.push_back(v); sim::count("fault_bad_points"); }
        else if (u < 0.12)
        {
          // exactly on a border between cells, or of the grid
          V2 v = {ref.ox + r.range(-0.1, 1.1) * ref.sx, ref.oy + r.range(-0.1, 1.1) * ref.sy};
          auto edge = [&](double o, double sz) { double nc = std::floor(sz / ref.cs); return o + ref.cs * (r.p(0.5) ? nc + 1 : r.p(0.2) ? 0 : std::floor(r.range(0, nc + 3))); };
          if (r.p(0.6)) v[0] = edge(ref.ox, ref.sx); else v[1] = edge(ref.oy, ref.sy);
          if (r.p(0.3)) { v[0] = edge(ref.ox, ref.sx); v[1] = edge(ref.oy, ref.sy); }
          qs.push_back(v); sim::count("probe_border_points");
        }
        else if (u < 0.24 || keys.empty()) qs.push_back({ref.ox + r.range(-0.3, 1.3) * ref.sx, ref.oy + r.range(-0.3, 1.3) * ref.sy});
        else
        {
          const RefCell & c = ref.cells[keys[r.below(keys.size())]];
          const V2 & b = c.pts[r.below(c.pts.size())];
          double w = r.p(0.2) ? 0 : ref.cs * std::pow(10.0, r.range(-3, -0.3));
          qs.push_back({b[0] + w * r.gauss(), b[1] + w * r.gauss()});
        }
      }
      if (how <= 1)
      {
        for (auto & q : qs)
        {
          double g = how == 0 ? ndt->likelihood(Eigen::Vector2d(q[0], q[1])) : ndt->likelihood(Eigen::Vector3d(q[0], q[1], 1.0));
          expect(ref.query(q[0], q[1]), g, at(q[0], q[1]));
        }
      }
      else
      {
        // sums: over a vector, or over the points of a posed scan
        Pose2d pose(0, 0, 0);
        if (how == 3) pose = Pose2d(r.range(-5, 5), r.range(-5, 5), r.range(-4, 4));
        double ca = std::cos(pose.theta), sa = std::sin(pose.theta), lo = 0, hi = 0, sep = 0;
        std::vector<Point> pts;
        for (auto & q : qs)
        {
          double dx = q[0] - pose.x, dy = q[1] - pose.y;
          Point t; t.x = ca * dx + sa * dy; t.y = -sa * dx + ca * dy;
          pts.push_back(t);
          double x = ca * t.x - sa * t.y + pose.x, y = sa * t.x + ca * t.y + pose.y;
          Val v = ref.query(x, y);
          // what the model itself says about the point now, to make sums exact wherever the point is not on a border
          double g = ndt->likelihood(Eigen::Vector2d(x, y));
          expect(v, g, at(x, y));
          double e = 1e-12, a = g, b = g;
          for (int k = 0; k < 4; ++k) { double h = ndt->likelihood(Eigen::Vector2d(x + (k & 1 ? e : -e), y + (k & 2 ? e : -e))); a = std::min(a, h); b = std::max(b, h); }
          lo += a; hi += b; sep += g;
        }
        double got;
        if (how == 3) { auto s = std::make_shared<Scan>(id++); s->setPose(pose); s->setPoints(pts); got = ndt->likelihood(s); }
        else got = ndt->likelihood(pts);
        lognum(got);
        double tol = 1e-7 * static_cast<double>(n);
        chk(got >= lo - tol && got <= hi + tol, "likelihood-sum", std::string("likelihood of ") + (how == 3 ? "a posed scan" : "a list of points") + " of " + std::to_string(n) + " points is " + fnum(got) +
            ", its points have " + fnum(sep));
        sim::count("probe_sum");
      }
    }
  }
}

// ---------------------------------------------------------------- C13
void gen_matcher(Plan & p, sim::Rng & r)
{
  p.pd("m.ndt_resolution", r.p(0.5) ? 0.25 : r.range(0.1, 1.2));
  double lr = r.p(0.5) ? 0.005 * r.irange(1, 10) : r.range(0.004, 0.06), ar = r.p(0.5) ? 0.0025 * r.irange(1, 10) : r.range(0.002, 0.05);
  double lk = r.p(0.5) ? r.irange(1, 4) : r.range(0.6, 4.4), ak = r.p(0.5) ? r.irange(1, 4) : r.range(0.6, 4.4);
  p.pd("m.search_linear_resolution", lr); p.pd("m.search_linear_size", lr * lk);
  p.pd("m.search_angular_resolution", ar); p.pd("m.search_angular_size", ar * ak);
  p.pi("m.laser_max_beams", r.p(0.3) ? r.irange(1, 10) : r.irange(10, 120));
  p.set("range_max", r.range(2, 8));
  p.set("world", std::to_string(r.next() >> 12));
  p.set("span", r.p(0.2) ? 0.0 : r.range(0.2, 3));
  p.set("far", r.p(0.3) ? r.irange(1, 3) : 0);
  int n = r.irange(3, 14);
  for (int i = 0; i < n; ++i)
  {
    double u = r.u();
    if (i == 0 && r.p(0.8)) u = 0;
    if (u < 0.25) cop(p, "add", r).set("n", r.p(0.1) ? 0 : r.irange(1, 6));
    else if (u < 0.31) cop(p, "reset", r);
    else if (u < 0.36) cop(p, "init", r);
    else if (u < 0.8) cop(p, "match", r);
    else cop(p, "score", r);
  }
}
struct MWorld
{
  std::vector<std::array<double, 4>> walls;
  explicit MWorld(u64 seed)
  {
    sim::Rng r(seed);
    int n = r.irange(2, 6);
    for (int i = 0; i < n; ++i)
    {
      double x = r.range(-5, 5), y = r.range(-5, 5), a = r.p(0.5) ? M_PI / 2 * r.irange(0, 3) : r.range(-3, 3), l = r.range(1, 6);
      walls.push_back({x, y, x + l * std::cos(a), y + l * std::sin(a)});
    }
  }
  V2 sample(sim::Rng & r, double noise) const
  {
    auto & w = walls[r.below(walls.size())];
    double t = r.u();
    return {w[0] + t * (w[2] - w[0]) + noise * r.gauss(), w[1] + t * (w[3] - w[1]) + noise * r.gauss()};
  }
};
struct Iv { double lo = 0, hi = 0, mid = 0; };
struct MRef
{
  std::unique_ptr<NDT> ndt;
  double res = 0.25, lr, ls, ar, as;
  size_t beams = 100;
  double range = 5;
  // sum of likelihoods of the subsampled points at a pose
  Iv score(const std::vector<Point> & pts, double x, double y, double th, size_t & use) const
  {
    Iv s;
    use = std::min(beams, pts.size());
    if (!ndt || !use) return s;
    double ca = std::cos(th), sa = std::sin(th);
    for (size_t i = 0; i < use; ++i)
    {
      size_t num = i * pts.size(), idx = num / use;
      Iv b; bool first = true;
      for (int alt = 0; alt < 2; ++alt)
      {
        if (alt == 1 && (num % use || idx == 0 || i == 0)) break;
        size_t j = idx - static_cast<size_t>(alt);
        double px = pts[j].x * ca - pts[j].y * sa + x, py = pts[j].x * sa + pts[j].y * ca + y;
        double e = 2e-11, v = ndt->likelihood(Eigen::Vector2d(px, py));
        if (first) { b.lo = b.hi = b.mid = v; first = false; }
        b.lo = std::min(b.lo, v); b.hi = std::max(b.hi, v);
        for (int k = 0; k < 4; ++k)
        {
          double w = ndt->likelihood(Eigen::Vector2d(px + (k & 1 ? e : -e), py + (k & 2 ? e : -e)));
          b.lo = std::min(b.lo, w); b.hi = std::max(b.hi, w);
        }
      }
      s.lo += b.lo; s.hi += b.hi; s.mid += b.mid;
    }
    return s;
  }
};
static std::vector<Point> mk_points(sim::Rng & r, const MWorld & w, const Pose2d & view, const std::string & kind, int n, double range)
{
  std::vector<Point> out;
  double ca = std::cos(view.theta), sa = std::sin(view.theta);
  for (int i = 0; i < n; ++i)
  {
    V2 q;
    for (int k = 0; k < 20; ++k)
    {
      q = w.sample(r, 0.01);
      if (std::hypot(q[0] - view.x, q[1] - view.y) < range) break;
    }
    if (std::hypot(q[0] - view.x, q[1] - view.y) >= range) { double a = r.range(-M_PI, M_PI), d = r.range(0.2, range); q = {view.x + d * std::cos(a), view.y + d * std::sin(a)}; }
    Point p; double dx = q[0] - view.x, dy = q[1] - view.y;
    p.x = ca * dx + sa * dy; p.y = -sa * dx + ca * dy;
    if (kind == "disjoint") { p.x = 60 + r.u(); p.y = 60 + r.u(); }
    if (kind == "same") { p.x = 1.0; p.y = 0.5; }
    if (kind == "bad" && r.p(0.2)) { if (r.p(0.5)) p.x = BAD[r.below(8)]; else p.y = BAD[r.below(8)]; sim::count("fault_bad_points"); }
    out.push_back(p);
  }
  return out;
}
static std::string pick_kind(sim::Rng & r) { double u = r.u(); return u < 0.72 ? "good" : u < 0.8 ? "disjoint" : u < 0.88 ? "empty" : u < 0.94 ? "same" : "bad"; }
void exec_matcher(const Plan & p)
{
  simros::Params ov;
  for (auto & q : p.par)
  {
    const std::string & v = q.second;
    ov[q.first] = v[0] == 'd' ? simros::Value(strtod(v.c_str() + 2, nullptr)) : simros::Value(static_cast<i64>(strtoll(v.c_str() + 2, nullptr, 10)));
  }
  MWorld world(strtoull(p.str("world", "1").c_str(), nullptr, 10));
  MRef ref;
  ref.res = p.parnum("m.ndt_resolution", 0.25); ref.lr = p.parnum("m.search_linear_resolution", 0.005); ref.ls = p.parnum("m.search_linear_size", 0.05);
  ref.ar = p.parnum("m.search_angular_resolution", 0.0025); ref.as = p.parnum("m.search_angular_size", 0.1);
  ref.beams = static_cast<size_t>(p.parnum("m.laser_max_beams", 100)); ref.range = p.num("range_max", 5);
  std::unique_ptr<ndt_2d::ScanMatcherNDT> m;
  std::vector<std::unique_ptr<rclcpp::Node>> nodes;
  auto init = [&] {
    m = std::make_unique<ndt_2d::ScanMatcherNDT>();
    simros::act_as(simros::bare(ov));
    nodes.push_back(std::make_unique<rclcpp::Node>("n" + std::to_string(nodes.size())));
    m->initialize("m", nodes.back().get(), ref.range);
    ref.ndt.reset();
    simros::act_as(0);
  };
  init();
  // far away from the origin the matcher needs no more than elsewhere
  i64 fk = p.integer("far");
  double far = fk == 0 ? 0 : fk == 1 ? 1000 : 20000;
  Pose2d base(fk == 3 ? -far : far, -far, 0);
  // the world around `base`
  for (auto & w : world.walls) { w[0] += base.x; w[2] += base.x; w[1] += base.y; w[3] += base.y; }
  double span = p.num("span", 1);
  size_t id = 0;
  for (auto & o : p.ops)
  {
    sim::Rng r = orng(o);
    sim::count(("op_" + o.kind).c_str());
    if (o.kind == "reset") { m->reset(); ref.ndt.reset(); continue; }
    if (o.kind == "init") { init(); continue; }
    if (o.kind == "add")
    {
      int n = static_cast<int>(o.integer("n", 2));
      std::vector<ScanPtr> v;
      // unrelated scans before and after the range handed over
      int pre = r.irange(0, 2), post = r.irange(0, 2);
      for (int i = 0; i < pre + n + post; ++i)
      {
        auto s = std::make_shared<Scan>(id++);
        Pose2d at_(base.x + r.range(-span, span), base.y + r.range(-span, span), r.range(-4, 4));
        std::string kind = pick_kind(r);
        s->setPose(at_);
        s->setPoints(kind == "empty" ? std::vector<Point>() : mk_points(r, world, at_, kind, r.irange(1, 250), ref.range));
        v.push_back(s);
      }
      std::vector<ScanPtr> sub(v.begin() + pre, v.begin() + pre + n);
      m->addScans(v.begin() + pre, v.begin() + pre + n);
      ref.ndt.reset();
      if (n)
      {
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
        for (auto & s : sub)
        {
          Pose2d q = s->getPose();
          x0 = std::min(x0, q.x - ref.range); x1 = std::max(x1, q.x + ref.range); y0 = std::min(y0, q.y - ref.range); y1 = std::max(y1, q.y + ref.range);
        }
        ref.ndt = std::make_unique<NDT>(ref.res, x1 - x0, y1 - y0, x0, y0);
        for (auto & s : sub) ref.ndt->addScan(s);
        ref.ndt->compute();
      }
      // what happens to the scans afterwards is none of the matcher's business
      for (auto & s : v) { s->setPose(Pose2d(r.range(-99, 99), 0, 0)); if (r.p(0.3)) s->setPoints({}); }
      continue;
    }
    Pose2d view(base.x + r.range(-span, span), base.y + r.range(-span, span), r.p(0.2) ? M_PI : r.range(-4, 4));
    std::string kind = pick_kind(r);
    std::vector<Point> pts;
    if (kind != "empty") pts = mk_points(r, world, view, kind, r.irange(1, 300), ref.range);
    // the prediction is a little off
    Pose2d guess(view.x + r.range(-1, 1) * ref.ls, view.y + r.range(-1, 1) * ref.ls, view.theta + r.range(-1, 1) * ref.as);
    auto scan = std::make_shared<Scan>(id++);
    scan->setPose(guess); scan->setPoints(pts);
    std::string desc = "scan of " + std::to_string(pts.size()) + " points (" + kind + ")";
    size_t use = 0;
    if (o.kind == "score")
    {
      Iv s = ref.score(pts, guess.x, guess.y, guess.theta, use);
      double a = m->scoreScan(scan), b = m->scorePoints(pts, guess);
      lognum(a);
      double u = use ? static_cast<double>(use) : 1;
      chk(std::isfinite(a) && std::isfinite(b), "score-not-finite", "score of a " + desc + " is " + fnum(a));
      chk(-a * u >= s.lo - 1e-7 * u && -a * u <= s.hi + 1e-7 * u, "score", "scoreScan of a " + desc + " is " + fnum(a) + ", the map gives " + fnum(-s.mid / u));
      chk(-b * u >= s.lo - 1e-7 * u && -b * u <= s.hi + 1e-7 * u, "score", "scorePoints of a " + desc + " is " + fnum(b) + ", the map gives " + fnum(-s.mid / u));
      if (s.mid > 0.1) sim::count("probe_score");
      continue;
    }
    Pose2d off(r.range(-9, 9), 7, NAN);
    Eigen::Matrix3d cov; cov.setConstant(NAN);
    double got = m->matchScan(scan, off, cov);
    lognum(got); lognum(off.x); lognum(off.y); lognum(off.theta);
    chk(std::isfinite(got) && std::isfinite(off.x) && std::isfinite(off.y) && std::isfinite(off.theta) && cov.allFinite(), "not-finite",
        "matching a " + desc + " gives score " + fnum(got) + ", offset " + fnum(off.x) + " " + fnum(off.y) + " " + fnum(off.theta) + " or a covariance that is not finite");
    Pose2d sp = scan->getPose();
    chk(sp.x == guess.x && sp.y == guess.y && sp.theta == guess.theta && scan->getPoints().size() == pts.size(), "scan-changed", "matching changed the scan");
    auto lattice = [](double size, double res) {
      std::vector<double> v;
      for (int k = 0; -size + k * res < size + 1e-9; ++k) v.push_back(-size + k * res);
      return v;
    };
    std::vector<double> lx = lattice(ref.ls, ref.lr), la = lattice(ref.as, ref.ar);
    bool ex = lx.back() > ref.ls - 1e-9, ea = la.back() > ref.as - 1e-9;   // last one is the optional end point
    struct Ev { Iv s; bool opt; double x, y, t; int ox, oy, oa; };
    std::vector<Ev> ev;
    double maxhi = 0, best = 0, total = 0;
    for (size_t ia = 0; ia < la.size(); ++ia) for (size_t ix = 0; ix < lx.size(); ++ix) for (size_t iy = 0; iy < lx.size(); ++iy)
    {
      Ev e; e.x = lx[ix]; e.y = lx[iy]; e.t = la[ia];
      e.s = ref.score(pts, guess.x + e.x, guess.y + e.y, guess.theta + e.t, use);
      e.ox = ex && ix + 1 == lx.size(); e.oy = ex && iy + 1 == lx.size(); e.oa = ea && ia + 1 == la.size();
      e.opt = e.ox || e.oy || e.oa;
      ev.push_back(e);
      maxhi = std::max(maxhi, e.s.hi); total += e.s.mid;
      if (!e.opt) best = std::max(best, e.s.lo);
    }
    double u = use ? static_cast<double>(use) : 1, tol = 1e-7 * u;
    if (far) tol = 1e-5 * u;
    if (maxhi == 0)
    {
      chk(got == 0, "score-without-overlap", "matching a " + desc + " that overlaps nothing gives score " + fnum(got));
      sim::count("probe_no_overlap");
      continue;
    }
    // the offset is one of the window, and its score is the one reported
    const Ev * hit = nullptr;
    for (auto & e : ev) if (std::fabs(e.x - off.x) < 1e-9 && std::fabs(e.y - off.y) < 1e-9 && std::fabs(e.t - off.theta) < 1e-9) { hit = &e; break; }
    if (!hit && got == 0 && off.x == 0 && off.y == 0 && off.theta == 0 && best <= tol) { sim::count("zero_score"); continue; }
    chk(hit != nullptr, "offset-not-in-window", "matching a " + desc + " returns the offset " + fnum(off.x) + " " + fnum(off.y) + " " + fnum(off.theta) + " which is not one of the search window");
    chk(-got * u >= hit->s.lo - tol && -got * u <= hit->s.hi + tol, "score", "matching a " + desc + " reports score " + fnum(got) + ", at the returned offset the map gives " + fnum(-hit->s.mid / u));
    chk(-got * u >= best - tol, "not-best", "matching a " + desc + " returns score " + fnum(got) + " although the window holds an offset with " + fnum(-best / u));
    sim::count("probe_match");
    // covariance
    double wid = std::max(ref.ls, ref.as), asym = (cov - cov.transpose()).cwiseAbs().maxCoeff();
    chk(asym <= 1e-9 * wid * wid, "covariance-asymmetric", "the covariance of a match is not symmetric");
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(cov);
    chk(es.eigenvalues()(0) >= -1e-9 * wid * wid, "covariance-not-psd", "the covariance of a match has the eigenvalue " + fnum(es.eigenvalues()(0)) + " (likelihoods sum to " + fnum(total) + ")");
    if (total < 1e-190) { sim::count("covariance_skipped"); continue; }
    bool ok = false; double err = 0, bestErr = 1e300;
    for (int v = 0; v < 4 && !ok; ++v)
    {
      Eigen::Vector3d um = Eigen::Vector3d::Zero(); double s = 0, unc = 0;
      for (auto & e : ev)
      {
        if (((e.ox || e.oy) && !(v & 1)) || (e.oa && !(v & 2))) continue;
        um += Eigen::Vector3d(e.x, e.y, e.t) * e.s.mid; s += e.s.mid; unc += e.s.hi - e.s.lo;
      }
      if (!(s > 1e-190)) { ok = true; break; }        // nothing overlaps at the offsets of this choice of end points
      um /= s;
      Eigen::Matrix3d k = Eigen::Matrix3d::Zero();
      for (auto & e : ev)
      {
        if (((e.ox || e.oy) && !(v & 1)) || (e.oa && !(v & 2))) continue;
        Eigen::Vector3d d = Eigen::Vector3d(e.x, e.y, e.t) - um;
        k += d * d.transpose() * e.s.mid;
      }
      k /= s;
      err = 0;
      double sc[3] = {ref.ls, ref.ls, ref.as};
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) err = std::max(err, std::fabs(k(i, j) - cov(i, j)) / (sc[i] * sc[j]));
      bestErr = std::min(bestErr, err - 6 * unc / s);
      if (err <= (far ? 1e-3 : 1e-6) + 6 * unc / s) ok = true;
    }
    chk(ok, "covariance", "the covariance of a match is not the score-weighted covariance of the evaluated offsets (off by " + fnum(bestErr) + " of the window)");
    sim::count("probe_covariance");
  }
}

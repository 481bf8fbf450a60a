// C24: nearest-scan queries against distances; C17: the optimizer against its own objective.
#include "comp.hpp"
#include <Eigen/Dense>
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/graph.hpp>
#include <simctl.hpp>
#include <algorithm>
#include <array>
#include <memory>
using ndt_2d::Graph; using ndt_2d::Scan; using ndt_2d::ScanPtr; using ndt_2d::Point; using ndt_2d::Pose2d; using ndt_2d::Constraint; using ndt_2d::ConstraintPtr;

struct GS { double x = 0, y = 0, th = 0; std::vector<std::array<double, 2>> pts; };
static void bary(const GS & s, double & x, double & y)
{
  x = s.x; y = s.y;
  if (s.pts.empty()) return;
  long double mx = 0, my = 0;
  for (auto & p : s.pts) { mx += p[0]; my += p[1]; }
  mx /= s.pts.size(); my /= s.pts.size();
  x += static_cast<double>(std::cos(static_cast<long double>(s.th)) * mx - std::sin(static_cast<long double>(s.th)) * my);
  y += static_cast<double>(std::sin(static_cast<long double>(s.th)) * mx + std::cos(static_cast<long double>(s.th)) * my);
}
void gen_graph(Plan & p, sim::Rng & r)
{
  p.set("bary", r.p(0.6) ? 1 : 0);
  p.set("layout", r.irange(0, 5));
  p.set("home_x", r.p(0.2) ? 0 : r.range(-5, 5)); p.set("home_y", r.p(0.2) ? 0 : r.range(-5, 5));
  p.set("span", std::pow(10.0, r.range(-1, 2)));
  int n = r.irange(4, 40);
  bool grow = r.p(0.3);
  for (int i = 0; i < n; ++i)
  {
    double u = r.u();
    if (grow && i < n / 2) u = 0;
    if (u < 0.3) cop(p, "addscan", r).set("n", r.p(0.1) ? r.irange(10, 60) : r.irange(1, 3));
    else if (u < 0.4) cop(p, "setpose", r);
    else if (u < 0.47) cop(p, "setpoints", r);
    else if (u < 0.5) cop(p, "optimized", r);
    else if (u < 0.55) cop(p, "reload", r);
    else if (u < 0.58) cop(p, "barycenter", r);
    else cop(p, "query", r).set("limit", r.p(0.4) ? -1 : r.irange(0, 50)).set("free", r.p(0.3) ? 1 : 0);
  }
  cop(p, "query", r).set("limit", -1).set("free", 0);
}
void exec_graph(const Plan & p)
{
  bool ub = p.integer("bary") != 0;
  int layout = static_cast<int>(p.integer("layout"));
  double span = p.num("span", 3), hx = p.num("home_x", 1), hy = p.num("home_y", -1);
  auto g = std::make_unique<Graph>(ub);
  std::vector<GS> ref;
  int files = 0;
  auto rand_pose = [&](sim::Rng & r, GS & s) {
    if (layout == 0) { s.x = r.range(-span, span); s.y = r.range(-span, span); }
    else if (layout == 1) { s.x = span * r.irange(-2, 2); s.y = span * r.irange(-2, 2); }
    else if (layout == 2) { s.x = span * 0.01 * static_cast<double>(ref.size()); s.y = 0; }
    else if (layout == 3) { s.x = hx; s.y = hy; }
    else if (layout == 5) { bool home = r.p(0.9); s.x = home ? hx : r.range(-span, span); s.y = home ? hy : r.range(-span, span); }
    else { double a = r.range(-M_PI, M_PI); s.x = span * std::cos(a); s.y = span * std::sin(a); }
    s.th = r.range(-4, 4);
  };
  auto rand_points = [&](sim::Rng & r, GS & s) {
    s.pts.clear();
    int n = r.p(0.3) ? 0 : r.irange(1, 30);
    double ox = r.range(-1, 1) * span * 0.5, oy = r.range(-1, 1) * span * 0.5;
    for (int i = 0; i < n; ++i) s.pts.push_back({ox + r.gauss() * 0.2 * span, oy + r.gauss() * 0.2 * span});
  };
  auto set_points = [&](const ScanPtr & sc, const GS & s) {
    std::vector<Point> v;
    for (auto & q : s.pts) { Point t; t.x = q[0]; t.y = q[1]; v.push_back(t); }
    sc->setPoints(v);
  };
  auto pos = [&](const GS & s, double & x, double & y) { if (ub) bary(s, x, y); else { x = s.x; y = s.y; } };
  for (auto & o : p.ops)
  {
    sim::Rng r = orng(o);
    sim::count(("op_" + o.kind).c_str());
    if (o.kind == "addscan")
    {
      for (i64 i = 0; i < o.integer("n", 1) && ref.size() < 400; ++i)
      {
        GS s; rand_pose(r, s); rand_points(r, s);
        auto sc = std::make_shared<Scan>(ref.size());
        if (r.p(0.5)) { sc->setPose(Pose2d(s.x, s.y, s.th)); set_points(sc, s); } else { set_points(sc, s); sc->setPose(Pose2d(s.x, s.y, s.th)); }
        if (r.p(0.3)) sc->getBarycenterPose();
        g->scans.push_back(sc); ref.push_back(s);
      }
    }
    else if (o.kind == "setpose" && !ref.empty())
    {
      size_t i = r.below(ref.size());
      if (r.p(0.5)) g->scans[i]->getBarycenterPose();
      double u = r.u();
      if (u < 0.3) ref[i].th = r.range(-4, 4); else rand_pose(r, ref[i]);
      g->scans[i]->setPose(Pose2d(ref[i].x, ref[i].y, ref[i].th));
    }
    else if (o.kind == "setpoints" && !ref.empty())
    {
      size_t i = r.below(ref.size());
      if (r.p(0.5)) g->scans[i]->getBarycenterPose();
      rand_points(r, ref[i]); set_points(g->scans[i], ref[i]);
    }
    else if (o.kind == "optimized")
    {
      for (size_t i = 1; i < ref.size(); ++i) { rand_pose(r, ref[i]); g->scans[i]->setPose(Pose2d(ref[i].x, ref[i].y, ref[i].th)); }
    }
    else if (o.kind == "reload")
    {
      std::string f = "/sim/g" + std::to_string(files++);
      try { g->save(f); g = std::make_unique<Graph>(ub, f); }
      catch (const std::exception & e) { chk(false, "reload-failed", std::string("saving and reloading the graph failed: ") + e.what()); }
      chk(g->scans.size() == ref.size(), "reload", "a reloaded graph has " + std::to_string(g->scans.size()) + " scans instead of " + std::to_string(ref.size()));
      sim::count("probe_reload");
    }
    else if (o.kind == "barycenter")
    {
      for (size_t i = 0; i < ref.size(); ++i)
      {
        double x, y; bary(ref[i], x, y);
        Pose2d b = g->scans[i]->getBarycenterPose();
        chk(std::fabs(b.x - x) < 1e-9 * (1 + span) && std::fabs(b.y - y) < 1e-9 * (1 + span), "barycenter", "the barycenter of scan " + std::to_string(i) + " is " +
            fnum(b.x) + " " + fnum(b.y) + ", its points and pose give " + fnum(x) + " " + fnum(y));
        chk(b.theta == ref[i].th, "barycenter-heading", "the barycenter pose has the heading " + fnum(b.theta) + " instead of the scan's " + fnum(ref[i].th));
      }
      sim::count("probe_barycenter");
    }
    else if (o.kind == "query")
    {
      GS q; ScanPtr sc;
      if (o.integer("free") || ref.empty())
      {
        rand_pose(r, q); rand_points(r, q);
        sc = std::make_shared<Scan>(ref.size());
        sc->setPose(Pose2d(q.x, q.y, q.th)); set_points(sc, q);
      }
      else { size_t i = r.below(ref.size()); q = ref[i]; sc = g->scans[i]; }
      i64 lim = o.integer("limit", -1);
      if (lim > static_cast<i64>(ref.size())) lim = static_cast<i64>(r.below(ref.size() + 1));
      size_t n = lim > 0 ? static_cast<size_t>(lim) : ref.size();
      double qx, qy; pos(q, qx, qy);
      double dist = r.p(0.2) ? 10.0 : span * std::pow(10.0, r.range(-2, 0.7));
      std::vector<double> d(ref.size());
      for (size_t i = 0; i < ref.size(); ++i) { double x, y; pos(ref[i], x, y); d[i] = std::hypot(x - qx, y - qy); }
      if (r.p(0.3) && n) { dist = d[r.below(n)] * (r.p(0.5) ? 1 - 1e-6 : 1 + 1e-6) + 1e-8; }
      std::vector<size_t> got = g->findNearest(sc, dist, static_cast<int>(lim));
      double tol = 1e-9 * (1 + span), tie = tol;
      // squared distances of nearly coincident scans carry more error
      auto near_tie = [&](double a, double b) { return std::fabs(a - b) <= tie || std::fabs(a * a - b * b) <= 1e-12 * (1 + span * span) * 1e-2; };
      std::vector<int> seen(ref.size(), 0);
      std::string desc = "query over the first " + std::to_string(n) + " of " + std::to_string(ref.size()) + " scans within " + fnum(dist) + " m";
      for (size_t k = 0; k < got.size(); ++k)
      {
        chk(got[k] < n, "beyond-limit", desc + " returns scan " + std::to_string(got[k]));
        chk(!seen[got[k]], "duplicate", desc + " returns scan " + std::to_string(got[k]) + " twice");
        seen[got[k]] = 1;
        chk(d[got[k]] <= dist + tol, "too-far", desc + " returns scan " + std::to_string(got[k]) + " at " + fnum(d[got[k]]) + " m");
        if (k) chk(d[got[k - 1]] <= d[got[k]] || near_tie(d[got[k - 1]], d[got[k]]), "order", desc + " returns scan " + std::to_string(got[k - 1]) + " at " + fnum(d[got[k - 1]]) + " m before scan " +
                   std::to_string(got[k]) + " at " + fnum(d[got[k]]) + " m");
        lognum(d[got[k]]);
      }
      for (size_t i = 0; i < n; ++i)
        chk(seen[i] || d[i] >= dist - tol, "missing", desc + " does not return scan " + std::to_string(i) + " at " + fnum(d[i]) + " m");
      sim::count("probe_query");
      if (got.size() > 1) sim::count("probe_query_many");
    }
  }
}

// ---------------------------------------------------------------- C17
struct Edge { size_t a, b; double t[3]; Eigen::Matrix3d W; };
static double objective(const std::vector<Edge> & E, const std::vector<Eigen::Vector3d> & P, Eigen::VectorXd * g = nullptr, Eigen::MatrixXd * Hm = nullptr)
{
  size_t n = P.size();
  double cost = 0;
  if (g) g->setZero(static_cast<Eigen::Index>(3 * n));
  if (Hm) Hm->setZero(static_cast<Eigen::Index>(3 * n), static_cast<Eigen::Index>(3 * n));
  for (auto & e : E)
  {
    const Eigen::Vector3d & A = P[e.a], & B = P[e.b];
    double c = std::cos(A(2)), s = std::sin(A(2)), dx = B(0) - A(0), dy = B(1) - A(1);
    Eigen::Vector3d r(c * dx + s * dy - e.t[0], -s * dx + c * dy - e.t[1], wrapa(B(2) - A(2) - e.t[2]));
    cost += 0.5 * r.dot(e.W * r);
    if (!g) continue;
    Eigen::Matrix<double, 3, 6> J;
    J << -c, -s, -s * dx + c * dy, c, s, 0, s, -c, -c * dx - s * dy, -s, c, 0, 0, 0, -1, 0, 0, 1;
    Eigen::Matrix<double, 6, 1> gr = J.transpose() * (e.W * r);
    Eigen::Matrix<double, 6, 6> h = J.transpose() * e.W * J;
    Eigen::Index id[2] = {static_cast<Eigen::Index>(3 * e.a), static_cast<Eigen::Index>(3 * e.b)};
    for (int i = 0; i < 2; ++i)
    {
      g->segment<3>(id[i]) += gr.segment<3>(3 * i);
      for (int j = 0; j < 2; ++j) Hm->block<3, 3>(id[i], id[j]) += h.block<3, 3>(3 * i, 3 * j);
    }
  }
  return cost;
}
// Levenberg-Marquardt from P with the first pose fixed; returns the cost reached
static double refine(const std::vector<Edge> & E, std::vector<Eigen::Vector3d> P, int iters)
{
  double lam = 1e-6, cost = objective(E, P);
  Eigen::VectorXd g; Eigen::MatrixXd Hm;
  Eigen::Index m = static_cast<Eigen::Index>(3 * P.size() - 3);
  if (m <= 0) return cost;
  for (int it = 0; it < iters; ++it)
  {
    objective(E, P, &g, &Hm);
    bool better = false;
    for (int k = 0; k < 8 && !better; ++k)
    {
      Eigen::MatrixXd A = Hm.bottomRightCorner(m, m);
      for (Eigen::Index i = 0; i < m; ++i) A(i, i) += lam * (A(i, i) + 1e-9) + 1e-12;
      Eigen::VectorXd d = A.ldlt().solve(-g.tail(m));
      if (!d.allFinite()) { lam *= 10; continue; }
      std::vector<Eigen::Vector3d> Q = P;
      for (size_t i = 1; i < P.size(); ++i) Q[i] += d.segment<3>(static_cast<Eigen::Index>(3 * i - 3));
      double c = objective(E, Q);
      if (c < cost) { better = true; P = Q; double gain = cost - c; cost = c; lam = std::max(lam * 0.2, 1e-12); if (gain < 1e-12 * cost) return cost; }
      else lam *= 10;
    }
    if (!better) break;
  }
  return cost;
}
void gen_solver(Plan & p, sim::Rng & r)
{
  p.set("noise", r.p(0.25) ? 0.0 : std::pow(10.0, r.range(-3, -0.7)));
  p.set("step", r.range(0.2, 2));
  p.set("verbose", r.p(0.05) ? 1 : 0);
  p.set("disc", r.p(0.15) ? 1 : 0);
  p.set("wscale", r.p(0.4) ? std::pow(10.0, r.range(0, 4)) : 1.0);
  int n = r.irange(5, 24);
  cop(p, "grow", r).set("n", r.irange(1, 6));
  for (int i = 0; i < n; ++i)
  {
    double u = r.u();
    if (u < 0.35) cop(p, "grow", r).set("n", r.irange(1, 5));
    else if (u < 0.55) cop(p, "loop", r);
    else if (u < 0.63) cop(p, "move", r).set("mag", std::pow(10.0, r.range(-3, 0)));
    else { Op & o = cop(p, "optimize", r); if (r.p(0.2)) o.set("fail", "1"); else if (r.p(0.12)) o.set("poison", r.irange(1, 4)); if (r.p(0.1)) o.set("empty", "1"); }
  }
  cop(p, "loop", r); cop(p, "optimize", r);
}
static sim::SolveCtl g_ctl;
static int g_solves = 0;
static sim::SolveCtl solve_hook(int phase, bool) { if (phase == 0) { ++g_solves; sim::SolveCtl c = g_ctl; if (c.fail) sim::count("fault_solver_failure"); return c; } return sim::SolveCtl(); }
void exec_solver(const Plan & p)
{
  sim::on_solve = solve_hook;
  ndt_2d::CeresSolver solver;
  if (p.integer("verbose")) solver.setVerbose(true);
  std::vector<ScanPtr> scans; std::vector<ConstraintPtr> cons; std::vector<Edge> E;
  std::vector<Eigen::Vector3d> truth;
  double noise = p.num("noise", 0.01), step = p.num("step", 1);
  auto add_edge = [&](sim::Rng & r, size_t a, size_t b, bool sw, bool offset) {
    const Eigen::Vector3d & A = truth[a], & B = truth[b];
    double c = std::cos(A(2)), s = std::sin(A(2)), dx = B(0) - A(0), dy = B(1) - A(1);
    Edge e; e.a = a; e.b = b;
    e.t[0] = c * dx + s * dy + noise * r.gauss(); e.t[1] = -s * dx + c * dy + noise * r.gauss();
    e.t[2] = wrapa(B(2) - A(2)) + 0.3 * noise * r.gauss();
    if (offset) { e.t[0] += 5 * noise * r.gauss(); e.t[1] += 5 * noise * r.gauss(); }
    if (r.p(0.1)) e.t[2] += 2 * M_PI * r.irange(-1, 1);
    Eigen::Matrix3d M, W;
    for (int i = 0; i < 9; ++i) M(i / 3, i % 3) = r.gauss();
    W = M * M.transpose() + Eigen::Matrix3d::Identity() * r.range(0.2, 2);
    double sc = std::pow(10.0, r.range(-1, 3)) * p.num("wscale", 1);
    W *= sc; W = 0.5 * (W + W.transpose()).eval();
    e.W = W; E.push_back(e);
    auto k = std::make_shared<Constraint>();
    k->begin = a; k->end = b; k->transform = Eigen::Vector3d(e.t[0], e.t[1], e.t[2]); k->information = W; k->switchable = sw;
    cons.push_back(k);
  };
  auto poses = [&] {
    std::vector<Eigen::Vector3d> v;
    for (auto & s : scans) { Pose2d q = s->getPose(); v.push_back(Eigen::Vector3d(q.x, q.y, q.theta)); }
    return v;
  };
  for (auto & o : p.ops)
  {
    sim::Rng r = orng(o);
    sim::count(("op_" + o.kind).c_str());
    if (o.kind == "grow")
    {
      for (i64 i = 0; i < o.integer("n", 1) && scans.size() < 60; ++i)
      {
        Eigen::Vector3d t(r.range(-3, 3), r.range(-3, 3), r.range(-4, 4));
        if (!truth.empty())
        {
          const Eigen::Vector3d & L = truth.back();
          double d = step * r.range(0.3, 1), dth = r.range(-1, 1);
          t = Eigen::Vector3d(L(0) + d * std::cos(L(2)), L(1) + d * std::sin(L(2)), L(2) + dth);
          if (r.p(0.5)) t(2) = wrapa(t(2));
        }
        truth.push_back(t);
        auto s = std::make_shared<Scan>(scans.size());
        // dead reckoning from the previous scan's current pose
        Eigen::Vector3d est = t;
        if (!scans.empty())
        {
          Pose2d q = scans.back()->getPose();
          const Eigen::Vector3d & L = truth[truth.size() - 2];
          double c = std::cos(L(2)), sn = std::sin(L(2)), dx = t(0) - L(0), dy = t(1) - L(1);
          double fx = c * dx + sn * dy, fy = -sn * dx + c * dy;
          est = Eigen::Vector3d(q.x + std::cos(q.theta) * fx - std::sin(q.theta) * fy + noise * r.gauss(), q.y + std::sin(q.theta) * fx + std::cos(q.theta) * fy + noise * r.gauss(),
                                wrapa(q.theta + t(2) - L(2) + 0.3 * noise * r.gauss()));
        }
        s->setPose(Pose2d(est(0), est(1), est(2)));
        scans.push_back(s);
        if (scans.size() > 1 && !(p.integer("disc") && r.p(0.2))) add_edge(r, scans.size() - 2, scans.size() - 1, false, false);
      }
    }
    else if (o.kind == "loop" && scans.size() > 2)
    {
      size_t a = r.below(scans.size()), b = r.below(scans.size());
      if (a != b) add_edge(r, a, b, true, r.p(0.5));
    }
    else if (o.kind == "move")
    {
      double m = o.num("mag", 0.1);
      for (auto & s : scans)
      {
        if (!r.p(0.5)) continue;
        Pose2d q = s->getPose();
        s->setPose(Pose2d(q.x + m * r.gauss(), q.y + m * r.gauss(), q.theta + 0.2 * m * r.gauss()));
      }
      sim::count("poses_moved");
    }
    else if (o.kind == "optimize")
    {
      if (o.has("empty"))
      {
        std::vector<ScanPtr> none; std::vector<ConstraintPtr> nc;
        // an empty graph cannot be optimized, and does no harm
        if (scans.empty()) chk(!solver.optimize(nc, none), "empty-graph", "optimizing an empty graph reports success");
      }
      if (scans.empty()) continue;
      g_ctl = sim::SolveCtl(); g_ctl.fail = o.has("fail");
      std::vector<Eigen::Vector3d> before = poses();
      std::vector<ConstraintPtr> list = cons;
      int poison = static_cast<int>(o.integer("poison"));
      if (poison && scans.size() > 1)
      {
        auto k = std::make_shared<Constraint>();
        size_t a = r.below(scans.size()), b = (a + 1 + r.below(scans.size() - 1)) % scans.size();
        k->begin = a; k->end = b; k->transform = Eigen::Vector3d(1, 0, 0); k->information.setIdentity(); k->switchable = true;
        if (poison == 1) k->transform(0) = NAN; else if (poison == 2) k->information(1, 1) = NAN; else if (poison == 3) k->transform(2) = INFINITY; else k->information.setConstant(NAN);
        list.push_back(k);
        sim::count("fault_nan_constraint");
      }
      else poison = 0;
      std::vector<ScanPtr> arg = scans;
      bool ok = solver.optimize(list, arg);
      std::vector<Eigen::Vector3d> after = poses();
      for (auto & v : after) { lognum(v(0)); lognum(v(1)); lognum(v(2)); }
      bool moved = false, finite = true; size_t who = 0;
      double far = 0;
      for (size_t i = 0; i < after.size(); ++i)
      {
        if (after[i] != before[i]) { if (!moved) who = i; moved = true; }
        far = std::max(far, std::max(std::hypot(after[i](0) - before[i](0), after[i](1) - before[i](1)), std::fabs(after[i](2) - before[i](2))));
        if (!after[i].allFinite()) finite = false;
      }
      chk(finite, "not-finite", "optimization of " + std::to_string(scans.size()) + " scans leaves a pose that is not finite");
      if (g_ctl.fail || poison)
        chk(!ok, "failure-not-reported", g_ctl.fail ? "an optimization whose solver failed reports success" : "an optimization with a constraint that is not finite reports success");
      if (!ok)
      {
        chk(!moved, "failure-moved", "an optimization that failed moved scan " + std::to_string(who));
        chk(g_ctl.fail || poison, "failed", "an optimization of a sound graph of " + std::to_string(scans.size()) + " scans and " + std::to_string(cons.size()) + " constraints failed");
        sim::count("probe_failed");
        continue;
      }
      chk(after[0] == before[0], "anchor-moved", "optimization moved the first scan from " + fnum(before[0](0)) + " " + fnum(before[0](1)) + " " + fnum(before[0](2)) + " to " + fnum(after[0](0)) + " " + fnum(after[0](1)) + " " + fnum(after[0](2)));
      double c0 = objective(E, before), c1 = objective(E, after), c2 = refine(E, after, 60);
      std::string d = "optimization of " + std::to_string(scans.size()) + " scans and " + std::to_string(cons.size()) + " constraints: error before " + fnum(c0) + ", after " + fnum(c1);
      chk(c1 <= c0 * (1 + 1e-9) + 1e-12, "worse", d);
      chk(c2 >= c1 * 0.93 - 1e-9 * std::max(1.0, p.num("wscale", 1)) - 1e-5 * c0, "not-optimal", d + ", nearby poses have only " + fnum(c2));
      if (c0 < 1e-20 * static_cast<double>(1 + E.size())) { chk(far < 1e-6, "satisfied-graph-moved", "a graph that satisfies its constraints was moved by " + fnum(far)); sim::count("probe_satisfied"); }
      std::vector<int> touched(scans.size(), 0);
      for (auto & e : E) touched[e.a] = touched[e.b] = 1;
      for (size_t i = 0; i < scans.size(); ++i) if (!touched[i]) chk(after[i] == before[i], "unconstrained-moved", "optimization moved scan " + std::to_string(i) + " which has no constraint");
      sim::count("probe_optimized");
      if (c1 < 0.9 * c0 && c0 > 1e-6) sim::count("probe_improved");
      if (c1 > 1e-6) sim::count("probe_conflict");
    }
  }
  sim::on_solve = nullptr;
}

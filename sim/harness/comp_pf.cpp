// C18: estimate of the particle filter; C19: KLD resampling and its bin counter; C20: motion model.
#include "comp.hpp"
#include <Eigen/Dense>
#include <ndt_2d/kd_tree.hpp>
#include <ndt_2d/motion_model.hpp>
#include <ndt_2d/particle_filter.hpp>
#include <simctl.hpp>
#include <algorithm>
#include <array>
#include <memory>
#include <numeric>
using ndt_2d::ParticleFilter; using ndt_2d::MotionModel; using ndt_2d::MotionModelPtr; using ndt_2d::KDTree; using ndt_2d::Scan; using ndt_2d::ScanPtr; using ndt_2d::Point; using ndt_2d::Pose2d;
typedef Eigen::Vector3d V3;

// a measurement with a chosen score field; remembers what it was asked
struct FieldMatcher : public ndt_2d::ScanMatcher
{
  int kind = 0;            // 0 none, 1 gaussian, 2 one-hot (nearest to c), 3 sharp, 4 equal, 5 tiny, 6 half, 7 random
  double cx = 0, cy = 0, cth = 0, w = 1;
  u64 seed = 1; size_t hot = 0;
  mutable std::vector<Pose2d> asked;
  mutable std::vector<double> given;
  double value(const Pose2d & p) const
  {
    double d2 = (std::pow(p.x - cx, 2) + std::pow(p.y - cy, 2)) / (w * w) + std::pow(wrapa(p.theta - cth), 2);
    sim::Rng r(seed + asked.size() * 7919);
    switch (kind)
    {
      case 1: return std::exp(-d2 / 2);
      case 2: return asked.size() == hot ? 0.8 : 0.0;
      case 3: return d2 < 1 ? 1.0 : 0.0;
      case 4: return 0.5;
      case 5: return 1e-200 * r.u();
      case 6: return r.p(0.5) ? 0 : 0.3;
      case 7: return r.u() * r.u();
      case 8: return r.p(0.05) ? 1.0 : 1e-6;
      default: return 0;
    }
  }
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ScanPtr>::const_iterator &, const std::vector<ScanPtr>::const_iterator &) override {}
  double matchScan(const ScanPtr &, Pose2d & p, Eigen::Matrix3d & c) const override { p = Pose2d(); c.setIdentity(); return 0; }
  double scoreScan(const ScanPtr & s) const override { return scorePoints(s->getPoints(), s->getPose()); }
  double scorePoints(const std::vector<Point> & pts, const Pose2d & pose) const override
  {
    double v = pts.empty() ? 0.0 : -value(pose);
    asked.push_back(pose); given.push_back(v);
    return v;
  }
  void reset() override {}
};
static std::vector<V3> particles(ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  std::vector<V3> v;
  for (auto & q : m.poses) v.push_back(V3(q.position.x, q.position.y, 2 * std::atan2(q.orientation.z, q.orientation.w)));
  return v;
}
static std::string v3(const V3 & v) { return fnum(v(0)) + " " + fnum(v(1)) + " " + fnum(v(2)); }
static void check_estimate(ParticleFilter & f, const std::vector<V3> & P, const std::vector<double> & W, const std::string & when)
{
  V3 m = f.getMean(); Eigen::Matrix3d C = f.getCovariance();
  for (int i = 0; i < 3; ++i) lognum(m(i));
  chk(m.allFinite() && C.allFinite(), "estimate-not-finite", "the estimate " + when + " is not finite: mean " + v3(m));
  long double sx = 0, sy = 0, sc = 0, ss = 0, sw = 0, big = 0;
  for (size_t i = 0; i < P.size(); ++i)
  {
    sw += W[i]; sx += W[i] * P[i](0); sy += W[i] * P[i](1); sc += W[i] * std::cos(P[i](2)); ss += W[i] * std::sin(P[i](2));
    big = std::max<long double>(big, std::max(std::fabs(P[i](0)), std::fabs(P[i](1))));
  }
  sx /= sw; sy /= sw; sc /= sw; ss /= sw;
  long double xx = 0, xy = 0, yy = 0;
  for (size_t i = 0; i < P.size(); ++i)
  {
    xx += W[i] * (P[i](0) - sx) * (P[i](0) - sx); xy += W[i] * (P[i](0) - sx) * (P[i](1) - sy); yy += W[i] * (P[i](1) - sy) * (P[i](1) - sy);
  }
  xx /= sw; xy /= sw; yy /= sw;
  double n = static_cast<double>(P.size()), tm = 1e-15 * (10 + n) * static_cast<double>(big + 1), tc = 4e-16 * (10 + n) * static_cast<double>(big * big + 1) * 4;
  auto bad = [&](const std::string & what, double got, long double want) { return what + " " + when + " is " + fnum(got) + ", the " + std::to_string(P.size()) + " weighted particles have " + fnum(static_cast<double>(want)); };
  chk(std::fabs(m(0) - sx) <= tm, "mean", bad("mean x", m(0), sx));
  chk(std::fabs(m(1) - sy) <= tm, "mean", bad("mean y", m(1), sy));
  chk(std::fabs(C(0, 0) - xx) <= tc, "covariance", bad("variance of x", C(0, 0), xx));
  chk(std::fabs(C(1, 1) - yy) <= tc, "covariance", bad("variance of y", C(1, 1), yy));
  chk(std::fabs(C(0, 1) - xy) <= tc && std::fabs(C(1, 0) - xy) <= tc, "covariance", bad("covariance of x and y", C(0, 1), xy));
  long double R = std::sqrt(sc * sc + ss * ss);
  if (R > 1e-6L)
  {
    double th = static_cast<double>(std::atan2(ss, sc)), tt = 1e-13 * n / static_cast<double>(R) + 1e-12;
    chk(std::fabs(wrapa(m(2) - th)) <= tt, "mean-heading", bad("mean heading", m(2), th));
    chk(m(2) >= -M_PI - 1e-9 && m(2) <= M_PI + 1e-9, "mean-heading-range", bad("mean heading", m(2), th));
    long double tv = 0;
    bool edge = false;
    for (size_t i = 0; i < P.size(); ++i) { double d = wrapa(P[i](2) - th); if (std::fabs(d) > M_PI - 1e-6) edge = true; tv += W[i] * d * d; }
    tv /= sw;
    if (!edge || tv == 0) chk(std::fabs(C(2, 2) - tv) <= 1e-9 + 20 * tt + 1e-12 * n, "covariance", bad("variance of the heading", C(2, 2), tv));
    // the cross terms are either left out or right
    for (int k = 0; k < 2; ++k)
    {
      if (C(k, 2) == 0 && C(2, k) == 0) continue;
      long double x = 0;
      for (size_t i = 0; i < P.size(); ++i) x += W[i] * (P[i](k) - (k ? sy : sx)) * wrapa(P[i](2) - th);
      x /= sw;
      if (!edge) chk(std::fabs(C(k, 2) - x) <= 1e-6 * (1 + static_cast<double>(big)) && std::fabs(C(2, k) - x) <= 1e-6 * (1 + static_cast<double>(big)), "covariance", bad("covariance with the heading", C(k, 2), x));
    }
  }
  else sim::count("heading_undefined");
  sim::count("probe_estimate");
}
static void check_particles(const std::vector<V3> & P, size_t mn, size_t mx, const std::string & when)
{
  chk(P.size() >= mn && P.size() <= mx, "particle-count", "there are " + std::to_string(P.size()) + " particles " + when + ", configured are " + std::to_string(mn) + " to " + std::to_string(mx));
  for (auto & q : P)
  {
    chk(q.allFinite(), "particle-not-finite", "a particle " + when + " is " + v3(q));
    chk(std::fabs(q(2)) <= M_PI + 1e-9, "particle-heading", "a particle " + when + " has the heading " + fnum(q(2)));
  }
}
static size_t npart(sim::Rng & r) { return static_cast<size_t>(r.p(0.2) ? r.irange(1, 4) : r.p(0.5) ? r.irange(5, 80) : r.irange(80, 600)); }
static void gen_pf(Plan & p, sim::Rng & r, bool kld)
{
  size_t a = npart(r), b = npart(r);
  if (r.p(0.2)) b = a;
  p.set("min", static_cast<double>(std::min(a, b))); p.set("max", static_cast<double>(std::max(a, b)));
  for (int i = 1; i <= 5; ++i) p.set("a" + std::to_string(i), r.p(0.3) ? 0.0 : r.range(0, 0.3));
  p.set("prop", kld ? 1 : 0);
  int n = r.irange(3, 30);
  for (int i = 0; i < n; ++i)
  {
    double u = r.u();
    if (i == 0 && r.p(0.9)) u = 0;
    if (u < 0.15) cop(p, "init", r);
    else if (u < 0.4) cop(p, "move", r);
    else if (u < 0.65) cop(p, "measure", r).set("kind", r.irange(0, 8)).set("points", r.p(0.1) ? 0 : r.irange(1, 5));
    else cop(p, "resample", r);
  }
}
void gen_filter(Plan & p, sim::Rng & r) { gen_pf(p, r, false); }
void exec_pf(const Plan & p, bool c18, bool c19)
{
  size_t mn = static_cast<size_t>(p.integer("min", 10)), mx = static_cast<size_t>(p.integer("max", 100));
  MotionModelPtr mm = std::make_shared<MotionModel>(p.num("a1"), p.num("a2"), p.num("a3"), p.num("a4"), p.num("a5"));
  ParticleFilter f(mn, mx, mm);
  std::vector<V3> P = particles(f);
  std::vector<double> W(P.size(), 1.0);
  if (c18) { check_particles(P, mn, mx, "after construction"); check_estimate(f, P, W, "after construction"); }
  for (auto & o : p.ops)
  {
    sim::Rng r = orng(o);
    sim::count(("op_" + o.kind).c_str());
    std::string when = "after " + o.kind;
    if (o.kind == "init")
    {
      double far = r.p(0.2) ? 300 : 10;
      double x = r.range(-far, far), y = r.range(-far, far), th = r.p(0.2) ? M_PI : r.range(-M_PI, M_PI);
      double s1 = r.p(0.2) ? 1e-6 : std::pow(10.0, r.range(-3, 1)), s2 = r.p(0.2) ? 1e-6 : std::pow(10.0, r.range(-3, 1)), s3 = r.p(0.2) ? 1e-6 : std::pow(10.0, r.range(-3, 0.7));
      if (r.p(0.1)) { s1 = 50; s2 = 50; s3 = 10; }
      size_t had = P.size();
      f.init(x, y, th, s1, s2, s3);
      P = particles(f); W.assign(P.size(), 1.0);
      if (c18)
      {
        double n = static_cast<double>(P.size()), at[3] = {x, y, th}, sd[3] = {s1, s2, s3};
        for (int k = 0; k < 3; ++k)
        {
          if (k == 2 && sd[k] > 0.3) continue;
          double fl = 1e-6 * (1 + std::fabs(at[k])), m = 0, v = 0;
          auto dev = [&](const V3 & q) { return k == 2 ? wrapa(q(k) - at[k]) : q(k) - at[k]; };
          for (auto & q : P) { chk(std::fabs(dev(q)) <= 9 * sd[k] + fl, "init-place", "initializing at " + fnum(x) + " " + fnum(y) + " " + fnum(th) + " with deviation " + fnum(sd[k]) + " puts a particle at " + v3(q)); m += dev(q); }
          m /= n;
          if (n < 30 || sd[k] < 100 * fl) continue;
          for (auto & q : P) v += (dev(q) - m) * (dev(q) - m);
          v = std::sqrt(v / n);
          chk(std::fabs(m) <= 8 * sd[k] / std::sqrt(n) + fl, "init-biased", "initialized particles are off by " + fnum(m) + " on average, the deviation is " + fnum(sd[k]));
          chk(std::fabs(v - sd[k]) <= 8 * sd[k] / std::sqrt(2 * n) + fl, "init-deviation", "initialized particles deviate by " + fnum(v) + " instead of " + fnum(sd[k]));
          sim::count("probe_init_spread");
        }
      }
      if (c18) chk(P.size() >= std::min(had, mn), "particle-count", "initializing left " + std::to_string(P.size()) + " of " + std::to_string(had) + " particles");
    }
    else if (o.kind == "move")
    {
      double d = r.p(0.2) ? 0 : r.range(-1, 1), s = r.p(0.7) ? 0 : r.range(-1, 1), t = r.p(0.3) ? 0 : r.range(-M_PI, M_PI);
      std::vector<V3> Q = P;
      f.update(d, s, t);
      P = particles(f);
      chk(P.size() == Q.size(), "particle-count", "moving turned " + std::to_string(Q.size()) + " particles into " + std::to_string(P.size()));
    }
    else if (o.kind == "measure")
    {
      auto m = std::make_shared<FieldMatcher>();
      m->kind = static_cast<int>(o.integer("kind")); m->seed = r.next();
      const V3 & c = P[r.below(P.size())];
      m->cx = c(0) + 0.1 * r.gauss(); m->cy = c(1) + 0.1 * r.gauss(); m->cth = c(2); m->w = std::pow(10.0, r.range(-1, 1)); m->hot = r.below(P.size());
      auto s = std::make_shared<Scan>(0);
      s->setPose(Pose2d(r.range(-50, 50), 3, 1));     // must not matter
      std::vector<Point> pts(static_cast<size_t>(o.integer("points", 1)));
      for (auto & q : pts) { q.x = r.range(-3, 3); q.y = r.range(-3, 3); }
      s->setPoints(pts);
      if (pts.empty() || m->kind == 0) sim::count("fault_no_information");
      f.measure(m, s);
      std::vector<V3> Q = particles(f);
      chk(Q.size() == P.size(), "particle-count", "measuring turned " + std::to_string(P.size()) + " particles into " + std::to_string(Q.size()));
      bool same = true;
      for (size_t i = 0; i < P.size() && same; ++i) same = Q[i] == P[i];
      chk(same, "measure-moved", "measuring moved a particle");
      chk(m->asked.size() == P.size(), "measure-count", std::to_string(m->asked.size()) + " scores were taken of " + std::to_string(P.size()) + " particles");
      // each particle's weight is the score taken at its pose
      double sum = 0;
      for (size_t i = 0; i < P.size(); ++i)
      {
        const Pose2d & a = m->asked[i];
        chk(a.x == P[i](0) && a.y == P[i](1) && std::fabs(wrapa(a.theta - P[i](2))) < 1e-9, "measure-pose", "particle " + v3(P[i]) + " was scored at another pose: " + fnum(a.x) + " " + fnum(a.y) + " " + fnum(a.theta));
        sum += m->given[i];
      }
      W.resize(P.size());
      if (std::isnormal(sum)) for (size_t i = 0; i < P.size(); ++i) W[i] = std::fabs(m->given[i]);
      else W.assign(P.size(), 1.0);
      when += " (field " + std::to_string(m->kind) + ")";
    }
    else if (o.kind == "resample")
    {
      double err = r.p(0.5) ? 0.01 : std::pow(10.0, r.range(-3, -0.3)), z = r.p(0.5) ? 0.99 : r.range(0.5, 3);
      f.resample(err, z);
      std::vector<V3> Q = particles(f);
      when += " of " + std::to_string(P.size()) + " particles";
      if (c19)
      {
        chk(Q.size() >= mn && Q.size() <= mx, "particle-count", std::to_string(Q.size()) + " particles after resampling, configured are " + std::to_string(mn) + " to " + std::to_string(mx));
        // membership
        std::map<std::array<double, 2>, std::vector<size_t>> by;
        for (size_t i = 0; i < P.size(); ++i) by[{P[i](0), P[i](1)}].push_back(i);
        std::vector<double> cnt(P.size(), 0);
        bool dup = false;
        for (auto & q : Q)
        {
          auto i = by.find({q(0), q(1)});
          bool found = false;
          if (i != by.end()) for (size_t k : i->second) if (std::fabs(wrapa(P[k](2) - q(2))) < 1e-9 && W[k] > 0) { found = true; cnt[k] += 1; if (i->second.size() > 1) dup = true; break; }
          chk(found, "not-a-particle", "resampling made the particle " + v3(q) + " which did not exist with a weight before");
        }
        // proportion, when the number drawn does not depend on what was drawn
        double sw = 0; for (double w : W) sw += w;
        if (mn == mx && !dup)
        {
          double n = static_cast<double>(Q.size());
          double best = 0, bestv = 1; std::vector<size_t> ord(P.size()); std::iota(ord.begin(), ord.end(), 0);
          auto test = [&](double c, double pr, const std::string & what) {
            double e = n * pr, sd = std::sqrt(n * pr * (1 - pr)), lim = 8 * sd + 8;
            if (std::fabs(c - e) - lim > best) { best = std::fabs(c - e) - lim; bestv = c; }
            chk(std::fabs(c - e) <= lim, "not-proportional", what + " with " + fnum(pr) + " of the weight was drawn " + fnum(c) + " times out of " + fnum(n));
          };
          (void)bestv;
          for (size_t i = 0; i < P.size(); ++i) test(cnt[i], W[i] / sw, "a particle");
          std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return W[a] > W[b]; });
          double c = 0, w = 0;
          for (size_t k = 0; k < ord.size(); ++k) { c += cnt[ord[k]]; w += W[ord[k]] / sw; if (k * 2 == ord.size() || k * 10 == ord.size() || k * 4 == ord.size()) test(c, std::min(w, 1.0), "the heaviest " + std::to_string(k + 1) + " particles"); }
          c = 0; w = 0;
          for (size_t k = 0; k < P.size() / 2; ++k) { c += cnt[k]; w += W[k] / sw; }
          test(c, std::min(w, 1.0), "the first half");
          sim::count("probe_proportion");
        }
        // stopping rule over the prefixes (the particles are in the order they were drawn)
        std::set<std::array<i64, 3>> bins; bool unclear = false;
        const double TH = M_PI / 12.0;
        for (size_t m = 1; m <= Q.size() && !unclear; ++m)
        {
          const V3 & q = Q[m - 1];
          double b[3] = {q(0) / 0.5, q(1) / 0.5, q(2) / TH};
          for (int k = 0; k < 3; ++k) if (std::fabs(b[k] - std::round(b[k])) < 1e-9 && (k == 2 || b[k] != std::round(b[k]))) unclear = true;
          bins.insert({static_cast<i64>(std::floor(b[0])), static_cast<i64>(std::floor(b[1])), static_cast<i64>(std::floor(b[2]))});
          double k1 = static_cast<double>(bins.size()) - 1;
          if (k1 < 1 || unclear) continue;
          double bb = 2 / (9 * k1), c = 1 - bb + std::sqrt(bb) * z, bound = k1 / (2 * err) * c * c * c;
          double lo = std::max(static_cast<double>(mn), std::floor(bound * (1 - 1e-12))), hi = std::max(static_cast<double>(mn), std::ceil(bound * (1 + 1e-12)));
          std::string d = "after " + std::to_string(m) + " draws in " + std::to_string(bins.size()) + " bins the bound is " + fnum(bound) + " (min " + std::to_string(mn) + ", max " + std::to_string(mx) + ")";
          if (m < Q.size()) chk(static_cast<double>(m) < hi, "drawn-too-many", d + " but drawing went on to " + std::to_string(Q.size()));
          else chk(static_cast<double>(m) >= lo || m == mx, "drawn-too-few", d + " but drawing stopped");
        }
        if (!unclear) { sim::count("probe_kld"); if (Q.size() > mn && Q.size() < mx) sim::count("probe_kld_between"); }
        // no single particle multiplied out of nothing: all draws the same needs all weight on one
      }
      P = Q; W.assign(P.size(), 1.0);
    }
    if (c18) check_particles(P, mn, mx, when);
    // what is drawn is weighted equally: the estimate is the plain one of the new particles
    if (c18 || o.kind == "resample") check_estimate(f, P, W, when);
    if (P.empty()) return;
  }
}
void exec_filter(const Plan & p) { exec_pf(p, true, false); }

// ---------------------------------------------------------------- C19
void gen_resample(Plan & p, sim::Rng & r)
{
  if (r.p(0.5)) { gen_pf(p, r, true); p.set("mode", "pf"); return; }
  p.set("mode", "tree");
  p.set("span", std::pow(10.0, r.range(-0.5, 2)));
  int n = r.irange(2, 8);
  for (int i = 0; i < n; ++i)
  {
    cop(p, "fill", r).set("n", r.p(0.5) ? r.irange(1, 12) : r.irange(12, 300)).set("shape", r.irange(0, 5));
    if (r.p(0.4)) cop(p, "clear", r);
  }
}
void exec_resample(const Plan & p)
{
  if (p.str("mode") == "pf") { exec_pf(p, false, true); return; }
  KDTree<double> t(0.5, 0.5, M_PI / 12.0, 100);
  const double TH = M_PI / 12.0;
  std::set<std::array<i64, 3>> bins;
  double span = p.num("span", 3);
  auto cmp = [&](const std::string & when) {
    chk(t.getLeafCount() == bins.size(), "bin-count", when + " the counter says " + std::to_string(t.getLeafCount()) + " bins, distinct ones inserted are " + std::to_string(bins.size()));
  };
  cmp("initially");
  for (auto & o : p.ops)
  {
    sim::Rng r = orng(o);
    sim::count(("op_" + o.kind).c_str());
    if (o.kind == "clear") { t.clear(); bins.clear(); cmp("after clearing"); continue; }
    int shape = static_cast<int>(o.integer("shape"));
    V3 prev(0.1, 0.1, 0.1);
    for (i64 i = 0; i < o.integer("n", 1); ++i)
    {
      V3 q(r.range(-span, span), r.range(-span, span), r.range(-M_PI, M_PI));
      if (shape == 1) { q(1) = 0.2; q(2) = 0.1; }
      if (shape == 2) { q = V3(0.25 + 0.5 * static_cast<double>(i), 0.25 + 0.5 * static_cast<double>(i), 0.1); if (q(0) > span) q = V3(0.25 - 0.5 * static_cast<double>(i), 0.25, 0.1); }
      if (shape == 3) { q = V3(0.25 + 0.5 * r.irange(-2, 2), 0.25 + 0.5 * r.irange(-2, 2), TH * (0.5 + r.irange(-2, 2))); }
      if (shape == 4) { q(0) = 0.1; q(1) = -0.1; }
      if (shape == 5) { q = prev; size_t k = r.below(3); q(static_cast<Eigen::Index>(k)) += (r.p(0.5) ? 1 : -1) * (k == 2 ? TH : 0.5); if (q(2) > 3 || q(2) < -3) q(2) = 0.1; }
      prev = q;
      double b[3] = {q(0) / 0.5, q(1) / 0.5, q(2) / TH};
      bool edge = false;
      for (double x : b) if (std::fabs(x - std::round(x)) < 1e-9) edge = true;
      if (edge) continue;
      double w = r.u();
      t.insert(q, w);
      bins.insert({static_cast<i64>(std::floor(b[0])), static_cast<i64>(std::floor(b[1])), static_cast<i64>(std::floor(b[2]))});
      lognum(q(0));
      cmp("after inserting " + v3(q));
    }
    sim::count("probe_tree");
  }
}

// ---------------------------------------------------------------- C20
void gen_motion(Plan & p, sim::Rng & r)
{
  bool zero = r.p(0.25);
  p.set("noisy", zero ? 0 : 1);
  for (int i = 1; i <= 5; ++i) p.set("a" + std::to_string(i), zero ? 0.0 : r.p(0.3) ? 0.0 : std::pow(10.0, r.range(-4, -0.5)));
  p.set("n", zero ? r.irange(1, 40) : 4000);
  p.set("pose", zero ? 1 : r.irange(0, 1));
  int n = zero ? r.irange(1, 30) : r.irange(1, 4);
  for (int i = 0; i < n; ++i) cop(p, "sample", r).set("how", r.irange(0, 7));
}
void exec_motion(const Plan & p)
{
  double a[6]; for (int i = 1; i <= 5; ++i) a[i] = p.num("a" + std::to_string(i));
  bool noisy = p.integer("noisy") != 0;
  MotionModel mm(a[1], a[2], a[3], a[4], a[5]);
  sim::Rng pr(p.seed ^ 55);
  size_t N = static_cast<size_t>(p.integer("n", 10));
  std::vector<V3> P;
  for (size_t i = 0; i < N; ++i) P.push_back(p.integer("pose") ? V3(pr.range(-30, 30), pr.range(-30, 30), pr.p(0.1) ? (pr.p(0.5) ? M_PI : -M_PI) : pr.range(-M_PI, M_PI)) : V3(1, 2, 0.5));
  std::vector<double> lastdev;
  for (auto & o : p.ops)
  {
    sim::Rng r = orng(o);
    sim::count("op_sample");
    double dx = 0, dy = 0, dth = 0, m = r.p(0.3) ? r.range(0.001, 0.02) : r.range(0.02, 2);
    switch (o.integer("how"))
    {
      case 0: dx = m; break;
      case 1: dx = -m; break;
      case 2: dth = r.range(-3, 3); break;
      case 3: dx = m; dth = r.range(-3, 3); break;
      case 4: dx = -m; dth = r.range(-0.5, 0.5); break;
      case 5: { double b = r.range(-M_PI, M_PI); dx = m * std::cos(b); dy = m * std::sin(b); dth = r.range(-3, 3); break; }
      case 6: dy = r.p(0.5) ? m : -m; dth = r.range(-1, 1); break;
      default: dx = 0; dy = 0; dth = 0;
    }
    if (r.p(0.1)) dth = r.p(0.5) ? M_PI : -M_PI;
    std::vector<V3> Q = P;
    mm.sample(dx, dy, dth, Q);
    std::string what = "motion " + fnum(dx) + " " + fnum(dy) + " " + fnum(dth);
    chk(Q.size() == P.size(), "particle-count", what + " changed the number of particles");
    double trans = std::hypot(dx, dy);
    for (size_t i = 0; i < N; ++i)
    {
      chk(Q[i].allFinite(), "not-finite", what + " from " + v3(P[i]) + " gives " + v3(Q[i]));
      chk(std::fabs(Q[i](2)) <= M_PI + 1e-9, "heading-range", what + " from " + v3(P[i]) + " gives the heading " + fnum(Q[i](2)));
      if (i < 20) { lognum(Q[i](0)); lognum(Q[i](2)); }
    }
    // standard deviations of the odometry motion model
    double b1 = trans > 0.01 ? std::atan2(dy, dx) : 0.0, b2 = wrapa(dth - b1);
    double e1 = std::min(std::fabs(wrapa(b1)), std::fabs(wrapa(b1 - M_PI))), e2 = std::min(std::fabs(wrapa(b2)), std::fabs(wrapa(b2 - M_PI)));
    double s1 = std::sqrt(a[1] * e1 * e1 + a[2] * trans * trans), st = std::sqrt(a[3] * trans * trans + a[4] * (e1 * e1 + e2 * e2)), s2 = std::sqrt(a[1] * e2 * e2 + a[2] * trans * trans);
    if (!noisy)
    {
      double tol = 4e-6 * (1 + trans);
      for (size_t i = 0; i < N; ++i)
      {
        double c = std::cos(P[i](2)), s = std::sin(P[i](2));
        double ex = P[i](0) + c * dx - s * dy, ey = P[i](1) + s * dx + c * dy, et = P[i](2) + dth;
        double d = std::hypot(Q[i](0) - ex, Q[i](1) - ey);
        if (trans > 0.0100001) chk(d <= tol, "exact-translation", what + " without noise moves " + v3(P[i]) + " to " + v3(Q[i]) + " instead of " + fnum(ex) + " " + fnum(ey));
        else chk(std::fabs(std::hypot(Q[i](0) - P[i](0), Q[i](1) - P[i](1)) - trans) <= tol || d <= tol, "exact-translation", what + " without noise moves " + v3(P[i]) + " to " + v3(Q[i]));
        chk(std::fabs(wrapa(Q[i](2) - et)) <= 4e-6, "exact-rotation", what + " without noise turns " + v3(P[i]) + " to " + v3(Q[i]));
      }
      sim::count("probe_exact");
      P = Q;
      continue;
    }
    // samples
    double n = static_cast<double>(N);
    std::vector<double> T, R1, R2, S;
    bool sep = trans > 0.02 && trans > 6.5 * st && s1 < 0.45 && s2 < 0.45;
    for (size_t i = 0; i < N; ++i)
    {
      double vx = Q[i](0) - P[i](0), vy = Q[i](1) - P[i](1);
      S.push_back(wrapa(Q[i](2) - P[i](2) - dth));
      if (sep)
      {
        double t = std::hypot(vx, vy), r1 = wrapa(std::atan2(vy, vx) - P[i](2) - b1);
        T.push_back(t - trans); R1.push_back(r1); R2.push_back(wrapa(Q[i](2) - P[i](2) - (r1 + b1) - b2));
      }
    }
    auto stat = [&](const std::vector<double> & v, double & mean, double & sd) {
      mean = 0; for (double x : v) mean += x; mean /= n;
      sd = 0; for (double x : v) sd += (x - mean) * (x - mean); sd = std::sqrt(sd / n);
    };
    auto check = [&](const char * name, const std::vector<double> & v, double s, double fl) {
      double mean, sd; stat(v, mean, sd);
      chk(std::fabs(mean) <= 8 * s / std::sqrt(n) + fl, "biased", std::string(name) + " of " + what + " is off by " + fnum(mean) + " on average over " + fnum(n) + " particles (deviation " + fnum(s) + ")");
      chk(std::fabs(sd - s) <= 8 * s / std::sqrt(2 * n) + fl, "deviation", std::string(name) + " of " + what + " has the deviation " + fnum(sd) + " instead of " + fnum(s));
      // successive particles
      if (s > 100 * fl)
      {
        double c = 0; for (size_t i = 1; i < N; ++i) c += (v[i] - mean) * (v[i - 1] - mean);
        c /= n * sd * sd;
        chk(std::fabs(c) <= 8 / std::sqrt(n), "not-independent", std::string(name) + " of successive particles is correlated by " + fnum(c));
        std::set<double> d(v.begin(), v.end());
        chk(static_cast<double>(d.size()) > 0.5 * n, "not-independent", std::string(name) + " takes only " + std::to_string(d.size()) + " values for " + fnum(n) + " particles");
      }
    };
    double fl = 1e-5;
    double sth = std::sqrt(s1 * s1 + s2 * s2);
    if (sth < 0.45) { check("heading change", S, sth, fl); sim::count("probe_noise_heading"); }
    if (sep)
    {
      check("translation", T, st, fl);
      double f1 = fl + 1e-4 / std::max(trans, 0.02) * 1e-1;
      check("first rotation", R1, s1, f1); check("second rotation", R2, s2, f1);
      auto corr = [&](const char * nm, const std::vector<double> & x, const std::vector<double> & y, double sx, double sy) {
        if (sx < 1e-2 || sy < 1e-2) return;
        double mx, my, dx2, dy2, c = 0; stat(x, mx, dx2); stat(y, my, dy2);
        for (size_t i = 0; i < N; ++i) c += (x[i] - mx) * (y[i] - my);
        c /= n * dx2 * dy2;
        chk(std::fabs(c) <= 8 / std::sqrt(n), "not-independent", std::string(nm) + " of " + what + " are correlated by " + fnum(c));
      };
      corr("translation and first rotation", T, R1, st, s1); corr("first and second rotation", R1, R2, s1, s2); corr("translation and second rotation", T, R2, st, s2);
      sim::count("probe_noise_all");
    }
    // successive motions are perturbed anew
    if (!lastdev.empty() && sth > 1e-3 && sth < 0.45)
    {
      double mx, my, sx, sy, c = 0; stat(lastdev, mx, sx); stat(S, my, sy);
      if (sx > 1e-3 && sy > 1e-3)
      {
        for (size_t i = 0; i < N; ++i) c += (lastdev[i] - mx) * (S[i] - my);
        c /= n * sx * sy;
        chk(std::fabs(c) <= 8 / std::sqrt(n), "not-independent", "the errors of two successive motions are correlated by " + fnum(c));
      }
    }
    if (sth > 1e-3 && sth < 0.45) lastdev = S; else lastdev.clear();
    if (r.p(0.5)) P = Q;
  }
}

// What the particle filter does inside the node: every processed scan's scores and the cloud that follows.
#include "model.hpp"
#include <algorithm>
#include <array>
#include <cmath>

static P2 particle(const geometry_msgs::msg::Pose & p) { return P2{p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w)}; }
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
static const CloudRec * cloud_of(const CbRec & c)
{
  const CloudRec * r = nullptr;
  for (auto i = H.clouds.rbegin(); i != H.clouds.rend() && i->seq > c.seq0; ++i)
    if (i->group == c.group && i->seq < c.seq1) r = &*i;
  return r;
}
void PfModel::init(const Plan & p)
{
  *this = PfModel();
  mn = static_cast<size_t>(p.parnum("min_particles", 100)); mx = static_cast<size_t>(p.parnum("max_particles", 500));
  err = p.parnum("kld_err", 0.01); z = p.parnum("kld_z", 2.3);
  for (int i = 1; i <= 5; ++i) a[i] = p.parnum(("odom_alpha" + std::to_string(i)).c_str(), 0.2);
}
void PfModel::take(const CloudRec & r, const std::string & when)
{
  last.clear();
  for (auto & q : r.m.poses)
  {
    last.push_back(particle(q));
    chk("C18,C22", std::isfinite(q.position.x + q.position.y + q.orientation.z + q.orientation.w), "particle-not-finite", "a particle published " + when + " is " + pstr(last.back()));
  }
  chk("C18,C19", last.size() >= mn && last.size() <= mx, "particle-count", std::to_string(last.size()) + " particles are published " + when + ", configured are " + std::to_string(mn) + " to " + std::to_string(mx));
  known = true;
}
bool PfModel::mean(P2 & m) const
{
  if (!known || last.empty()) return false;
  long double x = 0, y = 0, c = 0, s = 0, n = last.size();
  for (auto & q : last) { x += q.x; y += q.y; c += std::cos(q.th); s += std::sin(q.th); }
  if (std::hypot(c, s) < 1e-3L * n) return false;
  m = P2{static_cast<double>(x / n), static_cast<double>(y / n), static_cast<double>(std::atan2(s, c))};
  return true;
}
void PfModel::Acc::add(double v, double sd, double fl, const std::string & what)
{
  if (sd < 100 * fl)
  {
    chk("C20", std::fabs(v) <= 9 * sd + fl, "exact", what + " of a particle is off by " + num(v) + " where the odometry noise has the deviation " + num(sd));
    return;
  }
  v /= sd; n += 1; s += v; s2 += v * v; if (n > 1) c += v * prev; prev = v;
  chk("C20", std::fabs(v) < 10, "outlier", what + " of a particle is off by " + num(v) + " standard deviations of the odometry noise");
}
void PfModel::Acc::test(const char * prop, const std::string & what) const
{
  if (n < 40) return;
  double m = s / n, d = std::sqrt(std::max(0.0, s2 / n - m * m));
  chk(prop, std::fabs(m) <= 8 / std::sqrt(n) + 1e-3, "biased", what + " is off by " + num(m) + " standard deviations on average over " + num(n) + " particles");
  chk(prop, std::fabs(d - 1) <= 8 / std::sqrt(2 * n) + 1e-3, "deviation", what + " has " + num(d) + " times the standard deviation it should have over " + num(n) + " particles");
  chk(prop, std::fabs(c / n) <= 8 / std::sqrt(n) + 8 / n, "not-independent", what + " of successive particles is correlated by " + num(c / n));
}
void PfModel::on_pose(const CbRec & c, const PoseSent & s, const std::string & name)
{
  const CloudRec * r = cloud_of(c);
  known = false;
  if (!r) return;
  take(*r, "after " + name);
  double sd[3] = {std::sqrt(s.cov[0]), std::sqrt(s.cov[7]), std::sqrt(s.cov[35])};
  for (auto & q : last)
  {
    double d[3] = {q.x - s.p.x, q.y - s.p.y, wrap(q.th - s.p.th)};
    double fl = 1e-6 * (1 + std::fabs(s.p.x) + std::fabs(s.p.y));
    for (int k = 0; k < 3; ++k)
    {
      if (!std::isfinite(sd[k]) || (k == 2 && sd[2] > 0.4)) continue;         // not a variance: anything finite
      chk("C18,C21", std::fabs(d[k]) <= 9 * sd[k] + fl, "not-at-pose", "after " + name + " at " + pstr(s.p) + " there is a particle at " + pstr(q) + ", the standard deviations given are " + num(sd[0]) + " " + num(sd[1]) + " " + num(sd[2]));
      if (sd[k] > 100 * fl) { Acc & a = spread[k]; double v = d[k] / sd[k]; a.n += 1; a.s += v; a.s2 += v * v; if (a.n > 1) a.c += v * a.prev; a.prev = v; }
    }
  }
  static const char * nm[] = {"x of initialized particles", "y of initialized particles", "the heading of initialized particles"};
  for (int k = 0; k < 3; ++k) spread[k].test("C18", nm[k]);
  sim::count("probe_pf_init");
}
void PfModel::on_scan(const CbRec & c, const std::vector<MEv *> & ev, const P2 & d, bool d_known, const std::string & name)
{
  const CloudRec * r = cloud_of(c);
  std::vector<MEv *> sc;
  for (auto * e : ev) if (e->k == MEv::SCOREPTS) sc.push_back(e);
  if (!r) { known = false; return; }
  sim::count("probe_pf_update");
  // the motion, particle by particle
  if (known && d_known && sc.size() == last.size() && deciding("C20")) motion(sc, d, name);
  if (!sc.empty() && known)
    chk("C18", sc.size() == last.size(), "measure-count", std::to_string(sc.size()) + " scores were taken of " + std::to_string(last.size()) + " particles for " + name);
  take(*r, "after " + name);
  if (sc.empty()) return;
  // members with a weight, in proportion
  double sum = 0; bool fin = true;
  for (auto * e : sc) { sum += e->score; fin = fin && std::isfinite(e->score); }
  bool informative = fin && std::isnormal(sum);
  if (!informative) sim::count("probe_pf_no_information");
  std::map<std::array<double, 2>, std::vector<size_t>> by;
  for (size_t i = 0; i < sc.size(); ++i) by[{sc[i]->pose.x, sc[i]->pose.y}].push_back(i);
  std::vector<double> cnt(sc.size(), 0); bool dup = false;
  for (auto & q : last)
  {
    bool found = false;
    auto i = by.find({q.x, q.y});
    if (i != by.end()) for (size_t k : i->second)
      if (std::fabs(wrap(sc[k]->pose.th - q.th)) < 1e-9 && (!informative || sc[k]->score != 0)) { found = true; cnt[k] += 1; if (i->second.size() > 1) dup = true; break; }
    chk("C19", found, "not-a-particle", "after " + name + " the particle " + pstr(q) + " is published, which did not exist with a weight before resampling");
  }
  double n = static_cast<double>(last.size());
  if (mn == mx && !dup && !by.empty())
  {
    std::vector<size_t> o(sc.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i;
    auto w = [&](size_t i) { return informative ? sc[i]->score / sum : 1.0 / static_cast<double>(sc.size()); };
    std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return w(x) > w(y); });
    double cc = 0, ww = 0;
    for (size_t k = 0; k < o.size(); ++k)
    {
      cc += cnt[o[k]]; ww += w(o[k]);
      double pr = std::min(1.0, std::max(0.0, ww));
      chk("C19", std::fabs(cc - n * pr) <= 8 * std::sqrt(n * pr * (1 - pr)) + 8, "not-proportional", "after " + name + " the heaviest " + std::to_string(k + 1) + " particles with " + num(pr) + " of the weight were drawn " + num(cc) + " times out of " + num(n));
    }
    sim::count("probe_pf_proportion");
  }
  // stopping rule over the particles in the order they were drawn
  std::set<std::array<i64, 3>> bins;
  const double TH = M_PI / 12.0;
  for (size_t m = 1; m <= last.size(); ++m)
  {
    const P2 & q = last[m - 1];
    double b[3] = {q.x / 0.5, q.y / 0.5, q.th / TH};
    for (int k = 0; k < 3; ++k) if (std::fabs(b[k] - std::round(b[k])) < 1e-9) return;
    bins.insert({static_cast<i64>(std::floor(b[0])), static_cast<i64>(std::floor(b[1])), static_cast<i64>(std::floor(b[2]))});
    double k1 = static_cast<double>(bins.size()) - 1;
    if (k1 < 1) continue;
    double bb = 2 / (9 * k1), cc = 1 - bb + std::sqrt(bb) * z, bound = k1 / (2 * err) * cc * cc * cc;
    double lo = std::max(static_cast<double>(mn), std::floor(bound * (1 - 1e-12))), hi = std::max(static_cast<double>(mn), std::ceil(bound * (1 + 1e-12)));
    std::string t = "resampling for " + name + ": after " + std::to_string(m) + " draws in " + std::to_string(bins.size()) + " bins the bound is " + num(bound) + " (kld_err " + num(err) + ", kld_z " + num(z) + ", min " + std::to_string(mn) + ", max " + std::to_string(mx) + ")";
    if (m < last.size()) chk("C19", static_cast<double>(m) < hi, "drawn-too-many", t + " but drawing went on to " + std::to_string(last.size()));
    else chk("C19", static_cast<double>(m) >= lo || m == mx, "drawn-too-few", t + " but drawing stopped");
  }
  sim::count("probe_pf_kld");
  if (last.size() > mn && last.size() < mx) sim::count("probe_pf_kld_between");
}
void PfModel::motion(const std::vector<MEv *> & sc, const P2 & d, const std::string & name)
{
  double trans = std::hypot(d.x, d.y), dth = wrap(d.th);
  if (std::fabs(trans - 0.01) < 1e-4) return;
  double b1 = trans > 0.01 ? std::atan2(d.y, d.x) : 0.0, b2 = wrap(dth - b1);
  double e1 = std::min(std::fabs(wrap(b1)), std::fabs(wrap(b1 - M_PI))), e2 = std::min(std::fabs(wrap(b2)), std::fabs(wrap(b2 - M_PI)));
  double s1 = std::sqrt(a[1] * e1 * e1 + a[2] * trans * trans), st = std::sqrt(a[3] * trans * trans + a[4] * (e1 * e1 + e2 * e2)), s2 = std::sqrt(a[1] * e2 * e2 + a[2] * trans * trans);
  double sth = std::sqrt(s1 * s1 + s2 * s2), fl = 1e-5;
  bool exact = s1 == 0 && st == 0 && s2 == 0, sep = trans > 0.02 && trans > 7 * st && s1 < 0.3 && s2 < 0.3;
  for (size_t i = 0; i < sc.size(); ++i)
  {
    const P2 & P = last[i], & Q = sc[i]->pose;
    double vx = Q.x - P.x, vy = Q.y - P.y, s = wrap(Q.th - P.th - dth);
    std::string what = name + ": odometry " + num(d.x) + " " + num(d.y) + " " + num(dth) + ": ";
    if (exact)
    {
      double c = std::cos(P.th), n = std::sin(P.th);
      double off = std::hypot(vx - (c * d.x - n * d.y), vy - (n * d.x + c * d.y));
      bool ok = off <= 1e-5 * (1 + trans) || (trans < 0.01 && std::fabs(std::hypot(vx, vy) - trans) <= 1e-5);
      chk("C20", ok && std::fabs(s) <= 1e-5, "exact-motion", what + "without noise the particle " + pstr(P) + " is moved to " + pstr(Q));
      continue;
    }
    if (sth < 0.3) turn.add(s, sth, fl, what + "the heading change");
    if (sep)
    {
      double t = std::hypot(vx, vy), r1 = wrap(std::atan2(vy, vx) - P.th - b1), f1 = fl + 1e-5 / std::max(trans, 0.02);
      tr.add(t - trans, st, fl, what + "the translation"); ro1.add(r1, s1, f1, what + "the first rotation"); ro2.add(wrap(Q.th - P.th - r1 - b1 - b2), s2, f1, what + "the second rotation");
    }
  }
  turn.test("C20", "the heading change"); tr.test("C20", "the translation"); ro1.test("C20", "the first rotation"); ro2.test("C20", "the second rotation");
  sim::count(exact ? "probe_pf_motion_exact" : sep ? "probe_pf_motion_all" : "probe_pf_motion");
}

#include "model.hpp"
#include <Eigen/LU>
#include <Eigen/Cholesky>
#include <Eigen/Eigenvalues>
#include <algorithm>
#include <cstring>
using sim::SEC;

double pdist(const P2 & a, const P2 & b)
{
  double d = std::max({std::fabs(a.x - b.x), std::fabs(a.y - b.y), std::fabs(wrap(a.th - b.th))});
  return std::isnan(a.x + a.y + a.th + b.x + b.y + b.th) ? 1e300 : d;
}
Use usable(double score, const double * c, Eigen::Matrix3d * info)
{
  Eigen::Matrix3d m;
  bool fin = std::isfinite(score);
  for (int i = 0; i < 9; ++i) { m(i / 3, i % 3) = c[i]; fin = fin && std::isfinite(c[i]); }
  if (!fin) return UNUSABLE;
  Eigen::Matrix3d inv = m.inverse();
  if (info) *info = inv;
  if (!inv.allFinite()) return UNUSABLE;
  for (int i = 0; i < 3; ++i) if (m.row(i).isZero(0.0)) return UNUSABLE;
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> s(0.5 * (m + m.transpose()));
  double lo = s.eigenvalues()(0), hi = s.eigenvalues()(2);
  if (lo > 1e-9 * hi && lo > 1e-15) return USABLE;
  return UNCLEAR;
}
ConRec make_con(size_t from, const P2 & a, size_t to, const P2 & b, const Eigen::Matrix3d & info, bool sw)
{
  ConRec c; c.begin = static_cast<i64>(from); c.end = static_cast<i64>(to); c.sw = sw;
  P2 d = mulp(invp(a), b);
  c.t[0] = d.x; c.t[1] = d.y; c.t[2] = d.th;
  for (int i = 0; i < 9; ++i) c.info[i] = info(i / 3, i % 3);
  return c;
}
std::string con_diff(const ConRec & g, const ConRec & w)
{
  char b[300];
  if (g.begin != w.begin || g.end != w.end || g.sw != w.sw)
  {
    snprintf(b, sizeof b, "joins %lld->%lld%s, expected %lld->%lld%s", static_cast<long long>(g.begin), static_cast<long long>(g.end), g.sw ? " (switchable)" : "",
             static_cast<long long>(w.begin), static_cast<long long>(w.end), w.sw ? " (switchable)" : "");
    return b;
  }
  if (!(std::fabs(g.t[0] - w.t[0]) < 1e-8 && std::fabs(g.t[1] - w.t[1]) < 1e-8 && std::fabs(wrap(g.t[2] - w.t[2])) < 1e-8))
  {
    snprintf(b, sizeof b, "%lld->%lld: transform (%.9g, %.9g, %.9g), expected (%.9g, %.9g, %.9g)", static_cast<long long>(g.begin), static_cast<long long>(g.end), g.t[0], g.t[1], g.t[2], w.t[0], w.t[1], w.t[2]);
    return b;
  }
  for (int i = 0; i < 9; ++i)
    if (!std::isfinite(g.info[i]))
    {
      snprintf(b, sizeof b, "%lld->%lld: information(%d,%d) = %.9g is not finite", static_cast<long long>(g.begin), static_cast<long long>(g.end), i / 3, i % 3, g.info[i]);
      return b;
    }
  // a pose given without covariance has a large information of some size
  if (std::isnan(w.info[0])) return g.info[0] > 0 && g.info[4] > 0 && g.info[8] > 0 ? "" : "a constraint without information";
  double mx = 0;
  for (double x : w.info) mx = std::max(mx, std::fabs(x));
  for (int i = 0; i < 9; ++i)
    if (!(std::fabs(g.info[i] - w.info[i]) <= 1e-5 * mx))
    {
      snprintf(b, sizeof b, "%lld->%lld: information(%d,%d) = %.9g, expected %.9g", static_cast<long long>(g.begin), static_cast<long long>(g.end), i / 3, i % 3, g.info[i], w.info[i]);
      return b;
    }
  return "";
}

void Model::init(const Plan & p)
{
  *this = Model();
  auto pb = [&](const char * k, bool d) { auto i = p.par.find(k); return i == p.par.end() ? d : i->second == "b:1"; };
  pf = pb("use_particle_filter", false); barycenter = pb("use_barycenter", true); mapping = pb("enable_mapping", true);
  min_dist = p.parnum("minimum_travel_distance", 0.1); min_rot = p.parnum("minimum_travel_rotation", 1.0);
  max_range = p.parnum("max_range", -1); search_size = p.parnum("global_search_size", 0.2);
  occ = p.parnum("occupancy_threshold", 0.25); res = p.parnum("resolution", 0.05);
  depth = static_cast<size_t>(p.parnum("rolling_depth", 10)); limit = static_cast<size_t>(p.parnum("global_search_limit", 3));
  opt_limit = static_cast<size_t>(p.parnum("optimization_node_limit", 25));
  pmin = static_cast<size_t>(p.parnum("min_particles", 100)); pmax = static_cast<size_t>(p.parnum("max_particles", 500));
  matcher = p.parstr("scan_matcher_type", "ndt_2d::ScanMatcherNDT");
  filter.init(p);
  pf_exact = pf && p.integer("pf_exact", 0);
  rmax = max_range;
  map_since = sim::now();
}
void Model::load(const Snap & s, bool boot)
{
  m = s;
  pts_known.assign(s.scans.size(), 1);
  poses_known = true; localized = false;
  excused.clear(); last_offered = -1; in_group = false; group_cut = false; group_k = -1; skips_allowed = 0;
  map_since = sim::now();
  first_pending = false;
  loaded_n = s.scans.size(); opt_due = -1; opt_last = 0;
  if (!boot) ++epoch;
}
P2 Model::key(const ScanRec & s) const
{
  P2 k = s.pose;
  if (!barycenter || s.pts.empty()) return k;
  double cx = 0, cy = 0, c = std::cos(s.pose.th), n = std::sin(s.pose.th);
  for (auto & p : s.pts) { cx += c * p[0] - n * p[1]; cy += n * p[0] + c * p[1]; }
  k.x += cx / static_cast<double>(s.pts.size()); k.y += cy / static_cast<double>(s.pts.size());
  return k;
}
std::vector<size_t> Model::nearest(const P2 & at, double dist, size_t n, bool * amb) const
{
  std::vector<std::pair<double, size_t>> v;
  for (size_t i = 0; i < n && i < m.scans.size(); ++i)
  {
    P2 k = key(m.scans[i]);
    double d = std::hypot(k.x - at.x, k.y - at.y);
    if (std::fabs(d - dist) < 1e-6) *amb = true;
    if (d < dist) v.push_back({d, i});
  }
  std::sort(v.begin(), v.end());
  std::vector<size_t> r;
  for (size_t i = 0; i < v.size(); ++i)
  {
    if (i && v[i].first - v[i - 1].first < 1e-9) *amb = true;
    r.push_back(v[i].second);
  }
  return r;
}
void Model::accept(const P2 & odom, const P2 & pose)
{
  po_old = po; pr_old = pr; old_known = pr_known; old_any = any_update;
  po = odom; pr = pose; pr_known = true; any_update = true; pr_mean = false; po_known = true; po_alts.clear();
}

// ------------------------------------------------------------------ points of a scan
static bool no_geometry(const sensor_msgs::msg::LaserScan & m) { return !std::isfinite(m.angle_min) || !std::isfinite(m.angle_increment) || !std::isfinite(m.time_increment); }
bool Model::unusable(const ScanSent & s) const
{
  const auto & m_ = *s.m;
  return no_geometry(m_) || (rmax < 0 && !(std::isfinite(m_.range_max) && m_.range_max > 0));
}
void Model::adopt(const ScanSent & s)
{
  if (rmax < 0 && !s.m->ranges.empty() && !unusable(s)) rmax = static_cast<double>(s.m->range_max);
}
bool Model::no_points(const ScanSent & s) const
{
  bool none;
  const_cast<Model *>(this)->check_points(s, {}, &none, true);
  return none;
}
void Model::check_points(const ScanSent & s, const std::vector<std::array<double, 2>> & pts, bool * none, bool count_only)
{
  const auto & m_ = *s.m;
  size_t n = m_.ranges.size();
  bool ok0 = false, ok1 = false;
  P2 o0 = odom_lookup(s.stamp, ok0);
  i64 tinc = static_cast<i64>(std::llround(static_cast<double>(m_.time_increment) * 1e9));
  P2 o1 = odom_lookup(s.stamp + static_cast<i64>(static_cast<double>(n ? n - 1 : 0) * static_cast<double>(m_.time_increment) * 1e9), ok1);
  (void)tinc;
  std::vector<size_t> valid;
  bool unclear = false;
  double hi = rmax;
  for (size_t i = 0; i < n; ++i)
  {
    double r = static_cast<double>(m_.ranges[i]);
    if (!std::isfinite(r)) continue;
    double lo = static_cast<double>(m_.range_min);
    // the configured limit might be compared as float or as double
    if (std::fabs(r - hi) < 1e-6 * (1 + hi) && static_cast<double>(static_cast<float>(hi)) != hi) unclear = true;
    if (r < lo || r > hi) continue;
    valid.push_back(i);
  }
  if (none) *none = valid.empty();
  if (count_only) return;
  if (!deciding("C11,C22") || unclear) return;
  char b[300];
  if (pts.size() != valid.size())
  {
    snprintf(b, sizeof b, "scan message #%llu (%s) has %zu valid readings, the processed scan has %zu points", static_cast<unsigned long long>(s.id), s.bad.c_str(), valid.size(), pts.size());
    chk("C11,C22", false, "points-count", b);
    return;
  }
  if (!ok0 || !ok1) return;
  sim::count("probe_points_checked", valid.size());
  P2 d = mulp(invp(o0), o1); d.th = wrap(d.th);
  std::vector<P2> want(valid.size()); std::vector<double> tol(valid.size());
  for (size_t j = 0; j < valid.size(); ++j)
  {
    size_t i = valid[j];
    double f = n > 1 ? static_cast<double>(i) / static_cast<double>(n - 1) : 0;
    double r = static_cast<double>(m_.ranges[i]);
    double a = static_cast<double>(m_.angle_min) + static_cast<double>(i) * static_cast<double>(m_.angle_increment);
    if (W.inverted) a = -a;
    P2 hit = mulp(W.mount, P2{r * std::cos(a), r * std::sin(a), 0});
    P2 at{d.x * f, d.y * f, d.th * f};
    want[j] = mulp(at, P2{hit.x, hit.y, 0});
    bool okt; P2 ot = odom_lookup(s.stamp + static_cast<i64>(static_cast<double>(i) * static_cast<double>(m_.time_increment) * 1e9), okt);
    double reach = std::hypot(hit.x, hit.y);
    double beam = n > 1 ? 1.0 / static_cast<double>(n - 1) : 0;
    tol[j] = (std::hypot(d.x, d.y) + std::fabs(d.th) * reach) * beam * 1.5 + 2e-6 + 2e-6 * reach;     // angles may be floats
    if (okt)
    {
      P2 e = mulp(invp(o0), ot);
      tol[j] += std::hypot(e.x - at.x, e.y - at.y) + std::fabs(wrap(e.th - at.th)) * reach;
    }
  }
  auto fits = [&](size_t j, size_t g) { return std::hypot(pts[g][0] - want[j].x, pts[g][1] - want[j].y) <= tol[j]; };
  // points may be stored in any order; forwards and backwards are the usual ones
  bool fwd = true, bwd = true;
  for (size_t j = 0; j < valid.size(); ++j) { fwd = fwd && fits(j, j); bwd = bwd && fits(j, pts.size() - 1 - j); }
  if (fwd || bwd) return;
  std::vector<char> used(pts.size(), 0);
  for (size_t j = 0; j < valid.size(); ++j)
  {
    size_t best = pts.size(); double bd = 1e300;
    for (size_t g = 0; g < pts.size(); ++g)
    {
      double x = std::hypot(pts[g][0] - want[j].x, pts[g][1] - want[j].y);
      if (!used[g] && x < bd) { bd = x; best = g; }
    }
    if (best < pts.size() && bd <= tol[j]) { used[best] = 1; continue; }
    size_t i = valid[j];
    snprintf(b, sizeof b, "scan message #%llu: beam %zu of %zu (range %.6g) should be the point (%.6f, %.6f) within %.2g m, but the nearest point of the scan is %.3g m away",
             static_cast<unsigned long long>(s.id), i, n, static_cast<double>(m_.ranges[i]), want[j].x, want[j].y, tol[j], bd);
    chk("C11", false, "points-place", b);
    return;
  }
}

// ------------------------------------------------------------------ matcher content
void Model::content_event(MEv & e)
{
  if (e.k == MEv::CREATE)
  {
    inst_cls[e.inst] = e.cls;
    chk("C12", e.cls == matcher, "plugin", "the node creates matcher plugin " + e.cls + ", configured is " + matcher);
  }
  else if (e.k == MEv::INIT)
  {
    inst_name[e.inst] = e.name;
    chk("C12", e.name == "local_scan_matcher" || e.name == "global_scan_matcher", "plugin-name", "a matcher is initialised as '" + e.name + "'");
    inst_range[e.inst] = e.range_max;
    chk("C11,C12,C22", std::isfinite(e.range_max), "init-range", e.name + " is initialised with a maximum range that is not finite");
  }
}
void Model::check_content(const MEv & e, size_t from, const char * prop, const char * what)
{
  if (!deciding(prop)) return;
  static const std::vector<ScanRec> nothing;
  const std::vector<ScanRec> & c = e.cidx < 0 ? nothing : H.mev[static_cast<size_t>(e.cidx)].add;
  char b[300];
  size_t want = m.scans.size() - from;
  if (c.size() != want)
  {
    snprintf(b, sizeof b, "%s was matched against %zu scans, expected the %zu scans %zu..%zu of the map", what, c.size(), want, from, m.scans.size());
    chk(prop, false, "content", b);
    return;
  }
  for (size_t i = 0; i < want; ++i)
  {
    const ScanRec & w = m.scans[from + i];
    bool stale = poses_known && !fuzzy && pdist(c[i].pose, w.pose) > 1e-9 && !moved_since(from + i, c[i].pose, e.seq0, e.t0);
    if (c[i].id != w.id || (pts_known[from + i] && !same_scan(c[i], w, false)) || stale)
    {
      snprintf(b, sizeof b, "%s was matched against a map in which scan %zu (id %llu, %zu points) is not as in the map (id %llu, %zu points): ", what, from + i,
               static_cast<unsigned long long>(c[i].id), c[i].pts.size(), static_cast<unsigned long long>(w.id), w.pts.size());
      chk(prop, false, "content", b + pstr(c[i].pose) + " versus " + pstr(w.pose));
      return;
    }
  }
}

// ------------------------------------------------------------------ events
static std::vector<MEv *> events_in(const CbRec & c)
{
  std::vector<MEv *> r;
  for (auto & e : H.mev) if (e.fiber == c.fiber && e.group == c.group && e.seq0 > c.seq0 && e.seq0 < c.seq1) r.push_back(&e);
  return r;
}
static std::vector<std::array<double, 2>> ev_points(const std::vector<MEv *> & ev)
{
  for (auto * e : ev) if (e->k == MEv::SCOREPTS) return e->scan.pts;
  return {};
}
void Model::on_scan(CbRec & c)
{
  auto si = H.scans.find(c.id);
  if (si == H.scans.end()) return;
  const ScanSent & s = si->second;
  const bool malformed = unusable(s);
  adopt(s);
  std::vector<MEv *> ev = events_in(c);
  MEv * match = nullptr; u64 scorepts = 0; int matches = 0; MEv * sp = nullptr;
  for (auto & i : inst_range)
  {
    char b[160]; snprintf(b, sizeof b, "%s is initialised for readings up to %.6g m, the effective maximum range is %.6g m", inst_name[i.first].c_str(), i.second, rmax);
    chk("C11,C12,C22", rmax < 0 || i.second >= rmax - 1e-6, "init-range", b);
  }
  for (auto * e : ev)
  {
    if (e->k == MEv::MATCH) { match = e; ++matches; }
    if (e->k == MEv::SCOREPTS) { ++scorepts; sp = e; }
  }
  bool touched = matches > 0 || scorepts > 0;
  std::string name = "scan message #" + std::to_string(s.id) + (s.bad.empty() ? "" : " (" + s.bad + ")");
  if (malformed) { chk("C22,C11", !touched, "malformed-scan", name + " was processed, although angles, times or maximum range of its readings are not known"); return; }
  if (s.m->ranges.empty()) { if (c.laser0) laser = true; chk("C22,C11,C10", !touched, "empty-scan", name + " without any reading was processed"); return; }
  bool had_laser = laser;
  if (!laser)
  {
    if (!c.laser0) { chk("C10", !touched, "no-mount", name + " was processed although the sensor's mounting is unknown"); return; }
    laser = true;
  }
  (void)had_laser;
  if (!localized)
  {
    chk("C21,C10", !touched, "not-localized", name + " was processed although the robot is not localized");
    ++skipped;
    return;
  }
  if (!c.avail1)
  {
    chk("C10", !touched, "no-odometry", name + " was processed although odometry was not available");
    ++skipped;
    return;
  }
  bool must_avail = c.avail0;
  if (first_pending)                       // the outcome of the previous scan on the empty map is not known yet
  { must_avail = false; }
  bool empty = m.scans.empty();
  P2 pred;
  if (!empty)
  {
    double dx = c.odom.x - po.x, dy = c.odom.y - po.y, dth = wrap(c.odom.th - po.th), d = std::hypot(dx, dy);
    bool clearly = d > min_dist + 1e-9 || std::fabs(dth) > min_rot + 1e-9;
    bool clearly_not = d < min_dist - 1e-9 && std::fabs(dth) < min_rot - 1e-9;
    for (auto & a : po_alts)
    {
      double ad = std::hypot(c.odom.x - a.x, c.odom.y - a.y), at = std::fabs(wrap(c.odom.th - a.th));
      clearly = clearly && (ad > min_dist + 1e-9 || at > min_rot + 1e-9);
      clearly_not = clearly_not && ad < min_dist - 1e-9 && at < min_rot - 1e-9;
    }
    if (clearly_not)
    {
      char b[200]; snprintf(b, sizeof b, " moved %.4g m and %.4g rad since the last update, below the thresholds %.4g and %.4g, yet the scan was processed", d, dth, min_dist, min_rot);
      chk("C10", !touched, "too-close", name + b);
      ++skipped;
      return;
    }
    if (!pr_known) { must_avail = must_avail && true; }
    bool none = no_points(s);
    if (clearly && must_avail && !touched && !none)
    {
      char b[200]; snprintf(b, sizeof b, " moved %.4g m and %.4g rad since the last update (thresholds %.4g, %.4g), but the scan was not processed", d, dth, min_dist, min_rot);
      chk("C10,C22,C06,C21", false, "not-processed", name + b);
    }
    if (!touched) { ++skipped; return; }
    double h = wrap(pr.th - po.th);
    pred = P2{pr.x + dx * std::cos(h) - dy * std::sin(h), pr.y + dx * std::sin(h) + dy * std::cos(h), wrap(pr.th + dth)};
  }
  ++updates;
  if (pf)
  {
    // the motion model keeps only the length of a translation of less than a centimetre
    double len = std::hypot(pred.x - pr.x, pred.y - pr.y);
    if (pr_known && len <= 0.01) { pred.x = pr.x + len * std::cos(pr.th); pred.y = pr.y + len * std::sin(pr.th); }
    if (sp)
    {
      check_content(*sp, 0, "C25,C07", name.c_str());
    }
    if (sp) { bool none; check_points(s, ev_points(ev), &none); }
    P2 d = mulp(invp(po), c.odom), mean;
    bool known = pr_known;
    filter.on_scan(c, ev, d, po_known, name);
    accept(c.odom, P2()); pr_known = false;
    if (pf_exact && known) { pr = pred; pr_known = true; }
    if (filter.mean(mean))
    {
      if (pf_exact && known) chk("C03,C20", pdist(mean, pred) < 1e-3 * (1 + std::fabs(pred.x) + std::fabs(pred.y)), "mean-motion", name + " moved the estimate to " + pstr(mean) + ", the odometry says " + pstr(pred));
      pr = mean; pr_known = true; pr_mean = true;
    }
    return;
  }
  if (active())
  {
    if (empty)
    {
      bool none = no_points(s);
      if (none || !must_avail) { first_pending = true; pending_id = s.id; return; }
      ScanRec r; r.id = 0; m.scans.push_back(r); pts_known.push_back(0); pending_id = s.id;
      accept(c.odom, P2());
      return;
    }
    if (!match) { chk("C12", false, "no-match", name + " was processed without being matched"); return; }
    chk("C12", matches == 1, "matched-twice", name + " was matched " + std::to_string(matches) + " times");
    chk("C12", inst_name[match->inst] == "local_scan_matcher", "wrong-matcher", name + " was matched by " + inst_name[match->inst] + " while mapping");
    size_t n = m.scans.size();
    check_content(*match, n > depth ? n - depth : 0, "C12,C07", name.c_str());
    if (pr_known)
      chk("C10,C07,C21", pdist(match->scan.pose, pred) < 1e-8, "predicted-pose", name + " starts matching from " + pstr(match->scan.pose) + ", the last pose moved by odometry is " + pstr(pred));
    bool none;
    check_points(s, match->scan.pts, &none);
    Eigen::Matrix3d info;
    Use u = usable(match->score, match->cov, &info);
    if (!std::isfinite(match->corr.x + match->corr.y + match->corr.th)) u = UNUSABLE;
    if (u == UNUSABLE || none)
    {
      // must leave no trace (a scan without a single valid reading may also be kept)
      if (u == UNUSABLE) { ++rejected; return; }
      first_pending = false;
    }
    ScanRec r = match->scan; r.id = n;
    P2 stored{match->scan.pose.x + match->corr.x, match->scan.pose.y + match->corr.y, match->scan.pose.th + match->corr.th};
    if (u == UNCLEAR || none)
    {
      // either kept or dropped: look at what follows (the next probe decides)
      Snap now = probe();
      if (now.scans.size() == n) { ++rejected; --updates; return; }
    }
    r.pose = stored;
    m.cons.push_back(make_con(n - 1, m.scans[n - 1].pose, n, stored, info, false));
    if (!poses_known) for (double & x : m.cons.back().t) x = std::nan("");
    m.scans.push_back(r); pts_known.push_back(1);
    typ = 0.95 * typ + 0.05 * match->score;
    accept(c.odom, stored);
    return;
  }
  // tracking
  if (match)
  {
    chk("C25", inst_name[match->inst] == "global_scan_matcher", "wrong-matcher", name + " was matched by " + inst_name[match->inst] + " while localizing");
    check_content(*match, 0, "C25,C07", name.c_str());
    if (pr_known && !empty)
      chk("C10,C21", pdist(match->scan.pose, pred) < 1e-8, "predicted-pose", name + " starts matching from " + pstr(match->scan.pose) + ", the last pose moved by odometry is " + pstr(pred));
    bool none; check_points(s, match->scan.pts, &none);
    P2 stored{match->scan.pose.x + match->corr.x, match->scan.pose.y + match->corr.y, match->scan.pose.th + match->corr.th};
    Use u = usable(match->score, match->cov, nullptr);
    if (!std::isfinite(match->score) || !finp(match->corr)) { ++rejected; --updates; return; }
    if (u != USABLE || none || empty)
    {
      // the pose may or may not be taken over; what is published next decides
      P2 o1 = po, r1 = pr; bool k1 = pr_known, a1 = any_update;
      std::vector<P2> alts = po_alts;
      accept(c.odom, stored);
      po_old = o1; pr_old = r1; old_known = k1; old_any = a1;
      pr_known = false;
      for (size_t i = 0; i < 600; ++i)
      {
        bool got = false;
        for (size_t j = i_tf; j < H.tfs.size(); ++j)
          if (H.tfs[j].seq > c.seq1 && H.tfs[j].group == g_group)
          {
            P2 a = mulp(H.tfs[j].tf, c.odom);
            got = true;
            if (pdist(a, stored) < 1e-6)
            {
              pr = stored; pr_known = true;
              // a correction of zero leaves nothing to tell the two apart
              if (k1 && pdist(a, mulp(mulp(r1, invp(o1)), c.odom)) < 1e-5) { po_alts = alts; po_alts.push_back(o1); }
            }
            else { po = o1; pr = r1; pr_known = k1; any_update = a1; po_alts = alts; }
            break;
          }
        if (got) break;
        sim::sleep_for(10 * sim::MS);
      }
      return;
    }
    accept(c.odom, stored);
  }
}
void Model::on_pose(CbRec & c)
{
  auto pi = H.poses.find(c.id);
  if (pi == H.poses.end()) return;
  const PoseSent & s = pi->second;
  std::string name = "initial pose #" + std::to_string(s.id);
  bool ok = !(active() && localized) && s.frame == "map" && c.odom_now_ok && !s.not_finite;
  bool sure = c.odom_now_ok == c.odom_now_ok0 && (!c.odom_now_ok || pdist(c.odom_now, c.odom_now0) < 1e-12);
  if (ok && !sure) pr_known = pr_known && true;
  if (ok && active())
  {
    bool amb = false;
    auto n = nearest(s.p, 10.0, m.scans.size(), &amb);
    if (n.empty()) ok = false;
    else
    {
      Eigen::Matrix3d cov = Eigen::Matrix3d::Zero(); cov(0, 0) = s.cov[0]; cov(1, 1) = s.cov[7]; cov(2, 2) = s.cov[35];
      ScanRec r; r.id = m.scans.size(); r.pose = s.p;
      Eigen::Matrix3d info = cov.inverse();
      if (!(std::min({s.cov[0], s.cov[7], s.cov[35]}) > 1e-6) || !std::isfinite(s.cov[0] + s.cov[7] + s.cov[35])) info.setConstant(std::nan(""));
      m.cons.push_back(make_con(n[0], m.scans[n[0]].pose, r.id, r.pose, info, false));
      if (!poses_known) for (double & x : m.cons.back().t) x = std::nan("");
      if (amb) m.cons.back().begin = -1;
      m.scans.push_back(r); pts_known.push_back(1);
    }
  }
  if (!ok) { ++poses_no; return; }
  ++poses_ok;
  accept(c.odom_now, s.p);
  if (pf) filter.on_pose(c, s, name);
  localized = true;
}
void Model::on_conf(CbRec & c)
{
  auto ri = H.reqs.find(c.id);
  if (ri == H.reqs.end()) return;
  ReqRec & r = ri->second;
  if (r.action & 1) { if (!mapping) map_since = sim::now(); mapping = true; }
  else if (r.action & 2) { mapping = false; localized = false; if (in_group) group_cut = true; ++skips_allowed; disable_seq = c.seq1; opt_due = -1; }
  if ((r.action & 4) && !r.faulted)
  {
    Snap s = decode_bag(r.file);
    if (s.ok) { load(s, false); reset_seq = c.seq1; }
  }
}
void Model::end_group(bool)
{
  if (!in_group) return;
  in_group = false;
  if (group_cut) { group_cut = false; return; }
  if (!group_exact) return;
  size_t with = 0;
  for (size_t i : group_c) if (!m.scans[i].pts.empty() || !pts_known[i]) ++with;
  size_t want = std::min(limit, with);
  chk("C16,C24", group_n >= want, "too-few-candidates", "scan " + std::to_string(group_k) + " was matched against " + std::to_string(group_n) + " candidates; there were " + std::to_string(want) + " in range and within the limit");
}
void Model::on_loop(MEv & e)
{
  bool in_flight = e.seq0 < disable_seq;                     // mapping was disabled meanwhile (and enabled again?)
  if (e.seq0 < reset_seq || (in_flight && !active())) { sim::count("probe_match_in_flight_voided"); return; }   // must have no effect: the next probe tells
  ++offers;
  std::string name = "loop closure of scan " + std::to_string(e.scan.id);
  chk("C16,C25", active(), "disabled", name + " although mapping is off or the particle filter is in use");
  if (!active()) return;
  size_t k = e.scan.id;
  if (k >= m.scans.size() || !same_scan(e.scan, m.scans[k], false))
  {
    chk("C16,C07", false, "unknown-scan", name + ": the scan offered is not one of the current map");
    return;
  }
  if (!in_group || group_k != static_cast<i64>(k))
  {
    end_group(true);
    group_cut = false;
    chk("C16", static_cast<i64>(k) > last_offered, "offered-twice", name + " although it (or a later one) had been offered before");
    chk("C16", k > depth, "first-window", name + ", which is inside the first rolling window of " + std::to_string(depth));
    // scans in between must have had no candidates
    if (poses_known && !fuzzy && k > depth)
      for (i64 j = std::max<i64>({last_offered + 1, static_cast<i64>(depth) + 1, static_cast<i64>(loaded_n)}); j < static_cast<i64>(k); ++j)
      {
        const ScanRec & q = m.scans[static_cast<size_t>(j)];
        bool amb = false; size_t with = 0;
        for (size_t i : nearest(key(q), search_size, static_cast<size_t>(j) - depth, &amb)) if (!m.scans[i].pts.empty()) ++with;
        if (!amb && with && limit && !q.pts.empty() && !excused.count(static_cast<size_t>(j)) && (skips_allowed ? (--skips_allowed, false) : true))
          chk("C16,C22,C24,C07", false, "not-offered", "scan " + std::to_string(j) + " had " + std::to_string(with) + " candidates in range but was not offered for loop closure");
      }
    last_offered = static_cast<i64>(k);
    in_group = true; group_k = static_cast<i64>(k); group_n = 0; group_exact = poses_known && !fuzzy;
    bool amb = false;
    group_c = k > depth ? nearest(key(m.scans[k]), search_size, k - depth, &amb) : std::vector<size_t>();
    if (amb) group_exact = false;
  }
  if (poses_known && !fuzzy) chk("C16", pdist(e.scan.pose, m.scans[k].pose) < 1e-9, "moved-otherwise", name + ": the scan is at " + pstr(e.scan.pose) + ", expected " + pstr(m.scans[k].pose));
  ++group_n;
  chk("C16", group_n <= limit, "too-many", name + ": more than " + std::to_string(limit) + " candidates");
  // which candidate: the group_n-th with points
  i64 cand = -1; size_t nth = 0;
  for (size_t i : group_c) if (!m.scans[i].pts.empty()) if (++nth == group_n) { cand = static_cast<i64>(i); break; }
  static const std::vector<ScanRec> nothing;
  const std::vector<ScanRec> & ct = e.cidx < 0 ? nothing : H.mev[static_cast<size_t>(e.cidx)].add;
  if (group_exact)
  {
    chk("C16,C24", cand >= 0, "out-of-range", name + ": a candidate beyond the search size or inside the rolling window was used");
    if (cand >= 0 && deciding("C16,C07,C24"))
    {
      bool has = false, other = false;
      for (auto & x : ct)
      {
        if (static_cast<i64>(x.id) == cand) has = true;
        if (std::llabs(static_cast<long long>(x.id) - cand) > 1) other = true;
        if (x.id < m.scans.size() && (!same_scan(x, m.scans[x.id], false) || pdist(x.pose, m.scans[x.id].pose) > 1e-9)) other = true;
      }
      chk("C16,C07,C24", has && !other, "candidate", name + ": the " + std::to_string(group_n) + ". nearest candidate is scan " + std::to_string(cand) + ", but the scan was matched against other scans");
    }
  }
  Eigen::Matrix3d info;
  Use u = usable(e.score, e.cov, &info);
  if (!finp(e.corr)) u = UNUSABLE;
  if (std::fabs(e.score - typ) < 1e-9) u = UNCLEAR;
  bool acc = u == USABLE && e.score < typ;
  if (e.score > typ && u != UNUSABLE) { u = USABLE; acc = false; }
  if (in_flight && acc) u = UNCLEAR;
  if ((cand < 0 || !group_exact) && acc)
    for (auto & x : ct) cand = std::max(cand, static_cast<i64>(x.id));
  if (u == UNCLEAR) { if (!fuzzy) sure_cons = m.cons.size(); fuzzy = true; fuzzy_t = e.t1; group_exact = false; loop_seq = e.seq1; return; }
  if (!acc) return;
  ++loops; loop_seq = e.seq1;
  P2 np{m.scans[k].pose.x + e.corr.x, m.scans[k].pose.y + e.corr.y, m.scans[k].pose.th + e.corr.th};
  moves.push_back(Move{k, m.scans[k].pose, e.seq1, e.t1});
  m.scans[k].pose = np;
  ConRec cr = make_con(static_cast<size_t>(cand), m.scans[static_cast<size_t>(cand)].pose, k, np, info, true);
  if (!group_exact) cr.begin = -1;
  if (!poses_known || !group_exact) for (double & x : cr.t) x = std::nan("");
  m.cons.push_back(cr);
  if (k + 1 > opt_last + opt_limit && opt_due < 0) opt_due = e.t1;
}
void Model::on_solve(SolveRec & s)
{
  ++solves;
  chk("C16,C25", active(), "solve-disabled", "pose graph optimization ran although mapping is off or the particle filter is in use");
  opt_last = m.scans.size(); opt_due = -1;
  chk("C22,C17", s.usable || s.injected, "solver-failed", "pose graph optimization of a healthy graph failed");
  if (s.usable && !s.injected)
  {
    // scans considered before the optimization had other neighbours
    for (size_t j = static_cast<size_t>(std::max<i64>(last_offered + 1, 0)); j < m.scans.size(); ++j)
    {
      bool amb = false; size_t with = 0;
      if (poses_known && !fuzzy && j > depth) for (size_t i : nearest(key(m.scans[j]), search_size, j - depth, &amb)) if (!m.scans[i].pts.empty()) ++with;
      if (!with || amb) excused.insert(j);
    }
    poses_known = false;
  }
}
void Model::on_tf(TfRec & t)
{
  chk("C03", t.frame == "map" && t.child == W.odom, "tf-frames", "a transform " + t.frame + " -> " + t.child + " was published");
  chk("C03,C22", finp(t.tf), "tf-finite", "a transform that is not finite was published: " + pstr(t.tf));
  P2 now = mulp(pr, invp(po)), old = mulp(pr_old, invp(po_old));
  if (!pr_known)
  {
    if (old_known && pdist(t.tf, old) < 1e-7) return;
    pr = mulp(t.tf, po); pr_known = true;
    return;
  }
  double tol = (pf && pf_exact && !pr_mean ? 1e-3 : 1e-8) * (1 + std::fabs(po.x) + std::fabs(po.y));
  if (pdist(t.tf, now) < tol) { old_known = true; po_old = po; pr_old = pr; old_any = any_update; return; }
  chk("C03,C12,C21,C07,C18", false, "tf", "map->odom " + pstr(t.tf) + " does not belong to the last localization update (" + pstr(now) + ")" +
      (pdist(t.tf, old) < tol ? " but to an older one" : ""));
}
void Model::consume(u64 lim)
{
  // merge by sequence number; an event takes effect when it ends
  for (;;)
  {
    u64 best = ~0ULL; int which = -1;
    while (i_cb < H.cbs.size() && (H.cbs[i_cb].group != g_group || H.cbs[i_cb].consumed)) ++i_cb;
    while (i_solve < H.solves.size() && H.solves[i_solve].fiber && sim::group_of(H.solves[i_solve].fiber) != g_group) ++i_solve;
    if (i_cb < H.cbs.size() && H.cbs[i_cb].t1 >= 0 && H.cbs[i_cb].seq1 < best) { best = H.cbs[i_cb].seq1; which = 0; }
    // matcher events: content and loop closures in order of completion
    while (i_mev < H.mev.size() && H.mev[i_mev].group != g_group) ++i_mev;
    if (i_mev < H.mev.size() && H.mev[i_mev].seq1 && H.mev[i_mev].seq1 < best) { best = H.mev[i_mev].seq1; which = 1; }
    if (i_solve < H.solves.size() && H.solves[i_solve].seq1 && H.solves[i_solve].seq1 < best) { best = H.solves[i_solve].seq1; which = 2; }
    while (i_tf < H.tfs.size() && H.tfs[i_tf].group != g_group) ++i_tf;
    if (i_tf < H.tfs.size() && H.tfs[i_tf].seq < best) { best = H.tfs[i_tf].seq; which = 3; }
    if (which < 0 || best > lim) break;
    if (which == 0)
    {
      CbRec c = H.cbs[i_cb]; H.cbs[i_cb].consumed = true; ++i_cb;
      if (c.kind == 0 && c.name == "scan") on_scan(c);
      else if (c.kind == 0 && c.name == "initialpose") on_pose(c);
      else if (c.kind == 1) on_conf(c);
    }
    else if (which == 1)
    {
      MEv & e = H.mev[i_mev++];
      content_event(e);
      if (e.k == MEv::MATCH)
      {
        bool executor = false;
        for (auto & c : H.cbs) if (c.fiber == e.fiber && c.group == e.group) { executor = true; break; }
        if (!executor) { MEv copy = e; on_loop(copy); }
      }
    }
    else if (which == 2) on_solve(H.solves[i_solve++]);
    else on_tf(H.tfs[i_tf++]);
  }
}
bool Model::moved_since(size_t scan, const P2 & was, u64 seq, i64 t) const
{
  for (auto & v : moves) if (v.k == scan && (v.seq > seq || v.t >= t - 5 * sim::SEC) && pdist(v.was, was) < 1e-9) return true;
  return false;
}
bool Model::differs(const Snap & s) const
{
  if (first_pending) return false;
  if (s.scans.size() != m.scans.size() || (!fuzzy && s.cons.size() != m.cons.size())) return true;
  if (poses_known && !fuzzy) for (size_t i = 0; i < s.scans.size(); ++i) if (pdist(s.scans[i].pose, m.scans[i].pose) > 1e-8) return true;
  return false;
}
void Model::compare(const Snap & s)
{
  std::string why;
  char b[300];
  if (first_pending)
  {
    if (s.scans.size() == 1 && m.scans.empty())
    {
      ScanRec r; m.scans.push_back(r); pts_known.push_back(0);
      bool ok; P2 o = odom_lookup(H.scans[pending_id].stamp, ok);
      accept(o, P2());
    }
    first_pending = false;
  }
  const char * props = active() ? "C04,C10,C21,C22,C07,C16" : "C25,C21,C22,C07";
  if (s.scans.size() != m.scans.size())
  {
    snprintf(b, sizeof b, "the map has %zu scans, expected %zu (after %s)", s.scans.size(), m.scans.size(), last_op.c_str());
    chk(props, false, "scan-count", b);
    if (g_prop != "*") { m = s; pts_known.assign(s.scans.size(), 1); poses_known = true; if (fuzzy && fuzzy_t < probe_t) fuzzy = false; return; }
  }
  size_t n = std::min(s.scans.size(), m.scans.size());
  for (size_t i = 0; i < n; ++i)
  {
    const ScanRec & g = s.scans[i]; ScanRec & w = m.scans[i];
    snprintf(b, sizeof b, "scan %zu of the map (after %s): ", i, last_op.c_str());
    chk(active() ? "C04,C07" : "C04,C07,C25", g.id == i || (w.id == g.id), "scan-id", b + ("has id " + std::to_string(g.id)));
    chk("C22,C04", finp(g.pose), "finite", b + ("its pose is not finite: " + pstr(g.pose)));
    if (!pts_known[i])
    {
      auto si = H.scans.find(pending_id);
      if (si != H.scans.end()) check_points(si->second, g.pts);
      w.pts = g.pts; pts_known[i] = 1;
    }
    if (!same_scan(g, w, false) && g.id == w.id)
      chk(active() ? "C04,C07,C05" : "C04,C07,C25,C05", false, "points-changed", b + (std::to_string(g.pts.size()) + " points, expected " + std::to_string(w.pts.size()) + ", or other coordinates"));
    if (poses_known && !fuzzy && pdist(g.pose, w.pose) > 1e-8)
    {
      bool last = i + 1 == n;
      chk(!active() ? "C25,C07" : last ? "C12,C16,C10,C21,C07" : "C16,C17,C07", false, "pose", b + ("is at " + pstr(g.pose) + ", expected " + pstr(w.pose)));
    }
    if (!poses_known && i == 0) chk("C17,C16", pdist(g.pose, w.pose) < 1e-8, "anchor", b + ("optimization moved the first scan to " + pstr(g.pose) + " from " + pstr(w.pose)));
  }
  size_t nc = std::min(s.cons.size(), m.cons.size());
  for (size_t i = 0; i < nc; ++i)
  {
    ConRec w = m.cons[i]; const ConRec & g = s.cons[i];
    if (w.begin < 0) w.begin = g.begin;
    if (fuzzy && i >= sure_cons) break;
    if (std::isnan(w.t[0])) for (int j = 0; j < 3; ++j) w.t[j] = g.t[j];
    std::string d = con_diff(g, w);
    snprintf(b, sizeof b, "constraint %zu of the map (after %s) ", i, last_op.c_str());
    if (!d.empty() && g.end == w.end && g.begin != w.begin && w.end >= 0 && static_cast<size_t>(w.end) < m.scans.size() && m.scans[static_cast<size_t>(w.end)].pts.empty())
      chk("C24", false, "nearest", b + ("links an initial pose: " + d));
    if (!d.empty()) chk(g.begin != w.begin || g.end != w.end || g.sw != w.sw ? (active() ? "C15,C04,C16,C21,C07" : "C15,C04,C25,C07") : (active() ? "C15,C07,C05" : "C15,C25,C07,C05"), false, "constraint", b + d);
  }
  if (!fuzzy && s.cons.size() != m.cons.size())
  {
    snprintf(b, sizeof b, "the map has %zu constraints, expected %zu (after %s)", s.cons.size(), m.cons.size(), last_op.c_str());
    chk(active() ? "C15,C04,C16,C21,C22,C07" : "C15,C04,C25,C07", false, "constraint-count", b);
  }
  m = s; pts_known.assign(s.scans.size(), 1); poses_known = true;
  if (fuzzy && fuzzy_t < probe_t) fuzzy = false;
}
void Model::finish()
{
  end_group(true);
  if (opt_due >= 0 && active() && sim::now() - opt_due > 4 * SEC)
    chk("C22,C17,C07", false, "not-optimized", "a loop closure was accepted with " + std::to_string(m.scans.size() - opt_last) + " scans since the last optimization, but the graph was not optimized");
  // every eligible scan has been offered by now
  if (active() && laser && m.scans.size() > depth && sim::now() - map_since > 4 * SEC && poses_known && !fuzzy)
    for (i64 j = std::max<i64>({last_offered + 1, static_cast<i64>(depth) + 1, static_cast<i64>(loaded_n)}); j < static_cast<i64>(m.scans.size()); ++j)
    {
      const ScanRec & q = m.scans[static_cast<size_t>(j)];
      bool amb = false; size_t with = 0;
      for (size_t i : nearest(key(q), search_size, static_cast<size_t>(j) - depth, &amb)) if (!m.scans[i].pts.empty()) ++with;
      if (!amb && with && limit && !q.pts.empty() && !excused.count(static_cast<size_t>(j)) && (skips_allowed ? (--skips_allowed, false) : true))
        chk("C16,C22,C24,C07", false, "not-offered", "scan " + std::to_string(j) + " had " + std::to_string(with) + " candidates in range but was never offered for loop closure");
    }
  sim::count("probe_scans_processed", updates); sim::count("probe_scans_skipped", skipped); sim::count("probe_loop_offers", offers);
  sim::count("probe_loop_closures", loops); sim::count("probe_optimizations", solves); sim::count("probe_matches_rejected", rejected);
  sim::count("probe_initial_poses_taken", poses_ok); sim::count("probe_initial_poses_refused", poses_no);
}

// Concurrent runs: operations are issued at their times whatever the node is doing, under a seeded schedule with
// stalls, slow calls, faults, crashes and shutdowns. What happened is checked afterwards against the recorded history.
#include "model.hpp"
#include <Eigen/LU>
#include <algorithm>
#include <cstring>
#include <set>
using sim::SEC; using sim::MS;
typedef std::vector<std::array<double, 2>> Pts;

namespace
{
const u64 INF = ~0ULL;
struct Entry                                  // a scan of the map, in the order of acceptance
{
  enum K { LOADED, FIRST, MATCHED, POSE } k = LOADED;
  u64 msg = 0; P2 pose0; bool pose_ok = true; Eigen::Matrix3d info; Pts pts; bool pts_ok = true; u64 seq0 = 0, seq1 = 0;
  MEv * match = nullptr;
};
struct SnapAt { const Snap * s; u64 seq0, seq1; size_t n; bool active; u64 toggles; bool final = false; };
struct Lm                                     // a match by the loop closure thread
{
  MEv * e; u64 next; const std::vector<ScanRec> * ct; u64 add0, add1; bool optional = false; bool ambiguous = false;
  double hi = 0; int verdict = 0;                            // -1 must not, 0 may, 1 must be applied
  bool applied = false;
};
struct Epoch
{
  Snap base; u64 load0 = 0, load1 = 0; bool blind = false;
  std::vector<Entry> e; std::vector<SnapAt> snaps; std::vector<Lm> loops; std::vector<SolveRec *> solves;
  std::vector<std::vector<P2>> walk; bool walk_ok = false;           // poses of all scans after the first n applied loop closures
  std::vector<Lm *> applied;
  u64 first_solve() const { return solves.empty() ? INF : solves[0]->seq0; }
};
struct Upd { u64 s0, s1; i64 t1; std::vector<P2> v; bool sure; };
bool same_pts(const Pts & a, const Pts & b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 16)); }
std::string num(u64 x) { return std::to_string(x); }

struct Check
{
  const Plan & p; int g; bool idle; Model M;
  std::vector<CbRec *> cbs; std::vector<Epoch> ep; std::vector<Upd> upd;
  std::set<int> exec; u64 toggles = 0;
  std::vector<std::pair<u64, u64>> disables;
  struct T { u64 from, to; double v; }; std::vector<T> typ; bool typ_ok = true;
  std::vector<MEv *> mev;
  Check(const Plan & q, int group, bool i) : p(q), g(group), idle(i) { M.init(q); }

  std::vector<MEv *> in(const CbRec & c) const
  {
    std::vector<MEv *> r;
    auto lo = std::lower_bound(mev.begin(), mev.end(), c.seq0, [](const MEv * e, u64 s) { return e->seq0 < s; });
    for (auto i = lo; i != mev.end() && (*i)->seq0 < c.seq1; ++i) if ((*i)->fiber == c.fiber) r.push_back(*i);
    return r;
  }
  MEv * match_in(const CbRec & c) const { for (auto * e : in(c)) if (e->k == MEv::MATCH) return e; return nullptr; }
  ReqRec * req(const CbRec & c) const { auto i = H.reqs.find(c.id); return i == H.reqs.end() ? nullptr : &i->second; }
  // number of scans right after callback i, as far as what follows tells
  i64 size_after(size_t i, bool empty_before) const
  {
    for (size_t j = i + 1; j < cbs.size(); ++j)
    {
      const CbRec & c = *cbs[j];
      if (c.kind == 1)
      {
        ReqRec * r = req(c);
        if (!r) continue;
        if (r->action & 3) { if (r->action & 2) return (r->action & 8) && r->snap ? static_cast<i64>(r->snap->scans.size()) : -1; }
        if (r->action & 4) { if (!r->faulted) return -1; continue; }
        if ((r->action & 8) && r->snap && r->snap->ok) return static_cast<i64>(r->snap->scans.size());
        continue;
      }
      if (c.name == "scan")
      {
        if (MEv * m = match_in(c)) return static_cast<i64>(m->scan.id);
        if (empty_before && c.avail1) return -1;
      }
      else return -1;
    }
    return -1;
  }
  void add_update(const CbRec & c, std::vector<P2> v, bool sure) { upd.push_back(Upd{c.seq0, c.seq1, c.t1, v, sure}); }
  static P2 tf(const P2 & pr, const P2 & po) { return mulp(pr, invp(po)); }

  void executor();
  void loops();
  void epoch(size_t i);
  void content(Epoch & E, const MEv & m, size_t from, size_t to, const char * props, const std::string & what);
  void whole(const Snap & s, const std::string & what);
  void transforms();
  void graphs();
  bool poses_after(const Epoch & E, size_t nl, size_t n, std::vector<P2> & out) const;
  void run(const Snap & base);
  bool stalls() const { if (p.sched.p_stall > 0) return true; for (auto & d : p.sched.dev) if (d.second < 0) return true; for (auto & o : p.ops) if (o.kind == "stall" || o.kind == "jam") return true; return false; }
};

void Check::whole(const Snap & s, const std::string & what)
{
  if (!deciding("C04")) return;
  std::vector<char> linked(s.scans.size(), 0);
  for (size_t i = 0; i < s.scans.size(); ++i)
  {
    chk("C04", s.scans[i].id == i || (p.integer("odd_ids", 0)), "scan-id", what + ": scan number " + num(i) + " has id " + num(s.scans[i].id));
    chk("C04,C22", finp(s.scans[i].pose), "finite", what + ": the pose of scan " + num(i) + " is not finite");
  }
  i64 n = static_cast<i64>(s.scans.size());
  for (auto & c : s.cons)
  {
    bool ok = c.begin >= 0 && c.end >= 0 && c.begin < n && c.end < n && c.begin != c.end;
    chk("C04", ok, "dangling", what + ": constraint " + std::to_string(c.begin) + " -> " + std::to_string(c.end) + " in a map of " + std::to_string(n) + " scans");
  }
  sim::count("probe_maps_checked");
}
void Check::content(Epoch & E, const MEv & m, size_t from, size_t to, const char * props, const std::string & what)
{
  if (!deciding(props) || E.blind) return;
  static const std::vector<ScanRec> nothing;
  const std::vector<ScanRec> & c = m.cidx < 0 ? nothing : H.mev[static_cast<size_t>(m.cidx)].add;
  sim::count("probe_contents_checked");
  if (c.size() != to - from)
  {
    chk(props, false, "content", what + " was matched against " + num(c.size()) + " scans, expected scans " + num(from) + ".." + num(to) + " of the map");
    return;
  }
  for (size_t i = 0; i < c.size(); ++i)
  {
    const Entry & w = E.e[from + i];
    u64 id = w.k == Entry::LOADED ? E.base.scans[from + i].id : from + i;
    chk(props, c[i].id == id && (!w.pts_ok || same_pts(c[i].pts, w.pts)), "content",
        what + " was matched against a map in which number " + num(i) + " is scan " + num(c[i].id) + " with " + num(c[i].pts.size()) + " points, expected scan " + num(id) + " with " + num(w.pts.size()));
  }
}
void Check::executor()
{
  bool pr_known = true;
  P2 po, pr;
  double tv = -0.5;
  typ.push_back(T{0, INF, tv});
  Epoch * E = &ep.back();
  for (size_t i = 0; i < cbs.size(); ++i)
  {
    CbRec & c = *cbs[i];
    size_t n = E->e.size();
    if (c.kind == 1)
    {
      ReqRec * r = req(c);
      if (!r) continue;
      if (r->action & 1) { if (!M.mapping) ++toggles; M.mapping = true; }
      else if (r->action & 2) { if (M.mapping) ++toggles; M.mapping = false; M.localized = false; disables.push_back({c.seq0, c.seq1}); }
      if (r->action & 4)
      {
        if (r->faulted || !r->snap || !r->snap->ok) continue;
        ep.emplace_back(); E = &ep.back();
        E->base = *r->snap; E->load0 = c.seq0; E->load1 = c.seq1;
        for (auto & s : E->base.scans) { Entry x; x.pose0 = s.pose; x.pts = s.pts; x.seq1 = c.seq1; E->e.push_back(x); }
        M.localized = false;
      }
      else if ((r->action & 8) && r->snap && r->snap->ok)
        E->snaps.push_back(SnapAt{r->snap.get(), c.seq0, c.seq1, n, M.active(), toggles});
      else if ((r->action & 8) && !r->faulted)
        chk("C05,C06,C04,C22", false, "not-readable", "the map saved to '" + r->file + "' cannot be read back");
      continue;
    }
    if (c.name == "initialpose")
    {
      auto si = H.poses.find(c.id);
      if (si == H.poses.end()) continue;
      const PoseSent & s = si->second;
      std::string name = "initial pose #" + num(s.id);
      if ((M.active() && M.localized) || s.frame != "map" || !c.odom_now_ok || s.not_finite) continue;
      bool sure = c.odom_now_ok0;
      bool ok = sure;
      if (M.active())
      {
        bool near = false, far = true;
        for (auto & x : E->e) { double d = std::hypot(x.pose0.x - s.p.x, x.pose0.y - s.p.y); if (d < 5) near = true; if (d < 25) far = false; }
        if (E->blind) { ok = false; sure = false; }
        else if (far) { ok = false; sure = true; }
        else if (!near) sure = false;
        if (!sure)
        {
          i64 k = size_after(i, E->e.empty());
          if (k < 0 || E->blind) { E->blind = true; ok = false; }
          else ok = k == static_cast<i64>(n) + 1;
          sure = !E->blind;
        }
        if (ok)
        {
          Entry x; x.k = Entry::POSE; x.msg = s.id; x.pose0 = s.p; x.seq0 = c.seq0; x.seq1 = c.seq1;
          Eigen::Matrix3d cov = Eigen::Matrix3d::Zero(); cov(0, 0) = s.cov[0]; cov(1, 1) = s.cov[7]; cov(2, 2) = s.cov[35];
          x.info = cov.inverse();
          if (!(std::min({s.cov[0], s.cov[7], s.cov[35]}) > 1e-6) || !std::isfinite(s.cov[0] + s.cov[7] + s.cov[35])) x.info.setConstant(std::nan(""));
          E->e.push_back(x);
        }
      }
      if (!sure || ok)
      {
        std::vector<P2> v{tf(s.p, c.odom_now)};
        if (c.odom_now_ok0) v.push_back(tf(s.p, c.odom_now0));
        bool exact = ok && c.odom_now_ok0 && pdist(c.odom_now, c.odom_now0) < 1e-12;
        add_update(c, v, ok && sure);
        if (ok) { M.localized = true; po = c.odom_now; pr = s.p; pr_known = exact; }
        else pr_known = false;
        if (!sure) E->blind = true;
      }
      continue;
    }
    if (c.name != "scan") continue;
    auto si = H.scans.find(c.id);
    if (si == H.scans.end()) continue;
    const ScanSent & s = si->second;
    const bool malformed = M.unusable(s);
    M.adopt(s);
    MEv * m = match_in(c);
    bool scored = false; MEv * sp = nullptr;
    for (auto * e : in(c)) if (e->k == MEv::SCOREPTS) { scored = true; sp = e; }
    std::string name = "scan message #" + num(s.id);
    bool touched = m || scored;
    if (malformed) { chk("C22,C11", !touched, "malformed-scan", name + " was processed, although angles, times or maximum range of its readings are not known"); continue; }
    if (!E->blind && !M.localized) { chk("C21,C10,C07", !touched, "not-localized", name + " was processed although the robot is not localized"); continue; }
    if (M.pf)
    {
      if (!touched) continue;
      if (sp) content(*E, *sp, 0, n, "C25,C07", name);
      P2 pred;
      if (p.integer("pf_exact", 0) && pr_known)
      {
        double dx = c.odom.x - po.x, dy = c.odom.y - po.y, dth = wrap(c.odom.th - po.th), h = wrap(pr.th - po.th);
        pred = P2{pr.x + dx * std::cos(h) - dy * std::sin(h), pr.y + dx * std::sin(h) + dy * std::cos(h), wrap(pr.th + dth)};
        // the motion model keeps only the length of a translation of less than a centimetre
        double len = std::hypot(dx, dy);
        if (len <= 0.01) { pred.x = pr.x + len * std::cos(pr.th); pred.y = pr.y + len * std::sin(pr.th); }
        pr = pred; po = c.odom;
        add_update(c, {tf(pr, po)}, true);
      }
      else pr_known = false;
      continue;
    }
    P2 pred; bool have_pred = false;
    if (n && pr_known && !E->blind)
    {
      double dx = c.odom.x - po.x, dy = c.odom.y - po.y, dth = wrap(c.odom.th - po.th), h = wrap(pr.th - po.th);
      pred = P2{pr.x + dx * std::cos(h) - dy * std::sin(h), pr.y + dx * std::sin(h) + dy * std::cos(h), wrap(pr.th + dth)};
      have_pred = true;
    }
    if (M.active() && n == 0 && !m)
    {
      if (!c.avail1 || s.m->ranges.empty()) continue;
      if (E->blind) { add_update(c, {tf(P2(), c.odom)}, false); continue; }
      bool none = M.no_points(s);
      bool sure = c.avail0 && c.laser0 && !none;
      bool ok = sure;
      if (!sure)
      {
        i64 k = size_after(i, true);
        if (k < 0) { E->blind = true; pr_known = false; add_update(c, {tf(P2(), c.odom)}, false); continue; }
        ok = k >= 1 && none == false;
        if (none && k >= 1) { E->blind = true; pr_known = false; add_update(c, {tf(P2(), c.odom)}, false); continue; }
      }
      if (!ok) continue;
      Entry x; x.k = Entry::FIRST; x.msg = s.id; x.pts_ok = false; x.seq0 = c.seq0; x.seq1 = c.seq1;
      E->e.push_back(x);
      po = c.odom; pr = P2(); pr_known = true;
      add_update(c, {tf(pr, po)}, true);
      continue;
    }
    if (!m) continue;
    if (have_pred)
      chk("C10,C12,C21,C07", pdist(m->scan.pose, pred) < 1e-8, "predicted-pose", name + " starts matching from " + pstr(m->scan.pose) + ", the last pose moved by odometry is " + pstr(pred));
    P2 stored{m->scan.pose.x + m->corr.x, m->scan.pose.y + m->corr.y, m->scan.pose.th + m->corr.th};
    Eigen::Matrix3d info;
    Use u = usable(m->score, m->cov, &info);
    if (!finp(m->corr)) u = UNUSABLE;
    if (M.active())
    {
      if (!E->blind)
      {
        chk("C04", m->scan.id == n, "scan-id", name + " became scan " + num(m->scan.id) + " of a map of " + num(n) + " scans");
        content(*E, *m, n > M.depth ? n - M.depth : 0, n, "C12,C07", name);
      }
      bool ok = u == USABLE && !m->scan.pts.empty(), sure = ok || u == UNUSABLE;
      if (!sure)
      {
        i64 k = size_after(i, true);
        if (k < 0 || E->blind) E->blind = true;
        else { ok = k == static_cast<i64>(n) + 1; sure = true; }
      }
      if (!sure) { typ_ok = false; add_update(c, {tf(stored, c.odom)}, false); pr_known = false; continue; }
      if (!ok) continue;
      tv = 0.95 * tv + 0.05 * m->score;
      typ.back().to = c.seq1;
      typ.push_back(T{m->seq1, INF, tv});
      Entry x; x.k = Entry::MATCHED; x.msg = s.id; x.pose0 = stored; x.info = info; x.pts = m->scan.pts; x.seq0 = m->seq1; x.seq1 = c.seq1; x.match = m;
      E->e.push_back(x);
      po = c.odom; pr = stored; pr_known = true;
      add_update(c, {tf(pr, po)}, true);
      sim::count("probe_scans_processed");
    }
    else
    {
      content(*E, *m, 0, n, "C25,C07", name);
      if (u == UNUSABLE) continue;
      bool sure = u == USABLE && !m->scan.pts.empty() && n;
      add_update(c, {tf(stored, c.odom)}, sure);
      po = c.odom; pr = stored; pr_known = sure;
      sim::count("probe_scans_processed");
    }
  }
}
void Check::loops()
{
  // calls and optimizations of the threads that are not the executor, in order
  struct Ev { u64 s; int fiber; };
  std::vector<Ev> evs;
  for (auto * e : mev) if (!exec.count(e->fiber)) evs.push_back(Ev{e->seq0, e->fiber});
  for (auto & s : H.solves) if (s.fiber && sim::group_of(s.fiber) == g) evs.push_back(Ev{s.seq0, s.fiber});
  std::sort(evs.begin(), evs.end(), [](const Ev & a, const Ev & b) { return a.s < b.s; });
  for (auto & s : H.solves)
    if (sim::group_of(s.fiber) == g)
    {
      size_t k = 0;
      for (size_t i = 0; i < ep.size(); ++i) if (ep[i].load1 < s.seq0) k = i;
      ep[k].solves.push_back(&s);
      if (k + 1 < ep.size() && s.seq1 == 0) ep[k + 1].solves.push_back(&s);
      if (k + 1 < ep.size() && s.seq1 > ep[k + 1].load0) ep[k + 1].solves.push_back(&s);
      if (k > 0 && ep[k].load1 > s.seq0) ep[k - 1].solves.push_back(&s);
      sim::count("probe_optimizations");
    }
  for (auto * e : mev)
  {
    if (e->k != MEv::MATCH || exec.count(e->fiber)) continue;
    Lm l; l.e = e; l.next = INF;
    for (auto & v : evs) if (v.fiber == e->fiber && v.s > e->seq0) { l.next = v.s; break; }
    if (!e->seq1) continue;                   // never returned
    static const std::vector<ScanRec> nothing;
    l.ct = &nothing; l.add0 = e->seq0; l.add1 = e->seq0;
    if (e->cidx >= 0) { const MEv & a = H.mev[static_cast<size_t>(e->cidx)]; l.ct = &a.add; l.add0 = a.seq0; l.add1 = a.seq1; }
    size_t k = 0;
    for (size_t i = 1; i < ep.size(); ++i) if (ep[i].load1 < l.add0) k = i;
    size_t k2 = k;
    for (size_t i = k + 1; i < ep.size(); ++i) if (ep[i].load0 < l.add1) k2 = i;
    for (auto & d : disables) if (d.second > l.add0 && d.first < l.next) l.optional = true;
    for (size_t i = k; i <= k2; ++i)
    {
      Lm x = l;
      if (k != k2) x.ambiguous = x.optional = true;
      // replaced while in flight
      if (i + 1 < ep.size() && ep[i + 1].load0 < x.next) x.optional = true;
      ep[i].loops.push_back(x);
    }
    sim::count("probe_loop_offers");
  }
}
bool Check::poses_after(const Epoch & E, size_t nl, size_t n, std::vector<P2> & out) const
{
  if (!E.walk_ok || nl > E.applied.size()) return false;
  out.clear();
  for (size_t i = 0; i < n; ++i) out.push_back(E.e[i].pose0);
  for (size_t i = 0; i < nl; ++i)
  {
    size_t k = E.applied[i]->e->scan.id;
    if (k >= n) return false;
    const P2 & c = E.applied[i]->e->corr;
    out[k].x += c.x; out[k].y += c.y; out[k].th += c.th;
  }
  return true;
}
void Check::epoch(size_t ei)
{
  Epoch & E = ep[ei];
  std::string where = ei ? "after load " + num(ei) : "";
  // how often and which scans are offered
  if (deciding("C16,C25"))
  {
    std::map<u64, size_t> groups; i64 last = -1; size_t count = 0;
    for (auto & l : E.loops)
    {
      if (l.ambiguous) continue;
      i64 k = static_cast<i64>(l.e->scan.id);
      std::string name = "loop closure of scan " + std::to_string(k);
      if (k != last)
      {
        chk("C16", !groups.count(l.e->scan.id), "offered-twice", name + " although it had been offered before");
        chk("C16", k > last, "offered-twice", name + " after one of scan " + std::to_string(last));
        count = 0; last = k; groups[l.e->scan.id] = 1;
      }
      ++count;
      chk("C16", count <= M.limit, "too-many", name + ": more than " + num(M.limit) + " candidates");
      chk("C16", k > static_cast<i64>(M.depth), "first-window", name + ", which is inside the first rolling window");
      for (auto & x : *l.ct) chk("C16", static_cast<i64>(x.id) <= k - static_cast<i64>(M.depth) + 1, "recent", name + " against scan " + num(x.id) + ", which is not older than the rolling window");
      chk("C16,C25", !M.pf, "disabled", name + " although the particle filter is in use");
    }
  }
  for (auto & s : E.snaps) whole(*s.s, "the map saved");
  if (E.snaps.empty() || E.blind) { if (E.blind) sim::count("blind_epochs"); return; }
  char b[400];
  // saves of one map only ever grow
  for (size_t j = 0; j < E.snaps.size(); ++j)
  {
    SnapAt & S = E.snaps[j];
    const Snap & s = *S.s;
    snprintf(b, sizeof b, "the map saved %s has %zu scans, expected %zu (%zu loaded)", where.c_str(), s.scans.size(), S.n, E.base.scans.size());
    chk("C04,C22,C21,C07,C05,C25,C12", s.scans.size() == S.n, "scan-count", b);
    if (s.scans.size() != S.n) { E.blind = true; return; }
    for (size_t i = 0; i < s.scans.size(); ++i)
    {
      Entry & x = E.e[i];
      if (!x.pts_ok) { M.check_points(H.scans[x.msg], s.scans[i].pts); x.pts = s.scans[i].pts; x.pts_ok = true; }
      chk("C04,C05,C07,C25", same_pts(s.scans[i].pts, x.pts), "points-changed", "scan " + num(i) + " of the map saved has " + num(s.scans[i].pts.size()) + " points, expected " + num(x.pts.size()) + ", or other coordinates");
      if (x.k == Entry::LOADED) chk("C04,C05,C07", s.scans[i].id == E.base.scans[i].id, "scan-id", "scan " + num(i) + " has id " + num(s.scans[i].id));
    }
    if (j)
    {
      const Snap & q = *E.snaps[j - 1].s;
      bool grow = q.cons.size() <= s.cons.size();
      for (size_t i = 0; i < q.cons.size() && grow; ++i) grow = same_con(q.cons[i], s.cons[i]);
      chk("C04,C05", grow, "constraints-changed", "constraints of the map were removed, re-ordered or altered between two saves");
      if (!S.active && !E.snaps[j - 1].active && S.toggles == E.snaps[j - 1].toggles)
      {
        std::string why;
        sim::count("probe_unchanged_checked");
        chk("C25,C16", same_snap(q, s, &why), "map-changed", "the map changed while mapping was off: " + why);
      }
    }
    bool grow = E.base.cons.size() <= s.cons.size();
    for (size_t i = 0; i < E.base.cons.size() && grow; ++i) grow = same_con(E.base.cons[i], s.cons[i]);
    chk("C04,C05,C07,C25", grow, "constraints-changed", "the constraints loaded are not the first ones of the map saved " + where);
    if (!grow) return;
  }
  SnapAt & FA = E.snaps.back();
  const Snap & F = *FA.s;
  // which loop closures must have been applied
  for (auto & l : E.loops)
  {
    MEv & e = *l.e;
    Use u = usable(e.score, e.cov, nullptr);
    if (!finp(e.corr)) u = UNUSABLE;
    double lo = 1e300, hi = -1e300;
    for (auto & t : typ) if (t.from < l.next && t.to > e.seq1) { lo = std::min(lo, t.v); hi = std::max(hi, t.v); }
    u64 done = FA.final ? e.seq1 : l.next;
    l.hi = hi;
    if (u == UNUSABLE || (u == USABLE && e.score > hi + 1e-9 && typ_ok) || e.seq1 > FA.seq1) l.verdict = -1;
    else if (u == USABLE && e.score < lo - 1e-9 && typ_ok && !l.optional && done < FA.seq0) l.verdict = 1;
    else l.verdict = 0;
    if (M.pf) l.verdict = -1;
  }
  // the constraints in order
  size_t next_entry = E.base.scans.size(), li = 0;
  if (E.base.scans.empty() && FA.n) next_entry = 1;
  std::vector<P2> pose;
  for (size_t i = 0; i < FA.n; ++i) pose.push_back(E.e[i].pose0);
  E.walk_ok = true;
  u64 solve0 = E.first_solve();
  for (size_t i = E.base.cons.size(); i < F.cons.size(); ++i)
  {
    const ConRec & c = F.cons[i];
    if (!c.sw)
    {
      if (next_entry >= FA.n)
      {
        snprintf(b, sizeof b, "constraint %zu (%lld -> %lld) belongs to no accepted scan", i, static_cast<long long>(c.begin), static_cast<long long>(c.end));
        chk("C04,C15,C21", false, "constraint-extra", b); E.walk_ok = false; return;
      }
      size_t k = next_entry++;
      const Entry & x = E.e[k];
      bool known = x.seq1 < solve0;
      bool any = false;
      if (x.k == Entry::POSE)
      {
        // linked to the nearest scan; which one depends on poses only the loop closure thread changes
        snprintf(b, sizeof b, "constraint %zu joins %lld -> %lld, but scan %zu comes from an initial pose", i, static_cast<long long>(c.begin), static_cast<long long>(c.end), k);
        chk("C04,C15,C21", c.end == static_cast<i64>(k) && c.begin >= 0 && c.begin < static_cast<i64>(k), "constraint", b);
        if (known)
        {
          Snap t; for (size_t q = 0; q < k; ++q) { ScanRec r; r.pose = pose[q]; r.pts = E.e[q].pts; t.scans.push_back(r); }
          Model N = M; N.m = t;
          bool amb = false; auto n = N.nearest(x.pose0, 10.0, k, &amb);
          if (!amb && !n.empty())
            chk("C21,C15", c.begin == static_cast<i64>(n[0]), "nearest", std::string(b) + " whose nearest scan is " + num(n[0]));
        }
      }
      else
      {
        snprintf(b, sizeof b, "constraint %zu joins %lld -> %lld, expected the odometry constraint %zu -> %zu", i, static_cast<long long>(c.begin), static_cast<long long>(c.end), k - 1, k);
        chk("C04,C15", c.end == static_cast<i64>(k) && c.begin == static_cast<i64>(k) - 1, "constraint", b);
      }
      if (c.end != static_cast<i64>(k) || c.begin < 0 || c.begin >= static_cast<i64>(k)) { E.walk_ok = false; return; }
      (void)any;
      ConRec w = make_con(static_cast<size_t>(c.begin), pose[static_cast<size_t>(c.begin)], k, x.pose0, x.info, false);
      if (!known) for (int q = 0; q < 3; ++q) w.t[q] = c.t[q];
      std::string d = con_diff(c, w);
      if (!d.empty()) chk("C15,C21", false, "constraint", "constraint " + num(i) + " " + d);
      sim::count("probe_constraints_checked");
    }
    else
    {
      // the next match of the loop closure thread that can have made it; rather one that must have made a constraint
      size_t found = E.loops.size(); std::string d0;
      for (size_t j = li; j < E.loops.size(); ++j)
      {
        Lm & l = E.loops[j];
        bool cand = false; P2 cp;
        for (auto & q : *l.ct) if (static_cast<i64>(q.id) == c.begin) { cand = true; cp = q.pose; }
        if (cand && static_cast<i64>(l.e->scan.id) == c.end)
        {
          P2 np{l.e->scan.pose.x + l.e->corr.x, l.e->scan.pose.y + l.e->corr.y, l.e->scan.pose.th + l.e->corr.th};
          Eigen::Matrix3d info; usable(l.e->score, l.e->cov, &info);
          std::string d = con_diff(c, make_con(static_cast<size_t>(c.begin), cp, static_cast<size_t>(c.end), np, info, true));
          // (the same match with the previous map, which was in progress when this one was loaded, might be here as well)
          if (d.empty() && (found == E.loops.size() || l.verdict == 1)) found = j;
          if (d0.empty()) d0 = d;
        }
        if (l.verdict == 1) break;
      }
      if (found == E.loops.size())
      {
        snprintf(b, sizeof b, "loop closure constraint %zu (%lld -> %lld) %s does not come from a match of the loop closure thread with this map: ", i, static_cast<long long>(c.begin), static_cast<long long>(c.end), where.c_str());
        chk("C16,C15,C04,C07,C25", false, "loop-constraint", b + d0);
        E.walk_ok = false; return;
      }
      for (size_t j = li; j < found; ++j)
        if (E.loops[j].verdict == 1)
          chk("C16,C22", false, "loop-lost", "the loop closure of scan " + num(E.loops[j].e->scan.id) + " with score " + fnum(E.loops[j].e->score) + " was not added");
      Lm & l = E.loops[found];
      if (l.verdict < 0)
      {
        snprintf(b, sizeof b, "a loop closure of scan %llu with score %.6g was added although it is not usable or not better than the typical score (%.6g at most)", static_cast<unsigned long long>(l.e->scan.id), l.e->score, l.hi);
        chk("C16,C15,C22", false, "loop-unwanted", b);
      }
      l.applied = true; E.applied.push_back(&l); li = found + 1;
      size_t k = l.e->scan.id;
      if (l.e->seq0 < solve0 && k < pose.size())
        chk("C16", pdist(pose[k], l.e->scan.pose) < 1e-9, "moved-otherwise", "scan " + num(k) + " was at " + pstr(l.e->scan.pose) + " when it was matched again, expected " + pstr(pose[k]));
      if (k < pose.size()) pose[k] = P2{l.e->scan.pose.x + l.e->corr.x, l.e->scan.pose.y + l.e->corr.y, l.e->scan.pose.th + l.e->corr.th};
      sim::count("probe_loop_closures");
    }
  }
  for (size_t j = li; j < E.loops.size(); ++j)
    if (E.loops[j].verdict == 1)
      chk("C16,C22", false, "loop-lost", "the loop closure of scan " + num(E.loops[j].e->scan.id) + " with score " + fnum(E.loops[j].e->score) + " was never added");
  if (next_entry < FA.n)
  {
    snprintf(b, sizeof b, "scan %zu of the map has no constraint from the scan before it", next_entry);
    chk("C04,C15,C21", false, "constraint-missing", b);
    E.walk_ok = false; return;
  }
  // poses in every save: the loop closures that are in it, and nothing else
  for (auto & S : E.snaps)
  {
    const Snap & s = *S.s;
    size_t nl = 0, must = 0, may = 0;
    for (size_t i = E.base.cons.size(); i < s.cons.size(); ++i) if (s.cons[i].sw) ++nl;
    for (auto * l : E.applied) { if (l->next < S.seq0) ++must; if (l->e->seq1 < S.seq1) ++may; }
    snprintf(b, sizeof b, "a save shows %zu loop closures, %zu had been made before it and %zu may have been", nl, must, may);
    chk("C05,C04", nl >= must && nl <= may, "stale-save", b);
    std::vector<P2> want;
    if (S.seq1 < solve0 && poses_after(E, nl, s.scans.size(), want))
      for (size_t i = 0; i < want.size(); ++i)
      {
        snprintf(b, sizeof b, "scan %zu of the map saved (%s, %zu loop closures) is at ", i, where.c_str(), nl);
        chk(E.e[i].k == Entry::LOADED ? "C16,C07,C25" : "C12,C16,C10,C21,C07", pdist(s.scans[i].pose, want[i]) < 1e-8, "pose", b + pstr(s.scans[i].pose) + ", expected " + pstr(want[i]));
      }
    else if (S.seq0 > solve0 && !s.scans.empty())
      chk("C17,C16", pdist(s.scans[0].pose, E.e[0].pose0) < 1e-8, "anchor", "optimization moved the first scan to " + pstr(s.scans[0].pose));
  }
  // local maps: poses as of one moment
  if (deciding("C12"))
    for (size_t k = 0; k < FA.n; ++k)
    {
      const Entry & x = E.e[k];
      if (!x.match || x.match->cidx < 0) continue;
      const MEv & a = H.mev[static_cast<size_t>(x.match->cidx)];
      if (a.seq1 > solve0) continue;
      size_t must = 0, may = 0;
      for (auto * l : E.applied) { if (l->next < a.seq0) ++must; if (l->e->seq1 < a.seq1) ++may; }
      bool ok = false; std::string why;
      for (size_t nl = must; nl <= may && !ok; ++nl)
      {
        std::vector<P2> want;
        // scans after k do not matter
        want.clear(); for (size_t i = 0; i < k; ++i) want.push_back(E.e[i].pose0);
        for (size_t i = 0; i < nl; ++i) { size_t q = E.applied[i]->e->scan.id; const P2 & c = E.applied[i]->e->corr; if (q < k) { want[q].x += c.x; want[q].y += c.y; want[q].th += c.th; } }
        ok = true;
        size_t from = k - a.add.size();
        for (size_t i = 0; i < a.add.size() && ok; ++i)
          if (from + i < want.size() && pdist(a.add[i].pose, want[from + i]) > 1e-8) { ok = false; why = "scan " + num(from + i) + " at " + pstr(a.add[i].pose) + ", expected " + pstr(want[from + i]); }
      }
      chk("C12", ok, "content-pose", "scan " + num(k) + " was matched against scans that are not at their poses: " + why);
    }
}
void Check::transforms()
{
  if (M.pf && !p.integer("pf_exact", 0)) return;
  bool stalled = stalls();
  upd.insert(upd.begin(), Upd{0, 0, 0, {P2()}, true});
  double odo = 10;
  double tol = (M.pf ? 1e-3 : 1e-7) * (1 + odo);
  size_t at = 0;
  u64 prev_seq = 0;
  std::deque<TfRec> mine;
  for (auto & t : H.tfs) if (t.group == g) mine.push_back(t);
  for (auto & t : mine)
  {
    chk("C03", t.frame == "map" && t.child == W.odom, "tf-frames", "a transform " + t.frame + " -> " + t.child + " was published");
    chk("C03,C22", finp(t.tf), "tf-finite", "a transform that is not finite was published: " + pstr(t.tf));
    size_t lb = at;
    for (size_t i = at; i < upd.size(); ++i)
      if (upd[i].sure && upd[i].s1 && (upd[i].s1 < prev_seq || (!stalled && upd[i].t1 < t.t - 60 * MS))) lb = std::max(lb, i);
    size_t hit = upd.size();
    for (size_t i = lb; i < upd.size() && hit == upd.size(); ++i)
    {
      if (upd[i].s0 > t.seq) break;
      for (auto & v : upd[i].v) if (pdist(v, t.tf) < tol) hit = i;
    }
    if (hit == upd.size())
    {
      i64 older = -1;
      for (size_t i = 0; i < lb; ++i) for (auto & v : upd[i].v) if (pdist(v, t.tf) < tol) older = static_cast<i64>(i);
      std::string w = lb < upd.size() && !upd[lb].v.empty() ? pstr(upd[lb].v[0]) : "";
      chk("C03,C07,C21,C12", false, "tf", "map->odom " + pstr(t.tf) + " sent at " + fnum(static_cast<double>(t.t - W.t0) * 1e-9) + " s does not belong to one localization update (the last one gives " + w + ")" +
          (older >= 0 ? ", but to an older one (number " + std::to_string(older) + " of " + num(upd.size() - 1) + ")" : ""));
      return;
    }
    at = hit;
    prev_seq = t.seq;
    sim::count("probe_transforms_checked");
  }
}
void Check::graphs()
{
  if (!deciding("C04,C26")) return;
  char b[300];
  for (auto & r : H.graphs)
  {
    if (r.group != g) continue;
    sim::count("probe_graphs_checked");
    Graphed G = decode_graph(r.m);
    chk("C26", !G.bad, "graph-odd", "a graph: " + G.why);
    if (G.bad) return;
    size_t n = G.nodes.size();
    bool odd = false;
    for (size_t i = 0; i < n; ++i) if (!G.nodes.count(static_cast<int>(i))) odd = true;
    if (odd) { bool loaded = false; for (auto & E : ep) for (size_t i = 0; i < E.base.scans.size(); ++i) if (E.base.scans[i].id != i) loaded = true; chk("C04,C26", loaded, "graph-nodes", "a graph of " + num(n) + " nodes has other ids than 0.." + num(n)); continue; }
    auto near = [](const P2 & x, const P2 & y) { return std::fabs(x.x - y.x) < 1e-9 && std::fabs(x.y - y.y) < 1e-9; };
    // every edge ends at nodes of this very message
    for (auto & e : G.edges)
    {
      bool A = false, B = false;
      for (auto & k : G.nodes) { if (near(k.second, e.a)) A = true; if (near(k.second, e.b)) B = true; }
      if (!A || !B) { chk("C04,C26", false, "graph-edges", "a graph of " + num(n) + " nodes has an edge that does not end at the position of a node, but at " + pstr(A ? e.b : e.a)); return; }
    }
    // some state of some map
    bool fits = false, unknown = false; std::string why;
    for (auto & E : ep)
    {
      if (E.load0 > r.seq) continue;
      if (E.blind || E.snaps.empty()) { unknown = true; continue; }
      const Snap & F = *E.snaps.back().s;
      if (n > F.scans.size() || G.edges.size() > F.cons.size()) { if (!E.snaps.back().final) unknown = true; continue; }
      std::vector<char> used(G.edges.size(), 0);
      bool ok = true; size_t ends = 0, nl = 0;
      for (size_t k = 0; k < G.edges.size() && ok; ++k)
      {
        const ConRec & c = F.cons[k];
        if (c.begin >= static_cast<i64>(n) || c.end >= static_cast<i64>(n)) { ok = false; why = "it shows " + num(G.edges.size()) + " edges, but not the scans they join"; break; }
        if (!c.sw) ends = std::max(ends, static_cast<size_t>(c.end));
        else if (k >= E.base.cons.size()) ++nl;
        const P2 & a = G.nodes[static_cast<int>(c.begin)], & e = G.nodes[static_cast<int>(c.end)];
        bool found = false;
        for (size_t t = 0; t < G.edges.size() && !found; ++t)
        {
          size_t j = (k + t) % G.edges.size();
          const auto & d = G.edges[j];
          if (!used[j] && d.sw == c.sw && ((near(d.a, a) && near(d.b, e)) || (near(d.a, e) && near(d.b, a)))) { used[j] = 1; found = true; }
        }
        if (!found) { ok = false; snprintf(b, sizeof b, "no %s edge for constraint %zu (%lld -> %lld) between the nodes shown", c.sw ? "loop closure" : "odometry", k, static_cast<long long>(c.begin), static_cast<long long>(c.end)); why = b; }
      }
      if (ok && n && n > E.base.scans.size() && n > 1 && ends + 1 != n) { ok = false; why = "scan " + num(n - 1) + " is shown without its constraint"; }
      std::vector<P2> want;
      if (ok && r.seq < E.first_solve() && poses_after(E, nl, n, want))
      {
        for (size_t i = 0; i < n && ok; ++i)
          if (!near(G.nodes[static_cast<int>(i)], want[i])) { ok = false; why = "with " + num(nl) + " loop closures scan " + num(i) + " is at " + pstr(want[i]) + ", it is shown at " + pstr(G.nodes[static_cast<int>(i)]); }
      }
      if (ok) fits = true;
    }
    if (!fits && !unknown) { chk("C04,C26", false, "graph-state", "a graph of " + num(n) + " nodes and " + num(G.edges.size()) + " edges is no state the map was in: " + why); return; }
  }
}
void Check::run(const Snap & base)
{
  ep.emplace_back();
  ep[0].base = base;
  for (auto & s : base.scans) { Entry x; x.pose0 = s.pose; x.pts = s.pts; ep[0].e.push_back(x); }
  if (base.ok) M.localized = false;

  for (auto & c : H.cbs) if (c.group == g) { if (c.t1 < 0) { exec.insert(c.fiber); break; } cbs.push_back(&c); exec.insert(c.fiber); }
  for (auto & e : H.mev) if (e.group == g) mev.push_back(&e);
  if (cbs.empty()) return;
  executor();
  if (idle && !ep.back().snaps.empty()) ep.back().snaps.back().final = true;
  loops();
  for (size_t i = 0; i < ep.size(); ++i) epoch(i);
  transforms();
  graphs();
}
}  // namespace

static void loop_idle(i64 limit)
{
  i64 end = sim::now() + limit;
  while (sim::now() < end)
  {
    i64 last = 0; bool busy = false;
    for (auto & e : H.mev) if (e.group == g_group && (e.k == MEv::MATCH || e.k == MEv::ADD)) { if (!e.seq1) busy = true; last = std::max({last, e.t0, e.t1}); }
    for (auto & s : H.solves) { if (!s.seq1 && sim::group_of(s.fiber) == g_group) busy = true; last = std::max(last, s.t1); }
    if (!busy && sim::now() - last > 2300 * MS) return;
    sim::sleep_for(300 * MS);
  }
}
static Snap g_boot_snap;
static i64 budget(const Plan & p)
{
  double unit = 2 * p.num("max_local", p.num("local_delay_ms")) + 2 * p.num("max_global", p.num("global_delay_ms")) + 2 * p.num("max_publish", p.num("publish_delay_ms")) + 2 * p.num("solve_delay_ms");
  return static_cast<i64>(unit * 1e6) + static_cast<i64>(p.num("bag_delay_us") * 1e3) * 4000 + static_cast<i64>(4 * p.parnum("transform_timeout", 0.2) * 1e9);
}
static bool gone(int g) { auto & q = simros::proc(g); return q.destroyed || q.ctor_failed; }
static void wait_down(const Plan & p, i64 stall_until)
{
  simros::Process & q = simros::proc(g_group);
  i64 from = std::max({q.shutdown_at, stall_until, sim::now()});
  i64 end = from + 5 * SEC + budget(p);
  while (!gone(g_group) && sim::now() < end) sim::sleep_for(50 * MS);
  if (!gone(g_group))
    chk("C23", false, "slow-shutdown", "the node is not gone " + fnum(static_cast<double>(sim::now() - q.shutdown_at) * 1e-9) + " s after shutdown was requested: " + sim::blocked_report());
  if (!gone(g_group))
  {
    i64 far = sim::now() + 600 * SEC;
    while (!gone(g_group) && sim::now() < far) sim::sleep_for(SEC);
    if (!gone(g_group)) sim::fail_run("unresponsive", "the node never shuts down: " + sim::blocked_report());
  }
  sim::count("probe_shutdowns");
}
// background threads of a destroyed node are finished
static void check_threads_gone(int g)
{
  for (int i = 0; i < 8; ++i)
  {
    int f = sim::find_fiber(g, i);
    if (f < 0) break;
    chk("C23", sim::fiber_done(f), "thread-left", std::string("thread ") + sim::fiber_name(f) + " still runs after the node was destroyed");
  }
}
void run_concurrent(const Plan & p)
{
  node_setup(p);
  for (auto & o : p.ops) if (o.kind == "mkmap") make_map(o);
  std::string bm = p.str("boot_map");
  if (!bm.empty()) g_boot_snap = decode_bag(bm); else g_boot_snap = Snap();
  node_boot(bm);
  bool up = true, crashing = false, down = false;
  i64 stall_until = 0;
  std::vector<int> groups{g_group};
  std::map<int, Snap> base; base[g_group] = g_boot_snap;
  auto crashed = [&]() { return crashing && sim::group_done(g_group); };
  for (auto & o : p.ops)
  {
    if (o.kind == "mkmap" || o.kind == "way" || o.kind == "tfgap" || o.kind == "tflate") continue;
    i64 at = W.t0 + o.t * 1000;
    if (at > sim::now()) sim::sleep_until(at);
    if (crashed()) up = false;
    if (o.kind == "boot")
    {
      // a node restarted after a crash: from the last save that was answered
      if (up && !crashed()) { crash_node(); }
      sim::at_step(~0ULL, nullptr);
      crashing = false;
      std::string f; const Snap * truth = nullptr;
      for (auto & r : H.reqs)
        if (r.second.t_done >= 0 && (r.second.action & 12) == 8 && r.second.snap && r.second.snap->ok && simros::disk.count(r.second.file)) { f = r.second.file; truth = r.second.snap.get(); }
      Snap want; if (truth) want = *truth;
      simros::clear_faults();
      node_boot(f); up = true; groups.push_back(g_group); base[g_group] = want;
      if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not start after a crash");
      simros::Process & q = simros::proc(g_group);
      if (q.ctor_failed) sim::fail_run("exception", "the node could not be started again after a crash: " + q.ctor_error);
      if (!f.empty())
      {
        Snap got = probe();
        std::string why;
        sim::count("probe_crash_recoveries");
        chk("C05", same_snap(got, want, &why), "reload", "a node started after a crash with the map " + f + " saved before holds something else: " + why);
      }
      continue;
    }
    if (!up) continue;
    if (o.kind == "crash") { crash_node(); up = false; continue; }
    if (o.kind == "shutdown") { simros::request_shutdown(g_group); down = true; break; }
    if (o.kind == "unload") { simros::request_unload(g_group); down = true; break; }
    if (o.kind == "scan") { for (i64 k = 0; k <= o.integer("burst", 0); ++k) send_scan(o, false); }
    else if (o.kind == "pose") send_pose(o);
    else if (o.kind == "save") send_req(8, o.str("file"));
    else if (o.kind == "load") send_req(4, o.str("file"));
    else if (o.kind == "enable") send_req(1, "");
    else if (o.kind == "disable") send_req(2, "");
    else if (o.kind == "conf") send_req(static_cast<int>(o.integer("action")), o.str("file"));
    else if (o.kind == "wait") sim::sleep_for(static_cast<i64>(o.num("d") * 1e9));
    else if (!common_op(o)) sim::harness_error("unknown operation " + o.kind);
    if (o.kind == "crash_at") crashing = true;
    if (o.kind == "stall") stall_until = std::max(stall_until, sim::now() + static_cast<i64>(o.num("d") * 1e9));
    if (o.kind == "shutdown_at" || o.kind == "unload_at") down = true;
  }
  if (crashed()) up = false;
  if (down)
  {
    // let the step counter come to the step
    i64 end = sim::now() + 20 * SEC;
    simros::Process & q = simros::proc(g_group);
    while (q.shutdown_at < 0 && !q.unload && sim::now() < end) sim::sleep_for(20 * MS);
    if (q.shutdown_at < 0 && !q.unload) { if (p.integer("unload", 0)) simros::request_unload(g_group); else simros::request_shutdown(g_group); }
    sim::stop_stalls();
    wait_down(p, std::max(stall_until, sim::stall_end()));
    check_threads_gone(g_group);
    for (int g : groups) { Check c(p, g, false); c.run(base[g]); }
    return;
  }
  if (!up) { for (int g : groups) { Check c(p, g, false); c.run(base[g]); } return; }
  // faults stop; everything must come to rest
  simros::clear_faults(); simros::disk_capacity = -1; sim::stop_stalls();
  stall_until = std::max(stall_until, sim::stall_end());
  { Op o; o.kind = "slow"; o.set("global", 0.0); o.set("local", 0.0); o.set("publish", 0.0); common_op(o); }
  if (stall_until > sim::now()) sim::sleep_until(stall_until + 10 * MS);
  if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not finish its work after all faults stopped: " + sim::blocked_report());
  simros::Process & q = simros::proc(g_group);
  if (q.ctor_failed) sim::fail_run("exception", "the node could not be constructed: " + q.ctor_error);
  loop_idle(120 * SEC);
  if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not finish its work after all faults stopped: " + sim::blocked_report());
  sim::sleep_for(2500 * MS);
  Snap fin = probe();
  sim::sleep_for(100 * MS);
  Check last(p, g_group, true);
  for (int g : groups)
  {
    Check c(p, g, g == g_group);
    c.run(base[g]);
  }
  // the last state is on display
  if (!fin.scans.empty() || !bm.empty())
  {
    GridRec * g = nullptr; GraphRec * m = nullptr;
    for (auto i = H.grids.rbegin(); i != H.grids.rend(); ++i) if (i->group == g_group) { g = &*i; break; }
    for (auto i = H.graphs.rbegin(); i != H.graphs.rend(); ++i) if (i->group == g_group) { m = &*i; break; }
    chk("C09", g && m, "never-published", "no grid or graph was published");
    if (g) check_grid("C08,C09,C07", g->m, fin, last.M.occ, last.M.res, "at the end");
    if (m) check_graph("C26,C09,C07", m->m, fin, "at the end");
  }
  // files saved before are as they were answered
  for (auto & r : H.reqs)
    if (r.second.snap && r.second.snap->ok && (r.second.action & 12) == 8 && simros::disk.count(r.second.file))
    {
      std::string why;
      chk("C05,C06", same_snap(decode_bag(r.second.file), *r.second.snap, &why), "file-damaged", "the file " + r.second.file + " changed after it had been saved: " + why);
    }
  // liveness of the transform and of the service
  if (p.integer("live", 0))
  {
    i64 prev = -1, worst = 0, where = 0;
    // nothing is published while the map is empty, as it may be after a load
    auto loaded = [&](i64 a, i64 b) { for (auto & r : H.reqs) if ((r.second.action & 4) && r.second.t_sent <= b && (r.second.t_done < 0 || r.second.t_done >= a)) return true; return false; };
    for (auto & t : H.tfs) if (t.group == g_group) { if (prev >= 0 && t.t - prev > worst && !loaded(prev, t.t)) { worst = t.t - prev; where = t.t; } prev = t.t; }
    if (prev >= 0 && sim::now() - prev > worst && !loaded(prev, sim::now())) { worst = sim::now() - prev; where = sim::now(); }
    char b[200];
    snprintf(b, sizeof b, "map->odom was not published for %.3f s (until %.3f s)", static_cast<double>(worst) * 1e-9, static_cast<double>(where - W.t0) * 1e-9);
    chk("C09", worst <= 1 * SEC, "tf-gap", b);
    if (!fin.scans.empty()) chk("C09", prev >= 0 && sim::now() - prev <= 1500 * MS, "tf-gap", "map->odom is not published although the map has scans");
    for (auto & r : H.reqs)
      if (r.second.group == g_group)
      {
        i64 done = r.second.t_done < 0 ? sim::now() : r.second.t_done, allowed = 1500 * MS;
        for (auto & c : H.cbs)
          if (c.group == g_group && c.kind == 0 && c.t1 >= r.second.t_sent && c.t0 <= done)
            allowed += static_cast<i64>(p.num("max_local", 0) * 1e6) + static_cast<i64>(2 * p.parnum("transform_timeout", 0.2) * 1e9);
        snprintf(b, sizeof b, "a configure request (action %d) took %.3f s while only matching was slow", r.second.action, static_cast<double>(done - r.second.t_sent) * 1e-9);
        chk("C09", done - r.second.t_sent <= allowed, "service-slow", b);
        sim::count("probe_requests_timed");
      }
  }
  simros::request_shutdown(g_group);
  down = true;
  wait_down(p, 0);
  check_threads_gone(g_group);
}

// Drivers: execute a plan against the node and check its history.
#include "model.hpp"
#include <Eigen/Cholesky>
#include <algorithm>
#include <cstring>
using sim::SEC; using sim::MS;

typedef std::map<std::string, simros::Bag> Disk;
static bool same_bag(const simros::Bag & a, const simros::Bag & b)
{
  if (a.complete != b.complete || a.msgs.size() != b.msgs.size()) return false;
  for (size_t i = 0; i < a.msgs.size(); ++i) if (a.msgs[i].topic != b.msgs[i].topic || a.msgs[i].type != b.msgs[i].type || a.msgs[i].data != b.msgs[i].data) return false;
  return true;
}
static void untouched(const Disk & before, const std::string & except, const std::string & when)
{
  for (auto & b : before)
  {
    if (!b.second.complete || b.first == except) continue;
    auto i = simros::disk.find(b.first);
    chk("C06,C05", i != simros::disk.end() && same_bag(b.second, i->second), "file-damaged", when + ": the file " + b.first + " saved earlier was changed");
  }
}
static void check_bag_equal(const std::string & f, const Snap & want, const char * props, const std::string & when)
{
  Snap s = decode_bag(f);
  std::string why;
  chk(props, s.ok, "not-readable", when + ": the file " + f + " cannot be read back");
  if (!s.ok) return;
  chk(props, same_snap(s, want, &why), "file-differs", when + ": " + why);
}
// last published grid and graph of this incarnation against the map
static void check_published(Model & M, const Snap & s, const std::string & when, const char * gp, const char * mp, bool must)
{
  GridRec * g = nullptr; GraphRec * m = nullptr;
  for (auto i = H.grids.rbegin(); i != H.grids.rend(); ++i) if (i->group == g_group) { g = &*i; break; }
  for (auto i = H.graphs.rbegin(); i != H.graphs.rend(); ++i) if (i->group == g_group) { m = &*i; break; }
  if (must && !s.scans.empty())
  {
    chk(gp, g != nullptr, "never-published", "no grid was published " + when);
    chk(mp, m != nullptr, "never-published", "no graph was published " + when);
  }
  if (g) check_grid(gp, g->m, s, M.occ, M.res, when);
  if (m) check_graph(mp, m->m, s, when);
}
// exact optimum: gradient of the objective of the snapshot's constraints with the first scan fixed
static double objective(const Snap & s, std::vector<double> * grad, double * scale, Eigen::MatrixXd * hess = nullptr)
{
  size_t n = s.scans.size();
  std::vector<double> g(3 * n, 0), gs(3 * n, 0);
  double cost = 0;
  if (hess) hess->setZero(static_cast<Eigen::Index>(3 * n), static_cast<Eigen::Index>(3 * n));
  for (auto & c : s.cons)
  {
    size_t a = static_cast<size_t>(c.begin), b = static_cast<size_t>(c.end);
    const P2 & A = s.scans[a].pose, & B = s.scans[b].pose;
    double ca = std::cos(A.th), sa = std::sin(A.th), dx = B.x - A.x, dy = B.y - A.y;
    double r[3] = {ca * dx + sa * dy - c.t[0], -sa * dx + ca * dy - c.t[1], wrap(B.th - A.th - c.t[2])};
    double J[3][6] = {{-ca, -sa, -sa * dx + ca * dy, ca, sa, 0}, {sa, -ca, -ca * dx - sa * dy, -sa, ca, 0}, {0, 0, -1, 0, 0, 1}};
    double W_[9];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) W_[3 * i + j] = 0.5 * (c.info[3 * i + j] + c.info[3 * j + i]);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
      {
        cost += 0.5 * r[i] * W_[3 * i + j] * r[j];
        for (int k = 0; k < 6; ++k)
        {
          size_t v = (k < 3 ? 3 * a + static_cast<size_t>(k) : 3 * b + static_cast<size_t>(k - 3));
          double t = J[i][k] * W_[3 * i + j] * r[j];
          g[v] += t; gs[v] += std::fabs(t);
          if (hess) for (int l = 0; l < 6; ++l)
          {
            size_t u = (l < 3 ? 3 * a + static_cast<size_t>(l) : 3 * b + static_cast<size_t>(l - 3));
            (*hess)(static_cast<Eigen::Index>(v), static_cast<Eigen::Index>(u)) += J[i][k] * W_[3 * i + j] * J[j][l];
          }
        }
      }
  }
  if (grad) *grad = g;
  if (scale) { *scale = 0; for (double x : gs) *scale = std::max(*scale, x); }
  return cost;
}
// the lowest objective found from here on by an independent Levenberg-Marquardt descent
static double refine(Snap s, double cost, int iters)
{
  Eigen::Index m = static_cast<Eigen::Index>(3 * s.scans.size()) - 3;
  if (m <= 0) return cost;
  double lam = 1e-6;
  std::vector<double> g; Eigen::MatrixXd Hm;
  for (int it = 0; it < iters; ++it)
  {
    objective(s, &g, nullptr, &Hm);
    bool better = false;
    for (int k = 0; k < 8 && !better; ++k)
    {
      Eigen::MatrixXd A = Hm.bottomRightCorner(m, m);
      for (Eigen::Index i = 0; i < m; ++i) A(i, i) += lam * (A(i, i) + 1e-9) + 1e-12;
      Eigen::VectorXd d = A.ldlt().solve(-Eigen::Map<Eigen::VectorXd>(g.data() + 3, m));
      if (!d.allFinite()) { lam *= 10; continue; }
      Snap q = s;
      for (size_t i = 1; i < q.scans.size(); ++i)
      {
        Eigen::Index b = static_cast<Eigen::Index>(3 * i - 3);
        q.scans[i].pose.x += d(b); q.scans[i].pose.y += d(b + 1); q.scans[i].pose.th += d(b + 2);
      }
      double c = objective(q, nullptr, nullptr);
      if (c < cost) { better = true; s = q; double gain = cost - c; cost = c; lam = std::max(lam * 0.2, 1e-12); if (gain < 1e-9 * cost) return cost; }
      else lam *= 10;
    }
    if (!better) break;
  }
  return cost;
}
static void check_optimum(const char * props, const Snap & before, const Snap & after, const std::string & when)
{
  if (!deciding(props)) return;
  std::vector<double> g; double sc = 0;
  bool whole = before.cons.size() == after.cons.size();
  for (auto & c : before.cons) if (c.begin < 0 || !std::isfinite(c.t[0])) whole = false;
  double c0 = whole ? objective(before, nullptr, nullptr) : std::nan(""), c1 = objective(after, &g, &sc);
  double mx = 0;
  for (size_t i = 3; i < g.size(); ++i) mx = std::max(mx, std::fabs(g[i]));
  char b[240];
  snprintf(b, sizeof b, "%s: after optimizing %zu constraints the objective is %.6g (before %.6g) with a gradient of %.3g (terms up to %.3g)", when.c_str(), after.cons.size(), c1, c0, mx, sc);
  sim::count("probe_optimum_checked");
  if (std::isfinite(c0)) chk(props, c1 <= c0 * (1 + 1e-6) + 1e-9, "not-optimal", b);
  if (mx <= 2e-2 * sc + 1e-4 * (1 + std::sqrt(c1))) return;
  // stiff constraints leave a large gradient next to the optimum: what counts is how much lower it could be
  sim::count("probe_optimum_refined");
  double c2 = refine(after, c1, 60);
  char d[320];
  snprintf(d, sizeof d, "%s, nearby poses reach %.6g", b, c2);
  chk(props, c2 >= 0.93 * c1 - 1e-9, "not-optimal", d);
}

// ------------------------------------------------------------------ paced
struct Paced
{
  const Plan & p;
  Model M;
  Snap last; bool have_last = false;
  Disk before;
  explicit Paced(const Plan & q) : p(q) {}
  void probe_compare(const std::string & what)
  {
    M.last_op = what;
    M.consume();
    u64 solves = M.solves, loops = M.loops;
    bool was_known = M.poses_known;
    Snap prev = M.m;
    Snap s = probe();
    M.consume(probe_seq);
    // a loop closure can be caught between its match and what follows from it
    for (int k = 0; k < 5 && M.differs(s); ++k)
    {
      sim::count("probe_repeated");
      sim::sleep_for((k < 2 ? 20 : 1500) * MS);
      s = probe();
      M.consume(probe_seq);
    }
    // one optimization and nothing else since the last look: it must have reached the optimum
    (void)solves; (void)loops; (void)was_known; (void)prev;
    if (!M.poses_known && !M.fuzzy && !H.solves.empty() && H.solves.back().usable && !H.solves.back().injected && H.solves.back().seq0 > M.loop_seq && s.scans.size() == prev.scans.size() && s.cons.size() == M.m.cons.size())
      check_optimum("C07,C17", prev, s, "after " + what);
    M.compare(s);
    last = s; have_last = true;
  }
  void settle_or_die(const std::string & what)
  {
    if (!settle(600 * SEC)) sim::fail_run("unresponsive", "the node did not finish handling " + what);
  }
  void dead()
  {
    simros::Process & q = simros::proc(g_group);
    if (q.ctor_failed) sim::fail_run("exception", "the node could not be constructed: " + q.ctor_error);
  }
  void boot(const std::string & map)
  {
    
    node_boot(map);
    M.init(p);
    Snap s;
    if (!map.empty()) { s = decode_bag(map); M.load(s, true); }
    settle_or_die("startup");
    dead();
    if (!map.empty())
    {
      Snap got = probe();
      std::string why;
      chk("C05,C04,C07,C25", same_snap(got, s, &why), "reload", "a node started with map " + map + " holds something else than the file: " + why);
      last = got; have_last = true;
    }
  }
  void published(const std::string & when, const char * gp, const char * mp)
  {
    // let the publisher come round, make sure nothing else changed meanwhile
    for (int k = 0; k < 3; ++k)
    {
      Snap a = probe(); M.consume();
      sim::sleep_for((k ? 1900 : 700) * MS);
      settle(60 * SEC);
      M.consume();
      Snap b = probe(); M.consume();
      if (same_snap(a, b) && !a.scans.empty()) { check_published(M, b, when, gp, mp, true); return; }
      if (a.scans.empty() && b.scans.empty()) return;
    }
  }
  void conf(const Op & o, int action)
  {
    std::string f = o.str("file");
    before = simros::disk;
    bool existed = before.count(f) > 0;
    if (o.has("fault"))
    {
      simros::DiskFault d; const std::string k = o.str("fault");
      d.op = k == "open" ? simros::F_OPEN_W : k == "write" ? simros::F_WRITE : k == "close" ? simros::F_CLOSE : k == "ropen" ? simros::F_OPEN_R : simros::F_READ;
      d.nth = static_cast<int>(o.integer("nth"));
      simros::arm_fault(d);
    }
    if (o.has("room")) { i64 used = 0; for (auto & b : simros::disk) used += b.second.bytes; simros::disk_capacity = used + o.integer("room"); }
    u64 id = send_req(action, f);
    bool answered = wait_req(id, 600 * SEC);
    simros::clear_faults(); simros::disk_capacity = -1;
    chk("*", answered, "unresponsive", "");
    if (!answered) sim::fail_run("unresponsive", "a configure request was never answered");
    settle_or_die("a configure request");
    ReqRec & r = H.reqs[id];
    if ((action & 4) && !(existed && before[f].complete)) r.faulted = true;      // cannot have succeeded
    if (!(action & 4) && (action & 8) && existed) r.faulted = true;
    M.consume();
    std::string when = std::string("after a ") + (r.faulted ? "failed " : "") + (action & 4 ? "load" : action & 8 ? "save" : "configure") + " request for '" + f + "'";
    if (r.faulted) sim::count("probe_storage_failures_survived");
    untouched(before, "", when);
    if ((action & 8) && !(action & 4))
    {
      if (!r.faulted)
      {
        Snap now = probe(); M.consume();
        check_bag_equal(f, now, "C05,C06", when);
        check_bag_equal(f, now, "C25", when);
        // same content as before the save
        if (M.poses_known) M.compare(now);
      }
    }
    if (action & 4 && !r.faulted)
    {
      Snap want = decode_bag(f);
      Snap got = probe(); M.consume();
      std::string why;
      chk("C05,C07,C06", same_snap(got, want, &why), "reload", when + " the node holds something else than the file: " + why);
      sim::count("probe_loads");
    }
  }
  bool op(const Op & o)
  {
    std::string k = o.kind, what = k + " at " + std::to_string(static_cast<double>(o.t) * 1e-6) + " s" + (o.has("file") ? " (" + o.str("file") + ")" : "");
    M.last_op = what;
    if (k == "scan")
    {
      send_scan(o, true);
      if (o.integer("burst", 0)) return true;
      settle_or_die(what);
    }
    else if (k == "pose") { send_pose(o); settle_or_die(what); }
    else if (k == "save") conf(o, 8);
    else if (k == "load") conf(o, 4);
    else if (k == "enable") conf(o, 1);
    else if (k == "disable") conf(o, 2);
    else if (k == "conf") conf(o, static_cast<int>(o.integer("action")));
    else if (k == "crash") { crash_node(); return false; }
    else if (k == "boot") { boot(o.str("file")); return true; }
    else if (k == "wait") { sim::sleep_for(static_cast<i64>(o.num("d") * 1e9)); settle_or_die(what); }
    else if (k == "check") { M.consume(); published(what, "C08,C09,C07,C22", "C26,C09,C07"); return true; }
    else if (!common_op(o)) sim::harness_error("unknown operation " + k);
    M.consume();
    if (o.integer("noprobe", 0)) return true;
    probe_compare(what);
    return true;
  }
};
// until the loop closure thread has had nothing to do for a while
static void loop_idle()
{
  Op o; o.kind = "slow"; o.set("global", 0.0); common_op(o);
  for (int k = 0; k < 1000; ++k)
  {
    i64 last = 0; bool busy = false;
    for (auto i = H.mev.rbegin(); i != H.mev.rend(); ++i)
      if (i->group == g_group && i->k == MEv::MATCH)
      {
        if (!i->seq1) busy = true;
        last = std::max(last, i->t1);
        if (i->seq1) break;
      }
    for (auto & s : H.solves) { if (!s.seq1) busy = true; last = std::max(last, s.t1); }
    if (!busy && sim::now() - last > 2300 * MS) return;
    sim::sleep_for(400 * MS);
  }
}
void run_paced(const Plan & p)
{
  node_setup(p);
  Paced d(p);
  for (auto & o : p.ops) if (o.kind == "mkmap") make_map(o);
  d.boot(p.str("boot_map"));
  bool up = true;
  for (auto & o : p.ops)
  {
    if (o.kind == "mkmap" || o.kind == "way" || o.kind == "tfgap" || o.kind == "tflate") continue;
    i64 at = W.t0 + o.t * 1000;
    if (at > sim::now()) sim::sleep_until(at);
    if (o.kind == "boot") { up = true; d.op(o); continue; }
    if (!up) continue;
    d.settle_or_die("earlier input");
    up = d.op(o);
    if (up) d.dead();
  }
  if (!up) return;
  d.M.last_op = "the end";
  d.settle_or_die("the last input");
  d.probe_compare("the end");
  sim::sleep_for(static_cast<i64>(p.num("tail", 4.5) * 1e9));
  d.settle_or_die("the last input");
  loop_idle();
  d.probe_compare("the end");
  d.M.finish();
  if (p.integer("check_published", 0)) d.published("at the end", "C08,C09,C07,C22", "C26,C09,C07");
  d.M.consume();
  if (p.integer("resave", 0))
  {
    Op o; o.kind = "save"; o.set("file", "/nonexistent_sim/final"); d.conf(o, 8);
    Snap a = decode_bag("/nonexistent_sim/final");
    Op l; l.kind = "load"; l.set("file", "/nonexistent_sim/final"); d.conf(l, 4);
    Op s; s.kind = "save"; s.set("file", "/nonexistent_sim/final2"); d.conf(s, 8);
    auto x = simros::disk.find("/nonexistent_sim/final"), y = simros::disk.find("/nonexistent_sim/final2");
    std::string why;
    if (x != simros::disk.end() && y != simros::disk.end())
      chk("C05", same_snap(decode_bag(x->first), decode_bag(y->first), &why), "resave", "a map saved, loaded and saved again differs: " + why);
  }
  simros::request_shutdown(g_group);
  sim::sleep_for(3 * SEC);
}

void execute(const Plan & p)
{
  g_prop = p.prop;
  sim::races_fatal = g_prop == "C02" || g_prop == "*";
  if (p.kind == "paced") run_paced(p);
  else if (p.kind == "track") run_track(p);
  else if (p.kind == "conc") run_concurrent(p);
  else sim::harness_error("unknown plan kind " + p.kind);
}

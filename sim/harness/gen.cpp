// Seeded plan generators, one per property.
#include "plan.hpp"
#include <algorithm>
#include <cmath>
#include <set>

namespace
{
typedef sim::Rng Rng;
const char * D = "/nonexistent_sim/";

struct Walk                                   // the robot's path, in the world frame
{
  Plan & p; Rng & r;
  double t = 0, x = 0, y = 0, th = 0, lim = 1.3;
  Walk(Plan & pl, Rng & rr) : p(pl), r(rr) {}
  void mark() { p.add(static_cast<i64>(std::llround(t * 1e6)), "way").set("x", x).set("y", y).set("th", th); }
  void start(double h) { th = h; mark(); }
  void stay(double d) { t += d; mark(); }
  void move(double dist, double dth, double d)
  {
    // turn towards the middle when leaving the area
    double nx = x + dist * std::cos(th + dth / 2), ny = y + dist * std::sin(th + dth / 2);
    if (std::fabs(nx) > lim || std::fabs(ny) > lim)
    {
      double want = std::atan2(-y, -x) + r.range(-0.6, 0.6);
      dth = std::remainder(want - th, 2 * M_PI);
      if (std::fabs(dth) > 1.2) dth = dth > 0 ? 1.2 : -1.2;
      nx = x + dist * std::cos(th + dth / 2); ny = y + dist * std::sin(th + dth / 2);
      if (std::fabs(nx) > lim + 0.3 || std::fabs(ny) > lim + 0.3) { nx = x * 0.9; ny = y * 0.9; }
    }
    x = nx; y = ny; th += dth; t += d;
    mark();
  }
};
void schedule(Plan & p, Rng & r, bool paced, bool fine)
{
  p.sched.seed = r.next();
  if (paced) { p.sched.kind = "block"; return; }
  if (r.p(0.25)) { p.sched.kind = "pct"; p.sched.depth = r.irange(2, 6); p.sched.horizon = fine ? 60000 : 4000; }
  else { p.sched.kind = "rw"; p.sched.p_sync = r.range(0.05, 0.6); p.sched.p_mem = fine && r.p(0.6) ? r.range(0.0005, 0.02) : 0; }
}
void matcher(Plan & p, Rng & r, double p_script)
{
  if (r.p(p_script))
  {
    p.ps("scan_matcher_type", "simx::ScriptMatcher");
    p.set("script_seed", static_cast<double>(r.below(1000000)));
    p.set("script_amp_local", r.range(0.0, 0.04)); p.set("script_amp_global", r.range(0.0, 0.06));
    if (r.p(0.3)) { p.set("script_global_lo", -1.0); p.set("script_global_hi", -0.5); }
    // a plugin whose answers are sometimes not finite
    static const std::set<std::string> some{"C01", "C02", "C03", "C04", "C12", "C15", "C16", "C17", "C22", "C25"};
    if (some.count(p.prop.substr(0, 3)) && r.p(0.15)) { p.set("script_nanmix", 1); p.set("script_p_nan", 0.08); }
  }
  else
  {
    for (std::string n : {"local_scan_matcher.", "global_scan_matcher."})
    {
      p.pd(n + "ndt_resolution", r.range(0.2, 0.5));
      double ls = r.range(0.02, 0.06), as = r.range(0.02, 0.08);
      p.pd(n + "search_linear_size", ls); p.pd(n + "search_linear_resolution", ls / r.irange(2, 3));
      p.pd(n + "search_angular_size", as); p.pd(n + "search_angular_resolution", as / r.irange(1, 2));
      p.pi(n + "laser_max_beams", r.irange(10, 60));
    }
  }
}
void world(Plan & p, Rng & r)
{
  p.set("world_seed", static_cast<double>(r.below(1000000)));
  p.set("rand_seed", static_cast<double>(r.below(1000000)));
  p.set("room_w", r.range(4, 7)); p.set("room_h", r.range(4, 6)); p.set("boxes", r.irange(0, 5));
  p.set("beams", r.irange(16, 48));
  p.set("fov", r.p(0.5) ? 2 * M_PI : r.range(3.0, 5.5));
  p.set("range_max", r.p(0.3) ? r.range(2.0, 4.0) : 10.0);
  p.set("range_min", r.range(0.03, 0.12));
  p.set("range_noise", r.p(0.5) ? r.range(0, 0.01) : 0.002);
  p.set("mount_x", r.range(-0.2, 0.2)); p.set("mount_y", r.range(-0.15, 0.15)); p.set("mount_th", r.p(0.5) ? 0 : r.range(-M_PI, M_PI));
  p.set("inverted", r.p(0.3) ? 1 : 0);
  if (r.p(0.3)) p.set("mount_neg", 1);
  if (r.p(0.1)) p.set("mount_th", M_PI);
  p.set("sweep", r.p(0.5) ? r.range(0.01, 0.08) : 0.0);
  p.set("tf_period", r.range(0.02, 0.06)); p.set("tf_latency", r.range(0.0, 0.03));
  if (r.p(0.6)) { p.set("odom_x", r.range(-5, 5)); p.set("odom_y", r.range(-5, 5)); p.set("odom_th", r.range(-M_PI, M_PI)); }
  if (r.p(0.6)) { p.set("odom_scale_err", r.range(-0.03, 0.03)); p.set("odom_rot_err", r.range(-0.05, 0.05)); }
  if (r.p(0.15)) p.ps("odom_frame", "odo"), p.set("odom_frame", "odo");
  if (r.p(0.15)) p.ps("robot_frame", "base"), p.set("robot_frame", "base");
}
void params(Plan & p, Rng & r)
{
  p.pd("resolution", r.range(0.08, 0.2));
  p.pd("minimum_travel_distance", r.range(0.03, 0.2));
  p.pd("minimum_travel_rotation", r.range(0.2, 1.0));
  p.pi("rolling_depth", r.irange(2, 6));
  p.pb("use_barycenter", r.p(0.5));
  p.pd("global_search_size", r.range(0.2, 1.2));
  p.pi("global_search_limit", r.irange(1, 4));
  p.pi("optimization_node_limit", r.irange(2, 10));
  static const double simple[] = {0.25, 0.5, 0.125, 0.375, 0.75};       // shares that cells really have
  p.pd("occupancy_threshold", r.p(0.4) ? simple[r.below(5)] : r.range(0.1, 0.6));
  p.pd("transform_timeout", r.range(0.05, 0.3));
  if (r.p(0.3)) { double v = r.range(1.5, std::min(4.0, p.num("range_max", 10))); p.pd("max_range", r.p(0.5) ? v : std::floor(v * 64) / 64); }
}
std::string mkmap(Plan & p, Rng & r, const char * name, double span)
{
  std::string f = std::string(D) + name;
  Op & o = p.add(0, "mkmap");
  o.set("file", f).set("n", r.irange(1, 9)).set("span", span).set("t0", 0).set("seed", static_cast<double>(r.below(100000)));
  if (r.p(0.3)) { o.set("random", 1); o.set("n", r.irange(1, 14)); }
  else if (r.p(0.3)) o.set("rel", 0);
  // scans with thousands of points, or many scans
  if (p.integer("beams", 60) >= 15 && r.p(p.prop == "C05" ? 0.03 : 0.01))
  {
    if (r.p(0.6)) o.set("random", 0).set("n", r.irange(1, 2)).set("beams", r.irange(600, 3000));
    else o.set("random", 1).set("n", r.irange(100, 500));
  }
  return f;
}
const char * metas[] = {"nanangle", "infangle", "naninc", "infinc", "nantime", "inftime", "nanmax", "infmax", "negmax", "zeromax", "infmin"};
const char * bads[] = {"empty", "one", "allnan", "allinf", "allneginf", "allzero", "mix", "same"};

// weights of the operations of a paced run
struct Mix
{
  int n = 18;
  double move = 1, small = 0.15, turn = 0.1, stay = 0.05, dup = 0, drop = 0, late = 0, bad = 0, pose = 0, save = 0, load = 0, loadbad = 0, enable = 0, disable = 0, fault = 0, check = 0, tf = 0, slow = 0, far = 0, crash = 0, badpose = 0, meta = 0;
  double dt_lo = 0.75, dt_hi = 1.1;
};
void paced(Plan & p, Rng & r, const Mix & m)
{
  p.kind = "paced";
  Walk w(p, r);
  if (!p.ops.empty() && false) return;
  w.start(r.range(-M_PI, M_PI));
  double off = 1.0;
  w.stay(off);
  std::vector<std::string> saved, maps;
  for (auto & o : p.ops) if (o.kind == "mkmap") maps.push_back(o.str("file"));
  int files = 0, crashes = 0;
  double mind = p.parnum("minimum_travel_distance", 0.1), minr = p.parnum("minimum_travel_rotation", 1.0);
  auto at = [&]() {
      // keep away from whole seconds, where the background threads wake up
      double f = w.t - std::floor(w.t);
      double t = f < 0.06 ? w.t + 0.06 : f > 0.94 ? w.t + 0.12 : w.t;
      return static_cast<i64>(std::llround(t * 1e6));
    };
  double total = m.move + m.small + m.turn + m.stay;
  for (int i = 0; i < m.n; ++i)
  {
    double u = r.u() * total, dt = r.range(m.dt_lo, m.dt_hi), spin = r.p(0.5) ? r.range(-0.4, 0.4) : 0;
    if (u < m.move) w.move(r.range(mind * 1.2, mind * 1.2 + 0.25), spin, dt);
    else if (u < m.move + m.small) w.move(mind * r.range(0.2, 1.3), minr * r.range(-0.4, 0.4), dt);
    else if (u < m.move + m.small + m.turn) w.move(mind * 0.2, minr * r.range(0.5, 1.6) * (r.p(0.5) ? 1 : -1), dt);
    else w.stay(dt);
    if (r.p(0.3)) w.stay(r.range(0.05, 0.3));          // standing still while scanning
    i64 t = at();
    if (r.p(m.tf)) p.add(t - static_cast<i64>(r.range(0, 0.4) * 1e6), r.p(0.5) ? "tfgap" : "tflate").set("d", r.range(0.1, 0.9)).set("late", r.range(0.05, 0.6));
    if (r.p(m.slow)) { Op & o = p.add(t - 1000, "slow"); o.set("noprobe", 1); if (r.p(0.7)) o.set("global", r.p(0.3) ? 0 : r.range(50, 900)); if (r.p(0.3)) o.set("local", r.p(0.5) ? 0 : r.range(20, 300)); }
    Op & s = p.add(t, "scan");
    if (r.p(m.meta)) s.set("meta", metas[r.below(sizeof metas / sizeof *metas)]);
    if (r.p(m.bad)) { s.set("bad", bads[r.below(sizeof bads / sizeof *bads)]); if (r.p(0.4)) s.set("frac", r.range(0.1, 0.9)); if (r.p(0.4)) s.set("edge", 1); }
    if (r.p(m.far)) s.set("dx", r.range(20, 60));
    if (r.p(m.drop)) s.set("drop", 1);
    if (r.p(m.dup)) s.set("dup", r.irange(1, 2));
    if (r.p(m.late)) s.set("old", r.range(0.05, 0.8));
    t += 20000;
    if (r.p(m.pose))
    {
      Op & o = p.add(t, "pose");
      o.set("x", r.range(-0.3, 0.3)).set("y", r.range(-0.3, 0.3)).set("th", r.range(-0.3, 0.3)).set("cx", r.range(0.005, 0.1)).set("cy", r.range(0.005, 0.1)).set("ct", r.range(0.002, 0.05));
      if (r.p(0.12)) { o.set("cx", 0).set("cy", 0); if (r.p(0.5)) o.set("ct", 0); }
      if (r.p(m.badpose)) { static const char * k[] = {"nanpos", "nanquat", "infpos", "nancov", "negcov", "infcov"}; o.set("badpose", k[r.below(6)]); }
      if (r.p(0.1)) o.set("frame", r.p(0.5) ? "odom" : "");
      if (r.p(0.1)) o.set("abs", 1).set("x", r.range(-30, 30)).set("y", r.range(-30, 30));
      t += 20000;
    }
    if (r.p(m.save))
    {
      std::string f = std::string(D) + "s" + std::to_string(files++);
      Op & o = p.add(t, "save");
      if (!saved.empty() && r.p(0.1)) o.set("file", saved[r.below(saved.size())]);
      else
      {
        o.set("file", f);
        if (r.p(m.fault))
        {
          static const char * k[] = {"open", "write", "write", "write", "close"};
          if (r.p(0.3)) o.set("room", r.range(0, 6000));
          else { o.set("fault", k[r.below(5)]); o.set("nth", o.str("fault") == "write" ? r.irange(0, 20) : 0); }
        }
        saved.push_back(f);
      }
      t += 20000;
    }
    if (r.p(m.load) && !(saved.empty() && maps.empty()))
    {
      Op & o = p.add(t, "load");
      size_t k = r.below(saved.size() + maps.size());
      o.set("file", k < saved.size() ? saved[k] : maps[k - saved.size()]);
      if (r.p(m.fault)) { o.set("fault", r.p(0.25) ? "ropen" : "read"); o.set("nth", o.str("fault") == "read" ? r.irange(0, 12) : 0); }
      t += 20000;
      if (r.p(0.7))
      {
        Op & q = p.add(t, "pose");
        q.set("x", r.range(-0.2, 0.2)).set("y", r.range(-0.2, 0.2)).set("th", r.range(-0.2, 0.2));
        t += 20000;
      }
    }
    if (r.p(m.loadbad)) { p.add(t, "load").set("file", std::string(D) + "missing" + std::to_string(files++)); t += 20000; }
    if (r.p(m.disable)) { p.add(t, "disable"); t += 20000; if (r.p(0.6)) { p.add(t, "pose").set("x", r.range(-0.2, 0.2)).set("y", r.range(-0.2, 0.2)); t += 20000; } }
    if (r.p(m.enable)) { p.add(t, "enable"); t += 20000; }
    if (r.p(m.check)) { p.add(t, "check"); w.stay(3.0); }
    if (r.p(m.crash) && !saved.empty() && ++crashes < 5)
    {
      p.add(t, "save").set("file", std::string(D) + "c" + std::to_string(files));
      p.add(t + 30000, "crash");
      p.add(t + 60000, "boot").set("file", std::string(D) + "c" + std::to_string(files++));
      t += 300000;
      p.add(t, "pose").set("x", r.range(-0.2, 0.2)).set("y", r.range(-0.2, 0.2));
      w.stay(0.5);
    }
  }
  w.stay(0.3);
  p.set("dur", w.t + 10);
  p.sort_ops();
}
void localization(Plan & p, Rng & r, bool pf_allowed)
{
  // start from a map
  std::string f = mkmap(p, r, "map0", r.range(3, 10));
  p.set("boot_map", f);
  if (pf_allowed && r.p(0.4))
  {
    p.pb("use_particle_filter", true);
    p.pi("min_particles", r.irange(5, 30)); p.pi("max_particles", r.irange(30, 80));
    if (r.p(0.5)) { for (const char * a : {"odom_alpha1", "odom_alpha2", "odom_alpha3", "odom_alpha4", "odom_alpha5"}) p.pd(a, r.range(0.01, 0.3)); }
    p.pd("kld_err", r.range(0.01, 0.1));
  }
  else p.pb("enable_mapping", false);
}
void particle_filter(Plan & p, Rng & r, const std::string & q)
{
  p.par.erase("enable_mapping");
  p.pb("use_particle_filter", true);
  matcher(p, r, 0.9);
  if (q != "C20" && r.p(0.5)) p.set("script_field", r.irange(1, 4));
  int a = r.p(0.1) ? r.irange(1, 4) : r.p(0.5) ? r.irange(5, 60) : r.irange(60, 400), b = r.p(0.3) ? a : a + r.irange(0, 500);
  p.pi("min_particles", a); p.pi("max_particles", b);
  bool zero = r.p(q == "C20" ? 0.35 : 0.15);
  for (const char * k : {"odom_alpha1", "odom_alpha2", "odom_alpha3", "odom_alpha4", "odom_alpha5"})
    if (zero) p.pd(k, 0.0); else if (r.p(0.9)) p.pd(k, r.p(0.3) ? 0.0 : r.p(0.3) ? r.range(0.1, 0.4) : std::pow(10.0, r.range(-4, -1)));
  if (r.p(0.8)) p.pd("kld_err", r.p(0.5) ? r.range(0.01, 0.1) : std::pow(10.0, r.range(-2.5, -0.3)));
  if (r.p(0.8)) p.pd("kld_z", r.range(0.5, 3));
}
// unusual but valid parameter values
void extremes(Plan & p, Rng & r, bool fine)
{
  int n = r.irange(1, 4);
  bool pf = p.par.count("use_particle_filter") && p.par["use_particle_filter"] == "b:1", ndt = p.par.count("scan_matcher_type") == 0;
  for (int i = 0; i < n; ++i) switch (r.irange(0, 15))
  {
    case 0: p.pi("rolling_depth", r.p(0.5) ? r.irange(0, 1) : r.irange(20, 100)); break;
    case 1: p.pi("global_search_limit", r.p(0.5) ? 0 : 100); break;
    case 2: p.pi("optimization_node_limit", r.irange(0, 1)); break;
    case 3: p.pd("minimum_travel_distance", r.p(0.5) ? 0.0 : 100.0); break;
    case 4: p.pd("minimum_travel_rotation", r.p(0.5) ? 0.0 : 10.0); break;
    case 5: p.pd("occupancy_threshold", r.p(0.5) ? 0.0 : 1.0); break;
    case 6: p.pd("transform_timeout", r.p(0.5) ? 0.0 : 2.0); break;
    case 7: p.pd("resolution", r.p(0.5) ? (fine ? 0.1 : 0.02) : r.range(1, 20)); break;
    case 8: p.pd("global_search_size", r.p(0.5) ? 0.0 : 100.0); break;
    case 9: p.pd("max_range", r.p(0.5) ? r.range(0.1, 0.5) : 0.01); break;
    case 10: if (pf) { p.pi("min_particles", 1); if (r.p(0.5)) p.pi("max_particles", 1); } break;
    case 11: if (pf) { p.pd("kld_err", r.p(0.5) ? 1e-6 : 1.0); p.pd("kld_z", r.p(0.5) ? 0.0 : 4.0); } break;
    case 12: if (pf) { p.pd("odom_alpha1", r.range(1, 10)); p.pd("odom_alpha3", r.range(1, 10)); } break;
    case 13: if (ndt) { std::string q = r.p(0.5) ? "local_scan_matcher." : "global_scan_matcher."; p.pi(q + "laser_max_beams", r.p(0.5) ? 1 : 1000); } break;
    case 14: if (ndt) { std::string q = r.p(0.5) ? "local_scan_matcher." : "global_scan_matcher."; if (r.p(0.5)) p.pd(q + "search_linear_size", 0.0); else p.pd(q + "search_angular_size", 0.0); } break;
    default: if (ndt) { std::string q = r.p(0.5) ? "local_scan_matcher." : "global_scan_matcher."; p.pd(q + "ndt_resolution", r.p(0.5) ? (fine ? 0.15 : 0.03) : 50.0); } break;
  }
}
// ------------------------------------------------------------------ concurrent runs
struct Conc
{
  int n = 16; double dt_lo = 0.15, dt_hi = 0.9;
  double bad = 0, pose = 0.02, save = 0.1, load = 0.04, enable = 0.02, disable = 0.02, stall = 0.06, slow = 0.15, tf = 0.03, drop = 0.03, dup = 0.03, fault = 0, burst = 0.03, loadbad = 0.01, meta = 0;
  bool crash = false, down = false, live = false, delays = true, badpose = false, no_oracle = false, jam = false;
};
void concurrent(Plan & p, Rng & r, const Conc & m)
{
  p.kind = "conc";
  Walk w(p, r);
  w.start(r.range(-M_PI, M_PI));
  w.stay(1.0);
  std::vector<std::string> maps, saved;
  for (auto & o : p.ops) if (o.kind == "mkmap") maps.push_back(o.str("file"));
  int files = 0;
  double mind = p.parnum("minimum_travel_distance", 0.1);
  bool loc = p.cfg.count("boot_map") > 0 && !p.str("boot_map").empty();
  double ml = 0, mg = 0, mp = 0;
  if (m.delays)
  {
    if (r.p(0.6)) { mg = r.range(50, 900); p.set("global_delay_ms", mg); }
    if (r.p(0.4)) { ml = r.range(10, 250); p.set("local_delay_ms", ml); }
    if (r.p(0.15) && !m.live) { mp = r.range(10, 400); p.set("publish_delay_ms", mp); }
    if (r.p(0.2) && !m.live) p.set("solve_delay_ms", r.range(10, 500));
    if (r.p(0.25) && !m.live) p.set("bag_delay_us", r.range(50, 3000));
  }
  p.set("exec_random", r.p(0.4) ? 1 : 0);
  auto pose = [&](i64 t) {
      Op & q = p.add(t, "pose");
      q.set("x", r.range(-0.2, 0.2)).set("y", r.range(-0.2, 0.2)).set("th", r.range(-0.2, 0.2));
      if (p.integer("pf_exact", 0)) q.set("cx", 0).set("cy", 0).set("ct", 0);
      else if (r.p(0.1)) q.set("cx", 0).set("cy", 0).set("ct", 0);
      if (r.p(0.08)) q.set("frame", "odom");
      if (m.badpose && r.p(0.3) && !p.integer("pf_exact", 0)) { static const char * k[] = {"nanpos", "nanquat", "infpos", "nancov", "negcov", "hugecov", "infcov", "zeroquat"}; q.set("badpose", k[r.below(m.no_oracle ? 8 : 7)]); }
      if (m.no_oracle && r.p(0.2) && p.par.count("use_particle_filter")) q.set("badpose", "farpos");
      if (r.p(0.05)) q.set("abs", 1).set("x", r.p(0.5) ? 60 : -60).set("y", r.range(-5, 5));
    };
  int down_at = m.down ? r.irange(1, m.n) : -1, crash_at = m.crash ? r.irange(m.n / 3, m.n - 1) : -1;
  if (loc)
  {
    i64 t = static_cast<i64>(std::llround(w.t * 1e6));
    if (r.p(0.9)) pose(t + static_cast<i64>(r.range(0, 0.5) * 1e6));
  }
  for (int i = 0; i < m.n; ++i)
  {
    double dt = r.range(m.dt_lo, m.dt_hi);
    if (r.p(0.85)) w.move(r.range(mind * 1.1, mind * 1.1 + 0.2), r.range(-0.5, 0.5), dt); else w.move(mind * r.range(0.1, 1.2), r.range(-0.6, 0.6), dt);
    i64 t = static_cast<i64>(std::llround(w.t * 1e6));
    // background threads wake up at whole and quarter seconds
    if (r.p(0.25)) t = (t / 250000) * 250000 + (r.p(0.5) ? 0 : static_cast<i64>(r.range(0, 2000)));
    if (t < 1100000) t = 1100000;
    auto soon = [&]() { if (r.p(0.5)) t += static_cast<i64>(r.range(0, 30000)); else if (r.p(0.5)) t += static_cast<i64>(r.range(0, 300000)); };
    if (r.p(m.tf)) p.add(t - static_cast<i64>(r.range(0, 0.4) * 1e6), r.p(0.5) ? "tfgap" : "tflate").set("d", r.range(0.1, 0.9)).set("late", r.range(0.05, 0.6));
    Op & s = p.add(t, "scan");
    if (r.p(m.meta)) s.set("meta", metas[r.below(sizeof metas / sizeof *metas)]);
    if (r.p(m.bad)) { s.set("bad", bads[r.below(sizeof bads / sizeof *bads)]); if (r.p(0.4)) s.set("frac", r.range(0.1, 0.9)); if (r.p(0.4)) s.set("edge", 1); }
    if (r.p(m.drop)) s.set("drop", 1);
    if (r.p(m.dup)) s.set("dup", r.irange(1, 2));
    if (r.p(m.burst)) s.set("burst", r.irange(1, 3));
    if (r.p(m.slow))
    {
      soon();
      Op & o = p.add(t, "slow");
      if (r.p(0.6)) { double v = r.p(0.4) ? 0 : r.range(50, 1200); mg = std::max(mg, v); o.set("global", v); }
      if (r.p(0.3)) { double v = r.p(0.5) ? 0 : r.range(10, 300); ml = std::max(ml, v); o.set("local", v); }
      if (r.p(0.15) && !m.live) { double v = r.p(0.5) ? 0 : r.range(10, 300); mp = std::max(mp, v); o.set("publish", v); }
    }
    if (r.p(m.stall)) { soon(); p.add(t, "stall").set("nth", r.irange(0, 2)).set("d", r.p(0.5) ? r.range(0.01, 0.4) : r.range(0.3, 3.0)); }
    if (r.p(m.fault)) { soon(); static const char * k[] = {"open", "write", "write", "close", "ropen", "read"}; const char * c = k[r.below(6)]; p.add(t, "fault").set("on", c).set("nth", std::string(c) == "write" || std::string(c) == "read" ? r.irange(0, 15) : 0); }
    if (r.p(m.pose)) { soon(); pose(t); }
    if (r.p(m.save)) { soon(); std::string f = std::string(D) + "s" + std::to_string(files++); p.add(t, "save").set("file", f); saved.push_back(f); }
    if (r.p(m.load) && !(saved.empty() && maps.empty()))
    {
      soon();
      if (r.p(0.7)) { std::string f = std::string(D) + "s" + std::to_string(files++); p.add(t, "save").set("file", f); saved.push_back(f); }
      size_t k = r.below(saved.size() + maps.size());
      p.add(t, "load").set("file", k < saved.size() ? saved[k] : maps[k - saved.size()]);
      if (r.p(0.85)) { t += static_cast<i64>(r.range(0, 400000)); pose(t); }
    }
    if (r.p(m.loadbad)) { soon(); p.add(t, "load").set("file", std::string(D) + "missing" + std::to_string(files++)); }
    if (r.p(m.disable))
    {
      soon(); p.add(t, "disable");
      if (r.p(0.7)) { soon(); pose(t); }
      if (r.p(0.6)) { std::string f = std::string(D) + "s" + std::to_string(files++); soon(); p.add(t, "save").set("file", f); saved.push_back(f); }
    }
    if (r.p(m.enable)) { soon(); p.add(t, "enable"); if (r.p(0.4)) { soon(); pose(t); } }
    if (i == crash_at)
    {
      std::string f = std::string(D) + "s" + std::to_string(files++); soon(); p.add(t, "save").set("file", f); saved.push_back(f);
      soon();
      if (r.p(0.3)) p.add(t, "crash"); else p.add(t, "crash_at").set("steps", r.p(0.5) ? r.irange(1, 300) : r.irange(1, 4000));
      double gap = r.range(0.2, 1.5);
      w.stay(gap + 1); t += static_cast<i64>(gap * 1e6);
      p.add(t, "boot");
      t += 200000; pose(t);
    }
    if (i == down_at)
    {
      soon();
      bool u = r.p(0.4);
      if (u) p.set("unload", 1);
      if (r.p(0.3)) p.add(t, u ? "unload" : "shutdown");
      else p.add(t, u ? "unload_at" : "shutdown_at").set("steps", r.p(0.5) ? r.irange(1, 300) : r.irange(1, 5000));
    }
  }
  if (m.jam)
    for (auto o = p.ops.rbegin(); o != p.ops.rend(); ++o)
      if (o->kind == "scan") { i64 at = o->t - 1000; p.add(at, "jam").set("p", std::pow(10.0, r.range(-2, -0.5))).set("ms", r.irange(400, 2500)); break; }
  w.stay(0.3);
  p.set("max_local", ml); p.set("max_global", mg); p.set("max_publish", mp);
  if (m.live) p.set("live", 1);
  p.set("dur", w.t + 60);
  p.sort_ops();
}
}  // namespace

// a realistic robot in a room with enough to see, odometry that drifts by less than the search window between updates
static Plan generate_track(Plan p, Rng & r)
{
  p.kind = "track";
  p.set("world_seed", static_cast<double>(r.below(1000000)));
  p.set("rand_seed", static_cast<double>(r.below(1000000)));
  p.set("room_w", r.range(4.5, 6.5)); p.set("room_h", r.range(4, 6)); p.set("boxes", r.irange(2, 6));
  p.set("beams", r.irange(90, 150)); p.set("fov", 2 * M_PI);
  p.set("range_max", 10.0); p.set("range_min", 0.05); p.set("range_noise", r.range(0, 0.01));
  p.set("mount_x", r.range(-0.2, 0.2)); p.set("mount_y", r.range(-0.15, 0.15)); p.set("mount_th", r.p(0.5) ? 0 : r.range(-M_PI, M_PI));
  p.set("inverted", r.p(0.3) ? 1 : 0);
  p.set("sweep", r.p(0.6) ? r.range(0.02, 0.1) : 0.0);
  p.set("tf_period", r.range(0.02, 0.05)); p.set("tf_latency", r.range(0.0, 0.02));
  if (r.p(0.7)) { p.set("odom_x", r.range(-5, 5)); p.set("odom_y", r.range(-5, 5)); p.set("odom_th", r.range(-M_PI, M_PI)); }
  p.set("odom_scale_err", (r.p(0.5) ? 1 : -1) * r.range(0.02, 0.045)); p.set("odom_rot_err", (r.p(0.5) ? 1 : -1) * r.range(0.03, 0.07));
  p.pd("resolution", r.range(0.05, 0.1));
  double mind = r.range(0.08, 0.15);
  p.pd("minimum_travel_distance", mind); p.pd("minimum_travel_rotation", r.range(0.2, 0.4));
  p.pi("rolling_depth", r.irange(5, 12)); p.pb("use_barycenter", r.p(0.5));
  p.pd("global_search_size", r.range(0.1, 0.3)); p.pi("global_search_limit", r.irange(1, 3)); p.pi("optimization_node_limit", r.irange(5, 15));
  p.pd("occupancy_threshold", 0.25); p.pd("transform_timeout", 0.2);
  for (std::string n : {"local_scan_matcher.", "global_scan_matcher."})
  {
    p.pd(n + "ndt_resolution", r.range(0.25, 0.5));
    p.pd(n + "search_linear_size", 0.08); p.pd(n + "search_linear_resolution", 0.016);
    p.pd(n + "search_angular_size", 0.06); p.pd(n + "search_angular_resolution", 0.01);
    p.pi(n + "laser_max_beams", r.irange(60, 100));
  }
  p.pi("min_particles", 100); p.pi("max_particles", 400); p.pd("kld_err", 0.02); p.pd("kld_z", 2.0);
  for (int i = 1; i < 6; ++i) p.pd("odom_alpha" + std::to_string(i), r.range(0.02, 0.1));
  p.par.erase("odom_alpha5"); p.pd("odom_alpha5", 0.1);
  schedule(p, r, r.p(0.3), false);
  double slow = r.p(0.3) ? r.range(20, 300) : 0;
  if (slow > 0) p.set("global_delay_ms", slow);
  Walk w(p, r);
  w.start(r.range(-M_PI, M_PI));
  w.stay(1.5);
  auto us = [&]() { return static_cast<i64>(std::llround(w.t * 1e6)); };
  p.add(us(), "scan");
  w.stay(0.3);
  int phase1 = r.irange(20, 36), phase2 = r.irange(16, 36), dropped = 0;
  auto drive = [&](int n) {
      for (int i = 0; i < n; ++i)
      {
        w.move(r.range(mind * 1.1, 0.22), r.range(-0.35, 0.35), r.range(0.4, 0.8));
        if (r.p(0.4)) w.stay(r.range(0.05, 0.3));
        i64 t = us();
        if (dropped == 0 && r.p(0.05)) { p.add(t - 100000, "tflate").set("d", 0.3).set("late", 0.3); ++dropped; }
        Op & s = p.add(t, "scan");
        if (dropped == 0 && r.p(0.1)) { s.set("drop", 1); ++dropped; } else if (dropped == 0 && r.p(0.08)) { static const char * k[] = {"empty", "allnan", "allinf", "allzero"}; s.set("bad", k[r.below(4)]); ++dropped; } else dropped = 0;
        if (r.p(0.08)) s.set("dup", 1);
        if (r.p(0.1) && !s.has("bad")) s.set("bad", "mix").set("frac", r.range(0.05, 0.3));
      }
    };
  auto pose = [&]() {
      p.add(us(), "pose").set("x", r.range(-0.03, 0.03)).set("y", r.range(-0.03, 0.03)).set("th", r.range(-0.03, 0.03)).set("cx", 0.003).set("cy", 0.003).set("ct", 0.002);
      w.stay(0.3);
    };
  drive(phase1);
  w.stay(2.5);
  std::string f = std::string(D) + "room";
  double u = r.u();
  if (u < 0.2) drive(phase2);
  else if (u < 0.4) { p.add(us(), "disable"); w.stay(0.2); pose(); drive(phase2); }
  else
  {
    p.add(us(), "save").set("file", f);
    w.stay(0.5);
    if (u < 0.5) { p.add(us(), "load").set("file", f); w.stay(0.3); }
    else
    {
      p.add(us(), "crash"); w.stay(0.2);
      p.add(us(), "boot").set("file", f).set("mode", u < 0.6 ? "map" : u < 0.8 ? "track" : "pf");
      w.stay(0.5);
    }
    pose();
    drive(phase2);
  }
  w.stay(1.0);
  p.set("dur", w.t + 10);
  p.sort_ops();
  return p;
}
static Plan generate_conc(Plan p, Rng & r, const std::string & q, bool fine)
{
  Conc c;
  world(p, r); params(p, r);
  if (r.p(0.6)) p.pi("optimization_node_limit", 60);
  if (r.p(0.3)) { p.pi("rolling_depth", r.irange(1, 3)); p.pd("global_search_size", r.range(0.8, 2.5)); }
  matcher(p, r, fine ? 0.85 : 0.6);
  if (fine)
  {
    p.set("beams", r.irange(6, 14)); p.pd("resolution", r.range(0.3, 0.6)); c.n = r.irange(4, 12);
  }
  else c.n = r.irange(6, 26);
  double u = r.u();
  mkmap(p, r, "mapA", r.range(3, 9));
  if (r.p(0.4)) mkmap(p, r, "mapB", 12);
  bool mode = q == "C25" || q == "C01" || q == "C02" || q == "C03" || q == "C23" || q == "C21";
  if (q == "C25") u *= 0.5;
  if (mode && u < 0.2)
  {
    p.set("boot_map", std::string(D) + "mapA");
    p.pb("use_particle_filter", true);
    p.pi("min_particles", r.irange(3, 10)); p.pi("max_particles", r.irange(12, 40));
    if (q == "C03" || r.p(0.3)) { p.set("pf_exact", 1); for (const char * a : {"odom_alpha1", "odom_alpha2", "odom_alpha3", "odom_alpha4", "odom_alpha5"}) p.pd(a, 0.0); }
  }
  else if (mode && u < 0.4) { p.set("boot_map", std::string(D) + "mapA"); p.pb("enable_mapping", false); }
  else if (u < 0.6) p.set("boot_map", std::string(D) + "mapA");
  if (q == "C01" || q == "C02") { c.bad = 0.06; c.load = 0.08; c.disable = c.enable = 0.05; c.fault = 0.03; c.stall = 0.1; c.pose = 0.06; }
  else if (q == "C03") { c.pose = 0.12; c.disable = 0.06; c.enable = 0.06; c.save = 0.04; c.stall = r.p(0.5) ? 0.12 : 0; c.slow = 0.2; }
  else if (q == "C04") { c.save = 0.2; c.pose = 0.05; c.load = 0.06; c.disable = c.enable = 0.04; c.bad = 0.04; }
  else if (q == "C05") { c.save = 0.25; c.crash = true; c.load = 0.05; }
  else if (q == "C06") { c.save = 0.3; c.load = 0.15; c.fault = 0.2; c.loadbad = 0.1; }
  else if (q == "C07") { c.load = 0.15; c.save = 0.12; c.slow = 0.3; }
  else if (q == "C09" || q == "C08" || q == "C26") { c.live = q == "C09" && r.p(0.5); c.stall = c.live ? 0 : 0.06; c.disable = 0; if (c.live) { c.enable = 0; c.load = 0.03; c.tf = 0.02; } c.slow = 0.3; }
  else if (q == "C12") { c.save = 0.1; c.slow = 0.3; }
  else if (q == "C15" || q == "C16") { c.save = 0.12; c.slow = 0.3; c.load = 0.03; c.disable = c.enable = q == "C16" ? 0.05 : 0.03; c.pose = 0.04; p.set("script_p_singular", r.p(0.3) ? 0.1 : 0); if (!p.integer("script_nanmix", 0)) p.set("script_p_nan", r.p(0.2) ? 0.08 : 0); }
  else if (q == "C21") { c.pose = 0.2; c.load = 0.1; c.disable = 0.1; c.enable = 0.1; c.tf = 0.06; }
  else if (q == "C22") { c.bad = 0.25; c.tf = 0.1; c.drop = 0.1; c.stall = 0.1; c.save = 0.05; if (r.p(0.4)) p.set("solve_fail", "0,2"); p.set("script_p_singular", r.p(0.3) ? 0.1 : 0); }
  else if (q == "C23") { c.down = true; c.save = 0.1; c.bad = 0.03; c.load = 0.05; c.stall = r.p(0.3) ? 0.1 : 0; }
  else if (q == "C25") { c.save = 0.15; c.load = 0.06; c.pose = 0.1; c.disable = 0.1; c.enable = 0.04; c.slow = 0.25; }
  if ((q == "C01" || q == "C02") && r.p(0.25)) c.down = true;
  if ((q == "C01" || q == "C02") && r.p(0.1)) p.set("mount_arrival", r.range(0.2, 6));
  if (q == "C01" || q == "C02")
  {
    if (r.p(0.3)) extremes(p, r, fine);
    if (r.p(0.15)) { c.badpose = c.no_oracle = true; c.pose = 0.15; }
  }
  if (q == "C16") { if (r.p(0.1)) p.pi("rolling_depth", r.irange(0, 1)); if (r.p(0.08)) p.pi("global_search_limit", r.p(0.5) ? 0 : 50); }
  if (q == "C21" && r.p(0.3)) c.badpose = true;
  if (q == "C22" || q == "C11" || q == "C01" || q == "C02") c.meta = r.p(0.3) ? 0.1 : 0;
  schedule(p, r, false, fine);
  if (!c.live && r.p(q == "C09" ? 0.8 : 0.3)) { p.sched.p_stall = r.p(0.5) ? r.range(0.001, 0.01) : r.range(0.01, 0.08); p.sched.stall_ms = r.p(0.5) ? r.irange(2, 40) : r.irange(40, 700); }
  c.jam = !c.live && r.p(q == "C09" ? 0.5 : 0.1);
  concurrent(p, r, c);
  return p;
}

Plan generate(const std::string & prop, u64 seed, bool fine)
{
  Plan p; p.prop = prop; p.seed = seed;
  Rng r(seed * 1000003ULL + sim::hash_str(prop));
  std::string q = prop.substr(0, prop.find('/'));
  p.prop = q;
  std::string variant = prop.find('/') == std::string::npos ? "" : prop.substr(prop.find('/') + 1);
  if (q == "C29") return generate_track(p, r);
  if (variant == "conc" || q == "C01" || q == "C02" || q == "C03" || q == "C23") return generate_conc(p, r, q, fine);
  Mix m;
  world(p, r); params(p, r); matcher(p, r, 0.6);
  m.n = r.irange(8, 26);
  // the sensor's mounting may be announced only after the first scans
  if ((q == "C10" || q == "C11" || q == "C22" || q == "C12" || q == "C21") && r.p(0.15)) p.set("mount_arrival", r.range(0.2, 6));
  if (q == "C21" || q == "C22" || q == "C25" || q == "C18" || q == "C15") m.badpose = r.p(0.4) ? 0.25 : 0;
  if (q == "C10") { m.move = 0.6; m.small = 0.5; m.turn = 0.4; m.stay = 0.2; m.dup = 0.2; m.drop = 0.2; m.late = 0.2; m.tf = 0.15; matcher(p, r, 1); if (r.p(0.35)) { localization(p, r, false); m.pose = 0.1; } }
  else if (q == "C11") { m.meta = r.p(0.4) ? 0.15 : 0; matcher(p, r, 1); m.bad = 0.35; m.turn = 0.4; m.tf = 0.05; p.set("sweep", r.range(0.0, 0.2)); m.late = 0.1; if (r.p(0.25)) { localization(p, r, false); m.pose = 0.2; } }
  else if (q == "C12") { p.pi("rolling_depth", r.irange(0, 14)); m.n = r.irange(10, 40); m.save = 0.03; m.load = 0.05; m.disable = 0.02; m.enable = 0.05; m.bad = 0.03; }
  else if (q == "C15" || q == "C16" || q == "C04" || q == "C17" || q == "C24") { m.n = r.irange(12, 45); m.load = 0.02; m.save = 0.04; m.pose = 0.05; m.bad = 0.04; m.slow = q == "C16" ? 0.1 : 0.04; if (q == "C17") { matcher(p, r, 0.9); if (r.p(0.5)) p.set("solve_fail", r.p(0.5) ? "0,2" : "1,3,4"); } if (q == "C24") { p.pb("use_barycenter", r.p(0.7)); p.pd("global_search_size", r.range(0.2, 0.9)); m.pose = 0.1; } m.disable = 0.03; m.enable = 0.06; if (r.p(0.3)) { p.set("boot_map", mkmap(p, r, "map0", 8)); m.pose = 0.15; } p.set("script_p_singular", r.p(0.3) ? 0.1 : 0); if (!p.integer("script_nanmix", 0)) p.set("script_p_nan", r.p(0.2) ? 0.08 : 0); }
  else if (q == "C21") { m.pose = 0.35; m.load = 0.06; m.save = 0.06; m.disable = 0.1; m.enable = 0.12; m.tf = 0.08; m.loadbad = 0.03; if (r.p(0.5)) { if (r.p(0.6)) localization(p, r, true); else p.set("boot_map", mkmap(p, r, "map0", 8)); } }
  else if (q == "C22") { m.bad = 0.3; m.meta = r.p(0.4) ? 0.12 : 0; m.far = 0.05; m.tf = 0.08; m.drop = 0.1; m.n = r.irange(14, 40); if (r.p(0.4)) { localization(p, r, true); m.pose = 0.15; if (r.p(0.4)) particle_filter(p, r, q); } if (r.p(0.4)) p.set("solve_fail", "0,2"); }
  else if (q == "C25") { localization(p, r, true); m.pose = 0.15; m.bad = 0.08; m.load = 0.05; m.save = 0.05; m.disable = 0.05; m.tf = 0.05; m.slow = 0.05; if (r.p(0.4)) { p.par.erase("enable_mapping"); m.enable = 0.08; m.disable = 0.1; } }
  else if (q == "C18" || q == "C19" || q == "C20")
  {
    localization(p, r, true);
    particle_filter(p, r, q);
    m.n = r.irange(8, 24); m.pose = 0.3; m.bad = q == "C20" ? 0 : 0.1; m.turn = 0.3; m.small = 0.2; m.load = 0.03; m.save = 0.02; m.disable = 0.02; m.tf = 0.04; m.drop = 0.1;
  }
  else if (q == "C07") { m.save = 0.08; m.load = 0.12; m.pose = 0.05; m.slow = 0.15; m.n = r.irange(10, 36); m.disable = 0.04; m.enable = 0.06; m.check = 0.1; std::string f = mkmap(p, r, "map0", 8); if (r.p(0.4)) mkmap(p, r, "map1", 12); if (r.p(0.3)) p.set("boot_map", f); if (r.p(0.25)) { p.pb("enable_mapping", false); p.set("boot_map", f); m.pose = 0.15; } }
  else if (q == "C06") { m.save = 0.4; m.load = 0.25; m.loadbad = 0.15; m.fault = 0.6; m.pose = 0.05; m.n = r.irange(8, 20); if (r.p(0.3)) localization(p, r, true), m.pose = 0.15; }
  else if (q == "C05") { m.save = 0.25; m.load = 0.1; m.pose = 0.05; m.crash = 0.08; p.set("resave", 1); mkmap(p, r, "map0", 8); if (r.p(0.3)) p.set("boot_map", std::string(D) + "map0"); }
  else if (q == "C08" || q == "C26" || q == "C09") { m.check = 0.35; m.save = 0.04; m.load = 0.05; m.pose = 0.04; m.n = r.irange(5, 16); p.set("check_published", 1); mkmap(p, r, "map0", 8); if (r.p(0.4)) p.set("boot_map", std::string(D) + "map0"); if (q != "C08") matcher(p, r, 1); }
  else { m.save = 0.05; m.load = 0.05; m.pose = 0.05; }
  if (q == "C16") { if (r.p(0.1)) p.pi("rolling_depth", r.irange(0, 1)); if (r.p(0.08)) p.pi("global_search_limit", r.p(0.5) ? 0 : 50); }
  if (q == "C16" && r.p(0.05)) { localization(p, r, true); p.par.erase("enable_mapping"); p.pb("use_particle_filter", true); m.pose = 0.2; }
  // sensors with many beams
  if ((q == "C05" || q == "C11" || q == "C04") && r.p(0.02)) { p.set("beams", r.irange(500, 1600)); matcher(p, r, 1); m.n = r.irange(2, 8); }
  schedule(p, r, true, fine);
  paced(p, r, m);
  return p;
}

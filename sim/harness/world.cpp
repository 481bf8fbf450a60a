#include "world.hpp"
using simros::Tf;
static Tf p2tf(const P2 & p)
{
  Tf t; t.x = p.x; t.y = p.y; t.qz = std::sin(p.th / 2); t.qw = std::cos(p.th / 2); return t;
}
P2 tf2p(const Tf & q)
{
  return P2{q.x, q.y, std::atan2(2 * (q.qx * q.qy + q.qw * q.qz), q.qw * q.qw + q.qx * q.qx - q.qy * q.qy - q.qz * q.qz)};
}
P2 World::truth(double t) const
{
  if (ways.empty()) return P2();
  if (t <= ways.front().t) return P2{ways.front().x, ways.front().y, ways.front().th};
  for (size_t i = 1; i < ways.size(); ++i)
    if (t <= ways[i].t)
    {
      const Way & a = ways[i - 1], & b = ways[i];
      double f = (t - a.t) / (b.t - a.t);
      return P2{a.x + f * (b.x - a.x), a.y + f * (b.y - a.y), a.th + f * (b.th - a.th)};
    }
  return P2{ways.back().x, ways.back().y, ways.back().th};
}
double World::cast(const P2 & s, double dir) const
{
  double dx = std::cos(dir), dy = std::sin(dir), best = 1e9;
  for (auto & g : segs)
  {
    double ex = g.x1 - g.x0, ey = g.y1 - g.y0, den = dx * ey - dy * ex;
    if (std::fabs(den) < 1e-12) continue;
    double u = ((g.x0 - s.x) * ey - (g.y0 - s.y) * ex) / den;
    double v = ((g.x0 - s.x) * dy - (g.y0 - s.y) * dx) / den;
    if (u > 1e-6 && v >= 0 && v <= 1 && u < best) best = u;
  }
  return best;
}
void World::build(const Plan & p)
{
  t0 = sim::now();
  sim::Rng r(static_cast<u64>(p.integer("world_seed", 1)));
  // room with an irrational offset so that nothing sits on a cell boundary
  double W = p.num("room_w", 6), H = p.num("room_h", 5);
  double ox = -W / 2 + 0.0318309886, oy = -H / 2 + 0.0271828182;
  auto seg = [&](double a, double b, double c, double d) { segs.push_back(Seg{a, b, c, d}); };
  auto box = [&](double a, double b, double c, double d) { seg(a, b, c, b); seg(c, b, c, d); seg(c, d, a, d); seg(a, d, a, b); };
  box(ox, oy, ox + W, oy + H);
  int nb = static_cast<int>(p.integer("boxes", 3));
  for (int i = 0; i < nb; ++i)
  {
    // along the walls, out of the robot's way
    double u = r.range(0.1, 0.8), s = r.range(0.25, 0.6);
    switch (i % 4)
    {
      case 0: box(ox + u * W, oy, ox + u * W + s, oy + s * 0.7); break;
      case 1: box(ox + W - s * 0.8, oy + u * H * 0.8, ox + W, oy + u * H * 0.8 + s); break;
      case 2: box(ox + u * W, oy + H - s * 0.6, ox + u * W + s, oy + H); break;
      default: box(ox, oy + u * H * 0.8, ox + s * 0.5, oy + u * H * 0.8 + s); break;
    }
  }
  for (auto & o : p.ops)
    if (o.kind == "way") ways.push_back(Way{o.t * 1e-6, o.num("x"), o.num("y"), o.num("th")});
  if (ways.empty()) ways.push_back(Way{0, 0, 0, 0});
  dur = p.num("dur", 10);
  mount = P2{p.num("mount_x", 0.1), p.num("mount_y", 0), p.num("mount_th", 0)};
  inverted = p.integer("inverted", 0) != 0;
  beams = static_cast<int>(p.integer("beams", 40));
  double fov = p.num("fov", 2 * M_PI);
  a0 = p.num("angle_min", -fov / 2);
  ainc = fov / beams;
  tinc = p.num("sweep", 0.0) / (beams > 1 ? beams - 1 : 1);
  max_range = p.parnum("max_range", -1);
  rmin = p.num("range_min", 0.05); rmax = p.num("range_max", 10); noise = p.num("range_noise", 0);
  odom = p.str("odom_frame", "odom"); base = p.str("robot_frame", "base_link"); laser = p.str("laser_frame", "laser");

  // TF: static laser mount, odometry samples with drift
  simros::tf_reset();
  simros::tf_edge(base, laser, true);
  Tf m = p2tf(mount);
  if (inverted)
  {
    // yaw then roll by pi
    Tf roll; roll.qx = 1; roll.qw = 0;
    Tf q = m;
    m.qw = q.qw * roll.qw - q.qz * 0; m.qx = q.qw * roll.qx; m.qy = q.qz * roll.qx; m.qz = q.qz * roll.qw;
  }
  // the same rotation, written with the other sign
  if (p.integer("mount_neg", 0)) { m.qw = -m.qw; m.qx = -m.qx; m.qy = -m.qy; m.qz = -m.qz; }
  simros::tf_add(base, laser, simros::TfSample{0, t0 + static_cast<i64>(p.num("mount_arrival", 0) * 1e9), m});
  simros::tf_edge(odom, base, false);
  double per = p.num("tf_period", 0.04), lat = p.num("tf_latency", 0.01);
  P2 off{p.num("odom_x", 0), p.num("odom_y", 0), p.num("odom_th", 0)};
  double es = p.num("odom_scale_err", 0), er = p.num("odom_rot_err", 0);
  P2 o = off, prev = truth(-1.0);
  i64 last_arrival = 0;
  std::vector<const Op *> gaps, lates;
  for (auto & x : p.ops) { if (x.kind == "tfgap") gaps.push_back(&x); if (x.kind == "tflate") lates.push_back(&x); }
  for (double t = -1.0; t <= dur + 2.0; t += per)
  {
    P2 c = truth(t), d = mulp(invp(prev), c);
    double tr = std::hypot(d.x, d.y);
    d.x *= 1 + es; d.y *= 1 + es; d.th += er * tr;
    o = mulp(o, d);
    prev = c;
    bool drop = false; double l = lat;
    for (auto * g : gaps) if (t >= g->t * 1e-6 && t < g->t * 1e-6 + g->num("d")) drop = true;
    for (auto * g : lates) if (t >= g->t * 1e-6 && t < g->t * 1e-6 + g->num("d")) l = std::max(l, g->num("late"));
    if (drop) { sim::count("fault_tf_sample_lost"); continue; }
    if (l > lat) sim::count("fault_tf_sample_late");
    P2 w = o; w.th = wrap(o.th);
    last_arrival = std::max(last_arrival, ns(t + l));      // one reliable connection: in order
    simros::tf_add(odom, base, simros::TfSample{ns(t), last_arrival, p2tf(w)});
  }
}
std::shared_ptr<sensor_msgs::msg::LaserScan> World::scan(double t, const Op & op, sim::Rng & r) const
{
  auto m = std::make_shared<sensor_msgs::msg::LaserScan>();
  i64 st = ns(t);
  m->header.stamp.sec = static_cast<int32_t>(st / sim::SEC); m->header.stamp.nanosec = static_cast<uint32_t>(st % sim::SEC);
  m->header.frame_id = laser;
  m->angle_min = static_cast<float>(a0); m->angle_increment = static_cast<float>(ainc);
  m->angle_max = static_cast<float>(a0 + ainc * (beams - 1));
  m->time_increment = static_cast<float>(tinc); m->scan_time = static_cast<float>(tinc * beams);
  m->range_min = static_cast<float>(rmin); m->range_max = static_cast<float>(rmax);
  const float notnum = std::numeric_limits<float>::quiet_NaN(), infinite = std::numeric_limits<float>::infinity();
  std::string meta = op.str("meta");
  if (meta == "nanangle") m->angle_min = notnum;
  else if (meta == "infangle") m->angle_min = -infinite;
  else if (meta == "naninc") m->angle_increment = notnum;
  else if (meta == "infinc") m->angle_increment = infinite;
  else if (meta == "nantime") m->time_increment = notnum;
  else if (meta == "inftime") m->time_increment = infinite;
  else if (meta == "nanmax") m->range_max = notnum;
  else if (meta == "infmax") m->range_max = infinite;
  else if (meta == "negmax") m->range_max = -1;
  else if (meta == "zeromax") m->range_max = 0;
  else if (meta == "infmin") m->range_min = infinite;
  if (!meta.empty()) sim::count("fault_scan_malformed_metadata");
  std::string bad = op.str("bad");
  if (bad == "empty") { sim::count("fault_scan_empty"); return m; }
  double px = op.num("dx"), py = op.num("dy");      // scan taken "elsewhere"
  for (int i = 0; i < beams; ++i)
  {
    P2 b = truth(t + i * tinc);
    b.x += px; b.y += py;
    P2 s = mulp(b, mount);
    double a = static_cast<double>(static_cast<float>(a0)) + i * static_cast<double>(static_cast<float>(ainc));
    double d = cast(s, s.th + (inverted ? -a : a));
    if (noise > 0) d += noise * r.gauss();
    float f = static_cast<float>(d);
    if (d > rmax * 0.98 || d < rmin * 1.02) f = std::numeric_limits<float>::infinity();
    m->ranges.push_back(f);
  }
  double frac = op.num("frac", 0.2);
  static const float NaN = std::numeric_limits<float>::quiet_NaN(), Inf = std::numeric_limits<float>::infinity();
  if (bad == "one") { m->ranges.resize(1); sim::count("fault_scan_single_beam"); }
  else if (bad == "allnan") { for (auto & f : m->ranges) f = NaN; sim::count("fault_scan_all_nan"); }
  else if (bad == "allinf") { for (auto & f : m->ranges) f = Inf; sim::count("fault_scan_all_inf"); }
  else if (bad == "allneginf") { for (auto & f : m->ranges) f = -Inf; sim::count("fault_scan_all_neg_inf"); }
  else if (bad == "allzero") { for (auto & f : m->ranges) f = 0; sim::count("fault_scan_all_zero"); }
  else if (bad == "same") { for (auto & f : m->ranges) f = static_cast<float>(rmin + 0.3); m->angle_increment = 0; sim::count("fault_scan_identical_points"); }
  else if (bad == "mix")
  {
    sim::count("fault_scan_mixed_invalid");
    for (auto & f : m->ranges)
      if (r.p(frac))
        switch (r.below(7))
        {
          case 0: f = NaN; break;
          case 1: f = Inf; break;
          case 2: f = -Inf; break;
          case 3: f = static_cast<float>(rmin * 0.5); break;
          case 4: f = static_cast<float>(rmax * 1.5); break;
          case 5: f = 0; break;
          default: f = static_cast<float>(-r.range(0.5, 3)); break;
        }
    if (op.integer("edge", 0))
    {
      // exactly at a limit, or the next number beyond it
      const double lim = max_range > 0 ? max_range : rmax;
      const float lo = static_cast<float>(rmin), hi = static_cast<float>(lim);
      for (auto & f : m->ranges)
        if (r.p(frac))
          switch (r.below(4))
          {
            case 0: f = lo; break;
            case 1: f = hi; break;
            case 2: f = std::nextafter(lo, 0.0f); break;
            default: f = std::nextafter(hi, Inf); break;
          }
      sim::count("fault_scan_readings_at_limits");
    }
    if (r.p(0.3)) m->ranges.front() = NaN;
    if (r.p(0.3)) m->ranges.back() = Inf;
  }
  return m;
}

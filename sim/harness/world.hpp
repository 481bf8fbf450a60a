// Ground truth: a planar room, a robot driving through it, drifting odometry, a laser scanner.
#pragma once
#include "plan.hpp"
#include <simctl.hpp>
#include <sensor_msgs/msg/laser_scan.hpp>
#include <cmath>
struct P2 { double x = 0, y = 0, th = 0; };
inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
inline P2 mulp(const P2 & a, const P2 & b)
{ return P2{a.x + std::cos(a.th) * b.x - std::sin(a.th) * b.y, a.y + std::sin(a.th) * b.x + std::cos(a.th) * b.y, a.th + b.th}; }
inline P2 invp(const P2 & a)
{ return P2{-std::cos(a.th) * a.x - std::sin(a.th) * a.y, std::sin(a.th) * a.x - std::cos(a.th) * a.y, -a.th}; }
inline bool finp(const P2 & p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.th); }
struct World
{
  struct Way { double t, x, y, th; };
  struct Seg { double x0, y0, x1, y1; };
  std::vector<Way> ways;
  std::vector<Seg> segs;
  // laser
  P2 mount; bool inverted = false; int beams = 40; double a0 = 0, ainc = 0, tinc = 0, rmin = 0.1, rmax = 10, noise = 0, max_range = -1;
  std::string odom = "odom", base = "base_link", laser = "laser";
  i64 t0 = 0; double dur = 0;
  P2 truth(double t) const;
  double cast(const P2 & sensor, double dir) const;
  void build(const Plan & p);                // geometry, trajectory and the TF history
  std::shared_ptr<sensor_msgs::msg::LaserScan> scan(double t, const Op & o, sim::Rng & r) const;
  i64 ns(double t) const { return t0 + static_cast<i64>(std::llround(t * 1e6)) * 1000; }
};
P2 tf2p(const simros::Tf & t);

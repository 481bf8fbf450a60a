// Executable reference model of the node's observable behaviour, and the checks against it.
#pragma once
#include "node.hpp"
#include <Eigen/Core>
#include <set>
struct PfModel                                // what is known of the particle filter
{
  size_t mn = 100, mx = 500; double err = 0.01, z = 2.3, a[6] = {0};
  std::vector<P2> last; bool known = false;    // the particles as last published
  struct Acc { double n = 0, s = 0, s2 = 0, c = 0, prev = 0; void add(double v, double sd, double fl, const std::string & what); void test(const char * prop, const std::string & what) const; };
  Acc turn, tr, ro1, ro2, spread[3];
  void init(const Plan & p);
  void take(const CloudRec & r, const std::string & when);
  bool mean(P2 & m) const;
  void on_pose(const CbRec & c, const PoseSent & s, const std::string & name);
  void on_scan(const CbRec & c, const std::vector<MEv *> & ev, const P2 & d, bool d_known, const std::string & name);
private:
  void motion(const std::vector<MEv *> & sc, const P2 & d, const std::string & name);
};
struct Model
{
  PfModel filter;
  // configuration
  bool pf = false, barycenter = true, pf_exact = false;
  double min_dist = 0.1, min_rot = 1.0, max_range = -1, search_size = 0.2, occ = 0.25, res = 0.05;
  size_t depth = 10, limit = 3, opt_limit = 25;
  size_t pmin = 100, pmax = 500;
  std::string matcher;
  // state
  bool mapping = true, localized = true;
  bool laser = false; double rmax = -1;
  bool any_update = false;                  // po/pr come from an update
  P2 po, pr; bool pr_known = true, pr_mean = false, po_known = true;
  std::vector<P2> po_alts;     // odometry of earlier updates that may be the last one (the publications fit all of them)
  P2 po_old, pr_old; bool old_known = true, old_any = false;   // before the last update
  double typ = -0.5;
  Snap m; std::vector<char> pts_known; bool poses_known = true;
  // matchers
  std::map<int, std::string> inst_name, inst_cls; std::map<int, double> inst_range;
  // loop closure
  i64 last_offered = -1; bool in_group = false, group_cut = false; int skips_allowed = 0; std::set<size_t> excused; i64 group_k = -1; std::vector<size_t> group_c; bool group_exact = true; size_t group_n = 0;
  i64 map_since = 0;                        // mapping continuously enabled with this map since
  bool fuzzy = false;                       // loop closures with an outcome that is not determined since the last compare()
  struct Move { size_t k; P2 was; u64 seq; i64 t; }; std::vector<Move> moves;
  i64 fuzzy_t = 0; u64 disable_seq = 0; size_t sure_cons = 0;
  u64 epoch = 0;                            // loads so far
  bool first_pending = false;               // the first scan of an empty map may or may not have been taken
  u64 pending_id = 0;
  // statistics
  u64 updates = 0, skipped = 0, loops = 0, solves = 0, rejected = 0, offers = 0, poses_ok = 0, poses_no = 0;
  // cursors
  u64 upto = 0;
  size_t i_mev = 0, i_cb = 0, i_tf = 0, i_solve = 0;
  std::string last_op;
  size_t loaded_n = 0; u64 reset_seq = 0;    // scans that came from a file; end of the last request that voids matches in flight
  size_t opt_last = 0; i64 opt_due = -1; u64 loop_seq = 0;    // scans at the last optimization, when one was due

  void init(const Plan & p);
  void load(const Snap & s, bool boot);
  void consume(u64 lim = ~0ULL);            // all events recorded so far (that ended before lim)
  bool differs(const Snap & s) const;       // compare() would complain (or the node is in the middle of a change)
  bool moved_since(size_t scan, const P2 & was, u64 seq, i64 t) const;   // a loop closure moved it from there, after that
  void compare(const Snap & s);             // after consume(): the saved map equals the model
  void finish();                            // end of a run with the node idle
  std::vector<size_t> nearest(const P2 & at, double dist, size_t n, bool * ambiguous) const;
  P2 key(const ScanRec & s) const;
  bool active() const { return mapping && !pf; }
  bool processed(const CbRec & c, P2 & predicted) const;
  void check_points(const ScanSent & s, const std::vector<std::array<double, 2>> & pts, bool * none = nullptr, bool count_only = false);
  bool no_points(const ScanSent & s) const;
  bool unusable(const ScanSent & s) const;  // the message does not say where its readings are
  void adopt(const ScanSent & s);           // the sensor's maximum range
private:
  void on_scan(CbRec & c);
  void on_pose(CbRec & c);
  void on_conf(CbRec & c);
  void on_loop(MEv & e);
  void on_solve(SolveRec & s);
  void on_tf(TfRec & t);
  void content_event(MEv & e);
  void check_content(const MEv & e, size_t from, const char * prop, const char * what);
  void accept(const P2 & odom, const P2 & pose);
  void end_group(bool all_done);
};
enum Use { USABLE, UNUSABLE, UNCLEAR };
Use usable(double score, const double * cov, Eigen::Matrix3d * info);
double pdist(const P2 & a, const P2 & b);           // max of translation and angle difference
void check_grid(const char * prop, const nav_msgs::msg::OccupancyGrid & g, const Snap & s, double occ, double res, const std::string & when);
void check_graph(const char * prop, const visualization_msgs::msg::MarkerArray & m, const Snap & s, const std::string & when);
std::string grid_diff(const nav_msgs::msg::OccupancyGrid & g, const Snap & s, double occ, double res);    // empty when faithful
ConRec make_con(size_t from, const P2 & a, size_t to, const P2 & b, const Eigen::Matrix3d & info, bool sw);
std::string con_diff(const ConRec & got, const ConRec & want);

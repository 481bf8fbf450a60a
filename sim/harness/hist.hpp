// Recorded history of one run.
#pragma once
#include "world.hpp"
#include <nav_msgs/msg/occupancy_grid.hpp>
#include <visualization_msgs/msg/marker_array.hpp>
#include <geometry_msgs/msg/pose_array.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <ndt_2d/srv/configure.hpp>
#include <array>
#include <deque>

struct ScanRec { u64 id = 0; P2 pose; std::vector<std::array<double, 2>> pts; };
struct ConRec { i64 begin = 0, end = 0; double t[3] = {0, 0, 0}; double info[9] = {0}; bool sw = false; };
struct Snap { std::vector<ScanRec> scans; std::vector<ConRec> cons; bool ok = false; };
bool same_pose(const P2 & a, const P2 & b);
bool same_scan(const ScanRec & a, const ScanRec & b, bool pose = true);
bool same_con(const ConRec & a, const ConRec & b);
bool same_snap(const Snap & a, const Snap & b, std::string * why = nullptr);
Snap decode_bag(const std::string & uri);     // ok=false when missing/incomplete/odd

struct MEv                                     // one call into a matcher plugin
{
  enum K { CREATE, INIT, RESET, ADD, MATCH, SCORE, SCOREPTS } k = CREATE;
  int inst = 0; std::string name; int fiber = 0, group = 0;
  std::string cls;
  double range_max = 0;
  u64 seq0 = 0, seq1 = 0; i64 t0 = 0, t1 = 0;
  std::vector<ScanRec> add; std::vector<const void *> addp;
  ScanRec scan; const void * scanp = nullptr;  // MATCH/SCORE
  P2 corr; double cov[9] = {0}; double score = 0;
  P2 pose;                                     // SCOREPTS
  u64 npts = 0;
  i64 cidx = -1;                               // index of the ADD that made the content used by this call
};
struct TfRec { u64 seq; i64 t; P2 tf; std::string frame, child; i64 stamp; int group; };
struct GridRec { u64 seq; i64 t; int group; nav_msgs::msg::OccupancyGrid m; };
struct GraphRec { u64 seq; i64 t; int group; visualization_msgs::msg::MarkerArray m; };
struct CloudRec { u64 seq; i64 t; int group; geometry_msgs::msg::PoseArray m; };
struct CbRec                                   // a callback run by the executor
{
  int kind; std::string name; u64 id; int group; u64 seq0 = 0, seq1 = 0; i64 t0 = 0, t1 = -1;
  bool odom_ok = false; P2 odom; bool odom_now_ok = false; P2 odom_now;        // scan: at its stamp / initialpose: latest
  bool avail0 = false, avail1 = false; P2 odom_now0; bool odom_now_ok0 = false; bool laser0 = false, looked = false; bool consumed = false; int fiber = 0;
};
struct SolveRec { int fiber = 0; u64 seq0 = 0, seq1 = 0; i64 t0 = 0, t1 = 0; bool usable = false, injected = false; };
struct ReqRec { u64 id; int action; std::string file; i64 t_sent = 0, t_done = -1; u64 seq_done = 0; int group = 0; bool faulted = false; u64 faults0 = 0; bool existed = false; std::shared_ptr<Snap> snap; };
struct ScanSent { u64 id; i64 stamp, t; std::string bad; std::shared_ptr<sensor_msgs::msg::LaserScan> m; bool dropped = false; int group; };
struct PoseSent { u64 id; i64 t; P2 p; std::string frame; std::array<double, 36> cov; int group; bool dropped = false, not_finite = false; };
struct Hist
{
  u64 seq = 0;
  std::deque<MEv> mev;
  std::deque<TfRec> tfs; std::deque<GridRec> grids; std::deque<GraphRec> graphs; std::deque<CloudRec> clouds;
  std::deque<CbRec> cbs; std::deque<SolveRec> solves;
  std::map<u64, ReqRec> reqs; std::map<u64, ScanSent> scans; std::map<u64, PoseSent> poses;
  u64 opt_messages = 0;
};
extern Hist H;

struct Graphed { std::map<int, P2> nodes; struct E { P2 a, b; bool sw; int id; }; std::vector<E> edges; bool bad = false; std::string why; };
Graphed decode_graph(const visualization_msgs::msg::MarkerArray & m);

/** Reports a violation if `prop` is the property this run decides (or "*"). */
void chk(const char * prop, bool cond, const std::string & klass, const std::string & what);
bool deciding(const char * prop);
extern std::string g_prop;
std::string pstr(const P2 & p);

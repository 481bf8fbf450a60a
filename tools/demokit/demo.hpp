// A small stand-in for ROS, so that the real sources can be built and driven by a test program (no network,
// no ROS installed). Callbacks are called directly by the test; the node's own threads are real.
#pragma once
#include <simros.hpp>
#include <rclcpp/rclcpp.hpp>
#include <rclcpp_components/register_node_macro.hpp>
#include <tf2_ros/buffer.h>
#include <geometry_msgs/msg/pose_array.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <nav_msgs/msg/occupancy_grid.hpp>
#include <sensor_msgs/msg/laser_scan.hpp>
#include <visualization_msgs/msg/marker_array.hpp>
#include <ndt_2d/srv/configure.hpp>
#include <ndt_2d/msg/scan.hpp>
#include <ndt_2d/msg/constraint.hpp>
#include <ndt_2d/scan_matcher.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <mutex>

namespace demo
{
extern std::mutex mtx;                               // guards what follows
extern std::vector<nav_msgs::msg::OccupancyGrid> maps;
extern std::vector<visualization_msgs::msg::MarkerArray> graphs;
extern std::vector<geometry_msgs::msg::PoseArray> clouds;
extern std::vector<geometry_msgs::msg::TransformStamped> tfs;
extern std::map<std::string, std::vector<simros::BagMsg>> disk;
extern std::vector<std::pair<int, std::string>> logs;
// faults: called with the operation and uri/topic, true = fail
extern std::function<bool(const std::string & op, const std::string & what)> bag_fault;
// pose of the robot in the odometry frame at a time (s); false = not available
extern std::function<bool(double t, double & x, double & y, double & th)> odom;
extern double latest;                                // time of the latest odometry (what a lookup without time gets)
extern simros::Tf laser;                             // base_link -> laser
extern std::function<bool()> laser_known;            // false = transform of the laser is not available (yet)
// called (without locks) wherever the node calls out: "log TEXT", "now", "publish", "tf", "sleep"
extern std::function<void(const std::string & what)> hook;
// scripted matcher, used with scan_matcher_type "demo::Matcher"
struct Answer { double x = 0, y = 0, th = 0, score = -0.7; Eigen::Matrix3d cov = Eigen::Matrix3d::Identity() * 1e-4; };
struct Content { ndt_2d::Pose2d pose; size_t id, points; };
extern std::function<Answer(const std::string & instance, const std::vector<Content> & content, const ndt_2d::ScanPtr & scan)> matcher;

struct Node
{
  explicit Node(const simros::Params & overrides);
  ~Node();
  bool has(const std::string & topic);
  void scan(double t, const std::vector<float> & ranges, double angle_min = -1.0, double inc = 0.1, double time_inc = 0,
            double rmin = 0.1, double rmax = 10.0);
  void pose(double x, double y, double th, double var = 0.01);
  void configure(unsigned action, const std::string & file = "");
  std::shared_ptr<rclcpp::Node> node;
};
/** Parameter overrides, for nodes made otherwise. */
void overrides(const simros::Params & o);
inline simros::Value V(double d) { return simros::Value(d); }
inline simros::Value I(long i) { return simros::Value(static_cast<simros::i64>(i)); }
inline simros::Value B(bool b) { return simros::Value(b); }
inline simros::Value S(const std::string & s) { return simros::Value(s); }
void wait(double s);
/** Wait until something holds, at most so many seconds. */
bool until(double s, const std::function<bool()> & f);
/** Scans and constraints in a file on the (in memory) disk. */
std::vector<ndt_2d::msg::Scan> file_scans(const std::string & f);
std::vector<ndt_2d::msg::Constraint> file_constraints(const std::string & f);
/** A room [-4,4]x[-3,3] seen from (x,y,th). */
std::vector<float> room(double x, double y, double th, double angle_min, double inc, size_t n);
extern simros::Params params;
int result();
extern int failures;
}
#define EXPECT(c, ...) do { if (!(c)) { ++demo::failures; std::printf("FAILED %s:%d %s: ", __FILE__, __LINE__, #c); std::printf(__VA_ARGS__); std::printf("\n"); std::fflush(stdout); } } while (0)

#pragma once
#include <memory>
#include <string>
#include <rclcpp/rclcpp.hpp>
#include <tf2/exceptions.h>
#include <tf2/time.h>
#include <tf2/utils.h>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/point_stamped.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
namespace tf2
{
inline TimePoint sim_tp(const builtin_interfaces::msg::Time & t) { return TimePoint(Duration(static_cast<int64_t>(t.sec) * 1000000000LL + t.nanosec)); }
void sim_do_transform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out, const geometry_msgs::msg::TransformStamped & t);
void sim_do_transform(const geometry_msgs::msg::PointStamped & in, geometry_msgs::msg::PointStamped & out, const geometry_msgs::msg::TransformStamped & t);
template<class T> inline void doTransform(const T & in, T & out, const geometry_msgs::msg::TransformStamped & t) { sim_do_transform(in, out, t); }
void doTransform(const geometry_msgs::msg::Pose & in, geometry_msgs::msg::Pose & out, const geometry_msgs::msg::TransformStamped & t);
}
namespace tf2_ros
{
class Buffer
{
public:
  using SharedPtr = std::shared_ptr<Buffer>;
  explicit Buffer(rclcpp::Clock::SharedPtr, tf2::Duration = tf2::Duration(std::chrono::seconds(10)));
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t) const
  { return lookup(target, source, t.time_since_epoch().count(), 0, false); }
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t, const tf2::Duration timeout) const
  { return lookup(target, source, t.time_since_epoch().count(), timeout.count(), true); }
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const rclcpp::Time & t, const rclcpp::Duration & timeout = rclcpp::Duration(0, 0)) const
  { return lookup(target, source, t.nanoseconds(), timeout.nanoseconds(), timeout.nanoseconds() > 0); }
  bool canTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t, const tf2::Duration timeout = tf2::Duration(0), std::string * err = nullptr) const;
  bool canTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t, std::string * err) const { return canTransform(target, source, t, tf2::Duration(0), err); }
  bool canTransform(const std::string & target, const std::string & source, const rclcpp::Time & t, const rclcpp::Duration & timeout = rclcpp::Duration(0, 0), std::string * err = nullptr) const
  { return canTransform(target, source, tf2::TimePoint(tf2::Duration(t.nanoseconds())), tf2::Duration(timeout.nanoseconds()), err); }
  template<class T> T & transform(const T & in, T & out, const std::string & target, tf2::Duration timeout = tf2::Duration(0)) const
  {
    // as tf2_ros::BufferInterface: stamp and frame of the input
    geometry_msgs::msg::TransformStamped t = lookupTransform(target, in.header.frame_id, tf2::sim_tp(in.header.stamp), timeout);
    T tmp;
    tf2::doTransform(in, tmp, t);
    out = tmp;
    return out;
  }
  template<class T> T transform(const T & in, const std::string & target, tf2::Duration timeout = tf2::Duration(0)) const { T out; return transform(in, out, target, timeout); }
  void setUsingDedicatedThread(bool) {}
  template<class X> void setCreateTimerInterface(X) {}
  void clear() {}
private:
  geometry_msgs::msg::TransformStamped lookup(const std::string & target, const std::string & source, int64_t stamp, int64_t timeout, bool wait) const;
  int64_t created_;
};
}

#pragma once
#include <chrono>
#include <cstdint>
#include <builtin_interfaces/msg/time.hpp>
#include <builtin_interfaces/msg/duration.hpp>
typedef enum { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME } rcl_clock_type_t;
typedef int64_t rcl_time_point_value_t;
typedef int64_t rcutils_time_point_value_t;
typedef int64_t rcl_duration_value_t;
namespace rclcpp
{
class Duration
{
public:
  Duration() : ns_(0) {}
  Duration(int32_t s, uint32_t ns) : ns_(static_cast<int64_t>(s) * 1000000000LL + ns) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns_(static_cast<int64_t>(d.sec) * 1000000000LL + d.nanosec) {}  // NOLINT
  template<class R, class P> Duration(const std::chrono::duration<R, P> & d) : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}  // NOLINT
  static Duration from_nanoseconds(int64_t n) { Duration d; d.ns_ = n; return d; }
  static Duration from_seconds(double s) { Duration d; d.ns_ = static_cast<int64_t>(s * 1e9); return d; }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  int64_t nanoseconds() const { return ns_; }
  template<class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
  operator builtin_interfaces::msg::Duration() const { builtin_interfaces::msg::Duration d; d.sec = static_cast<int32_t>(ns_ / 1000000000LL); d.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL); return d; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; } bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; } bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; } bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration operator*(double f) const { return from_nanoseconds(static_cast<int64_t>(ns_ * f)); }
private:
  int64_t ns_;
};
class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(static_cast<int64_t>(s) * 1000000000LL + ns), t_(t) {}
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), t_(t) {}
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns_(static_cast<int64_t>(m.sec) * 1000000000LL + m.nanosec), t_(t) {}  // NOLINT
  operator builtin_interfaces::msg::Time() const { builtin_interfaces::msg::Time m; int64_t s = ns_ / 1000000000LL, r = ns_ % 1000000000LL; if (r < 0) { --s; r += 1000000000LL; } m.sec = static_cast<int32_t>(s); m.nanosec = static_cast<uint32_t>(r); return m; }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  int64_t nanoseconds() const { return ns_; }
  rcl_clock_type_t get_clock_type() const { return t_; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), t_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), t_); }
  Duration operator-(const Time & o) const { return Duration::from_nanoseconds(ns_ - o.ns_); }
  Time & operator+=(const Duration & d) { ns_ += d.nanoseconds(); return *this; }
  Time & operator-=(const Duration & d) { ns_ -= d.nanoseconds(); return *this; }
  bool operator<(const Time & o) const { return ns_ < o.ns_; } bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; } bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; } bool operator!=(const Time & o) const { return ns_ != o.ns_; }
private:
  int64_t ns_; rcl_clock_type_t t_;
};
}  // namespace rclcpp

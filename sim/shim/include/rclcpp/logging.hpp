#pragma once
#include <simros.hpp>
#include <sstream>
namespace rclcpp
{
class Logger
{
public:
  Logger() {}
  explicit Logger(const std::string & n) : n_(n) {}
  const char * get_name() const { return n_.c_str(); }
  Logger get_child(const std::string & s) const { return Logger(n_ + "." + s); }
private:
  std::string n_;
};
inline Logger get_logger(const std::string & n) { return Logger(n); }
}
#define SIM_LOG_(lvl, logger, ...) do { (void)(logger); ::simros::log(lvl, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG(logger, ...) SIM_LOG_(0, logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) SIM_LOG_(1, logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) SIM_LOG_(2, logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) SIM_LOG_(3, logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) SIM_LOG_(4, logger, __VA_ARGS__)
#define SIM_LOG_ONCE_(lvl, logger, ...) do { static bool sim_once_ = false; if (!sim_once_) { sim_once_ = true; SIM_LOG_(lvl, logger, __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG_ONCE(l, ...) SIM_LOG_(0, l, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(l, ...) SIM_LOG_(1, l, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(l, ...) SIM_LOG_(2, l, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(l, ...) SIM_LOG_(3, l, __VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(l, c, d, ...) do { (void)(c); (void)(d); SIM_LOG_(0, l, __VA_ARGS__); } while (0)
#define RCLCPP_INFO_THROTTLE(l, c, d, ...) do { (void)(c); (void)(d); SIM_LOG_(1, l, __VA_ARGS__); } while (0)
#define RCLCPP_WARN_THROTTLE(l, c, d, ...) do { (void)(c); (void)(d); SIM_LOG_(2, l, __VA_ARGS__); } while (0)
#define RCLCPP_ERROR_THROTTLE(l, c, d, ...) do { (void)(c); (void)(d); SIM_LOG_(3, l, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG_EXPRESSION(l, e, ...) do { if (e) SIM_LOG_(0, l, __VA_ARGS__); } while (0)
#define RCLCPP_INFO_EXPRESSION(l, e, ...) do { if (e) SIM_LOG_(1, l, __VA_ARGS__); } while (0)
#define RCLCPP_WARN_EXPRESSION(l, e, ...) do { if (e) SIM_LOG_(2, l, __VA_ARGS__); } while (0)
#define SIM_LOG_STREAM_(lvl, logger, expr) do { (void)(logger); std::stringstream sim_ss_; sim_ss_ << expr; ::simros::log(lvl, "%s", sim_ss_.str().c_str()); } while (0)
#define RCLCPP_DEBUG_STREAM(l, e) SIM_LOG_STREAM_(0, l, e)
#define RCLCPP_INFO_STREAM(l, e) SIM_LOG_STREAM_(1, l, e)
#define RCLCPP_WARN_STREAM(l, e) SIM_LOG_STREAM_(2, l, e)
#define RCLCPP_ERROR_STREAM(l, e) SIM_LOG_STREAM_(3, l, e)
#define RCLCPP_FATAL_STREAM(l, e) SIM_LOG_STREAM_(4, l, e)

#pragma once
#include <vector>
#include <simros.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  template<class N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { simros::tf_broadcast(&t); }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) { for (auto & t : v) simros::tf_broadcast(&t); }
};
}

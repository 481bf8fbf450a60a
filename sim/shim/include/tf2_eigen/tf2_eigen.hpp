#pragma once
#include <Eigen/Geometry>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/point.hpp>
namespace tf2
{
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x(); t.transform.translation.y = T.translation().y(); t.transform.translation.z = T.translation().z();
  Eigen::Quaterniond q(T.linear());
  t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y(); t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
  return t;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T) { return eigenToTransform(Eigen::Affine3d(T.matrix())); }
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
                           Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t) { return transformToEigen(t.transform); }
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & T)
{
  geometry_msgs::msg::Pose p; p.position.x = T.translation().x(); p.position.y = T.translation().y(); p.position.z = T.translation().z();
  Eigen::Quaterniond q(T.linear()); p.orientation.x = q.x(); p.orientation.y = q.y(); p.orientation.z = q.z(); p.orientation.w = q.w(); return p;
}
}

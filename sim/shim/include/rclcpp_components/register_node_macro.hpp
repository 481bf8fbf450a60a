#pragma once
#include <rclcpp/rclcpp.hpp>
namespace simros { typedef std::shared_ptr<rclcpp::Node> (*NodeFactory)(const rclcpp::NodeOptions &); void register_node(const char * cls, NodeFactory f); }
#define RCLCPP_COMPONENTS_REGISTER_NODE(C) namespace { struct SimRegisterComponent_ { SimRegisterComponent_() { \
  simros::register_node(#C, [](const rclcpp::NodeOptions & o) -> std::shared_ptr<rclcpp::Node> { return std::make_shared<C>(o); }); } } sim_register_component_; }

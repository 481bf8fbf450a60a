#pragma once
#include <rosbag2_storage/serialized_bag_message.hpp>
#include <rclcpp/rclcpp.hpp>
namespace rosbag2_cpp
{
class Writer
{
public:
  Writer() {}
  ~Writer() { close(); }
  Writer(const Writer &) = delete; Writer & operator=(const Writer &) = delete;
  void open(const std::string & uri) { close(); h_ = simros::bag_writer_open(uri); }
  void open(const rosbag2_storage::StorageOptions & o, const ConverterOptions & = ConverterOptions()) { open(o.uri); }
  void create_topic(const rosbag2_storage::TopicMetadata &) {}
  void close() { if (h_ >= 0) { int h = h_; h_ = -1; simros::bag_close(h); } }
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic, const std::string & type, const rclcpp::Time & t)
  { put(*m, topic, type, t.nanoseconds()); }
  void write(std::shared_ptr<const rclcpp::SerializedMessage> m, const std::string & topic, const std::string & type, const rclcpp::Time & t)
  { put(*m, topic, type, t.nanoseconds()); }
  void write(const rclcpp::SerializedMessage & m, const std::string & topic, const std::string & type, const rclcpp::Time & t)
  { put(m, topic, type, t.nanoseconds()); }
  template<class M> void write(const M & m, const std::string & topic, const rclcpp::Time & t)
  { rclcpp::SerializedMessage s; rclcpp::Serialization<M>().serialize_message(&m, &s); put(s, topic, typeid(M).name(), t.nanoseconds()); }
private:
  void put(const rclcpp::SerializedMessage & m, const std::string & topic, const std::string & type, int64_t t)
  {
    if (h_ < 0) throw std::runtime_error("Bag is not open. Call open() before writing.");
    simros::BagMsg b; b.topic = topic; b.type = type; b.stamp = t; b.data = m.sim_data();
    simros::bag_write(h_, b);
  }
  int h_ = -1;
};
}

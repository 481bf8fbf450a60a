#pragma once
#include <rosbag2_storage/serialized_bag_message.hpp>
#include <rclcpp/rclcpp.hpp>
namespace rosbag2_cpp
{
class Reader
{
public:
  Reader() {}
  ~Reader() { close(); }
  Reader(const Reader &) = delete; Reader & operator=(const Reader &) = delete;
  void open(const std::string & uri) { close(); h_ = simros::bag_reader_open(uri); }
  void open(const rosbag2_storage::StorageOptions & o, const ConverterOptions & = ConverterOptions()) { open(o.uri); }
  bool has_next() { return h_ >= 0 && simros::bag_has_next(h_); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next()
  {
    if (h_ < 0) throw std::runtime_error("Bag is not open. Call open() before reading.");
    simros::BagMsg m = simros::bag_read(h_);
    auto r = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    r->topic_name = m.topic; r->time_stamp = m.stamp; r->recv_timestamp = m.stamp;
    r->serialized_data = std::make_shared<rcutils_uint8_array_t>();
    r->serialized_data->store = m.data;
    r->serialized_data->buffer = r->serialized_data->store.data();
    r->serialized_data->buffer_length = r->serialized_data->buffer_capacity = r->serialized_data->store.size();
    return r;
  }
  template<class M> M read_next()
  {
    auto b = read_next(); rclcpp::SerializedMessage s(*b->serialized_data); M m; rclcpp::Serialization<M>().deserialize_message(&s, &m); return m;
  }
  std::vector<rosbag2_storage::TopicMetadata> get_all_topics_and_types() const
  {
    std::vector<rosbag2_storage::TopicMetadata> v;
    for (auto & p : simros::bag_topics(h_)) { rosbag2_storage::TopicMetadata t; t.name = p.first; t.type = p.second; t.serialization_format = "cdr"; v.push_back(t); }
    return v;
  }
  void close() { if (h_ >= 0) simros::bag_reader_close(h_); h_ = -1; }
private:
  int h_ = -1;
};
}

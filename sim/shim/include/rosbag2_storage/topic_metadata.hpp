#pragma once
#include <memory>
#include <string>
#include <rclcpp/serialization.hpp>
namespace rosbag2_storage
{
struct SerializedBagMessage
{
  std::shared_ptr<rcutils_uint8_array_t> serialized_data;
  int64_t time_stamp = 0; int64_t recv_timestamp = 0; int64_t send_timestamp = 0;
  std::string topic_name;
};
typedef std::shared_ptr<SerializedBagMessage> SerializedBagMessageSharedPtr;
typedef std::shared_ptr<const SerializedBagMessage> SerializedBagMessageConstSharedPtr;
struct TopicMetadata { std::string name, type, serialization_format, offered_qos_profiles; };
struct TopicInformation { TopicMetadata topic_metadata; size_t message_count = 0; };
struct BagMetadata { std::vector<TopicInformation> topics_with_message_count; size_t message_count = 0; };
struct StorageOptions { std::string uri, storage_id; };
struct StorageFilter { std::vector<std::string> topics; };
}
namespace rosbag2_cpp { using StorageOptions = rosbag2_storage::StorageOptions; struct ConverterOptions { std::string input_serialization_format, output_serialization_format; }; }

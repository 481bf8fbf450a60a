#pragma once
#include <memory>
#include <stdexcept>
#include <vector>
#include <cstring>
#include <simros.hpp>
struct rcutils_uint8_array_t { uint8_t * buffer = nullptr; size_t buffer_length = 0; size_t buffer_capacity = 0; std::vector<uint8_t> store; };
typedef rcutils_uint8_array_t rcl_serialized_message_t;
namespace rclcpp
{
class SerializedMessage
{
public:
  using SharedPtr = std::shared_ptr<SerializedMessage>;
  SerializedMessage() {}
  explicit SerializedMessage(size_t n) { d_.reserve(n); }
  explicit SerializedMessage(const rcl_serialized_message_t & m) : d_(m.store) {}
  size_t size() const { return d_.size(); }
  size_t capacity() const { return d_.capacity(); }
  void reserve(size_t n) { d_.reserve(n); }
  const std::vector<uint8_t> & sim_data() const { return d_; }
  std::vector<uint8_t> & sim_data() { return d_; }
private:
  std::vector<uint8_t> d_;
};
class SerializationBase { };
template<typename M> class Serialization : public SerializationBase
{
public:
  void serialize_message(const void * m, SerializedMessage * o) const
  {
    simros::OutAr ar;
    const_cast<M *>(static_cast<const M *>(m))->sim_visit(ar);
    o->sim_data() = ar.b;
  }
  void deserialize_message(const SerializedMessage * s, void * m) const
  {
    simros::InAr ar(s->sim_data().data(), s->sim_data().size());
    static_cast<M *>(m)->sim_visit(ar);
    if (ar.bad) throw std::runtime_error("failed to deserialize message: buffer too short");
  }
};
}

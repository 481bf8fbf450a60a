// What the harness (driver) can do to, and see of, the simulated ROS world.
#pragma once
#include <kernel.hpp>
#include <simros.hpp>
#include <rclcpp/rclcpp.hpp>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace simros
{
// ---- node processes ("incarnations"); group numbers start at 1
struct Process
{
  int group = 0;
  bool ok = true;                    // rclcpp::ok()
  bool built = false, destroyed = false, ctor_failed = false, spinning = false;
  std::string ctor_error;
  i64 shutdown_at = -1, destroy_at = -1, end_at = -1;
  bool unload = false;               // destroy the node without shutdown
  int in_callback = 0;               // depth
  std::string in_what;
  uint64_t callbacks = 0;
};
typedef sim::u64 u64;
extern std::vector<Process> procs;   // index = group - 1
/** Start a node process; returns the group. The executor fiber constructs the node. */
int boot(const std::string & component, const Params & overrides, u64 exec_seed, bool random_order);
/** A process without a node of ours: lets harness code create nodes (act_as makes it the driver's own). */
int bare(const Params & overrides);
void act_as(int group);
void request_shutdown(int group);
void request_unload(int group);      // leave spin(), destroy the node, rclcpp::ok() stays true
Process & proc(int group);

struct Delivery { std::shared_ptr<const void> msg; u64 id; };
/** Put a message into the subscription queue(s). Returns false if nobody listens. */
bool deliver(int group, const std::string & topic, const std::type_info & t, std::shared_ptr<const void> msg, u64 id);
bool call_service(int group, const std::string & srv, std::shared_ptr<void> request, u64 id);
size_t queued(int group);

struct Hooks
{
  std::function<void(const std::string & topic, const std::type_info &, const void * msg)> on_publish;
  std::function<void(const void * transform_stamped)> on_tf;
  std::function<void()> on_tf_buffer;                                                       // a TF buffer starts listening
  std::function<void(const std::string & target, const std::string & source)> on_lookup;   // a lookup ends now
  std::function<void(int kind, const std::string & name, u64 id, bool begin)> on_callback;   // kind 0 msg 1 service
  std::function<void(int kind, const std::string & name, u64 id)> on_drop;
  std::function<void(int level, const char * text)> on_log;
  std::function<void(const char * what)> on_bag_op;   // open/write/close/ropen/read
  std::function<std::shared_ptr<void>(const std::string & cls, const std::string & base, std::shared_ptr<void> real, bool known)> on_plugin;
};
extern Hooks hooks;

// ---- TF
struct TfSample { i64 stamp, arrival; Tf tf; };
void tf_reset();
void tf_edge(const std::string & parent, const std::string & child, bool is_static);
void tf_add(const std::string & parent, const std::string & child, const TfSample & s);   // by increasing stamp
extern i64 clock_jump;               // added to the ROS clock

// ---- disk
enum FaultOp { F_NONE = 0, F_OPEN_W, F_WRITE, F_CLOSE, F_OPEN_R, F_READ };
struct DiskFault { FaultOp op = F_NONE; int nth = 0; bool enospc = false; };   // fires at the nth (0-based) operation of that kind
struct Bag { std::vector<BagMsg> msgs; bool complete = false; bool torn = false; i64 bytes = 0; };
extern std::map<std::string, Bag> disk;
extern i64 disk_capacity;            // bytes, -1 = unlimited
extern i64 bag_op_delay;             // time one open/write/read takes
extern bool bag_yields;              // scheduling point at every bag operation
void arm_fault(const DiskFault & f);
void clear_faults();
int faults_fired();
void reset_all();
std::shared_ptr<void> make_plugin_real(const std::string & cls, const std::string & base);
}  // namespace simros

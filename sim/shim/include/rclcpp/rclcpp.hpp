#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <simros.hpp>
#include <rclcpp/time.hpp>
#include <rclcpp/logging.hpp>
#include <rclcpp/serialization.hpp>

#define RCLCPP_SHARED_PTR_DEFINITIONS(C) using SharedPtr = std::shared_ptr<C>; using ConstSharedPtr = std::shared_ptr<const C>; \
  template<typename ... Args> static std::shared_ptr<C> make_shared(Args && ... a) { return std::make_shared<C>(std::forward<Args>(a) ...); }
#define RCLCPP_SMART_PTR_DEFINITIONS(C) RCLCPP_SHARED_PTR_DEFINITIONS(C) using WeakPtr = std::weak_ptr<C>; using UniquePtr = std::unique_ptr<C>;

namespace rclcpp
{
using namespace std::chrono_literals;
class Node;
class Context { public: using SharedPtr = std::shared_ptr<Context>; bool is_valid() const { return simros::ok(); } };
inline bool ok(Context::SharedPtr = nullptr) { return simros::ok(); }
inline bool shutdown(Context::SharedPtr = nullptr, const std::string & = "") { simros::shutdown(); return true; }
inline bool sleep_for(const std::chrono::nanoseconds & d, Context::SharedPtr = nullptr) { simros::sleep_ns(d.count()); return simros::ok(); }
inline void init(int, char const * const *) {}

enum class ReliabilityPolicy { BestEffort, Reliable, SystemDefault };
enum class DurabilityPolicy { Volatile, TransientLocal, SystemDefault };
enum class HistoryPolicy { KeepLast, KeepAll, SystemDefault };
struct QoSInitialization { size_t d; QoSInitialization(size_t n) : d(n) {} };  // NOLINT
struct KeepLast : public QoSInitialization { explicit KeepLast(size_t n) : QoSInitialization(n) {} };
struct KeepAll : public QoSInitialization { KeepAll() : QoSInitialization(1000) {} };
class QoS
{
public:
  QoS(size_t d) : depth_(d) {}  // NOLINT
  QoS(const QoSInitialization & i) : depth_(i.d) {}  // NOLINT
  QoS & keep_last(size_t d) { depth_ = d; return *this; }
  QoS & keep_all() { depth_ = 1000; return *this; }
  QoS & reliable() { return *this; } QoS & best_effort() { return *this; }
  QoS & transient_local() { latched_ = true; return *this; } QoS & durability_volatile() { latched_ = false; return *this; }
  QoS & reliability(ReliabilityPolicy) { return *this; } QoS & durability(DurabilityPolicy) { return *this; }
  size_t depth() const { return depth_; }
private:
  size_t depth_; bool latched_ = false;
};
class SystemDefaultsQoS : public QoS { public: SystemDefaultsQoS() : QoS(10) {} };
class SensorDataQoS : public QoS { public: SensorDataQoS() : QoS(5) {} };
class ServicesQoS : public QoS { public: ServicesQoS() : QoS(10) {} };
class RosoutQoS : public QoS { public: RosoutQoS() : QoS(10) {} };

namespace exceptions
{
struct ParameterAlreadyDeclaredException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterNotDeclaredException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct RCLError : public std::runtime_error { using std::runtime_error::runtime_error; };
}

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>; using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  Time now() const { return Time(t_ == RCL_STEADY_TIME ? simros::sim_now() : simros::ros_now(), t_); }
  bool sleep_for(const Duration & d) { simros::sleep_ns(d.nanoseconds()); return simros::ok(); }
  bool sleep_until(const Time & t) { simros::sleep_ns(t.nanoseconds() - now().nanoseconds()); return simros::ok(); }
  rcl_clock_type_t get_clock_type() const { return t_; }
private:
  rcl_clock_type_t t_;
};

class Rate
{
public:
  explicit Rate(double hz) : p_(static_cast<int64_t>(1e9 / hz)), last_(simros::sim_now()) {}
  bool sleep() { int64_t n = simros::sim_now(); int64_t t = last_ + p_; if (t < n) { last_ = n; return false; } simros::sleep_ns(t - n); last_ = t; return true; }
  void reset() { last_ = simros::sim_now(); }
private:
  int64_t p_, last_;
};
using WallRate = Rate;

class ParameterValue
{
public:
  ParameterValue() {}
  explicit ParameterValue(bool b) : v(b) {}
  explicit ParameterValue(int i) : v(static_cast<int64_t>(i)) {}
  explicit ParameterValue(int64_t i) : v(i) {}
  explicit ParameterValue(double d) : v(d) {}
  explicit ParameterValue(const std::string & s) : v(s) {}
  explicit ParameterValue(const char * s) : v(std::string(s)) {}
  simros::Value v;
  template<typename T> T get() const;
};
namespace simdetail
{
template<typename T, typename E = void> struct Conv;
template<> struct Conv<bool> { static simros::Value to(bool b) { return simros::Value(b); } static bool from(const simros::Value & v) { return v.b; } };
template<typename T> struct Conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{ static simros::Value to(T i) { return simros::Value(static_cast<simros::i64>(i)); } static T from(const simros::Value & v) { return static_cast<T>(v.i); } };
template<typename T> struct Conv<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{ static simros::Value to(T d) { return simros::Value(static_cast<double>(d)); } static T from(const simros::Value & v) { return static_cast<T>(v.d); } };
template<> struct Conv<std::string> { static simros::Value to(const std::string & s) { return simros::Value(s); } static std::string from(const simros::Value & v) { return v.s; } };
template<> struct Conv<const char *> { static simros::Value to(const char * s) { return simros::Value(std::string(s)); } };
}
template<typename T> T ParameterValue::get() const { return simdetail::Conv<T>::from(v); }
class Parameter
{
public:
  Parameter() {}
  template<typename T> Parameter(const std::string & n, const T & x) : n_(n), v_(simdetail::Conv<typename std::decay<T>::type>::to(x)) {}
  Parameter(const std::string & n, const simros::Value & x, int) : n_(n), v_(x) {}
  const std::string & get_name() const { return n_; }
  double as_double() const { return v_.d; } int64_t as_int() const { return v_.i; } bool as_bool() const { return v_.b; } std::string as_string() const { return v_.s; }
  template<typename T> T get_value() const { return simdetail::Conv<T>::from(v_); }
  const simros::Value & raw() const { return v_; }
private:
  std::string n_; simros::Value v_;
};

class NodeOptions
{
public:
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { p_ = p; return *this; }
  const std::vector<Parameter> & parameter_overrides() const { return p_; }
  NodeOptions & append_parameter_override(const std::string & n, const ParameterValue & v) { p_.push_back(Parameter(n, v.v, 0)); return *this; }
  NodeOptions & use_intra_process_comms(bool) { return *this; }
private:
  std::vector<Parameter> p_;
};

class PublisherBase { public: virtual ~PublisherBase() = default; const char * get_topic_name() const { return topic_.c_str(); } size_t get_subscription_count() const { return 1; } protected: std::string topic_; };
template<typename M> class Publisher : public PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>; using ConstSharedPtr = std::shared_ptr<const Publisher<M>>; using UniquePtr = std::unique_ptr<Publisher<M>>;
  explicit Publisher(const std::string & t) { topic_ = t; }
  void publish(const M & m) { simros::publish(topic_, typeid(M), &m); }
  void publish(std::unique_ptr<M> m) { simros::publish(topic_, typeid(M), m.get()); }
};
class SubscriptionBase { public: virtual ~SubscriptionBase() = default; };
template<typename M> class Subscription : public SubscriptionBase
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>; using ConstSharedPtr = std::shared_ptr<const Subscription<M>>; using UniquePtr = std::unique_ptr<Subscription<M>>;
  std::shared_ptr<simros::Endpoint> ep;
  ~Subscription() { if (ep) ep->cancelled = true; }
};
class ServiceBase { public: virtual ~ServiceBase() = default; };
template<typename S> class Service : public ServiceBase
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>; using ConstSharedPtr = std::shared_ptr<const Service<S>>;
  std::shared_ptr<simros::Endpoint> ep;
  ~Service() { if (ep) ep->cancelled = true; }
};
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  std::shared_ptr<simros::Endpoint> ep;
  ~TimerBase() { if (ep) ep->cancelled = true; }
  void cancel() { ep->cancelled = true; }
  void reset() { ep->cancelled = false; ep->next = simros::sim_now() + ep->period; }
};
class CallbackGroup { public: using SharedPtr = std::shared_ptr<CallbackGroup>; };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };
struct SubscriptionOptions { CallbackGroup::SharedPtr callback_group; };
struct PublisherOptions { CallbackGroup::SharedPtr callback_group; };
struct ParameterDescriptorStub {};

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>; using ConstSharedPtr = std::shared_ptr<const Node>; using WeakPtr = std::weak_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions());
  Node(const std::string & name, const std::string & ns, const NodeOptions & o = NodeOptions());
  virtual ~Node();
  const char * get_name() const { return name_.c_str(); }
  const char * get_namespace() const { return "/"; }
  const char * get_fully_qualified_name() const { return name_.c_str(); }
  Logger get_logger() const { return Logger(name_); }
  Clock::SharedPtr get_clock() { return clock_; }
  Clock::ConstSharedPtr get_clock() const { return clock_; }
  Time now() const { return Time(simros::ros_now(), RCL_ROS_TIME); }

  template<typename T> auto declare_parameter(const std::string & n, const T & d) -> T
  {
    simros::param_declare(this, n, simdetail::Conv<T>::to(d));
    bool f; return simdetail::Conv<T>::from(simros::param_get(this, n, f));
  }
  template<typename T, typename D> auto declare_parameter(const std::string & n, const T & d, const D &, bool = false) -> T { return declare_parameter<T>(n, d); }
  std::string declare_parameter(const std::string & n, const char * d) { return declare_parameter<std::string>(n, std::string(d)); }
  bool has_parameter(const std::string & n) const { return simros::param_has(const_cast<Node *>(this), n); }
  template<typename T> bool get_parameter(const std::string & n, T & o) const
  { bool f; simros::Value v = simros::param_get(const_cast<Node *>(this), n, f); if (f) o = simdetail::Conv<T>::from(v); return f; }
  Parameter get_parameter(const std::string & n) const
  { bool f; simros::Value v = simros::param_get(const_cast<Node *>(this), n, f); if (!f) throw exceptions::ParameterNotDeclaredException(n); return Parameter(n, v, 0); }
  template<typename T> T get_parameter_or(const std::string & n, const T & d) const { T o = d; get_parameter(n, o); return o; }
  void set_parameter(const Parameter & p) { simros::param_set(this, p.get_name(), p.raw()); }

  template<typename M> typename Publisher<M>::SharedPtr create_publisher(const std::string & t, const QoS &) { return std::make_shared<Publisher<M>>(t); }
  template<typename M, typename O> typename Publisher<M>::SharedPtr create_publisher(const std::string & t, const QoS &, const O &) { return std::make_shared<Publisher<M>>(t); }

  template<typename M, typename CB> typename Subscription<M>::SharedPtr create_subscription(const std::string & t, const QoS & q, CB && cb)
  {
    auto s = std::make_shared<Subscription<M>>();
    s->ep = std::make_shared<simros::Endpoint>();
    s->ep->kind = 0; s->ep->name = t; s->ep->type = &typeid(M); s->ep->depth = q.depth();
    typename std::decay<CB>::type f(std::forward<CB>(cb));
    s->ep->on_msg = [f](std::shared_ptr<const void> p) mutable {
        std::shared_ptr<const M> m = std::static_pointer_cast<const M>(p);
        if constexpr (std::is_invocable<decltype(f) &, std::shared_ptr<const M>>::value) { f(m); }
        else if constexpr (std::is_invocable<decltype(f) &, std::shared_ptr<M>>::value) { f(std::make_shared<M>(*m)); }
        else if constexpr (std::is_invocable<decltype(f) &, std::unique_ptr<M>>::value) { f(std::make_unique<M>(*m)); }
        else { f(*m); }
      };
    simros::add_endpoint(this, s->ep);
    return s;
  }
  template<typename M, typename CB, typename O> typename Subscription<M>::SharedPtr create_subscription(const std::string & t, const QoS & q, CB && cb, const O &)
  { return create_subscription<M>(t, q, std::forward<CB>(cb)); }

  template<typename S, typename CB> typename Service<S>::SharedPtr create_service(const std::string & n, CB && cb)
  {
    auto s = std::make_shared<Service<S>>();
    s->ep = std::make_shared<simros::Endpoint>();
    s->ep->kind = 1; s->ep->name = n; s->ep->type = &typeid(S); s->ep->depth = 100;
    typename std::decay<CB>::type f(std::forward<CB>(cb));
    s->ep->make_response = []() { return std::static_pointer_cast<void>(std::make_shared<typename S::Response>()); };
    s->ep->on_req = [f](std::shared_ptr<void> rq, std::shared_ptr<void> rs) mutable {
        f(std::static_pointer_cast<typename S::Request>(rq), std::static_pointer_cast<typename S::Response>(rs));
      };
    simros::add_endpoint(this, s->ep);
    return s;
  }
  template<typename S, typename CB, typename Q> typename Service<S>::SharedPtr create_service(const std::string & n, CB && cb, const Q &, CallbackGroup::SharedPtr = nullptr)
  { return create_service<S>(n, std::forward<CB>(cb)); }

  template<typename R, typename P, typename CB> TimerBase::SharedPtr create_wall_timer(std::chrono::duration<R, P> d, CB cb, CallbackGroup::SharedPtr = nullptr)
  {
    auto t = std::make_shared<TimerBase>();
    t->ep = std::make_shared<simros::Endpoint>();
    t->ep->kind = 2; t->ep->name = "timer"; t->ep->on_timer = cb;
    t->ep->period = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
    t->ep->next = simros::sim_now() + t->ep->period;
    simros::add_endpoint(this, t->ep);
    return t;
  }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType, bool = true) { return std::make_shared<CallbackGroup>(); }
private:
  std::string name_;
  Clock::SharedPtr clock_;
};
}  // namespace rclcpp

// The part of the simulated ROS that both the shim headers and the harness see.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <typeinfo>
#include <vector>

namespace simros
{
typedef int64_t i64;
struct Value
{
  enum K { NONE, BOOL, INT, DOUBLE, STRING } k = NONE;
  bool b = false; i64 i = 0; double d = 0; std::string s;
  Value() {}
  explicit Value(bool v) : k(BOOL), b(v) {}
  explicit Value(i64 v) : k(INT), i(v) {}
  explicit Value(double v) : k(DOUBLE), d(v) {}
  explicit Value(const std::string & v) : k(STRING), s(v) {}
};
typedef std::map<std::string, Value> Params;

// ---- called by the shim headers (implemented in simros.cpp, never instrumented)
bool ok();
void shutdown();
void point(int kind);                      // scheduling point
i64 ros_now();                             // ns, including injected clock jumps
void log(int level, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
void publish(const std::string & topic, const std::type_info & t, const void * msg);
struct Endpoint                             // subscription or service or timer
{
  int kind = 0;                             // 0 subscription 1 service 2 timer
  std::string name;
  const std::type_info * type = nullptr;
  size_t depth = 10;
  std::function<void(std::shared_ptr<const void>)> on_msg;
  std::function<void(std::shared_ptr<void>, std::shared_ptr<void>)> on_req;
  std::function<void()> on_timer;
  std::function<std::shared_ptr<void>()> make_response;
  i64 period = 0, next = 0; bool cancelled = false;
};
void add_endpoint(void * node, const std::shared_ptr<Endpoint> & e);
void remove_node(void * node);
void node_created(void * node, const std::string & name);
Value param_get(void * node, const std::string & name, bool & found);
void param_declare(void * node, const std::string & name, const Value & dflt);   // throws on duplicate / type
bool param_has(void * node, const std::string & name);
void param_set(void * node, const std::string & name, const Value & v);
void sleep_ns(i64 d);

// ---- TF
struct Tf { double x = 0, y = 0, z = 0, qx = 0, qy = 0, qz = 0, qw = 1; };
/** 0 ok, 1 lookup, 2 connectivity, 3 extrapolation (maybe later), 4 extrapolation (past) */
int tf_lookup(i64 created, const std::string & target, const std::string & source, i64 stamp, Tf & out, i64 & out_stamp, std::string & err);
int tf_lookup_wait(i64 created, const std::string & target, const std::string & source, i64 stamp, i64 timeout, Tf & out, i64 & out_stamp, std::string & err);
void tf_broadcast(const void * transform_stamped);
i64 sim_now();

// ---- bags on the simulated disk
struct BagMsg { std::string topic, type; i64 stamp = 0; std::vector<uint8_t> data; };
int bag_writer_open(const std::string & uri);               // throws
void bag_write(int h, const BagMsg & m);                    // throws
void bag_close(int h);
int bag_reader_open(const std::string & uri);               // throws
bool bag_has_next(int h);
BagMsg bag_read(int h);                                     // throws
std::vector<std::pair<std::string, std::string>> bag_topics(int h);
void bag_reader_close(int h);

// ---- plugins
typedef std::function<void *()> PluginFactory;
void register_plugin(const std::string & cls, const std::string & base, PluginFactory f);
std::shared_ptr<void> create_plugin(const std::string & cls, const std::string & base);   // throws pluginlib-like error via code

// ---- serialization (used for bags and message hashing)
struct OutAr
{
  std::vector<uint8_t> b;
  void raw(const void * p, size_t n) { const uint8_t * c = static_cast<const uint8_t *>(p); b.insert(b.end(), c, c + n); }
  template<class T> typename std::enable_if<std::is_arithmetic<T>::value>::type operator()(T & v) { raw(&v, sizeof v); }
  void operator()(std::string & s) { uint32_t n = static_cast<uint32_t>(s.size()); raw(&n, 4); raw(s.data(), n); }
  template<class T> void operator()(std::vector<T> & v) { uint32_t n = static_cast<uint32_t>(v.size()); raw(&n, 4); for (auto & e : v) (*this)(e); }
  template<class T, size_t N> void operator()(std::array<T, N> & v) { for (auto & e : v) (*this)(e); }
  template<class T> typename std::enable_if<std::is_class<T>::value>::type operator()(T & v) { v.sim_visit(*this); }
};
struct InAr
{
  const uint8_t * p; const uint8_t * e; bool bad = false;
  InAr(const uint8_t * d, size_t n) : p(d), e(d + n) {}
  void raw(void * o, size_t n) { if (static_cast<size_t>(e - p) < n) { bad = true; p = e; char * c = static_cast<char *>(o); for (size_t i = 0; i < n; ++i) c[i] = 0; return; } for (size_t i = 0; i < n; ++i) static_cast<uint8_t *>(o)[i] = p[i]; p += n; }
  template<class T> typename std::enable_if<std::is_arithmetic<T>::value>::type operator()(T & v) { raw(&v, sizeof v); }
  void operator()(std::string & s) { uint32_t n = 0; raw(&n, 4); if (n > static_cast<size_t>(e - p)) { bad = true; n = 0; } s.assign(reinterpret_cast<const char *>(p), n); p += n; }
  template<class T> void operator()(std::vector<T> & v) { uint32_t n = 0; raw(&n, 4); if (n > static_cast<size_t>(e - p) && n > 1000000) { bad = true; n = 0; } v.resize(n); for (auto & x : v) (*this)(x); }
  template<class T, size_t N> void operator()(std::array<T, N> & v) { for (auto & x : v) (*this)(x); }
  template<class T> typename std::enable_if<std::is_class<T>::value>::type operator()(T & v) { v.sim_visit(*this); }
};
}  // namespace simros

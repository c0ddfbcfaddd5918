// Stand-in for rclcpp: parameters come from a map, subscriptions, publishers
// and timers are kept in lists that the monitor drives and reads. It runs in
// one thread, as the executor of the real node does.
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace rclcpp
{
class Logger
{
public:
  explicit Logger(const std::string & n) : name(n) {}
  const char * get_name() const {return name.c_str();}
  std::string name;
};
inline Logger get_logger(const std::string & name) {return Logger(name);}

namespace exceptions
{
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterAlreadyDeclaredException : std::runtime_error
{ using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidTopicNameError : std::runtime_error { using std::runtime_error::runtime_error; };
}
struct ParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };

enum class ParameterType { NOT_SET, BOOL, INTEGER, DOUBLE, STRING, INT_ARRAY, DOUBLE_ARRAY, STRING_ARRAY };

class ParameterValue
{
public:
  ParameterValue() {}
  ParameterValue(bool v) : type(ParameterType::BOOL), b(v) {}
  ParameterValue(int v) : type(ParameterType::INTEGER), i(v) {}
  ParameterValue(int64_t v) : type(ParameterType::INTEGER), i(v) {}
  ParameterValue(double v) : type(ParameterType::DOUBLE), d(v) {}
  ParameterValue(float v) : type(ParameterType::DOUBLE), d(v) {}
  ParameterValue(const char * v) : type(ParameterType::STRING), s(v) {}
  ParameterValue(const std::string & v) : type(ParameterType::STRING), s(v) {}
  ParameterValue(const std::vector<int64_t> & v) : type(ParameterType::INT_ARRAY), iv(v) {}
  ParameterValue(const std::vector<double> & v) : type(ParameterType::DOUBLE_ARRAY), dv(v) {}
  ParameterValue(const std::vector<std::string> & v) : type(ParameterType::STRING_ARRAY), sv(v) {}
  ParameterType type {ParameterType::NOT_SET};
  bool b {false};
  int64_t i {0};
  double d {0};
  std::string s;
  std::vector<int64_t> iv;
  std::vector<double> dv;
  std::vector<std::string> sv;
};

class Parameter
{
public:
  Parameter() {}
  Parameter(const std::string & n, const ParameterValue & v) : name(n), value(v) {}
  const std::string & get_name() const {return name;}
  bool as_bool() const {need(ParameterType::BOOL); return value.b;}
  int64_t as_int() const {need(ParameterType::INTEGER); return value.i;}
  double as_double() const {need(ParameterType::DOUBLE); return value.d;}
  const std::string & as_string() const {need(ParameterType::STRING); return value.s;}
  const std::vector<int64_t> & as_integer_array() const
  {need(ParameterType::INT_ARRAY); return value.iv;}
  const std::vector<double> & as_double_array() const
  {need(ParameterType::DOUBLE_ARRAY); return value.dv;}
  const std::vector<std::string> & as_string_array() const
  {need(ParameterType::STRING_ARRAY); return value.sv;}
  std::string name;
  ParameterValue value;

private:
  void need(ParameterType t) const
  {
    if (value.type != t) {throw ParameterTypeException("parameter '" + name + "' has another type");}
  }
};

struct QoS { QoS(size_t d) : depth(d) {} size_t depth; };

template<typename T>
class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<T>>;
  std::string topic;
  std::function<void(std::shared_ptr<T>)> callback;
};

template<typename T>
class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<T>>;
  void publish(const T & msg) {sent.push_back(msg);}
  std::string topic;
  std::vector<T> sent;
};

class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  virtual ~TimerBase() {}
  std::chrono::nanoseconds period {0};
  std::function<void()> callback;
};

class Node;

// What the monitor drives and reads
namespace stub
{
struct LogLine { std::string severity, logger, text; };
struct World
{
  std::map<std::string, ParameterValue> overrides;
  std::set<std::string> declared;
  std::vector<std::weak_ptr<void>> endpoints;
  std::vector<LogLine> log;
  std::function<void(std::shared_ptr<void>)> spin;
  std::vector<std::shared_ptr<TimerBase>> timers;
};
inline World & world() {static World w; return w;}
template<typename T>
inline std::vector<std::weak_ptr<Subscription<T>>> & subscriptions()
{static std::vector<std::weak_ptr<Subscription<T>>> v; return v;}
template<typename T>
inline std::vector<std::weak_ptr<Publisher<T>>> & publishers()
{static std::vector<std::weak_ptr<Publisher<T>>> v; return v;}

// Delivers a message to every subscription of the topic that is still held; returns how many
template<typename T>
inline int deliver(const std::string & topic, const T & msg)
{
  int n = 0;
  auto subs = subscriptions<T>();
  for (auto & w : subs) {
    auto s = w.lock();
    if (s && s->topic == topic) {
      ++n;
      s->callback(std::make_shared<T>(msg));
    }
  }
  return n;
}
template<typename T>
inline std::shared_ptr<Publisher<T>> find_publisher(const std::string & topic)
{
  for (auto & w : publishers<T>()) {
    auto p = w.lock();
    if (p && p->topic == topic) {return p;}
  }
  return nullptr;
}

__attribute__((format(printf, 3, 4)))
inline void log(const char * severity, const Logger & logger, const char * format, ...)
{
  va_list a;
  va_start(a, format);
  char buf[8192];
  vsnprintf(buf, sizeof buf, format, a);
  va_end(a);
  world().log.push_back({severity, logger.name, buf});
}
}

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & n) : m_name(n) {}
  virtual ~Node() {}
  const char * get_name() const {return m_name.c_str();}
  Logger get_logger() const {return Logger(m_name);}

  template<typename T>
  void declare_parameter(const std::string & name, const T & default_value)
  {
    if (m_params.count(name)) {
      throw exceptions::ParameterAlreadyDeclaredException("parameter '" + name + "' twice");
    }
    ParameterValue v(default_value);
    auto & o = stub::world().overrides;
    auto it = o.find(name);
    if (it != o.end()) {
      if (it->second.type != v.type) {
        throw exceptions::InvalidParameterTypeException("parameter '" + name + "' has another type");
      }
      v = it->second;
    }
    stub::world().declared.insert(name);
    m_params[name] = v;
  }
  bool has_parameter(const std::string & name) const {return m_params.count(name) != 0;}
  Parameter get_parameter(const std::string & name) const
  {
    auto it = m_params.find(name);
    if (it == m_params.end()) {
      throw exceptions::ParameterNotDeclaredException("parameter '" + name + "' is not declared");
    }
    return Parameter(name, it->second);
  }
  void set_parameter(const Parameter & p)
  {
    auto it = m_params.find(p.name);
    if (it == m_params.end()) {
      throw exceptions::ParameterNotDeclaredException("parameter '" + p.name + "' is not declared");
    }
    it->second = p.value;
  }

  template<typename T, typename F>
  std::shared_ptr<Subscription<T>> create_subscription(
    const std::string & topic, const QoS &, F && callback)
  {
    if (topic.empty()) {throw exceptions::InvalidTopicNameError("topic name must not be empty");}
    auto s = std::make_shared<Subscription<T>>();
    s->topic = topic;
    s->callback = callback;
    stub::subscriptions<T>().push_back(s);
    return s;
  }
  template<typename T>
  std::shared_ptr<Publisher<T>> create_publisher(const std::string & topic, const QoS &)
  {
    if (topic.empty()) {throw exceptions::InvalidTopicNameError("topic name must not be empty");}
    auto p = std::make_shared<Publisher<T>>();
    p->topic = topic;
    stub::publishers<T>().push_back(p);
    return p;
  }
  template<typename R, typename P, typename F>
  std::shared_ptr<TimerBase> create_wall_timer(std::chrono::duration<R, P> period, F && callback)
  {
    auto t = std::make_shared<TimerBase>();
    t->period = std::chrono::duration_cast<std::chrono::nanoseconds>(period);
    t->callback = callback;
    stub::world().timers.push_back(t);
    return t;
  }

private:
  std::string m_name;
  std::map<std::string, ParameterValue> m_params;
};

inline void init(int, char **) {}
inline bool shutdown() {return true;}
inline bool ok() {return true;}
template<typename N>
inline void spin(std::shared_ptr<N> node)
{
  if (stub::world().spin) {stub::world().spin(node);}
}
}

#define RCLCPP_DEBUG(logger, ...) rclcpp::stub::log("DEBUG", logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) rclcpp::stub::log("INFO", logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) rclcpp::stub::log("WARN", logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) rclcpp::stub::log("ERROR", logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) rclcpp::stub::log("FATAL", logger, __VA_ARGS__)
#define RCLCPP_STUB_STREAM(severity, logger, arg) \
  do { \
    std::stringstream rclcpp_stub_ss; \
    rclcpp_stub_ss << arg; \
    rclcpp::stub::log(severity, logger, "%s", rclcpp_stub_ss.str().c_str()); \
  } while (0)
#define RCLCPP_DEBUG_STREAM(logger, arg) RCLCPP_STUB_STREAM("DEBUG", logger, arg)
#define RCLCPP_INFO_STREAM(logger, arg) RCLCPP_STUB_STREAM("INFO", logger, arg)
#define RCLCPP_WARN_STREAM(logger, arg) RCLCPP_STUB_STREAM("WARN", logger, arg)
#define RCLCPP_ERROR_STREAM(logger, arg) RCLCPP_STUB_STREAM("ERROR", logger, arg)
#define RCLCPP_FATAL_STREAM(logger, arg) RCLCPP_STUB_STREAM("FATAL", logger, arg)

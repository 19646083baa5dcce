// Stand-in for rclcpp, tf2_ros and message_filters: an in-process graph whose clock, timers, deliveries, parameters and
// transforms are decided by the harness (namespace shim). Semantics follow ROS 2 Humble where the repository relies on them.
#ifndef SHIM_ROS_CORE_HPP_
#define SHIM_ROS_CORE_HPP_
#include <any>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>
#include "ros_msgs.hpp"

#ifdef SHIM_SCHED      // under the controlled scheduler the stand-ins' own bookkeeping is neither watched nor interrupted
#ifndef MC_QUIET_
#define MC_QUIET_
namespace sched {struct Quiet {Quiet(); ~Quiet();};}
#endif
#define SHIM_QUIET ::sched::Quiet shim_quiet_;
#else
#define SHIM_QUIET
#endif
namespace rclcpp {class CallbackGroup;}

namespace shim
{
struct SubBase
{
  virtual ~SubBase() {}
  std::string topic; std::type_index type = typeid(void); bool reliable = false, transient_local = false; size_t depth = 0; /* 0: keeps all */ std::string raw; std::shared_ptr<rclcpp::CallbackGroup> group; /* none: the node's own */
};
struct PubInfo {std::string topic; std::type_index type = typeid(void); bool reliable = true, transient_local = false; std::string raw;};
struct TimerInfo {std::function<void()> fn; int64_t period_ns; bool canceled = false;};
struct LogLine {int severity; std::string text;};
using Param = std::variant<bool, int64_t, double, std::string, std::vector<bool>, std::vector<int64_t>, std::vector<double>, std::vector<std::string>>;

struct World
{
  int64_t now_ns = 0;
  bool shutdown = false, initialised = false;
  std::map<std::string, Param> params;             // overrides
  std::map<std::string, Param> declared;           // what the node declared, with the value used
  std::vector<std::weak_ptr<SubBase>> subs;
  std::vector<PubInfo> pubs;
  std::vector<std::weak_ptr<TimerInfo>> timers;
  std::vector<std::pair<std::string, std::any>> sent;  // (topic, std::shared_ptr<const Msg>), in order
  std::vector<geometry_msgs::msg::TransformStamped> tf, static_tf;
  // (target, source) -> transform or nullopt (not found)
  std::function<std::optional<geometry_msgs::msg::TransformStamped>(const std::string &, const std::string &)> lookup;
  int lookups = 0;
  int64_t slept_ns = 0;
  std::function<void()> on_spin;
  int nodes = 0;
  int logs[5] = {0, 0, 0, 0, 0};
};
template<class T> struct param_type
{
  using type = std::conditional_t<std::is_same_v<T, bool>, bool, std::conditional_t<std::is_integral_v<T> || std::is_enum_v<T>, int64_t,
    std::conditional_t<std::is_floating_point_v<T>, double, std::string>>>;
};
template<class E> struct param_type<std::vector<E>> {using type = std::vector<typename param_type<E>::type>;};
template<class T> T param_as(const Param & p)
{
  using S = typename param_type<T>::type;
  if (!std::holds_alternative<S>(p)) {throw std::runtime_error("parameter has invalid type");}
  if constexpr (std::is_constructible_v<T, S>) {return T(std::get<S>(p));}
  else {const auto & v = std::get<S>(p); return T(v.begin(), v.end());}
}
inline World & world() {static World w; return w;}
inline void reset() {world() = World();}
inline std::string norm(const std::string & t, const std::string & node = "")
{
  if (!t.empty() && t[0] == '/') {return t;}
  if (!t.empty() && t[0] == '~') {return "/" + node + t.substr(1);}
  return "/" + t;
}
inline void log(int severity, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
inline void log(int severity, const char * fmt, ...)
{
  // really formatted, so that a wrong or attacker-supplied format string is caught
  char buf[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  SHIM_QUIET
  world().logs[severity]++;
}
}  // namespace shim

struct rmw_qos_profile_t {size_t depth = 10; bool reliable = true, transient_local = false, keep_all = false;};
enum rcl_clock_type_t {RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME};
constexpr rmw_qos_profile_t rmw_qos_profile_default{};
constexpr rmw_qos_profile_t rmw_qos_profile_sensor_data{5, false, false, false};

namespace rclcpp
{
class Duration
{
public:
  Duration(int32_t sec, uint32_t nanosec) : ns_(static_cast<int64_t>(sec) * 1000000000 + nanosec) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns_(static_cast<int64_t>(d.sec) * 1000000000 + d.nanosec) {}
  static Duration from_seconds(double s) {return Duration(std::chrono::nanoseconds(static_cast<int64_t>(std::floor(s * 1e9 + 0.5))));}
  static Duration from_nanoseconds(int64_t ns) {return Duration(std::chrono::nanoseconds(ns));}
  double seconds() const {return static_cast<double>(ns_) * 1e-9;}
  int64_t nanoseconds() const {return ns_;}
  bool operator<(const Duration & o) const {return ns_ < o.ns_;}
  bool operator>(const Duration & o) const {return ns_ > o.ns_;}
  bool operator<=(const Duration & o) const {return ns_ <= o.ns_;}
  bool operator>=(const Duration & o) const {return ns_ >= o.ns_;}
  bool operator==(const Duration & o) const {return ns_ == o.ns_;}
  Duration operator+(const Duration & o) const {return from_nanoseconds(ns_ + o.ns_);}
  Duration operator-(const Duration & o) const {return from_nanoseconds(ns_ - o.ns_);}
  Duration operator*(double s) const {return from_nanoseconds(static_cast<int64_t>(ns_ * s));}
  bool operator!=(const Duration & o) const {return ns_ != o.ns_;}
  Duration & operator+=(const Duration & o) {ns_ += o.ns_; return *this;}
  Duration & operator-=(const Duration & o) {ns_ -= o.ns_; return *this;}
  Duration & operator*=(double s) {*this = *this * s; return *this;}
  template<class D> D to_chrono() const {return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));}
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration m; int64_t s = ns_ / 1000000000, r = ns_ % 1000000000;
    if (r < 0) {s -= 1; r += 1000000000;}
    m.sec = static_cast<int32_t>(s); m.nanosec = static_cast<uint32_t>(r); return m;
  }
  static Duration max() {return Duration(std::numeric_limits<int32_t>::max(), 999999999);}
  Duration() : ns_(0) {}
  Duration(const Duration &) = default;
  Duration & operator=(const Duration &) = default;
  template<class Rep, class Period> Duration(const std::chrono::duration<Rep, Period> & d)  // NOLINT: implicit as in rclcpp
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
private:
  int64_t ns_;
};
class Time
{
public:
  Time(int32_t sec, uint32_t nanosec, rcl_clock_type_t t = RCL_SYSTEM_TIME)
  : ns_(static_cast<int64_t>(sec) * 1000000000 + nanosec), type_(t)
  {
    if (sec < 0) {throw std::runtime_error("cannot store a negative time point in rclcpp::Time");}
  }
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), type_(t) {}
  Time(const Time &) = default;
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME)
  : ns_(static_cast<int64_t>(m.sec) * 1000000000 + m.nanosec), type_(t)
  {
    if (m.sec < 0) {throw std::runtime_error("cannot store a negative time point in rclcpp::Time");}
  }
  Time & operator=(const Time &) = default;
  Time & operator=(const builtin_interfaces::msg::Time & m) {*this = Time(m); return *this;}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time m;
    int64_t s = ns_ / 1000000000, r = ns_ % 1000000000;
    if (r < 0) {s -= 1; r += 1000000000;}
    m.sec = static_cast<int32_t>(s); m.nanosec = static_cast<uint32_t>(r);
    return m;
  }
  double seconds() const {return static_cast<double>(ns_) * 1e-9;}
  int64_t nanoseconds() const {return ns_;}
  rcl_clock_type_t get_clock_type() const {return type_;}
  bool operator==(const Time & o) const {same(o); return ns_ == o.ns_;}
  bool operator!=(const Time & o) const {return !(*this == o);}
  bool operator<(const Time & o) const {same(o); return ns_ < o.ns_;}
  bool operator>(const Time & o) const {same(o); return ns_ > o.ns_;}
  bool operator<=(const Time & o) const {same(o); return ns_ <= o.ns_;}
  bool operator>=(const Time & o) const {same(o); return ns_ >= o.ns_;}
  Duration operator-(const Time & o) const
  {
    if (type_ != o.type_) {throw std::runtime_error("can't subtract times with different time sources [" + std::to_string(type_) + " != " + std::to_string(o.type_) + "]");}
    return Duration::from_nanoseconds(ns_ - o.ns_);
  }
  Time operator-(const Duration & d) const {return Time(ns_ - d.nanoseconds(), type_);}
  Time operator+(const Duration & d) const {return Time(ns_ + d.nanoseconds(), type_);}
  Time & operator+=(const Duration & d) {ns_ += d.nanoseconds(); return *this;}
  Time & operator-=(const Duration & d) {ns_ -= d.nanoseconds(); return *this;}
  static Time max() {return Time(std::numeric_limits<int32_t>::max(), 999999999);}
private:
  void same(const Time & o) const {if (type_ != o.type_) {throw std::runtime_error("can't compare times with different time sources");}}
  int64_t ns_; rcl_clock_type_t type_;
};

inline Time operator+(const Duration & d, const Time & t) {return t + d;}
class Logger
{
public:
  explicit Logger(std::string n = "") : n_(std::move(n)) {}
  const char * get_name() const {return n_.c_str();}
  Logger get_child(const std::string & s) {return Logger(n_ + "." + s);}
private:
  std::string n_;
};
inline Logger get_logger(const std::string & n) {return Logger(n);}
struct Parameter
{
  Parameter() {}
  Parameter(std::string n, shim::Param v) : name_(std::move(n)), v_(std::move(v)) {}
  const std::string & get_name() const {return name_;}
  bool as_bool() const {return std::get<bool>(v_);}
  int64_t as_int() const {return std::get<int64_t>(v_);}
  double as_double() const {return std::get<double>(v_);}
  const std::string & as_string() const {return std::get<std::string>(v_);}
  const std::vector<double> & as_double_array() const {return std::get<std::vector<double>>(v_);}
  const shim::Param & value() const {return v_;}
  template<class T> T get_value() const {return shim::param_as<T>(v_);}
private:
  std::string name_; shim::Param v_;
};

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  Time now() const {return Time(shim::world().now_ns, t_);}
  rcl_clock_type_t get_clock_type() const {return t_;}
  bool sleep_for(Duration d) {shim::world().slept_ns += d.nanoseconds(); return true;}
  bool ros_time_is_active() {return true;}
private:
  rcl_clock_type_t t_;
};

class QoS
{
public:
  QoS(size_t depth) {p_.depth = depth;}  // NOLINT: implicit as in rclcpp
  explicit QoS(const rmw_qos_profile_t & p) : p_(p) {}
  QoS & reliable() {p_.reliable = true; return *this;}
  QoS & best_effort() {p_.reliable = false; return *this;}
  QoS & durability_volatile() {p_.transient_local = false; return *this;}
  QoS & transient_local() {p_.transient_local = true; return *this;}
  QoS & durability(int) {return *this;}
  size_t depth() const {return p_.depth;}
  QoS & keep_all() {p_.keep_all = true; return *this;}
  QoS & keep_last(size_t d) {p_.depth = d; p_.keep_all = false; return *this;}
  const rmw_qos_profile_t & get_rmw_qos_profile() const {return p_;}
  rmw_qos_profile_t & get_rmw_qos_profile() {return p_;}
protected:
  rmw_qos_profile_t p_;
};
class SensorDataQoS : public QoS {public: SensorDataQoS() : QoS(5) {p_.reliable = false;}};
class SystemDefaultsQoS : public QoS {public: SystemDefaultsQoS() : QoS(10) {}};
struct KeepAll {operator QoS() const {return QoS(10).keep_all();}};
class ServicesQoS : public QoS {public: ServicesQoS() : QoS(10) {}};
struct KeepLast {size_t depth; explicit KeepLast(size_t d) : depth(d) {} operator QoS() const {return QoS(depth);}};

enum class CallbackGroupType {MutuallyExclusive, Reentrant};
class CallbackGroup
{
public:
  using SharedPtr = std::shared_ptr<CallbackGroup>;
  explicit CallbackGroup(CallbackGroupType t) : type(t) {}
  CallbackGroupType type;
};
struct SubscriptionOptions {CallbackGroup::SharedPtr callback_group;};
struct PublisherOptions {CallbackGroup::SharedPtr callback_group;};
template<class A> struct SubscriptionOptionsWithAllocator : SubscriptionOptions {};
struct MessageInfo {};
class NodeOptions
{
public:
  NodeOptions() {}
  NodeOptions & parameter_overrides(const std::vector<Parameter> &) {return *this;}
  NodeOptions & allow_undeclared_parameters(bool) {return *this;}
  NodeOptions & automatically_declare_parameters_from_overrides(bool) {return *this;}
  NodeOptions & arguments(const std::vector<std::string> &) {return *this;}
  NodeOptions & use_intra_process_comms(bool) {return *this;}
};

class PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<PublisherBase>;
  virtual ~PublisherBase() {}
};
template<class M> class Publisher : public PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher>;
  using ConstSharedPtr = std::shared_ptr<const Publisher>;
  explicit Publisher(std::string t) : topic_(std::move(t)) {}
  void publish(const M & m) const {put(std::make_shared<const M>(m));}
  void publish(const std::shared_ptr<const M> & m) const {publish(*m);}
  void publish(const std::shared_ptr<M> & m) const {publish(*m);}
  void publish(std::unique_ptr<M> m) const {put(std::shared_ptr<const M>(std::move(m)));}
  const char * get_topic_name() const {return topic_.c_str();}
  size_t get_subscription_count() const {return 1;}
  size_t get_intra_process_subscription_count() const {return 0;}
private:
  void put(const std::shared_ptr<const M> & m) const {SHIM_QUIET shim::world().sent.emplace_back(topic_, std::any(m));}
  std::string topic_;
};

class SubscriptionBase : public shim::SubBase {public: using SharedPtr = std::shared_ptr<SubscriptionBase>;};
template<class M> struct SubTyped : SubscriptionBase {virtual void deliver(const std::shared_ptr<const M> & m) = 0;};

template<class M> class Subscription : public SubTyped<M>
{
public:
  using SharedPtr = std::shared_ptr<Subscription>;
  using ConstSharedPtr = std::shared_ptr<const Subscription>;
  std::function<void(const std::shared_ptr<const M> &)> cb;
  void deliver(const std::shared_ptr<const M> & m) override {if (cb) {cb(m);}}
  const char * get_topic_name() const {return this->topic.c_str();}
  size_t get_publisher_count() const {return 1;}
};

template<class M, class F> std::function<void(const std::shared_ptr<const M> &)> MakeCallback(F && f)
{
  using Fn = std::decay_t<F>;
  auto fp = std::make_shared<Fn>(std::forward<F>(f));
  if constexpr (std::is_invocable_v<Fn &, std::shared_ptr<const M>>) {
    return [fp](const std::shared_ptr<const M> & m) {(*fp)(m);};
  } else if constexpr (std::is_invocable_v<Fn &, std::shared_ptr<M>>) {
    return [fp](const std::shared_ptr<const M> & m) {(*fp)(std::make_shared<M>(*m));};
  } else if constexpr (std::is_invocable_v<Fn &, std::unique_ptr<M>>) {
    return [fp](const std::shared_ptr<const M> & m) {(*fp)(std::make_unique<M>(*m));};
  } else if constexpr (std::is_invocable_v<Fn &, std::shared_ptr<const M>, const MessageInfo &>) {
    return [fp](const std::shared_ptr<const M> & m) {(*fp)(m, MessageInfo());};
  } else {
    static_assert(std::is_invocable_v<Fn &, const M &>, "callback signature not supported by the shim");
    return [fp](const std::shared_ptr<const M> & m) {(*fp)(*m);};
  }
}

class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  explicit TimerBase(std::shared_ptr<shim::TimerInfo> i) : info(std::move(i)) {}
  void cancel() {info->canceled = true;}
  void reset() {info->canceled = false;}
  bool is_canceled() const {return info->canceled;}
  std::shared_ptr<shim::TimerInfo> info;
};
using GenericTimerSharedPtr = TimerBase::SharedPtr;
template<class F> using WallTimer = TimerBase;

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & = NodeOptions())
  : name_(name), clock_(std::make_shared<Clock>(RCL_ROS_TIME)) {shim::world().nodes++;}
  Node(const std::string & name, const std::string &, const NodeOptions & = NodeOptions()) : Node(name) {}
  virtual ~Node() {}
  const char * get_name() const {return name_.c_str();}
  Logger get_logger() const {return Logger(name_);}
  Clock::SharedPtr get_clock() {return clock_;}
  Clock::ConstSharedPtr get_clock() const {return clock_;}
  Time now() const {return clock_->now();}

  const char * get_namespace() const {return "/";}
  std::string get_fully_qualified_name() const {return "/" + name_;}
  template<class T, class ... A> auto declare_parameter(const std::string & name, const T & def, A && ...)
  {
    using D = std::conditional_t<std::is_convertible_v<T, std::string>, std::string, T>;
    using S = typename shim::param_type<D>::type;
    if constexpr (std::is_constructible_v<S, T>) {return get<S>(name, S(def));}
    else {return get<S>(name, S(def.begin(), def.end()));}
  }
  template<class T> T declare_parameter(const std::string & name) {return static_cast<T>(declare_parameter(name, T()));}
  bool has_parameter(const std::string & name) const {return shim::world().declared.count(name) > 0;}
  Parameter get_parameter(const std::string & name) const
  {
    const auto & d = shim::world().declared;
    const auto it = d.find(name);
    if (it == d.end()) {throw std::runtime_error("parameter '" + name + "' has not been declared");}
    return Parameter(name, it->second);
  }
  template<class T> bool get_parameter(const std::string & name, T & out) const
  {
    if (!has_parameter(name)) {return false;}
    out = get_parameter(name).template get_value<T>();
    return true;
  }
  template<class T> bool get_parameter_or(const std::string & name, T & out, const T & alternative) const
  {
    if (get_parameter(name, out)) {return true;}
    out = alternative;
    return false;
  }
  size_t count_subscribers(const std::string &) const {return 1;}
  size_t count_publishers(const std::string &) const {return 1;}

  template<class M, class F>
  typename Subscription<M>::SharedPtr create_subscription(
    const std::string & topic, const QoS & qos, F && f, const SubscriptionOptions & o = SubscriptionOptions())
  {
    auto s = std::make_shared<Subscription<M>>();
    s->topic = shim::norm(topic, name_); s->raw = topic; s->type = typeid(M);
    s->reliable = qos.get_rmw_qos_profile().reliable; s->transient_local = qos.get_rmw_qos_profile().transient_local;
    s->depth = qos.get_rmw_qos_profile().keep_all ? 0 : qos.get_rmw_qos_profile().depth;
    s->cb = MakeCallback<M>(std::forward<F>(f)); s->group = o.callback_group;
    shim::world().subs.push_back(s);
    return s;
  }
  template<class M>
  typename Publisher<M>::SharedPtr create_publisher(const std::string & topic, const QoS & qos, const PublisherOptions & = PublisherOptions())
  {
    const std::string t = shim::norm(topic, name_);
    shim::world().pubs.push_back({t, typeid(M), qos.get_rmw_qos_profile().reliable, qos.get_rmw_qos_profile().transient_local, topic});
    return std::make_shared<Publisher<M>>(t);
  }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true) {return std::make_shared<CallbackGroup>(t);}
  template<class Rep, class Period, class F>
  TimerBase::SharedPtr create_wall_timer(std::chrono::duration<Rep, Period> d, F && f, CallbackGroup::SharedPtr = nullptr)
  {
    return make_timer(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), std::function<void()>(std::forward<F>(f)));
  }
  template<class Rep, class Period, class F>
  TimerBase::SharedPtr create_timer(std::chrono::duration<Rep, Period> d, F && f, CallbackGroup::SharedPtr = nullptr)
  {
    return create_wall_timer(d, std::forward<F>(f));
  }
  static TimerBase::SharedPtr make_timer(int64_t ns, std::function<void()> f)
  {
    auto i = std::make_shared<shim::TimerInfo>(shim::TimerInfo{std::move(f), ns, false});
    shim::world().timers.push_back(i);
    return std::make_shared<TimerBase>(i);
  }

private:
  template<class T> T get(const std::string & name, const T & def)
  {
    auto & w = shim::world();
    T v = def;
    const auto it = w.params.find(name);
    if (it != w.params.end()) {
      if (!std::holds_alternative<T>(it->second)) {throw std::runtime_error("parameter '" + name + "' has invalid type");}
      v = std::get<T>(it->second);
    }
    w.declared[name] = v;
    return v;
  }
  std::string name_;
  Clock::SharedPtr clock_;
};

template<class N, class F>
TimerBase::SharedPtr create_timer(N &&, Clock::SharedPtr, const Duration & period, F && f, CallbackGroup::SharedPtr = nullptr)
{
  return Node::make_timer(period.nanoseconds(), std::function<void()>(std::forward<F>(f)));
}

template<class N, class Rep, class Period, class F>
TimerBase::SharedPtr create_wall_timer(std::chrono::duration<Rep, Period> d, F && f, CallbackGroup::SharedPtr, N *, void * = nullptr)
{
  return Node::make_timer(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), std::function<void()>(std::forward<F>(f)));
}
template<class M, class N, class F>
typename Subscription<M>::SharedPtr create_subscription(N && n, const std::string & t, const QoS & q, F && f)
{
  return n->template create_subscription<M>(t, q, std::forward<F>(f));
}
template<class M, class N> typename Publisher<M>::SharedPtr create_publisher(N && n, const std::string & t, const QoS & q)
{
  return n->template create_publisher<M>(t, q);
}
class Rate
{
public:
  explicit Rate(double hz) : ns_(static_cast<int64_t>(1e9 / hz)) {}
  explicit Rate(std::chrono::nanoseconds p) : ns_(p.count()) {}
  bool sleep() {shim::world().slept_ns += ns_; return true;}
  void reset() {}
private:
  int64_t ns_;
};
using WallRate = Rate;
inline void init(int, char const * const *) {shim::world().initialised = true;}
}
namespace shim
{
inline void spin()
{
  if (!world().initialised) {throw std::runtime_error("failed to initialize rcl node: rcl node's rmw handle is invalid: rclcpp::init() was not called");}
  if (world().on_spin) {world().on_spin();}
}
}
namespace rclcpp
{
inline bool ok() {return !shim::world().shutdown;}
inline bool shutdown(const std::string & = "") {shim::world().shutdown = true; return true;}
inline bool sleep_for(const std::chrono::nanoseconds & ns) {shim::world().slept_ns += ns.count(); return true;}
inline void spin(const Node::SharedPtr &) {shim::spin();}
inline void spin_some(const Node::SharedPtr &) {}
namespace executors
{
class SingleThreadedExecutor
{
public:
  using SharedPtr = std::shared_ptr<SingleThreadedExecutor>;
  void add_node(const Node::SharedPtr & n, bool = true) {nodes_.push_back(n);}
  void spin() {shim::spin();}
  void spin_some() {}
  void spin_once() {}
  void remove_node(const Node::SharedPtr &, bool = true) {}
  void cancel() {}
private:
  std::vector<Node::SharedPtr> nodes_;
};
using MultiThreadedExecutor = SingleThreadedExecutor;
}
}  // namespace rclcpp

namespace shim {inline void log_str(int s, const std::string &) {world().logs[s]++;}}
#define SHIM_LOG(sev, logger, ...) do {(void)(logger); ::shim::log(sev, __VA_ARGS__);} while (0)
#define RCLCPP_DEBUG(logger, ...) SHIM_LOG(0, logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) SHIM_LOG(1, logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) SHIM_LOG(2, logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) SHIM_LOG(3, logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) SHIM_LOG(4, logger, __VA_ARGS__)
#define SHIM_LOG_STREAM(sev, logger, x) do {(void)(logger); std::stringstream ss_; ss_ << x; ::shim::log_str(sev, ss_.str());} while (0)
#define RCLCPP_DEBUG_STREAM(logger, x) SHIM_LOG_STREAM(0, logger, x)
#define RCLCPP_DEBUG_ONCE(logger, ...) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG(0, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG_STREAM_ONCE(logger, x) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG_STREAM(0, logger, x);}} while (0)
#define RCLCPP_DEBUG_SKIPFIRST(logger, ...) do {static std::atomic<bool> first_(true); if (first_.exchange(false)) {} else {SHIM_LOG(0, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG_EXPRESSION(logger, e, ...) do {if (e) {SHIM_LOG(0, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG_THROTTLE(logger, clock, ms, ...) do {(void)(clock); (void)(ms); SHIM_LOG(0, logger, __VA_ARGS__);} while (0)
#define RCLCPP_DEBUG_STREAM_THROTTLE(logger, clock, ms, x) do {(void)(clock); (void)(ms); SHIM_LOG_STREAM(0, logger, x);} while (0)
#define RCLCPP_INFO_STREAM(logger, x) SHIM_LOG_STREAM(1, logger, x)
#define RCLCPP_INFO_ONCE(logger, ...) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG(1, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_INFO_STREAM_ONCE(logger, x) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG_STREAM(1, logger, x);}} while (0)
#define RCLCPP_INFO_SKIPFIRST(logger, ...) do {static std::atomic<bool> first_(true); if (first_.exchange(false)) {} else {SHIM_LOG(1, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_INFO_EXPRESSION(logger, e, ...) do {if (e) {SHIM_LOG(1, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) do {(void)(clock); (void)(ms); SHIM_LOG(1, logger, __VA_ARGS__);} while (0)
#define RCLCPP_INFO_STREAM_THROTTLE(logger, clock, ms, x) do {(void)(clock); (void)(ms); SHIM_LOG_STREAM(1, logger, x);} while (0)
#define RCLCPP_WARN_STREAM(logger, x) SHIM_LOG_STREAM(2, logger, x)
#define RCLCPP_WARN_ONCE(logger, ...) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG(2, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_WARN_STREAM_ONCE(logger, x) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG_STREAM(2, logger, x);}} while (0)
#define RCLCPP_WARN_SKIPFIRST(logger, ...) do {static std::atomic<bool> first_(true); if (first_.exchange(false)) {} else {SHIM_LOG(2, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_WARN_EXPRESSION(logger, e, ...) do {if (e) {SHIM_LOG(2, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) do {(void)(clock); (void)(ms); SHIM_LOG(2, logger, __VA_ARGS__);} while (0)
#define RCLCPP_WARN_STREAM_THROTTLE(logger, clock, ms, x) do {(void)(clock); (void)(ms); SHIM_LOG_STREAM(2, logger, x);} while (0)
#define RCLCPP_ERROR_STREAM(logger, x) SHIM_LOG_STREAM(3, logger, x)
#define RCLCPP_ERROR_ONCE(logger, ...) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG(3, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_ERROR_STREAM_ONCE(logger, x) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG_STREAM(3, logger, x);}} while (0)
#define RCLCPP_ERROR_SKIPFIRST(logger, ...) do {static std::atomic<bool> first_(true); if (first_.exchange(false)) {} else {SHIM_LOG(3, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_ERROR_EXPRESSION(logger, e, ...) do {if (e) {SHIM_LOG(3, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) do {(void)(clock); (void)(ms); SHIM_LOG(3, logger, __VA_ARGS__);} while (0)
#define RCLCPP_ERROR_STREAM_THROTTLE(logger, clock, ms, x) do {(void)(clock); (void)(ms); SHIM_LOG_STREAM(3, logger, x);} while (0)
#define RCLCPP_FATAL_STREAM(logger, x) SHIM_LOG_STREAM(4, logger, x)
#define RCLCPP_FATAL_ONCE(logger, ...) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG(4, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_FATAL_STREAM_ONCE(logger, x) do {static std::atomic<bool> once_(false); if (!once_.exchange(true)) {SHIM_LOG_STREAM(4, logger, x);}} while (0)
#define RCLCPP_FATAL_SKIPFIRST(logger, ...) do {static std::atomic<bool> first_(true); if (first_.exchange(false)) {} else {SHIM_LOG(4, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_FATAL_EXPRESSION(logger, e, ...) do {if (e) {SHIM_LOG(4, logger, __VA_ARGS__);}} while (0)
#define RCLCPP_FATAL_THROTTLE(logger, clock, ms, ...) do {(void)(clock); (void)(ms); SHIM_LOG(4, logger, __VA_ARGS__);} while (0)
#define RCLCPP_FATAL_STREAM_THROTTLE(logger, clock, ms, x) do {(void)(clock); (void)(ms); SHIM_LOG_STREAM(4, logger, x);} while (0)

// components: the harness instantiates the registered class
namespace shim
{
using Factory = std::function<std::shared_ptr<rclcpp::Node>()>;
inline std::map<std::string, Factory> & components() {static std::map<std::string, Factory> c; return c;}
struct RegisterComponent {RegisterComponent(const char * n, Factory f) {components()[n] = std::move(f);}};
}
#define SHIM_CAT2(a, b) a ## b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
#define RCLCPP_COMPONENTS_REGISTER_NODE(C) \
  static ::shim::RegisterComponent SHIM_CAT(shim_component_, __LINE__)(#C, [] {return std::make_shared<C>(rclcpp::NodeOptions());});

// ------------------------------------------------------------------------------------------------ tf2
namespace tf2
{
using TimePoint = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
using Duration = std::chrono::nanoseconds;
const TimePoint TimePointZero = TimePoint(std::chrono::nanoseconds::zero());
inline Duration durationFromSec(double s) {return Duration(static_cast<int64_t>(s * 1e9));}
inline double durationToSec(const Duration & d) {return static_cast<double>(d.count()) * 1e-9;}
inline TimePoint timeFromSec(double s) {return TimePoint(Duration(static_cast<int64_t>(s * 1e9)));}
inline double timeToSec(const TimePoint & t) {return static_cast<double>(t.time_since_epoch().count()) * 1e-9;}
class TransformException : public std::runtime_error {public: using std::runtime_error::runtime_error;};
class LookupException : public TransformException {public: using TransformException::TransformException;};
class ConnectivityException : public TransformException {public: using TransformException::TransformException;};
class ExtrapolationException : public TransformException {public: using TransformException::TransformException;};
class InvalidArgumentException : public TransformException {public: using TransformException::TransformException;};
class TimeoutException : public TransformException {public: using TransformException::TransformException;};
class BufferCore
{
public:
  explicit BufferCore(tf2::Duration = tf2::Duration(0)) {}
  virtual ~BufferCore() {}
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const TimePoint &) const
  {
    auto & w = shim::world();
    w.lookups++;
    // tf2 rejects empty frame ids and ids with a leading slash
    if (target.empty() || source.empty() || target[0] == '/' || source[0] == '/') {
      throw InvalidArgumentException("Invalid argument passed to lookupTransform: tf2 frame_ids cannot be empty or start with a '/'");
    }
    if (w.lookup) {
      auto t = w.lookup(target, source);
      if (t) {return *t;}
    }
    throw LookupException("\"" + source + "\" passed to lookupTransform argument source_frame does not exist. ");
  }
  bool canTransform(const std::string & target, const std::string & source, const TimePoint &, std::string * = nullptr) const
  {
    auto & w = shim::world();
    return w.lookup && w.lookup(target, source).has_value();
  }
};
}
namespace tf2_ros
{
class Buffer : public tf2::BufferCore
{
public:
  using SharedPtr = std::shared_ptr<Buffer>;
  template<class C, class ... A> explicit Buffer(C &&, A && ...) {}
  void setUsingDedicatedThread(bool) {}
  using tf2::BufferCore::lookupTransform;
  using tf2::BufferCore::canTransform;
  // the transform tree of the harness does not change while a node waits
  template<class T> geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const T &, tf2::Duration) const
  {
    return lookupTransform(target, source, tf2::TimePointZero);
  }
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const rclcpp::Time &, const rclcpp::Duration & = rclcpp::Duration(0, 0)) const
  {
    return lookupTransform(target, source, tf2::TimePointZero);
  }
  template<class T, class D> bool canTransform(
    const std::string & target, const std::string & source, const T &, const D &, std::string * = nullptr) const
  {
    return canTransform(target, source, tf2::TimePointZero);
  }
  bool canTransform(const std::string & target, const std::string & source, const rclcpp::Time &, std::string * = nullptr) const
  {
    return canTransform(target, source, tf2::TimePointZero);
  }
};
template<class N> inline tf2::TimePoint fromRclcpp(const N & t) {return tf2::TimePoint(std::chrono::nanoseconds(t.nanoseconds()));}
inline tf2::TimePoint fromMsg(const builtin_interfaces::msg::Time & t) {return tf2::TimePoint(std::chrono::seconds(t.sec) + std::chrono::nanoseconds(t.nanosec));}
class TransformListener
{
public:
  template<class ... A> explicit TransformListener(tf2::BufferCore &, A && ...) {}
};
class TransformBroadcaster
{
public:
  template<class N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) {SHIM_QUIET shim::world().tf.push_back(t);}
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & t) {for (auto & x : t) {sendTransform(x);}}
};
class StaticTransformBroadcaster
{
public:
  template<class N> explicit StaticTransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) {SHIM_QUIET shim::world().static_tf.push_back(t);}
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & t) {for (auto & x : t) {sendTransform(x);}}
};
}

// ------------------------------------------------------------------------------------------------ message_filters
namespace message_filters
{
template<class M> class SimpleFilter
{
public:
  virtual ~SimpleFilter() {}
  template<class F> int registerCallback(F && f) {cbs_.push_back(rclcpp::MakeCallback<M>(std::forward<F>(f))); return 0;}
  template<class F, class T> int registerCallback(F f, T * t)
  {
    cbs_.push_back([f, t](const std::shared_ptr<const M> & m) {(t->*f)(m);}); return 0;
  }
  void signal(const std::shared_ptr<const M> & m) {for (auto & c : cbs_) {c(m);}}
private:
  std::vector<std::function<void(const std::shared_ptr<const M> &)>> cbs_;
};
template<class M> class Subscriber : public SimpleFilter<M>
{
public:
  Subscriber() {}
  template<class N>
  Subscriber(N && node, const std::string & topic, const rmw_qos_profile_t qos = rmw_qos_profile_default,
    rclcpp::SubscriptionOptions o = rclcpp::SubscriptionOptions()) {subscribe(node, topic, qos, o);}
  template<class N>
  void subscribe(N && node, const std::string & topic, const rmw_qos_profile_t qos = rmw_qos_profile_default,
    rclcpp::SubscriptionOptions o = rclcpp::SubscriptionOptions())
  {
    sub_ = node->template create_subscription<M>(topic, rclcpp::QoS(qos), [this](std::shared_ptr<const M> m) {this->signal(m);}, o);
  }
private:
  typename rclcpp::Subscription<M>::SharedPtr sub_;
};
namespace sync_policies
{
// as message_filters/sync_policies/exact_time.h: a tuple per stamp, complete ones are signalled and drop all older ones,
// more than queue_size pending tuples drop the oldest
template<class A, class B> class ExactTime
{
public:
  using M0 = A; using M1 = B;
  explicit ExactTime(uint32_t q) : queue_size_(q) {}
  using Fn = std::function<void(const std::shared_ptr<const A> &, const std::shared_ptr<const B> &)>;
  void add0(const std::shared_ptr<const A> & m) {const int64_t t = key(m); std::lock_guard<std::mutex> l(*mutex_); tuples_[t].first = m; check(t);}
  void add1(const std::shared_ptr<const B> & m) {const int64_t t = key(m); std::lock_guard<std::mutex> l(*mutex_); tuples_[t].second = m; check(t);}
  std::vector<Fn> cbs;
private:
  template<class P> static int64_t key(const P & m) {return static_cast<int64_t>(m->header.stamp.sec) * 1000000000 + m->header.stamp.nanosec;}
  void check(int64_t t)
  {
    auto it = tuples_.find(t);
    if (it->second.first && it->second.second) {
      const auto p = it->second;
      for (auto & c : cbs) {c(p.first, p.second);}
      tuples_.erase(tuples_.begin(), tuples_.upper_bound(t));
    }
    while (queue_size_ > 0 && tuples_.size() > queue_size_) {tuples_.erase(tuples_.begin());}
  }
  uint32_t queue_size_; std::shared_ptr<std::mutex> mutex_ = std::make_shared<std::mutex>();     // held while the callbacks run, as there
  std::map<int64_t, std::pair<std::shared_ptr<const A>, std::shared_ptr<const B>>> tuples_;
};
}
namespace sync_policies
{
// simplified: a message is paired with the closest waiting one of the other input, older waiting ones are dropped
template<class A, class B> class ApproximateTime
{
public:
  using M0 = A; using M1 = B;
  explicit ApproximateTime(uint32_t q) : queue_size_(q) {}
  using Fn = std::function<void(const std::shared_ptr<const A> &, const std::shared_ptr<const B> &)>;
  void add0(const std::shared_ptr<const A> & m) {std::lock_guard<std::mutex> l(*mutex_); a_[key(m)] = m; if (a_.size() > queue_size_) {a_.erase(a_.begin());} check();}
  void add1(const std::shared_ptr<const B> & m) {std::lock_guard<std::mutex> l(*mutex_); b_[key(m)] = m; if (b_.size() > queue_size_) {b_.erase(b_.begin());} check();}
  void setAgePenalty(double) {}
  void setMaxIntervalDuration(rclcpp::Duration d) {max_ = d.nanoseconds();}
  void setInterMessageLowerBound(int, rclcpp::Duration) {}
  std::vector<Fn> cbs;
private:
  template<class P> static int64_t key(const P & m) {return static_cast<int64_t>(m->header.stamp.sec) * 1000000000 + m->header.stamp.nanosec;}
  void check()
  {
    int64_t best = max_; auto i = a_.end(); auto j = b_.end();
    for (auto p = a_.begin(); p != a_.end(); ++p) {
      for (auto q = b_.begin(); q != b_.end(); ++q) {const int64_t d = std::abs(p->first - q->first); if (d <= best) {best = d; i = p; j = q;}}
    }
    if (i == a_.end()) {return;}
    const auto x = i->second; const auto y = j->second;
    a_.erase(a_.begin(), std::next(i)); b_.erase(b_.begin(), std::next(j));
    for (auto & c : cbs) {c(x, y);}
  }
  uint32_t queue_size_; std::shared_ptr<std::mutex> mutex_ = std::make_shared<std::mutex>(); int64_t max_ = std::numeric_limits<int64_t>::max();
  std::map<int64_t, std::shared_ptr<const A>> a_; std::map<int64_t, std::shared_ptr<const B>> b_;
};
}
template<class Policy> class Synchronizer
{
public:
  template<class F0, class F1> Synchronizer(const Policy & p, F0 & f0, F1 & f1) : p_(std::make_shared<Policy>(p)) {connectInput(f0, f1);}
  explicit Synchronizer(const Policy & p) : p_(std::make_shared<Policy>(p)) {}
  template<class F0, class F1> void connectInput(F0 & f0, F1 & f1)
  {
    auto p = p_;
    f0.registerCallback([p](std::shared_ptr<const typename Policy::M0> m) {p->add0(m);});
    f1.registerCallback([p](std::shared_ptr<const typename Policy::M1> m) {p->add1(m);});
  }
  template<class F> int registerCallback(F && f) {p_->cbs.push_back(typename Policy::Fn(std::forward<F>(f))); return 0;}
  template<class F, class T> int registerCallback(F f, T * t)
  {
    p_->cbs.push_back([f, t](const auto & a, const auto & b) {(t->*f)(a, b);}); return 0;
  }
private:
  std::shared_ptr<Policy> p_;
};
template<class A, class B> class TimeSynchronizer : public Synchronizer<sync_policies::ExactTime<A, B>>
{
  using P = sync_policies::ExactTime<A, B>;
public:
  explicit TimeSynchronizer(uint32_t q) : Synchronizer<P>(P(q)) {}
  template<class F0, class F1> TimeSynchronizer(F0 & f0, F1 & f1, uint32_t q) : Synchronizer<P>(P(q), f0, f1) {}
};
}

// ------------------------------------------------------------------------------------------------ harness side
namespace shim
{
// messages that arrive while the node is busy: each subscription keeps the last ones its history depth allows
template<class M> int deliver_burst(const std::string & topic, const std::vector<M> & ms)
{
  const auto subs = world().subs;
  int taken = 0;
  for (auto & w : subs) {
    auto s = w.lock();
    if (!s || s->topic != norm(topic) || s->type != std::type_index(typeid(M))) {continue;}
    for (size_t i = s->depth && s->depth < ms.size() ? ms.size() - s->depth : 0; i < ms.size(); i++) {
      static_cast<rclcpp::SubTyped<M> *>(s.get())->deliver(std::make_shared<const M>(ms[i])); taken++;
    }
  }
  return taken;
}
// delivers one message to every live subscription of that topic and type; returns how many took it
template<class M> int deliver(const std::string & topic, const M & m)
{
  auto p = std::make_shared<const M>(m);
  int n = 0;
  const auto subs = world().subs;
  for (auto & w : subs) {
    auto s = w.lock();
    if (!s || s->topic != norm(topic) || s->type != typeid(M)) {continue;}
    static_cast<rclcpp::SubTyped<M> *>(s.get())->deliver(p);
    n++;
  }
  return n;
}
template<class M> std::vector<std::shared_ptr<const M>> sent(const std::string & topic)
{
  std::vector<std::shared_ptr<const M>> r;
  for (auto & [t, a] : world().sent) {
    if (t == norm(topic)) {if (auto p = std::any_cast<std::shared_ptr<const M>>(&a)) {r.push_back(*p);}}
  }
  return r;
}
inline int fire_timers()
{
  int n = 0;
  const auto ts = world().timers;
  for (auto & w : ts) {auto t = w.lock(); if (t && !t->canceled) {t->fn(); n++;}}
  return n;
}
}
#endif

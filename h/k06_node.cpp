// K06: the EKF node through its topics: every order of initial poses, measurements and ticks, against a stacked filter.
#include <functional>
#include "mc/mc.hpp"
#define main ekf_localizer_main
#include "ekf_localizer/src/ekf_localizer_node.cpp"
#undef main
#include <nav_msgs/msg/odometry.hpp>
#include "ekf_msgs.hpp"
using ref::Mat; using ref::Vec;

struct Options {int steps = 4, pose_steps = 5, twist_steps = 2; double pose_gate = 10000, twist_gate = 10000; bool bias = true; double frequency = 50, q_yaw = 0.005, q_bias = 0.001, q_vx = 5, q_wz = 1; std::string frame = "map";};

static Eigen::Isometry3d Iso(double x, double y, double z, double roll, double pitch, double yaw)
{
  Eigen::Isometry3d t(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX()));
  t.translation() = Eigen::Vector3d(x, y, z);
  return t;
}
static Eigen::Isometry3d Iso(const geometry_msgs::msg::Pose & p)
{
  Eigen::Isometry3d t(Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z).normalized());
  t.translation() = Eigen::Vector3d(p.position.x, p.position.y, p.position.z);
  return t;
}
static Eigen::Vector3d Rpy(const Eigen::Isometry3d & t)
{
  const Eigen::Matrix3d r = t.linear();
  return Eigen::Vector3d(std::atan2(r(2, 1), r(2, 2)), std::atan2(-r(2, 0), std::hypot(r(2, 1), r(2, 2))), std::atan2(r(1, 0), r(0, 0)));
}
static const Eigen::Isometry3d kOdom = Iso(10, -4, 2.5, 0.05, -0.1, 2.2), kLate = Iso(-3, 7, 1, 0, 0, -1.3);

struct Filter1D
{
  double proc, x = 0, var = 0; bool ready = false; int64_t t = 0;
  void Init(double v, double variance, int64_t at) {x = v; var = variance; t = at; ready = true;}
  void Update(double v, double variance, int64_t at)
  {
    if (!ready) {Init(v, variance, at); return;}
    const double dt = (at - t) * 1e-9;
    var += proc * dt * proc * dt;
    const double g = var / (var + variance);
    x += g * (v - x); var *= 1 - g; t = at;
  }
};
// what the node is expected to do
struct Model
{
  Options o;
  std::unique_ptr<ref::StackedKF> kf;
  Filter1D z{1.0}, roll{0.1}, pitch{0.1};
  std::vector<std::pair<PoseMsg, int>> poses; std::vector<std::pair<TwistMsg, int>> twists;
  bool ticked = false; int64_t last = 0; bool unclear = false;
  void Heights(const Eigen::Isometry3d & t, const PoseMsg & m, bool init)
  {
    const Eigen::Vector3d rpy = Rpy(t); const auto & c = m.pose.covariance; const int64_t s = Nanoseconds(m.header.stamp);
    if (init) {z.Init(t.translation().z(), c[14], s); roll.Init(rpy(0), c[21], s); pitch.Init(rpy(1), c[28], s); return;}
    z.Update(t.translation().z(), c[14], s); roll.Update(rpy(0), c[21], s); pitch.Update(rpy(1), c[28], s);
  }
  void Initial(const PoseMsg & m, const Eigen::Isometry3d & frame)
  {
    const Eigen::Isometry3d t = frame * Iso(m.pose.pose);
    Vec x = Vec::Zero(6); x(0) = t.translation().x(); x(1) = t.translation().y(); x(2) = Rpy(t)(2);
    Vec d(6); d << m.pose.covariance[0], m.pose.covariance[7], m.pose.covariance[35], 1e-4, 1e-2, 1e-2;
    kf = std::make_unique<ref::StackedKF>(x, Mat(d.asDiagonal()), o.steps);
    Heights(t, m, true);
    poses.clear(); twists.clear();
  }
  template<class M> void Use(std::vector<std::pair<M, int>> & list, int steps, const std::vector<int> & at, int64_t now, double dt, double gate)
  {
    std::vector<std::pair<M, int>> next;
    for (auto & [m, uses] : list) {
      if (ref::Apply(*kf, Measure(m, steps), at, now, dt, gate) == ref::Verdict::kUnclear) {unclear = true; return;}
      if (uses > 1) {next.push_back({m, uses - 1});}
    }
    list = next;
  }
  bool Tick(int64_t now)
  {
    if (!kf || (ticked && now < last)) {return false;}
    const double dt = ticked ? (now - last) * 1e-9 : 1 / o.frequency;
    ticked = true; last = now;
    const Vec x = kf->At(0);
    const double yaw = x(2) + x(3), v = x(4);
    Vec n = x; n(0) += v * std::cos(yaw) * dt; n(1) += v * std::sin(yaw) * dt; n(2) = ref::WrapAngle(x(2) + x(5) * dt);
    Mat A = Mat::Identity(6, 6); A(0, 2) = A(0, 3) = -v * std::sin(yaw) * dt; A(1, 2) = A(1, 3) = v * std::cos(yaw) * dt;
    A(0, 4) = std::cos(yaw) * dt; A(1, 4) = std::sin(yaw) * dt; A(2, 5) = dt;
    Mat Q = Mat::Zero(6, 6);
    Q(2, 2) = std::pow(o.q_yaw * dt, 2); Q(3, 3) = o.bias ? std::pow(o.q_bias * dt, 2) : 0; Q(4, 4) = std::pow(o.q_vx * dt, 2); Q(5, 5) = std::pow(o.q_wz * dt, 2);
    kf->Predict(n, A, Q);
    Use(poses, o.pose_steps, kPoseAt, now, dt, o.pose_gate);
    if (!unclear) {Use(twists, o.twist_steps, kTwistAt, now, dt, o.twist_gate);}
    return true;
  }
  Eigen::Isometry3d Pose() const {const Vec x = kf->At(0); return Iso(x(0), x(1), z.x, roll.x, pitch.x, x(2) + x(3));}
};

static bool Finite(const nav_msgs::msg::Odometry & m)
{
  const auto & p = m.pose.pose; const auto & t = m.twist.twist;
  double s = p.position.x + p.position.y + p.position.z + p.orientation.x + p.orientation.y + p.orientation.z + p.orientation.w +
    t.linear.x + t.linear.y + t.linear.z + t.angular.x + t.angular.y + t.angular.z;
  for (int i = 0; i < 36; i++) {s += m.pose.covariance[i] * 0 + m.twist.covariance[i] * 0;}
  return std::isfinite(s);
}

struct Run
{
  mc::Ctx & ctx; Model model; int64_t now = 1000 * 1000000000LL; int index = 0; int late_calls = 0; std::string h;
  Run(mc::Ctx & c, const Options & o) : ctx(c) {model.o = o;}
  void Start(std::function<void()> body)
  {
    shim::reset();
    auto & w = shim::world(); auto & q = w.params; const Options & o = model.o;
    q["extend_state_step"] = int64_t(o.steps); q["pose_smoothing_steps"] = int64_t(o.pose_steps); q["twist_smoothing_steps"] = int64_t(o.twist_steps);
    q["pose_gate_dist"] = o.pose_gate; q["twist_gate_dist"] = o.twist_gate; q["enable_yaw_bias_estimation"] = o.bias; q["predict_frequency"] = o.frequency; q["pose_frame_id"] = o.frame;
    q["proc_stddev_yaw_c"] = o.q_yaw; q["proc_stddev_yaw_bias_c"] = o.q_bias; q["proc_stddev_vx_c"] = o.q_vx; q["proc_stddev_wz_c"] = o.q_wz;
    w.now_ns = now;
    w.lookup = [&](const std::string & target, const std::string & source) -> std::optional<geometry_msgs::msg::TransformStamped> {
        if (target != o.frame) {return std::nullopt;}
        if (source == target) {return Tf(Eigen::Isometry3d::Identity());}
        if (source == "odom") {return Tf(kOdom);}
        if (source == "late" && ++late_calls % 4 == 0) {return Tf(kLate);}
        return std::nullopt;
      };
    bool spun = false;
    w.on_spin = [&] {spun = true; body();};
    char * argv[] = {nullptr};
    ekf_localizer_main(0, argv);
    CHECK(spun, "the program does not spin its node");
  }
  static geometry_msgs::msg::TransformStamped Tf(const Eigen::Isometry3d & t)
  {
    geometry_msgs::msg::TransformStamped s; const Eigen::Quaterniond q(t.linear());
    s.transform.translation.x = t.translation().x(); s.transform.translation.y = t.translation().y(); s.transform.translation.z = t.translation().z();
    s.transform.rotation.x = q.x(); s.transform.rotation.y = q.y(); s.transform.rotation.z = q.z(); s.transform.rotation.w = q.w();
    return s;
  }
  void Quiet(const char * what)
  {
    CHECK(shim::sent<nav_msgs::msg::Odometry>("ekf_odom").empty() && shim::world().tf.empty(), "%s: published on %s", h.c_str(), what);
  }
  template<class M> void Send(const char * topic, const M & m)
  {
    const int n = shim::deliver(topic, m);
    CHECK(n == 1, "%s has %d subscriptions", topic, n);
    Quiet(topic);
  }
  void Initial(const std::string & frame, const Eigen::Isometry3d * t, PoseMsg m)
  {
    h += "initial(" + frame + ") ";
    m.header.frame_id = frame;
    Send("initialpose", m);
    if (t) {model.Initial(m, *t);}
    index++;
  }
  void Initial(const std::string & frame, const Eigen::Isometry3d * t)
  {
    const int k = index;
    PoseMsg m = MakePoseMsg(now, 5 + k, -3 + 0.5 * k, 1.5 + k, 0.03, -0.05, 0.7 - 0.9 * k);
    m.pose.covariance[0] = 0.3; m.pose.covariance[7] = 0.2; m.pose.covariance[14] = 0.6;
    Initial(frame, t, m);
  }
  void Pose(const PoseMsg & m) {h += "pose "; Send("in_pose_with_covariance", m); model.poses.push_back({m, model.o.pose_steps}); model.Heights(Iso(m.pose.pose), m, false); index++;}
  void Pose(int64_t age, const std::string & frame)
  {
    const int k = index;
    Pose(MakePoseMsg(now - age, 5.5 + 0.7 * k, -2 - 0.3 * k, 2 + 0.25 * k, 0.1 - 0.02 * k, 0.04 * k, 0.5 + 0.2 * k, frame));
  }
  void Twist(const TwistMsg & m) {h += "twist "; Send("in_twist_with_covariance", m); model.twists.push_back({m, model.o.twist_steps}); index++;}
  void Tick(int64_t step, bool finite_only = false)
  {
    h += mc::format("tick%+g ", step * 1e-9);
    now += step; shim::world().now_ns = now;
    shim::fire_timers();
    ctx.step();
    const auto odoms = shim::sent<nav_msgs::msg::Odometry>("ekf_odom");
    auto & w = shim::world();
    const auto tfs = w.tf;
    w.sent.clear(); w.tf.clear();
    const bool expected = model.Tick(now);
    if (!expected) {
      CHECK(odoms.empty() && tfs.empty(), "%s: published although %s", h.c_str(), model.kf ? "the clock went back" : "not initialised");
      ctx.count("silent_ticks", 1);
      return;
    }
    CHECK(odoms.size() == 1 && tfs.size() == 1, "%s: %zu odometry messages and %zu transforms in one tick", h.c_str(), odoms.size(), tfs.size());
    const auto & m = *odoms[0]; const auto & t = tfs[0];
    CHECK(Nanoseconds(m.header.stamp) == now && Nanoseconds(t.header.stamp) == now, "%s: stamps %lld and %lld, the time is %lld", h.c_str(),
      (long long)Nanoseconds(m.header.stamp), (long long)Nanoseconds(t.header.stamp), (long long)now);
    CHECK(m.header.frame_id == model.o.frame && t.header.frame_id == model.o.frame && m.child_frame_id == "base_link" && t.child_frame_id == "base_link",
      "%s: frames %s -> %s and %s -> %s", h.c_str(), m.header.frame_id.c_str(), m.child_frame_id.c_str(), t.header.frame_id.c_str(), t.child_frame_id.c_str());
    CHECK(Finite(m), "%s: the published values are not all finite", h.c_str());
    geometry_msgs::msg::Pose tp;
    tp.position.x = t.transform.translation.x; tp.position.y = t.transform.translation.y; tp.position.z = t.transform.translation.z; tp.orientation = t.transform.rotation;
    const Eigen::Isometry3d pose = Iso(m.pose.pose);
    const auto & q = m.pose.pose.orientation;
    CHECK(std::fabs(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w - 1) < 1e-9, "%s: orientation is not a unit quaternion", h.c_str());
    CHECK((pose.matrix() - Iso(tp).matrix()).norm() < 1e-9 * (1 + pose.translation().norm()), "%s: odometry and transform differ", h.c_str());
    ctx.count("published", 1);
    if (finite_only) {return;}
    if (model.unclear) {ctx.prune();}
    const Eigen::Isometry3d e = model.Pose();
    CHECK((pose.matrix() - e.matrix()).norm() < 1e-7 * (1 + e.translation().norm()), "%s: pose %s, rpy %s; expected %s, rpy %s", h.c_str(),
      mc::mstr(pose.translation().transpose()).c_str(), mc::mstr(Rpy(pose).transpose()).c_str(), mc::mstr(e.translation().transpose()).c_str(), mc::mstr(Rpy(e).transpose()).c_str());
    const Vec x = model.kf->At(0); const Mat P = model.kf->CovAt(0);
    const auto & tw = m.twist.twist;
    CHECK(std::fabs(tw.linear.x - x(4)) < 1e-8 * (1 + std::fabs(x(4))) && tw.linear.y == 0 && tw.linear.z == 0 && tw.angular.x == 0 && tw.angular.y == 0 && std::fabs(tw.angular.z - x(5)) < 1e-8 * (1 + std::fabs(x(5))),
      "%s: speed %g, yaw rate %g; expected %g, %g", h.c_str(), tw.linear.x, tw.angular.z, x(4), x(5));
    const int at[6] = {0, 1, 5, 0, 0, 5};
    for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {
        const double c = m.pose.covariance[6 * at[i] + at[j]];
        CHECK(std::fabs(c - P(i, j)) < 1e-8 * (1 + P.norm()), "%s: pose covariance (%d, %d) is %g, expected %g", h.c_str(), i, j, c, P(i, j));
    }}
    for (int i = 4; i < 6; i++) {for (int j = 4; j < 6; j++) {
        const double c = m.twist.covariance[6 * at[i] + at[j]] , want = P(i, j);
        CHECK(std::fabs(m.twist.covariance[6 * (i == 4 ? 0 : 5) + (j == 4 ? 0 : 5)] - want) < 1e-8 * (1 + P.norm()), "%s: twist covariance (%d, %d) is %g, expected %g", h.c_str(), i, j, c, want);
    }}
    ctx.state(mc::hash_double(mc::hash_double(model.poses.size() * 8 + model.twists.size(), x(0)), x(2)));
  }
  void Event(int e)
  {
    static const Eigen::Isometry3d identity = Eigen::Isometry3d::Identity();
    switch (e) {
      case 0: Tick(100000000); return;
      case 1: Twist(MakeTwistMsg(now - 100000000 * (index % 2), 1.5 + 0.25 * index, 0.3 - 0.2 * index)); return;
      case 2: Pose(100000000 * (index % 3), "map"); return;
      case 3: Initial(model.o.frame, &identity); return;
      case 4: Initial("odom", &kOdom); return;
      case 5: Tick(-50000000); return;
      case 6: Initial("nowhere", nullptr); return;
      case 7: Initial("/odom", &kOdom); return;
      case 8: Pose(0, "%s%n%d"); return;
      case 9: Initial("late", &kLate); return;
      case 10: Tick(0); return;
      case 11: Initial("", nullptr); return;
    }
  }
};

MC_SCENARIO(histories)
{
  Options o;
  Run r(ctx, o);
  const int depth = mc::tier(4, 5);
  r.Start([&] {
      for (int i = 0; i < depth; i++) {r.Event(ctx.choose(12));}
      r.Tick(100000000);
    });
  ctx.note("%s", r.h.c_str()); ctx.outcome(mc::hash_str(r.h));
}
// after an initial pose, longer, with the events of ordinary operation
MC_SCENARIO(operation)
{
  Options o; o.steps = ctx.pick({1, 3, 8});
  Run r(ctx, o);
  const int depth = mc::tier(6, 9);
  r.Start([&] {
      r.Event(3 + ctx.choose(2));
      for (int i = 0; i < depth; i++) {r.Event(ctx.choose(4 - (i < 2)));}
      r.Tick(100000000);
    });
  ctx.note("%s", r.h.c_str()); ctx.outcome(mc::mix(o.steps, mc::hash_str(r.h)));
}
// long runs: nothing drifts away from the model, whatever comes how often, and a new initial pose starts afresh at any time
MC_SCENARIO(long_runs)
{
  Options o; o.steps = ctx.pick({2, 6}); o.pose_steps = ctx.pick({1, 5});
  const int pose_every = ctx.pick({0, 1, 7, 60}), twist_every = ctx.pick({0, 1, 4}), again = ctx.pick({0, 90}), age = ctx.choose(2), ticks = mc::tier(400, 4000);
  Run r(ctx, o);
  r.Start([&] {
      r.Event(3);
      for (int k = 0; k < ticks; k++) {
        if (again && k % again == again - 1) {r.Event(3 + k % 4 / 2);}
        const double t = k * 0.02, yaw = 0.4 * t;
        if (twist_every && k % twist_every == 0) {r.Twist(MakeTwistMsg(r.now, 2 + std::sin(0.1 * t), 0.4));}
        if (pose_every && k % pose_every == 0) {r.Pose(MakePoseMsg(r.now - age * 20000000, 5 * std::sin(yaw), -5 * std::cos(yaw), 1 + 0.1 * t, 0.02 * std::sin(t), 0.03, std::remainder(yaw, 2 * M_PI)));}
        r.Tick(20000000 + (k % 11 == 5 ? 7000000 : 0));
        if (r.h.size() > 300) {r.h = mc::format("... at tick %d: ", k);}
      }
    });
  ctx.outcome(mc::mix(mc::hash_str(r.h), mc::mix(o.steps * 100 + o.pose_steps, pose_every * 1000 + twist_every * 100 + again + age)));
}
// the parameters
MC_SCENARIO(parameters)
{
  Options o;
  const int set = ctx.choose(4);   // the pairs
  o.steps = ctx.pick({2, 50}); o.pose_steps = set & 1 ? 3 : 1; o.twist_steps = set & 2 ? 4 : 1; o.bias = set == 1 || set == 2; o.frequency = set < 2 ? 10 : 125;
  if (ctx.flag()) {o.q_yaw = 0.2; o.q_bias = 0.3; o.q_vx = 0.7; o.q_wz = 0.4;}
  o.frame = set % 3 ? "map" : "world"; o.pose_gate = ctx.pick({10000., 1.}); o.twist_gate = ctx.pick({10000., 3.});
  Run r(ctx, o);
  const int order = ctx.choose(4);
  r.Start([&] {
      r.Event(3);
      r.Tick(20000000);
      if (order & 1) {r.Event(2); r.Event(1);} else {r.Event(1); r.Event(2);}
      r.Tick(20000000);
      if (order & 2) {r.Event(1); r.Event(2);}
      r.Tick(30000000);
      r.Tick(500000000);
      r.Tick(20000000);
    });
  ctx.outcome(mc::mix(mc::hash_str(r.h), mc::mix(o.steps * 100 + o.pose_steps * 10 + o.twist_steps, o.bias + 2 * (o.frequency > 50) + 4 * (o.pose_gate > 1) + 8 * (o.twist_gate > 3) + 16 * (o.frame == "map"))));
  ctx.note("%s", r.h.c_str());
}
// every heading of the initial pose and of its frame
MC_SCENARIO(initial_headings)
{
  Options o;
  Run r(ctx, o);
  const double yaw = ctx.range(-6, 6) * 0.52, pitch = ctx.pick({0., 0.3, -0.2}), roll = ctx.pick({0., -0.3, 0.4});
  const int k = ctx.choose(3);
  static const Eigen::Isometry3d identity = Eigen::Isometry3d::Identity();
  const Eigen::Isometry3d * t = k == 0 ? &identity : k == 1 ? &kOdom : &kLate;
  const bool before = ctx.flag();
  r.Start([&] {
      if (before) {r.Event(3); r.Event(2); r.Event(1); r.Tick(100000000);}
      r.Initial(k == 0 ? "map" : k == 1 ? "odom" : "late", t, MakePoseMsg(r.now, 3, 20, 7, roll, pitch, yaw));
      r.Tick(100000000); r.Event(2); r.Event(1); r.Tick(100000000);
    });
  ctx.outcome(mc::hash_double(mc::hash_double(mc::hash_double(k * 2 + before, yaw), roll), pitch));
}
// faulty measurements: whatever they contain, what is published stays finite
MC_SCENARIO(faults)
{
  Options o;
  Run r(ctx, o);
  const double v = ctx.pick({kNan, kInf, -kInf, 0., -1., 1e300, -1e-300});
  const int which = ctx.choose(50), when = ctx.choose(4);
  PoseMsg p; TwistMsg t; bool pose = true;
  r.Start([&] {
      if (when > 0) {r.Event(3);}
      if (when > 1) {r.Tick(100000000);}
      if (when > 2) {r.Event(2); r.Event(1); r.Tick(100000000);}
      p = MakePoseMsg(r.now, 6, -2, 2, 0.1, 0, 0.5); t = MakeTwistMsg(r.now, 1, 0.1);
      if (which < 36) {p.pose.covariance[which] = v;}
      auto & q = p.pose.pose;
      switch (which) {
        case 36: q.position.x = v; break;
        case 37: q.position.y = v; break;
        case 38: q.position.z = v; break;
        case 39: q.orientation.x = v; break;
        case 40: q.orientation.y = v; break;
        case 41: q.orientation.z = v; break;
        case 42: q.orientation.w = v; break;
        case 43: q.orientation.x = q.orientation.y = q.orientation.z = q.orientation.w = v; break;
        case 44: pose = false; t.twist.twist.linear.x = v; break;
        case 45: pose = false; t.twist.twist.angular.z = v; break;
        case 46: pose = false; t.twist.covariance[0] = v; break;
        case 47: pose = false; t.twist.covariance[5] = v; break;
        case 48: pose = false; t.twist.covariance[35] = v; break;
        case 49: for (int i : {14, 21, 28}) {p.pose.covariance[i] = v;} break;
      }
      r.h += mc::format("fault %d = %g: ", which, v);
      if (pose) {r.Send("in_pose_with_covariance", p);} else {r.Send("in_twist_with_covariance", t);}
      if (when == 0) {r.Event(3);}
      const bool again = ctx.flag();
      if (again && pose) {r.Send("in_pose_with_covariance", p);}
      // finite values: heights of sane messages are compared against bounds only
      r.Tick(ctx.pick({0, 100000000}), true);
      r.Event(2); r.Event(1);
      r.Tick(100000000, true);
      r.Tick(100000000, true);
    });
  ctx.outcome(mc::hash_double(which * 4 + when, v)); ctx.note("%s", r.h.c_str());
}
MC_MAIN

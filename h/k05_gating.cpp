// K05: every class of message stamp, content and covariance, against every kind of tick.
#include "mc/mc.hpp"
#include "ekf_msgs.hpp"
#include "ekf_localizer/pose_measurement.hpp"
#include "ekf_localizer/twist_measurement.hpp"
using ref::Mat; using ref::Vec;

struct Rig
{
  rclcpp::Node node{"ekf"};
  Warning warning{&node};
  int N;
  std::shared_ptr<TimeDelayKalmanFilter> ekf;
  ref::StackedKF expected;
  Rig(int steps, double yaw, double scale = 1)
  : N(steps), ekf(std::make_shared<TimeDelayKalmanFilter>(X(yaw), P(scale), steps)), expected(X(yaw), P(scale), steps)
  {
    // a past in which every step differs, and cross covariances
    Mat A = Mat::Identity(6, 6); A(0, 4) = 0.5; A(1, 2) = 0.25; A(2, 5) = 0.5;
    Mat Q = Mat::Zero(6, 6); Q(2, 2) = 0.05 * scale; Q(3, 3) = 0.01 * scale; Q(4, 4) = 0.1 * scale; Q(5, 5) = 0.02 * scale;
    for (int i = 0; i < steps + 1; i++) {
      Vec n = ekf->getLatestX(); n(0) += 0.25 * n(4); n(1) += 0.1; n(4) += 0.125; n(5) += 0.05;
      ekf->predict(n, A, Q); expected.Predict(n, A, Q);
    }
  }
  static Vec X(double yaw) {Vec x(6); x << 1, -2, yaw, 0.02, 1, 0.1; return x;}
  static Mat P(double s) {Mat p = Mat::Identity(6, 6) * 0.5; p(0, 1) = p(1, 0) = 0.1; p(0, 4) = p(4, 0) = 0.2; p(4, 5) = p(5, 4) = -0.1; return p * s;}
};
static bool Finite(const Rig & r)
{
  for (int d = 0; d < r.N; d++) {if (!r.ekf->getX(d).allFinite()) {return false;}}
  return r.ekf->getLatestP().allFinite();
}
static void Compare(mc::Ctx & ctx, const Rig & r, const std::string & what)
{
  CHECK(Finite(r), "%s: the estimate is not finite: %s", what.c_str(), mc::mstr(r.ekf->getLatestX().transpose()).c_str());
  for (int d = 0; d < r.N; d++) {
    CHECK((r.ekf->getX(d) - r.expected.At(d)).norm() < 1e-8 * (1 + r.expected.x.norm()), "%s: estimate %d steps ago is %s, expected %s", what.c_str(), d, mc::mstr(r.ekf->getX(d).transpose()).c_str(), mc::mstr(r.expected.At(d).transpose()).c_str());
  }
  CHECK((r.ekf->getLatestP() - r.expected.CovAt(0)).norm() < 1e-8 * (1 + r.expected.P.norm()), "%s: covariance %s, expected %s", what.c_str(), mc::mstr(r.ekf->getLatestP()).c_str(), mc::mstr(r.expected.CovAt(0)).c_str());
}
template<class Msg> static void Deliver(Rig & r, const Msg & m, int64_t now, double dt, double gate, int S);
template<> void Deliver(Rig & r, const PoseMsg & m, int64_t now, double dt, double gate, int S)
{
  PoseMeasurement p(r.warning, "map", r.N, gate, S);
  p.Push(std::make_shared<PoseMsg>(m));
  p.Update(r.ekf, rclcpp::Time(now, RCL_ROS_TIME), dt);
}
template<> void Deliver(Rig & r, const TwistMsg & m, int64_t now, double dt, double gate, int S)
{
  TwistMeasurement p(r.warning, r.N, gate, S);
  p.Push(std::make_shared<TwistMsg>(m));
  p.Update(r.ekf, rclcpp::Time(now, RCL_ROS_TIME), dt);
}
static const std::vector<int> & At(const PoseMsg &) {return kPoseAt;}
static const std::vector<int> & At(const TwistMsg &) {return kTwistAt;}
// well-defined outcome: compare with the reference
template<class Msg> static void Exact(mc::Ctx & ctx, Rig & r, const Msg & m, int64_t now, double dt, double gate, int S, const std::string & what)
{
  const auto v = ref::Apply(r.expected, Measure(m, S), At(m), now, dt, gate);
  if (v == ref::Verdict::kUnclear) {ctx.prune();}
  Deliver(r, m, now, dt, gate, S);
  Compare(ctx, r, what + (v == ref::Verdict::kUsed ? " (to be used)" : " (to be ignored)"));
  ctx.step(); ctx.outcome(mc::mix(mc::hash_str(what), v == ref::Verdict::kUsed));
  ctx.count(v == ref::Verdict::kUsed ? "used" : "ignored", 1);
}

static int64_t PickAge(mc::Ctx & ctx, double dt, int N, std::string & h)
{
  // in thousandths of a tick, and absolute ages
  const int kind = ctx.choose(2);
  int64_t age;
  if (kind == 0) {
    const double steps = ctx.pick({-2., -0.3, 0., 0.1, 0.4, 0.499999, 0.500001, 0.6, 1., 1.4, 1.6, 2., N - 1.6, N - 1.4, N - 1., N - 0.6, N - 0.5001, N - 0.4999, N - 0.4, double(N), N + 0.4, N + 1., 2. * N});
    age = std::llround(steps * dt * 1e9);
  } else {
    age = ctx.pick(std::vector<int64_t>{1, -1, 1000, 1000000000LL, -1000000000LL, 3600 * 1000000000LL, 1000000 * 1000000000LL, 2000000000LL * 1000000000LL, 16777217LL * 20000000, 4294967296LL * 20000000, 2147483648LL * 20000000, -140000000LL * 1000000000LL});
  }
  h += mc::format("age %lld ns, tick %g s", static_cast<long long>(age), dt);
  return age;
}
template<class Msg> static Msg Make(int64_t stamp);
template<> PoseMsg Make(int64_t stamp) {return MakePoseMsg(stamp, 2, -1, 5, 0.1, -0.2, 0.6);}
template<> TwistMsg Make(int64_t stamp) {return MakeTwistMsg(stamp, 2.5, -0.3);}
template<class Msg> static void Delays(mc::Ctx & ctx)
{
  shim::reset();
  const int N = ctx.pick({1, 2, 3, 5});
  const double dt = ctx.pick({0., 1e-9, 1e-3, 0.02, 0.3, 1., 10.});
  std::string h = mc::format("%d steps, ", N);
  const int64_t now = 2000000000LL * 1000000000LL;
  const int64_t age = PickAge(ctx, dt, N, h);
  Rig r(N, 0.2);
  const Msg m = Make<Msg>(now - age);
  Exact(ctx, r, m, now, dt, 10000, ctx.pick({1, 5}), h);
}
MC_SCENARIO(pose_delays) {Delays<PoseMsg>(ctx);}
MC_SCENARIO(twist_delays) {Delays<TwistMsg>(ctx);}
// the nearest step for every age in nanoseconds around the middle of two steps
MC_SCENARIO(rounding)
{
  shim::reset();
  const double dt = ctx.pick({10., 1., 0.02});
  const int step = ctx.range(0, 4), off = ctx.pick({-1000, -100, -10, -3, -2, -1, 1, 2, 3, 10, 100, 1000});
  const int64_t now = 1700000000LL * 1000000000LL, age = std::llround((step + 0.5) * dt * 1e9) + off;
  Rig r(5, 0.2);
  Exact(ctx, r, Make<TwistMsg>(now - age), now, dt, 10000, 2, mc::format("age %lld ns, tick %g s", static_cast<long long>(age), dt));
}
// headings on both sides of the half turn
MC_SCENARIO(headings)
{
  shim::reset();
  const double state = ctx.pick({0., 1.5, -1.5, 3.1, -3.1, M_PI, -M_PI, 3.14159, 2.5, -2.5});
  const double measured = ctx.pick({0., 1.4, -1.4, 3.1, -3.1, 3.14159, -3.14159, 2.6, -2.6, 3.0, -3.0});
  const int N = ctx.pick({1, 3}), d = ctx.choose(N);
  const double gate = ctx.pick({10000., 1.5});
  const double roll = ctx.pick({0., 0.3}), pitch = ctx.pick({0., -0.4});
  Rig r(N, state);
  const int64_t now = 1000000000LL * 1000;
  const Vec e = r.expected.At(d);
  if (std::fabs(std::fabs(ref::WrapAngle(measured - e(2))) - M_PI) < 1e-9) {ctx.prune();}   // both ways are equally short
  PoseMsg m = MakePoseMsg(now - d * 1000000000LL, e(0) + 0.1, e(1) - 0.1, 0, roll, pitch, measured);
  if (ctx.flag()) {auto & q = m.pose.pose.orientation; q.x *= -1; q.y *= -1; q.z *= -1; q.w *= -1;}   // the same rotation
  Exact(ctx, r, m, now, 1.0, gate, 2, mc::format("heading %g, measured %g, delay %d, gate %g, roll %g, pitch %g", state, measured, d, gate, roll, pitch));
}
MC_SCENARIO(gates)
{
  shim::reset();
  const int N = 3, d = ctx.choose(N);
  const double gate = ctx.pick({0., 0.5, 1., 3., 10.});
  Rig r(N, 0.2);
  const int64_t now = 1000000000LL * 1000;
  const Vec e = r.expected.At(d);
  const double f = ctx.pick({-9., -2.9, -0.8, 0., 0.3, 1.1, 3.2, 8., 30.});
  if (ctx.flag()) {
    const int axis = ctx.choose(3);
    PoseMsg m = MakePoseMsg(now - d * 1000000000LL, e(0) + (axis == 0 ? f : 0.01), e(1) + (axis == 1 ? f : -0.02), 0, 0, 0, e(2) + (axis == 2 ? f / 10 : 0.03));
    Exact(ctx, r, m, now, 1.0, gate, 3, mc::format("pose %g along %d, delay %d, gate %g", f, axis, d, gate));
  } else {
    const int axis = ctx.choose(2);
    TwistMsg m = MakeTwistMsg(now - d * 1000000000LL, e(4) + (axis == 0 ? f : 0.01), e(5) + (axis == 1 ? f : -0.02));
    Exact(ctx, r, m, now, 1.0, gate, 3, mc::format("twist %g along %d, delay %d, gate %g", f, axis, d, gate));
  }
}
// its own covariance entries: one entry of the message's matrix at a time
MC_SCENARIO(covariance_entries)
{
  shim::reset();
  const int entry = ctx.choose(36); const double v = ctx.pick({0.07, -0.05, 3.});
  const int S = ctx.pick({1, 4});
  Rig r(3, 0.2);
  const int64_t now = 1000000000LL * 1000;
  if (ctx.flag()) {
    PoseMsg m = Make<PoseMsg>(now - 1000000000LL);
    m.pose.covariance[entry] += v; if (entry % 7) {m.pose.covariance[entry % 6 * 6 + entry / 6] += v;}
    Exact(ctx, r, m, now, 1.0, 10000, S, mc::format("pose covariance entry %d + %g", entry, v));
  } else {
    TwistMsg m = Make<TwistMsg>(now - 1000000000LL);
    m.twist.covariance[entry] += v; if (entry % 7) {m.twist.covariance[entry % 6 * 6 + entry / 6] += v;}
    Exact(ctx, r, m, now, 1.0, 10000, S, mc::format("twist covariance entry %d + %g", entry, v));
  }
}
// non-finite measured values are ignored
MC_SCENARIO(non_finite_values)
{
  shim::reset();
  const double v = ctx.pick({kNan, kInf, -kInf});
  const int64_t now = 1000000000LL * 1000;
  Rig r(3, 0.2);
  const int64_t stamp = now - ctx.choose(3) * 1000000000LL;
  const int which = ctx.choose(6);
  if (which < 4) {
    PoseMsg m = Make<PoseMsg>(stamp);
    if (which == 0) {m.pose.pose.position.x = v;}
    if (which == 1) {m.pose.pose.position.y = v;}
    if (which == 2) {m.pose.pose.orientation.z = kNan;}
    if (which == 3) {m.pose.pose.orientation.w = kNan;}
    Deliver(r, m, now, 1.0, ctx.pick({10000., kInf}), 2);
  } else {
    TwistMsg m = Make<TwistMsg>(stamp);
    if (which == 4) {m.twist.twist.linear.x = v;}
    if (which == 5) {m.twist.twist.angular.z = v;}
    Deliver(r, m, now, 1.0, ctx.pick({10000., kInf}), 2);
  }
  Compare(ctx, r, mc::format("value %g in component %d", v, which));
  ctx.step(); ctx.outcome(which * 4 + (v > 0) + 2 * std::isnan(v));
}
// whatever else is wrong with a message: never a crash, never a non-finite estimate; frame names are only text
MC_SCENARIO(anything)
{
  shim::reset();
  const int64_t now = 1000000000LL * 1000;
  const double scale = ctx.pick({1., 1e-12, 1e12});
  Rig r(ctx.pick({1, 3}), 0.2, scale);
  const double dt = ctx.pick({0., 0.02, 1.});
  const int64_t stamp = now - ctx.pick(std::vector<int64_t>{0, 1000000000LL, -5000000000LL, now});
  const double gate = ctx.pick({0., 10000., kNan});
  const double v = ctx.pick({kNan, kInf, -kInf, 0., -1., 1e308, -1e308, 1e-320, 1e155});
  const int which = ctx.choose(10);
  PoseMsg p = Make<PoseMsg>(stamp); TwistMsg t = Make<TwistMsg>(stamp);
  auto & q = p.pose.pose.orientation;
  switch (which) {
    case 0: p.pose.pose.position.x = v; break;
    case 1: q.x = v; break;
    case 2: q.x = q.y = q.z = q.w = v; break;
    case 3: p.pose.covariance[0] = v; break;
    case 4: for (double & c : p.pose.covariance) {c = v;} break;
    case 5: p.pose.covariance[35] = v; p.pose.pose.position.z = v; break;
    case 6: t.twist.twist.linear.x = v; break;
    case 7: t.twist.covariance[0] = v; break;
    case 8: for (double & c : t.twist.covariance) {c = v;} break;
    default: q.w = v; p.pose.covariance[5] = v; break;
  }
  // cases in which the covariance cancels the estimate's exactly are not valid covariances; they may do anything finite
  for (int i = 0; i < 2; i++) {
    if (which >= 6 && which <= 8) {Deliver(r, t, now, dt, gate, 2);} else {Deliver(r, p, now, dt, gate, 2);}
  }
  CHECK(Finite(r), "case %d, value %g, gate %g, tick %g: the estimate is not finite", which, v, gate, dt);
  ctx.step(2); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_SCENARIO(frame_names)
{
  shim::reset();
  Rig r(3, 0.2);
  const int64_t now = 1000000000LL * 1000;
  const std::string frame = ctx.pick(std::vector<std::string>{"", "/", "map", "/map", "base_link", "%s%s%s%s%s%s%s%s", "%n%n%n%n", "{}", "{0}{1}", std::string(3000, 'x'), "%1$s", "\xff\xfe"});
  const int d = ctx.choose(4);
  if (ctx.flag()) {
    PoseMsg m = Make<PoseMsg>(now - d * 1000000000LL); m.header.frame_id = frame;
    Exact(ctx, r, m, now, 1.0, 10000, 2, "pose with frame " + frame.substr(0, 20));
  } else {
    TwistMsg m = Make<TwistMsg>(now - d * 1000000000LL); m.header.frame_id = frame;
    Exact(ctx, r, m, now, 1.0, 10000, 2, "twist with frame " + frame.substr(0, 20));
  }
}
MC_MAIN

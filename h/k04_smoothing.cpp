// K04: every message is used in exactly its next S ticks, in order, with its covariance times S, until a reset.
#include <deque>
#include "mc/mc.hpp"
#include "ekf_msgs.hpp"
#include "ekf_localizer/aged_message_queue.hpp"
#include "ekf_localizer/pose_measurement.hpp"
#include "ekf_localizer/twist_measurement.hpp"
using ref::Mat; using ref::Vec;

// the queue itself: one round pops as many messages as there are
MC_SCENARIO(queue)
{
  const int S = ctx.range(1, 4);
  AgedMessageQueue<int> q(S);
  std::vector<std::pair<int, int>> model;   // message, uses left
  std::string h = mc::format("S = %d: ", S);
  for (int i = 0; i < mc::tier(9, 11); i++) {
    const int op = ctx.choose(3);
    if (op == 0) {q.push(100 + i); model.push_back({100 + i, S}); h += mc::format("push(%d) ", 100 + i);}
    if (op == 1) {
      h += "round: ";
      const size_t n = q.size();
      CHECK(n == model.size(), "%s: size %zu, expected %zu", h.c_str(), n, model.size());
      std::vector<std::pair<int, int>> next;
      for (size_t k = 0; k < n; k++) {
        const int got = q.pop();
        h += mc::format("%d ", got);
        CHECK(got == model[k].first, "%s: expected %d", h.c_str(), model[k].first);
        if (--model[k].second > 0) {next.push_back(model[k]);}
      }
      model = next;
    }
    if (op == 2) {q.clear(); model.clear(); h += "clear ";}
    CHECK(q.size() == model.size(), "%s: size %zu, expected %zu", h.c_str(), q.size(), model.size());
    uint64_t st = S; for (auto & m : model) {st = mc::mix(st, (i + 100 - m.first) * 16 + m.second);}
    ctx.step(); ctx.state(st);
  }
  ctx.note("%s", h.c_str()); ctx.outcome(mc::hash_str(h));
}

// many messages, long lives
MC_SCENARIO(long_queue)
{
  const int S = ctx.pick({1, 7, 100, 1001}), burst = ctx.pick({1, 40, 300}), every = ctx.pick({1, 50});
  AgedMessageQueue<std::vector<int>> q(S);
  std::deque<std::pair<int, int>> model;
  int pushed = 0;
  for (int round = 0; round < std::min(1100, 3 * S + 20); round++) {
    if (round % every == 0 && model.size() < 1500) {for (int k = 0; k < burst; k++) {q.push(std::vector<int>(3, pushed)); model.push_back({pushed++, S});}}
    const size_t n = q.size();
    CHECK(n == model.size(), "S = %d, round %d: size %zu, expected %zu", S, round, n, model.size());
    for (size_t k = 0; k < n; k++) {
      const auto got = q.pop();
      CHECK(got == std::vector<int>(3, model.front().first), "S = %d, round %d: message %zu is %d, expected %d", S, round, k, got[0], model.front().first);
      auto f = model.front(); model.pop_front();
      if (--f.second > 0) {model.push_back(f);}
    }
    if (round % 257 == 256) {q.clear(); model.clear();}
    ctx.step();
  }
  ctx.outcome(mc::mix(mc::mix(S, burst), every));
}

template<class Msg> struct Kind;
template<> struct Kind<PoseMsg>
{
  static constexpr const char * name = "pose";
  static const std::vector<int> & at() {return kPoseAt;}
  static PoseMsg Make(int64_t stamp, int which, int index)
  {
    PoseMsg m = MakePoseMsg(stamp, which ? 3.5 + 0.25 * index : 1.2, which ? -1 : 0.3 * index, 0, 0, 0, which ? 0.4 : -0.2);
    if (which) {for (double & c : m.pose.covariance) {c *= 0.125;}}
    return m;
  }
  static PoseMeasurement Module(const Warning & w, int N, double gate, int S) {return PoseMeasurement(w, "map", N, gate, S);}
};
template<> struct Kind<TwistMsg>
{
  static constexpr const char * name = "twist";
  static const std::vector<int> & at() {return kTwistAt;}
  static TwistMsg Make(int64_t stamp, int which, int index)
  {
    TwistMsg m = MakeTwistMsg(stamp, which ? 2.5 + 0.25 * index : 0.5, which ? 0.5 : -0.1 * index);
    if (which) {for (double & c : m.twist.covariance) {c *= 0.125;}}
    return m;
  }
  static TwistMeasurement Module(const Warning & w, int N, double gate, int S) {return TwistMeasurement(w, N, gate, S);}
};
template<class Msg> static void Module(mc::Ctx & ctx, const std::vector<int> & smoothing, const std::vector<double> & gates, int depth)
{
  shim::reset();
  rclcpp::Node node("ekf");
  const Warning warning(&node);
  const int S = ctx.pick(smoothing), N = mc::tier(7, 9);
  const double gate = ctx.pick(gates);
  auto module = Kind<Msg>::Module(warning, N, gate, S);
  Vec x0(6); x0 << 1, 0, 0.1, 0.02, 1, 0.1;
  Mat P0 = Mat::Identity(6, 6) * 0.5; P0(0, 1) = P0(1, 0) = 0.1; P0(4, 5) = P0(5, 4) = -0.05; P0(0, 4) = P0(4, 0) = 0.2;
  auto ekf = std::make_shared<TimeDelayKalmanFilter>(x0, P0, N);
  ref::StackedKF expected(x0, P0, N);
  Mat A = Mat::Identity(6, 6); A(0, 4) = 1; A(2, 5) = 1; A(1, 2) = 1;
  Mat Q = Mat::Zero(6, 6); Q(2, 2) = 0.05; Q(3, 3) = 0.01; Q(4, 4) = 0.1; Q(5, 5) = 0.02;
  std::vector<std::pair<Msg, int>> pending;
  int64_t now = 1000000000LL;
  std::string h = mc::format("%s, S = %d, gate %g: ", Kind<Msg>::name, S, gate);
  int index = 0;
  for (int i = 0; i < depth; i++) {
    const int op = ctx.choose(4);
    if (op < 2) {
      const Msg m = Kind<Msg>::Make(now, op, index++);
      module.Push(std::make_shared<Msg>(m)); pending.push_back({m, S});
      h += mc::format("message%d ", op);
    } else if (op == 2) {
      now += 1000000000LL;
      const Vec next = A * ekf->getLatestX();
      ekf->predict(next, A, Q); expected.Predict(next, A, Q);
      module.Update(ekf, rclcpp::Time(now, RCL_ROS_TIME), 1.0);
      std::vector<std::pair<Msg, int>> kept;
      h += "tick(";
      for (auto & p : pending) {
        const auto v = ref::Apply(expected, Measure(p.first, S), Kind<Msg>::at(), now, 1.0, gate);
        if (v == ref::Verdict::kUnclear) {ctx.prune();}
        h += v == ref::Verdict::kUsed ? "u" : "i";
        if (--p.second > 0) {kept.push_back(p);}
      }
      h += ") ";
      pending = kept;
      for (int d = 0; d < N; d++) {
        CHECK((ekf->getX(d) - expected.At(d)).norm() < 1e-8, "%s: estimate %d steps ago is %s, expected %s", h.c_str(), d, mc::mstr(ekf->getX(d).transpose()).c_str(), mc::mstr(expected.At(d).transpose()).c_str());
      }
      CHECK((ekf->getLatestP() - expected.CovAt(0)).norm() < 1e-8, "%s: covariance %s, expected %s", h.c_str(), mc::mstr(ekf->getLatestP()).c_str(), mc::mstr(expected.CovAt(0)).c_str());
    } else {
      module.Clear(); pending.clear(); h += "reset ";
    }
    ctx.step();
    uint64_t st = S; for (auto & p : pending) {st = mc::mix(st, p.second);} ctx.state(mc::mix(st, pending.size()));
  }
  ctx.note("%s", h.c_str()); ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(pose_messages) {Module<PoseMsg>(ctx, {1, 2, 3, 5}, {10000.}, mc::tier(6, 8));}
MC_SCENARIO(twist_messages) {Module<TwistMsg>(ctx, {1, 2, 3, 5}, {10000.}, mc::tier(6, 8));}
// with a narrow gate the order of use decides what is accepted
MC_SCENARIO(pose_order) {Module<PoseMsg>(ctx, {1, 2, 4}, {0.9, 1.6, 2.5}, mc::tier(6, 8));}
MC_SCENARIO(twist_order) {Module<TwistMsg>(ctx, {1, 2, 4}, {0.9, 1.6, 2.5}, mc::tier(6, 8));}
// as many messages as a burst of a fast sensor, for as many ticks as they live
template<class Msg> static void Burst(mc::Ctx & ctx)
{
  shim::reset();
  rclcpp::Node node("ekf");
  const Warning warning(&node);
  const int S = ctx.pick({1, 5, 11}), n = ctx.pick({1, 40}), again = ctx.pick({0, 4}), N = mc::tier(6, 20);
  auto module = Kind<Msg>::Module(warning, N, 10000., S);
  Vec x0(6); x0 << 1, 0, 0.1, 0.02, 1, 0.1;
  Mat P0 = Mat::Identity(6, 6) * 0.5;
  auto ekf = std::make_shared<TimeDelayKalmanFilter>(x0, P0, N);
  ref::StackedKF expected(x0, P0, N);
  Mat A = Mat::Identity(6, 6); A(0, 4) = 0.1; A(2, 5) = 0.1;
  Mat Q = Mat::Identity(6, 6) * 0.01;
  std::vector<std::pair<Msg, int>> pending;
  int64_t now = 1000000000LL;
  for (int tick = 0; tick < S + 6; tick++) {
    if (tick == 0 || tick == again) {for (int i = 0; i < n; i++) {const Msg m = Kind<Msg>::Make(now, i % 3 == 1, i % 7); module.Push(std::make_shared<Msg>(m)); pending.push_back({m, S});}}
    now += 100000000LL;
    const Vec next = A * ekf->getLatestX();
    ekf->predict(next, A, Q); expected.Predict(next, A, Q);
    module.Update(ekf, rclcpp::Time(now, RCL_ROS_TIME), 0.1);
    std::vector<std::pair<Msg, int>> kept;
    for (auto & p : pending) {
      if (ref::Apply(expected, Measure(p.first, S), Kind<Msg>::at(), now, 0.1, 10000.) == ref::Verdict::kUnclear) {ctx.prune();}
      if (--p.second > 0) {kept.push_back(p);}
    }
    pending = kept;
    CHECK((ekf->getLatestX() - expected.At(0)).norm() < 1e-6, "%s, S = %d, %d messages, tick %d: estimate %s, expected %s", Kind<Msg>::name, S, n, tick, mc::mstr(ekf->getLatestX().transpose()).c_str(), mc::mstr(expected.At(0).transpose()).c_str());
    CHECK((ekf->getLatestP() - expected.CovAt(0)).norm() < 1e-6, "%s, S = %d, %d messages, tick %d: covariance %s, expected %s", Kind<Msg>::name, S, n, tick, mc::mstr(ekf->getLatestP()).c_str(), mc::mstr(expected.CovAt(0)).c_str());
    ctx.step();
  }
  ctx.outcome(mc::mix(mc::mix(S, n), again));
}
MC_SCENARIO(pose_burst) {Burst<PoseMsg>(ctx);}
MC_SCENARIO(twist_burst) {Burst<TwistMsg>(ctx);}
MC_MAIN

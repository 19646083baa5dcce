// M02: every sequence of pose messages, in both input forms and through the program.
#include <functional>
#include "mc/mc.hpp"
#define main path_generator_main
#include "path_generator/src/node.cpp"
#undef main
using geometry_msgs::msg::PoseStamped; using geometry_msgs::msg::PoseWithCovarianceStamped;
struct Event {int32_t sec; uint32_t nsec; const char * frame; double x;};
static const Event kEvents[] = {{10, 0, "map", 1}, {10, 500000000, "map", -2.5}, {9, 999999999, "odom", 1e6}, {10, 0, "", 0}, {2000000000, 1, "map", 1}};
static PoseStamped Make(const Event & e, int i)
{
  PoseStamped p; p.header.stamp.sec = e.sec; p.header.stamp.nanosec = e.nsec; p.header.frame_id = e.frame;
  p.pose.position.x = e.x; p.pose.position.y = i; p.pose.position.z = -0.1 * i;
  p.pose.orientation.x = 0.1 * i; p.pose.orientation.y = 0.5; p.pose.orientation.z = -0.5; p.pose.orientation.w = 0.25;
  return p;
}
static PoseWithCovarianceStamped With(const PoseStamped & p)
{
  PoseWithCovarianceStamped m; m.header = p.header; m.pose.pose = p.pose; for (int i = 0; i < 36; i++) {m.pose.covariance[i] = 50 + i;} return m;
}
static bool Same(const std_msgs::msg::Header & a, const std_msgs::msg::Header & b) {return a.stamp.sec == b.stamp.sec && a.stamp.nanosec == b.stamp.nanosec && a.frame_id == b.frame_id;}
static bool Same(const PoseStamped & a, const PoseStamped & b)
{
  const auto & p = a.pose; const auto & q = b.pose;
  return Same(a.header, b.header) && p.position.x == q.position.x && p.position.y == q.position.y && p.position.z == q.position.z && p.orientation.x == q.orientation.x &&
         p.orientation.y == q.orientation.y && p.orientation.z == q.orientation.z && p.orientation.w == q.orientation.w;
}
struct Run
{
  mc::Ctx & ctx; std::string topic; std::vector<PoseStamped> all; std::string h;
  void Verify()
  {
    const auto out = shim::sent<nav_msgs::msg::Path>(topic);
    auto & w = shim::world();
    CHECK(out.size() == 1 && w.sent.size() == 1, "%s: %zu paths, %zu messages for one pose", h.c_str(), out.size(), w.sent.size());
    const auto & p = *out[0];
    CHECK(Same(p.header, all.back().header), "%s: path header %d.%09u '%s'", h.c_str(), p.header.stamp.sec, p.header.stamp.nanosec, p.header.frame_id.c_str());
    CHECK(p.poses.size() == all.size(), "%s: %zu poses in the path after %zu messages", h.c_str(), p.poses.size(), all.size());
    for (size_t i = 0; i < all.size(); i++) {CHECK(Same(p.poses[i], all[i]), "%s: pose %zu is (%g %g %g) at %d.%09u '%s', expected (%g %g %g) at %d.%09u '%s'", h.c_str(), i, p.poses[i].pose.position.x, p.poses[i].pose.position.y, p.poses[i].pose.position.z, p.poses[i].header.stamp.sec, p.poses[i].header.stamp.nanosec, p.poses[i].header.frame_id.c_str(),
        all[i].pose.position.x, all[i].pose.position.y, all[i].pose.position.z, all[i].header.stamp.sec, all[i].header.stamp.nanosec, all[i].header.frame_id.c_str());}
    w.sent.clear(); ctx.step();
  }
  void Send(int e, int i, bool covariance, const char * pose_topic)
  {
    const PoseStamped p = Make(kEvents[e], i);
    h += mc::format("%d ", e); all.push_back(p);
    const int n = covariance ? shim::deliver(pose_topic, With(p)) : shim::deliver(pose_topic, p);
    CHECK(n == 1, "'%s' has %d subscriptions", pose_topic, n);
    Verify();
  }
};
MC_SCENARIO(from_pose)
{
  shim::reset(); FromPose node("out/path", "in/pose"); Run r{ctx, "out/path"};
  const int n = ctx.range(1, mc::tier(6, 7)); for (int i = 0; i < n; i++) {r.Send(ctx.choose(5), i, false, "in/pose");}
  ctx.outcome(mc::hash_str(r.h));
}
MC_SCENARIO(from_pose_with_covariance)
{
  shim::reset(); FromPoseWithCovariance node("out/path", "in/pose"); Run r{ctx, "out/path"};
  const int n = ctx.range(1, mc::tier(6, 7)); for (int i = 0; i < n; i++) {r.Send(ctx.choose(5), i, true, "in/pose");}
  ctx.outcome(mc::hash_str(r.h));
}
// two generators in one process do not share their paths
MC_SCENARIO(two_generators)
{
  shim::reset(); FromPose a("a", "pa"); FromPoseWithCovariance b("b", "pb"); Run ra{ctx, "a"}, rb{ctx, "b"};
  for (int i = 0; i < mc::tier(8, 10); i++) {if (ctx.flag()) {ra.Send(i % 5, i, false, "pa");} else {rb.Send((i + 2) % 5, i, true, "pb");}}
  ctx.outcome(mc::hash_str(ra.h + "|" + rb.h));
}
MC_SCENARIO(program)
{
  shim::reset(); bool spun = false; Run r{ctx, "path"};
  const int n = mc::tier(4, 5);
  shim::world().on_spin = [&] {spun = true; for (int i = 0; i < n; i++) {r.Send(ctx.choose(5), i, true, "pose");}};
  const int rc = path_generator_main(0, nullptr);
  CHECK(spun && rc == 0, "the program does not spin"); ctx.outcome(mc::hash_str(r.h));
}
// messages that arrive faster than the callback runs are in the path all the same
MC_SCENARIO(burst)
{
  shim::reset(); const bool cov = ctx.flag(); const int first = ctx.range(0, 2), n = ctx.pick({1, 2, 5, 6, 10, 11, 30, 100, 101, 1001});
  std::shared_ptr<rclcpp::Node> node; if (cov) {node = std::make_shared<FromPoseWithCovariance>("path", "pose");} else {node = std::make_shared<FromPose>("path", "pose");}
  Run r{ctx, "path"}; for (int i = 0; i < first; i++) {r.Send(i, i, cov, "pose");}
  std::vector<PoseStamped> ps; std::vector<PoseWithCovarianceStamped> cs;
  for (int i = 0; i < n; i++) {ps.push_back(Make(kEvents[i % 5], i)); cs.push_back(With(ps.back())); r.all.push_back(ps.back());}
  if (cov) {shim::deliver_burst("pose", cs);} else {shim::deliver_burst("pose", ps);}
  auto & sent = shim::world().sent;
  CHECK(static_cast<int>(sent.size()) == n, "%d poses arriving together: %zu paths", n, sent.size());
  sent.erase(sent.begin(), sent.end() - 1); r.h = mc::format("%d after %d", n, first); r.Verify();
  ctx.outcome(n * 10 + first * 2 + cov);
}
MC_SCENARIO(long_path)
{
  shim::reset(); Run r{ctx, "path"}; const bool cov = ctx.flag(); const int n = ctx.pick({1500, mc::tier(10500, 40000)});
  std::shared_ptr<rclcpp::Node> node; if (cov) {node = std::make_shared<FromPoseWithCovariance>("path", "pose");} else {node = std::make_shared<FromPose>("path", "pose");}
  for (int i = 0; i < n; i++) {
    const PoseStamped p = Make(kEvents[i % 5], i); r.all.push_back(p);
    if (cov) {shim::deliver("pose", With(p));} else {shim::deliver("pose", p);}
    if (i % 500 == 499 || i == n - 1) {r.h = mc::format("%d messages", i + 1); r.Verify();} else {CHECK(shim::world().sent.size() == 1, "%zu messages for one pose", shim::world().sent.size()); shim::world().sent.clear();}
    if (n > 5000 && i % 500 != 498) {shim::world().sent.clear();}
  }
  ctx.outcome(n + cov);
}
MC_MAIN

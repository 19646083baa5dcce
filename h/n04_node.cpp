// N04: the localisation node with a recording localiser: every order of edge scans, surface scans and priors.
#include "mc/mc.hpp"
#include "lidar_feature_localization/subscriber.hpp"
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using PoseOut = geometry_msgs::msg::PoseWithCovarianceStamped;

struct Seen {std::vector<Eigen::Isometry3d> init; std::vector<std::pair<std::vector<float>, std::vector<float>>> scans; bool init_pending = false, out_of_order = false; Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();};
static Seen g_seen;
static Eigen::Isometry3d Move(double x, double y, double z, double yaw, double pitch)
{
  Eigen::Isometry3d t(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()));
  t.translation() = Eigen::Vector3d(x, y, z);
  return t;
}
static const Eigen::Isometry3d kRefine = Move(0.25, -0.5, 0.125, 0.3, -0.2);
struct Recorder
{
  bool success;
  void Init(const Eigen::Isometry3d & p) {g_seen.init.push_back(p); g_seen.pose = p; g_seen.init_pending = true;}
  bool Update(const std::tuple<Cloud::Ptr, Cloud::Ptr> & scan)
  {
    std::vector<float> e, s;
    for (auto & p : *std::get<0>(scan)) {e.push_back(p.x); e.push_back(p.y); e.push_back(p.z);}
    for (auto & p : *std::get<1>(scan)) {s.push_back(p.x); s.push_back(p.y); s.push_back(p.z);}
    g_seen.scans.push_back({e, s});
    if (!g_seen.init_pending) {g_seen.out_of_order = true;}
    g_seen.init_pending = false;
    g_seen.pose = g_seen.pose * kRefine;
    return success;
  }
  Eigen::Isometry3d Get() const {return g_seen.pose;}
  bool IsInitialized() const {return !g_seen.init.empty();}
};
using Node = LocalizationSubscriber<Recorder, pcl::PointXYZ>;

static builtin_interfaces::msg::Time Stamp(int64_t ns) {builtin_interfaces::msg::Time t; t.sec = ns / 1000000000; t.nanosec = ns % 1000000000; return t;}
static Eigen::Isometry3d Iso(const geometry_msgs::msg::Pose & p)
{
  Eigen::Isometry3d t(Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z));
  t.translation() = Eigen::Vector3d(p.position.x, p.position.y, p.position.z);
  return t;
}
static geometry_msgs::msg::Pose Msg(const Eigen::Isometry3d & t)
{
  geometry_msgs::msg::Pose p; const Eigen::Quaterniond q(t.linear());
  p.position.x = t.translation().x(); p.position.y = t.translation().y(); p.position.z = t.translation().z();
  p.orientation.x = q.x(); p.orientation.y = q.y(); p.orientation.z = q.z(); p.orientation.w = q.w();
  return p;
}
static sensor_msgs::msg::PointCloud2 Scan(int64_t stamp, float mark, int n, std::vector<float> & points)
{
  Cloud c;
  points.clear();
  for (int i = 0; i < n; i++) {c.push_back(pcl::PointXYZ(mark + i, -mark, 0.5f * i)); for (float v : {mark + i, -mark, 0.5f * i}) {points.push_back(v);}}
  sensor_msgs::msg::PointCloud2 m; pcl::toROSMsg(c, m);
  m.header.stamp = Stamp(stamp); m.header.frame_id = "lidar_feature_base_link";
  return m;
}
static bool Same(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b) {return (a.matrix() - b.matrix()).norm() < 1e-9 * (1 + a.matrix().norm());}

struct Rig
{
  mc::Ctx & ctx; std::shared_ptr<Node> node; std::string h; int64_t base; int index = 0, big = 0;
  std::map<int64_t, Eigen::Isometry3d> priors;                                  // available
  std::map<int64_t, std::pair<std::unique_ptr<std::vector<float>>, std::unique_ptr<std::vector<float>>>> waiting;   // scans without their partner
  Rig(mc::Ctx & c, int64_t b, bool success) : ctx(c), base(b)
  {
    shim::reset(); g_seen = Seen();
    Recorder r{success};
    node = std::make_shared<Node>(r);
  }
  void Prior(int ms, bool odom) {PriorAt(ms * 1000000LL, odom);}
  void PriorAt(int64_t ns, bool odom)
  {
    const int64_t stamp = base + ns;
    const Eigen::Isometry3d p = Move(1 + index, 2 * index, -0.5 * index, 0.5 * index, 0.1 * (index % 13) - 0.3);
    if (h.size() < 4000) {h += mc::format("%s(%.9g) ", odom ? "odom" : "pose", 1e-6 * ns);}
    int n;
    if (odom) {nav_msgs::msg::Odometry m; m.header.stamp = Stamp(stamp); m.header.frame_id = "map"; m.pose.pose = Msg(p); m.twist.twist.linear.x = 3; n = shim::deliver("optimization_start_odom", m);}
    else {geometry_msgs::msg::PoseStamped m; m.header.stamp = Stamp(stamp); m.header.frame_id = "map"; m.pose = Msg(p); n = shim::deliver("optimization_start_pose", m);}
    CHECK(n == 1, "%s: prior topic has %d subscriptions", h.c_str(), n);
    priors[stamp] = p;
    index++;
    Silent();
  }
  void Silent() {CHECK(shim::world().sent.empty() && shim::world().tf.empty(), "%s: published %zu messages and %zu transforms", h.c_str(), shim::world().sent.size(), shim::world().tf.size());}
  void Cloud2(int ms, bool edge) {CloudAt(ms * 1000000LL, edge);}
  void CloudAt(int64_t ns, bool edge)
  {
    const int64_t stamp = base + ns;
    if (h.size() < 4000) {h += mc::format("%s(%.9g) ", edge ? "edge" : "surface", 1e-6 * ns);}
    std::vector<float> pts;
    const auto m = Scan(stamp, 100 * edge + index, big ? big : index % 3 + (index % 4 > 0), pts);
    index++;
    const int n = shim::deliver(edge ? "scan_edge" : "scan_surface", m);
    CHECK(n == 1, "%s: the topic has %d subscriptions", h.c_str(), n);
    auto & w = waiting[stamp];
    (edge ? w.first : w.second) = std::make_unique<std::vector<float>>(pts);
    ctx.step();
    if (!w.first || !w.second) {if (waiting.size() > 10) {waiting.erase(waiting.begin());} Silent(); return;}
    const std::vector<float> e = *w.first, s = *w.second;
    waiting.erase(waiting.begin(), waiting.upper_bound(stamp));        // a completed pair ends the wait of older ones
    if (priors.empty()) {Silent(); ctx.count("pairs_without_prior", 1); CHECK(g_seen.scans.empty() || g_used == g_seen.scans.size(), "%s: optimised without a prior", h.c_str()); return;}
    int64_t best = INT64_MAX;
    for (auto & [t, p] : priors) {best = std::min(best, std::abs(t - stamp));}
    std::vector<Eigen::Isometry3d> allowed;                            // two equally close ones: either
    for (auto & [t, p] : priors) {if (std::abs(t - stamp) == best) {allowed.push_back(p);}}
    priors.erase(priors.upper_bound(stamp + 1000000000LL), priors.end());
    CHECK(g_seen.init.size() == g_used + 1 && g_seen.scans.size() == g_used + 1 && !g_seen.out_of_order, "%s: %zu starts and %zu optimisations for %zu scans", h.c_str(), g_seen.init.size(), g_seen.scans.size(), g_used + 1);
    const Eigen::Isometry3d start = g_seen.init[g_used];
    CHECK(Same(start, allowed[0]) || Same(start, allowed.back()), "%s: started from %s, the closest prior is %s", h.c_str(), mc::mstr(start.matrix()).c_str(), mc::mstr(allowed[0].matrix()).c_str());
    CHECK(g_seen.scans[g_used].first == e && g_seen.scans[g_used].second == s, "%s: optimised with other clouds than those of this scan", h.c_str());
    g_used++;
    const auto out = shim::sent<PoseOut>("estimated_pose");
    auto & world = shim::world();
    CHECK(out.size() == 1 && world.sent.size() == 1 && world.tf.size() == 1, "%s: %zu poses, %zu messages, %zu transforms for one scan", h.c_str(), out.size(), world.sent.size(), world.tf.size());
    const auto & o = *out[0]; const auto & t = world.tf[0];
    const auto want = Stamp(stamp);
    CHECK(o.header.stamp.sec == want.sec && o.header.stamp.nanosec == want.nanosec && t.header.stamp.sec == want.sec && t.header.stamp.nanosec == want.nanosec, "%s: stamps %d.%09u and %d.%09u, the scan's is %d.%09u",
      h.c_str(), o.header.stamp.sec, o.header.stamp.nanosec, t.header.stamp.sec, t.header.stamp.nanosec, want.sec, want.nanosec);
    CHECK(o.header.frame_id == "map" && t.header.frame_id == "map" && t.child_frame_id == "lidar_feature_base_link", "%s: frames '%s' and '%s' -> '%s'", h.c_str(), o.header.frame_id.c_str(), t.header.frame_id.c_str(), t.child_frame_id.c_str());
    geometry_msgs::msg::Pose tp; tp.position.x = t.transform.translation.x; tp.position.y = t.transform.translation.y; tp.position.z = t.transform.translation.z; tp.orientation = t.transform.rotation;
    const Eigen::Isometry3d result = start * kRefine;
    CHECK(Same(Iso(o.pose.pose), result) && Same(Iso(tp), result), "%s: pose %s, transform %s, the result is %s", h.c_str(), mc::mstr(Iso(o.pose.pose).matrix()).c_str(), mc::mstr(Iso(tp).matrix()).c_str(), mc::mstr(result.matrix()).c_str());
    for (int i = 0; i < 36; i++) {CHECK(o.pose.covariance[i] == (i % 7 ? 0. : i < 21 ? 1. : 0.1), "%s: covariance entry %d is %g", h.c_str(), i, o.pose.covariance[i]);}
    world.sent.clear(); world.tf.clear();
    ctx.count("localised", 1);
  }
  size_t g_used = 0;
};

static const int64_t kBases[] = {1000000000000LL, 1700000000LL * 1000000000LL};
MC_SCENARIO(arrivals)
{
  Rig r(ctx, kBases[0], true);
  static const int scans[] = {0, 100, 1300}, priors[] = {-800, 50, 100, 1000, 1250, 5000};
  const int depth = mc::tier(5, 6);
  for (int i = 0; i < depth; i++) {
    const int e = ctx.choose(12);
    if (e < 6) {r.Cloud2(scans[e % 3], e < 3);} else {r.Prior(priors[e - 6], (i + e) % 2);}
  }
  ctx.note("%s", r.h.c_str()); ctx.outcome(mc::hash_str(r.h));
}
// pairs arrive whole: which prior is used, which remain
MC_SCENARIO(priors)
{
  const int b = ctx.choose(2);
  Rig r(ctx, kBases[b], ctx.flag());
  static const int scans[] = {0, 700, 1800}, priors[] = {-30000, -400, 350, 650, 1010, 1690, 2790, 2810, 60000};
  const int n = ctx.range(1, mc::tier(2, 3));
  for (int i = 0; i < n; i++) {r.Prior(priors[ctx.choose(9)], ctx.flag());}
  for (int i = 0; i < 3; i++) {const int s = scans[ctx.choose(3)]; const bool edge_first = ctx.flag(); r.Cloud2(s, edge_first); r.Cloud2(s, !edge_first);}
  ctx.outcome(mc::mix(b, mc::hash_str(r.h)));
}
// alternating priors and scans over a longer run
MC_SCENARIO(running)
{
  Rig r(ctx, kBases[1], true);
  int t = 0;
  const int steps = mc::tier(4, 5);
  for (int i = 0; i < steps; i++) {
    const int k = ctx.choose(5);
    if (k == 0) {r.Prior(t - 40, true);}
    if (k == 1) {r.Prior(t + 60, false);}
    if (k == 2) {r.Prior(t + 1200, false);}
    const int order = ctx.choose(3);
    if (order == 0) {r.Cloud2(t, true); r.Cloud2(t, false);}
    if (order == 1) {r.Cloud2(t, false); r.Cloud2(t, true);}
    if (order == 2) {r.Cloud2(t, i % 2);}
    if (k == 4) {r.Prior(t, true);}
    t += 100;
  }
  ctx.note("%s", r.h.c_str()); ctx.outcome(mc::hash_str(r.h));
}
// the clock of the machine has no say in what happens
MC_SCENARIO(clock)
{
  const int64_t b = kBases[ctx.choose(2)];
  Rig r(ctx, b, true);
  shim::world().now_ns = ctx.pick<int64_t>({0, b, b + 5000000000LL, b + 86400000000000LL});
  const int64_t step = ctx.pick<int64_t>({0, 100000000LL, 5000000000LL});
  const int order = ctx.choose(4);
  for (int i = 0; i < 4; i++) {
    if (order == 0 || i == 0) {r.Prior(100 * i, i % 2);}
    shim::world().now_ns += step;
    if (order == 1) {r.Prior(100 * i - 20, i % 2);}
    if (order == 2) {r.Prior(100 * i + 900, i % 2);}
    r.Cloud2(100 * i, i % 2); shim::world().now_ns += step;
    if (order == 3) {r.Prior(100 * i + 20, i % 2);}
    r.Cloud2(100 * i, !(i % 2)); shim::world().now_ns += step;
  }
  ctx.outcome(mc::hash_str(r.h));
}
// one of the clouds lags, by as many scans as may wait or more
MC_SCENARIO(lag)
{
  const int lag = ctx.pick({1, 5, 9, 10, 25}), total = 40; const bool edge_first = ctx.flag(); const int rate = ctx.pick({1, 3, 50});
  Rig r(ctx, kBases[ctx.choose(2)], true);
  for (int i = 0; i < total + lag; i++) {
    if (i % rate == 0) {r.Prior(100 * i - 10, i % 2);}
    if (i < total) {r.Cloud2(100 * i, edge_first);}
    if (i >= lag) {r.Cloud2(100 * (i - lag), !edge_first);}
  }
  ctx.outcome(mc::hash_str(r.h));
}
// many priors before the first scan, or between scans; a long run
MC_SCENARIO(many)
{
  const int before = ctx.pick({1, 99, 101, 400, 1100}); const int between = ctx.pick({0, 1, 7}), back = ctx.pick({0, 1}), n = ctx.pick({3, 300});
  Rig r(ctx, kBases[ctx.choose(2)], true);
  for (int i = 0; i < before; i++) {r.Prior(10 * (back ? before - i : i), i % 2);}
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < between; k++) {r.Prior(10 * before + 70 * i + 10 * k + 3, i % 2);}
    const int t = between ? 10 * before + 70 * i : 10 + before * 10 * i / n;
    r.Cloud2(t, true); r.Cloud2(t, false);
  }
  ctx.outcome(mc::hash_str(r.h));
}
// stamps that differ by nanoseconds
MC_SCENARIO(nanoseconds)
{
  const int b = ctx.choose(3); const int64_t base = b == 0 ? 5000000000LL : b == 1 ? 1000000000000LL : 999999998LL + 1000000000LL;
  Rig r(ctx, base, true);
  const int64_t p[] = {0, 2, 5, 1000000003LL};
  r.PriorAt(p[ctx.choose(4)], false); r.PriorAt(p[ctx.choose(4)], true);
  const int64_t s[] = {0, 1, 3};
  for (int i = 0; i < mc::tier(4, 5); i++) {const int k = ctx.choose(6); r.CloudAt(s[k % 3], k < 3);}
  ctx.outcome(mc::mix(b, mc::hash_str(r.h)));
}
MC_SCENARIO(large_clouds)
{
  const int n = ctx.pick({1000, 4097, 70001}); const bool edge_first = ctx.flag();
  Rig r(ctx, kBases[1], true); r.big = n;
  r.Prior(0, true); r.Cloud2(10, edge_first); r.big = ctx.pick({1, n}); r.Cloud2(10, !edge_first);
  ctx.outcome(mc::hash_str(r.h));
}
MC_MAIN

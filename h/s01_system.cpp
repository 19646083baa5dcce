// S01: the whole system. A simulated LiDAR in a building: feature extraction and mapping make maps on disk; then feature
// extraction, scan localisation and the EKF run as a closed loop, their messages being delivered in every order and delay.
#include <deque>
#include "mc/mc.hpp"
#include "scratch.hpp"
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <geometry_msgs/msg/twist_with_covariance_stamped.hpp>
#include <nav_msgs/msg/odometry.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <Eigen/Geometry>
#include <pcl/io/pcd_io.h>
int s01_extraction_main(int, char **);
int s01_localization_main(int, char **);
int s01_ekf_main(int, char **);
int s01_mapping_main(int, char **);
using Scan = sensor_msgs::msg::PointCloud2;
using PoseCov = geometry_msgs::msg::PoseWithCovarianceStamped;
using Twist = geometry_msgs::msg::TwistWithCovarianceStamped;
using Odom = nav_msgs::msg::Odometry;

// ---- the world: a hall with pillars
struct Box {double x0, y0, x1, y1;};
static const Box kPillars[] = {{5, 3, 5.8, 3.8}, {-6, 4, -5.2, 4.8}, {-4, -5.5, -3.2, -4.7}, {7, -4, 7.8, -3.2}, {0.5, 7, 1.3, 7.8}, {1.5, -8, 2.3, -7.2}, {11, 1, 11.8, 1.8}, {-10, -2, -9.2, -1.2}};
static double Ray(const Eigen::Vector3d & o, const Eigen::Vector3d & d)
{
  double best = 1e9;
  for (int a = 0; a < 3; a++) {                        // inside of the hall
    static const double lo[3] = {-16, -12, -1.8}, hi[3] = {17, 13, 4.5};
    if (d(a) > 1e-12) {best = std::min(best, (hi[a] - o(a)) / d(a));}
    if (d(a) < -1e-12) {best = std::min(best, (lo[a] - o(a)) / d(a));}
  }
  for (const Box & b : kPillars) {                     // outside of the pillars
    double t0 = 0, t1 = 1e9;
    const double lo[2] = {b.x0, b.y0}, hi[2] = {b.x1, b.y1};
    for (int a = 0; a < 2 && t0 <= t1; a++) {
      if (std::fabs(d(a)) < 1e-12) {if (o(a) < lo[a] || o(a) > hi[a]) {t1 = -1;} continue;}
      double u = (lo[a] - o(a)) / d(a), v = (hi[a] - o(a)) / d(a);
      if (u > v) {std::swap(u, v);}
      t0 = std::max(t0, u); t1 = std::min(t1, v);
    }
    if (t0 <= t1 && t0 > 0) {best = std::min(best, t0);}
  }
  return best;
}
static builtin_interfaces::msg::Time Stamp(int64_t ns) {builtin_interfaces::msg::Time t; t.sec = ns / 1000000000; t.nanosec = ns % 1000000000; return t;}
static int64_t Ns(const builtin_interfaces::msg::Time & t) {return t.sec * 1000000000LL + t.nanosec;}
static Scan Lidar(const Eigen::Isometry3d & pose, int64_t stamp)
{
  const int rings = 16, columns = 360;
  Scan m; m.header.stamp = Stamp(stamp); m.header.frame_id = "velodyne"; m.height = 1; m.width = rings * columns; m.point_step = 22; m.row_step = m.point_step * m.width; m.is_dense = true;
  const char * names[] = {"x", "y", "z", "intensity", "ring"}; const uint32_t at[] = {0, 4, 8, 16, 20};
  for (int f = 0; f < 5; f++) {sensor_msgs::msg::PointField p; p.name = names[f]; p.offset = at[f]; p.datatype = f == 4 ? 4 : 7; p.count = 1; m.fields.push_back(p);}
  m.data.assign(m.row_step, 0);
  uint8_t * b = m.data.data();
  for (int c = 0; c < columns; c++) {
    for (int r = 0; r < rings; r++, b += m.point_step) {
      const double e = (-14 + 1.9 * r) * M_PI / 180, a = (c + 0.3) * 2 * M_PI / columns - M_PI;
      const Eigen::Vector3d d(std::cos(e) * std::cos(a), std::cos(e) * std::sin(a), std::sin(e));
      const double range = Ray(pose.translation(), pose.linear() * d);
      const float v[] = {float(range * d.x()), float(range * d.y()), float(range * d.z())}; const float i = 50; const uint16_t ring = r;
      memcpy(b, v, 12); memcpy(b + 16, &i, 4); memcpy(b + 20, &ring, 2);
    }
  }
  return m;
}
static Eigen::Isometry3d At(double x, double y, double yaw) {Eigen::Isometry3d t(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ())); t.translation() = Eigen::Vector3d(x, y, 0); return t;}
static const double kV = 2.0, kW = 0.25;
static Eigen::Isometry3d Truth(double t, int start)       // constant speed and turn rate
{
  const double yaw0 = start ? 3.0 : 0.4, x0 = start ? 4 : -2, y0 = start ? -1 : -1.5, yaw = yaw0 + kW * t;
  return At(x0 + kV / kW * (std::sin(yaw) - std::sin(yaw0)), y0 - kV / kW * (std::cos(yaw) - std::cos(yaw0)), yaw);
}
static geometry_msgs::msg::Pose Msg(const Eigen::Isometry3d & t)
{
  geometry_msgs::msg::Pose p; const Eigen::Quaterniond q(t.linear());
  p.position.x = t.translation().x(); p.position.y = t.translation().y(); p.position.z = t.translation().z();
  p.orientation.x = q.x(); p.orientation.y = q.y(); p.orientation.z = q.z(); p.orientation.w = q.w();
  return p;
}
static Eigen::Isometry3d Iso(const geometry_msgs::msg::Pose & p)
{
  Eigen::Isometry3d t(Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z));
  t.translation() = Eigen::Vector3d(p.position.x, p.position.y, p.position.z);
  return t;
}
static double Off(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b) {return (a.translation() - b.translation()).norm();}
static double Turned(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b) {return Eigen::AngleAxisd(a.linear().transpose() * b.linear()).angle();}

// the parameters the launch files give to the extraction
static void Configure()
{
  const char * repo = getenv("VERIF_REPO");
  std::ifstream f(std::string(repo ? repo : "/repo") + "/lidar_feature_launch/config/lidar_feature_extraction.param.yaml");
  std::string line;
  while (std::getline(f, line)) {
    const auto c = line.find(':'); const auto b = line.find_first_not_of(" ");
    if (c == std::string::npos || c + 1 >= line.size() || b == 0) {continue;}
    const std::string key = line.substr(b, c - b), value = line.substr(line.find_first_not_of(" ", c + 1));
    if (value.find('.') == std::string::npos) {shim::world().params[key] = int64_t(std::stoll(value));} else {shim::world().params[key] = std::stod(value);}
  }
}
template<class F> static void Spin(mc::Ctx & ctx, int (* program)(int, char **), F && body)
{
  bool spun = false;
  shim::world().on_spin = [&] {spun = true; body();};
  const int rc = program(0, nullptr);
  CHECK(spun && rc == 0, "a program did not start, exit code %d", rc);
}
// the topics of the message just sent, taken from the graph
template<class M> static std::vector<std::shared_ptr<const M>> Take(const std::string & topic)
{
  auto r = shim::sent<M>(topic);
  auto & s = shim::world().sent;
  s.erase(std::remove_if(s.begin(), s.end(), [&](auto & e) {return e.first == shim::norm(topic);}), s.end());
  return r;
}
struct Features {std::shared_ptr<const Scan> edge, surface;};
static Features Extract(mc::Ctx & ctx, const Scan & raw)
{
  shim::deliver("points_raw", raw);
  auto e = Take<Scan>("scan_edge"), s = Take<Scan>("scan_surface"), c = Take<Scan>("colored_scan");
  CHECK(e.size() == 1 && s.size() == 1 && c.size() == 1, "%zu edge, %zu surface and %zu coloured clouds for one scan", e.size(), s.size(), c.size());
  for (auto & m : {e[0], s[0], c[0]}) {CHECK(Ns(m->header.stamp) == Ns(raw.header.stamp), "features of the scan with stamp %ld carry %ld", long(Ns(raw.header.stamp)), long(Ns(m->header.stamp)));}
  return {e[0], s[0]};
}
// the bytes of the two maps, as the mapping program leaves them
static const std::array<std::string, 2> & Maps(mc::Ctx & ctx)
{
  static std::array<std::string, 2> maps;
  if (!maps[0].empty()) {return maps;}
  for (int which = 0; which < 2; which++) {
    Scratch s; mkdir("maps", 0755);
    shim::reset(); Configure();
    Spin(ctx, s01_extraction_main, [&] {
        Spin(ctx, s01_mapping_main, [&] {
            int k = 0;
            for (int start = 0; start < 2; start++) {
              for (double t = 0; t <= 1.6; t += 0.4, k++) {
                const int64_t stamp = (100 + k) * 100000000LL;
                const Eigen::Isometry3d p = Truth(t, start);
                const Features f = Extract(ctx, Lidar(p, stamp));
                geometry_msgs::msg::PoseStamped m; m.header.stamp = Stamp(stamp); m.header.frame_id = "map"; m.pose = Msg(p);
                if (k % 2) {shim::deliver("pose", m);}
                shim::deliver("scan_edge", which ? *f.surface : *f.edge);          // the program maps whatever is put on that topic
                if (k % 2 == 0) {shim::deliver("pose", m);}
              }
            }
          });
      });
    maps[which] = Scratch::Bytes("maps/edge.pcd");
    CHECK(!maps[which].empty(), "the mapping program left no map");
  }
  return maps;
}

struct Loop
{
  mc::Ctx & ctx; int start, error = 0, initial_slot = 0, pattern = -1, gap_at = 1000, gap = 0, mute_at = 1000, mute = 0; std::string h;     // pattern: the delays of each scan, -1 for all of them
  int64_t base = 1700000000LL * 1000000000LL, now = 0;
  std::vector<std::pair<int64_t, std::function<void()>>> due;        // in order of time, first come first served
  int poses = 0, odoms = 0, scans = 0, with_prior = 0; bool any_prior = false, fed_odom = false;
  double last_odom = 0, last_turn = 0, worst_pose = 0, worst_turn = 0, worst_odom = 0, worst_odom_turn = 0;
  void After(int64_t ms, std::function<void()> f) {due.push_back({now + ms * 1000000, std::move(f)});}
  void Pump()
  {
    for (;;) {
      size_t best = due.size();
      for (size_t i = 0; i < due.size(); i++) {if (due[i].first <= now && (best == due.size() || due[i].first < due[best].first)) {best = i;}}
      if (best == due.size()) {return;}
      auto f = std::move(due[best].second); due.erase(due.begin() + best);
      f(); ctx.step();
    }
  }
  Eigen::Isometry3d TruthAt(int64_t ns) const {return Truth((ns - base) * 1e-9, start);}
  void Localised(const Features & f, bool edge_first, int pose_delay)
  {
    const int64_t stamp = Ns(f.edge->header.stamp);
    auto give = [&](bool edge) {if (edge) {shim::deliver("scan_edge", *f.edge);} else {shim::deliver("scan_surface", *f.surface);}};
    give(edge_first);
    CHECK(Take<PoseCov>("estimated_pose").empty(), "a pose for half a scan");
    give(!edge_first);
    const auto out = Take<PoseCov>("estimated_pose");
    scans++;
    if (!any_prior) {CHECK(out.empty(), "%s: a pose without any prior", h.c_str()); return;}
    CHECK(out.size() == 1, "%s: %zu poses for the scan at %ld ms", h.c_str(), out.size(), long((stamp - base) / 1000000));
    const auto & m = *out[0]; const Eigen::Isometry3d t = Iso(m.pose.pose), truth = TruthAt(stamp);
    CHECK(Ns(m.header.stamp) == stamp && m.header.frame_id == "map", "%s: the pose of the scan at %ld ms has stamp %ld ms, frame '%s'", h.c_str(), long((stamp - base) / 1000000), long((Ns(m.header.stamp) - base) / 1000000), m.header.frame_id.c_str());
    const double off = Off(t, truth), turn = Turned(t, truth);
    worst_pose = std::max(worst_pose, off); worst_turn = std::max(worst_turn, turn); poses++;
    {CHECK(off < 0.05 && turn < 0.01, "%s: the scan at %ld ms is localised %.3f m and %.4f rad away from the sensor", h.c_str(), long((stamp - base) / 1000000), off, turn);}
    const PoseCov copy = m;
    After(pose_delay, [copy] {shim::deliver("in_pose_with_covariance", copy);});
  }
  void Tick(int odom_delay)
  {
    shim::world().now_ns = now;
    shim::fire_timers();
    const auto out = Take<Odom>("ekf_odom");
    CHECK(out.size() == (initialised ? 1u : 0u), "%s: %zu odometry messages in one tick %s the initial pose", h.c_str(), out.size(), initialised ? "after" : "before");
    if (!initialised) {return;}
    const Odom m = *out[0]; const Eigen::Isometry3d t = Iso(m.pose.pose);
    odoms++;
    bool finite = t.matrix().allFinite();
    for (int i = 0; i < 36; i++) {finite = finite && std::isfinite(m.pose.covariance[i]) && std::isfinite(m.twist.covariance[i]);}
    CHECK(finite && std::fabs(Eigen::Quaterniond(m.pose.pose.orientation.w, m.pose.pose.orientation.x, m.pose.pose.orientation.y, m.pose.pose.orientation.z).norm() - 1) < 1e-6, "%s: an estimate that is no pose", h.c_str());
    CHECK(Ns(m.header.stamp) == now && m.header.frame_id == "map", "%s: odometry of %ld ms carries %ld ms, frame '%s'", h.c_str(), long((now - base) / 1000000), long((Ns(m.header.stamp) - base) / 1000000), m.header.frame_id.c_str());
    const double off = Off(t, TruthAt(now)), turn = Turned(t, TruthAt(now));
    last_odom = off; last_turn = turn;
    if (now - base >= settle) {
      worst_odom = std::max(worst_odom, off); worst_odom_turn = std::max(worst_odom_turn, turn);
      {CHECK(off < (error ? 0.4 : 0.05) && turn < (error ? 0.06 : 0.015), "%s: at %ld ms the estimate is %.3f m and %.4f rad away from the vehicle", h.c_str(), long((now - base) / 1000000), off, turn);}
    }
    After(odom_delay, [this, m] {shim::deliver("optimization_start_odom", m); any_prior = true;});
  }
  bool initialised = false; int64_t settle = 200000000;
  // slots of 20 ms: measurements, a filter tick, deliveries; a scan every 100 ms
  void Go(int n_scans)
  {
    const auto & maps = Maps(ctx);
    Scratch s; mkdir("maps", 0755);
    {std::ofstream("maps/edge.pcd", std::ios::binary) << maps[0]; std::ofstream("maps/surface.pcd", std::ios::binary) << maps[1];}
    shim::reset(); Configure();
    shim::world().params["extend_state_step"] = 16;                     // 0.32 s of delays
    now = base;
    shim::world().now_ns = now;
    shim::world().lookup = [](const std::string &, const std::string &) {geometry_msgs::msg::TransformStamped t; t.transform.rotation.w = 1; return std::optional<geometry_msgs::msg::TransformStamped>(t);};
    Spin(ctx, s01_extraction_main, [&] {Spin(ctx, s01_localization_main, [&] {Spin(ctx, s01_ekf_main, [&] {Body(n_scans);});});});
  }
  void Body(int n_scans)
  {
    static const double wrong[][3] = {{0, 0, 0}, {0.2, -0.15, 0.03}, {-0.25, 0.2, -0.04}, {-0.1, -0.3, 0.02}, {0.3, 0.1, -0.03}};
    h = mc::format("start %d, initial error %d at slot %d, delays ", start, error, initial_slot);
    for (int slot = 0; slot < 5 * n_scans + 5; slot++) {
      now = base + slot * 20000000LL;
      shim::world().now_ns = now;
      if (slot == initial_slot) {
        PoseCov m; m.header.stamp = Stamp(now); m.header.frame_id = "map";
        m.pose.pose = Msg(TruthAt(now) * At(wrong[error][0], wrong[error][1], wrong[error][2]));
        for (int i : {0, 7, 14, 21, 28, 35}) {m.pose.covariance[i] = i < 21 ? 0.25 : 0.01;}
        shim::deliver("initialpose", m);
        initialised = true; settle = slot * 20000000LL + 200000000;
      }
      Twist w; w.header.stamp = Stamp(now); w.header.frame_id = "base_link"; w.twist.twist.linear.x = kV; w.twist.twist.angular.z = kW; w.twist.covariance[0] = 0.01; w.twist.covariance[35] = 0.0004; w.twist.covariance[7] = w.twist.covariance[14] = w.twist.covariance[21] = w.twist.covariance[28] = 1;
      if (slot < mute_at || slot >= mute_at + mute) {shim::deliver("in_twist_with_covariance", w);}
      const int k = slot / 5;
      if (slot % 5 == 0 && k < n_scans && (k < gap_at || k >= gap_at + gap)) {
        const int how = pattern < 0 ? ctx.choose(mc::tier(3, 4)) : pattern == 3 ? slot / 5 % 3 : pattern;
        static const int scan_delay[] = {0, 20, 60, 40}, pose_delay[] = {0, 60, 100, 180};
        h += mc::format("%d ", how);
        const Features f = Extract(ctx, Lidar(TruthAt(now), now));
        After(scan_delay[how], [this, f, how] {Localised(f, how != 1, pose_delay[how]);});
      }
      Pump();
      Tick(slot % 3 == 0 ? 40 : 0);
      Pump();
    }
    now += 1000000000; Pump();
    CHECK(scans == n_scans - gap, "%s: %d of %d scans handled", h.c_str(), scans, n_scans - gap);
    ctx.note("%s", h.c_str());
    ctx.count("poses", poses); ctx.count("odometry messages", odoms);
    if (n_scans > 15) {CHECK(last_odom < (n_scans > 30 ? 0.07 : 0.12) && last_turn < (n_scans > 30 ? 0.015 : 0.03), "%s: after %d scans the estimate is still %.3f m and %.4f rad away from the vehicle", h.c_str(), n_scans, last_odom, last_turn);}
    ctx.outcome(mc::hash_str(h));
  }
};
MC_SCENARIO(closed_loop)
{
  const int start = ctx.choose(2), error = ctx.choose(3), slot = ctx.pick({0, 4});      // where; how wrong the initial pose is; when it comes
  Loop l{ctx, start, error, slot};
  l.Go(mc::tier(4, 5));
}
MC_SCENARIO(convergence)
{
  const int start = ctx.choose(2), error = ctx.choose(5), pattern = ctx.choose(4);
  Loop l{ctx, start, error, 0, pattern};
  l.Go(mc::tier(16, 40));
}
// scans are missing for a while, and speed measurements are
MC_SCENARIO(gaps)
{
  const int start = ctx.choose(2), at = ctx.pick({1, 4}), gap = ctx.pick({0, 1, 6}), mute_at = ctx.pick({12, 22}), mute = ctx.pick({0, 2, 16}), pattern = ctx.choose(mc::tier(1, 4)) ^ 3;
  Loop l{ctx, start, 0, 0, pattern};
  l.gap_at = at; l.gap = gap; l.mute_at = mute_at; l.mute = mute;
  l.Go(gap + 8);
}
MC_MAIN

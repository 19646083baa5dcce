// N05: every sequence of scans and poses: what the pose updater is given and what the map holds.
#include "mc/mc.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
#include "lidar_feature_localization/recent_scans.hpp"
#include "lidar_feature_library/point_type.hpp"

template<class P> struct Fill {static void Do(P & p, int i) {}};
template<> struct Fill<pcl::PointXYZI> {static void Do(pcl::PointXYZI & p, int i) {p.intensity = 0.5f + i;}};
template<> struct Fill<PointXYZCR> {static void Do(PointXYZCR & p, int i) {p.curvature = 0.25f + i; p.ring = 7 + i;}};
template<class P> struct Other {static double Of(const P &) {return 0;}};
template<> struct Other<pcl::PointXYZI> {static double Of(const pcl::PointXYZI & p) {return p.intensity;}};
template<> struct Other<PointXYZCR> {static double Of(const PointXYZCR & p) {return p.curvature + 1000. * p.ring;}};

struct Expect {Eigen::Vector3d v; double other;};
static std::vector<Eigen::Isometry3d> Moves()
{
  std::vector<Eigen::Isometry3d> m(4, Eigen::Isometry3d::Identity());
  m[1].translation() = Eigen::Vector3d(1.5, -2, 0.25);
  m[2].linear() = Eigen::AngleAxisd(M_PI / 2, Eigen::Vector3d::UnitZ()).toRotationMatrix(); m[2].translation().z() = 3;
  m[3].linear() = Eigen::AngleAxisd(-0.7, Eigen::Vector3d(1, 2, 3).normalized()).toRotationMatrix(); m[3].translation() = Eigen::Vector3d(-10, 4, 1);
  return m;
}
template<class P> static typename pcl::PointCloud<P>::Ptr Scan(int kind, int index)
{
  typename pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>());
  for (int i = 0; i < kind; i++) {P p; p.x = 1 + index + 0.5f * i; p.y = -2 + i; p.z = 0.125f * index; Fill<P>::Do(p, 10 * index + i); c->push_back(p);}
  c->header.frame_id = "lidar"; c->header.stamp = 100 + index;
  return c;
}
template<class P> static std::vector<Expect> Transformed(const Eigen::Isometry3d & t, const pcl::PointCloud<P> & c)
{
  std::vector<Expect> r;
  for (auto & p : c) {r.push_back({t * Eigen::Vector3d(p.x, p.y, p.z), Other<P>::Of(p)});}
  return r;
}
template<class P> static std::string Diff(const pcl::PointCloud<P> & c, const std::vector<std::vector<Expect>> & scans, int n)
{
  std::vector<Expect> want;
  const int from = std::max(0, static_cast<int>(scans.size()) - n);
  for (size_t i = from; i < scans.size(); i++) {want.insert(want.end(), scans[i].begin(), scans[i].end());}
  if (c.size() != want.size()) {return mc::format("%zu points, expected %zu", c.size(), want.size());}
  if (static_cast<size_t>(c.width) * c.height != c.size()) {return mc::format("width %u and height %u for %zu points", c.width, c.height, c.size());}
  for (size_t i = 0; i < want.size(); i++) {
    const Eigen::Vector3d g(c[i].x, c[i].y, c[i].z);
    if (!((g - want[i].v).norm() < 1e-4 * (1 + want[i].v.norm())) || Other<P>::Of(c[i]) != want[i].other) {
      return mc::format("point %zu is (%g %g %g | %g), expected (%g %g %g | %g)", i, g.x(), g.y(), g.z(), Other<P>::Of(c[i]), want[i].v.x(), want[i].v.y(), want[i].v.z(), want[i].other);
    }
  }
  return "";
}
// the scan buffer
template<class P> static void Buffer(mc::Ctx & ctx, int depth)
{
  RecentScans<P> s;
  std::vector<std::vector<Expect>> model;
  const auto moves = Moves();
  std::string h;
  const int n = ctx.range(0, depth);
  CHECK(s.IsEmpty() && s.GetAll()->size() == 0 && s.GetRecent(3)->size() == 0, "a new buffer is not empty");
  for (int i = 0; i < n; i++) {
    const int kind = ctx.choose(3), m = ctx.choose(4);
    auto scan = Scan<P>(kind, i);
    h += mc::format("add(%d points, pose %d) ", kind, m);
    s.Add(moves[m], scan);
    model.push_back(Transformed(moves[m], *scan));
    if (ctx.flag()) {h += "(then changed) "; for (auto & p : *scan) {p.x = 777; Fill<P>::Do(p, 99);} scan->push_back(P());}
    CHECK(!s.IsEmpty(), "%s: empty", h.c_str());
    ctx.step();
    std::string d = Diff<P>(*s.GetAll(), model, 1000);
    CHECK(d.empty(), "%s: all scans: %s", h.c_str(), d.c_str());
    for (int k = 0; k <= i + 3; k++) {
      auto r = s.GetRecent(k);
      d = Diff<P>(*r, model, k);
      CHECK(d.empty(), "%s: the last %d: %s", h.c_str(), k, d.c_str());
      for (auto & p : *r) {p.x = -555;}                  // the result is a copy
    }
    auto all = s.GetAll();
    for (auto & p : *all) {p.y = -555;}
    d = Diff<P>(*s.GetAll(), model, 1000);
    CHECK(d.empty(), "%s: after the returned clouds were changed: %s", h.c_str(), d.c_str());
  }
  ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(buffer_xyz) {Buffer<pcl::PointXYZ>(ctx, mc::tier(3, 5));}
MC_SCENARIO(buffer_xyzcr) {Buffer<PointXYZCR>(ctx, mc::tier(4, 5));}
// far more scans than the bound
MC_SCENARIO(long_buffer)
{
  const int n = ctx.pick({0, 1, 2, 7, 50}), total = ctx.pick({1, 7, 8, 49, 51, 120});
  PointCloudMap<pcl::PointXYZI> map(n);
  RecentScans<pcl::PointXYZI> scans;
  std::vector<std::vector<Expect>> model;
  const auto moves = Moves();
  for (int i = 0; i < total; i++) {
    auto scan = Scan<pcl::PointXYZI>(1 + i % 3, i);
    map.Add(moves[i % 4], scan); model.push_back(Transformed(moves[i % 4], *scan));
    const std::string d = Diff<pcl::PointXYZI>(*map.GetRecent(), model, n);
    CHECK(d.empty() && !map.IsEmpty(), "%d scans kept of %d: %s", n, i + 1, d.c_str());
    scans.Add(moves[i % 4], scan);
    const std::string a = Diff<pcl::PointXYZI>(*scans.GetAll(), model, total);
    CHECK(a.empty(), "all of %d scans: %s", i + 1, a.c_str());
    ctx.step();
  }
  ctx.outcome(n * 1000 + total);
}

// a long drive with scans as large as real ones
MC_SCENARIO(long_drive)
{
  const int n = ctx.pick({1, 30, 1000}), total = mc::tier(1300, 5000), size = ctx.pick({1, 250});
  PointCloudMap<pcl::PointXYZ> map(n);
  RecentScans<pcl::PointXYZ> scans;
  std::vector<std::vector<Expect>> model;
  const auto moves = Moves();
  for (int i = 0; i < total; i++) {
    auto scan = Scan<pcl::PointXYZ>(size == 1 ? i % 2 : size + i % 5, i);
    map.Add(moves[i % 4], scan); scans.Add(moves[i % 4], scan); model.push_back(Transformed(moves[i % 4], *scan));
    ctx.step();
    if (i % 100 != 99 && (i > 1030 || i < 1020) && i != total - 1) {continue;}
    const std::string d = Diff<pcl::PointXYZ>(*map.GetRecent(), model, n);
    CHECK(d.empty() && !map.IsEmpty(), "%d scans kept of %d: %s", n, i + 1, d.c_str());
    if (i % 400 != 399 && i != total - 1) {continue;}
    const std::string a = Diff<pcl::PointXYZ>(*scans.GetAll(), model, total);
    CHECK(a.empty(), "all of %d scans: %s", i + 1, a.c_str());
  }
  ctx.outcome(n * 1000 + size);
}

struct Call {std::vector<Eigen::Vector3d> map; size_t scan_points; Eigen::Isometry3d from;};
static std::vector<Call> g_calls;
static int g_constructed = 0;
static Eigen::Isometry3d g_next;
template<class P> struct Updater
{
  using Ptr = typename pcl::PointCloud<P>::Ptr;
  Ptr map;
  explicit Updater(const Ptr & m) : map(m) {g_constructed++;}
  Eigen::Isometry3d operator()(const Ptr & scan, const Eigen::Isometry3d & pose) const
  {
    Call c; c.scan_points = scan->size(); c.from = pose;
    for (auto & p : *map) {c.map.push_back(Eigen::Vector3d(p.x, p.y, p.z));}
    g_calls.push_back(c);
    return g_next;
  }
};
MC_SCENARIO(odometry)
{
  using P = PointXYZCR; using Map = PointCloudMap<P>;
  const int n = ctx.pick({1, 2, 3, 7});
  auto map = std::make_shared<Map>(n);
  Odometry<Updater<P>, Map, pcl::PointCloud<P>::Ptr> odometry(map);
  g_calls.clear(); g_constructed = 0;
  const auto moves = Moves();
  std::vector<std::vector<Expect>> model;
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  std::string h = mc::format("last %d: ", n);
  const int scans = mc::tier(4, 5);
  CHECK(odometry.CurrentPose().matrix() == pose.matrix(), "the first pose is not the identity");
  for (int i = 0; i < scans; i++) {
    const int kind = ctx.choose(3), m = i == 0 ? 1 : ctx.choose(4);
    g_next = pose * moves[m];
    auto scan = Scan<P>(kind, i);
    h += mc::format("scan(%d points, moved %d) ", kind, m);
    const Eigen::Isometry3d before = pose;
    odometry.Update(scan);
    if (i > 0) {pose = g_next;}
    CHECK((odometry.CurrentPose().matrix() - pose.matrix()).norm() < 1e-12, "%s: pose %s, expected %s", h.c_str(), mc::mstr(odometry.CurrentPose().matrix()).c_str(), mc::mstr(pose.matrix()).c_str());
    CHECK(static_cast<int>(g_calls.size()) == i, "%s: %zu pose updates after %d scans", h.c_str(), g_calls.size(), i + 1);
    if (i > 0) {
      const Call & c = g_calls.back();
      CHECK(c.from.matrix() == before.matrix() && c.scan_points == scan->size(), "%s: updated from another pose or with another scan", h.c_str());
      std::vector<Eigen::Vector3d> want;
      for (size_t k = std::max(0, static_cast<int>(model.size()) - n); k < model.size(); k++) {for (auto & e : model[k]) {want.push_back(e.v);}}
      CHECK(want.size() == c.map.size(), "%s: updated against %zu map points, expected %zu", h.c_str(), c.map.size(), want.size());
      for (size_t k = 0; k < want.size(); k++) {CHECK((want[k] - c.map[k]).norm() < 1e-4 * (1 + want[k].norm()), "%s: map point %zu is %s, expected %s", h.c_str(), k, mc::mstr(c.map[k].transpose()).c_str(), mc::mstr(want[k].transpose()).c_str());}
    }
    model.push_back(Transformed(pose, *scan));
    if (i % 2) {for (auto & p : *scan) {p.z = 99;} scan->clear();}        // the caller reuses its cloud
    const std::string d = Diff<P>(*map->GetRecent(), model, n);
    CHECK(d.empty(), "%s: the map holds %s", h.c_str(), d.c_str());
    ctx.step();
  }
  ctx.outcome(mc::hash_str(h)); ctx.note("%s", h.c_str());
}
MC_MAIN

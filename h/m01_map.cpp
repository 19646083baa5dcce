// M01: every sequence of scans and poses through the map builder.
#include "mc/mc.hpp"
#include "map_events.hpp"
#include "lidar_feature_mapping/map.hpp"

static void Sequences(mc::Ctx & ctx, int depth, const std::vector<int> & poses)
{
  shim::reset();
  MapBuilder<PointXYZCR> b;
  MapModel m;
  std::string h;
  for (int i = 0; i < depth; i++) {
    const int points = ctx.choose(2) * (1 + i % 2), pose = poses[ctx.choose(poses.size())];
    h += mc::format("%d points at %s; ", points, kPoses[pose].name);
    const auto cloud = MakeScan(points, i, 5 + i);
    auto keep = cloud;
    const auto p = MakePoseMessage(kPoses[pose].pose, 5 + i, i % 2);
    auto cp = std::make_shared<sensor_msgs::msg::PointCloud2>(cloud); auto pp = std::make_shared<geometry_msgs::msg::PoseStamped>(p);
    const size_t before = m.points.size();
    const bool added = m.Add(points, i, kPoses[pose].pose);
    b.Callback(cp, pp);
    for (auto & byte : cp->data) {byte = 0xEE;}              // the map does not refer to the message
    const std::string d = m.Diff(*b.map_->map_ptr_);
    CHECK(d.empty(), "%s: %s, the map had %zu points: %s", h.c_str(), added ? "to be added" : "not to be added", before, d.c_str());
    CHECK(b.map_->IsEmpty() == m.points.empty(), "%s: emptiness", h.c_str());
    ctx.step(); ctx.count(added ? "added" : "skipped", 1);
  }
  ctx.outcome(mc::hash_str(h)); ctx.note("%s", h.c_str());
}
MC_SCENARIO(sequences) {std::vector<int> all; for (int i = 0; i < kNPoses; i++) {all.push_back(i);} Sequences(ctx, mc::tier(4, 5), all);}
MC_SCENARIO(longer) {Sequences(ctx, mc::tier(7, 9), {0, 1, 2});}
// slow motion: many steps, each below the threshold
MC_SCENARIO(slow_motion)
{
  shim::reset();
  const double step = ctx.pick({0.01, 0.07, 0.26, 0.51, 0.99, 1.5}), turn = ctx.pick({0., 0.003, 0.045, 0.15}); const int n = ctx.pick({40, 700});
  MapBuilder<PointXYZCR> b; MapModel m;
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity(), move = Eigen::Isometry3d::Identity();
  move.translation() = Eigen::Vector3d(step, 0, 0); move.linear() = Eigen::AngleAxisd(turn, Eigen::Vector3d::UnitZ()).toRotationMatrix();
  for (int i = 0; i < n; i++) {
    auto cp = std::make_shared<sensor_msgs::msg::PointCloud2>(MakeScan(1, i, i)); auto pp = std::make_shared<geometry_msgs::msg::PoseStamped>(MakePoseMessage(pose, i, false));
    b.Callback(cp, pp); m.Add(1, i, pose);
    if (i > 50 && i % 50 != 49) {pose = pose * move; continue;}
    const std::string d = m.Diff(*b.map_->map_ptr_);
    CHECK(d.empty(), "steps of %g m and %g rad, after %d scans: %s", step, turn, i + 1, d.c_str());
    pose = pose * move; ctx.step();
  }
  ctx.outcome(mc::hash_double(mc::hash_double(n, step), turn));
}
// scans of many points, empty ones between them
MC_SCENARIO(large_scans)
{
  shim::reset();
  MapBuilder<PointXYZCR> b; MapModel m;
  std::string h;
  for (int i = 0; i < 4; i++) {
    const int n = ctx.pick({0, 1, 1025, 30000});
    h += mc::format("%d ", n);
    const auto pose = At(1.5 * i, -0.25 * i, 2, 0.75 * i, Eigen::Vector3d(1, 2, 3 + i));
    auto cp = std::make_shared<sensor_msgs::msg::PointCloud2>(MakeScan(n, i, i)); auto pp = std::make_shared<geometry_msgs::msg::PoseStamped>(MakePoseMessage(pose, i, false));
    b.Callback(cp, pp); m.Add(n, i, pose);
    const std::string d = m.Diff(*b.map_->map_ptr_);
    CHECK(d.empty(), "scans of %s points: %s", h.c_str(), d.c_str());
    ctx.step();
  }
  ctx.outcome(mc::hash_str(h));
}
// a long drive: many scans, a large map, stamps as they come from a sensor
MC_SCENARIO(long_drive)
{
  shim::reset();
  const int scans = mc::tier(1500, 8000), size = ctx.pick({1, 420}); const double step = ctx.pick({0.4, 1.1}); const bool turns = ctx.flag();
  MapBuilder<PointXYZCR> b; MapModel m;
  for (int i = 0; i < scans; i++) {
    const int64_t ns = 1700000000000000000LL + i * 100000137LL;
    const int n = i % 9 == 4 ? 0 : size == 1 ? 1 + i % 2 : size + i % 7;
    const auto pose = At(step * i, 0.001 * i, 1, turns ? 0.05 * i : 0);
    auto pm = MakePoseMessage(pose, ns / 1000000000, false); pm.header.stamp.nanosec = ns % 1000000000;
    auto cp = std::make_shared<sensor_msgs::msg::PointCloud2>(MakeScan(n, i, ns / 1000000000, ns % 1000000000)); auto pp = std::make_shared<geometry_msgs::msg::PoseStamped>(pm);
    b.Callback(cp, pp); m.Add(n, i, pose);
    ctx.step();
    CHECK(b.map_->map_ptr_->size() == m.points.size(), "steps of %g m, after %d scans: %zu points, expected %zu", step, i + 1, b.map_->map_ptr_->size(), m.points.size());
    if (i % 250 == 249 || i == scans - 1) {const std::string d = m.Diff(*b.map_->map_ptr_); CHECK(d.empty(), "steps of %g m, after %d scans of %d points: %s", step, i + 1, size, d.c_str());}
  }
  ctx.outcome(mc::hash_double(size * 2 + turns, step));
}
MC_MAIN

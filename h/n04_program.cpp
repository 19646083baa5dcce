// N04: the localisation program itself: refuses to start without its maps, publishes what its localiser computes.
#include "mc/mc.hpp"
#include "scratch.hpp"
#define main localization_main
#include "localization/app/localization.cpp"
#undef main
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
static void Room(Cloud & edge, Cloud & surface)
{
  for (int i = 0; i < 20; i++) {
    for (int c = 0; c < 4; c++) {edge.push_back(pcl::PointXYZ(c & 1 ? 6 : -5, c & 2 ? 4 : -3, 0.2f * i));}
    for (int c = 0; c < 2; c++) {edge.push_back(pcl::PointXYZ(-5 + 0.55f * i, c ? 4 : -3, 4)); edge.push_back(pcl::PointXYZ(c ? 6 : -5, -3 + 0.35f * i, 4));}
  }
  for (int i = 0; i < 22; i++) {for (int j = 0; j < 16; j++) {surface.push_back(pcl::PointXYZ(-5 + 0.5f * i, -3 + 0.45f * j, 0));}}
  for (int i = 0; i < 20; i++) {for (int j = 0; j < 10; j++) {surface.push_back(pcl::PointXYZ(6, -3 + 0.35f * i, 0.4f * j)); surface.push_back(pcl::PointXYZ(-5 + 0.55f * i, 4, 0.4f * j));}}
}
static Eigen::Isometry3d Move(double x, double y, double z, double yaw)
{
  Eigen::Isometry3d t(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ())); t.translation() = Eigen::Vector3d(x, y, z); return t;
}
static Eigen::Isometry3d Iso(const geometry_msgs::msg::Pose & p)
{
  Eigen::Isometry3d t(Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z));
  t.translation() = Eigen::Vector3d(p.position.x, p.position.y, p.position.z);
  return t;
}
static Cloud::Ptr Seen(const Cloud & map, const Eigen::Isometry3d & pose, int every)
{
  Cloud::Ptr c(new Cloud);
  for (size_t i = 0; i < map.size(); i += every) {const Eigen::Vector3d v = pose.inverse() * Eigen::Vector3d(map[i].x, map[i].y, map[i].z); c->push_back(pcl::PointXYZ(v.x(), v.y(), v.z()));}
  return c;
}
MC_SCENARIO(maps_present)
{
  Scratch s;
  const int which = ctx.choose(4);
  Cloud edge, surface; Room(edge, surface);
  mkdir("maps", 0755);
  if (which & 1) {pcl::io::savePCDFileBinary("maps/edge.pcd", edge);}
  if (which & 2) {pcl::io::savePCDFileASCII("maps/surface.pcd", surface);}
  shim::reset();
  bool spun = false;
  shim::world().on_spin = [&] {spun = true;};
  const int rc = localization_main(0, nullptr);
  CHECK(spun == (which == 3) && (rc == 0) == (which == 3), "edge map %s, surface map %s: exit code %d, %s", which & 1 ? "present" : "missing", which & 2 ? "present" : "missing", rc, spun ? "started" : "not started");
  ctx.step(); ctx.outcome(which);
}
MC_SCENARIO(localisation)
{
  Scratch s;
  Cloud::Ptr edge(new Cloud), surface(new Cloud); Room(*edge, *surface);
  mkdir("maps", 0755);
  pcl::io::savePCDFileBinary("maps/edge.pcd", *edge); pcl::io::savePCDFileBinary("maps/surface.pcd", *surface);
  const Eigen::Isometry3d truth = Move(ctx.pick({0., 0.7}), 0.3, 1, ctx.pick({0., 0.4}));
  const Eigen::Isometry3d prior = truth * Move(ctx.pick({-0.2, 0., 0.1}), ctx.pick({0., 0.15}), 0.05, ctx.pick({0., 0.04}));
  const bool odom = ctx.flag();
  const Cloud::Ptr e = Seen(*edge, truth, 2), f = Seen(*surface, truth, 3);
  Localizer<PointXYZToVector, pcl::PointXYZ> direct(edge, surface, 40);
  direct.Init(prior); direct.Update(std::make_tuple(e, f));
  shim::reset();
  bool spun = false;
  shim::world().on_spin = [&] {
      spun = true;
      const Eigen::Quaterniond q(prior.linear());
      geometry_msgs::msg::PoseStamped p; p.header.stamp.sec = 5; p.pose.position.x = prior.translation().x(); p.pose.position.y = prior.translation().y(); p.pose.position.z = prior.translation().z();
      p.pose.orientation.x = q.x(); p.pose.orientation.y = q.y(); p.pose.orientation.z = q.z(); p.pose.orientation.w = q.w();
      if (odom) {nav_msgs::msg::Odometry o; o.header = p.header; o.pose.pose = p.pose; shim::deliver("optimization_start_odom", o);} else {shim::deliver("optimization_start_pose", p);}
      sensor_msgs::msg::PointCloud2 me, ms; pcl::toROSMsg(*e, me); pcl::toROSMsg(*f, ms);
      me.header.stamp.sec = ms.header.stamp.sec = 5; me.header.stamp.nanosec = ms.header.stamp.nanosec = 7;
      shim::deliver("scan_edge", me); shim::deliver("scan_surface", ms);
      ctx.step();
      const auto out = shim::sent<geometry_msgs::msg::PoseWithCovarianceStamped>("estimated_pose");
      CHECK(out.size() == 1 && shim::world().tf.size() == 1, "%zu poses and %zu transforms for one scan", out.size(), shim::world().tf.size());
      const Eigen::Isometry3d got = Iso(out[0]->pose.pose);
      CHECK((got.matrix() - direct.Get().matrix()).norm() < 1e-6, "published %s, the localiser gives %s", mc::mstr(got.matrix()).c_str(), mc::mstr(direct.Get().matrix()).c_str());
      const double off = (got.translation() - truth.translation()).norm();
      CHECK(off < 0.02 && (got.linear() - truth.linear()).norm() < 0.01, "published %s, the scan was taken at %s", mc::mstr(got.matrix()).c_str(), mc::mstr(truth.matrix()).c_str());
      ctx.outcome(mc::hash_double(got.translation().x(), got.translation().y()));
    };
  const int rc = localization_main(0, nullptr);
  CHECK(spun && rc == 0, "the program did not start");
}
MC_MAIN

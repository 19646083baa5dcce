#ifndef MAP_EVENTS_HPP_
#define MAP_EVENTS_HPP_
#include <pcl/point_cloud.h>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <pcl_conversions/pcl_conversions.h>
#include "lidar_feature_library/point_type.hpp"
inline Eigen::Isometry3d At(double x, double y, double z, double angle, const Eigen::Vector3d & axis = Eigen::Vector3d::UnitZ())
{
  Eigen::Isometry3d t(Eigen::AngleAxisd(angle, axis.normalized())); t.translation() = Eigen::Vector3d(x, y, z); return t;
}
struct NamedPose {const char * name; Eigen::Isometry3d pose;};
static const NamedPose kPoses[] = {
  {"0", At(0, 0, 0, 0)}, {"x = .6", At(.6, 0, 0, 0)}, {"x = 1.2", At(1.2, 0, 0, 0)}, {"x = 1", At(1, 0, 0, 0)}, {"(.6 .6 .6)", At(.6, .6, .6, 0)}, {"(-.55 .55 -.55)", At(-.55, .55, -.55, 0)},
  {"turn .19", At(0, 0, 0, .19)}, {"turn .21 about (1 1 1)", At(0, 0, 0, .21, Eigen::Vector3d(1, 1, 1))}, {"turn -.3, x = .3", At(.3, 0, 0, -.3)}, {"half turn", At(0, 0, 0, M_PI - 1e-3)},
  {"far away", At(-3000, 12000, 40, 2.5, Eigen::Vector3d(0.1, 0.2, 1))}, {"far away and .5", At(-3000.3, 12000.4, 40, 2.5, Eigen::Vector3d(0.1, 0.2, 1))},
  {"far away and turned", At(-3000, 12000.2, 40, 2.6, Eigen::Vector3d(0.1, 0.2, 1))}};
static const int kNPoses = sizeof kPoses / sizeof kPoses[0];
struct MapPoint {Eigen::Vector3d v; float curvature; int ring;};
inline std::vector<MapPoint> ScanPoints(int n, int index)
{
  std::vector<MapPoint> r;
  for (int i = 0; i < n; i++) {r.push_back({Eigen::Vector3d(2 + index + 0.25 * i, -1 - i, 0.5 * index), 0.125f * (index + 1) + i, (3 + index + i) % 60000});}
  return r;
}
inline sensor_msgs::msg::PointCloud2 MakeScan(int n, int index, int sec, unsigned nanosec = 0)
{
  pcl::PointCloud<PointXYZCR> c;
  for (auto & m : ScanPoints(n, index)) {PointXYZCR p; p.x = m.v.x(); p.y = m.v.y(); p.z = m.v.z(); p.curvature = m.curvature; p.ring = m.ring; c.push_back(p);}
  sensor_msgs::msg::PointCloud2 m; pcl::toROSMsg(c, m);
  m.header.stamp.sec = sec; m.header.stamp.nanosec = nanosec; m.header.frame_id = "lidar_feature_base_link";
  return m;
}
inline geometry_msgs::msg::PoseStamped MakePoseMessage(const Eigen::Isometry3d & t, int sec, bool negated, unsigned nanosec = 0)
{
  geometry_msgs::msg::PoseStamped p; const Eigen::Quaterniond q(t.linear()); const double s = negated ? -1 : 1;   // the same rotation
  p.header.stamp.sec = sec; p.header.stamp.nanosec = nanosec; p.header.frame_id = "map";
  p.pose.position.x = t.translation().x(); p.pose.position.y = t.translation().y(); p.pose.position.z = t.translation().z();
  p.pose.orientation.x = s * q.x(); p.pose.orientation.y = s * q.y(); p.pose.orientation.z = s * q.z(); p.pose.orientation.w = s * q.w();
  return p;
}
struct MapModel
{
  std::vector<MapPoint> points; Eigen::Isometry3d last;
  bool Add(int n, int index, const Eigen::Isometry3d & pose)
  {
    if (n == 0) {return false;}
    if (!points.empty()) {
      const Eigen::Isometry3d d = last.inverse() * pose;
      const Eigen::Matrix3d & R = d.linear();
      // |vec(q)| = sin(angle / 2)
      const double c = (R.trace() - 1) / 2, s = 0.5 * Eigen::Vector3d(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1)).norm();
      const double half = std::sin(0.5 * std::atan2(s, c));
      if ((pose.translation() - last.translation()).norm() < 1 && half < 0.1) {return false;}
    }
    for (auto p : ScanPoints(n, index)) {p.v = pose * p.v; points.push_back(p);}
    last = pose;
    return true;
  }
  std::string Diff(const pcl::PointCloud<PointXYZCR> & c) const
  {
    if (c.size() != points.size()) {return mc::format("%zu points, expected %zu", c.size(), points.size());}
    for (size_t i = 0; i < points.size(); i++) {
      const Eigen::Vector3d g(c[i].x, c[i].y, c[i].z);
      if (!((g - points[i].v).norm() < 1e-6 * (10 + points[i].v.norm())) || c[i].curvature != points[i].curvature || static_cast<int>(c[i].ring) != points[i].ring) {
        return mc::format("point %zu is (%g %g %g, %g, %d), expected (%g %g %g, %g, %d)", i, g.x(), g.y(), g.z(), c[i].curvature, int(c[i].ring), points[i].v.x(), points[i].v.y(), points[i].v.z(), points[i].curvature, points[i].ring);
      }
    }
    return "";
  }
};
#endif

#ifndef EKF_MSGS_HPP_
#define EKF_MSGS_HPP_
#include <cmath>
#include <limits>
#include <tf2/utils.h>
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
#include <geometry_msgs/msg/twist_with_covariance_stamped.hpp>
#include "ref_ekf.hpp"
using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped;
using TwistMsg = geometry_msgs::msg::TwistWithCovarianceStamped;
static const double kNan = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();
static const std::vector<int> kPoseAt = {0, 1, 2}, kTwistAt = {4, 5};
inline builtin_interfaces::msg::Time Stamp(int64_t ns) {builtin_interfaces::msg::Time t; t.sec = ns / 1000000000; t.nanosec = ns % 1000000000; return t;}
inline PoseMsg MakePoseMsg(int64_t stamp, double x, double y, double z, double roll, double pitch, double yaw, const std::string & frame = "map")
{
  PoseMsg m;
  m.header.stamp = Stamp(stamp); m.header.frame_id = frame;
  m.pose.pose.position.x = x; m.pose.pose.position.y = y; m.pose.pose.position.z = z;
  const Eigen::Quaterniond q = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX());
  m.pose.pose.orientation.x = q.x(); m.pose.pose.orientation.y = q.y(); m.pose.pose.orientation.z = q.z(); m.pose.pose.orientation.w = q.w();
  for (int i = 0; i < 36; i++) {m.pose.covariance[i] = 0;}
  // a full, unsymmetric-looking but valid block, and junk where nothing is read from
  const double block[3][3] = {{0.5, 0.05, 0.02}, {0.05, 0.75, -0.03}, {0.02, -0.03, 0.25}};
  const int at[3] = {0, 1, 5};
  for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {m.pose.covariance[6 * at[i] + at[j]] = block[i][j];}}
  m.pose.covariance[14] = 0.4; m.pose.covariance[21] = 0.2; m.pose.covariance[28] = 0.1;
  return m;
}
inline TwistMsg MakeTwistMsg(int64_t stamp, double vx, double wz)
{
  TwistMsg m;
  m.header.stamp = Stamp(stamp); m.header.frame_id = "base_link";
  m.twist.twist.linear.x = vx; m.twist.twist.angular.z = wz;
  m.twist.twist.linear.y = 17; m.twist.twist.angular.x = -19;   // not measured
  for (int i = 0; i < 36; i++) {m.twist.covariance[i] = 0;}
  m.twist.covariance[0] = 0.5; m.twist.covariance[5] = m.twist.covariance[30] = 0.1; m.twist.covariance[35] = 0.25;
  m.twist.covariance[7] = 3; m.twist.covariance[14] = 5;
  return m;
}
inline int64_t Nanoseconds(const builtin_interfaces::msg::Time & t) {return t.sec * 1000000000LL + t.nanosec;}
inline ref::Measured Measure(const PoseMsg & m, int smoothing)
{
  ref::Measured r; r.stamp = Nanoseconds(m.header.stamp); r.angle = 2;
  r.y.resize(3); r.y << m.pose.pose.position.x, m.pose.pose.position.y, 0;
  const auto & q = m.pose.pose.orientation;
  const double n = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w), w = q.w / n, x = q.x / n, y = q.y / n, z = q.z / n;
  r.y(2) = std::atan2(2 * (x * y + w * z), 1 - 2 * (y * y + z * z));
  r.R.resize(3, 3);
  const int at[3] = {0, 1, 5};
  for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {r.R(i, j) = m.pose.covariance[6 * at[i] + at[j]] * smoothing;}}
  return r;
}
inline ref::Measured Measure(const TwistMsg & m, int smoothing)
{
  ref::Measured r; r.stamp = Nanoseconds(m.header.stamp);
  r.y.resize(2); r.y << m.twist.twist.linear.x, m.twist.twist.angular.z;
  r.R.resize(2, 2);
  const int at[2] = {0, 5};
  for (int i = 0; i < 2; i++) {for (int j = 0; j < 2; j++) {r.R(i, j) = m.twist.covariance[6 * at[i] + at[j]] * smoothing;}}
  return r;
}
#endif

// Stand-in for pcl_conversions.
#ifndef SHIM_ROS_PCL_HPP_
#define SHIM_ROS_PCL_HPP_
#include <pcl/PCLPointCloud2.h>
#include <pcl/PCLPointField.h>
#include <pcl/conversions.h>
#include <pcl/io/pcd_io.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "ros_core.hpp"
namespace pcl_conversions
{
inline void fromPCL(const std::uint64_t & s, rclcpp::Time & t) {t = rclcpp::Time(static_cast<int64_t>(s * 1000ull));}
inline rclcpp::Time fromPCL(const std::uint64_t & s) {rclcpp::Time t; fromPCL(s, t); return t;}
inline std_msgs::msg::Header fromPCL(const pcl::PCLHeader & h)
{
  std_msgs::msg::Header r; r.stamp = rclcpp::Time(static_cast<int64_t>(h.stamp * 1000ull)); r.frame_id = h.frame_id; return r;
}
inline pcl::PCLHeader toPCL(const std_msgs::msg::Header & h)
{
  pcl::PCLHeader r; r.stamp = static_cast<std::uint64_t>(rclcpp::Time(h.stamp).nanoseconds() / 1000); r.frame_id = h.frame_id; return r;
}
inline void copyMeta(const sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p)
{
  p.header = toPCL(m.header); p.height = m.height; p.width = m.width;
  p.fields.resize(m.fields.size());
  for (size_t i = 0; i < m.fields.size(); i++) {
    p.fields[i].name = m.fields[i].name; p.fields[i].offset = m.fields[i].offset;
    p.fields[i].datatype = m.fields[i].datatype; p.fields[i].count = m.fields[i].count;
  }
  p.is_bigendian = m.is_bigendian; p.point_step = m.point_step; p.row_step = m.row_step; p.is_dense = m.is_dense;
}
inline void toPCL(const sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p) {copyMeta(m, p); p.data.assign(m.data.begin(), m.data.end());}
inline void moveToPCL(sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p) {toPCL(m, p);}
inline void fromPCL(const pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m)
{
  m.header = fromPCL(p.header); m.height = p.height; m.width = p.width;
  m.fields.resize(p.fields.size());
  for (size_t i = 0; i < p.fields.size(); i++) {
    m.fields[i].name = p.fields[i].name; m.fields[i].offset = p.fields[i].offset;
    m.fields[i].datatype = p.fields[i].datatype; m.fields[i].count = p.fields[i].count;
  }
  m.is_bigendian = p.is_bigendian; m.point_step = p.point_step; m.row_step = p.row_step; m.is_dense = p.is_dense;
  m.data.assign(p.data.begin(), p.data.end());
}
inline void moveFromPCL(pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m) {fromPCL(p, m);}
}
namespace pcl
{
template<class T> void toROSMsg(const pcl::PointCloud<T> & c, sensor_msgs::msg::PointCloud2 & m)
{
  pcl::PCLPointCloud2 p; pcl::toPCLPointCloud2(c, p); pcl_conversions::moveFromPCL(p, m);
}
template<class T> void fromROSMsg(const sensor_msgs::msg::PointCloud2 & m, pcl::PointCloud<T> & c)
{
  pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p);
  if (m.width * static_cast<size_t>(m.height) > 0 && m.data.size() < static_cast<size_t>(m.row_step) * m.height) {
    throw std::runtime_error("shim: malformed PointCloud2");
  }
  pcl::fromPCLPointCloud2(p, c);
}
namespace io
{
inline int loadPCDFile(const std::string & f, sensor_msgs::msg::PointCloud2 & m)
{
  pcl::PCLPointCloud2 p; const int r = pcl::io::loadPCDFile(f, p); pcl_conversions::moveFromPCL(p, m); return r;
}
inline int savePCDFile(const std::string & f, const sensor_msgs::msg::PointCloud2 & m)
{
  pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p);
  return pcl::io::savePCDFile(f, p, Eigen::Vector4f::Zero(), Eigen::Quaternionf::Identity(), false);
}
}
}
#endif

// Stand-ins for the ROS 2 message packages the repository uses: same fields, same defaults, no middleware.
#ifndef SHIM_ROS_MSGS_HPP_
#define SHIM_ROS_MSGS_HPP_
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#define SHIM_SET(f) auto & set__##f(const decltype(f) & v) {f = v; return *this;}
#define SHIM_PTRS(T) \
  using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>; using ConstUniquePtr = std::unique_ptr<const T>; \
  using _shim_is_message = void;

namespace builtin_interfaces::msg
{
struct Time
{
  SHIM_PTRS(Time)
  int32_t sec = 0; uint32_t nanosec = 0; SHIM_SET(sec) SHIM_SET(nanosec)
  bool operator==(const Time & o) const {return sec == o.sec && nanosec == o.nanosec;}
  bool operator!=(const Time & o) const {return !(*this == o);}
};
struct Duration
{
  SHIM_PTRS(Duration) int32_t sec = 0; uint32_t nanosec = 0;
  bool operator==(const Duration & o) const {return sec == o.sec && nanosec == o.nanosec;}
};
}
namespace std_msgs::msg
{
struct Header
{
  SHIM_PTRS(Header)
  builtin_interfaces::msg::Time stamp; std::string frame_id; SHIM_SET(stamp) SHIM_SET(frame_id)
  bool operator==(const Header & o) const {return stamp == o.stamp && frame_id == o.frame_id;}
  bool operator!=(const Header & o) const {return !(*this == o);}
};
struct ColorRGBA {SHIM_PTRS(ColorRGBA) float r = 0, g = 0, b = 0, a = 0;};
struct String {SHIM_PTRS(String) std::string data;};
struct Empty {SHIM_PTRS(Empty)};
struct Bool {SHIM_PTRS(Bool) bool data = false;};
struct Int32 {SHIM_PTRS(Int32) int32_t data = 0;};
struct Float32 {SHIM_PTRS(Float32) float data = 0;};
struct Float64 {SHIM_PTRS(Float64) double data = 0;};
struct Float64MultiArray {SHIM_PTRS(Float64MultiArray) std::vector<double> data;};
}
namespace geometry_msgs::msg
{
struct Point
{
  SHIM_PTRS(Point) double x = 0, y = 0, z = 0; SHIM_SET(x) SHIM_SET(y) SHIM_SET(z)
  bool operator==(const Point & o) const {return x == o.x && y == o.y && z == o.z;}
};
struct Vector3
{
  SHIM_PTRS(Vector3) double x = 0, y = 0, z = 0; SHIM_SET(x) SHIM_SET(y) SHIM_SET(z)
  bool operator==(const Vector3 & o) const {return x == o.x && y == o.y && z == o.z;}
};
struct Quaternion
{
  SHIM_PTRS(Quaternion) double x = 0, y = 0, z = 0, w = 1; SHIM_SET(x) SHIM_SET(y) SHIM_SET(z) SHIM_SET(w)
  bool operator==(const Quaternion & o) const {return x == o.x && y == o.y && z == o.z && w == o.w;}
};
struct Pose
{
  SHIM_PTRS(Pose) Point position; Quaternion orientation; SHIM_SET(position) SHIM_SET(orientation)
  bool operator==(const Pose & o) const {return position == o.position && orientation == o.orientation;}
};
struct PoseStamped
{
  SHIM_PTRS(PoseStamped) std_msgs::msg::Header header; Pose pose; SHIM_SET(header) SHIM_SET(pose)
  bool operator==(const PoseStamped & o) const {return header == o.header && pose == o.pose;}
};
struct PointStamped {SHIM_PTRS(PointStamped) std_msgs::msg::Header header; Point point;};
struct Vector3Stamped {SHIM_PTRS(Vector3Stamped) std_msgs::msg::Header header; Vector3 vector;};
struct QuaternionStamped {SHIM_PTRS(QuaternionStamped) std_msgs::msg::Header header; Quaternion quaternion;};
struct PoseArray {SHIM_PTRS(PoseArray) std_msgs::msg::Header header; std::vector<Pose> poses;};
struct PoseWithCovariance {SHIM_PTRS(PoseWithCovariance) Pose pose; std::array<double, 36> covariance{}; SHIM_SET(pose) SHIM_SET(covariance)
  bool operator==(const PoseWithCovariance & o) const {return pose == o.pose && covariance == o.covariance;}};
struct PoseWithCovarianceStamped {SHIM_PTRS(PoseWithCovarianceStamped) std_msgs::msg::Header header; PoseWithCovariance pose; SHIM_SET(header) SHIM_SET(pose)
  bool operator==(const PoseWithCovarianceStamped & o) const {return header == o.header && pose == o.pose;}};
struct Transform {SHIM_PTRS(Transform) Vector3 translation; Quaternion rotation;
  bool operator==(const Transform & o) const {return translation == o.translation && rotation == o.rotation;}};
struct TransformStamped
{
  SHIM_PTRS(TransformStamped) std_msgs::msg::Header header; std::string child_frame_id; Transform transform; SHIM_SET(header) SHIM_SET(child_frame_id) SHIM_SET(transform)
};
struct Twist {SHIM_PTRS(Twist) Vector3 linear, angular;
  bool operator==(const Twist & o) const {return linear == o.linear && angular == o.angular;}};
struct TwistStamped {SHIM_PTRS(TwistStamped) std_msgs::msg::Header header; Twist twist;};
struct TwistWithCovariance {SHIM_PTRS(TwistWithCovariance) Twist twist; std::array<double, 36> covariance{};
  bool operator==(const TwistWithCovariance & o) const {return twist == o.twist && covariance == o.covariance;}};
struct TwistWithCovarianceStamped {SHIM_PTRS(TwistWithCovarianceStamped) std_msgs::msg::Header header; TwistWithCovariance twist;
  bool operator==(const TwistWithCovarianceStamped & o) const {return header == o.header && twist == o.twist;}
};
}
namespace nav_msgs::msg
{
struct Odometry
{
  SHIM_PTRS(Odometry) std_msgs::msg::Header header; std::string child_frame_id;
  geometry_msgs::msg::PoseWithCovariance pose; geometry_msgs::msg::TwistWithCovariance twist;
};
struct Path {SHIM_PTRS(Path) std_msgs::msg::Header header; std::vector<geometry_msgs::msg::PoseStamped> poses;};
}
namespace sensor_msgs::msg
{
struct PointField
{
  SHIM_PTRS(PointField)
  PointField & set__name(const std::string & v) {name = v; return *this;}
  PointField & set__offset(uint32_t v) {offset = v; return *this;}
  PointField & set__datatype(uint8_t v) {datatype = v; return *this;}
  PointField & set__count(uint32_t v) {count = v; return *this;}
  static constexpr uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
  std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0;
  bool operator==(const PointField & o) const
  {
    return name == o.name && offset == o.offset && datatype == o.datatype && count == o.count;
  }
};
struct PointCloud2
{
  SHIM_PTRS(PointCloud2)
  std_msgs::msg::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields;
  bool is_bigendian = false; uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; bool is_dense = false; SHIM_SET(header) SHIM_SET(height) SHIM_SET(width) SHIM_SET(fields) SHIM_SET(is_bigendian) SHIM_SET(point_step) SHIM_SET(row_step) SHIM_SET(data) SHIM_SET(is_dense)
  bool operator==(const PointCloud2 & o) const
  {
    return header == o.header && height == o.height && width == o.width && fields == o.fields && is_bigendian == o.is_bigendian &&
           point_step == o.point_step && row_step == o.row_step && data == o.data && is_dense == o.is_dense;
  }
};
struct Imu
{
  SHIM_PTRS(Imu) std_msgs::msg::Header header; geometry_msgs::msg::Quaternion orientation;
  std::array<double, 9> orientation_covariance{}; geometry_msgs::msg::Vector3 angular_velocity;
  std::array<double, 9> angular_velocity_covariance{}; geometry_msgs::msg::Vector3 linear_acceleration;
  std::array<double, 9> linear_acceleration_covariance{};
};
}
namespace visualization_msgs::msg
{
struct MarkerArray;
struct Marker
{
  SHIM_PTRS(Marker)
  static constexpr int32_t ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, CUBE_LIST = 6,
    SPHERE_LIST = 7, POINTS = 8, TEXT_VIEW_FACING = 9, MESH_RESOURCE = 10, TRIANGLE_LIST = 11;
  static constexpr int32_t ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3;
  std_msgs::msg::Header header; std::string ns; int32_t id = 0; int32_t type = 0; int32_t action = 0;
  geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale; std_msgs::msg::ColorRGBA color;
  builtin_interfaces::msg::Duration lifetime; bool frame_locked = false;
  std::vector<geometry_msgs::msg::Point> points; std::vector<std_msgs::msg::ColorRGBA> colors; std::string text;
};
struct MarkerArray {SHIM_PTRS(MarkerArray) std::vector<Marker> markers;};
}
#endif

// Stand-ins for tf2 LinearMath, tf2_eigen, tf2_geometry_msgs: the same formulas as the originals.
#ifndef SHIM_ROS_TF_HPP_
#define SHIM_ROS_TF_HPP_
#include <Eigen/Geometry>
#include "ros_core.hpp"
namespace tf2
{
class Quaternion;
class Vector3
{
public:
  Vector3() {}
  Vector3(double x, double y, double z) : m_floats{x, y, z, 0} {}
  double x() const {return m_floats[0];} double y() const {return m_floats[1];} double z() const {return m_floats[2];}
  double getX() const {return m_floats[0];} double getY() const {return m_floats[1];} double getZ() const {return m_floats[2];}
  void setX(double v) {m_floats[0] = v;} void setY(double v) {m_floats[1] = v;} void setZ(double v) {m_floats[2] = v;}
  void setValue(double x, double y, double z) {*this = Vector3(x, y, z);}
  double & operator[](int i) {return m_floats[i];}
  const double & operator[](int i) const {return m_floats[i];}
  Vector3 operator+(const Vector3 & o) const {return Vector3(x() + o.x(), y() + o.y(), z() + o.z());}
  Vector3 operator-(const Vector3 & o) const {return Vector3(x() - o.x(), y() - o.y(), z() - o.z());}
  Vector3 operator-() const {return Vector3(-x(), -y(), -z());}
  Vector3 operator*(double s) const {return Vector3(x() * s, y() * s, z() * s);}
  Vector3 operator/(double s) const {return *this * (1.0 / s);}
  Vector3 & operator+=(const Vector3 & o) {return *this = *this + o;}
  Vector3 & operator-=(const Vector3 & o) {return *this = *this - o;}
  Vector3 & operator*=(double s) {return *this = *this * s;}
  double dot(const Vector3 & o) const {return x() * o.x() + y() * o.y() + z() * o.z();}
  Vector3 cross(const Vector3 & o) const {return Vector3(y() * o.z() - z() * o.y(), z() * o.x() - x() * o.z(), x() * o.y() - y() * o.x());}
  double length2() const {return dot(*this);}
  double length() const {return std::sqrt(length2());}
  double distance(const Vector3 & o) const {return (o - *this).length();}
  Vector3 & normalize() {return *this = *this / length();}
  Vector3 normalized() const {return *this / length();}
  bool operator==(const Vector3 & o) const {return x() == o.x() && y() == o.y() && z() == o.z();}
  double m_floats[4] = {0, 0, 0, 0};
};
inline Vector3 operator*(double s, const Vector3 & v) {return v * s;}
class Quaternion
{
public:
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  Quaternion(const Vector3 & axis, double angle) {setRotation(axis, angle);}
  double x() const {return x_;} double y() const {return y_;} double z() const {return z_;} double w() const {return w_;}
  double getX() const {return x_;} double getY() const {return y_;} double getZ() const {return z_;} double getW() const {return w_;}
  void setX(double v) {x_ = v;} void setY(double v) {y_ = v;} void setZ(double v) {z_ = v;} void setW(double v) {w_ = v;}
  void setValue(double x, double y, double z, double w) {*this = Quaternion(x, y, z, w);}
  static Quaternion getIdentity() {return Quaternion(0, 0, 0, 1);}
  double length2() const {return x_ * x_ + y_ * y_ + z_ * z_ + w_ * w_;}
  double length() const {return std::sqrt(length2());}
  double dot(const Quaternion & q) const {return x_ * q.x_ + y_ * q.y_ + z_ * q.z_ + w_ * q.w_;}
  Quaternion inverse() const {return Quaternion(-x_, -y_, -z_, w_);}
  Quaternion operator-() const {return Quaternion(-x_, -y_, -z_, -w_);}
  Quaternion operator*(double s) const {return Quaternion(x_ * s, y_ * s, z_ * s, w_ * s);}
  Quaternion operator/(double s) const {return *this * (1.0 / s);}
  Quaternion & operator*=(const Quaternion & q) {return *this = Mul(*this, q);}
  static Quaternion Mul(const Quaternion & a, const Quaternion & b)
  {
    return Quaternion(a.w_ * b.x_ + a.x_ * b.w_ + a.y_ * b.z_ - a.z_ * b.y_, a.w_ * b.y_ + a.y_ * b.w_ + a.z_ * b.x_ - a.x_ * b.z_,
      a.w_ * b.z_ + a.z_ * b.w_ + a.x_ * b.y_ - a.y_ * b.x_, a.w_ * b.w_ - a.x_ * b.x_ - a.y_ * b.y_ - a.z_ * b.z_);
  }
  void setRotation(const Vector3 & axis, double angle)
  {
    const double s = std::sin(angle * 0.5) / axis.length();
    *this = Quaternion(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  double getAngle() const {return 2.0 * std::acos(w_);}
  Vector3 getAxis() const
  {
    const double s2 = 1.0 - w_ * w_;
    if (s2 < 10.0 * std::numeric_limits<double>::epsilon()) {return Vector3(1.0, 0.0, 0.0);}
    const double s = std::sqrt(s2);
    return Vector3(x_ / s, y_ / s, z_ / s);
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = cos(hy), sy = sin(hy), cp = cos(hp), sp = sin(hp), cr = cos(hr), sr = sin(hr);
    x_ = sr * cp * cy - cr * sp * sy;
    y_ = cr * sp * cy + sr * cp * sy;
    z_ = cr * cp * sy - sr * sp * cy;
    w_ = cr * cp * cy + sr * sp * sy;
  }
  void setEulerZYX(double yaw, double pitch, double roll) {setRPY(roll, pitch, yaw);}
  Quaternion & normalize() {const double l = std::sqrt(length2()); x_ /= l; y_ /= l; z_ /= l; w_ /= l; return *this;}
  Quaternion normalized() const {return *this / length();}
private:
  double x_ = 0, y_ = 0, z_ = 0, w_ = 0;
};
inline Quaternion operator*(const Quaternion & a, const Quaternion & b) {return Quaternion::Mul(a, b);}
inline Vector3 quatRotate(const Quaternion & r, const Vector3 & v)
{
  const Quaternion q = r * Quaternion(v.x(), v.y(), v.z(), 0) * r.inverse();
  return Vector3(q.x(), q.y(), q.z());
}
class Matrix3x3
{
public:
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion & q) {setRotation(q);}
  Matrix3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i)
  : m_{{a, b, c}, {d, e, f}, {g, h, i}} {}
  static Matrix3x3 getIdentity() {return Matrix3x3(1, 0, 0, 0, 1, 0, 0, 0, 1);}
  void setIdentity() {*this = getIdentity();}
  void setRotation(const Quaternion & q)
  {
    const double s = 2.0 / q.length2();
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    const double m[3][3] = {{1.0 - (yy + zz), xy - wz, xz + wy}, {xy + wz, 1.0 - (xx + zz), yz - wx}, {xz - wy, yz + wx, 1.0 - (xx + yy)}};
    std::memcpy(m_, m, sizeof m);
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double ci = cos(roll), cj = cos(pitch), ch = cos(yaw), si = sin(roll), sj = sin(pitch), sh = sin(yaw);
    const double cc = ci * ch, cs = ci * sh, sc = si * ch, ss = si * sh;
    *this = Matrix3x3(cj * ch, sj * sc - cs, sj * cc + ss, cj * sh, sj * ss + cc, sj * cs - sc, -sj, cj * si, cj * ci);
  }
  void setEulerYPR(double yaw, double pitch, double roll) {setRPY(roll, pitch, yaw);}
  void getEulerYPR(double & yaw, double & pitch, double & roll, unsigned = 1) const
  {
    if (std::fabs(m_[2][0]) >= 1) {
      yaw = 0;
      const double delta = std::atan2(m_[2][1], m_[2][2]);
      if (m_[2][0] < 0) {pitch = M_PI / 2.0; roll = delta;} else {pitch = -M_PI / 2.0; roll = delta;}
    } else {
      pitch = -std::asin(m_[2][0]);
      roll = std::atan2(m_[2][1] / std::cos(pitch), m_[2][2] / std::cos(pitch));
      yaw = std::atan2(m_[1][0] / std::cos(pitch), m_[0][0] / std::cos(pitch));
    }
  }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned s = 1) const {getEulerYPR(yaw, pitch, roll, s);}
  void getRotation(Quaternion & q) const
  {
    Eigen::Matrix3d R;
    for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {R(i, j) = m_[i][j];}}
    const Eigen::Quaterniond e(R);
    q = Quaternion(e.x(), e.y(), e.z(), e.w());
  }
  const double * operator[](int i) const {return m_[i];}
  Vector3 getRow(int i) const {return Vector3(m_[i][0], m_[i][1], m_[i][2]);}
  Vector3 getColumn(int i) const {return Vector3(m_[0][i], m_[1][i], m_[2][i]);}
  Matrix3x3 transpose() const
  {
    return Matrix3x3(m_[0][0], m_[1][0], m_[2][0], m_[0][1], m_[1][1], m_[2][1], m_[0][2], m_[1][2], m_[2][2]);
  }
  Vector3 operator*(const Vector3 & v) const {return Vector3(getRow(0).dot(v), getRow(1).dot(v), getRow(2).dot(v));}
  Matrix3x3 operator*(const Matrix3x3 & o) const
  {
    Matrix3x3 r;
    for (int i = 0; i < 3; i++) {for (int j = 0; j < 3; j++) {r.m_[i][j] = getRow(i).dot(o.getColumn(j));}}
    return r;
  }
private:
  double m_[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
};
class Transform
{
public:
  Transform() {}
  explicit Transform(const Quaternion & q, const Vector3 & o = Vector3()) : b_(q), o_(o) {}
  explicit Transform(const Matrix3x3 & b, const Vector3 & o = Vector3()) : b_(b), o_(o) {}
  const Matrix3x3 & getBasis() const {return b_;}
  const Vector3 & getOrigin() const {return o_;}
  Quaternion getRotation() const {Quaternion q; b_.getRotation(q); return q;}
  void setOrigin(const Vector3 & o) {o_ = o;}
  void setBasis(const Matrix3x3 & b) {b_ = b;}
  void setRotation(const Quaternion & q) {b_.setRotation(q);}
  void setIdentity() {b_.setIdentity(); o_ = Vector3();}
  static Transform getIdentity() {return Transform(Matrix3x3::getIdentity());}
  Transform inverse() const {const Matrix3x3 t = b_.transpose(); return Transform(t, t * -o_);}
  Transform inverseTimes(const Transform & t) const {return inverse() * t;}
  Transform operator*(const Transform & t) const {return Transform(b_ * t.b_, (*this) * t.o_);}
  Transform & operator*=(const Transform & t) {return *this = *this * t;}
  Vector3 operator*(const Vector3 & v) const {return b_ * v + o_;}
  Quaternion operator*(const Quaternion & q) const {return getRotation() * q;}
private:
  Matrix3x3 b_; Vector3 o_;
};
inline void fromMsg(const geometry_msgs::msg::Quaternion & in, Quaternion & out) {out = Quaternion(in.x, in.y, in.z, in.w);}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & in)
{
  geometry_msgs::msg::Quaternion o; o.x = in.x(); o.y = in.y(); o.z = in.z(); o.w = in.w(); return o;
}
inline void fromMsg(const geometry_msgs::msg::Vector3 & in, Vector3 & out) {out = Vector3(in.x, in.y, in.z);}
inline void fromMsg(const geometry_msgs::msg::Point & in, Vector3 & out) {out = Vector3(in.x, in.y, in.z);}
inline geometry_msgs::msg::Vector3 toMsg(const Vector3 & in)
{
  geometry_msgs::msg::Vector3 o; o.x = in.x(); o.y = in.y(); o.z = in.z(); return o;
}
inline geometry_msgs::msg::Point & toMsg(const Vector3 & in, geometry_msgs::msg::Point & o)
{
  o.x = in.x(); o.y = in.y(); o.z = in.z(); return o;
}
inline void fromMsg(const geometry_msgs::msg::Transform & in, Transform & out)
{
  Quaternion q; fromMsg(in.rotation, q); out = Transform(q, Vector3(in.translation.x, in.translation.y, in.translation.z));
}
inline void fromMsg(const geometry_msgs::msg::Pose & in, Transform & out)
{
  Quaternion q; fromMsg(in.orientation, q); out = Transform(q, Vector3(in.position.x, in.position.y, in.position.z));
}
inline geometry_msgs::msg::Transform toMsg(const Transform & in)
{
  geometry_msgs::msg::Transform t; t.translation = toMsg(in.getOrigin()); t.rotation = toMsg(in.getRotation()); return t;
}
inline geometry_msgs::msg::Pose & toMsg(const Transform & in, geometry_msgs::msg::Pose & o)
{
  toMsg(in.getOrigin(), o.position); o.orientation = toMsg(in.getRotation()); return o;
}
inline void getEulerYPR(const Quaternion & q, double & yaw, double & pitch, double & roll)
{
  // as tf2/impl/utils.h
  const double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) {
    pitch = -0.5 * M_PI; roll = 0; yaw = -2 * atan2(q.y(), q.x());
  } else if (sarg >= 0.99999) {
    pitch = 0.5 * M_PI; roll = 0; yaw = 2 * atan2(q.y(), q.x());
  } else {
    pitch = asin(sarg);
    roll = atan2(2 * (q.y() * q.z() + q.w() * q.x()), sqw - sqx - sqy + sqz);
    yaw = atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
  }
}
inline void getEulerYPR(const geometry_msgs::msg::Quaternion & m, double & yaw, double & pitch, double & roll)
{
  Quaternion q; fromMsg(m, q); getEulerYPR(q, yaw, pitch, roll);
}
inline double getYaw(const Quaternion & q)
{
  const double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) {return -2 * atan2(q.y(), q.x());}
  if (sarg >= 0.99999) {return 2 * atan2(q.y(), q.x());}
  return atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
}
inline double getYaw(const geometry_msgs::msg::Quaternion & m) {Quaternion q; fromMsg(m, q); return getYaw(q);}

template<class A, class B, class = void> struct requires_from_msg : std::false_type {};
template<class A, class B> struct requires_from_msg<A, B, std::void_t<typename A::_shim_is_message>> : std::true_type {};
// tf2_eigen
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Isometry3d & out)
{
  out = Eigen::Isometry3d(Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z));
}
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Affine3d & out)
{
  out = Eigen::Affine3d(Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z));
}
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Eigen::Quaterniond & out) {out = Eigen::Quaterniond(m.w, m.x, m.y, m.z);}
inline void fromMsg(const geometry_msgs::msg::Point & m, Eigen::Vector3d & out) {out = Eigen::Vector3d(m.x, m.y, m.z);}
template<int Mode> geometry_msgs::msg::Pose ShimToMsg(const Eigen::Transform<double, 3, Mode> & in)
{
  geometry_msgs::msg::Pose m;
  m.position.x = in.translation().x(); m.position.y = in.translation().y(); m.position.z = in.translation().z();
  const Eigen::Quaterniond q(in.linear());
  m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); m.orientation.w = q.w();
  if (m.orientation.w < 0) {
    m.orientation.x *= -1; m.orientation.y *= -1; m.orientation.z *= -1; m.orientation.w *= -1;
  }
  return m;
}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & in) {return ShimToMsg(in);}
inline geometry_msgs::msg::Pose toMsg(const Eigen::Affine3d & in) {return ShimToMsg(in);}
inline geometry_msgs::msg::Quaternion toMsg(const Eigen::Quaterniond & q)
{
  geometry_msgs::msg::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m;
}
template<int Mode> geometry_msgs::msg::TransformStamped ShimEigenToTransform(const Eigen::Transform<double, 3, Mode> & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x(); t.transform.translation.y = T.translation().y();
  t.transform.translation.z = T.translation().z();
  const Eigen::Quaterniond q(T.linear());
  t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y(); t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
  return t;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T) {return ShimEigenToTransform(T);}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & T) {return ShimEigenToTransform(T);}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
    Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t) {return transformToEigen(t.transform);}
inline geometry_msgs::msg::Point toMsg(const Eigen::Vector3d & v)
{
  geometry_msgs::msg::Point m; m.x = v.x(); m.y = v.y(); m.z = v.z(); return m;
}
inline void fromMsg(const geometry_msgs::msg::Vector3 & m, Eigen::Vector3d & out) {out = Eigen::Vector3d(m.x, m.y, m.z);}
inline geometry_msgs::msg::Vector3 & toMsg(const Eigen::Vector3d & v, geometry_msgs::msg::Vector3 & m)
{
  m.x = v.x(); m.y = v.y(); m.z = v.z(); return m;
}
template<class A, class B> void convert(const A & a, B & b)
{
  if constexpr (std::is_same_v<A, B>) {b = a;}
  else if constexpr (requires_from_msg<A, B>::value) {fromMsg(a, b);}
  else {b = toMsg(a);}
}
inline Eigen::Isometry3d ShimIsometry(const geometry_msgs::msg::TransformStamped & t) {return transformToEigen(t);}
inline void doTransform(const geometry_msgs::msg::Point & in, geometry_msgs::msg::Point & out, const geometry_msgs::msg::TransformStamped & t)
{
  const Eigen::Vector3d p = ShimIsometry(t) * Eigen::Vector3d(in.x, in.y, in.z); out = toMsg(p);
}
inline void doTransform(const geometry_msgs::msg::Pose & in, geometry_msgs::msg::Pose & out, const geometry_msgs::msg::TransformStamped & t)
{
  const Eigen::Vector3d p = ShimIsometry(t) * Eigen::Vector3d(in.position.x, in.position.y, in.position.z);
  Quaternion a, b; fromMsg(t.transform.rotation, a); fromMsg(in.orientation, b);
  out.position = toMsg(p); out.orientation = toMsg(a * b);
}
inline void doTransform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out, const geometry_msgs::msg::TransformStamped & t)
{
  doTransform(in.pose, out.pose, t); out.header = t.header;
}
}
#endif

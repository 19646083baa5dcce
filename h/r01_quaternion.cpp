// R01: quaternion multiplication matrices, hat, roll-pitch-yaw and rotation-vector conversion.
#include "mc/mc.hpp"
#include "rotationlib/quaternion.hpp"
#include "rotationlib/hat.hpp"
#include "lidar_feature_localization/posevec.hpp"

using Q = std::array<double, 4>;  // w x y z
static Q Mul(const Q & a, const Q & b)
{
  return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
    a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
    a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
    a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
}
static Eigen::Vector4d V(const Q & q) {return Eigen::Vector4d(q[0], q[1], q[2], q[3]);}
static std::string S(const Q & q) {return mc::format("(%g %g %g %g)", q[0], q[1], q[2], q[3]);}
static bool Near(const Eigen::Vector4d & a, const Eigen::Vector4d & b, double t) {return (a - b).cwiseAbs().maxCoeff() <= t;}

// Both matrices are linear in their quaternion and the product is bilinear, so a lattice containing a basis in
// each argument decides the identity for every pair; the rest of the lattice guards against non-linear mistakes.
MC_SCENARIO(products)
{
  static const double a[] = {0, 1, -2, 0.5, 3e5};
  Q q, r;
  for (auto & x : q) {x = a[ctx.choose(mc::tier(4, 5))];}
  for (auto & x : r) {x = a[ctx.choose(mc::tier(4, 5))];}
  ctx.note("q %s r %s", S(q).c_str(), S(r).c_str());
  const Eigen::Quaterniond eq(q[0], q[1], q[2], q[3]), er(r[0], r[1], r[2], r[3]);
  const Q p = Mul(q, r);
  const double tol = 1e-13 * (1 + V(q).norm() * V(r).norm());
  const Eigen::Vector4d l = rotationlib::LeftMultiplicationMatrix(eq) * V(r);
  const Eigen::Vector4d m = rotationlib::RightMultiplicationMatrix(er) * V(q);
  CHECK(Near(l, V(p), tol), "left matrix of %s times %s is %s, expected %s", S(q).c_str(), S(r).c_str(), mc::mstr(l).c_str(), S(p).c_str());
  CHECK(Near(m, V(p), tol), "right matrix of %s times %s is %s, expected %s", S(r).c_str(), S(q).c_str(), mc::mstr(m).c_str(), S(p).c_str());
  const Eigen::Vector4d t = rotationlib::ToWXYZ(eq);
  CHECK(t == V(q), "ToWXYZ of %s is %s", S(q).c_str(), mc::mstr(t).c_str());
  const Eigen::Quaterniond f = rotationlib::FromWXYZ(V(q));
  CHECK(f.w() == q[0] && f.x() == q[1] && f.y() == q[2] && f.z() == q[3], "FromWXYZ of %s", S(q).c_str());
  CHECK(rotationlib::ToWXYZ(rotationlib::FromWXYZ(V(r))) == V(r), "round trip of %s", S(r).c_str());
  ctx.step(5);
  ctx.outcome(mc::hash_str(S(p)));
}

MC_SCENARIO(hat)
{
  static const double a[] = {0, 1, -1, 2, 0.25, -7, 1e6, 1e-6};
  Eigen::Vector3d v, w;
  for (int i = 0; i < 3; i++) {v(i) = a[ctx.choose(mc::tier(6, 8))];}
  for (int i = 0; i < 3; i++) {w(i) = a[ctx.choose(mc::tier(6, 8))];}
  const Eigen::Matrix3d H = rotationlib::Hat(v);
  CHECK((H + H.transpose()).isZero(0), "hat matrix of %s is not skew-symmetric", mc::mstr(v).c_str());
  const Eigen::Vector3d c(v(1) * w(2) - v(2) * w(1), v(2) * w(0) - v(0) * w(2), v(0) * w(1) - v(1) * w(0));
  const Eigen::Vector3d h = H * w;
  CHECK((h - c).cwiseAbs().maxCoeff() <= 1e-13 * (1 + v.norm() * w.norm()), "hat of %s times %s is %s", mc::mstr(v).c_str(), mc::mstr(w).c_str(), mc::mstr(h).c_str());
  ctx.step(2);
  ctx.outcome(mc::hash_str(mc::mstr(v) + mc::mstr(w)));
}

static Eigen::Matrix3d Rot(int axis, double t)
{
  const double c = std::cos(t), s = std::sin(t);
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  const int i = (axis + 1) % 3, j = (axis + 2) % 3;
  R(i, i) = c; R(j, j) = c; R(i, j) = -s; R(j, i) = s;
  return R;
}
static Eigen::Matrix3d RotOf(const Eigen::Quaterniond & q)
{
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::Matrix3d R;
  R << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
    2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
    2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
  return R;
}
static std::vector<double> Angles()
{
  std::vector<double> v = {0, 1e-9, -1e-9, 1e-4, 0.1, -2.5, 10., -77.};
  for (int d = -360; d <= 360; d += mc::tier(45, 30)) {if (d) {v.push_back(d * M_PI / 180);}}
  return v;
}

MC_SCENARIO(roll_pitch_yaw)
{
  static const std::vector<double> a = Angles();
  const double roll = ctx.pick(a), pitch = ctx.pick(a), yaw = ctx.pick(a);
  const Eigen::Matrix3d E = Rot(2, yaw) * Rot(1, pitch) * Rot(0, roll);
  const Eigen::Quaterniond q = rotationlib::RPYToQuaternionXYZ(roll, pitch, yaw);
  CHECK(mc::close(q.norm(), 1, 1e-13, 0), "rpy (%g %g %g) gives norm %.17g", roll, pitch, yaw, q.norm());
  const Eigen::Matrix3d R = RotOf(q);
  CHECK((R - E).cwiseAbs().maxCoeff() < 1e-13 * (1 + 10), "rpy (%g %g %g) gives %s, expected %s", roll, pitch, yaw, mc::mstr(R).c_str(), mc::mstr(E).c_str());
  ctx.step();
  ctx.outcome(mc::hash_str(mc::mstr(R)));
}

MC_SCENARIO(rotation_vector)
{
  static const double mags[] = {0, 1e-300, 1e-12, 1e-9, 9.9e-9, 1.01e-8, 2e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, .01, .1, .5, 1, M_PI / 2, 3, M_PI, 3.5, 5, 2 * M_PI, 7, 4 * M_PI, 30};
  const double mag = mags[ctx.choose(sizeof mags / sizeof *mags)];
  Eigen::Vector3d d;
  for (int i = 0; i < 3; i++) {static const double a[] = {0, 1, -1, 2, -0.3}; d(i) = a[ctx.choose(5)];}
  if (d.norm() == 0) {d(0) = 1;}
  const Eigen::Vector3d theta = d.normalized() * mag;
  const Eigen::Quaterniond q = AngleAxisToQuaternion(theta);
  CHECK(mc::close(q.norm(), 1, 1e-13, 0), "rotation vector %s gives norm %.17g", mc::mstr(theta).c_str(), q.norm());
  const double k = theta.norm();
  const Eigen::Vector3d xyz = d.normalized() * std::sin(k / 2);
  const Eigen::Vector4d e(std::cos(k / 2), xyz(0), xyz(1), xyz(2)), g(q.w(), q.x(), q.y(), q.z());
  const double tol = 1e-13 * (1 + mag) + (k < 1.5e-8 ? 1e-8 : 0);
  CHECK(Near(e, g, tol), "rotation vector %s gives %s, expected %s", mc::mstr(theta).c_str(), mc::mstr(g).c_str(), mc::mstr(e).c_str());
  if (mag == 0) {CHECK(q.w() == 1 && q.vec().norm() == 0, "the zero vector gives %s", mc::mstr(g).c_str());}
  Eigen::Vector3d t; for (int i = 0; i < 3; i++) {t(i) = ctx.pick({0., -12.5});}
  const Eigen::Isometry3d P = MakePose(q, t);
  CHECK((P.linear() - RotOf(q)).cwiseAbs().maxCoeff() < 1e-13 && P.translation() == t && P.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1),
    "MakePose of %s and %s is %s", mc::mstr(g).c_str(), mc::mstr(t).c_str(), mc::mstr(P.matrix()).c_str());
  ctx.step(2);
  ctx.outcome(mc::hash_str(mc::mstr(theta)));
}
MC_MAIN

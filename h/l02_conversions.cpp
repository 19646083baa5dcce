// L02: message, covariance, cloud and marker conversions; rigid transforms.
#include <functional>
#include "mc/mc.hpp"
#include "lidar_feature_library/convert_point_cloud_type.hpp"
#include "lidar_feature_library/downsample.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/pcl_utils.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/ros_msg.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"
#include "lidar_feature_localization/pointcloud_to_matrix.hpp"

static std::vector<Eigen::Quaterniond> Rotations()
{
  std::vector<Eigen::Quaterniond> r;
  const double c[] = {0, 1, -1, 0.5, 0.3};
  for (double w : c) {for (double x : c) {for (double y : c) {for (double z : c) {
          const Eigen::Quaterniond q(w, x, y, z);
          if (q.norm() > 0.1) {r.push_back(q.normalized());}
        }}}}
  for (double a : {1e-9, 1e-4, 0.02, 3.14159, 3.1415}) {
    for (const auto & v : {Eigen::Vector3d(1, 0, 0), Eigen::Vector3d(0, -1, 0), Eigen::Vector3d(0, 0, 1), Eigen::Vector3d(1, -2, .3)}) {r.push_back(Eigen::Quaterniond(Eigen::AngleAxisd(a, v.normalized())));}
  }
  return r;
}
static const std::vector<Eigen::Quaterniond> kRot = Rotations();
static const std::vector<double> kV{0, 1, -2.5, 1e-7, 12345.678};
static Eigen::Vector3d PickV(mc::Ctx & ctx) {const double a = ctx.pick(kV), b = ctx.pick(kV), c = ctx.pick(kV); return {a, b, c};}

static Eigen::Matrix3d RefR(const Eigen::Quaterniond & q)
{
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::Matrix3d r;
  r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
    2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
    2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return r;
}
template<class Q> static bool SameRotation(const Q & o, const Eigen::Matrix3d & r)
{
  const Eigen::Quaterniond q(o.w, o.x, o.y, o.z);
  return std::fabs(q.norm() - 1) < 1e-9 && mc::mclose(RefR(q), r, 1e-9, 1e-9);
}
template<class P> static bool SameV(const P & p, const Eigen::Vector3d & v) {return p.x == v(0) && p.y == v(1) && p.z == v(2);}

MC_SCENARIO(poses)
{
  const int rot = ctx.choose(kRot.size());
  const Eigen::Quaterniond & q = kRot[rot];
  const Eigen::Vector3d t = PickV(ctx);
  const Eigen::Matrix3d R = RefR(q);
  Eigen::Isometry3d T = MakeIsometry3d(q, t);
  ctx.note("q %s t %s", mc::mstr(q.coeffs().transpose()).c_str(), mc::mstr(t.transpose()).c_str());
  CHECK(mc::mclose(T.linear(), R, 1e-9, 1e-9) && T.translation() == t, "MakeIsometry3d rotation %s", mc::mstr(T.matrix()).c_str());
  CHECK(T.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "last row %s", mc::mstr(T.matrix().row(3)).c_str());
  static const std::pair<int32_t, uint32_t> kStamps[] = {{1234, 987654321u}, {0, 0}, {0, 1}, {1700000000, 123456789u}, {2147483647, 999999999u}, {59, 500000000u}, {1, 5u}};
  const auto & at = kStamps[(rot + int(std::fabs(t.sum()))) % 7];
  const rclcpp::Time stamp(at.first, at.second, RCL_ROS_TIME);
  const auto stamp_ok = [&](const std_msgs::msg::Header & h, const char * frame) {
      return h.stamp.sec == at.first && h.stamp.nanosec == at.second && h.frame_id == frame;
    };
  const auto pose = MakePose(T);
  CHECK(SameV(pose.position, t) && SameRotation(pose.orientation, R), "MakePose");
  const auto back = GetIsometry3d(pose);
  CHECK(mc::mclose(back.matrix(), T.matrix(), 1e-9, 1e-9), "GetIsometry3d(MakePose(T)) = %s for %s", mc::mstr(back.matrix()).c_str(), mc::mstr(T.matrix()).c_str());
  const auto ps = MakePoseStamped(T, stamp, "frame_a");
  CHECK(stamp_ok(ps.header, "frame_a") && SameV(ps.pose.position, t) && SameRotation(ps.pose.orientation, R), "MakePoseStamped");
  Matrix6d C;
  for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {C(i, j) = 10 * i + j + t(0);}}
  const auto pc = MakePoseWithCovariance(T, C);
  const auto pcs = MakePoseWithCovarianceStamped(T, C, stamp, "frame_b");
  CHECK(stamp_ok(pcs.header, "frame_b") && SameV(pcs.pose.pose.position, t) && SameRotation(pcs.pose.pose.orientation, R), "MakePoseWithCovarianceStamped");
  CHECK(SameV(pc.pose.position, t) && SameRotation(pc.pose.orientation, R), "MakePoseWithCovariance");
  for (int i = 0; i < 6; i++) {for (int j = 0; j < 6; j++) {
      CHECK(pc.covariance[6 * i + j] == C(i, j) && pcs.pose.covariance[6 * i + j] == C(i, j), "covariance entry (%d, %d)", i, j);}}
  const auto tf = MakeTransformStamped(T, stamp, "frame_c", "child_d");
  CHECK(stamp_ok(tf.header, "frame_c") && tf.child_frame_id == "child_d" && SameV(tf.transform.translation, t) &&
    SameRotation(tf.transform.rotation, R), "MakeTransformStamped");
  for (double scale : {1., -1., 1e-3, 2., 0.}) {
    geometry_msgs::msg::Quaternion qm; qm.w = scale * q.w(); qm.x = scale * q.x(); qm.y = scale * q.y(); qm.z = scale * q.z();
    const auto qe = ToQuaterniond(qm);
    CHECK(qe.w() == qm.w && qe.x() == qm.x && qe.y() == qm.y && qe.z() == qm.z, "ToQuaterniond");
  }
  for (int n = 3; n <= 5; n++) {
    Eigen::VectorXd p(n);
    p.head(3) = Eigen::Vector3d(1.5, -2, 30);
    for (int k = 3; k < n; k++) {p(k) = 7. * k;}
    const Eigen::VectorXd r = TransformXYZ(T, p), p0 = p;
    CHECK(r.size() == n && mc::mclose(r.head(3), (R * p0.head(3) + t).eval(), 1e-9, 1e-9), "TransformXYZ of %s is %s", mc::mstr(p0.transpose()).c_str(), mc::mstr(r.transpose()).c_str());
    for (int k = 3; k < n; k++) {CHECK(r(k) == p0(k), "component %d changed", k);}
  }
  pcl::PointCloud<pcl::PointXYZI>::Ptr cloud(new pcl::PointCloud<pcl::PointXYZI>());
  for (int i = 0; i < 3; i++) {pcl::PointXYZI p; p.x = i; p.y = 2 * i - 1; p.z = 3 - i; p.intensity = i + 100; cloud->push_back(p);}
  const auto moved = TransformPointCloud<pcl::PointXYZI>(Eigen::Affine3d(T.matrix()), cloud);
  CHECK(moved->size() == 3 && cloud->size() == 3, "TransformPointCloud size");
  for (int i = 0; i < 3; i++) {
    const Eigen::Vector3d e = R * Eigen::Vector3d(i, 2 * i - 1, 3 - i) + t;
    CHECK((GetXYZ(moved->at(i)) - e).cwiseAbs().maxCoeff() <= 1.3e-7 * (t.cwiseAbs().maxCoeff() + 10) && moved->at(i).intensity == i + 100, "TransformPointCloud point %d", i);
    CHECK(cloud->at(i).x == i, "the source cloud changed");
  }
  ctx.step(12);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(vectors)
{
  const Eigen::Vector3d a = PickV(ctx), b = a + Eigen::Vector3d(100, 200, 300);
  CHECK(SameV(MakePoint(a), a) && SameV(MakeVector3(a), a), "MakePoint / MakeVector3 of %s", mc::mstr(a.transpose()).c_str());
  CHECK(ToVector3d(MakePoint(a)) == a && ToVector3d(MakeVector3(a)) == a, "ToVector3d");
  const auto tw = MakeTwist(a, b);
  CHECK(SameV(tw.linear, a) && SameV(tw.angular, b), "MakeTwist");
  const auto ts = MakeTwistStamped(a, b, rclcpp::Time(5, 6, RCL_ROS_TIME), "fr");
  CHECK(SameV(ts.twist.linear, a) && SameV(ts.twist.angular, b) && ts.header.stamp.sec == 5 && ts.header.stamp.nanosec == 6 && ts.header.frame_id == "fr", "MakeTwistStamped");
  const auto p = MakePointXYZ(a);
  CHECK(p.x == float(a(0)) && p.y == float(a(1)) && p.z == float(a(2)), "MakePointXYZ");
  const auto v = GetXYZ(p);
  CHECK(v(0) == p.x && v(1) == p.y && v(2) == p.z, "GetXYZ");
  ctx.step(6);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(covariances)
{
  const int i = ctx.choose(36), j = ctx.choose(36);
  std::array<double, 36> a{};
  a[i] += 3; a[j] += 5;
  const Matrix6d m = GetEigenCovariance(a);
  for (int r = 0; r < 6; r++) {for (int c = 0; c < 6; c++) {CHECK(m(r, c) == a[6 * r + c], "GetEigenCovariance (%d, %d)", r, c);}}
  Matrix6d n = Matrix6d::Zero();
  n(i / 6, i % 6) += 3; n(j / 6, j % 6) += 5;
  const auto b = FromEigenCovariance(n);
  CHECK(b == a, "FromEigenCovariance");
  CHECK(GetEigenCovariance(FromEigenCovariance(n)) == n, "round trip");
  ctx.step(3);
  ctx.outcome(mc::mix(i, j));
}

template<class T> static bool Same(const T & a, const T & b) {return memcmp(a.data, b.data, 12) == 0;}
static bool SameI(const PointXYZIR & a, const PointXYZIR & b) {return Same(a, b) && a.intensity == b.intensity && a.ring == b.ring;}
static bool SameC(const PointXYZCR & a, const PointXYZCR & b) {return Same(a, b) && a.curvature == b.curvature && a.ring == b.ring;}

template<class T, class Eq> static void RoundTrip(mc::Ctx & ctx, const typename pcl::PointCloud<T>::Ptr & c, Eq eq, const char * what)
{
  const auto m1 = ToRosMsg<T>(c);
  const auto m2 = ToRosMsg<T>(c, rclcpp::Time(77, 88, RCL_ROS_TIME), "some_frame");
  CHECK(m2.header.stamp.sec == 77 && m2.header.stamp.nanosec == 88 && m2.header.frame_id == "some_frame", "%s header", what);
  CHECK(m1.data == m2.data && m1.fields == m2.fields && m1.width == m2.width && m1.point_step == m2.point_step, "%s: the overloads differ", what);
  CHECK(m1.width * m1.height == c->size(), "%s: %u x %u for %zu points", what, m1.width, m1.height, c->size());
  for (const auto & m : {m1, m2}) {
    const auto d = GetPointCloud<T>(m);
    CHECK(d->size() == c->size(), "%s: %zu points come back of %zu", what, d->size(), c->size());
    for (size_t i = 0; i < c->size(); i++) {CHECK(eq(d->at(i), c->at(i)), "%s: point %zu comes back changed", what, i);}
  }
  const auto xyz = ToPointXYZ<T>(c);
  CHECK(xyz->size() == c->size(), "ToPointXYZ");
  for (size_t i = 0; i < c->size(); i++) {CHECK(GetXYZ(xyz->at(i)) == GetXYZ(c->at(i)), "ToPointXYZ point %zu", i);}
  const auto same = ConvertPointCloudType<T, T>(c);
  for (size_t i = 0; i < c->size(); i++) {CHECK(eq(same->at(i), c->at(i)), "ConvertPointCloudType point %zu", i);}
  bool threw = false;
  try {ThrowsIfPointCloudIsEmpty<T>(c);} catch (const std::invalid_argument &) {threw = true;}
  CHECK(threw == c->empty(), "ThrowsIfPointCloudIsEmpty with %zu points", c->size());
  ctx.step(4);
}

template<class F> static void Clouds(mc::Ctx & ctx, const int n, F value);
MC_SCENARIO(clouds)
{
  const int n = ctx.range(0, mc::tier(3, 4));
  Clouds(ctx, n, [&](int) {return ctx.choose(5);});
}
// sizes around those where storage grows or work is split
static const std::vector<int> kSizes{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4097, 70000};
MC_SCENARIO(large_clouds)
{
  const int n = ctx.pick(kSizes), k = ctx.choose(3);
  Clouds(ctx, n, [&](int i) {return (i * 7 + k + i / 5) % 5;});
}
template<class F> static void Clouds(mc::Ctx & ctx, const int n, F value)
{
  pcl::PointCloud<PointXYZIR>::Ptr a(new pcl::PointCloud<PointXYZIR>());
  pcl::PointCloud<PointXYZCR>::Ptr b(new pcl::PointCloud<PointXYZCR>());
  pcl::PointCloud<pcl::PointXYZ>::Ptr c(new pcl::PointCloud<pcl::PointXYZ>());
  std::vector<int> order;
  for (int i = 0; i < n; i++) {
    static const float v[][5] = {{0, 0, 0, 0, 0}, {1, -2, 3.5f, 0.25f, 65535}, {-1e10f, 1e-10f, 7, 255, 256}, {4, 5, 6, -1, 1}, {1, 2, 2, 3, 15}};
    const float * f = v[value(i)];
    a->push_back(PointXYZIR(f[0], f[1], f[2], f[3], f[4]));
    b->push_back(PointXYZCR(f[0], f[1], f[2], f[3], f[4]));
    c->push_back(pcl::PointXYZ(f[0], f[1] + i / 5, f[2]));
    order.push_back(n - 1 - i);
  }
  RoundTrip<PointXYZIR>(ctx, a, SameI, "PointXYZIR");
  RoundTrip<PointXYZCR>(ctx, b, SameC, "PointXYZCR");
  RoundTrip<pcl::PointXYZ>(ctx, c, [](auto & x, auto & y) {return Same(x, y);}, "PointXYZ");
  const Eigen::MatrixXd g = Get(c, order);
  CHECK(g.rows() == n && (n == 0 || g.cols() == 3), "Get has %ld rows", g.rows());
  for (int i = 0; i < n; i++) {CHECK(g.row(i).transpose() == GetXYZ(c->at(order[i])), "Get row %d", i);}
  const std::vector<pcl::PointXYZ> pv(c->begin(), c->end());
  const auto ev = PointsToEigen(pv);
  CHECK(static_cast<int>(ev.size()) == n, "PointsToEigen size");
  for (int i = 0; i < n; i++) {CHECK(ev[i] == GetXYZ(c->at(i)), "PointsToEigen point %d", i);}
  const Eigen::MatrixXd m = PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(c);
  CHECK(m.rows() == n, "PointCloudToMatrix rows");
  for (int i = 0; i < n; i++) {CHECK(m.row(i).head(3).transpose() == GetXYZ(c->at(i)), "PointCloudToMatrix row %d", i);}
  ctx.outcome(mc::hash_str(ctx.trace()));
}

template<class P> static void Moved(mc::Ctx & ctx, const Eigen::Isometry3d & T, int n, int rows, void (* set)(P &, int), bool (* same)(const P &, const P &))
{
  typename pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>());
  for (int i = 0; i < n; i++) {P p; p.x = 0.25f * (i % 11) - i; p.y = 3 - i % 5; p.z = 0.125f * i; set(p, i); c->push_back(p);}
  if (rows > 1 && n % rows == 0) {c->width = n / rows; c->height = rows;}
  const auto keep = *c;
  const auto m = TransformPointCloud<P>(T, c);
  CHECK(static_cast<int>(m->size()) == n && m->width * m->height == m->size(), "%zu points of %d", m->size(), n);
  for (int i = 0; i < n; i++) {
    const Eigen::Vector3d e = T * GetXYZ(keep[i]), g = GetXYZ(m->at(i));
    CHECK((g - e).norm() <= 3e-7 * (e.norm() + keep[i].getVector3fMap().norm() + T.translation().norm() + 1e-3), "point %d of %d is (%g %g %g), expected (%g %g %g)", i, n, g.x(), g.y(), g.z(), e.x(), e.y(), e.z());
    CHECK(same(m->at(i), keep[i]), "fields of point %d of %d changed", i, n);
    CHECK(GetXYZ(c->at(i)) == GetXYZ(keep[i]) && same(c->at(i), keep[i]), "the source cloud changed");
  }
  ctx.step();
}
MC_SCENARIO(transformed_clouds)
{
  std::vector<int> sizes{0, 1, 2, 3, 4}; sizes.insert(sizes.end(), kSizes.begin(), kSizes.end());
  const int n = ctx.pick(sizes), rot = ctx.pick({0, 1, 200, 333, 622}) % kRot.size();
  const Eigen::Vector3d t = ctx.pick({Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(1, -2, 3), Eigen::Vector3d(-81234.5, 4321.25, 80)});
  Eigen::Isometry3d T(kRot[rot]); T.translation() = t;
  const int rows = ctx.pick({1, 2});
  switch (ctx.choose(4)) {
    case 0: Moved<pcl::PointXYZ>(ctx, T, n, rows, [](pcl::PointXYZ &, int) {}, [](const pcl::PointXYZ &, const pcl::PointXYZ &) {return true;}); break;
    case 1: Moved<pcl::PointXYZI>(ctx, T, n, rows, [](pcl::PointXYZI & p, int i) {p.intensity = 1.5f * i;}, [](const pcl::PointXYZI & a, const pcl::PointXYZI & b) {return a.intensity == b.intensity;}); break;
    case 2: Moved<PointXYZIR>(ctx, T, n, rows, [](PointXYZIR & p, int i) {p.intensity = 1.5f * i; p.ring = i;}, [](const PointXYZIR & a, const PointXYZIR & b) {return a.intensity == b.intensity && a.ring == b.ring;}); break;
    case 3: Moved<PointXYZCR>(ctx, T, n, rows, [](PointXYZCR & p, int i) {p.curvature = 1.5f * i; p.ring = i;}, [](const PointXYZCR & a, const PointXYZCR & b) {return a.curvature == b.curvature && a.ring == b.ring;}); break;
  }
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(long_markers)
{
  const int n = ctx.pick({5, 16, 17, 64, 100, 1000, 5000});
  auto m = InitLines(rclcpp::Time(9, 10, RCL_ROS_TIME), "lines");
  for (int i = 0; i < n; i++) {
    AddLine(m, Eigen::Vector3d(i, 2 * i, i % 3), i % 4 ? Eigen::Vector3d(-i, .5, 3) : Eigen::Vector3d(i, 2 * i, i % 3));        // some lines have no length, some come twice
    if (i % 5 == 0) {AddLine(m, Eigen::Vector3d(i, 2 * i, i % 3), Eigen::Vector3d(1, 1, 1)); AddLine(m, Eigen::Vector3d(i, 2 * i, i % 3), Eigen::Vector3d(1, 1, 1));}
  }
  size_t k = 0;
  for (int i = 0; i < n; i++) {
    const Eigen::Vector3d s(i, 2 * i, i % 3), e = i % 4 ? Eigen::Vector3d(-i, .5, 3) : s;
    CHECK(k + 1 < m.points.size() && SameV(m.points[k], s) && SameV(m.points[k + 1], e), "line %d of %d", i, n); k += 2;
    for (int j = 0; j < (i % 5 == 0 ? 2 : 0); j++) {CHECK(k + 1 < m.points.size() && SameV(m.points[k], s) && SameV(m.points[k + 1], Eigen::Vector3d(1, 1, 1)), "line %d of %d, repeated", i, n); k += 2;}
  }
  CHECK(m.points.size() == k, "%zu points for %zu", m.points.size(), k);
  ctx.step(n); ctx.outcome(n);
}
MC_SCENARIO(markers)
{
  const int n = ctx.range(0, mc::tier(3, 4));
  auto m = InitLines(rclcpp::Time(9, 10, RCL_ROS_TIME), "lines");
  const float w = ctx.pick({0.f, .25f, 1.f}), r = ctx.pick({0.f, .5f}), g = .75f, b = 1.f, a = .125f;
  SetWidth(m, w);
  SetColor(m, r, g, b, a);
  std::vector<Eigen::Vector3d> pts;
  for (int i = 0; i < n; i++) {
    const Eigen::Vector3d s(ctx.pick({0., 1.}), i, 3), e(s(0) + 10, -i, ctx.pick({5., 6.}));
    AddLine(m, s, e);
    pts.push_back(s); pts.push_back(e);
  }
  CHECK(m.type == visualization_msgs::msg::Marker::LINE_LIST, "marker type %d", m.type);
  CHECK(m.header.stamp.sec == 9 && m.header.stamp.nanosec == 10 && m.header.frame_id == "lines", "marker header");
  CHECK(m.scale.x == w && m.color.r == r && m.color.g == g && m.color.b == b && m.color.a == a, "marker width or colour");
  CHECK(m.points.size() == pts.size(), "%zu points for %d lines", m.points.size(), n);
  for (size_t i = 0; i < pts.size(); i++) {CHECK(SameV(m.points[i], pts[i]), "end point %zu", i);}
  ctx.step(n + 1);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

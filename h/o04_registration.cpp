// O04: registration recovers the true pose from every start of the grid; outliers, empty and degenerate data.
#include "mc/mc.hpp"
#include "lidar_feature_localization/alignment.hpp"
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"

using V3 = Eigen::Vector3d;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;

static Eigen::Isometry3d Motion(const V3 & rot, const V3 & t)
{
  Eigen::Isometry3d P = Eigen::Isometry3d::Identity();
  if (rot.norm() > 0) {P.linear() = Eigen::AngleAxisd(rot.norm(), rot.normalized()).toRotationMatrix();}
  P.translation() = t;
  return P;
}
static double Angle(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b)
{
  const Eigen::Matrix3d R = a.linear().transpose() * b.linear();
  const V3 v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  return std::atan2(v.norm() / 2, (R.trace() - 1) / 2);
}
static std::string Str(const Eigen::Isometry3d & p) {return mc::mstr(p.matrix());}

// ---- alignment of point sets with known correspondences
static Eigen::MatrixXd Points(int kind)
{
  std::vector<V3> v;
  switch (kind) {
    case 0: v = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}}; break;                     // four corners
    case 1: for (int i = 0; i < 8; i++) {v.push_back(V3((i & 1) * 2 - 1., (i & 2) - 1., (i & 4) / 2 - 1.) * 3);} break;   // cube
    case 2: for (int i = 0; i < 30; i++) {v.push_back(V3(10 * std::sin(i * 1.3), 8 * std::cos(i * 0.7), 3 * std::sin(i * 2.9 + 1)));} break;
    case 3: for (int i = 0; i < 24; i++) {v.push_back(V3(6 + 0.5 * i, -9 + 5 * (i % 3), 3. * (i % 4)));} break;   // away from the origin
    default: v = {{5, 1, 0}, {-1, 4, 2}, {0, -3, 1}, {2, 2, -2}, {-4, 0, 3}};
  }
  Eigen::MatrixXd X(v.size(), 3);
  for (size_t i = 0; i < v.size(); i++) {X.row(i) = v[i].transpose();}
  return X;
}
static V3 Sign3(mc::Ctx & ctx) {V3 v; for (int i = 0; i < 3; i++) {v(i) = ctx.choose(3) - 1;} return v;}
using Argument = std::tuple<Eigen::MatrixXd, Eigen::MatrixXd>;

MC_SCENARIO(alignment)
{
  const int kind = 2 + ctx.choose(3); const Eigen::MatrixXd X = Points(kind);
  const V3 rd = Sign3(ctx);
  const double angle = rd.norm() == 0 ? 0 : ctx.pick({0.02, 0.2, 0.6});
  const V3 td = Sign3(ctx);
  const double dist = td.norm() == 0 ? 0 : ctx.pick({0.05, 1., 20.});
  static const Eigen::Isometry3d starts[] = {Eigen::Isometry3d::Identity(), Motion({0, 0, 2.5}, {3, -2, 1}), Motion({1, -1, .5}, {-100, 50, 2})};
  const Eigen::Isometry3d start = starts[ctx.choose(3)];
  const Eigen::Isometry3d truth = start * Motion(rd.norm() ? V3(rd.normalized() * angle) : V3(0, 0, 0), td.norm() ? V3(td.normalized() * dist) : V3(0, 0, 0));
  Eigen::MatrixXd Y(X.rows(), 3);
  for (int i = 0; i < X.rows(); i++) {const V3 x = X.row(i); Y.row(i) = (truth * x).transpose();}
  const Optimizer<AlignmentProblem, Argument> o(AlignmentProblem(), 20);
  const OptimizationResult r = o.Run(Argument(X, Y), start);
  const double a = Angle(truth, r.pose), d = (truth.translation() - r.pose.translation()).norm();
  CHECK(r.success && a < 1e-4 && d < 1e-3 * (1 + dist / 20), "start off by %g rad and %g m: %s after %d iterations, off by %g rad and %g m", angle, dist, r.message.c_str(), r.iteration, a, d);
  ctx.step(r.iteration + 1); ctx.outcome(mc::hash_str(ctx.trace()));
}

static Eigen::MatrixXd Apply(const Eigen::Isometry3d & P, const Eigen::MatrixXd & X)
{
  Eigen::MatrixXd Y(X.rows(), 3);
  for (int i = 0; i < X.rows(); i++) {const V3 x = X.row(i); Y.row(i) = (P * x).transpose();}
  return Y;
}
// a minority of wrong correspondences
MC_SCENARIO(outliers)
{
  const Eigen::MatrixXd X = Points(2);
  const V3 rd = Sign3(ctx);
  const double angle = rd.norm() == 0 ? 0 : ctx.pick({0.02, 0.1, 0.2});
  const V3 t = ctx.pick({V3(0, 0, 0), V3(.3, -.2, .1), V3(2, 1, -1)});
  const int n = ctx.pick({1, 3}), first = ctx.choose(4);
  const double size = ctx.pick({3., 30., 1000.});
  const int pattern = ctx.choose(3);
  const Eigen::Isometry3d truth = Motion(rd.norm() ? V3(rd.normalized() * angle) : V3(0, 0, 0), t);
  Eigen::MatrixXd Y = Apply(truth, X);
  for (int i = 0; i < n; i++) {
    const int k = (first + i * 4) % 30;
    const V3 d = pattern == 0 ? V3(1, 0, 0) : pattern == 1 ? V3(std::sin(i), std::cos(2. * i), std::sin(3. * i + 1)) : V3(-.5, 1, i % 2 ? 1 : -1);
    Y.row(k) += (d * size).transpose();
  }
  const Optimizer<AlignmentProblem, Argument> o(AlignmentProblem(), 20);
  const OptimizationResult r = o.Run(Argument(X, Y), Eigen::Isometry3d::Identity());
  const double a = Angle(truth, r.pose), d = (truth.translation() - r.pose.translation()).norm();
  CHECK(a < 0.08 && d < 0.7, "%d of 30 correspondences off by %g: the result is off by %g rad and %g m (%s after %d iterations)", n, size, a, d, r.message.c_str(), r.iteration);
  CHECK(r.success, "%d of 30 correspondences off by %g: failure (%s)", n, size, r.message.c_str());
  ctx.step(r.iteration + 1); ctx.outcome(mc::hash_str(ctx.trace()));
}

// ---- scan-to-map localisation in a world of straight edges and planes
static std::shared_ptr<Cloud> MakeCloud(const std::vector<V3> & v)
{
  auto c = std::make_shared<Cloud>();
  for (const V3 & p : v) {c->push_back(pcl::PointXYZ(p(0), p(1), p(2)));}
  return c;
}
struct World {std::vector<V3> edge, surface, scan_edge, scan_surface;};
static World MakeWorld(int kind)
{
  World w;
  auto line = [&](V3 p, V3 d, double length) {
      d.normalize();
      for (double s = 0; s < length; s += 0.2) {w.edge.push_back(p + s * d); }
      for (double s = 1.05; s < length - 1; s += 0.7) {w.scan_edge.push_back(p + s * d);}
    };
  auto plane = [&](V3 c, V3 a, V3 b, double half) {
      a.normalize(); b.normalize();
      for (double x = -half; x <= half; x += 0.4) {for (double y = -half; y <= half; y += 0.4) {w.surface.push_back(c + a * (x + 0.05 * std::sin(9 * y)) + b * (y + 0.05 * std::cos(7 * x)));}}
      for (double x = -half + 1.1; x <= half - 1; x += 1.13) {for (double y = -half + 1.1; y <= half - 1; y += 1.17) {w.scan_surface.push_back(c + a * x + b * y);}}
    };
  // kind 0: ground through the map's origin, two walls, poles; kind 1: the same away from the origin; kind 2: tilted
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  if (kind == 1) {T.translation() = V3(30, -20, 5);}
  if (kind == 2) {T = Motion({.3, .2, 1}, {-7, 12, 2});}
  line({6, 5, 0}, {0, 0, 1}, 6); line({-7, 4, 0}, {0, 0, 1}, 5); line({3, -8, 0}, {0, 0, 1}, 6); line({-5, -6, 3}, {1, 0, 0}, 6); line({9, -3, 4}, {0, 1, 0}, 6);
  plane({0, 0, 0}, {1, 0, 0}, {0, 1, 0}, 4); plane({12, 0, 6}, {0, 1, 0}, {0, 0, 1}, 4); plane({0, -13, 6}, {1, 0, 0}, {0, 0, 1}, 4);
  for (auto * v : {&w.edge, &w.surface, &w.scan_edge, &w.scan_surface}) {for (V3 & p : *v) {p = T * p;}}
  return w;
}
static std::vector<V3> Seen(const Eigen::Isometry3d & truth, const std::vector<V3> & v)
{
  std::vector<V3> s;
  for (const V3 & p : v) {s.push_back(truth.inverse() * p);}
  return s;
}
using LocalizerT = Localizer<PointXYZToVector, pcl::PointXYZ>;
static std::shared_ptr<LocalizerT> MakeLocalizer(int kind)
{
  const World w = MakeWorld(kind);
  return std::make_shared<LocalizerT>(MakeCloud(w.edge), MakeCloud(w.surface), 40);
}
static LocalizerT & Shared(int kind) {static std::map<int, std::shared_ptr<LocalizerT>> m; auto & l = m[kind]; if (!l) {l = MakeLocalizer(kind);} return *l;}
static V3 Axis(mc::Ctx & ctx)
{
  static const V3 d[] = {{0, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {1, 1, 1}, {-1, 1, -1}, {-1, -.3, .2}};
  V3 v = d[ctx.choose(mc::tier(7, 8))];
  return v.norm() ? V3(v.normalized()) : v;
}
MC_SCENARIO(localization)
{
  const int kind = ctx.choose(3), at = ctx.choose(mc::tier(2, 4));
  static const Eigen::Isometry3d truths[] = {Motion({0, 0, 0}, {1, 1, 1.5}), Motion({.02, -.05, 2}, {-2, 0, 1.5}), Motion({0, 0, -3}, {3, -1, 1}), Motion({.3, .2, .7}, {0, 0, 2})};
  World w = MakeWorld(kind);
  const Eigen::Isometry3d truth = truths[at];
  const V3 rd = Axis(ctx), td = Axis(ctx);
  const double angle = rd.norm() ? ctx.pick({0.01, 0.08}) : 0, dist = td.norm() ? ctx.pick({0.05, 0.4}) : 0;
  const Eigen::Isometry3d start = truth * Motion(rd * angle, td * dist);
  LocalizerT & l = Shared(kind);
  l.Init(start);
  CHECK(l.IsInitialized() && l.Get().matrix() == start.matrix(), "Init does not set the pose");
  const bool ok = l.Update(EdgeSurfaceScan(MakeCloud(Seen(truth, w.scan_edge)), MakeCloud(Seen(truth, w.scan_surface))));
  const Eigen::Isometry3d g = l.Get();
  const double a = Angle(truth, g), d = (truth.translation() - g.translation()).norm();
  CHECK(ok && a < 0.005 && d < 0.05, "world %d pose %d start off by %g rad along %s and %g m along %s: success %d, off by %g rad %g m", kind, at, angle, mc::mstr(rd).c_str(), dist, mc::mstr(td).c_str(), ok, a, d);
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
// nothing to register: the pose stays, whatever was done before
MC_SCENARIO(no_information)
{
  const int kind = ctx.choose(2);
  const Eigen::Isometry3d start = ctx.pick({Motion({0, 0, 0}, {0, 0, 0}), Motion({.1, -.2, 2.5}, {3, -1, 1})});
  const World w = MakeWorld(kind);
  LocalizerT l = Shared(kind);
  const int before = ctx.choose(3);
  if (before) {
    l.Init(Motion({0, 0, 0}, {1, 1, 1.5}));
    l.Update(EdgeSurfaceScan(MakeCloud(before == 1 ? std::vector<V3>() : Seen(Motion({0, 0, 0}, {1, 1, 1.5}), w.scan_edge)), MakeCloud({})));
  }
  l.Init(start);
  const int what = ctx.choose(5);
  std::vector<V3> e, s;
  if (what == 1) {e = {start.inverse() * V3(w.edge[10] + V3(.2, .1, 0))};}                    // one edge point
  if (what == 2) {s = {start.inverse() * V3(w.surface[30] + V3(0, 0, .3))};}                   // one surface point
  if (what == 3) {for (int i = 0; i < 5; i++) {e.push_back(V3(0, 0, 0));}}                     // only the sensor's origin
  if (what == 4) {for (int i = 40; i < 60; i++) {s.push_back(start.inverse() * V3(w.surface[i] + V3(0, 0, .2)));}}   // one plane
  const bool ok = l.Update(EdgeSurfaceScan(MakeCloud(e), MakeCloud(s)));
  const Eigen::Isometry3d g = l.Get();
  CHECK((g.matrix() - start.matrix()).cwiseAbs().maxCoeff() < 1e-9, "case %d after %d: the pose moved from %s to %s", what, before, Str(start).c_str(), Str(g).c_str());
  if (what == 0) {CHECK(!ok, "an empty scan is reported as success");}
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_SCENARIO(degenerate_alignment)
{
  const int kind = ctx.choose(4), n = ctx.range(0, 4);
  const Eigen::Isometry3d start = ctx.pick({Motion({0, 0, 0}, {0, 0, 0}), Motion({.1, -.2, 2.5}, {3, -1, 1})});
  const V3 t = Sign3(ctx);
  Eigen::MatrixXd X(n, 3), Y(n, 3);
  for (int i = 0; i < n; i++) {
    X.row(i) = (kind == 0 ? V3(0, 0, 0) : kind == 1 ? V3(i, 0, 0) : kind == 2 ? V3(1, 2, 3) : V3(i * 1., 2. * i, -i)).transpose();
    const V3 x = X.row(i);
    Y.row(i) = (start * Motion({0, 0, .3}, t) * x).transpose();
  }
  const Optimizer<AlignmentProblem, Argument> o(AlignmentProblem(), 20);
  const OptimizationResult r = o.Run(Argument(X, Y), start);
  CHECK((r.pose.matrix() - start.matrix()).cwiseAbs().maxCoeff() < 1e-9, "%d points of kind %d (no three dimensions): moved from %s to %s", n, kind, Str(start).c_str(), Str(r.pose).c_str());
  if (n == 0) {CHECK(!r.success, "no points are reported as success");}
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

// O03: residuals and Jacobians of edge, surface, alignment and the combined problem.
#include "mc/mc.hpp"
#include "lidar_feature_localization/alignment.hpp"
#include "lidar_feature_localization/loam_optimization_problem.hpp"
#include "lidar_feature_localization/posevec.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"

using V3 = Eigen::Vector3d;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using Block = Eigen::MatrixXd;

// ---- reference
static Eigen::MatrixXd DerivativeOfRotated(const Eigen::Quaterniond & q, const V3 & p)
{
  // R(q) p = (w^2 - v.v) p + 2 (v.p) v + 2 w v x p for any q
  const double w = q.w(); const V3 v(q.x(), q.y(), q.z());
  Eigen::MatrixXd J(3, 4);
  J.col(0) = 2 * w * p + 2 * v.cross(p);
  for (int k = 0; k < 3; k++) {
    V3 e = V3::Zero(); e(k) = 1;
    J.col(k + 1) = -2 * v(k) * p + 2 * p(k) * v + 2 * v.dot(p) * e + 2 * w * e.cross(p);
  }
  return J;
}
static Eigen::MatrixXd PointJacobian(const Eigen::Quaterniond & q, const V3 & p)
{
  Eigen::MatrixXd J(3, 7);
  J.block(0, 0, 3, 4) = DerivativeOfRotated(q, p);
  J.block(0, 4, 3, 3).setIdentity();
  return J;
}
static Eigen::Matrix3d Cross(const V3 & v) {Eigen::Matrix3d M; M << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return M;}
static double MaxAbs(const Eigen::MatrixXd & m) {return m.size() ? m.cwiseAbs().maxCoeff() : 0;}
static bool Near(const Eigen::MatrixXd & a, const Eigen::MatrixXd & b, double tol)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {return false;}
  return a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol;
}
struct Eig {V3 values; Eigen::Matrix3d vectors;};   // ascending
static Eig JacobiEig(Eigen::Matrix3d A)
{
  Eigen::Matrix3d V = Eigen::Matrix3d::Identity();
  for (int s = 0; s < 60; s++) {
    for (int p = 0; p < 3; p++) {
      for (int q = p + 1; q < 3; q++) {
        if (std::fabs(A(p, q)) < 1e-300) {continue;}
        const double th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
        const double c = 1 / std::sqrt(t * t + 1), sn = t * c;
        Eigen::Matrix3d G = Eigen::Matrix3d::Identity();
        G(p, p) = G(q, q) = c; G(p, q) = sn; G(q, p) = -sn;
        A = G.transpose() * A * G; V = V * G;
      }
    }
  }
  std::vector<int> o = {0, 1, 2};
  std::sort(o.begin(), o.end(), [&](int a, int b) {return A(a, a) < A(b, b);});
  Eig e;
  for (int i = 0; i < 3; i++) {e.values(i) = A(o[i], o[i]); e.vectors.col(i) = V.col(o[i]);}
  return e;
}

// ---- environment
static Eigen::Isometry3d Pose(int i)
{
  static const std::vector<Eigen::Quaterniond> q = {
    Eigen::Quaterniond(1, 0, 0, 0), Eigen::Quaterniond(.5, .5, -.5, .5), Eigen::Quaterniond(.6, 0, .8, 0), Eigen::Quaterniond(0, 0, 0, 1),
    Eigen::Quaterniond(0.2, -0.4, 0.8, 0.4), Eigen::Quaterniond(0.999, 0.01, -0.02, 0.03).normalized(), Eigen::Quaterniond(-0.9, 0.1, 0.3, -0.3).normalized()};
  static const V3 t[] = {{0, 0, 0}, {1, -2, .5}, {-10, 4, 7}, {0.01, 0, 0}, {30, 2, -1}, {0, 0, 3}, {-2, -2, -2}};
  Eigen::Isometry3d P = Eigen::Isometry3d::Identity();
  P.linear() = q[i].toRotationMatrix(); P.translation() = t[i];
  return P;
}
constexpr int kPoses = 7;
static V3 PickV(mc::Ctx & ctx, int n)
{
  static const double a[] = {0, 1, -3, 0.25, 40};
  V3 v; for (int i = 0; i < 3; i++) {v(i) = a[ctx.choose(n)];}
  return v;
}
static std::shared_ptr<Cloud> MakeCloud(const std::vector<V3> & v)
{
  auto c = std::make_shared<Cloud>();
  for (const V3 & p : v) {c->push_back(pcl::PointXYZ(p(0), p(1), p(2)));}
  return c;
}

// ---- single terms
MC_SCENARIO(edge_term)
{
  const Eigen::Isometry3d P = Pose(ctx.choose(kPoses));
  const V3 p0 = PickV(ctx, 3), p1 = PickV(ctx, mc::tier(3, 4)), p2 = PickV(ctx, mc::tier(3, 4));
  const Eigen::Quaterniond q(P.linear());
  const V3 p = P.linear() * p0 + P.translation();
  const V3 r = Cross(p - p1) * (p - p2);
  const Eigen::MatrixXd J = Cross(p2 - p1) * PointJacobian(q, p0);
  const double scale = 1 + (p - p1).norm() * (p - p2).norm(), js = 1 + (p2 - p1).norm() * (1 + p0.norm());
  const V3 g = MakeEdgeResidual(P, p0, p1, p2);
  const Eigen::MatrixXd G = MakeEdgeJacobianRow(q, p0, p1, p2);
  const double s = (g - r).norm() <= (g + r).norm() ? 1 : -1;
  CHECK(Near(g, s * r, 1e-12 * scale), "edge residual of %s at line %s %s is %s, expected +-%s", mc::mstr(p0).c_str(), mc::mstr(p1).c_str(), mc::mstr(p2).c_str(), mc::mstr(g).c_str(), mc::mstr(r).c_str());
  CHECK(Near(G, s * J, 1e-12 * js) || (r.norm() <= 1e-12 * scale && Near(G, -s * J, 1e-12 * js)),
    "edge Jacobian of %s at line %s %s is %s, expected %s", mc::mstr(p0).c_str(), mc::mstr(p1).c_str(), mc::mstr(p2).c_str(), mc::mstr(G).c_str(), mc::mstr(J).c_str());
  ctx.step(2); ctx.outcome(mc::hash_str(mc::mstr(r) + mc::mstr(p0)));
}
// a point on the line: residual zero; moved off by d perpendicular: length of the residual is d times that of the line
MC_SCENARIO(edge_zero_exactly_on_line)
{
  const Eigen::Isometry3d P = Pose(ctx.choose(kPoses));
  const V3 p1 = PickV(ctx, 3), dir = PickV(ctx, 3);
  if (dir.norm() == 0) {ctx.prune();}
  const double along = ctx.pick({-3., 0., .5, 1., 40.}), off = ctx.pick({0., 1e-3, .5, 10.});
  V3 perp = dir.cross(V3(0.3, -0.7, 0.2)); perp.normalize();
  const V3 on = p1 + along * dir + off * perp;
  const V3 p0 = P.inverse() * on;
  const V3 g = MakeEdgeResidual(P, p0, p1, p1 + dir);
  CHECK(std::fabs(g.norm() - off * dir.norm()) < 1e-11 * (1 + on.squaredNorm() + dir.squaredNorm() + along * along * dir.squaredNorm()), "a point %g off the line leaves %s", off, mc::mstr(g).c_str());
  const V3 p2 = p1 + dir, p3 = TripletCross(p1 + perp, p1, p2);   // towards the point, perpendicular to the line
  (void)p3;
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_SCENARIO(alignment_terms)
{
  const int n = ctx.range(0, mc::tier(3, 4));
  const Eigen::Isometry3d P = Pose(ctx.choose(kPoses));
  const Eigen::Quaterniond q(P.linear());
  Eigen::MatrixXd A(n, 3), B(n, 3);
  static const V3 vs[] = {{1, 2, 3}, {-4, 0, .5}, {0, 0, 0}, {7, -1, 2}};
  for (int i = 0; i < n; i++) {A.row(i) = vs[ctx.choose(4)].transpose(); B.row(i) = vs[ctx.choose(4)].transpose() * (i + 1);}
  const auto [J, r] = AlignmentProblem().Make(std::make_tuple(A, B), P);
  const auto J2 = MakeJacobian(q, A); const auto r2 = MakeResidual(P, A, B);
  CHECK(static_cast<int>(J.size()) == n && static_cast<int>(r.size()) == n && static_cast<int>(J2.size()) == n && static_cast<int>(r2.size()) == n, "%d points give %zu Jacobians, %zu residuals", n, J.size(), r.size());
  for (int i = 0; i < n; i++) {
    const V3 x = A.row(i), y = B.row(i);
    CHECK(Near(r[i], P.linear() * x + P.translation() - y, 1e-11) && Near(r2[i], r[i], 1e-12), "alignment residual %d is %s", i, mc::mstr(r[i]).c_str());
    CHECK(Near(J[i], PointJacobian(q, x), 1e-11) && Near(J2[i], J[i], 1e-11), "alignment Jacobian %d is %s, expected %s", i, mc::mstr(J[i]).c_str(), mc::mstr(PointJacobian(q, x)).c_str());
  }
  ctx.step(n); ctx.outcome(mc::hash_str(ctx.trace()));
}

static const std::vector<int> kMany{5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000};
MC_SCENARIO(alignment_terms_of_many)
{
  const int n = ctx.pick(kMany), pattern = ctx.choose(3);
  const Eigen::Isometry3d P = Pose(ctx.choose(kPoses));
  const Eigen::Quaterniond q(P.linear());
  Eigen::MatrixXd A(n, 3), B(n, 3);
  for (int i = 0; i < n; i++) {for (int d = 0; d < 3; d++) {A(i, d) = pattern == 0 ? i + d : pattern == 1 ? ((i * (7 + 4 * d)) % 23 - 11) * 0.5 : -2.; B(i, d) = (i * (3 + d)) % 17 - 0.25 * d * i;}}
  const auto [J, r] = AlignmentProblem().Make(std::make_tuple(A, B), P);
  CHECK(static_cast<int>(J.size()) == n && static_cast<int>(r.size()) == n, "%d points give %zu Jacobians, %zu residuals", n, J.size(), r.size());
  for (int i = 0; i < n; i++) {
    const V3 x = A.row(i), y = B.row(i);
    CHECK(Near(r[i], P.linear() * x + P.translation() - y, 1e-11 * (1 + n)), "alignment residual %d of %d is %s", i, n, mc::mstr(r[i]).c_str());
    CHECK(Near(J[i], PointJacobian(q, x), 1e-11 * (1 + n)), "alignment Jacobian %d of %d is %s, expected %s", i, n, mc::mstr(J[i]).c_str(), mc::mstr(PointJacobian(q, x)).c_str());
  }
  ctx.step(n); ctx.outcome(mc::hash_str(ctx.trace()));
}
// ---- statistics of point sets
// the same for larger sets
MC_SCENARIO(moments_of_large_sets)
{
  const int n = ctx.range(1, mc::tier(48, 200)), pattern = ctx.choose(6);
  Eigen::MatrixXd X(n, 3);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < 3; d++) {
      const double u = ((i * (7 + 4 * d) + 3 * pattern) % (11 + 2 * d)) - 5;
      X(i, d) = pattern == 0 ? u : pattern == 1 ? 0.25 * i + d : pattern == 2 ? (i % 2 ? 40 : -40) + 0.1 * u : pattern == 3 ? 1000 + u * 1e-2 : pattern == 4 ? (d == 2 ? 0 : u) : (i + 1 == n ? 100 * (d + 1) : u * 0.01);
    }
  }
  Eigen::Vector3d m = Eigen::Vector3d::Zero();
  for (int i = 0; i < n; i++) {m += X.row(i).transpose() / n;}
  Eigen::Matrix3d C = Eigen::Matrix3d::Zero();
  for (int i = 0; i < n; i++) {const Eigen::Vector3d d = X.row(i).transpose() - m; C += d * d.transpose() / n;}
  const auto [mean, cov] = CalcMeanAndCovariance(X);
  CHECK((mean - m).norm() < 1e-9 * (1 + m.norm()), "mean of %d points (pattern %d) is %s, expected %s", n, pattern, mc::mstr(mean).c_str(), mc::mstr(m).c_str());
  CHECK(Near(cov, C, 1e-9 + 1e-9 * MaxAbs(C)), "covariance of %d points (pattern %d) is %s, expected %s", n, pattern, mc::mstr(cov).c_str(), mc::mstr(C).c_str());
  ctx.step(); ctx.state(mc::mix(n, pattern)); ctx.outcome(mc::mix(n, pattern));
}
MC_SCENARIO(mean_and_covariance)
{
  const int n = ctx.range(1, mc::tier(4, 5)), dims = ctx.pick({3, 4, 1});
  Eigen::MatrixXd X(n, dims);
  static const double a[] = {0, 2, -1.5, 100};
  for (int i = 0; i < n; i++) {
    const int k = ctx.choose(mc::tier(12, 14));
    for (int d = 0; d < dims; d++) {X(i, d) = a[(k >> d) & 3] + (k == 11 ? 1e3 : 0) + d * (k & 1);}
  }
  std::vector<double> m(dims, 0);
  for (int d = 0; d < dims; d++) {for (int i = 0; i < n; i++) {m[d] += X(i, d) / n;}}
  Eigen::MatrixXd C = Eigen::MatrixXd::Zero(dims, dims);
  for (int i = 0; i < n; i++) {for (int a1 = 0; a1 < dims; a1++) {for (int b = 0; b < dims; b++) {C(a1, b) += (X(i, a1) - m[a1]) * (X(i, b) - m[b]) / n;}}}
  const auto [mean, cov] = CalcMeanAndCovariance(X);
  const Eigen::VectorXd c = Center(X);
  CHECK(mean.size() == dims && c.size() == dims, "mean has %ld entries", static_cast<long>(mean.size()));
  for (int d = 0; d < dims; d++) {CHECK(mc::close(mean(d), m[d], 1e-12, 1e-9) && mc::close(c(d), m[d], 1e-12, 1e-9), "mean of %s is %s", mc::mstr(X).c_str(), mc::mstr(mean).c_str());}
  CHECK(Near(cov, C, 1e-9 + 1e-12 * MaxAbs(C)), "covariance of %s is %s, expected %s", mc::mstr(X).c_str(), mc::mstr(cov).c_str(), mc::mstr(C).c_str());
  if (dims == 4) {CHECK(GetXYZ(X) == X.block(0, 0, n, 3), "GetXYZ of %s is %s", mc::mstr(X).c_str(), mc::mstr(GetXYZ(X)).c_str());}
  if (dims == 3) {
    const auto [values, vectors] = PrincipalComponents(cov);
    const Eig e = JacobiEig(C);
    const double s = 1 + MaxAbs(C);
    CHECK((values - e.values).cwiseAbs().maxCoeff() < 1e-7 * s, "principal values of %s are %s, expected %s", mc::mstr(C).c_str(), mc::mstr(values).c_str(), mc::mstr(e.values).c_str());
    CHECK(Near(vectors.transpose() * vectors, Eigen::Matrix3d::Identity(), 1e-6), "principal directions of %s are not orthonormal: %s", mc::mstr(C).c_str(), mc::mstr(vectors).c_str());
    // The closed-form solver resolves a direction only when its value is apart from the others.
    const double gap = std::min(e.values(2) - e.values(1), e.values(1) - e.values(0));
    if (gap > 1e-3 * s) {CHECK(Near(C * vectors, vectors * values.asDiagonal().toDenseMatrix(), 1e-5 * s), "principal directions of %s: %s", mc::mstr(C).c_str(), mc::mstr(vectors).c_str());}
    else if (e.values(2) - e.values(1) > 1e-3 * s) {CHECK((C * vectors.col(2) - values(2) * vectors.col(2)).norm() < 1e-5 * s, "largest direction of %s", mc::mstr(C).c_str());}
  }
  ctx.step(); ctx.outcome(mc::hash_str(mc::mstr(X)));
}
MC_SCENARIO(reliable)
{
  static const double a[] = {0, 1, 2.99, 3.01, 9, 8.9, 9.1, 1e-9, 27};
  V3 v; for (int i = 0; i < 3; i++) {v(i) = a[ctx.choose(9)];}
  std::vector<double> s = {v(0), v(1), v(2)};
  std::sort(s.begin(), s.end());
  if (std::fabs(s[2] - 3 * s[1]) < 1e-9 * s[2]) {ctx.prune();}
  CHECK(PrincipalIsReliable(v) == (s[2] > 3 * s[1]), "principal values %s reliable = %d", mc::mstr(v).c_str(), PrincipalIsReliable(v));
  ctx.step(); ctx.outcome(mc::hash_str(mc::mstr(v)));
}
MC_SCENARIO(plane_terms)
{
  static const double a[] = {0, 1, -2, 0.25};
  V3 w; for (int i = 0; i < 3; i++) {w(i) = a[ctx.choose(4)];}
  if (w.norm() == 0) {ctx.prune();}
  const V3 x = PickV(ctx, 4);
  const double d = (w.dot(x) + 1) / w.norm();
  CHECK(mc::close(SignedPointPlaneDistance(w, x), d, 1e-13, 1e-13), "distance of %s to plane %s is %g, expected %g", mc::mstr(x).c_str(), mc::mstr(w).c_str(), SignedPointPlaneDistance(w, x), d);
  CHECK(mc::close(PointPlaneDistance(w, x), std::fabs(d), 1e-13, 1e-13), "absolute distance");
  const Eigen::VectorXd v1 = SignedPointPlaneDistanceVector1d(w, x);
  CHECK(v1.size() == 1 && mc::close(v1(0), d, 1e-13, 1e-13), "distance vector %s", mc::mstr(v1).c_str());
  const Eigen::Quaterniond q(Pose(ctx.choose(kPoses)).linear());
  const Eigen::MatrixXd J = MakeJacobianRow(w, q, x);
  const Eigen::MatrixXd E = (w / w.norm()).transpose() * PointJacobian(q, x);
  CHECK(Near(J, E, 1e-12 * (1 + x.norm())), "plane Jacobian at %s plane %s is %s, expected %s", mc::mstr(x).c_str(), mc::mstr(w).c_str(), mc::mstr(J).c_str(), mc::mstr(E).c_str());
  ctx.step(4); ctx.outcome(mc::hash_str(ctx.trace()));
}

// the algebraic fit w^T x + 1 = 0: exact on planes apart from the origin, least squares otherwise
MC_SCENARIO(plane_fit)
{
  static const V3 ns[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 2, -2}, {-1, 1, 0}, {0.02, 0, 1}};
  const V3 n = ns[ctx.choose(6)].normalized();
  const double offset = ctx.pick({2., -0.5, 10., -40.}), noise = ctx.pick({0., 0.1, 0.3});
  const int rows = ctx.pick({3, 4, 5, 15});
  const V3 a = n.cross(V3(.21, .53, .82)).normalized(), b = n.cross(a);
  Eigen::MatrixXd X(rows, 3);
  for (int i = 0; i < rows; i++) {X.row(i) = (offset * n + a * std::sin(2.3 * i) * 3 + b * std::cos(1.7 * i) * 2 + n * noise * std::sin(5. * i + 1)).transpose();}
  const Eigen::VectorXd w = EstimatePlaneCoefficients(X);
  CHECK(w.size() == 3, "%ld coefficients", static_cast<long>(w.size()));
  const Eigen::VectorXd res = X * w + Eigen::VectorXd::Ones(rows);
  const Eigen::VectorXd grad = X.transpose() * res;
  CHECK(grad.norm() < 1e-8 * X.squaredNorm(), "plane %s through %s is not the least-squares fit (gradient %s)", mc::mstr(w).c_str(), mc::mstr(X).c_str(), mc::mstr(grad).c_str());
  if (noise == 0) {CHECK(res.norm() < 1e-9 * X.norm() && (w + n / offset).norm() < 1e-6, "plane with normal %s offset %g is fitted as %s", mc::mstr(n).c_str(), offset, mc::mstr(w).c_str());}
  double worst = 0; for (int i = 0; i < rows; i++) {worst = std::max(worst, std::fabs(w.dot(X.row(i)) + 1) / w.norm());}
  if (std::fabs(worst - 0.2) > 1e-9) {CHECK(CheckPointsDistributeAlongPlane(X, w) == (worst < 0.2), "points up to %g off the plane are along it: %d", worst, CheckPointsDistributeAlongPlane(X, w));}
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}

// ---- whole problems
struct Neighbourhood {V3 mean; Eig eig; bool clear;};
static Neighbourhood Nearest(const std::vector<V3> & map, const V3 & x, int k)
{
  std::vector<std::pair<double, int>> d;
  for (size_t i = 0; i < map.size(); i++) {d.push_back({(map[i] - x).squaredNorm(), i});}
  std::sort(d.begin(), d.end());
  Neighbourhood n;
  n.clear = k == static_cast<int>(map.size()) || d[k].first - d[k - 1].first > 1e-6 * (1 + d[k].first);
  n.mean.setZero();
  for (int i = 0; i < k; i++) {n.mean += map[d[i].second] / k;}
  Eigen::Matrix3d C = Eigen::Matrix3d::Zero();
  for (int i = 0; i < k; i++) {const V3 c = map[d[i].second] - n.mean; C += c * c.transpose() / k;}
  n.eig = JacobiEig(C);
  return n;
}
static V3 Float(const V3 & v) {return v.cast<float>().cast<double>();}
static std::vector<V3> Line(const V3 & p, const V3 & d, int n, double wobble)
{
  std::vector<V3> v;
  for (int i = 0; i < n; i++) {v.push_back(Float(p + d.normalized() * (0.13 * i - 0.5) + wobble * V3(std::sin(5. * i), std::cos(3. * i), std::sin(2. * i + 1))));}
  return v;
}
static const V3 kDirections[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 2, -2}, {-1, 1, 0}, {0.02, 0, 1}};
static const V3 kOffsets[] = {{2, 1, -1}, {0, 0, 0}, {20, -30, 4}, {-0.5, 6, 0.1}};

static void CheckEdge(mc::Ctx & ctx, const Block & J, const Eigen::VectorXd & r, const std::vector<V3> & map, int k, const Eigen::Isometry3d & P, const V3 & p)
{
  const V3 x = P * p;
  const Neighbourhood n = Nearest(map, x, k);
  if (!n.clear || n.eig.values(2) - n.eig.values(1) < 0.05 * n.eig.values(2)) {ctx.count("neighbourhood ambiguous"); return;}
  const V3 u = n.eig.vectors.col(2);
  const V3 er = Cross(x - (n.mean - u)) * (x - (n.mean + u));
  const Eigen::MatrixXd eJ = Cross(2 * u) * PointJacobian(Eigen::Quaterniond(P.linear()), p);
  const double tol = 2e-5 * (1 + x.norm() + p.norm());
  CHECK((Near(r, er, tol) && Near(J, eJ, tol)) || (Near(r, -er, tol) && Near(J, -eJ, tol)),
    "edge term of %s (on map %s) is %s with Jacobian %s; the line through its %d nearest map points gives +-%s with %s",
    mc::mstr(p).c_str(), mc::mstr(x).c_str(), mc::mstr(r).c_str(), mc::mstr(J).c_str(), k, mc::mstr(er).c_str(), mc::mstr(eJ).c_str());
  ctx.count("edge terms");
}
MC_SCENARIO(edge_problem)
{
  const int lines = ctx.range(1, 2);
  const double wobble = ctx.pick({0., 0.02});
  std::vector<V3> map;
  const int d0 = ctx.choose(6), o0 = ctx.choose(4);
  map = Line(kOffsets[o0], kDirections[d0], 24, wobble);
  if (lines == 2) {const auto l = Line(kOffsets[(o0 + 1) % 4] + V3(0, 3, 0), kDirections[(d0 + 2) % 6], 24, wobble); map.insert(map.end(), l.begin(), l.end());}
  const Eigen::Isometry3d P = Pose(ctx.choose(mc::tier(3, kPoses)));
  const int k = ctx.pick({15, 5, 2});
  const int n = ctx.range(0, 2);
  std::vector<V3> scan;
  for (int i = 0; i < n; i++) {
    const double along = 0.4 + i * 0.5, off = ctx.pick({0., 0.3});
    V3 perp = kDirections[d0].cross(V3(.3, .2, .9)).normalized();
    scan.push_back(Float(P.inverse() * (map[3 + 11 * i] + along * kDirections[d0].normalized() * 0.07 + off * perp)));
  }
  const Edge<PointXYZToVector> edge(MakeCloud(map), k);
  const auto [J, r] = edge.Make(MakeCloud(scan), P);
  CHECK(J.size() == scan.size() && r.size() == scan.size(), "%zu edge points give %zu Jacobians and %zu residuals", scan.size(), J.size(), r.size());
  for (size_t i = 0; i < scan.size(); i++) {CheckEdge(ctx, J[i], r[i], map, k, P, scan[i]);}
  ctx.step(n); ctx.outcome(mc::hash_str(ctx.trace()));
}

// planes: exactly planar lattice maps. offset 0: the plane passes through the map's origin.
static std::vector<V3> Plane(const V3 & normal, double offset, const V3 & around, double noise = 0)
{
  const V3 n = normal.normalized();
  V3 a = n.cross(V3(0.21, 0.53, 0.82)).normalized(), b = n.cross(a);
  const V3 c = around - n * n.dot(around) + offset * n;
  std::vector<V3> v;
  for (int i = -9; i <= 9; i++) {for (int j = -9; j <= 9; j++) {v.push_back(Float(c + n * noise * std::sin(7. * i + 11 * j + i * j) + a * (0.31 * i + 0.013 * j) + b * (0.29 * j + 0.002 * i * i)));}}
  return v;
}
static void CheckSurface(mc::Ctx & ctx, const Block & J, const Eigen::VectorXd & r, const V3 & normal, double offset, const Eigen::Isometry3d & P, const V3 & p, double noise = 0)
{
  const V3 n = normal.normalized(), x = P * p;
  const double d = n.dot(x) - offset;
  const Eigen::MatrixXd E = n.transpose() * PointJacobian(Eigen::Quaterniond(P.linear()), p);
  const double tol = 1e-4 * (1 + std::fabs(d)) + 5 * noise, jt = (2e-4 + 5 * noise) * (1 + p.norm());
  CHECK(r.size() == 1 && ((std::fabs(r(0) - d) < tol && Near(J, E, jt)) || (std::fabs(r(0) + d) < tol && Near(J, -E, jt))),
    "surface term of %s (on map %s) is %s with Jacobian %s; its distance to the plane with normal %s offset %g is %g, derivative %s",
    mc::mstr(p).c_str(), mc::mstr(x).c_str(), mc::mstr(r).c_str(), mc::mstr(J).c_str(), mc::mstr(n).c_str(), offset, d, mc::mstr(E).c_str());
  ctx.count("surface terms");
}
MC_SCENARIO(surface_problem)
{
  const V3 normal = kDirections[ctx.choose(6)];
  const double offset = ctx.pick({2., 0., -5., 0.05, 60.});
  const V3 around = kOffsets[ctx.choose(4)];
  const double noise = ctx.pick({0., 0.01});
  const std::vector<V3> map = Plane(normal, offset, around, noise);
  const Eigen::Isometry3d P = Pose(ctx.choose(mc::tier(3, kPoses)));
  const int k = noise ? 15 : ctx.pick({15, 5});
  const double off = ctx.pick({0., .2, -.7});
  const int n = ctx.range(0, 2);
  std::vector<V3> scan;
  for (int i = 0; i < n; i++) {scan.push_back(Float(P.inverse() * (map[171 + 23 * i] + off * normal.normalized())));}
  if (n == 2) {scan[1] += Float(P.linear().transpose() * normal.cross(V3(.3, .2, .9)).normalized() * 2.2);}   // not in the first point's voxel
  const Surface<PointXYZToVector> surface(MakeCloud(map), k);
  const auto [J, r] = surface.Make(MakeCloud(scan), P);
  if (n == 2 && r.size() == 1) {ctx.count("one voxel"); ctx.prune();}
  CHECK(J.size() == scan.size() && r.size() == scan.size(), "%zu surface points give %zu Jacobians and %zu residuals", scan.size(), J.size(), r.size());
  auto match = [&](size_t i, const V3 & p) {
      try {CheckSurface(ctx, J[i], r[i], normal, offset, P, p, noise); return true;} catch (const mc::Violation &) {return false;}
    };
  if (n == 2 && match(0, scan[1]) && match(1, scan[0])) {return;}   // the downsampled order is not specified
  for (size_t i = 0; i < scan.size(); i++) {CheckSurface(ctx, J[i], r[i], normal, offset, P, scan[i], noise);}
  ctx.step(n); ctx.outcome(mc::hash_str(ctx.trace()));
}

// the combined problem: edges first, then one term per voxel centroid of the surface points
MC_SCENARIO(combined)
{
  const std::vector<V3> emap = Line({2, 1, -1}, {1, 2, -2}, 24, 0);
  const V3 sn = V3(0.1, 0.2, 1).normalized();
  const Eigen::Isometry3d P = Pose(ctx.choose(mc::tier(4, kPoses)));
  const std::vector<V3> smap = Plane({0.1, 0.2, 1}, -1.5, P * V3(1.5, -1, .5));
  const int ne = ctx.range(0, 3), ns = ctx.range(0, mc::tier(4, 5));
  std::vector<V3> edge, surface;
  for (int i = 0; i < ne; i++) {edge.push_back(Float(P.inverse() * (emap[4 + 6 * i] + V3(0.05 * i, 0.1, 0))));}
  for (int i = 0; i < ns; i++) {
    // cell 0..2, position inside the cell by i; z constant
    const int cell = ctx.choose(3);
    surface.push_back(V3(cell * 1.0 + 0.125 + 0.0625 * i, -1.0 * cell + 0.25, 0.5));
  }
  std::map<std::tuple<int, int, int>, std::vector<V3>> voxels;
  for (const V3 & p : surface) {voxels[{std::floor(p(0)), std::floor(p(1)), std::floor(p(2))}].push_back(p);}
  const LOAMOptimizationProblem<PointXYZToVector> problem(MakeCloud(emap), MakeCloud(smap), 15);
  const auto [J, r] = problem.Make(EdgeSurfaceScan(MakeCloud(edge), MakeCloud(surface)), P);
  CHECK(J.size() == r.size() && r.size() == ne + voxels.size(), "%d edge points and %zu voxels of surface points give %zu residuals and %zu Jacobians", ne, voxels.size(), r.size(), J.size());
  for (int i = 0; i < ne; i++) {
    CHECK(r[i].size() == 3 && J[i].rows() == 3 && J[i].cols() == 7, "term %d is not an edge term", i);
    CheckEdge(ctx, J[i], r[i], emap, 15, P, edge[i]);
  }
  std::vector<bool> used(r.size(), false);
  for (const auto & kv : voxels) {
    V3 c = V3::Zero(); for (const V3 & p : kv.second) {c += p / kv.second.size();}
    bool found = false;
    for (size_t i = ne; i < r.size() && !found; i++) {
      if (used[i]) {continue;}
      try {CheckSurface(ctx, J[i], r[i], sn, -1.5, P, c); used[i] = found = true;} catch (const mc::Violation &) {}
    }
    CHECK(found, "no term for the centroid %s of %zu surface points (%d edge points, %zu voxels)", mc::mstr(c).c_str(), kv.second.size(), ne, voxels.size());
  }
  ctx.step(r.size()); ctx.outcome(mc::hash_str(ctx.trace()));
}
// the same with scans as large as real ones
MC_SCENARIO(combined_large)
{
  const Eigen::Isometry3d P = Pose(ctx.choose(mc::tier(3, kPoses)));
  const std::vector<V3> emap = Line({2, 1, -1}, {1, 2, -2}, 60, 0);
  const V3 sn = V3(0.1, 0.2, 1).normalized();
  const std::vector<V3> smap = Plane({0.1, 0.2, 1}, -1.5, P * V3(1.5, -1, .5));
  const int ne = ctx.pick({0, 4, 16, 17, 33, 65, 130, 300}), ns = ctx.pick({0, 7, 16, 17, 33, 65, 100, 200});
  std::vector<V3> edge, surface;
  for (int i = 0; i < ne; i++) {edge.push_back(Float(P.inverse() * (emap[8 + (i * 5) % 44] + V3(0.01 * (i % 9), 0.1 * (i % 4), 0.03 * (i % 7)))));}
  for (int i = 0; i < ns; i++) {const int cell = (i * 3) % (ns / 2 + 1); surface.push_back(V3(cell % 8 - 3 + 0.25 + 0.0625 * (i % 5), cell / 8 % 8 - 4 + 0.25, cell / 64 + 0.5));}
  std::map<std::tuple<int, int, int>, std::vector<V3>> voxels;
  for (const V3 & p : surface) {voxels[{std::floor(p(0)), std::floor(p(1)), std::floor(p(2))}].push_back(p);}
  const LOAMOptimizationProblem<PointXYZToVector> problem(MakeCloud(emap), MakeCloud(smap), 15);
  const auto [J, r] = problem.Make(EdgeSurfaceScan(MakeCloud(edge), MakeCloud(surface)), P);
  CHECK(J.size() == r.size() && r.size() == ne + voxels.size(), "%d edge points and %zu voxels of surface points give %zu residuals and %zu Jacobians", ne, voxels.size(), r.size(), J.size());
  for (int i = 0; i < ne; i++) {
    CHECK(r[i].size() == 3 && J[i].rows() == 3 && J[i].cols() == 7, "term %d is not an edge term", i);
    CheckEdge(ctx, J[i], r[i], emap, 15, P, edge[i]);
  }
  std::vector<bool> used(r.size(), false);
  for (const auto & kv : voxels) {
    V3 c = V3::Zero(); for (const V3 & p : kv.second) {c += p / kv.second.size();}
    bool found = false;
    for (size_t i = ne; i < r.size() && !found; i++) {
      if (used[i] || r[i].size() != 1) {continue;}
      if (std::fabs(std::fabs(r[i](0)) - std::fabs(sn.dot(P * c) + 1.5)) > 1e-3 * (1 + std::fabs(r[i](0)))) {continue;}
      try {CheckSurface(ctx, J[i], r[i], sn, -1.5, P, c); used[i] = found = true;} catch (const mc::Violation &) {}
    }
    CHECK(found, "no term for the centroid %s of %zu surface points (%d edge points, %zu voxels)", mc::mstr(c).c_str(), kv.second.size(), ne, voxels.size());
  }
  ctx.step(r.size()); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

// R02: derivative of a rotated point by the quaternion, Jacobian rows built from it, tangent-space map.
#include "mc/mc.hpp"
#include "rotationlib/jacobian/quaternion.hpp"
#include "lidar_feature_localization/jacobian.hpp"
#include "lidar_feature_localization/optimizer.hpp"

using Q = std::array<double, 4>;
static Q Mul(const Q & a, const Q & b)
{
  return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
    a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
    a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
    a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
}
static Q Conj(const Q & a) {return {a[0], -a[1], -a[2], -a[3]};}
static Eigen::Matrix<double, 3, 4> Ref(const Q & q, const Eigen::Vector3d & p)
{
  // d(q p q*)/dq_k = e_k p q* + q p e_k*
  const Q pq = {0, p(0), p(1), p(2)};
  Eigen::Matrix<double, 3, 4> J;
  for (int k = 0; k < 4; k++) {
    Q e = {0, 0, 0, 0}; e[k] = 1;
    const Q a = Mul(Mul(e, pq), Conj(q)), b = Mul(Mul(q, pq), Conj(e));
    for (int r = 0; r < 3; r++) {J(r, k) = a[r + 1] + b[r + 1];}
  }
  return J;
}
static Eigen::Quaterniond E(const Q & q) {return Eigen::Quaterniond(q[0], q[1], q[2], q[3]);}
static Q PickQ(mc::Ctx & ctx, int n)
{
  static const double a[] = {0, 1, -2, 0.5, 3};
  Q q; for (auto & x : q) {x = a[ctx.choose(n)];}
  return q;
}
static Eigen::Vector3d PickV(mc::Ctx & ctx, int n)
{
  static const double a[] = {0, 1, -3, 0.25, 100};
  Eigen::Vector3d v; for (int i = 0; i < 3; i++) {v(i) = a[ctx.choose(n)];}
  return v;
}
static bool Near(const Eigen::MatrixXd & a, const Eigen::MatrixXd & b, double scale)
{
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-13 * (1 + scale));
}

// the derivative is bilinear in (q, p): the lattice contains a basis of both
MC_SCENARIO(rotated_point)
{
  const Q q = PickQ(ctx, mc::tier(4, 5)); const Eigen::Vector3d p = PickV(ctx, mc::tier(4, 5));
  const Eigen::MatrixXd J = rotationlib::DRpDq(E(q), p), R = Ref(q, p);
  CHECK(Near(J, R, R.norm()), "derivative at q (%g %g %g %g), p %s is %s, expected %s", q[0], q[1], q[2], q[3], mc::mstr(p).c_str(), mc::mstr(J).c_str(), mc::mstr(R).c_str());
  ctx.step(); ctx.outcome(mc::hash_str(mc::mstr(R)));
}

MC_SCENARIO(rows)
{
  const int n = ctx.range(0, mc::tier(3, 4));
  static const Q qs[] = {{1, 0, 0, 0}, {.5, .5, -.5, .5}, {.6, 0, .8, 0}, {0, 1, 2, -3}};
  const Q q = qs[ctx.choose(4)];
  static const Eigen::Vector3d vs[] = {{1, 2, 3}, {-4, 0, .5}, {0, 0, 0}, {7, -1, 2}};
  std::vector<Eigen::Vector3d> p, c;
  for (int i = 0; i < n; i++) {p.push_back(vs[ctx.choose(4)]); c.push_back(vs[ctx.choose(4)]);}
  const Eigen::MatrixXd J = MakeJacobian(p, c, E(q));
  Eigen::MatrixXd R(n, 7);
  for (int i = 0; i < n; i++) {R.block<1, 4>(i, 0) = c[i].transpose() * Ref(q, p[i]); R.block<1, 3>(i, 4) = c[i].transpose();}
  CHECK(Near(J, R, R.norm()), "rows of %d points are %s, expected %s", n, mc::mstr(J).c_str(), mc::mstr(R).c_str());
  ctx.step(); ctx.outcome(mc::hash_str(mc::mstr(R)));
}

// each factor of the bilinear form by itself, over many magnitudes
MC_SCENARIO(magnitudes)
{
  static const double a[] = {1e-12, 1e-6, 1e-3, 1, 1e3, 1e6, 0}; static const double b[] = {1e-9, 1e-4, 1, 1e5, -1, 0};
  Q q; Eigen::Vector3d p; const double s = b[ctx.choose(4)];
  for (auto & x : q) {x = s * (ctx.flag() ? 0.5 : -0.3);}
  const double t = a[ctx.choose(6)];
  for (int i = 0; i < 3; i++) {p(i) = t * (i + 1) * b[2 + ctx.choose(4)];}
  const Eigen::MatrixXd J = rotationlib::DRpDq(E(q), p), R = Ref(q, p);
  CHECK((J - R).cwiseAbs().maxCoeff() <= 1e-13 * R.cwiseAbs().maxCoeff(), "derivative at q (%g %g %g %g), p %s is %s, expected %s", q[0], q[1], q[2], q[3], mc::mstr(p).c_str(), mc::mstr(J).c_str(), mc::mstr(R).c_str());
  ctx.step(); ctx.outcome(mc::hash_str(mc::mstr(R)));
}
MC_SCENARIO(many_rows)
{
  const int n = ctx.pick({5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 1000}), pattern = ctx.choose(3);
  static const Q qs[] = {{1, 0, 0, 0}, {.5, .5, -.5, .5}, {.6, 0, .8, 0}, {0, 1, 2, -3}};
  const Q q = qs[ctx.choose(4)];
  std::vector<Eigen::Vector3d> p, c;
  for (int i = 0; i < n; i++) {p.push_back({pattern * 1. + i % 5, -2. * (i % 3), 0.5 * i}); c.push_back({pattern == 2 ? 0. : 1., i % 7 - 3., pattern == 1 ? 0.1 * i : -1.});}
  const Eigen::MatrixXd J = MakeJacobian(p, c, E(q));
  CHECK(J.rows() == n && J.cols() == 7, "%ld rows for %d points", static_cast<long>(J.rows()), n);
  for (int i = 0; i < n; i++) {
    Eigen::MatrixXd R(1, 7); R.block<1, 4>(0, 0) = c[i].transpose() * Ref(q, p[i]); R.block<1, 3>(0, 4) = c[i].transpose();
    CHECK(Near(J.row(i), R, R.norm()), "row %d of %d is %s, expected %s", i, n, mc::mstr(J.row(i)).c_str(), mc::mstr(R).c_str());
  }
  ctx.step(n); ctx.outcome(mc::mix(mc::mix(n, pattern), mc::hash_str(mc::mstr(J.row(n - 1)))));
}
MC_SCENARIO(tangent_map)
{
  const Q q = PickQ(ctx, 5);
  const Eigen::MatrixXd M = MakeM(E(q));
  Eigen::MatrixXd R = Eigen::MatrixXd::Zero(7, 6);
  for (int k = 0; k < 3; k++) {
    Q e = {0, 0, 0, 0}; e[k + 1] = 0.5;
    const Q c = Mul(q, e);   // derivative of q * exp(theta / 2) by theta_k at zero
    for (int r = 0; r < 4; r++) {R(r, k) = c[r];}
    R(4 + k, 3 + k) = 1;
  }
  CHECK(Near(M, R, R.norm()), "tangent map at (%g %g %g %g) is %s, expected %s", q[0], q[1], q[2], q[3], mc::mstr(M).c_str(), mc::mstr(R).c_str());
  // chain rule: rotated-point derivative through the map equals that of the rotation vector, -|q|^2 R [p]x for unit q: check by p x
  ctx.step(); ctx.outcome(mc::hash_str(mc::mstr(R)));
}
MC_MAIN

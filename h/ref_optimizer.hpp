// Reference for the optimiser's pieces, written from the property text: plain loops, cyclic Jacobi eigenvalues,
// full-pivoting elimination on the tangent-space normal equations.
#ifndef REF_OPTIMIZER_HPP_
#define REF_OPTIMIZER_HPP_
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <algorithm>
#include <cmath>
#include <vector>

namespace ref
{
inline double Median(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}
inline double RobustScale(const std::vector<double> & v)
{
  const double m = Median(v);
  std::vector<double> d;
  for (double x : v) {d.push_back(std::fabs(x - m));}
  return 1.482602218505602 * Median(d);
}
inline double HuberWeight(double e) {const double k = 1.345; return e < k * k ? 1 : k / std::sqrt(e);}

inline std::vector<double> Eigenvalues(Eigen::MatrixXd A)
{
  const int n = A.rows();
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0;
    for (int i = 0; i < n; i++) {for (int j = i + 1; j < n; j++) {off += A(i, j) * A(i, j);}}
    if (off <= 1e-40 * A.squaredNorm()) {break;}
    for (int p = 0; p < n; p++) {
      for (int q = p + 1; q < n; q++) {
        if (A(p, q) == 0) {continue;}
        const double th = (A(q, q) - A(p, p)) / (2 * A(p, q));
        const double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
        const double c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++) {const double a = A(k, p), b = A(k, q); A(k, p) = c * a - s * b; A(k, q) = s * a + c * b;}
        for (int k = 0; k < n; k++) {const double a = A(p, k), b = A(q, k); A(p, k) = c * a - s * b; A(q, k) = s * a + c * b;}
      }
    }
  }
  std::vector<double> e;
  for (int i = 0; i < n; i++) {e.push_back(A(i, i));}
  std::sort(e.begin(), e.end());
  return e;
}

inline Eigen::MatrixXd Tangent(const Eigen::Quaterniond & q)
{
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Eigen::MatrixXd M = Eigen::MatrixXd::Zero(7, 6);
  M.block(0, 0, 4, 3) << -x / 2, -y / 2, -z / 2, w / 2, -z / 2, y / 2, z / 2, w / 2, -x / 2, -y / 2, x / 2, w / 2;
  M.block(4, 3, 3, 3).setIdentity();
  return M;
}

struct Normal
{
  std::vector<double> unweighted;   // eigenvalues of the sum of J^T J
  Eigen::MatrixXd A;                // weighted, tangent space
  Eigen::VectorXd b;
  double Closest() const {double m = 1e300; for (double e : unweighted) {m = std::min(m, std::fabs(std::fabs(e) - 0.1));} return m;}
  bool Degenerate() const {for (double e : unweighted) {if (std::fabs(e) < 0.1) {return true;}} return false;}
  Eigen::VectorXd Solve() const {return A.fullPivLu().solve(-b);}
};
inline Normal MakeNormal(const Eigen::MatrixXd & M, const std::vector<double> & w, const std::vector<Eigen::MatrixXd> & J, const std::vector<Eigen::VectorXd> & r)
{
  Eigen::MatrixXd D = Eigen::MatrixXd::Zero(7, 7), A = D;
  Eigen::VectorXd b = Eigen::VectorXd::Zero(7);
  for (size_t k = 0; k < J.size(); k++) {
    for (int row = 0; row < J[k].rows(); row++) {
      for (int i = 0; i < 7; i++) {
        for (int j = 0; j < 7; j++) {D(i, j) += J[k](row, i) * J[k](row, j); A(i, j) += w[k] * J[k](row, i) * J[k](row, j);}
        b(i) += w[k] * J[k](row, i) * r[k](row);
      }
    }
  }
  Normal n;
  n.unweighted = Eigenvalues(D);
  n.A = M.transpose() * A * M;
  n.b = M.transpose() * b;
  return n;
}
inline Eigen::Quaterniond Exp(const Eigen::Vector3d & th)
{
  const double k = th.norm();
  if (k < 1e-8) {return Eigen::Quaterniond(1, th(0) / 2, th(1) / 2, th(2) / 2);}
  const Eigen::Vector3d v = th / k * std::sin(k / 2);
  return Eigen::Quaterniond(std::cos(k / 2), v(0), v(1), v(2));
}
}  // namespace ref
#endif  // REF_OPTIMIZER_HPP_

// Textbook Kalman filter on the stacked state of the last N steps: explicit block matrices, Joseph-form update.
#ifndef REF_KF_HPP_
#define REF_KF_HPP_
#include <cmath>
#include <vector>
#include <Eigen/Core>
namespace ref
{
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
// plain loops: cheap to compile, and no code shared with what is checked
__attribute__((noinline)) inline Mat Mul(const Mat & a, const Mat & b)
{
  const long n = a.rows(), m = a.cols(), k = b.cols();
  Mat r(n, k);
  const double * pa = a.data(); const double * pb = b.data(); double * pr = r.data();
  for (long i = 0; i < n * k; i++) {pr[i] = 0;}
  std::vector<long> rows;
  for (long l = 0; l < m; l++) {
    rows.clear();
    for (long i = 0; i < n; i++) {if (!(pa[l * n + i] == 0)) {rows.push_back(i);}}
    for (long j = 0; j < k; j++) {
      const double v = pb[j * m + l];
      if (v == 0) {continue;}
      for (long i : rows) {pr[j * n + i] += pa[l * n + i] * v;}
    }
  }
  return r;
}
__attribute__((noinline)) inline Mat Transposed(const Mat & a)
{
  Mat r(a.cols(), a.rows());
  for (long i = 0; i < a.rows(); i++) {for (long j = 0; j < a.cols(); j++) {r(j, i) = a(i, j);}}
  return r;
}
__attribute__((noinline)) inline Mat Sum(const Mat & a, const Mat & b, double sign = 1)
{
  Mat r = a;
  for (long i = 0; i < a.size(); i++) {r.data()[i] += sign * b.data()[i];}
  return r;
}
// Gauss-Jordan with full pivoting; det is the determinant of a
__attribute__((noinline)) inline Mat Solve(Mat a, Mat b, double * det = nullptr)
{
  const long n = a.rows(), m = b.cols();
  std::vector<long> column(n); double d = 1;
  std::vector<bool> used_r(n), used_c(n);
  for (long k = 0; k < n; k++) {
    long pr = -1, pc = -1; double best = -1;
    for (long i = 0; i < n; i++) {for (long j = 0; j < n; j++) {
        if (!used_r[i] && !used_c[j] && !(std::fabs(a(i, j)) <= best)) {best = std::fabs(a(i, j)); pr = i; pc = j;}
    }}
    used_r[pr] = used_c[pc] = true; column[pr] = pc;
    const double p = a(pr, pc); d *= p;
    for (long j = 0; j < n; j++) {a(pr, j) /= p;}
    for (long j = 0; j < m; j++) {b(pr, j) /= p;}
    for (long i = 0; i < n; i++) {
      const double f = a(i, pc);
      if (i == pr || f == 0) {continue;}
      for (long j = 0; j < n; j++) {a(i, j) -= f * a(pr, j);}
      for (long j = 0; j < m; j++) {b(i, j) -= f * b(pr, j);}
    }
  }
  if (det) {*det = d;}                       // up to its sign
  Mat r(n, m);
  for (long i = 0; i < n; i++) {for (long j = 0; j < m; j++) {r(column[i], j) = b(i, j);}}
  return r;
}
// a + shift * identity has only positive pivots
__attribute__((noinline)) inline bool PositiveDefinite(Mat a, double shift)
{
  const long n = a.rows();
  for (long i = 0; i < n; i++) {a(i, i) += shift;}
  for (long k = 0; k < n; k++) {
    if (!(a(k, k) > 0)) {return false;}
    for (long i = k + 1; i < n; i++) {
      const double f = a(i, k) / a(k, k);
      for (long j = k; j < n; j++) {a(i, j) -= f * a(k, j);}
    }
  }
  return true;
}
struct StackedKF
{
  int n, N; Mat x, P;
  StackedKF(const Vec & x0, const Mat & P0, int steps) : n(x0.size()), N(steps), x(n * N, 1), P(Mat::Zero(n * N, n * N))
  {
    for (int s = 0; s < N; s++) {for (int i = 0; i < n; i++) {x(s * n + i) = x0(i); for (int j = 0; j < n; j++) {P(s * n + i, s * n + j) = P0(i, j);}}}
  }
  void Predict(const Vec & next, const Mat & A, const Mat & Q)
  {
    Mat F = Mat::Zero(n * N, n * N), W = F;
    for (int i = 0; i < n; i++) {for (int j = 0; j < n; j++) {F(i, j) = A(i, j); W(i, j) = Q(i, j);}}
    for (int i = n; i < n * N; i++) {F(i, i - n) = 1;}
    Mat y = x;
    for (int i = n; i < n * N; i++) {y(i) = x(i - n);}
    for (int i = 0; i < n; i++) {y(i) = next(i);}
    x = y;
    P = Sum(Mul(Mul(F, P), Transposed(F)), W);
  }
  Mat Measurement(const Mat & C, int d) const
  {
    Mat H = Mat::Zero(C.rows(), n * N);
    for (int i = 0; i < C.rows(); i++) {for (int j = 0; j < n; j++) {H(i, d * n + j) = C(i, j);}}
    return H;
  }
  void Update(const Mat & y, const Mat & C, const Mat & R, int d)
  {
    const Mat H = Measurement(C, d), Ht = Transposed(H);
    const Mat S = Sum(Mul(H, Mul(P, Ht)), R);
    const Mat K = Transposed(Solve(Transposed(S), Mul(H, Transposed(P))));   // P H^T S^-1
    x = Sum(x, Mul(K, Sum(y, Mul(H, x), -1)));
    Mat I = Mul(K, H);
    if (n * N > 100) {       // the Joseph form costs too much
      P = Sum(P, Mul(K, Mul(H, P)), -1);
      const Mat T = Transposed(P);
      for (long i = 0; i < P.size(); i++) {P.data()[i] = 0.5 * (P.data()[i] + T.data()[i]);}
      return;
    }
    for (long i = 0; i < I.size(); i++) {I.data()[i] = -I.data()[i];}
    for (int i = 0; i < n * N; i++) {I(i, i) += 1;}
    P = Sum(Mul(Mul(I, P), Transposed(I)), Mul(Mul(K, R), Transposed(K)));
  }
  Vec At(int d) const {Vec r(n); for (int i = 0; i < n; i++) {r(i) = x(d * n + i);} return r;}
  Mat CovAt(int d) const {Mat r(n, n); for (int i = 0; i < n; i++) {for (int j = 0; j < n; j++) {r(i, j) = P(d * n + i, d * n + j);}} return r;}
};
}  // namespace ref
#endif

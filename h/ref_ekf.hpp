// The EKF localizer as its documentation states it: stacked Kalman filter, gates, delays, smoothing, lifecycle.
#ifndef REF_EKF_HPP_
#define REF_EKF_HPP_
#include <cmath>
#include <deque>
#include "ref_kf.hpp"
namespace ref
{
inline double WrapAngle(double a) {return std::atan2(std::sin(a), std::cos(a));}
// rounded to nearest; -1: too old
inline int DelayStep(int64_t age_ns, double dt, int N)
{
  const long double age = age_ns <= 0 ? 0.L : age_ns * 1e-9L;
  if (age == 0) {return 0;}
  if (dt == 0) {return -1;}
  const long double s = std::floor(age / dt + 0.5L);
  return s >= N ? -1 : static_cast<int>(s);
}
// the age is so close to the middle of two steps that rounding decides
inline bool Tie(int64_t age_ns, double dt)
{
  if (dt == 0 || age_ns <= 0) {return false;}
  const long double s = age_ns * 1e-9L / dt;
  return s < 1e6L && std::fabs(s - std::floor(s) - 0.5L) < 1e-11L;
}
struct Measured {Vec y; Mat R; int64_t stamp; int angle = -1;};   // R already times the smoothing steps
enum class Verdict {kUsed, kIgnored, kUnclear};
inline Verdict Apply(StackedKF & f, const Measured & m, const std::vector<int> & at, int64_t now, double dt, double gate)
{
  if (Tie(now - m.stamp, dt)) {return Verdict::kUnclear;}
  const int d = DelayStep(now - m.stamp, dt, f.N);
  if (d < 0 || !m.y.allFinite()) {return Verdict::kIgnored;}
  const int k = at.size();
  Mat C = Mat::Zero(k, f.n), P(k, k); Vec e(k), y = m.y;
  for (int i = 0; i < k; i++) {
    C(i, at[i]) = 1; e(i) = f.At(d)(at[i]);
    for (int j = 0; j < k; j++) {P(i, j) = f.CovAt(0)(at[i], at[j]);}
  }
  if (m.angle >= 0) {y(m.angle) = e(m.angle) + WrapAngle(y(m.angle) - e(m.angle));}
  double det;
  const Mat dy = Sum(y, e, -1);
  const double d2 = Mul(Transposed(dy), Solve(P, dy, &det))(0, 0);
  if (!(std::fabs(det) > 1e-30) || !std::isfinite(d2) || std::fabs(d2 - gate * gate) < 1e-6 * (1 + gate * gate)) {return Verdict::kUnclear;}
  if (d2 > gate * gate) {return Verdict::kIgnored;}
  if (!m.R.allFinite()) {return Verdict::kIgnored;}     // no usable gain
  f.Update(y, C, m.R, d);
  return Verdict::kUsed;
}
}  // namespace ref
#endif

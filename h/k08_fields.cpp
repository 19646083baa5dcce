// K08: covariance fields, frame names, Mahalanobis gate.
#include "mc/mc.hpp"
#include <tf2/utils.h>
#include "ekf_localizer/covariance.hpp"
#include "ekf_localizer/mahalanobis.hpp"
#include "ekf_localizer/pose_measurement.hpp"
#include "ekf_localizer/twist_measurement.hpp"
#include "ekf_localizer/string.hpp"

static const int kPose[3] = {0, 1, 5}, kTwist[2] = {0, 5};
static bool SameBits(double a, double b) {return std::memcmp(&a, &b, sizeof a) == 0;}
MC_SCENARIO(to_messages)
{
  Matrix6d P;
  const int kind = ctx.choose(mc::tier(40, 400));
  const double special[] = {0., -0., 1e300, 1e-300, -5.};
  for (int i = 0; i < 36; i++) {P(i / 6, i % 6) = kind < 36 ? (i == kind ? 7.25 : i + 1) : (kind == 36 ? -1. - i : special[(i * (kind - 35) + kind) % 5]);}
  const auto p = EKFCovarianceToPoseMessageCovariance(P);
  const auto t = EKFCovarianceToTwistMessageCovariance(P);
  for (int r = 0; r < 6; r++) {
    for (int c = 0; c < 6; c++) {
      double ep = 0, et = 0;
      for (int a = 0; a < 3; a++) {for (int b = 0; b < 3; b++) {if (kPose[a] == r && kPose[b] == c) {ep = P(a, b);}}}
      for (int a = 0; a < 2; a++) {for (int b = 0; b < 2; b++) {if (kTwist[a] == r && kTwist[b] == c) {et = P(4 + a, 4 + b);}}}
      CHECK(p[6 * r + c] == ep, "pose covariance (%d, %d) is %g, expected %g", r, c, p[6 * r + c], ep);
      CHECK(t[6 * r + c] == et, "twist covariance (%d, %d) is %g, expected %g", r, c, t[6 * r + c], et);
    }
  }
  ctx.step(2); ctx.outcome(kind);
}
MC_SCENARIO(from_messages)
{
  std::array<double, 36> m;
  const int one = ctx.range(-1, 35), steps = ctx.pick({1, 2, 5, 1000});
  for (int i = 0; i < 36; i++) {m[i] = one < 0 ? i + 0.5 : i == one ? 3. : 0.;}
  const Eigen::Matrix3d p = PoseMeasurementCovariance(m, steps);
  const Eigen::Matrix2d t = TwistMeasurementCovariance(m, steps);
  for (int a = 0; a < 3; a++) {for (int b = 0; b < 3; b++) {CHECK(p(a, b) == m[6 * kPose[a] + kPose[b]] * steps, "pose measurement covariance (%d, %d) is %g with entry %d set and %d steps", a, b, p(a, b), one, steps);}}
  for (int a = 0; a < 2; a++) {for (int b = 0; b < 2; b++) {CHECK(t(a, b) == m[6 * kTwist[a] + kTwist[b]] * steps, "twist measurement covariance (%d, %d) is %g with entry %d set and %d steps", a, b, t(a, b), one, steps);}}
  ctx.step(2); ctx.outcome((one + 1) * 10000 + steps);
}
MC_SCENARIO(frame_names)
{
  // every name of up to 6 characters over a small alphabet
  static const char letters[] = {'/', 'a', 'B', '_', '%', ' '};
  const int n = ctx.range(0, mc::tier(6, 7));
  std::string s;
  for (int i = 0; i < n; i++) {s += letters[ctx.choose(6)];}
  const std::string before = s;
  const std::string r = EraseBeginSlash(s);
  const std::string e = !s.empty() && s[0] == '/' ? s.substr(1) : s;
  CHECK(r == e, "\"%s\" becomes \"%s\"", s.c_str(), r.c_str());
  CHECK(s == before, "the argument was changed");
  ctx.step(); ctx.outcome(mc::hash_str(r));
}
MC_SCENARIO(long_frame_names)
{
  const int n = ctx.pick({7, 14, 15, 16, 17, 31, 100});
  const std::string s = std::string(ctx.flag() ? "/" : "") + std::string(ctx.flag() ? "/" : "") + std::string(n, 'x') + (ctx.flag() ? "/y/" : "");
  const std::string e = s[0] == '/' ? s.substr(1) : s;
  CHECK(EraseBeginSlash(s) == e, "\"%s\" becomes \"%s\"", s.c_str(), EraseBeginSlash(s).c_str());
  ctx.step(); ctx.outcome(mc::hash_str(s));
}
// exact arithmetic: covariances and distances are powers of two, the boundary itself is accepted
MC_SCENARIO(gate_boundary)
{
  const int dim = ctx.range(1, 3);
  const double gate = ctx.pick({0., 0.5, 1., 2., 10000.});
  Eigen::VectorXd x(dim), y(dim); Eigen::MatrixXd C = Eigen::MatrixXd::Zero(dim, dim);
  for (int i = 0; i < dim; i++) {x(i) = 0.5 * i - 1; C(i, i) = ctx.pick({0.25, 1., 16.}); y(i) = x(i);}
  // along one axis: distance = |step| / sigma
  const int axis = ctx.choose(dim); const double factor = ctx.pick({0., 0.75, 1., 1.0009765625, 2.});
  y(axis) += (ctx.flag() ? 1 : -1) * gate * std::sqrt(C(axis, axis)) * factor;
  const bool expected = factor <= 1 || gate == 0;
  CHECK(MahalanobisGate(gate, x, y, C) == expected, "gate %g, %g times as far: %s", gate, factor, expected ? "rejected" : "accepted");
  CHECK(SquaredMahalanobis(x, y, C) == gate * gate * factor * factor, "squared distance %.17g, expected %.17g", SquaredMahalanobis(x, y, C), gate * gate * factor * factor);
  ctx.step(2); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_SCENARIO(gate_correlated)
{
  // correlated covariances, solved by Cramer's rule
  const double a = ctx.pick({0.5, 2.}), b = ctx.pick({1., 8.}), r = ctx.pick({-0.9, -0.3, 0., 0.5, 0.95});
  const double c = r * std::sqrt(a * b);
  Eigen::MatrixXd C(2, 2); C << a, c, c, b;
  Eigen::VectorXd x(2), y(2); x << 1, 2;
  y(0) = 1 + ctx.pick({-3., -1., 0., 0.5, 2.}); y(1) = 2 + ctx.pick({-4., -0.5, 0., 1., 3.});
  const double dx = x(0) - y(0), dy = x(1) - y(1), det = a * b - c * c;
  const double d2 = (b * dx * dx - 2 * c * dx * dy + a * dy * dy) / det;
  CHECK(mc::close(SquaredMahalanobis(x, y, C), d2, 1e-9, 1e-12), "squared distance %g, expected %g", SquaredMahalanobis(x, y, C), d2);
  for (double g : {0.3, 1., 2., 4.}) {
    if (std::fabs(d2 - g * g) < 1e-9) {continue;}
    CHECK(MahalanobisGate(g, x, y, C) == (d2 <= g * g), "squared distance %g, gate %g", d2, g);
  }
  ctx.step(5); ctx.outcome(mc::hash_double(1, d2));
}
MC_SCENARIO(gate_three_dimensions)
{
  Eigen::MatrixXd L = Eigen::MatrixXd::Zero(3, 3);
  L(0, 0) = 1; L(1, 0) = ctx.pick({-0.5, 0., 2.}); L(1, 1) = ctx.pick({0.5, 2.});
  L(2, 0) = ctx.pick({-1., 0.25}); L(2, 1) = ctx.pick({0., 1.5}); L(2, 2) = ctx.pick({1., 3.});
  const Eigen::MatrixXd C = L * L.transpose();
  Eigen::VectorXd w(3); w(0) = ctx.pick({-1., 0., 2.}); w(1) = ctx.pick({0., 1.}); w(2) = ctx.pick({-2., 0.5});
  Eigen::VectorXd x(3); x << 5, -6, 7;
  const Eigen::VectorXd y = x + L * w;     // squared distance |w|^2
  CHECK(mc::close(SquaredMahalanobis(x, y, C), w.squaredNorm(), 1e-8, 1e-9), "squared distance %g, expected %g", SquaredMahalanobis(x, y, C), w.squaredNorm());
  for (double g : {0.7, 1.7, 2.6}) {CHECK(MahalanobisGate(g, x, y, C) == (w.squaredNorm() <= g * g), "squared distance %g, gate %g", w.squaredNorm(), g);}
  ctx.step(4); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

// K03: motion model, its derivative, process noise and angle wrapping, on complete grids of states and steps.
#include <cmath>
namespace header_version {
#include "ekf_localizer/normalize_yaw.hpp"
}
#undef EKF_LOCALIZER__NORMALIZE_YAW_HPP_
#define EKF_LOCALIZER__NORMALIZE_YAW_HPP_
#include "mc/mc.hpp"
#include <tf2/utils.h>
#include "ekf_localizer/state_transition.hpp"
using LD = long double;
static const double kPi = M_PI;

static LD Wrap(LD a) {return std::atan2(std::sin(a), std::cos(a));}
struct State {LD v[6];};
static State Next(const State & s, LD dt)
{
  State n = s;
  const LD heading = s.v[2] + s.v[3];
  n.v[0] = s.v[0] + s.v[4] * dt * std::cos(heading);
  n.v[1] = s.v[1] + s.v[4] * dt * std::sin(heading);
  n.v[2] = s.v[2] + s.v[5] * dt;   // unwrapped
  return n;
}
static Vector6d Pick(mc::Ctx & ctx)
{
  Vector6d x;
  x(0) = ctx.pick({0., -3., 1e5}); x(1) = ctx.pick({0., 7.5});
  x(2) = ctx.pick({0., 0.3, kPi / 2, -kPi / 2, 2.5, -2.5, kPi, -kPi, 3.1, -3.1, 3.3, -4.5, 9.5, -700., 1e-7}); x(3) = ctx.pick({0., 0.05, -0.2, 2.9});
  x(4) = ctx.pick({0., 1., -4., 30., 1e-5, -0.05}); x(5) = ctx.pick({0., 0.2, -1.5, 400., 1e-6, -1e-3});
  return x;
}
static bool SameAngle(double a, LD b, double tol) {return std::fabs(static_cast<double>(Wrap(static_cast<LD>(a) - b))) <= tol;}
MC_SCENARIO(prediction)
{
  const Vector6d x = Pick(ctx);
  const double dt = ctx.pick({0., 0.001, 0.02, 1., 10.});
  const Vector6d n = predictNextState(x, dt);
  State s; for (int i = 0; i < 6; i++) {s.v[i] = x(i);}
  const State e = Next(s, dt);
  const std::string at = mc::format("state %s, step %g", mc::mstr(x.transpose()).c_str(), dt);
  for (int i : {0, 1}) {CHECK(mc::close(n(i), static_cast<double>(e.v[i]), 1e-12, 1e-9), "%s: component %d is %.17g, expected %.17Lg", at.c_str(), i, n(i), e.v[i]);}
  CHECK(n(2) >= -kPi - 1e-12 && n(2) <= kPi + 1e-12, "%s: heading %.17g is not wrapped", at.c_str(), n(2));
  CHECK(SameAngle(n(2), e.v[2], 1e-9), "%s: heading %.17g, expected %.17Lg", at.c_str(), n(2), e.v[2]);
  for (int i : {3, 4, 5}) {CHECK(n(i) == x(i), "%s: component %d changed to %.17g", at.c_str(), i, n(i));}
  ctx.step(); ctx.state(mc::hash_double(mc::hash_double(mc::hash_double(1, n(0)), n(1)), n(2)));
  ctx.outcome(mc::hash_double(1, n(2)));
}
MC_SCENARIO(transition_matrix)
{
  const Vector6d x = Pick(ctx);
  const double dt = ctx.pick({0., 0.02, 1., 10.});
  const Matrix6d A = createStateTransitionMatrix(x, dt);
  State s; for (int i = 0; i < 6; i++) {s.v[i] = x(i);}
  for (int j = 0; j < 6; j++) {
    const LD h = 1e-5L;
    State a = s, b = s; a.v[j] += h; b.v[j] -= h;
    const State p = Next(a, dt), m = Next(b, dt);
    for (int i = 0; i < 6; i++) {
      const double d = static_cast<double>((p.v[i] - m.v[i]) / (2 * h));
      CHECK(mc::close(A(i, j), d, 1e-7, 1e-7), "state %s, step %g: entry (%d, %d) is %.12g, the derivative is %.12g", mc::mstr(x.transpose()).c_str(), dt, i, j, A(i, j), d);
    }
  }
  // against the code's own prediction as well
  for (int j = 0; j < 6; j++) {
    Vector6d a = x, b = x; const double h = 1e-4; a(j) += h; b(j) -= h;
    const Vector6d p = predictNextState(a, dt), m = predictNextState(b, dt);
    for (int i = 0; i < 6; i++) {
      double d = p(i) - m(i);
      if (i == 2) {d = static_cast<double>(Wrap(d));}
      CHECK(mc::close(A(i, j), d / (2 * h), 1e-5, 1e-4), "state %s, step %g: entry (%d, %d) is %.12g, the prediction changes by %.12g", mc::mstr(x.transpose()).c_str(), dt, i, j, A(i, j), d / (2 * h));
    }
  }
  ctx.step(12); uint64_t o = 1; for (int i = 0; i < 36; i++) {o = mc::hash_double(o, A(i / 6, i % 6));} ctx.state(o); ctx.outcome(o);
}
MC_SCENARIO(process_noise)
{
  Eigen::Vector4d v;
  for (int i = 0; i < 4; i++) {v(i) = ctx.pick({0., 1e-12, 0.25 * (i + 1), 1e6});}
  const Matrix6d Q = processNoiseCovariance(v);
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      const double e = i == j && i >= 2 ? v(i - 2) : 0;
      CHECK(Q(i, j) == e, "variances %s: entry (%d, %d) is %g, expected %g", mc::mstr(v.transpose()).c_str(), i, j, Q(i, j), e);
    }
  }
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
static void CheckWrap(mc::Ctx & ctx, double a)
{
  for (int version = 0; version < 2; version++) {
    const double w = version ? header_version::normalizeYaw(a) : normalizeYaw(a);
    CHECK(w >= -kPi - 1e-12 && w <= kPi + 1e-12, "angle %.17g is wrapped to %.17g", a, w);
    CHECK(SameAngle(w, static_cast<LD>(a), 1e-9 + 1e-14 * std::fabs(a)), "angle %.17g is wrapped to %.17g, expected %.17Lg", a, w, Wrap(static_cast<LD>(a)));
  }
  ctx.step(2);
}
MC_SCENARIO(wrapping_near_multiples)
{
  // every multiple of pi/4 up to 64 turns, and the representable neighbours of it
  const int k = ctx.range(-512, 512);
  const int ulps = ctx.range(-3, 3);
  double a = k * (kPi / 4);
  for (int i = 0; i < std::abs(ulps); i++) {a = std::nextafter(a, ulps > 0 ? 1e9 : -1e9);}
  CheckWrap(ctx, a);
  ctx.outcome(mc::hash_double(1, a));
}
MC_SCENARIO(wrapping_everywhere)
{
  // every sign, every seventh binary exponent
  const int e = 7 * ctx.range(-153, 146);
  const double m = ctx.pick({1., 1.3, 1.9999});
  const double a = (ctx.flag() ? -1 : 1) * std::ldexp(m, e);
  CheckWrap(ctx, a);
  ctx.outcome(mc::hash_double(1, a));
}
MC_SCENARIO(wrapping_fine)
{
  const int k = ctx.range(-20000, 20000);
  CheckWrap(ctx, k * 0.001);
  ctx.outcome(k);
}
MC_MAIN

// O02: errors, normalisation, weights, weighted normal equations, degeneracy and convergence.
#include "mc/mc.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/degenerate.hpp"
#include "ref_optimizer.hpp"

static const Eigen::Quaterniond & Quat(int i)
{
  static const std::vector<Eigen::Quaterniond> q = {
    Eigen::Quaterniond(1, 0, 0, 0), Eigen::Quaterniond(.5, .5, -.5, .5), Eigen::Quaterniond(.6, 0, .8, 0), Eigen::Quaterniond(0, 0, 0, 1),
    Eigen::Quaterniond(0.2, -0.4, 0.8, 0.4), Eigen::Quaterniond(-0.9, 0.1, 0.3, -0.3).normalized()};
  return q[i];
}
// blocks of one residual: alignment-like (3 rows), surface-like (1 row), edge-like (rank two), nothing
static Eigen::MatrixXd Block(int kind, int i)
{
  const double a = 1 + 0.7 * i, b = std::sin(2. * i + 1), c = std::cos(3. * i);
  Eigen::MatrixXd J;
  if (kind == 0) {
    J.resize(3, 7);
    J << a, b, -c, 2 * b, 1, 0, 0, -b, a * c, 2, c, 0, 1, 0, c, -2, a, b * a, 0, 0, 1;
  } else if (kind == 1) {
    J.resize(1, 7);
    J << b, 2 * a, -a * c, b * c, c, b, 0.5;
  } else if (kind == 2) {
    J.resize(3, 7);
    J << 0, a, b, c, 0, -2, b, c, 0, -a, 1, 2, 0, -1, b, 1, 0, a, -b, 1, 0;
  } else {
    J = Eigen::MatrixXd::Zero(1, 7);
  }
  return J;
}
static void CheckUpdate(mc::Ctx & ctx, const Eigen::Quaterniond & q, const std::vector<double> & w, const std::vector<Eigen::MatrixXd> & J, const std::vector<Eigen::VectorXd> & r)
{
  const int n = J.size();
  Eigen::VectorXd weights(n);
  for (int i = 0; i < n; i++) {weights(i) = w[i];}
  const Eigen::MatrixXd M = ref::Tangent(q);
  const ref::Normal N = ref::MakeNormal(M, w, J, r);
  if (N.Closest() < 1e-7) {ctx.count("eigenvalue at the threshold"); ctx.prune();}
  const auto J0 = J; const auto r0 = r;
  const auto [dq, dt] = CalcUpdate(q, weights, J, r);
  const Eigen::VectorXd dx = WeightedUpdate(M, weights, J, r);
  for (int i = 0; i < n; i++) {CHECK(J[i] == J0[i] && r[i] == r0[i], "inputs were changed");}
  const std::string what = mc::format("%d residuals, weights %s", n, mc::vstr(w).c_str());
  if (N.Degenerate()) {
    CHECK(dx.isZero(0) && dt.isZero(0) && dq.w() == 1 && dq.vec().isZero(0), "degenerate (%s; smallest eigenvalue %g): update %s, not zero", what.c_str(), N.unweighted[0], mc::mstr(dx).c_str());
    ctx.count("degenerate");
  } else {
    const std::vector<double> ev = ref::Eigenvalues(N.A);
    if (ev[0] < 1e-9 * ev.back()) {ctx.count("weighted problem singular"); ctx.prune();}
    const double cond = ev.back() / ev[0];
    const Eigen::VectorXd e = N.Solve();
    const double tol = 1e-13 * cond * 50 + 1e-10;
    CHECK((dx - e).norm() <= tol * (1 + e.norm()), "%s: update %s, expected %s", what.c_str(), mc::mstr(dx).c_str(), mc::mstr(e).c_str());
    const Eigen::VectorXd grad = N.A * dx + N.b;
    CHECK(grad.norm() <= tol * (1 + N.b.norm()), "%s: the update leaves gradient %s", what.c_str(), mc::mstr(grad).c_str());
    const Eigen::Quaterniond eq = ref::Exp(e.head(3));
    CHECK((Eigen::Vector4d(dq.w(), dq.x(), dq.y(), dq.z()) - Eigen::Vector4d(eq.w(), eq.x(), eq.y(), eq.z())).norm() <= tol * (1 + e.norm()) + 1.5e-8 && (dt - e.tail(3)).norm() <= tol * (1 + e.norm()),
      "%s: rotation (%g %g %g %g) translation %s from update %s", what.c_str(), dq.w(), dq.x(), dq.y(), dq.z(), mc::mstr(dt).c_str(), mc::mstr(e).c_str());
    ctx.count("solved");
  }
  ctx.step(2);
}

MC_SCENARIO(normal_equations)
{
  const Eigen::Quaterniond q = Quat(ctx.choose(mc::tier(4, 6)));
  const int n = ctx.range(0, mc::tier(4, 5));
  std::vector<double> w; std::vector<Eigen::MatrixXd> J; std::vector<Eigen::VectorXd> r;
  for (int i = 0; i < n; i++) {
    const int k = ctx.choose(4);
    J.push_back(Block(k, i));
    const int res = n >= mc::tier(4, 5) ? (i + k) % 2 : ctx.choose(2);
    Eigen::VectorXd v(J.back().rows());
    for (int j = 0; j < v.size(); j++) {v(j) = res ? (j == 1 ? -2. : 1.5 + i) : 0.01 * (j + 1);}
    r.push_back(v);
    w.push_back(n >= mc::tier(4, 5) ? ctx.pick({.2, 7.}) : ctx.pick({1., .2, 7.}));
  }
  CheckUpdate(ctx, q, w, J, r);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
// overall size of the Jacobians around the degeneracy threshold; weights must not matter for that decision
MC_SCENARIO(threshold)
{
  const Eigen::Quaterniond q = Quat(ctx.choose(6));
  const int n = ctx.range(3, 6), kinds = ctx.choose(3);
  const double size = std::pow(2., ctx.range(-24, 8) / 2.), weight = ctx.pick({1., 1e-3, 1e3});
  std::vector<double> w; std::vector<Eigen::MatrixXd> J; std::vector<Eigen::VectorXd> r;
  for (int i = 0; i < n; i++) {
    J.push_back(size * Block(kinds == 2 ? i % 3 : kinds, i));
    r.push_back(Eigen::VectorXd::Constant(J.back().rows(), 0.3 - 0.1 * i));
    w.push_back(weight * (1 + i % 2));
  }
  CheckUpdate(ctx, q, w, J, r);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
static const std::vector<int> kMany{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 257, 600, 5000};
MC_SCENARIO(many_residuals)
{
  const Eigen::Quaterniond q = Quat(ctx.choose(6));
  const int n = ctx.pick(kMany), kinds = ctx.choose(4), ws = ctx.choose(4);
  std::vector<double> w; std::vector<Eigen::MatrixXd> J; std::vector<Eigen::VectorXd> r;
  for (int i = 0; i < n; i++) {
    J.push_back(Block(kinds == 3 ? (i * 7) % 4 : kinds == 2 ? (i < n / 2 ? 2 : 1) : kinds, i % 37));
    Eigen::VectorXd v(J.back().rows());
    for (int j = 0; j < v.size(); j++) {v(j) = std::sin(1.3 * i + j) * (i % 5 == 0 ? 3 : 0.2);}
    r.push_back(v);
    w.push_back(ws == 0 ? 1. : ws == 1 ? 0.1 + (i % 7) : ws == 2 ? 1. / (1 + i % 13) : (i + 1 == n ? 50. : 0.5));
  }
  CheckUpdate(ctx, q, w, J, r);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
// as many residuals as a dense map gives, and weights of very different size
MC_SCENARIO(thousands)
{
  const Eigen::Quaterniond q = Quat(ctx.choose(2) * 4);
  const int n = ctx.pick({1000, 1025, 4097, 10001, 66000}), ws = ctx.choose(3);
  std::vector<double> w; std::vector<Eigen::MatrixXd> J; std::vector<Eigen::VectorXd> r;
  for (int i = 0; i < n; i++) {
    // the last tenth decides: heavier and pulling elsewhere
    const bool late = 10 * i >= 9 * n;
    J.push_back(Block((i * 7 + i / 40) % 3, i % 37));
    Eigen::VectorXd v(J.back().rows());
    for (int j = 0; j < v.size(); j++) {v(j) = std::sin(1.3 * i + j) * 0.2 + (late ? 3 : -1) * (j + 1);}
    r.push_back(v);
    w.push_back(ws == 0 ? 1. : ws == 1 ? (late ? 20. : 0.1 + i % 7) : std::pow(10., -(i % 9)));
  }
  CheckUpdate(ctx, q, w, J, r);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
// weights far below one count in proportion: all of them small, or small beside ordinary ones that constrain little
MC_SCENARIO(small_weights)
{
  const Eigen::Quaterniond q = Quat(ctx.choose(6));
  const int n = ctx.range(3, 8);
  const double small = std::pow(10., -ctx.range(2, 12));
  const int which = ctx.choose(4), kinds = ctx.choose(3);
  std::vector<double> w; std::vector<Eigen::MatrixXd> J; std::vector<Eigen::VectorXd> r;
  for (int i = 0; i < n; i++) {
    J.push_back(Block(kinds == 2 ? i % 3 : kinds, i));
    r.push_back(Eigen::VectorXd::Constant(J.back().rows(), 0.7 - 0.4 * i));
    w.push_back(which == 0 ? small * (1 + i % 3) : which == 1 ? (i == 0 ? 1 : small) : which == 2 ? (i % 2 ? small : 1) : (i + 1 == n ? small : 1));
  }
  CheckUpdate(ctx, q, w, J, r);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_SCENARIO(eigenvalues)
{
  const int n = ctx.range(1, mc::tier(4, 5));
  const bool rotate = ctx.flag();
  const double threshold = ctx.pick({0.1, 0.5, -1.});   // -1: the default
  Eigen::VectorXd ev(n);
  bool any = false; const double th = threshold < 0 ? 0.1 : threshold;
  static const double a[] = {0, 0.0999999, 0.1000001, -0.0999999, -0.1000001, 0.4999999, 0.5000001, -3};
  for (int i = 0; i < n; i++) {ev(i) = a[ctx.choose(8)]; any |= std::fabs(ev(i)) < th;}
  Eigen::MatrixXd R = Eigen::MatrixXd::Identity(n, n);
  if (rotate) {
    for (int i = 0; i + 1 < n; i++) {
      Eigen::MatrixXd G = Eigen::MatrixXd::Identity(n, n);
      const double t = 0.4 + i; G(i, i) = G(i + 1, i + 1) = std::cos(t); G(i, i + 1) = -std::sin(t); G(i + 1, i) = std::sin(t);
      R = R * G;
    }
  }
  const Eigen::MatrixXd C = R * ev.asDiagonal() * R.transpose();
  const bool d = threshold < 0 ? IsDegenerate(C) : IsDegenerate(C, threshold);
  CHECK(d == any, "eigenvalues %s, threshold %g: degenerate = %d", mc::mstr(ev).c_str(), th, d);
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
template<class F> static void Weights(mc::Ctx & ctx, int n, F kind);
MC_SCENARIO(errors_and_weights) {Weights(ctx, ctx.range(1, mc::tier(5, 6)), [&](int) {return ctx.choose(7);});}
MC_SCENARIO(many_errors) {const int n = ctx.pick(kMany), a = ctx.range(1, 6), b = ctx.choose(7); Weights(ctx, n, [&](int i) {return (a * i + b + i / 7) % 7;});}
template<class F> static void Weights(mc::Ctx & ctx, int n, F kind)
{
  std::vector<Eigen::VectorXd> r; std::vector<double> e;
  for (int i = 0; i < n; i++) {
    const int k = kind(i);
    Eigen::VectorXd v;
    switch (k) {
      case 0: v = Eigen::Vector3d(1, -2, .5); break;
      case 1: v = Eigen::VectorXd::Constant(1, -0.3); break;
      case 2: v = Eigen::Vector3d(0, 0, 0); break;
      case 3: v = Eigen::VectorXd::Constant(1, 40); break;
      case 4: v = Eigen::Vector3d(1e-9, 0, 0); break;
      case 5: v = Eigen::Vector3d(.1, .1 * i, -.1); break;
      default: v = Eigen::VectorXd::Constant(1, 1.345); break;
    }
    r.push_back(v);
    double s = 0; for (int j = 0; j < v.size(); j++) {s += v(j) * v(j);}
    e.push_back(s);
  }
  const Eigen::VectorXd g = ComputeErrors(r);
  CHECK(g.size() == n, "%d residuals give %ld errors", n, static_cast<long>(g.size()));
  for (int i = 0; i < n; i++) {CHECK(mc::close(g(i), e[i], 1e-14, 0), "error %d is %.17g, expected %.17g", i, g(i), e[i]);}
  const double s = ref::RobustScale(e);
  const auto [nrm, scale] = NormalizeErrorScale(g);
  CHECK(mc::close(scale, s, 1e-12, 1e-15), "scale of %s is %.17g, expected %.17g", mc::vstr(e).c_str(), scale, s);
  CHECK(nrm.size() == n, "%ld normalised errors", static_cast<long>(nrm.size()));
  for (int i = 0; i < n; i++) {CHECK(mc::close(nrm(i), e[i] / (scale + 1e-16), 1e-12, 0), "normalised error %d of %s is %.17g, expected %.17g", i, mc::vstr(e).c_str(), nrm(i), e[i] / (scale + 1e-16));}
  const Eigen::VectorXd w = ComputeWeights(nrm);
  CHECK(w.size() == n, "%ld weights", static_cast<long>(w.size()));
  for (int i = 0; i < n; i++) {
    if (std::fabs(nrm(i) - 1.345 * 1.345) < 1e-12) {continue;}
    CHECK(mc::close(w(i), ref::HuberWeight(nrm(i)), 1e-12, 0), "weight %d of normalised %g is %.17g, expected %.17g", i, nrm(i), w(i), ref::HuberWeight(nrm(i)));
    CHECK(w(i) > 0 && w(i) <= 1, "weight %g", w(i));
  }
  ctx.step(3); ctx.outcome(mc::hash_str(mc::vstr(e)));
}
MC_SCENARIO(convergence)
{
  static const double a[] = {0, 9.99e-4, 1.001e-3, 5e-4, 7.1e-4, 1, -9.99e-4, -1.001e-3};
  Eigen::Vector3d v, t;
  for (int i = 0; i < 3; i++) {v(i) = a[ctx.choose(8)];}
  for (int i = 0; i < 3; i++) {t(i) = a[ctx.choose(8)];}
  const double nv = v.norm(), nt = t.norm();
  const Eigen::Quaterniond dq(std::sqrt(std::max(0., 1 - std::min(1., nv * nv))), v(0), v(1), v(2));
  const bool c = CheckConvergence(dq, t);
  CHECK(c == (nv < 1e-3 && nt < 1e-3), "rotation part %g, translation %g: converged = %d", nv, nt, c);
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

// K01: the time-delay Kalman filter against the Kalman filter on the stacked state, for every history.
#include "mc/mc.hpp"
#include "kalman_filter/time_delay_kalman_filter.hpp"
#include "kalman_filter/kalman_filter.hpp"
#include "ref_kf.hpp"
using ref::Mat; using ref::Vec;

struct Model {Vec x0; Mat P0; std::vector<Mat> A, Q, C, R; std::vector<Vec> y;};
static Mat M(int r, int c, std::initializer_list<double> v) {Mat m(r, c); int i = 0; for (double e : v) {m(i / c, i % c) = e; i++;} return m;}
static Vec V(std::initializer_list<double> v) {Vec x(v.size()); int i = 0; for (double e : v) {x(i++) = e;} return x;}
// dense, unsymmetric transition and measurement matrices, so that no two entries can be exchanged unnoticed
static const Model & Get(int dim)
{
  static const std::vector<Model> all = {
    {V({2}), M(1, 1, {3}), {M(1, 1, {0.5}), M(1, 1, {-1.25})}, {M(1, 1, {0.25}), M(1, 1, {0})},
      {M(1, 1, {1}), M(2, 1, {1, -2})}, {M(1, 1, {0.5}), M(2, 2, {1, 0.25, 0.25, 2})}, {V({1}), V({3, -1})}},
    {V({1, -2}), M(2, 2, {2, 0.5, 0.5, 1}), {M(2, 2, {1, 0.5, -0.25, 0.75}), M(2, 2, {0, 1, 1, 0})},
      {M(2, 2, {0.5, 0.125, 0.125, 0.25}), M(2, 2, {0, 0, 0, 1})},
      {M(1, 2, {1, 0}), M(2, 2, {0.5, 1, -1, 2})}, {M(1, 1, {0.25}), M(2, 2, {1, 0.5, 0.5, 0.75})}, {V({-1}), V({4, 0.5})}},
    {V({1, 2, 3}), M(3, 3, {2, 0.5, 0.25, 0.5, 3, -0.5, 0.25, -0.5, 1}), {M(3, 3, {1, 0.5, 0.25, -0.5, 1, 0.125, 0, 0.75, 1}), M(3, 3, {0.5, 0, 1, 0, -1, 0.5, 0.25, 0, 0})},
      {M(3, 3, {0.5, 0.1, 0, 0.1, 0.25, 0, 0, 0, 0.125}), M(3, 3, {0, 0, 0, 0, 0, 0, 0, 0, 0})},
      {M(1, 3, {0, 1, 0}), M(2, 3, {1, 0, 2, 0.5, -1, 0})}, {M(1, 1, {0.5}), M(2, 2, {0.5, -0.25, -0.25, 1})}, {V({0}), V({5, 1})}}};
  return all[dim - 1];
}
static double Err(const Mat & a, const Mat & b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {return 1e300;}
  const double e = (a - b).norm();
  return std::isfinite(e) ? e : 1e300;
}
static void Compare(mc::Ctx & ctx, const TimeDelayKalmanFilter & f, const ref::StackedKF & r, const std::string & h)
{
  const double sx = 1 + r.x.norm(), sp = 1 + r.P.norm();
  CHECK(Err(f.getLatestX(), r.At(0)) < 1e-8 * sx, "%s: current estimate %s, expected %s", h.c_str(), mc::mstr(f.getLatestX()).c_str(), mc::mstr(r.At(0)).c_str());
  for (int d = 0; d < r.N; d++) {
    CHECK(Err(f.getX(d), r.At(d)) < 1e-8 * sx, "%s: estimate %d steps ago %s, expected %s", h.c_str(), d, mc::mstr(f.getX(d)).c_str(), mc::mstr(r.At(d)).c_str());
  }
  const Mat P = f.getLatestP();
  CHECK(Err(P, r.CovAt(0)) < 1e-8 * sp, "%s: covariance %s, expected %s", h.c_str(), mc::mstr(P).c_str(), mc::mstr(r.CovAt(0)).c_str());
  CHECK(Err(P, P.transpose()) < 1e-8 * sp, "%s: the covariance is not symmetric: %s", h.c_str(), mc::mstr(P).c_str());
  CHECK(ref::PositiveDefinite(P, 1e-8 * sp), "%s: the covariance is not positive semi-definite: %s", h.c_str(), mc::mstr(P).c_str());
}
static void Histories(mc::Ctx & ctx, int dim, int N, int depth)
{
  const Model & m = Get(dim);
  TimeDelayKalmanFilter f(m.x0, m.P0, N);
  ref::StackedKF r(m.x0, m.P0, N);
  std::string h = mc::format("dim %d, %d steps: ", dim, N);
  std::vector<Vec> currents = {m.x0};
  bool updated = false;
  Compare(ctx, f, r, h + "initially");
  for (int i = 0; i < depth; i++) {
    const int op = ctx.choose(2 + 2 * N);
    if (op < 2) {
      // the prediction itself is non-linear: any vector
      const Vec next = (m.A[op] * r.At(0)).array() + 0.25 * (op + 1);
      f.predict(next, m.A[op], m.Q[op]); r.Predict(next, m.A[op], m.Q[op]);
      currents.push_back(next);
      h += mc::format("predict%d ", op);
    } else {
      const int d = (op - 2) / 2, k = op % 2;
      const Vec y = m.y[k] * (1 + 0.5 * i);
      f.update(y, m.C[k], m.R[k], d); r.Update(y, m.C[k], m.R[k], d);
      updated = true;
      h += mc::format("update%d@%d ", k, d);
    }
    ctx.step();
    Compare(ctx, f, r, h);
    if (!updated) {   // what is d steps ago is what was current then
      for (int d = 0; d < N && d < static_cast<int>(currents.size()); d++) {
        CHECK(f.getX(d) == currents[currents.size() - 1 - d], "%s: estimate %d steps ago is not the one of then", h.c_str(), d);
      }
    }
  }
  // the cross covariances are seen through a further update at every delay, on a copy
  for (int d = 0; d < N; d++) {
    TimeDelayKalmanFilter g = f; ref::StackedKF s = r;
    g.update(m.y[1], m.C[1], m.R[1], d); s.Update(m.y[1], m.C[1], m.R[1], d);
    Compare(ctx, g, s, h + mc::format("then update1@%d", d));
  }
  ctx.note("%s", h.c_str());
  uint64_t o = 3; for (int i = 0; i < r.x.size(); i++) {o = mc::hash_double(o, std::round(r.x(i) * 1e6));}
  ctx.outcome(o);
}
MC_SCENARIO(scalar) {Histories(ctx, 1, ctx.range(1, mc::tier(4, 5)), mc::tier(5, 6));}
MC_SCENARIO(scalar_deep) {Histories(ctx, 1, ctx.range(1, 2), mc::tier(7, 8));}
MC_SCENARIO(two_dimensions) {Histories(ctx, 2, ctx.range(1, 3), mc::tier(5, 6));}
MC_SCENARIO(three_dimensions) {Histories(ctx, 3, ctx.range(2, 3), mc::tier(4, 5));}
// the size used by the EKF node: 50 kept steps of 6 states; the measurement reaches any step
MC_SCENARIO(fifty_steps)
{
  const int n = 6, N = 50;
  Vec x0(n); x0 << 1, 2, 0.5, 0.01, 3, 0.2;
  Mat P0 = Mat::Identity(n, n) * 0.5;
  Mat A = Mat::Identity(n, n); A(0, 4) = 0.02; A(1, 2) = 0.06; A(2, 5) = 0.02;
  Mat Q = Mat::Zero(n, n); Q(2, 2) = 0.01; Q(4, 4) = 0.02; Q(5, 5) = 0.03;
  Mat C = Mat::Zero(3, n); C(0, 0) = C(1, 1) = C(2, 2) = 1;
  TimeDelayKalmanFilter f(x0, P0, N); ref::StackedKF r(x0, P0, N);
  const int before = ctx.pick({0, 1, 51});
  for (int i = 0; i < before; i++) {const Vec nx = A * f.getLatestX(); f.predict(nx, A, Q); r.Predict(nx, A, Q);}
  const int d = ctx.pick({0, 1, 24, 49}), e = ctx.pick({0, 49});
  f.update(V({2, 1, 0.7}), C, Mat::Identity(3, 3), d); r.Update(V({2, 1, 0.7}), C, Mat::Identity(3, 3), d);
  Compare(ctx, f, r, mc::format("%d predictions, update at %d", before, d));
  const Vec nx = A * f.getLatestX(); f.predict(nx, A, Q); r.Predict(nx, A, Q);
  f.update(V({2.5, 1, 0.7}), C, 2 * Mat::Identity(3, 3), e); r.Update(V({2.5, 1, 0.7}), C, 2 * Mat::Identity(3, 3), e);
  Compare(ctx, f, r, mc::format("%d predictions, update at %d, prediction, update at %d", before, d, e));
  ctx.step(before + 3); ctx.outcome(before * 10000 + d * 100 + e);
}

// more kept steps than the node's default, all of them reached
MC_SCENARIO(hundreds_of_steps)
{
  const int N = ctx.pick({61, 100, 129}), before = ctx.pick({0, 5, N - 1, N, N + 7});
  const Model & m = Get(1);
  TimeDelayKalmanFilter f(m.x0, m.P0, N); ref::StackedKF r(m.x0, m.P0, N);
  const Mat A = M(1, 1, {1.01}), Q = M(1, 1, {0.125});
  std::vector<double> currents{m.x0(0)};
  for (int i = 0; i < before; i++) {const Vec nx = V({A(0, 0) * f.getLatestX()(0) + std::sin(1. * i)}); currents.push_back(nx(0)); f.predict(nx, A, Q); r.Predict(nx, A, Q);}
  for (int d = 0; d < N && d <= before; d++) {CHECK(f.getX(d)(0) == currents[currents.size() - 1 - d], "%d steps, %d predictions: estimate %d steps ago", N, before, d);}
  const int d = ctx.pick({0, 1, 59, 60, N / 2, N - 2, N - 1}), e = ctx.pick({0, N - 1});
  if (d >= N) {ctx.prune();}
  const std::string h = mc::format("%d steps, %d predictions, update at %d, prediction, update at %d", N, before, d, e);
  f.update(m.y[0], m.C[0], m.R[0], d); r.Update(m.y[0], m.C[0], m.R[0], d);
  const Vec nx = 0.5 * f.getLatestX(); f.predict(nx, A, Q); r.Predict(nx, A, Q);
  f.update(m.y[1], m.C[1], m.R[1], e); r.Update(m.y[1], m.C[1], m.R[1], e);
  Compare(ctx, f, r, h);
  ctx.step(before + 3); ctx.outcome(mc::hash_str(h));
}
// thousands of predictions, during which an unobserved covariance grows without any bound
MC_SCENARIO(growing)
{
  const int N = ctx.range(1, 3), n = ctx.pick({10, 400, 3500, 12000}), every = ctx.pick({0, 1, 97});
  const double q = ctx.pick({1e-3, 1e4, 1e9, 1e15});
  TimeDelayKalmanFilter f(V({1, 0}), Mat::Identity(2, 2), N); ref::StackedKF r(V({1, 0}), Mat::Identity(2, 2), N);
  const Mat A = M(2, 2, {1, 0.0625, 0, 1}), Q = q * M(2, 2, {1, 0, 0, 0.5}), C = M(1, 2, {1, 0.5}), R = q * M(1, 1, {4});
  double largest = 1, size = 1;
  const std::string h = mc::format("%d predictions with noise %g, update after every %d", n, q, every);
  for (int i = 1; i <= n; i++) {
    const Vec nx = A * r.At(0); f.predict(nx, A, Q); r.Predict(nx, A, Q);
    if (every && i % every == 0) {const int d = i / every % N; f.update(V({3. + i % 5}), C, R, d); r.Update(V({3. + i % 5}), C, R, d);}
    largest = std::max(largest, r.P.norm()); size = std::max(size, r.x.norm());
    if (i < 200 || i % 61 == 0 || i == n) {
      CHECK(Err(f.getLatestP(), r.CovAt(0)) < 1e-8 * (every ? largest : r.P.norm()), "%s, after %d: covariance %s, expected %s", h.c_str(), i, mc::mstr(f.getLatestP()).c_str(), mc::mstr(r.CovAt(0)).c_str());
      for (int d = 0; d < N; d++) {CHECK(Err(f.getX(d), r.At(d)) < 1e-7 * (1 + size), "%s, after %d: estimate %d steps ago %s, expected %s", h.c_str(), i, d, mc::mstr(f.getX(d)).c_str(), mc::mstr(r.At(d)).c_str());}
    }
  }
  ctx.step(n); ctx.outcome(mc::hash_str(h));
}
// the plain filter
struct Open : KalmanFilter
{
  using KalmanFilter::KalmanFilter;
  const Vec & x() const {return x_;}
  const Mat & P() const {return P_;}
};
MC_SCENARIO(plain_filter)
{
  const int dim = ctx.range(1, 3);
  const Model & m = Get(dim);
  const int k = ctx.choose(2);
  Mat B(dim, 2); for (int i = 0; i < dim; i++) {B(i, 0) = 0.5 + i; B(i, 1) = -1 + 0.25 * i;}
  Open f(m.x0, m.A[0], B, m.C[k], m.Q[0], m.R[k], m.P0);
  Vec x = m.x0; Mat P = m.P0;
  std::string h = mc::format("dim %d: ", dim);
  const int depth = mc::tier(5, 7);
  for (int i = 0; i < depth; i++) {
    const int op = ctx.choose(4);
    const Vec u = V({1. + i, -0.5});
    if (op == 0) {
      f.predict(u); x = m.A[0] * x + B * u; P = (m.A[0] * P * m.A[0].transpose() + m.Q[0]).eval(); h += "predict ";
    } else if (op == 1) {
      const Mat B1 = -0.5 * B;
      f.predict(u, m.A[1], B1, m.Q[1]); x = (m.A[1] * x + B1 * u).eval(); P = (m.A[1] * P * m.A[1].transpose() + m.Q[1]).eval(); h += "predict with other matrices ";
    } else if (op == 2) {
      const Vec y = m.y[k] * (1 + i);
      f.update(y);
      ref::StackedKF s(x, P, 1); s.Update(y, m.C[k], m.R[k], 0); x = s.x; P = s.P; h += "update ";
    } else {
      x = V({3, 1, 2}).head(dim) * (i + 1); P = m.P0 * (i + 2);
      f.init(x, P); h += "init ";
    }
    ctx.step();
    CHECK(Err(f.x(), x) < 1e-8 * (1 + x.norm()), "%s: state %s, expected %s", h.c_str(), mc::mstr(f.x()).c_str(), mc::mstr(x).c_str());
    CHECK(Err(f.P(), P) < 1e-8 * (1 + P.norm()), "%s: covariance %s, expected %s", h.c_str(), mc::mstr(f.P()).c_str(), mc::mstr(P).c_str());
    for (int j = 0; j < dim; j++) {CHECK(f.getXelement(j) == f.x()(j), "%s: element %d", h.c_str(), j);}
  }
  ctx.note("%s", h.c_str()); ctx.outcome(mc::hash_str(h));
}
MC_MAIN

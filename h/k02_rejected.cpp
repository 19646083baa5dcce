// K02: a rejected update leaves no trace, at any point of any history.
#include "mc/mc.hpp"
#include "kalman_filter/time_delay_kalman_filter.hpp"
#include "kalman_filter/kalman_filter.hpp"
#include "ref_kf.hpp"
using ref::Mat; using ref::Vec;
static const double kNan = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();

static bool SameBits(const Mat & a, const Mat & b)
{
  return a.rows() == b.rows() && a.cols() == b.cols() && std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0;
}
static bool Same(const TimeDelayKalmanFilter & a, const TimeDelayKalmanFilter & b, int N)
{
  if (!SameBits(a.getLatestX(), b.getLatestX()) || !SameBits(a.getLatestP(), b.getLatestP())) {return false;}
  for (int d = 0; d < N; d++) {if (!SameBits(a.getX(d), b.getX(d))) {return false;}}
  return true;
}
struct Bad {const char * what; Mat C, R; int delay; Vec y;};
static Mat A() {Mat a(2, 2); a << 1, 0.5, -0.25, 0.75; return a;}
static Mat Q() {Mat q(2, 2); q << 0.5, 0.125, 0.125, 0.25; return q;}
static Mat C() {Mat c(2, 2); c << 0.5, 1, -1, 2; return c;}
static Mat R() {Mat r(2, 2); r << 1, 0.5, 0.5, 0.75; return r;}
static Vec Y(int i) {Vec y(2); y << 4. + i, 0.5; return y;}
static Mat One(double v) {return Mat::Constant(1, 1, v);}

// good operations: predict, update at each delay
static int GoodOps(int N) {return 1 + N;}
static void Good(TimeDelayKalmanFilter & f, int op, int i)
{
  if (op == 0) {const Vec x = (A() * f.getLatestX()).array() + 0.25; f.predict(x, A(), Q());} else {f.update(Y(i), C(), R(), op - 1);}
}
static std::vector<Bad> Bads(const TimeDelayKalmanFilter & f, int N)
{
  std::vector<Bad> b;
  for (int d : {N, N + 1, N + 1000, std::numeric_limits<int>::max()}) {b.push_back({"delay", C(), R(), d, Y(0)});}
  Mat c1(1, 2); c1 << 1, 0;
  for (int d = 0; d < N; d++) {
    b.push_back({"NaN in R", C(), (Mat(2, 2) << kNan, 0, 0, 1).finished(), d, Y(0)});
    b.push_back({"NaN in the last entry of R", C(), (Mat(2, 2) << 1, 0, 0, kNan).finished(), d, Y(0)});
    b.push_back({"NaN in C", (Mat(1, 2) << 1, kNan).finished(), One(1), d, Vec::Constant(1, 2.)});
    b.push_back({"infinity in C", (Mat(1, 2) << kInf, 0).finished(), One(1), d, Vec::Constant(1, 2.)});
  }
  // innovation covariance exactly zero: the gain is infinite
  b.push_back({"innovation covariance 0", c1, One(-f.getLatestP()(0, 0)), 0, Vec::Constant(1, 2.)});
  b.push_back({"zero measurement without noise", Mat::Zero(1, 2), One(0), 0, Vec::Constant(1, 2.)});
  return b;
}
static void Run(mc::Ctx & ctx, int N, int depth)
{
  Vec x0(2); x0 << 1, -2; Mat P0(2, 2); P0 << 2, 0.5, 0.5, 1;
  TimeDelayKalmanFilter f(x0, P0, N), twin(x0, P0, N);
  const int at = ctx.choose(depth + 1);       // the rejected updates come before the at-th operation
  const int bads = ctx.range(1, 2);
  std::string h = mc::format("%d steps: ", N);
  for (int i = 0; i <= depth; i++) {
    if (i == at) {
      for (int k = 0; k < bads; k++) {
        const std::vector<Bad> b = Bads(f, N);
        const Bad & bad = b[ctx.choose(b.size())];
        h += mc::format("[rejected: %s@%d] ", bad.what, bad.delay);
        bool threw = false;
        try {f.update(bad.y, bad.C, bad.R, bad.delay);} catch (const std::invalid_argument &) {threw = true;}
        CHECK(threw, "%s: no invalid-argument error", h.c_str());
        CHECK(Same(f, twin, N), "%s: the rejected update left a trace: %s, was %s", h.c_str(), mc::mstr(f.getX(0)).c_str(), mc::mstr(twin.getX(0)).c_str());
        ctx.step();
      }
    }
    if (i == depth) {break;}
    const int op = ctx.choose(GoodOps(N));
    Good(f, op, i); Good(twin, op, i);
    h += op ? mc::format("update@%d ", op - 1) : "predict ";
    ctx.step();
    CHECK(Same(f, twin, N), "%s: differs from the filter that never saw the rejected update", h.c_str());
  }
  // hidden covariances
  for (int d = 0; d < N; d++) {
    TimeDelayKalmanFilter a = f, b = twin;
    Good(a, d + 1, 9); Good(b, d + 1, 9);
    CHECK(Same(a, b, N), "%s then update@%d: differs from the filter that never saw the rejected update", h.c_str(), d);
  }
  ctx.note("%s", h.c_str()); ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(one_step) {Run(ctx, 1, mc::tier(3, 4));}
MC_SCENARIO(two_steps) {Run(ctx, 2, mc::tier(2, 4));}
MC_SCENARIO(three_steps) {Run(ctx, 3, mc::tier(2, 3));}

struct Open : KalmanFilter
{
  using KalmanFilter::KalmanFilter;
  const Vec & x() const {return x_;}
  const Mat & P() const {return P_;}
};
MC_SCENARIO(plain_filter)
{
  // gains that become non-finite: NaN or infinite noise or measurement matrix, singular innovation covariance
  const int kind = ctx.choose(5);
  Vec x0(2); x0 << 1, -2; Mat P0(2, 2); P0 << 2, 0.5, 0.5, 1;
  Mat c = C(), r = R();
  if (kind == 0) {r(0, 0) = kNan;}
  if (kind == 1) {r(1, 1) = kNan;}
  if (kind == 2) {c(0, 1) = kNan;}
  if (kind == 3) {c(1, 0) = kInf;}
  if (kind == 4) {c = Mat::Zero(1, 2); r = One(0);}
  const Mat B = Mat::Identity(2, 2);
  Open f(x0, A(), B, c, Q(), r, P0);
  Vec x = x0; Mat P = P0;
  std::string h = mc::format("kind %d: ", kind);
  for (int i = 0; i < mc::tier(4, 6); i++) {
    const int op = ctx.choose(3);
    if (op == 0) {f.predict(Y(i)); h += "predict "; x = f.x(); P = f.P();}
    if (op == 1) {Vec nx = Y(i); f.init(nx, P0); h += "init "; x = nx; P = P0;}
    if (op == 2) {
      h += "update ";
      bool threw = false;
      try {f.update(kind == 4 ? Vec(Vec::Constant(1, 1.)) : Y(i));} catch (const std::invalid_argument &) {threw = true;}
      CHECK(threw, "%s: no invalid-argument error", h.c_str());
    }
    ctx.step();
    CHECK(SameBits(f.x(), x) && SameBits(f.P(), P), "%s: the rejected update left a trace", h.c_str());
  }
  ctx.note("%s", h.c_str()); ctx.outcome(mc::hash_str(h));
}
// updates with a finite gain are never rejected, up to the very last kept step
MC_SCENARIO(accepted)
{
  const int N = ctx.range(1, 6), d = ctx.choose(N);
  Vec x0(2); x0 << 1, -2; Mat P0(2, 2); P0 << 2, 0.5, 0.5, 1;
  TimeDelayKalmanFilter f(x0, P0, N);
  const double scale = ctx.pick({1e-12, 1., 1e12});
  f.update(Y(0), C(), scale * R(), d);
  CHECK(f.getX(d).allFinite(), "not finite");
  ctx.step(); ctx.outcome(N * 10 + d);
}
MC_MAIN

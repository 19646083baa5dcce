// X02: curvature and windowed inner product against their definitions.
#include "mc/mc.hpp"
#include "lidar_feature_extraction/curvature.hpp"
#include "lidar_feature_extraction/convolution.hpp"

static std::vector<double> RefConv(const std::vector<double> & in, const std::vector<double> & w)
{
  const int n = in.size(), m = w.size(), k = (m - 1) / 2;
  std::vector<double> out(n, 0.);
  for (int i = k; i < n - k; i++) {
    long double s = 0;
    for (int j = 0; j < m; j++) {s += static_cast<long double>(in[i - k + j]) * w[j];}
    out[i] = s;
  }
  return out;
}

static void CheckCurvature(mc::Ctx & ctx, const std::vector<double> & r, int k)
{
  const int n = r.size();
  const std::vector<double> copy = r;
  bool threw = false;
  std::vector<double> c;
  try {
    c = CalcCurvature(r, k);
  } catch (const std::invalid_argument &) {
    threw = true;
  }
  ctx.step();
  CHECK(threw == (n < 2 * k + 1), "CalcCurvature(n=%d, padding=%d): invalid_argument %s", n, k, threw ? "thrown" : "not thrown");
  CHECK(r == copy, "input modified");
  if (threw) {return;}
  CHECK(static_cast<int>(c.size()) == n, "length %zu for %d ranges (padding %d)", c.size(), n, k);
  for (int i = 0; i < n; i++) {
    if (i < k || i >= n - k) {
      CHECK(c[i] == 0., "border value %g at %d (n=%d padding=%d)", c[i], i, n, k);
      continue;
    }
    long double s = -2.0L * k * r[i], mag = 2.0L * k * std::fabs(r[i]);
    for (int j = 1; j <= k; j++) {s += static_cast<long double>(r[i - j]) + r[i + j]; mag += std::fabs(r[i - j]) + std::fabs(r[i + j]);}
    const double e = s * s;
    const double tol = 1e-13 * static_cast<double>(mag) * (2 * std::fabs(static_cast<double>(s)) + 1e-12 * static_cast<double>(mag)) * 10;
    CHECK(std::fabs(c[i] - e) <= tol + 1e-300, "curvature[%d]=%.17g expected %.17g (n=%d padding=%d ranges %s)", i, c[i], e, n, k,
      mc::vstr(r).c_str());
  }
}

// every short sequence over a small alphabet
MC_SCENARIO(small_all)
{
  const int k = ctx.range(1, 3);
  const int n = ctx.range(0, k == 1 ? 7 : k == 2 ? 7 : 8);
  std::vector<double> r(n);
  for (auto & v : r) {v = k == 3 ? ctx.pick({0.5, 3.}) : ctx.pick({0., 1., 2.75, 100.123456});}
  ctx.note("padding %d ranges %s", k, mc::vstr(r).c_str());
  CheckCurvature(ctx, r, k);
  uint64_t h = k; for (double v : r) {h = mc::hash_double(h, v);}
  ctx.outcome(h);
}

// every length and padding; one- and two-impulse signals on a ramp
MC_SCENARIO(lengths)
{
  const int k = ctx.range(1, mc::tier(10, 20));
  const int n = ctx.range(0, mc::tier(70, 200));
  const int shape = ctx.choose(5);
  std::vector<double> r(n);
  for (int i = 0; i < n; i++) {
    r[i] = shape == 0 ? 5. : shape == 1 ? 0.1 * i : shape == 2 ? 10. + (i * 7919 % 101) * 0.013 : shape == 3 ? 0. : 80.0001 + 1e-3 * (i % 3);
  }
  CheckCurvature(ctx, r, k);
  ctx.outcome(mc::mix(mc::mix(k, n), shape));
  if (shape == 3 && n > 0) {
    for (int i = 0; i < n; i++) {r[i] = 2.; CheckCurvature(ctx, r, k); r[i] = 0;}
  }
}

// realistic ring sizes
MC_SCENARIO(long_rings)
{
  const int k = ctx.pick({1, 2, 5, 10});
  const int n = ctx.pick({256, 1023, 1024, 1025, 1800, 2048, 4096});
  const int jump = ctx.choose(9) * n / 8;
  std::vector<double> r(n);
  for (int i = 0; i < n; i++) {r[i] = (i < jump ? 7.5 : 60.25) + 0.01 * (i * 31 % 17);}
  CheckCurvature(ctx, r, k);
  ctx.outcome(mc::mix(mc::mix(k, n), jump));
}

MC_SCENARIO(convolution)
{
  const int m = 1 + 2 * ctx.choose(4);
  const int n = ctx.range(0, m + 2);
  std::vector<double> w(m), in(n);
  for (auto & v : w) {v = m <= 3 ? ctx.pick({-1., 0.5, 2.}) : ctx.pick({-1.5, 1.});}
  if (n <= 5) {for (auto & v : in) {v = ctx.pick({0., 1., -3.});}}
  else {const int s = ctx.choose(n + 1); for (int i = 0; i < n; i++) {in[i] = i == s ? 1. : s == n ? i * i * 0.25 : 0.;}}
  bool threw = false;
  std::vector<double> out;
  try {out = Convolution1D(in, w);} catch (const std::invalid_argument &) {threw = true;}
  ctx.step();
  ctx.note("weights %s input %s", mc::vstr(w).c_str(), mc::vstr(in).c_str());
  CHECK(threw == (n < m), "Convolution1D(n=%d, m=%d): invalid_argument %s", n, m, threw ? "thrown" : "not thrown");
  if (threw) {return;}
  const auto ref = RefConv(in, w);
  CHECK(out.size() == ref.size(), "length %zu expected %zu", out.size(), ref.size());
  const int k = (m - 1) / 2;
  for (int i = 0; i < n; i++) {
    if (i < k || i >= n - k) {CHECK(out[i] == 0., "border %d is %g", i, out[i]);}
    CHECK(mc::close(out[i], ref[i], 1e-12, 1e-12), "convolution[%d]=%.17g expected %.17g (input %s weights %s)", i, out[i], ref[i],
      mc::vstr(in).c_str(), mc::vstr(w).c_str());
  }
}
MC_MAIN

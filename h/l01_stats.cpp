// L01: median, robust scale, sample deviation, Huber loss and weight.
#include <functional>
#include "mc/mc.hpp"
#include "lidar_feature_library/stats.hpp"
#include "lidar_feature_library/random.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_localization/robust.hpp"

static double RefMedian(std::vector<double> v)
{
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}
static double RefMad(const std::vector<double> & v)
{
  const double m = RefMedian(v);
  std::vector<double> d;
  for (double x : v) {d.push_back(std::fabs(x - m));}
  return RefMedian(d);
}
static Eigen::VectorXd Vec(const std::vector<double> & v) {Eigen::VectorXd r(v.size()); for (size_t i = 0; i < v.size(); i++) {r(i) = v[i];} return r;}

static void Check(mc::Ctx & ctx, const std::vector<double> & v)
{
  const Eigen::VectorXd e = Vec(v);
  const Eigen::VectorXd copy = e;
  const double m = RefMedian(v), mad = RefMad(v);
  double scale = 0; for (double x : v) {scale = std::max(scale, std::fabs(x));}
  const double tol = 1e-13 * scale;
  const std::string s = v.size() <= 16 ? mc::vstr(v) : mc::format("%zu values", v.size());
  CHECK(mc::close(Median(e), m, 1e-14, 0), "Median of %s is %.17g, expected %.17g", s.c_str(), Median(e), m);
  const Eigen::ArrayXd a = e.array();
  CHECK(mc::close(Median(a), m, 1e-14, 0), "Median (array) of %s is %.17g, expected %.17g", s.c_str(), Median(a), m);
  CHECK(e == copy, "the list was modified");
  CHECK(mc::close(MedianAbsoluteDeviation(e), mad, 1e-13, tol), "deviation of %s is %.17g, expected %.17g", s.c_str(), MedianAbsoluteDeviation(e), mad);
  const double sc = Scale(e);
  CHECK(sc >= 0 && mc::close(sc, 1.482602218505602 * mad, 1e-12, 2 * tol), "Scale of %s is %.17g, expected %.17g", s.c_str(), sc, 1.482602218505602 * mad);
  const double shifted = Scale((e.array() + 3.).matrix()), scaled = Scale(-2. * e);
  CHECK(mc::close(shifted, sc, 1e-12, 1e-13 * (scale + 3) * 4), "Scale of %s changes from %.17g to %.17g by shifting", s.c_str(), sc, shifted);
  CHECK(mc::close(scaled, 2 * sc, 1e-12, 4 * tol), "Scale of %s times -2 is %.17g, not twice %.17g", s.c_str(), scaled, sc);
  if (v.size() > 1) {
    long double mean = 0, ss = 0;
    for (double x : v) {mean += x;}
    mean /= v.size();
    for (double x : v) {ss += (x - mean) * (x - mean);}
    const double d = std::sqrt(static_cast<double>(ss / (v.size() - 1)));
    CHECK(mc::close(SampleStandardDeviation(e), d, 1e-11, 1e-12 * scale), "sample deviation of %s is %.17g, expected %.17g", s.c_str(), SampleStandardDeviation(e), d);
  }
  ctx.step(5);
}

MC_SCENARIO(lists)
{
  const int n = ctx.range(1, mc::tier(8, 9));
  std::vector<double> v(n);
  const int kinds = n <= 7 ? 5 : n == 8 ? 4 : 3;
  for (auto & x : v) {static const double a[] = {1.5, -2., 0., 7.25, 1e6}; x = a[ctx.choose(kinds)];}
  ctx.note("%s", mc::vstr(v).c_str());
  Check(ctx, v);
  ctx.outcome(mc::hash_str(mc::vstr(v)));
}

MC_SCENARIO(permutations)
{
  const int n = ctx.range(1, mc::tier(8, 9));
  std::vector<int> left(n);
  for (int i = 0; i < n; i++) {left[i] = i;}
  std::vector<double> v;
  for (int i = 0; i < n; i++) {const int j = ctx.choose(left.size()); v.push_back(left[j] * left[j] * 0.37 - 5); left.erase(left.begin() + j);}
  Check(ctx, v);
  ctx.outcome(mc::hash_str(mc::vstr(v)));
}

// long lists: odd and even lengths, several orders, ties
MC_SCENARIO(long_lists)
{
  const int n = ctx.range(1, mc::tier(130, 600)), order = ctx.choose(6);
  std::vector<double> v(n);
  for (int i = 0; i < n; i++) {
    v[i] = order == 0 ? i : order == 1 ? n - i : order == 2 ? (i * 7919) % n : order == 3 ? (i % 3) * 2.5 : order == 4 ? std::sin(i) * 1e3 : (i % 2 ? i : -i) * 1e-9;
  }
  Check(ctx, v);
  ctx.outcome(mc::mix(n, order));
}

MC_SCENARIO(empty)
{
  ctx.choose(1);
  int n = 0;
  try {Median(Eigen::VectorXd(0));} catch (const std::invalid_argument &) {n++;}
  try {Median(Eigen::ArrayXd(0));} catch (const std::invalid_argument &) {n++;}
  try {Scale(Eigen::VectorXd(0));} catch (const std::invalid_argument &) {n++;}
  try {MedianAbsoluteDeviation(Eigen::VectorXd(0));} catch (const std::invalid_argument &) {n++;}
  CHECK(n == 4, "an empty list is not an invalid-argument error");
  ctx.step(4);
}

MC_SCENARIO(huber)
{
  static const std::vector<double> ks{1.345, 1., .5, 2., 3., 1e-3, 100.};
  const double k = ctx.pick(ks);
  const int i = ctx.choose(mc::tier(3000, 30000));
  const double e = i == 0 ? 0 : i == 1 ? k * k : i == 2 ? std::nextafter(k * k, 0) : i == 3 ? std::nextafter(k * k, 1e9) :
    k * k * std::pow(10., (i - 4) * 8. / mc::tier(3000, 30000) - 4.);
  const double h = Huber(e, k), d = HuberDerivative(e, k);
  const double eh = e < k * k ? e : 2 * k * std::sqrt(e) - k * k, ed = e < k * k ? 1 : k / std::sqrt(e);
  CHECK(mc::close(h, eh, 1e-12, 1e-15 * k * k), "Huber(%.17g, %g) = %.17g, expected %.17g", e, k, h, eh);
  CHECK(mc::close(d, ed, 1e-12, 0), "HuberDerivative(%.17g, %g) = %.17g, expected %.17g", e, k, d, ed);
  CHECK(d > 0 && d <= 1, "weight %.17g of error %.17g lies outside of (0, 1]", d, e);
  const double f = e * 1.001 + 1e-12;
  CHECK(HuberDerivative(f, k) <= d + 1e-15, "the weight grows from %.17g to %.17g", e, f);
  if (k == 1.345) {CHECK(Huber(e) == h && HuberDerivative(e) == d, "the default threshold is not 1.345");}
  ctx.step(3);
  ctx.outcome(mc::hash_double(mc::hash_double(0, e), k));
}
MC_MAIN

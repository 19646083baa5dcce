// X07: planar range, angle, adjacency, slices.
#include <functional>
#include "mc/mc.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_extraction/range.hpp"
#include "lidar_feature_library/degree_to_radian.hpp"
#include "lidar_feature_library/point_type.hpp"
using P = PointXYZIR;

static long double TrueAngle(long double x1, long double y1, long double x2, long double y2)
{
  // scaled so that extreme magnitudes neither overflow nor vanish
  const long double s1 = std::max(fabsl(x1), fabsl(y1)), s2 = std::max(fabsl(x2), fabsl(y2));
  x1 /= s1; y1 /= s1; x2 /= s2; y2 /= s2;
  return fabsl(atan2l(x1 * y2 - y1 * x2, x1 * x2 + y1 * y2));
}
static int Kind(std::function<void()> f)
{
  try {f(); return 0;} catch (const std::out_of_range &) {return 2;} catch (const std::invalid_argument &) {return 1;}
}

static void CheckAngle(mc::Ctx & ctx, double x1, double y1, double x2, double y2)
{
  ctx.step();
  const bool z1 = x1 == 0 && y1 == 0, z2 = x2 == 0 && y2 == 0;
  double a = 0, b = 0;
  const int k = Kind([&] {a = CalcRadian(x1, y1, x2, y2);});
  CHECK(k == (z1 && z2 ? 1 : 0), "CalcRadian(%.17g,%.17g, %.17g,%.17g): error kind %d", x1, y1, x2, y2, k);
  if (z1 || z2) {                                        // one point at the origin: no angle is defined
    return;
  }
  b = CalcRadian(x2, y2, x1, y1);
  const double e = TrueAngle(x1, y1, x2, y2);
  CHECK(a >= 0 && a <= M_PI + 1e-12, "CalcRadian(%.17g,%.17g, %.17g,%.17g) = %.17g lies outside of [0, pi]", x1, y1, x2, y2, a);
  CHECK(std::fabs(a - e) < 5e-8, "CalcRadian(%.17g,%.17g, %.17g,%.17g) = %.17g, the angle is %.17g", x1, y1, x2, y2, a, e);
  CHECK(std::fabs(a - b) < 5e-8, "CalcRadian is not symmetric for (%.17g,%.17g), (%.17g,%.17g)", x1, y1, x2, y2);
}

static const std::vector<float> kGrid{0, 1, -1, 2, -2, 3, 7, -0.1f, 0.1f, 0.3f, -0.7f, 1e-3f, 33.3f, -99.9f, 1e-18f, -1e-18f, 1e18f, -3e18f};

MC_SCENARIO(angle_grid)
{
  const float x = ctx.pick(kGrid), y = ctx.pick(kGrid);
  ctx.note("(%g, %g) with every grid point", x, y);
  for (float u : kGrid) {for (float v : kGrid) {CheckAngle(ctx, x, y, u, v);}}
  CHECK(mc::close(XYNorm(x, y), hypotl(x, y), 1e-14, 0), "XYNorm(%g, %g) = %.17g", x, y, XYNorm(x, y));
  ctx.outcome(mc::mix(mc::hash_double(1, x), mc::hash_double(2, y)));
}

// collinear points in the same and in opposite directions: rounding moves the cosine around 1
MC_SCENARIO(collinear)
{
  const int i = ctx.range(1, mc::tier(400, 3000));
  const int dir = ctx.range(1, 40);
  const float x = 0.1f * i, y = 0.037f * i * dir;
  for (float s : {1.f, 2.f, 0.5f, 4.f, 1024.f}) {
    CheckAngle(ctx, x, y, x * s, y * s);
    CheckAngle(ctx, x, y, -x * s, -y * s);
    CheckAngle(ctx, x, y, -y * s, x * s);
    CheckAngle(ctx, 0.1 * i, 0.3 * i, 0.1 * i * dir, 0.3 * i * dir);
    CHECK(IsNeighborXY(P(x, y, 0, 0, 0), P(x * s, y * s, 5, 0, 0), 1e-6), "(%.9g,%.9g) and %g times it are not neighbours", x, y, s);
    CHECK(!IsNeighborXY(P(x, y, 0, 0, 0), P(-x * s, -y * s, 0, 0, 0), 3.), "(%.9g,%.9g) and its opposite are neighbours", x, y);
  }
  ctx.outcome(mc::mix(i, dir));
}

// every angle over the circle at every scale pair
MC_SCENARIO(circle)
{
  const int i = ctx.choose(mc::tier(720, 7200)), n = mc::tier(720, 7200);
  const double a = 2 * M_PI * i / n;
  for (double r1 : {1e-3, 1., 57.3}) {
    for (double r2 : {1e-2, 1., 199.}) {
      for (int k = 0; k < 24; k++) {
        const double b = a + k * M_PI / 12 + 1e-3 * k;
        CheckAngle(ctx, r1 * std::cos(a), r1 * std::sin(a), r2 * std::cos(b), r2 * std::sin(b));
      }
      for (double d : {0.5, 2., 90., 179.}) {
        const double t = DegreeToRadian(d);
        CHECK(mc::close(t, d * M_PI / 180, 1e-14), "DegreeToRadian(%g) = %.17g", d, t);
        for (double e : {-1e-4, 1e-4}) {
          const P p(r1 * std::cos(a), r1 * std::sin(a), 1, 0, 0), q(r2 * std::cos(a + t + e), r2 * std::sin(a + t + e), 30, 0, 0);
          const P o(r2 * std::cos(a - t - e), r2 * std::sin(a - t - e), 30, 0, 0);
          CHECK(IsNeighborXY(p, q, t) == (e < 0), "angle %.9g and threshold %.9g: neighbours %d", t + e, t, e >= 0);
          CHECK(IsNeighborXY(p, o, t) == (e < 0), "angle -%.9g and threshold %.9g: neighbours %d", t + e, t, e >= 0);
        }
      }
    }
  }
  ctx.outcome(i);
}

// rings of up to 6 points as index lists into a larger cloud; every slice and sub-range
MC_SCENARIO(rings)
{
  pcl::PointCloud<P>::Ptr cloud(new pcl::PointCloud<P>());
  for (int i = 0; i < 8; i++) {
    const double a = 0.4 * ((i * 3) % 8), r = 1 + i;
    cloud->push_back(P(r * std::cos(a), r * std::sin(a), i, 10 * i, i % 3));
  }
  cloud->push_back(P(3, 4, 1, 2, 3));                                        // exact range 5
  const int n = ctx.range(0, mc::tier(4, 5));
  std::vector<int> idx(n);
  for (auto & v : idx) {v = ctx.pick({0, 2, 3, 5, 7, 8});}
  ctx.note("ring of points %s", mc::vstr(idx).c_str());
  const MappedPoints<P> points(cloud, idx);
  auto same = [&](const P & a, const P & b) {return a.x == b.x && a.y == b.y && a.z == b.z && a.intensity == b.intensity && a.ring == b.ring;};
  CHECK(points.size() == n, "size %d of %d", points.size(), n);
  for (int i = 0; i < n; i++) {CHECK(same(points.at(i), cloud->at(idx[i])), "element %d is another point", i);}
  CHECK(Kind([&] {points.at(n);}) == 2 && Kind([&] {points.at(-1);}) == 2, "an index outside of the ring is accepted");
  const Range<P> range(points);
  CHECK(range.size() == n, "Range size %d of %d", range.size(), n);
  auto expected_range = [&](int i) {return std::hypot(static_cast<double>(cloud->at(idx[i]).x), static_cast<double>(cloud->at(idx[i]).y));};
  CHECK(Kind([&] {range(n);}) == 2, "range of an index outside of the ring is accepted");
  for (int i = 0; i < n; i++) {CHECK(mc::close(range(i), expected_range(i), 1e-14, 0), "range %d is %.17g, expected %.17g", i, range(i), expected_range(i));}
  for (int b = 0; b <= n; b++) {
    for (int e = b; e <= n; e++) {
      const std::vector<double> v = range(b, e);
      CHECK(static_cast<int>(v.size()) == e - b, "range(%d, %d) has %zu values", b, e, v.size());
      for (int i = b; i < e; i++) {CHECK(mc::close(v[i - b], expected_range(i), 1e-14, 0), "range(%d, %d)[%d] = %.17g, expected %.17g", b, e, i - b, v[i - b], expected_range(i));}
      const MappedPoints<P> s = points.Slice(b, e);
      CHECK(s.size() == e - b, "Slice(%d, %d) has %d points", b, e, s.size());
      for (int i = b; i < e; i++) {CHECK(same(s.at(i - b), points.at(i)), "Slice(%d, %d) holds another point at %d", b, e, i - b);}
      ctx.step();
    }
  }
  for (double thr : {0.3, 0.5, 1.0, 1.7}) {
    const int k = Kind([&] {NeighborCheckXY<P> x(points, thr);});
    CHECK(k == (n < 2 ? 1 : 0), "neighbour check over %d points: error kind %d", n, k);
    if (n < 2) {continue;}
    const NeighborCheckXY<P> nb(points, thr);
    CHECK(nb.size() == n, "neighbour check size %d of %d", nb.size(), n);
    auto expected = [&](int i, int j) {
        const P & p = cloud->at(idx[i]), & q = cloud->at(idx[j]);
        return TrueAngle(p.x, p.y, q.x, q.y) < thr;
      };
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) {
        CHECK(nb(i, j) == expected(i, j), "neighbour(%d, %d) below %g is %d", i, j, thr, nb(i, j));
        ctx.step();
      }
      for (int o : {-2, -1, n, n + 1}) {
        CHECK(Kind([&] {nb(i, o);}) == 2 && Kind([&] {nb(o, i);}) == 2, "neighbour index %d of %d is accepted", o, n);
      }
    }
    const NeighborCheckBase & base = nb;
    CHECK(base.size() == n && base(0, 1) == nb(0, 1), "through the base class the answers differ");
    for (int b = 0; b < n; b++) {
      for (int e = b; e <= n; e++) {
        const int ks = Kind([&] {nb.Slice(b, e);});
        CHECK(ks == (e - b < 2 ? 1 : 0), "Slice(%d, %d): error kind %d", b, e, ks);
        if (e - b < 2) {continue;}
        const auto s = nb.Slice(b, e);
        CHECK(s.size() == e - b, "Slice(%d, %d) size %d", b, e, s.size());
        for (int i = b; i < e; i++) {
          for (int j = b; j < e; j++) {CHECK(s(i - b, j - b) == nb(i, j), "Slice(%d, %d)(%d, %d) differs from the ring at (%d, %d)", b, e, i - b, j - b, i, j);}
          CHECK(Kind([&] {s(i - b, e - b);}) == 2, "an index outside of the slice is accepted");
        }
        // a slice of a slice
        for (int b2 = 0; b2 + 2 <= e - b; b2++) {
          const auto t = s.Slice(b2, e - b);
          CHECK(t(0, 1) == nb(b + b2, b + b2 + 1), "slice of a slice is shifted");
        }
      }
    }
  }
  ctx.outcome(mc::hash_str(mc::vstr(idx)));
}

MC_SCENARIO(inclusive_range)
{
  const double v = ctx.pick({-1., 0., .1, .5, 1., 100., 1e9, -0.}), lo = ctx.pick({-1., 0., .1, .5, 1., 100.}), hi = ctx.pick({0., .1, .5, 1., 100., 1e9});
  CHECK(IsInInclusiveRange(v, lo, hi) == !(v < lo || v > hi), "IsInInclusiveRange(%g, %g, %g)", v, lo, hi);
  ctx.step();
  ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

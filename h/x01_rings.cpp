// X01: ring grouping, azimuth order, sparse-ring removal.
#include <set>
#include "mc/mc.hpp"
#include "lidar_feature_extraction/ring.hpp"
#include "lidar_feature_library/point_type.hpp"
using P = PointXYZIR;
using Cloud = pcl::PointCloud<P>;

static long double Azimuth(float x, float y)
{
  if (y == 0) {y = 0;}                                 // -0.0 counts as 0: the azimuth lies in (-pi, pi]
  if (x == 0) {x = 0;}
  return atan2l(y, x);
}
static P At(float x, float y, int ring = 0) {return P(x, y, 1.25f, 7.f, ring);}

// sign of azimuth(a) - azimuth(b): exact for float coordinates; 2 = too close to insist
static int Order(const P & a, const P & b)
{
  const long double d = Azimuth(a.x, a.y) - Azimuth(b.x, b.y);
  if (d < -1e-12L) {return -1;}
  if (d > 1e-12L) {return 1;}
  const bool oa = a.x == 0 && a.y == 0, ob = b.x == 0 && b.y == 0;
  if (oa || ob) {return d < 0 ? -1 : d > 0 ? 1 : 0;}
  const long double det = static_cast<long double>(a.x) * b.y - static_cast<long double>(a.y) * b.x;
  return det == 0 ? 0 : 2;
}

static const std::vector<float> & Values()
{
  static const std::vector<float> v = mc::thorough() ?
    std::vector<float>{0.f, -0.f, 1e-42f, -1e-42f, 1e-30f, -1e-30f, 3e-20f, -3e-20f, 1e-3f, -1e-3f, .5f, -.5f, 1.f, -1.f, 1.0000001f, -1.0000001f,
    3.f, -3.f, 99.9f, -99.9f, 16777216.f, -16777215.f, 2e19f, -2e19f, 3e38f, -3e38f} :
    std::vector<float>{0.f, -0.f, 1e-42f, 1e-30f, -1e-30f, 3e-20f, -3e-20f, .5f, -.5f, 1.f, -1.f, 1.0000001f, 3.f, -3.f, 2e19f, -2e19f, 3e38f};
  return v;
}

MC_SCENARIO(comparator)
{
  static std::vector<P> all;
  static std::vector<std::vector<char>> lt;
  const AHasSmallerPolarAngleThanB<P> less{};
  if (all.empty()) {
    for (float x : Values()) {for (float y : Values()) {all.push_back(At(x, y));}}
    lt.assign(all.size(), std::vector<char>(all.size()));
    for (size_t i = 0; i < all.size(); i++) {for (size_t j = 0; j < all.size(); j++) {lt[i][j] = less(all[i], all[j]);}}
  }
  const int n = all.size(), i = ctx.choose(n);
  ctx.note("point (%g, %g) against every pair of %d others", all[i].x, all[i].y, n);
#define PT(k) all[k].x, all[k].y
  CHECK(!lt[i][i], "(%.9g,%.9g) is smaller than itself", PT(i));
  for (int j = 0; j < n; j++) {
    const int o = Order(all[i], all[j]);
    CHECK(!(lt[i][j] && lt[j][i]), "(%.9g,%.9g) and (%.9g,%.9g) are each smaller than the other", PT(i), PT(j));
    if (o == -1) {CHECK(lt[i][j], "(%.9g,%.9g) has the smaller azimuth than (%.9g,%.9g) but does not sort first", PT(i), PT(j));}
    if (o == 1) {CHECK(!lt[i][j], "(%.9g,%.9g) sorts before (%.9g,%.9g), which has the smaller azimuth", PT(i), PT(j));}
    if (o == 0) {CHECK(!lt[i][j], "(%.9g,%.9g) and (%.9g,%.9g) have the same azimuth but are ordered", PT(i), PT(j));}
    for (int k = 0; k < n; k++) {
      CHECK(!(lt[i][j] && lt[j][k]) || lt[i][k], "not transitive: (%.9g,%.9g) < (%.9g,%.9g) < (%.9g,%.9g)", PT(i), PT(j), PT(k));
      CHECK(!(!lt[i][j] && !lt[j][i] && !lt[j][k] && !lt[k][j]) || (!lt[i][k] && !lt[k][i]),
        "equivalence not transitive: (%.9g,%.9g) ~ (%.9g,%.9g) ~ (%.9g,%.9g)", PT(i), PT(j), PT(k));
    }
  }
  ctx.step(static_cast<uint64_t>(n) * n);
  ctx.outcome(i);
}

static void CheckRings(mc::Ctx & ctx, const Cloud & cloud, int min_points)
{
  const auto rings = ExtractAngleSortedRings(cloud);
  std::map<int, std::vector<int>> expected;
  for (size_t i = 0; i < cloud.size(); i++) {expected[cloud[i].ring].push_back(i);}
  auto check = [&](const std::unordered_map<int, std::vector<int>> & got, int min, const char * when) {
      size_t n_expected = 0;
      for (const auto & kv : expected) {
        const auto it = got.find(kv.first);
        if (static_cast<int>(kv.second.size()) < min) {
          CHECK(it == got.end(), "%s: ring %d with %zu points survives a minimum of %d", when, kv.first, kv.second.size(), min);
          continue;
        }
        n_expected++;
        CHECK(it != got.end(), "%s: ring %d with %zu points is missing (minimum %d)", when, kv.first, kv.second.size(), min);
        std::vector<int> sorted = it->second;
        std::sort(sorted.begin(), sorted.end());
        CHECK(sorted == kv.second, "%s: ring %d holds the points %s instead of %s", when, kv.first,
          mc::vstr(it->second).c_str(), mc::vstr(kv.second).c_str());
        for (size_t j = 1; j < it->second.size(); j++) {
          const P & a = cloud[it->second[j - 1]], & b = cloud[it->second[j]];
          CHECK(Order(a, b) != 1, "%s: ring %d: (%.9g,%.9g) comes before (%.9g,%.9g)", when, kv.first, a.x, a.y, b.x, b.y);
        }
      }
      CHECK(got.size() == n_expected, "%s: %zu rings instead of %zu", when, got.size(), n_expected);
    };
  check(rings, 0, "sorted");
  auto pruned = rings;
  RemoveSparseRings(pruned, min_points);
  check(pruned, min_points, "pruned");
  ctx.step(2);
}

static Cloud Build(const std::vector<P> & pts) {Cloud c; for (auto & p : pts) {c.push_back(p);} return c;}

MC_SCENARIO(small_clouds)
{
  const int n = ctx.range(0, mc::tier(4, 5));
  static const float xy[][2] = {{0, 0}, {1, 0}, {2, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {2, 2}, {-1, 1}, {-1, -1}, {1, -1}, {-3, -0.f}};
  Cloud c;
  for (int i = 0; i < n; i++) {
    const int k = ctx.choose(12);
    c.push_back(At(xy[k][0], xy[k][1], ctx.pick({0, 3})));
  }
  CheckRings(ctx, c, n % 4);
  uint64_t h = n;
  for (auto & p : c) {h = mc::mix(mc::hash_double(mc::hash_double(h, p.x), p.y), p.ring);}
  ctx.outcome(h);
}

MC_SCENARIO(one_ring)
{
  const int n = ctx.range(5, 6);
  static const float xy[][2] = {{0, 0}, {1, 0}, {2, 0}, {-1, 0}, {0, 1}, {0, -1}, {1e-30f, 1e-30f}, {3, -3}};
  Cloud c;
  for (int i = 0; i < n; i++) {const int k = ctx.choose(8); c.push_back(At(xy[k][0], xy[k][1], 65535));}
  CheckRings(ctx, c, n - 1);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

// ring numbers over the whole 16-bit domain, all minimum sizes
MC_SCENARIO(ring_numbers)
{
  const int r0 = ctx.pick({0, 1, 15, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535});
  const int r1 = ctx.pick({0, 2, 16, 128, 256, 512, 32769, 65535});
  const int n0 = ctx.range(0, 4), n1 = ctx.range(0, 4), min = ctx.range(-1, 6);
  Cloud c;
  for (int i = 0; i < std::max(n0, n1); i++) {
    if (i < n0) {c.push_back(At(std::cos(2.f * i), std::sin(2.f * i), r0));}
    if (i < n1) {c.push_back(At(std::cos(3.f - 2.f * i), std::sin(3.f - 2.f * i), r1));}
  }
  CheckRings(ctx, c, min);
  ctx.outcome(mc::mix(mc::mix(mc::mix(r0, r1), n0 * 8 + n1), min + 10));
}

// long rings: std::sort switches algorithm above 16 elements, so the order is checked there with ties and axes
MC_SCENARIO(long_rings)
{
  const int n = ctx.pick(mc::tier(std::vector<int>{15, 16, 17, 33, 64, 200}, std::vector<int>{15, 16, 17, 18, 31, 33, 64, 100, 128, 200, 511, 1800}));
  const int stride = ctx.pick({1, 3, 7, -1, -7}), start = ctx.choose(8), kind = ctx.choose(4), n_rings = ctx.pick({1, 3});
  Cloud c;
  for (int i = 0; i < n; i++) {
    const int k = (((start * n / 8 + i * stride) % n) + n) % n;
    const double a = 2 * M_PI * k / n;
    float r = 2.f + (kind == 1 ? (k * 37 % 11) : 0);
    float x = r * std::cos(a), y = r * std::sin(a);
    if (kind == 2) {const float g[][2] = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {-1, 0}, {0, 2}, {0, -2}, {5, 0}}; x = g[k % 8][0]; y = g[k % 8][1];}
    if (kind == 3) {x = k + 1; y = 0;}                   // every point on the positive x axis
    c.push_back(At(x, y, i % n_rings));
  }
  ctx.note("%d points, stride %d, start %d, kind %d, %d rings", n, stride, start, kind, n_rings);
  CheckRings(ctx, c, n / n_rings);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(ring_channel)
{
  std::vector<sensor_msgs::msg::PointField> fields;
  const int n = ctx.range(0, 5);
  bool expected = false;
  for (int i = 0; i < n; i++) {
    sensor_msgs::msg::PointField f;
    f.name = ctx.pick({"ring", "x", "rin", "ringo", "Ring", ""});
    expected = expected || f.name == "ring";
    fields.push_back(f);
  }
  CHECK(RingIsAvailable(fields) == expected, "RingIsAvailable with %d fields is %d", n, !expected);
  ctx.step();
  ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

// X04: edge / surface picking, suppression, blocks.
#include <functional>
#include "mc/mc.hpp"
#include "ref_extraction.hpp"
#include "lidar_feature_extraction/hyper_parameter.hpp"
using P = PointXYZIR;

// Points whose consecutive pairs are neighbours exactly where link says so (threshold 2 degrees).
static MappedPoints<P> Points(const ref::Links & link)
{
  typename pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>());
  double a = 0.3;
  std::vector<int> idx;
  for (size_t i = 0; i <= link.size(); i++) {
    c->push_back(P(5 * std::cos(a), 5 * std::sin(a), 0, 0, 1));
    idx.push_back(i);
    if (i < link.size()) {a += link[i] ? 0.01 : 0.2;}
  }
  return MappedPoints<P>(c, idx);
}
static const double kRad = 2 * M_PI / 180;

struct Case {std::vector<double> c; ref::Links link; int pad, ipad, blocks; double edge, surface;};

static std::string Describe(const Case & k)
{
  return mc::format("curvature %s links %s padding %d blocks %d (border %d) edge>=%g surface<=%g", mc::vstr(k.c).c_str(),
    ref::str(k.link).c_str(), k.pad, k.blocks, k.ipad, k.edge, k.surface);
}

static void Check(mc::Ctx & ctx, const Case & k)
{
  const int n = k.c.size();
  if (n - 2 * k.ipad < k.blocks) {return;}
  const PaddedIndexRange range(n, k.blocks, k.ipad);
  for (int j = 0; j < k.blocks; j++) {if (range.End(j) - range.Begin(j) < 2) {return;}}
  ref::Labels labels = InitLabels(n);
  const ref::Labels before = labels;
  const std::vector<double> curvature = k.c;
  AssignLabel(labels, curvature, NeighborCheckXY<P>(Points(k.link), kRad), range, EdgeLabel(k.pad, k.edge), SurfaceLabel(k.pad, k.surface));
  ctx.step(k.blocks);
  CHECK(curvature == k.c, "the curvature was modified: %s", Describe(k).c_str());
  CHECK(static_cast<int>(labels.size()) == n, "label count changed");
  for (int i = 0; i < n; i++) {
    if (i < range.Begin(0) || i >= range.End(k.blocks - 1)) {
      CHECK(labels[i] == PointLabel::Default, "point %d outside of the blocks is labelled: %s for %s", i, ref::str(labels).c_str(), Describe(k).c_str());
    }
  }
  for (int j = 0; j < k.blocks; j++) {
    const int b = range.Begin(j), e = range.End(j);
    ref::Labels expected = before;
    ref::AssignBlock(expected, k.link, k.c, b, e, k.pad, k.edge, k.surface, ref::Ascending(k.c, b, e));
    const bool same = std::equal(expected.begin() + b, expected.begin() + e, labels.begin() + b);
    if (!same && e - b <= 9 && ref::BlockExplained(before, labels, k.link, k.c, b, e, k.pad, k.edge, k.surface)) {ctx.count("tie_orders"); continue;}
    CHECK(same, "labels %s, expected %s in [%d,%d) for %s", ref::str(labels).c_str(), ref::str(expected).c_str(), b, e, Describe(k).c_str());
  }
  uint64_t h = n; for (auto l : labels) {h = mc::mix(h, static_cast<int>(l));}
  ctx.outcome(mc::mix(h, mc::hash_str(ref::str(k.link))));
}

static ref::Links PickLinks(mc::Ctx & ctx, int n) {ref::Links l(n - 1); for (auto & x : l) {x = !ctx.flag();} return l;}

// every strict order of curvatures, every gap pattern, both thresholds at and between all ranks
MC_SCENARIO(permutations)
{
  Case k;
  const int n = ctx.range(2, mc::tier(6, 7));
  std::vector<int> left(n);
  for (int i = 0; i < n; i++) {left[i] = i;}
  for (int i = 0; i < n; i++) {
    const int j = ctx.choose(left.size());
    k.c.push_back(left[j]);
    left.erase(left.begin() + j);
  }
  k.link = PickLinks(ctx, n);
  k.ipad = 0;
  k.blocks = 1;
  ctx.note("curvature order %s links %s", mc::vstr(k.c).c_str(), ref::str(k.link).c_str());
  for (k.pad = 1; k.pad <= std::min(n, 4); k.pad++) {
    for (auto t : {std::pair<double, double>{n, n}, {0, n}, {n / 2, n / 2}, {n / 2 + 0.5, n / 2 - 0.5}, {n / 2 - 0.5, n / 2 + 0.5}, {1, -1}, {n - 1, 0}}) {
      k.edge = t.first; k.surface = t.second;
      Check(ctx, k);
    }
  }
}

// small alphabets with ties
MC_SCENARIO(ties)
{
  Case k;
  const int n = ctx.range(2, mc::tier(6, 7));
  for (int i = 0; i < n; i++) {k.c.push_back(ctx.pick({0., .05, .3}));}
  k.link = PickLinks(ctx, n);
  k.ipad = 0; k.blocks = 1;
  ctx.note("curvature %s links %s", mc::vstr(k.c).c_str(), ref::str(k.link).c_str());
  for (k.pad = 1; k.pad <= 3; k.pad++) {
    k.edge = .05; k.surface = .05; Check(ctx, k);
    k.edge = .06; k.surface = .04; Check(ctx, k);
  }
}

// several blocks and borders
MC_SCENARIO(blocks)
{
  Case k;
  const int n = ctx.pick({8, 11});
  k.ipad = ctx.pick({0, 1, 2});
  k.blocks = ctx.range(1, 3);
  k.pad = ctx.range(1, 4);
  const int order = ctx.choose(mc::tier(16, 40)), bits = ctx.choose(1 << std::min(n - 1, mc::tier(7, 10)));
  for (int i = 0; i < n; i++) {k.c.push_back(order < 4 ? ((i * (order % 4 + 2) + order) % n == 0 ? 9 : (i * (2 * order + 1) + order) % n) : (i * (order * 2 + 3) * 7 + order * i * i) % 23 + i * 1e-3);}
  for (int i = 0; i < n - 1; i++) {k.link.push_back(!(bits >> (i % 10) & 1));}
  ctx.note("%s", Describe(k).c_str());
  for (auto t : {std::pair<double, double>{5, 5}, {3, 8}, {8, 3}}) {k.edge = t.first; k.surface = t.second; Check(ctx, k);}
}

// long rings with the default configuration
MC_SCENARIO(long_rings)
{
  Case k;
  const int n = ctx.pick({40, 97, 360});
  k.ipad = k.pad = ctx.pick({2, 5}); k.blocks = ctx.pick({1, 4, 6});
  const int seed = ctx.choose(mc::tier(40, 400)), gap = ctx.pick({0, 7, 13, 1});
  for (int i = 0; i < n; i++) {k.c.push_back((mc::mix(seed + 1, i) % 10007) * 1e-5 + i * 1e-9);}
  for (int i = 0; i < n - 1; i++) {k.link.push_back(gap == 0 || (i + seed) % gap != 0);}
  k.edge = 0.05; k.surface = 0.05;
  ctx.note("n %d padding %d blocks %d seed %d gap %d", n, k.pad, k.blocks, seed, gap);
  Check(ctx, k);
  k.edge = 0.08; k.surface = 0.01;
  Check(ctx, k);
}

// the fill primitive on views and vectors
MC_SCENARIO(fill_neighbors)
{
  const int n = ctx.range(2, 7);
  const ref::Links link = PickLinks(ctx, n);
  const MappedPoints<P> pts = Points(link);
  const NeighborCheckXY<P> nb(pts, kRad);
  std::vector<int> groups(n, 0);
  for (int i = 1; i < n; i++) {groups[i] = groups[i - 1] + (link[i - 1] ? 0 : 1);}
  const NeighborCheckDebug dbg(groups);
  for (int i = 0; i < n; i++) {
    for (int pad = 0; pad <= n + 1; pad++) {
      ref::Labels e(n, PointLabel::Edge), a = e, d = e;
      ref::Spread(e, link, 0, n, i, pad, PointLabel::SurfaceNeighbor);
      FillNeighbors(a, nb, i, pad, PointLabel::SurfaceNeighbor);
      FillNeighbors(d, dbg, i, pad, PointLabel::SurfaceNeighbor);
      ctx.step(2);
      CHECK(a == e && d == e, "FillNeighbors(%d, padding %d) on links %s: %s / %s expected %s", i, pad, ref::str(link).c_str(), ref::str(a).c_str(),
        ref::str(d).c_str(), ref::str(e).c_str());
      // through a view of a larger sequence: nothing outside of the view changes
      ref::Labels big(n + 4, PointLabel::Surface);
      std::fill(big.begin() + 2, big.end() - 2, PointLabel::Edge);
      span<PointLabel> view(big.begin() + 2, big.begin() + 2 + n);
      FillNeighbors(view, dbg, i, pad, PointLabel::SurfaceNeighbor);
      ref::Labels eb(n + 4, PointLabel::Surface);
      std::copy(e.begin(), e.end(), eb.begin() + 2);
      CHECK(big == eb, "FillNeighbors through a view wrote %s, expected %s", ref::str(big).c_str(), ref::str(eb).c_str());
    }
  }
  // one-sided fills over every admissible and inadmissible interval
  auto kind = [](std::function<void()> f) {try {f(); return 0;} catch (const std::invalid_argument &) {return 1;}};
  for (int b = -3; b <= n + 1; b++) {
    for (int e = -3; e <= n + 1; e++) {
      if (b >= -2 && e <= n + 1 && e > b) {
        ref::Labels l(n, PointLabel::Default), x = l;
        const bool bad = e > n || b < 0;
        const int t = kind([&] {FillFromLeft(l, nb, b, e, PointLabel::Occluded);});
        if (!bad) {for (int i = b; i < e; i++) {x[i] = PointLabel::Occluded; if (i + 1 < e && !link[i]) {break;}}}
        CHECK(t == bad, "FillFromLeft(%d, %d) of %d: invalid_argument %d", b, e, n, t);
        CHECK(l == x, "FillFromLeft(%d, %d) links %s: %s expected %s", b, e, ref::str(link).c_str(), ref::str(l).c_str(), ref::str(x).c_str());
        ref::Labels r(n, PointLabel::Default), y = r;
        const bool badr = e >= n || b < -1;
        const int tr = kind([&] {FillFromRight(r, nb, b, e, PointLabel::Occluded);});
        if (!badr) {for (int i = e; i > b; i--) {y[i] = PointLabel::Occluded; if (i - 1 > b && !link[i - 1]) {break;}}}
        CHECK(tr == badr, "FillFromRight(%d, %d) of %d: invalid_argument %d", b, e, n, tr);
        CHECK(r == y, "FillFromRight(%d, %d) links %s: %s expected %s", b, e, ref::str(link).c_str(), ref::str(r).c_str(), ref::str(y).c_str());
        ctx.step(2);
      }
    }
  }
  ctx.outcome(mc::mix(n, mc::hash_str(ref::str(link))));
}
MC_MAIN

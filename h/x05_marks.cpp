// X05: occlusion, range and parallel-beam marks.
#include <functional>
#include "mc/mc.hpp"
#include "ref_extraction.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"
using P = PointXYZIR;
static const double kRad = 2 * M_PI / 180;

// Points on the axes: planar ranges are exact, linked points share a direction, others differ by a right angle.
static MappedPoints<P> Points(const ref::Links & link, const std::vector<double> & r)
{
  typename pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>());
  static const float d[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
  int k = 0;
  std::vector<int> idx;
  c->push_back(P(77, 77, 77, 7, 7));                       // a point of another ring in front
  for (size_t i = 0; i < r.size(); i++) {
    c->push_back(P(r[i] * d[k][0], r[i] * d[k][1], i * 10.f, 3, 1));
    idx.push_back(i + 1);
    if (i < link.size() && !link[i]) {k = (k + 1) % 4;}
  }
  return MappedPoints<P>(c, idx);
}

static std::string Describe(const std::vector<double> & r, const ref::Links & link, int pad)
{
  return mc::format("ranges %s links %s padding %d", mc::vstr(r).c_str(), ref::str(link).c_str(), pad);
}
static ref::Links PickLinks(mc::Ctx & ctx, int n) {ref::Links l(n - 1); for (auto & x : l) {x = !ctx.flag();} return l;}
static ref::Labels Initial(int n, int kind)
{
  ref::Labels l(n);
  for (int i = 0; i < n; i++) {l[i] = static_cast<PointLabel>(kind == 0 ? 0 : kind == 1 ? (i + 1) % 5 : 7 - i % 8);}
  return l;
}

static void CheckAll(mc::Ctx & ctx, const std::vector<double> & r, const ref::Links & link, int pad, int init,
  double thr, double min, double max, double ratio)
{
  const int n = r.size();
  const MappedPoints<P> pts = Points(link, r);
  const NeighborCheckXY<P> nb(pts, kRad);
  const Range<P> range(pts);
  const ref::Labels l0 = Initial(n, init);
  ref::Labels all = l0, eall = l0;
  {
    ref::Labels a = l0, e = l0;
    LabelOccludedPoints(a, nb, range, pad, thr);
    ref::Occlude(e, link, r, pad, thr);
    CHECK(a == e, "occlusion > %g: %s expected %s from %s for %s", thr, ref::str(a).c_str(), ref::str(e).c_str(), ref::str(l0).c_str(), Describe(r, link, pad).c_str());
    LabelOccludedPoints(all, nb, range, pad, thr);
    ref::Occlude(eall, link, r, pad, thr);
  }
  {
    ref::Labels a = l0, e = l0;
    LabelOutOfRange(a, range, min, max);
    ref::OutOfRange(e, r, min, max);
    CHECK(a == e, "range [%g, %g]: %s expected %s from %s for %s", min, max, ref::str(a).c_str(), ref::str(e).c_str(), ref::str(l0).c_str(), Describe(r, link, pad).c_str());
    LabelOutOfRange(all, range, min, max);
    ref::OutOfRange(eall, r, min, max);
  }
  {
    ref::Labels a = l0, e = l0;
    LabelParallelBeamPoints(a, range, ratio);
    ref::ParallelBeam(e, r, ratio);
    CHECK(a == e, "parallel beam > %g: %s expected %s from %s for %s", ratio, ref::str(a).c_str(), ref::str(e).c_str(), ref::str(l0).c_str(), Describe(r, link, pad).c_str());
    LabelParallelBeamPoints(all, range, ratio);
    ref::ParallelBeam(eall, r, ratio);
  }
  CHECK(all == eall, "all three: %s expected %s for %s", ref::str(all).c_str(), ref::str(eall).c_str(), Describe(r, link, pad).c_str());
  ctx.step(6);
  uint64_t h = n; for (auto l : all) {h = mc::mix(h, static_cast<int>(l));}
  ctx.outcome(mc::mix(h, pad));
}

// thresholds are hit exactly: 1 -> 2 is not further than 1, 1 -> 2.5 is; 4 is exactly twice 2, ...
MC_SCENARIO(small)
{
  const int n = ctx.range(2, mc::tier(6, 7));
  std::vector<double> r(n);
  for (auto & v : r) {v = ctx.pick({1., 2., 2.5, 4.5});}
  const ref::Links link = PickLinks(ctx, n);
  ctx.note("%s", Describe(r, link, 0).c_str());
  for (int pad = 1; pad <= std::min(4, n - 1); pad++) {
    CheckAll(ctx, r, link, pad, (pad + n) % 3, 1., 2., 2.5, .5);
  }
  CheckAll(ctx, r, link, 0, 1, 2., 1.5, 4.5, 1.25);
  CheckAll(ctx, r, link, 1, 2, .5, 1., 4., .25);
}

// zero ranges, tiny and huge values, thresholds around them
MC_SCENARIO(values)
{
  const int n = ctx.range(2, mc::tier(4, 5));
  std::vector<double> r(n);
  for (auto & v : r) {v = ctx.pick({0., 1e-3, .125, 99.75, 100., 100.0625, 1e6});}
  const ref::Links link(n - 1, 1);
  // two adjacent points at the origin have no angle between them
  for (int i = 0; i + 1 < n; i++) {if (r[i] == 0 && r[i + 1] == 0) {ctx.prune();}}
  ref::Links real = link;
  for (int i = 0; i + 1 < n; i++) {if (r[i] == 0 || r[i + 1] == 0) {real[i] = 0;}}
  const MappedPoints<P> pts = Points(link, r);
  for (int pad = 1; pad <= std::min(2, n - 1); pad++) {
    for (double min : {0., .125, 100.}) {
      for (double max : {100., 99.75, 1e6}) {
        const NeighborCheckXY<P> nb(pts, kRad);
        const Range<P> range(pts);
        ref::Labels a = Initial(n, pad), e = a;
        LabelOccludedPoints(a, nb, range, pad, .125);
        ref::Occlude(e, real, r, pad, .125);
        CHECK(a == e, "occlusion: %s expected %s for %s", ref::str(a).c_str(), ref::str(e).c_str(), Describe(r, real, pad).c_str());
        LabelOutOfRange(a, range, min, max);
        ref::OutOfRange(e, r, min, max);
        CHECK(a == e, "range [%g %g]: %s expected %s for %s", min, max, ref::str(a).c_str(), ref::str(e).c_str(), Describe(r, real, pad).c_str());
        LabelParallelBeamPoints(a, range, .0078125);
        ref::ParallelBeam(e, r, .0078125);
        CHECK(a == e, "parallel beam: %s expected %s for %s", ref::str(a).c_str(), ref::str(e).c_str(), Describe(r, real, pad).c_str());
        ctx.step(3);
      }
    }
  }
  uint64_t h = n; for (double v : r) {h = mc::hash_double(h, v);}
  ctx.outcome(h);
}

// long rings: jumps at every position, at every padding, with a gap at every position
MC_SCENARIO(long_rings)
{
  const int n = ctx.pick({12, 40}), pad = ctx.pick({1, 2, 5, 9});
  const int jump = ctx.choose(n), width = ctx.pick({1, 2, 6, 100}), gap = ctx.range(-1, n - 2), init = ctx.choose(2);
  std::vector<double> r(n, 10.);
  for (int i = jump; i < std::min(n, jump + width); i++) {r[i] = 12.;}
  ref::Links link(n - 1, 1);
  if (gap >= 0) {link[gap] = 0;}
  ctx.note("n %d padding %d jump at %d width %d gap after %d", n, pad, jump, width, gap);
  CheckAll(ctx, r, link, pad, init, .3, .1, 100., .02);
  for (auto & v : r) {v = 22. - v;}                         // the same with near and far exchanged
  CheckAll(ctx, r, link, pad, init, .3, 10.5, 100., .02);
}
MC_MAIN

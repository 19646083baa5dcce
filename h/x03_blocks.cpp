// X03: PaddedIndexRange / IndexRange tile their span.
#include <climits>
#include "mc/mc.hpp"
#include "lidar_feature_extraction/index_range.hpp"

template<class F> static int Thrown(F f)  // 0 none 1 invalid_argument 2 out_of_range 3 other
{
  try {f(); return 0;} catch (const std::out_of_range &) {return 2;} catch (const std::invalid_argument &) {return 1;} catch (...) {return 3;}
}

template<class R> static void CheckTiling(mc::Ctx & ctx, const R & r, long b, long e, int n)
{
  CHECK(r.NBlocks() == n, "NBlocks()=%d expected %d", r.NBlocks(), n);
  long at = b, lo = LONG_MAX, hi = 0;
  for (int j = 0; j < n; j++) {
    const long s = r.Begin(j), t = r.End(j);
    CHECK(s == at, "block %d of %d over [%ld,%ld) begins at %ld, the previous one ended at %ld", j, n, b, e, s, at);
    CHECK(t > s, "block %d of %d over [%ld,%ld) is empty: [%ld,%ld)", j, n, b, e, s, t);
    lo = std::min(lo, t - s); hi = std::max(hi, t - s);
    at = t;
  }
  ctx.step(n);
  CHECK(at == e, "the last of %d blocks over [%ld,%ld) ends at %ld", n, b, e, at);
  CHECK(hi - lo <= 1, "block lengths over [%ld,%ld) in %d blocks range from %ld to %ld", b, e, n, lo, hi);
  for (int j : {-2, -1, n, n + 1, INT_MAX, INT_MIN}) {
    if (j >= 0 && j < n) {continue;}
    CHECK(Thrown([&] {r.Begin(j);}) == 2, "Begin(%d) with %d blocks is not an out_of_range error", j, n);
    CHECK(Thrown([&] {r.End(j);}) == 2, "End(%d) with %d blocks is not an out_of_range error", j, n);
  }
}

static void Padded(mc::Ctx & ctx, int size, int n, int pad)
{
  const bool bad = static_cast<long>(size) - 2L * pad < n;
  const int t = Thrown([&] {PaddedIndexRange r(size, n, pad);});
  CHECK(t == (bad ? 1 : 0), "PaddedIndexRange(size=%d, blocks=%d, padding=%d): error kind %d", size, n, pad, t);
  ctx.step();
  if (!bad) {CheckTiling(ctx, PaddedIndexRange(size, n, pad), pad, size - pad, n);}
}

MC_SCENARIO(small)
{
  const int size = ctx.range(0, mc::tier(170, 520));
  const int pad = ctx.range(0, 12);
  ctx.note("size %d padding %d, every block count up to %d", size, pad, size + 2);
  for (int n = 1; n <= size + 2; n++) {Padded(ctx, size, n, pad);}
  ctx.outcome(mc::mix(size, pad));
}

MC_SCENARIO(ring_sizes)
{
  const int size = ctx.range(1, mc::tier(5000, 40000));
  for (int pad : {1, 5, 10}) {
    for (int n : {1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 23, 49, 64, 97, 127}) {Padded(ctx, size, n, pad);}
  }
  ctx.note("size %d", size);
  ctx.outcome(size);
}

MC_SCENARIO(huge)
{
  const int size = ctx.pick({1000003, 16777217, 16777259, 2147483647, 2000000011});
  const int pad = ctx.pick({0, 1, 5, 1000});
  const int n = ctx.pick({1, 2, 3, 6, 7, 10, 49, 1000, 9973});
  Padded(ctx, size, n, pad);
  ctx.outcome(mc::mix(mc::mix(size, pad), n));
}

MC_SCENARIO(unpadded)
{
  const int b = ctx.range(-5, 20), len = ctx.range(-3, 40);
  for (int n = 1; n <= 44; n++) {
    const int t = Thrown([&] {IndexRange r(b, b + len, n);});
    CHECK(t == (len < n ? 1 : 0), "IndexRange(%d, %d, %d): error kind %d", b, b + len, n, t);
    if (len >= n) {CheckTiling(ctx, IndexRange(b, b + len, n), b, b + len, n);}
  }
  ctx.outcome(mc::mix(b + 100, len + 100));
}
MC_MAIN

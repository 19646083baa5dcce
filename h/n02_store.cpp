// N02: the prior-pose store against a sorted map, for every history of operations.
#include "mc/mc.hpp"
#include <Eigen/Geometry>
#include <set>
#include "lidar_feature_localization/stamp_sorted_objects.hpp"

template<class Object>
struct Model
{
  std::map<double, Object> m;
  void Insert(double t, const Object & o) {m[t] = o;}
  void Prune(double t)
  {
    std::map<double, Object> kept;
    for (const auto & e : m) {if (e.first <= t) {kept.insert(e);}}
    m = kept;
  }
  std::pair<double, Object> Closest(double t) const
  {
    auto best = m.begin();
    for (auto i = m.begin(); i != m.end(); ++i) {if (std::fabs(i->first - t) <= std::fabs(best->first - t)) {best = i;}}
    return *best;   // later one of two equally close
  }
};
template<class Object>
static void Compare(mc::Ctx & ctx, StampSortedObjects<Object> & s, const Model<Object> & m, const std::vector<double> & asked, const std::string & h)
{
  CHECK(s.Size() == m.m.size(), "%s: size %zu, expected %zu", h.c_str(), s.Size(), m.m.size());
  if (m.m.empty()) {return;}
  for (double t : asked) {
    const auto [time, object] = s.GetClosest(t);
    const auto e = m.Closest(t);
    CHECK(time == e.first && object == e.second, "%s: closest to %.17g is stamped %.17g, expected %.17g (or the object differs)", h.c_str(), t, time, e.first);
  }
  CHECK(s.Size() == m.m.size(), "%s: queries changed the size to %zu", h.c_str(), s.Size());
}

static void Histories(mc::Ctx & ctx, const std::vector<double> & stamps, const std::vector<double> & prunes, const std::vector<double> & asked, int depth, bool observe_all)
{
  StampSortedObjects<int> s;
  Model<int> m;
  std::string h;
  for (int i = 0; i < depth; i++) {
    const int n = stamps.size() + prunes.size();
    const int op = ctx.choose(n);
    if (op < static_cast<int>(stamps.size())) {
      s.Insert(stamps[op], 100 + i); m.Insert(stamps[op], 100 + i);
      h += mc::format("insert(%.17g) ", stamps[op]);
    } else {
      const double t = prunes[op - stamps.size()];
      s.RemoveOlderThan(t); m.Prune(t);
      h += mc::format("prune(%.17g) ", t);
    }
    uint64_t st = 7;
    for (const auto & e : m.m) {st = mc::mix(mc::hash_double(st, e.first), e.second);}
    ctx.state(st); ctx.step();
    if (observe_all || i == depth - 1) {Compare(ctx, s, m, asked, h);}
  }
  ctx.note("%s", h.c_str());
  ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(histories)
{
  Histories(ctx, {0, 1, 2, 3.5}, {-1, 0, 0.5, 1, 2.5, 3.5, 9}, {-5, 0, 0.4, 0.5, 0.6, 1, 1.5, 2, 2.7, 2.75, 2.8, 3.5, 100}, mc::tier(6, 7), false);
}
MC_SCENARIO(observed_histories)   // the same with queries between all operations
{
  Histories(ctx, {-2, 1, 2}, {-3, -2, 0, 1.5, 2}, {-9, -2, -0.5, -0.4, 1, 1.4, 1.5, 1.6, 7}, mc::tier(5, 6), true);
}
// nanosecond stamps: as large as real ones, as close as doubles of that size can be
MC_SCENARIO(nanoseconds)
{
  const double b = 1.6e18, u = 256;
  Histories(ctx, {b, b + u, b + 1e9, b + 2e9}, {b - 1e9, b, b + 1e9, b + 1.5e9}, {0, b - 1, b, b + u, b + 3 * u, b + 0.5e9 + u / 2, b + 1e9, b + 1.5e9, b + 1.5e9 + u, 2e18}, mc::tier(6, 7), false);
}
// two neighbours at any distance, the query next to their middle by as little as doubles of that size allow
MC_SCENARIO(near_the_middle)
{
  const double base = ctx.pick({0., 1024., 1.7e18}), u = base > 1e6 ? 256 : std::pow(2., -20), gap = 2048 * u * std::pow(2., ctx.range(0, 28));
  StampSortedObjects<int> s; Model<int> m;
  const int other = ctx.choose(3);
  for (int i = 0; i < 2; i++) {s.Insert(base + i * gap, i); m.Insert(base + i * gap, i);}
  if (other) {const double t = base + (other == 1 ? -gap : 2 * gap); s.Insert(t, 7); m.Insert(t, 7);}
  std::vector<double> asked;
  for (double k : {0., 1., 2., 3., 7., 64., 1023.}) {for (int i = -1; i < 3; i++) {asked.push_back(base + (i + 0.5) * gap + k * u); asked.push_back(base + (i + 0.5) * gap - k * u);}}
  Compare(ctx, s, m, asked, mc::format("from %.17g, distance %.17g, other %d", base, gap, other));
  ctx.step(asked.size()); ctx.outcome(mc::hash_str(ctx.trace()));
}
// many entries, each position of the query and the prune time
MC_SCENARIO(long_store)
{
  const int n = ctx.range(0, mc::tier(14, 24)), order = ctx.choose(3), cut = ctx.range(-1, 2 * n);
  StampSortedObjects<int> s; Model<int> m;
  for (int i = 0; i < n; i++) {
    const int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5) % n;
    s.Insert(k, i); m.Insert(k, i);
  }
  std::vector<double> asked;
  for (int i = -2; i <= 2 * n + 1; i++) {asked.push_back(i / 2.);}
  const std::string h = mc::format("%d entries, order %d", n, order);
  Compare(ctx, s, m, asked, h);
  s.RemoveOlderThan(cut / 2.); m.Prune(cut / 2.);
  Compare(ctx, s, m, asked, h + mc::format(" prune(%g)", cut / 2.));
  s.Insert(0.25, -1); m.Insert(0.25, -1);
  Compare(ctx, s, m, asked, h + mc::format(" prune(%g) insert(0.25)", cut / 2.));
  ctx.step(4); ctx.outcome(mc::hash_str(h) + cut);
}
// as many entries as priors of an hour, at their distance in time
MC_SCENARIO(huge_store)
{
  const int n = ctx.pick({257, 1001, 20000, 70000}), order = ctx.choose(3); const double base = ctx.pick({0., 1.7e18}), step = ctx.pick({1e7, 5.12e4});
  StampSortedObjects<int> s; std::vector<double> stamp(n);
  const int stride = 6151;   // coprime to each n
  for (int i = 0; i < n; i++) {const int k = order == 0 ? i : order == 1 ? n - 1 - i : static_cast<long>(i) * stride % n; stamp[k] = base + k * step; s.Insert(stamp[k], k);}
  const std::string h = mc::format("%d entries, order %d, from %g every %g", n, order, base, step);
  int size = n;
  for (int cut = n; cut > 0; cut = cut > 5 ? cut / 3 : cut - 1) {
    if (cut < n) {s.RemoveOlderThan(stamp[cut - 1] + step / 4); size = cut;}
    CHECK(static_cast<int>(s.Size()) == size, "%s, cut to %d: size %zu", h.c_str(), size, s.Size());
    for (int i = 0; i < n; i += 1 + n / 1000) {
      for (double f : {-0.25, 0., 0.25}) {
        const int e = std::min(i, size - 1);
        const auto [t, o] = s.GetClosest(stamp[i] + f * step);
        CHECK(t == stamp[e] && o == e, "%s, cut to %d: closest to entry %d %+g is %d at %.17g", h.c_str(), size, i, f, o, t);
      }
    }
    ctx.step();
  }
  ctx.outcome(mc::hash_str(h));
}
// the object type the node stores
struct Iso
{
  Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
  bool operator==(const Iso & o) const {return p.matrix() == o.p.matrix();}
};
MC_SCENARIO(poses)
{
  StampSortedObjects<Eigen::Isometry3d> s;
  std::map<double, double> m;
  std::string h;
  for (int i = 0; i < mc::tier(5, 6); i++) {
    const int op = ctx.choose(6);
    if (op < 3) {
      Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
      p.translation() << i, op, 1; p.linear() = Eigen::AngleAxisd(0.1 * i, Eigen::Vector3d::UnitZ()).toRotationMatrix();
      s.Insert(op, p); m[op] = i; h += mc::format("insert(%d) ", op);
      p.translation().setZero();
    } else {
      s.RemoveOlderThan(op - 4); m.erase(m.upper_bound(op - 4), m.end()); h += mc::format("prune(%d) ", op - 4);
    }
    CHECK(s.Size() == m.size(), "%s: size %zu, expected %zu", h.c_str(), s.Size(), m.size());
    for (const auto & e : m) {
      const auto [t, p] = s.GetClosest(e.first);
      CHECK(t == e.first && p.translation() == Eigen::Vector3d(e.second, e.first, 1) && p.linear() == Eigen::AngleAxisd(0.1 * e.second, Eigen::Vector3d::UnitZ()).toRotationMatrix(), "%s: pose at %g is %s", h.c_str(), e.first, mc::mstr(p.matrix()).c_str());
    }
    ctx.step();
  }
  ctx.outcome(mc::hash_str(h));
}
MC_MAIN

// Reference models of the extraction rules, written from their statement on plain vectors.
#ifndef REF_EXTRACTION_HPP_
#define REF_EXTRACTION_HPP_
#include <cstdint>
#include <string>
#include <vector>
#include "lidar_feature_extraction/label.hpp"

namespace ref
{
using Labels = std::vector<PointLabel>;
using Links = std::vector<char>;                 // links[i]: points i and i+1 are neighbours

inline std::string str(const Labels & l) {std::string s; for (auto x : l) {s += ".EeSsOXP"[static_cast<int>(x) & 7];} return s;}
inline std::string str(const Links & l) {std::string s; for (auto x : l) {s += x ? '-' : '|';} return s;}

// label `index` and up to `padding` linked points on both sides, inside [b, e)
inline void Spread(Labels & l, const Links & link, int b, int e, int index, int padding, PointLabel v)
{
  l[index] = v;
  for (int i = index + 1; i < e && i <= index + padding && link[i - 1]; i++) {l[i] = v;}
  for (int i = index - 1; i >= b && i >= index - padding && link[i]; i--) {l[i] = v;}
}

// order: indices of the block in the order in which candidates are visited for edges (descending curvature)
inline void AssignBlock(
  Labels & l, const Links & link, const std::vector<double> & c, int b, int e, int padding, double edge, double surface,
  const std::vector<int> & ascending, bool edges = true, bool surfaces = true)
{
  if (edges) {
    for (auto it = ascending.rbegin(); it != ascending.rend(); ++it) {
      if (l[*it] == PointLabel::Default && c[*it] >= edge) {
        Spread(l, link, b, e, *it, padding, PointLabel::EdgeNeighbor);
        l[*it] = PointLabel::Edge;
      }
    }
  }
  if (surfaces) {
    for (int i : ascending) {
      if (l[i] == PointLabel::Default && c[i] <= surface) {
        Spread(l, link, b, e, i, padding, PointLabel::SurfaceNeighbor);
        l[i] = PointLabel::Surface;
      }
    }
  }
}

inline std::vector<int> Ascending(const std::vector<double> & c, int b, int e)
{
  std::vector<int> r;
  for (int i = b; i < e; i++) {r.push_back(i);}
  std::stable_sort(r.begin(), r.end(), [&](int x, int y) {return c[x] < c[y];});
  return r;
}

// Every result that some order of equal curvatures allows (the statement leaves ties open).
inline bool BlockExplained(
  const Labels & before, const Labels & after, const Links & link, const std::vector<double> & c, int b, int e, int padding,
  double edge, double surface, bool edges = true, bool surfaces = true, long limit = 200000)
{
  // visit orders may differ between the edge pass and the surface pass
  std::vector<int> asc = Ascending(c, b, e);
  std::vector<std::vector<int>> groups;
  for (int i : asc) {if (groups.empty() || c[groups.back()[0]] != c[i]) {groups.push_back({i});} else {groups.back().push_back(i);}}
  std::vector<std::vector<int>> orders;
  std::vector<int> cur;
  std::function<void(size_t)> rec = [&](size_t g) {
      if (static_cast<long>(orders.size()) > limit) {return;}
      if (g == groups.size()) {orders.push_back(cur); return;}
      std::vector<int> p = groups[g];
      std::sort(p.begin(), p.end());
      do {
        const size_t n = cur.size();
        cur.insert(cur.end(), p.begin(), p.end());
        rec(g + 1);
        cur.resize(n);
      } while (std::next_permutation(p.begin(), p.end()));
    };
  rec(0);
  auto block = [&](const Labels & l) {return Labels(l.begin() + b, l.begin() + e);};
  std::vector<Labels> mid;
  for (auto & o : orders) {
    Labels l = before;
    if (edges) {AssignBlock(l, link, c, b, e, padding, edge, surface, o, true, false);}
    if (std::find(mid.begin(), mid.end(), l) == mid.end()) {mid.push_back(l);}
  }
  for (auto & m : mid) {
    if (!surfaces) {if (block(m) == block(after)) {return true;} continue;}
    for (auto & o : orders) {
      Labels l = m;
      AssignBlock(l, link, c, b, e, padding, edge, surface, o, false, true);
      if (block(l) == block(after)) {return true;}
    }
  }
  return false;
}

inline void Occlude(Labels & l, const Links & link, const std::vector<double> & r, int padding, double thr)
{
  const int n = l.size();
  for (int i = 0; i + padding + 2 <= n; i++) {                    // the far side lies to the right
    if (link[i] && r[i + 1] > r[i] + thr) {
      for (int j = i + 1; j <= i + 1 + padding && (j == i + 1 || link[j - 1]); j++) {l[j] = PointLabel::Occluded;}
    }
  }
  for (int i = n - 1; i - padding - 1 >= 0; i--) {                // the far side lies to the left
    if (link[i - 1] && r[i - 1] > r[i] + thr) {
      for (int j = i - 1; j >= i - 1 - padding && (j == i - 1 || link[j]); j--) {l[j] = PointLabel::Occluded;}
    }
  }
}
inline void OutOfRange(Labels & l, const std::vector<double> & r, double min, double max)
{
  for (size_t i = 0; i < l.size(); i++) {if (r[i] < min || r[i] > max) {l[i] = PointLabel::OutOfRange;}}
}
inline void ParallelBeam(Labels & l, const std::vector<double> & r, double ratio)
{
  for (size_t i = 1; i + 1 < l.size(); i++) {
    if (std::abs(r[i - 1] - r[i]) > ratio * r[i] && std::abs(r[i + 1] - r[i]) > ratio * r[i]) {l[i] = PointLabel::ParallelBeam;}
  }
}
}  // namespace ref
#endif

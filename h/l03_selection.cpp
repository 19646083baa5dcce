// L03: selection, views, argsort, stacking.
#include <functional>
#include "mc/mc.hpp"
#include "lidar_feature_library/algorithm.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/random.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_extraction/algorithm.hpp"
#include "lidar_feature_localization/filter.hpp"

static int Kind(std::function<void()> f)
{
  try {f(); return 0;} catch (const std::out_of_range &) {return 2;} catch (const std::invalid_argument &) {return 1;}
}

MC_SCENARIO(by_index)
{
  const int n = ctx.range(0, 4), m = ctx.range(0, mc::tier(4, 5));
  std::vector<int> a(n);
  for (int i = 0; i < n; i++) {a[i] = 100 + 7 * i;}
  std::vector<size_t> idx(m);
  bool bad = false;
  for (auto & i : idx) {i = ctx.choose(n + 2) ; bad = bad || i >= static_cast<size_t>(n);}
  std::vector<int> got;
  const int k = Kind([&] {got = GetByIndices(idx, a);});
  CHECK(k == (bad ? 2 : 0), "GetByIndices(%s) of %d values: error kind %d", mc::vstr(idx).c_str(), n, k);
  if (!bad) {
    CHECK(static_cast<int>(got.size()) == m, "GetByIndices(%s) returns %zu values", mc::vstr(idx).c_str(), got.size());
    for (int i = 0; i < m; i++) {CHECK(got[i] == 100 + 7 * static_cast<int>(idx[i]), "GetByIndices(%s)[%d] = %d", mc::vstr(idx).c_str(), i, got[i]);}
    Eigen::MatrixXd M(n, 3);
    for (int i = 0; i < n; i++) {M.row(i) << i, 10 * i + 1, 100 * i + 2;}
    const Eigen::MatrixXd R = GetRows(M, std::vector<std::uint64_t>(idx.begin(), idx.end()));
    CHECK(R.rows() == m && R.cols() == 3, "GetRows shape %ld x %ld", R.rows(), R.cols());
    for (int i = 0; i < m; i++) {CHECK(R.row(i) == M.row(idx[i]), "GetRows(%s) row %d", mc::vstr(idx).c_str(), i);}
  }
  ctx.step(2);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(by_value)
{
  const int n = ctx.range(0, mc::tier(7, 9));
  std::vector<int> a(n);
  for (auto & v : a) {v = ctx.choose(3);}
  std::vector<bool> flags;
  for (int v : a) {flags.push_back(v != 1);}
  for (int v = 0; v < 4; v++) {
    const auto idx = GetIndicesByValue(a, v);
    std::vector<size_t> e;
    for (int i = 0; i < n; i++) {if (a[i] == v) {e.push_back(i);}}
    CHECK(idx == e, "GetIndicesByValue(%s, %d) = %s", mc::vstr(a).c_str(), v, mc::vstr(idx).c_str());
  }
  std::vector<double> values, expected;
  for (int i = 0; i < n; i++) {values.push_back(i * 1.5); if (flags[i]) {expected.push_back(i * 1.5);}}
  CHECK(Filter(flags, values) == expected, "Filter by %s", mc::vstr(a).c_str());
  ctx.step(5);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(views)
{
  const int n = ctx.range(0, 7), b = ctx.range(0, n), e = ctx.range(b, n);
  const int i = ctx.range(-3, n + 3), j = ctx.range(-1, n);
  std::vector<int> v(n);
  for (int k = 0; k < n; k++) {v[k] = 1000 + k;}
  const std::vector<int> original = v;
  span<int> s(v.begin() + b, v.begin() + e);
  const const_span<int> c(original.begin() + b, original.begin() + e);
  CHECK(s.size() == e - b && c.size() == e - b, "view of [%d, %d) has size %d / %d", b, e, s.size(), c.size());
  CHECK(std::vector<int>(s.begin(), s.end()) == std::vector<int>(v.begin() + b, v.begin() + e), "iteration over the view");
  const bool inside = i >= 0 && i < e - b;
  int got = 0, got2 = 0;
  CHECK(Kind([&] {got = s.at(i);}) == (inside ? 0 : 2), "at(%d) of a view of %d", i, e - b);
  CHECK(Kind([&] {got2 = c.at(i);}) == (inside ? 0 : 2), "const at(%d) of a view of %d", i, e - b);
  if (inside) {CHECK(got == 1000 + b + i && got2 == got, "at(%d) of [%d, %d) reads %d %d", i, b, e, got, got2);}
  const bool wj = j >= 0 && j < e - b;
  CHECK(Kind([&] {s.at(j) = -5;}) == (wj ? 0 : 2), "writing at(%d) of a view of %d", j, e - b);
  for (int k = 0; k < n; k++) {CHECK(v[k] == (wj && k == b + j ? -5 : original[k]), "after at(%d) = -5 through [%d, %d) element %d is %d", j, b, e, k, v[k]);}
  ctx.step(5);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

static void CheckArgsort(mc::Ctx & ctx, const std::vector<double> & v)
{
  const int n = v.size();
  auto check = [&](const std::vector<int> & idx, const std::vector<double> & w, const char * what) {
      std::vector<int> p = idx;
      std::sort(p.begin(), p.end());
      CHECK(p == irange(w.size()), "%s of %zu values is not a permutation: %s", what, w.size(), mc::vstr(idx).c_str());
      for (size_t i = 1; i < idx.size(); i++) {CHECK(w[idx[i - 1]] <= w[idx[i]], "%s of %s: position %zu is out of order", what, w.size() < 20 ? mc::vstr(w).c_str() : "...", i);}
    };
  check(Argsort(v.begin(), v.end()), v, "Argsort");
  for (int b = 0; b <= std::min(n, 2); b++) {
    const std::vector<double> sub(v.begin() + b, v.end());
    const const_span<double> view(v.begin() + b, v.end());
    check(Argsort(view.begin(), view.end()), sub, "Argsort of a view");
  }
  ctx.step(3);
}

MC_SCENARIO(argsort)
{
  const int n = ctx.range(0, mc::tier(7, 8));
  std::vector<double> v(n);
  for (auto & x : v) {x = ctx.pick({0., -1., 2.5, 1e300});}
  CheckArgsort(ctx, v);
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(argsort_long)
{
  const int n = ctx.range(8, mc::tier(200, 700)), kind = ctx.choose(5);
  std::vector<double> v(n);
  for (int i = 0; i < n; i++) {v[i] = kind == 0 ? i : kind == 1 ? -i : kind == 2 ? i % 3 : kind == 3 ? (i * 7919) % 101 : 0;}
  CheckArgsort(ctx, v);
  const auto r = irange(n);
  CHECK(static_cast<int>(r.size()) == n, "irange(%d) has %zu values", n, r.size());
  for (int i = 0; i < n; i++) {CHECK(r[i] == i, "irange(%d)[%d]", n, i);}
  std::vector<size_t> p = RandomizedUniqueIndices(n - 8);
  std::sort(p.begin(), p.end());
  CHECK(static_cast<int>(p.size()) == n - 8, "RandomizedUniqueIndices(%d) has %zu values", n - 8, p.size());
  for (size_t i = 0; i < p.size(); i++) {CHECK(p[i] == i, "RandomizedUniqueIndices(%d) is not a permutation", n - 8);}
  ctx.outcome(mc::mix(n, kind));
}

// sizes around those where storage grows or work is split
static const std::vector<int> kSizes{5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000};
MC_SCENARIO(selection_of_many)
{
  const int n = ctx.pick(kSizes), kind = ctx.choose(6);
  std::vector<int> a(n); std::vector<size_t> idx; bool bad = false;
  for (int i = 0; i < n; i++) {a[i] = 3 * i + 1;}
  for (int i = 0; i < n; i++) {
    if (kind == 0) {idx.push_back(i);} else if (kind == 1) {idx.push_back(n - 1 - i);} else if (kind == 2) {idx.push_back((i * 7919) % n);} else if (kind == 3) {idx.push_back(n / 2); idx.push_back(i);} else if (i % 3) {idx.push_back(i);}
  }
  if (kind == 5) {idx.push_back(n); bad = true;}
  std::vector<int> got;
  const int k = Kind([&] {got = GetByIndices(idx, a);});
  CHECK(k == (bad ? 2 : 0), "GetByIndices of %zu indices of %d values: error kind %d", idx.size(), n, k);
  if (!bad) {
    CHECK(got.size() == idx.size(), "%zu values for %zu indices", got.size(), idx.size());
    for (size_t i = 0; i < idx.size(); i++) {CHECK(got[i] == a[idx[i]], "GetByIndices of %zu: value %zu", idx.size(), i);}
    Eigen::MatrixXd M(n, 3); for (int i = 0; i < n; i++) {M.row(i) << i, 10 * i + 1, 100 * i + 2;}
    const Eigen::MatrixXd R = GetRows(M, std::vector<std::uint64_t>(idx.begin(), idx.end()));
    CHECK(R.rows() == static_cast<int>(idx.size()) && R.cols() == 3, "GetRows shape %ld x %ld", R.rows(), R.cols());
    for (size_t i = 0; i < idx.size(); i++) {CHECK(R.row(i) == M.row(idx[i]), "GetRows of %zu: row %zu", idx.size(), i);}
  }
  std::vector<int> labels(n); std::vector<bool> flags(n); std::vector<double> values(n), kept;
  for (int i = 0; i < n; i++) {labels[i] = kind == 0 ? 2 : kind == 1 ? i % 3 : (i * i) % 5; flags[i] = labels[i] != 1; values[i] = i * 1.5; if (flags[i]) {kept.push_back(values[i]);}}
  for (int v = 0; v < 4; v++) {
    std::vector<size_t> e; for (int i = 0; i < n; i++) {if (labels[i] == v) {e.push_back(i);}}
    CHECK(GetIndicesByValue(labels, v) == e, "GetIndicesByValue of %d", n);
  }
  CHECK(Filter(flags, values) == kept, "Filter of %d", n);
  ctx.step(4); ctx.outcome(mc::mix(n, kind));
}
MC_SCENARIO(views_of_many)
{
  const int n = ctx.pick(kSizes), b = ctx.pick({0, 1, 3, n / 2, n - 1}), e = ctx.pick({n, n - 1, b, b + (n - b) / 2});
  if (e < b) {return;}
  std::vector<int> v(n); for (int k = 0; k < n; k++) {v[k] = 1000 + k;}
  const std::vector<int> original = v;
  span<int> s(v.begin() + b, v.begin() + e); const const_span<int> c(original.begin() + b, original.begin() + e);
  CHECK(s.size() == e - b && c.size() == e - b, "view of [%d, %d) has size %d / %d", b, e, s.size(), c.size());
  for (int i = -2; i < n + 2; i++) {
    int got = 0, got2 = 0; const bool inside = i >= 0 && i < e - b;
    CHECK(Kind([&] {got = s.at(i);}) == (inside ? 0 : 2) && Kind([&] {got2 = c.at(i);}) == (inside ? 0 : 2), "at(%d) of a view of %d", i, e - b);
    if (inside) {CHECK(got == 1000 + b + i && got2 == got, "at(%d) of [%d, %d) reads %d %d", i, b, e, got, got2); s.at(i) = -got;}
  }
  for (int k = 0; k < n; k++) {CHECK(v[k] == (k >= b && k < e ? -original[k] : original[k]), "after writing through [%d, %d) element %d is %d", b, e, k, v[k]);}
  ctx.step(n); ctx.outcome(mc::mix(n, b * 10000 + e));
}
MC_SCENARIO(stacking_of_many)
{
  const int n = ctx.pick(kSizes), kind = ctx.choose(2);
  std::vector<Eigen::Vector3d> vs; std::vector<Eigen::Matrix<double, 3, 7>> ws; std::vector<double> ds;
  for (int i = 0; i < n; i++) {
    const double k = kind ? i : -0.5 * (i % 7);
    vs.push_back({k, i, 3.5}); ds.push_back(k);
    Eigen::Matrix<double, 3, 7> w; for (int r = 0; r < 3; r++) {for (int c = 0; c < 7; c++) {w(r, c) = 100 * i + 10 * r + c + k;}} ws.push_back(w);
  }
  const Eigen::MatrixXd V = VectorsToEigen<3>(vs), W = HorizontalStack<3, 7>(ws); const Eigen::VectorXd d = VectorToEigen(ds);
  CHECK(V.rows() == n && V.cols() == 3 && W.rows() == 3 * n && W.cols() == 7 && d.size() == n, "shapes for %d", n);
  for (int i = 0; i < n; i++) {CHECK(V.row(i).transpose() == vs[i] && (W.block<3, 7>(3 * i, 0) == ws[i]) && d(i) == ds[i], "row %d of %d", i, n);}
  ctx.step(n); ctx.outcome(mc::mix(n, kind));
}
MC_SCENARIO(sort_three)
{
  static const std::vector<double> a{0., -0.5, 1., 2., 1e9, -1e9};
  Eigen::Vector3d v(ctx.pick(a), 0, 0); v(1) = ctx.pick(a); v(2) = ctx.pick(a);
  std::vector<double> e{v(0), v(1), v(2)};
  std::sort(e.begin(), e.end());
  const Eigen::Vector3d s = SortThreeValues(v);
  CHECK(s(0) == e[0] && s(1) == e[1] && s(2) == e[2], "SortThreeValues(%s) = %s", mc::mstr(v.transpose()).c_str(), mc::mstr(s.transpose()).c_str());
  ctx.step();
  ctx.outcome(mc::hash_str(ctx.trace()));
}

MC_SCENARIO(stacking)
{
  const int n = ctx.range(0, mc::tier(5, 6));
  std::vector<Eigen::Vector3d> vs; std::vector<Eigen::Matrix<double, 2, 3>> ms; std::vector<Eigen::Matrix<double, 3, 7>> ws;
  std::vector<double> ds;
  for (int i = 0; i < n; i++) {
    const double k = ctx.pick({1., -4., 0.});
    vs.push_back({k, i, 3.5});
    Eigen::Matrix<double, 2, 3> m; m << k, 1, 2, 3, 4 * i, 5; ms.push_back(m);
    Eigen::Matrix<double, 3, 7> w; for (int r = 0; r < 3; r++) {for (int c = 0; c < 7; c++) {w(r, c) = 100 * i + 10 * r + c + k;}} ws.push_back(w);
    ds.push_back(k + i);
  }
  const Eigen::MatrixXd V = VectorsToEigen<3>(vs);
  CHECK(V.rows() == n && V.cols() == 3, "VectorsToEigen shape %ld x %ld", V.rows(), V.cols());
  for (int i = 0; i < n; i++) {CHECK(V.row(i).transpose() == vs[i], "VectorsToEigen row %d", i);}
  const Eigen::MatrixXd M = HorizontalStack<2, 3>(ms), W = HorizontalStack<3, 7>(ws);
  CHECK(M.rows() == 2 * n && M.cols() == 3 && W.rows() == 3 * n && W.cols() == 7, "HorizontalStack shape");
  for (int i = 0; i < n; i++) {
    CHECK((M.block<2, 3>(2 * i, 0) == ms[i]), "HorizontalStack block %d", i);
    CHECK((W.block<3, 7>(3 * i, 0) == ws[i]), "HorizontalStack block %d", i);
  }
  const Eigen::VectorXd d = VectorToEigen(ds);
  CHECK(d.size() == n, "VectorToEigen size");
  for (int i = 0; i < n; i++) {CHECK(d(i) == ds[i], "VectorToEigen element %d", i);}
  ctx.step(4);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

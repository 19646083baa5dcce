// N01: nearest-neighbour search against exhaustive distance computation.
#include "mc/mc.hpp"
#include "lidar_feature_localization/kdtree.hpp"
#include "lidar_feature_localization/pointcloud_to_matrix.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"

static void Check(mc::Ctx & ctx, const KDTreeEigen & tree, const Eigen::MatrixXd & map, const Eigen::VectorXd & query, int k, const std::string & what)
{
  const Eigen::VectorXd q0 = query;
  const auto [X, dist] = tree.NearestKSearch(query, k);
  CHECK(query == q0, "%s: the query was modified", what.c_str());
  CHECK(X.rows() == k && X.cols() == map.cols() && static_cast<int>(dist.size()) == k, "%s: k = %d gives %ld rows of %ld, %zu distances", what.c_str(), k, static_cast<long>(X.rows()), static_cast<long>(X.cols()), dist.size());
  std::vector<double> all;
  for (int i = 0; i < map.rows(); i++) {all.push_back((map.row(i).transpose() - query).squaredNorm());}
  std::vector<double> sorted = all;
  std::sort(sorted.begin(), sorted.end());
  std::vector<bool> used(map.rows(), false);
  for (int i = 0; i < k; i++) {
    CHECK(mc::close(dist[i], sorted[i], 1e-12, 1e-300), "%s query %s: distance %d of %d is %.17g, expected %.17g", what.c_str(), mc::mstr(query).c_str(), i, k, dist[i], sorted[i]);
    CHECK(i == 0 || dist[i] >= dist[i - 1], "%s query %s: distances are not in order", what.c_str(), mc::mstr(query).c_str());
    bool found = false;
    for (int j = 0; j < map.rows() && !found; j++) {
      if (!used[j] && map.row(j) == X.row(i) && mc::close(all[j], dist[i], 1e-12, 1e-300)) {used[j] = found = true;}
    }
    CHECK(found, "%s query %s: row %d of %d, %s at distance %g, is not an unused map row", what.c_str(), mc::mstr(query).c_str(), i, k, mc::mstr(X.row(i)).c_str(), dist[i]);
  }
  ctx.step();
}

// every map of up to n lattice points in d dimensions, every query of a finer lattice, every k, several leaf sizes
MC_SCENARIO(small_maps)
{
  const int dims = ctx.range(1, 3), n = ctx.range(1, mc::tier(4, 5)), leaf = ctx.pick({1, 2, 10});
  const int per = dims == 1 ? 4 : dims == 2 ? 6 : 8;
  Eigen::MatrixXd map(n, dims);
  for (int i = 0; i < n; i++) {
    const int c = ctx.choose(per);
    static const double a[4] = {0, 1, 1.5, -7};
    for (int d = 0; d < dims; d++) {map(i, d) = dims == 1 ? a[c] : dims == 2 ? (d == 0 ? c % 3 : (c / 3) * 2.) : (c >> d & 1) * (1. + d);}
  }
  // The installed nanoflann 1.5.4 itself reads past its index when more than leaf equal points have a negative coordinate.
  for (int i = 0; i < n; i++) {
    int same = 0;
    for (int j = 0; j < n; j++) {same += map.row(i) == map.row(j);}
    if (same > leaf && map.row(i).minCoeff() < 0) {ctx.count("third-party defect avoided"); ctx.prune();}
  }
  const KDTreeEigen tree(map, leaf);
  const std::string what = mc::format("map %s leaf %d", mc::mstr(map).c_str(), leaf);
  for (int qi = 0; qi < (dims == 1 ? 6 : dims == 2 ? 9 : 8); qi++) {
    Eigen::VectorXd q(dims);
    for (int d = 0; d < dims; d++) {q(d) = dims == 1 ? qi * 0.75 - 2 : dims == 2 ? (d == 0 ? qi % 3 * 1.2 - .3 : qi / 3 * 1.7 - .6) : (qi >> d & 1) * 1.9 - .35 * d;}
    for (int k = 1; k <= n; k++) {Check(ctx, tree, map, q, k, what);}
    if (qi == 2) {for (int i = 0; i < n; i++) {Check(ctx, tree, map, map.row(i).transpose(), n, what);}}
  }
  ctx.outcome(mc::hash_str(what));
}

static Eigen::MatrixXd Pattern(int kind, int n, int dims)
{
  Eigen::MatrixXd m(n, dims);
  for (int i = 0; i < n; i++) {
    for (int d = 0; d < dims; d++) {
      switch (kind) {
        case 0: m(i, d) = std::sin(i * 12.9898 + d * 78.233) * 10; break;      // scattered
        case 1: m(i, d) = (i / static_cast<int>(std::pow(4, d))) % 4; break;  // lattice with repeats
        case 2: m(i, d) = d == 0 ? i * 0.1 : d == 1 ? 3 : -1; break;           // line
        case 3: m(i, d) = 5; break;                                            // all equal
        case 4: m(i, d) = (i % 2 ? 1e5 : 0) + 0.01 * i * (d + 1); break;       // two far clusters
        case 5: m(i, d) = d == 2 ? 0 : std::cos(i * 1.7 + d) * (1 + i * .2); break;   // flat spiral
        default: m(i, d) = (d == dims - 1) ? i : 0; break;
      }
    }
  }
  return m;
}
MC_SCENARIO(patterns)
{
  const int kind = ctx.choose(7), dims = ctx.range(1, 4);
  static const int ns[] = {1, 2, 9, 10, 11, 12, 30, 65, 300};
  const int n = ns[ctx.choose(mc::tier(8, 9))], leaf = ctx.pick({1, 3, 10, 64}), order = ctx.choose(3);
  Eigen::MatrixXd map = Pattern(kind, n, dims);
  Eigen::MatrixXd given(n, dims);
  for (int i = 0; i < n; i++) {given.row(i) = map.row(order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n);}
  if (order == 2 && n % 7 == 0) {ctx.prune();}
  const Eigen::MatrixXd copy = given;
  const KDTreeEigen tree(given, leaf);
  given.setConstant(1e9);      // the caller reuses its matrix
  const std::string what = mc::format("pattern %d, %d points, %d dimensions, leaf %d", kind, n, dims, leaf);
  for (int qi = 0; qi < 6; qi++) {
    Eigen::VectorXd q(dims);
    for (int d = 0; d < dims; d++) {q(d) = qi == 0 ? 0 : qi == 1 ? map(n / 2, d) : qi == 2 ? map(n - 1, d) + 0.3 : qi == 3 ? 1e6 : -4 + qi * 1.37 * (d + 1);}
    for (int k : {1, 2, 5, 15, 16, n}) {if (k <= n) {Check(ctx, tree, copy, q, k, what);}}
  }
  ctx.outcome(mc::hash_str(what) + order);
}

// clouds: the matrix holds exactly the coordinates, and the tree survives the cloud
MC_SCENARIO(clouds)
{
  const int n = ctx.range(1, mc::tier(3, 4));
  const float a[] = {0.1f, -3.f, 1e4f};
  pcl::PointCloud<PointXYZCR>::Ptr c(new pcl::PointCloud<PointXYZCR>());
  pcl::PointCloud<pcl::PointXYZ>::Ptr b(new pcl::PointCloud<pcl::PointXYZ>());
  Eigen::MatrixXd E(n, 4);
  for (int i = 0; i < n; i++) {
    PointXYZCR p; p.x = a[ctx.choose(3)]; p.y = a[ctx.choose(3)]; p.z = 2.5f * i; p.curvature = a[ctx.choose(2)]; p.ring = 7;
    c->push_back(p); b->push_back(pcl::PointXYZ(p.x, p.y, p.z));
    E.row(i) << p.x, p.y, p.z, p.curvature;
  }
  CHECK((PointCloudToMatrix<PointXYZCRToVector, PointXYZCR>(c) == E), "cloud to matrix (x, y, z, curvature)");
  CHECK((PointCloudToMatrix<PointXYZCRToXYZVector, PointXYZCR>(c) == E.leftCols(3)), "cloud to matrix (x, y, z of a feature cloud)");
  CHECK((PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(b) == E.leftCols(3)), "cloud to matrix (x, y, z)");
  auto t4 = MakeKDTree<PointXYZCRToVector, PointXYZCR>(c);
  auto t3 = MakeKDTree<PointXYZToVector, pcl::PointXYZ>(b);
  c->clear(); (*b)[0].x = 77; b.reset();
  for (int k = 1; k <= n; k++) {
    Check(ctx, *t4, E, E.row(n - 1).transpose() * 1.1, k, "feature cloud");
    Check(ctx, *t3, E.leftCols(3), Eigen::Vector3d(1, 2, 3), k, "cloud");
  }
  ctx.outcome(mc::hash_str(mc::mstr(E)));
}
// searches are independent of earlier searches on the same tree, and trees of each other
MC_SCENARIO(histories)
{
  const Eigen::MatrixXd m1 = Pattern(0, 20, 3), m2 = Pattern(4, 20, 3);
  const KDTreeEigen t1(m1, 10), t2(m2, 2);
  const int len = mc::tier(4, 5);
  for (int i = 0; i < len; i++) {
    const bool first = ctx.flag();
    const int q = ctx.choose(3), k = ctx.pick({1, 7, 20});
    const Eigen::Vector3d query = q == 0 ? Eigen::Vector3d(0, 0, 0) : q == 1 ? Eigen::Vector3d(1e5, 1e5, 1e5) : Eigen::Vector3d(-4, 3, 1);
    Check(ctx, first ? t1 : t2, first ? m1 : m2, query, k, "history");
  }
  ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

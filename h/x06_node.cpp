// X06: the feature extraction node, topic in / topic out, against a reference pipeline.
#include <functional>
#include <iostream>
#include "mc/mc.hpp"
#define main feature_extraction_main
#include "extraction/app/feature_extraction.cpp"
#undef main
#include "ref_extraction.hpp"

struct Params {int padding = 5; double degree = 2, occl = .3, parallel = .02, edge = .05, surface = .05, min = .1, max = 100; int blocks = 6;};
struct Pt {float x, y, z, intensity; uint16_t ring;};
using Key = std::array<float, 3>;
using ColorKey = std::array<float, 6>;
struct Expected {std::vector<Key> edge, surface; std::vector<ColorKey> colored; std::set<int> fragile;};   // rings whose labels the statement leaves open

static Expected Reference(const std::vector<Pt> & scan, const Params & p)
{
  Expected e;
  std::map<int, std::vector<int>> rings;
  for (size_t i = 0; i < scan.size(); i++) {rings[scan[i].ring].push_back(i);}
  for (auto & [ring, idx] : rings) {
    const int n = idx.size();
    auto azimuth = [&](int i) {return std::atan2(static_cast<double>(scan[i].y == 0 ? 0.f : scan[i].y), static_cast<double>(scan[i].x));};
    std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) {return azimuth(a) < azimuth(b);});
    if (n < 2 * p.padding + 1 || n - 2 * p.padding < p.blocks || (n - 2 * p.padding) / p.blocks < 2) {continue;}
    std::vector<double> r(n), c(n, 0.);
    for (int i = 0; i < n; i++) {r[i] = std::hypot(static_cast<double>(scan[idx[i]].x), static_cast<double>(scan[idx[i]].y));}
    ref::Links link(n - 1);
    bool no_angle = false, fragile = false;
    for (int i = 0; i + 1 < n; i++) {
      if (r[i] == 0 && r[i + 1] == 0) {no_angle = true;}
      const double a = std::fabs(azimuth(idx[i + 1]) - azimuth(idx[i])), d = std::min(a, 2 * M_PI - a);
      link[i] = r[i] > 0 && r[i + 1] > 0 && d < p.degree * M_PI / 180;
      if (std::fabs(d - p.degree * M_PI / 180) < 1e-4) {fragile = true;}
      if (d < 1e-7 && (r[i] > 0 || r[i + 1] > 0)) {fragile = true;}   // equal azimuth: the order is open
    }
    if (no_angle) {if (fragile) {e.fragile.insert(ring);} continue;}
    for (int i = p.padding; i < n - p.padding; i++) {
      double s = -2. * p.padding * r[i];
      for (int j = 1; j <= p.padding; j++) {s += r[i - j] + r[i + j];}
      c[i] = s * s;
    }
    ref::Labels l(n, PointLabel::Default);
    const int usable = n - 2 * p.padding;
    int b = p.padding;
    for (int j = 0; j < p.blocks; j++) {
      const int end = p.padding + static_cast<int>(static_cast<long>(usable) * (j + 1) / p.blocks);
      std::vector<int> asc = ref::Ascending(c, b, end);
      for (size_t k = 1; k < asc.size(); k++) {
        // equal curvatures leave the order open unless both are labelled the same way whatever comes first
        if (c[asc[k]] - c[asc[k - 1]] < 1e-9 * (1e-3 + c[asc[k]])) {fragile = true;}
      }
      for (int k = b; k < end; k++) {if (std::fabs(c[k] - p.edge) < 1e-7 || std::fabs(c[k] - p.surface) < 1e-7) {fragile = true;}}
      ref::AssignBlock(l, link, c, b, end, p.padding, p.edge, p.surface, asc);
      b = end;
    }
    for (int i = 0; i + 1 < n; i++) {
      const double d = std::fabs(r[i + 1] - r[i]);
      if (std::fabs(d - p.occl) < 1e-6 || std::fabs(d - p.parallel * r[i]) < 1e-5 || std::fabs(d - p.parallel * r[i + 1]) < 1e-5) {fragile = true;}
    }
    for (int i = 0; i < n; i++) {if (std::fabs(r[i] - p.min) < 1e-6 || std::fabs(r[i] - p.max) < 1e-6) {fragile = true;}}
    ref::Occlude(l, link, r, p.padding, p.occl);
    ref::OutOfRange(l, r, p.min, p.max);
    ref::ParallelBeam(l, r, p.parallel);
    if (fragile) {e.fragile.insert(ring); continue;}
    for (int i = 0; i < n; i++) {
      const Pt & q = scan[idx[i]];
      if (l[i] == PointLabel::Edge) {e.edge.push_back({q.x, q.y, q.z});}
      if (l[i] == PointLabel::Surface) {e.surface.push_back({q.x, q.y, q.z});}
      static const float rgb[8][3] = {{255, 255, 255}, {255, 0, 0}, {255, 63, 0}, {255, 0, 0}, {255, 63, 0}, {127, 127, 127}, {255, 0, 255}, {0, 255, 0}};
      const float * k = rgb[static_cast<int>(l[i])];
      e.colored.push_back({q.x, q.y, q.z, k[0], k[1], k[2]});
    }
  }
  std::sort(e.edge.begin(), e.edge.end()); std::sort(e.surface.begin(), e.surface.end()); std::sort(e.colored.begin(), e.colored.end());
  return e;
}

static sensor_msgs::msg::PointCloud2 Message(const std::vector<Pt> & scan, int layout, int sec, uint32_t nsec, int rows = 1, int row_pad = 0)
{
  struct L {uint32_t step, x, y, z, i, r; bool extra;};
  static const L ls[] = {{32, 0, 4, 8, 16, 20, false}, {18, 0, 4, 8, 12, 16, false}, {48, 8, 16, 24, 32, 40, true}, {22, 10, 14, 18, 2, 0, false}};
  const L & l = ls[layout];
  sensor_msgs::msg::PointCloud2 m;
  m.header.stamp.sec = sec; m.header.stamp.nanosec = nsec; m.header.frame_id = "velodyne";
  m.height = rows; m.width = scan.size() / rows; m.point_step = l.step; m.row_step = l.step * m.width + row_pad; m.is_dense = true;
  auto field = [&](const char * n, uint32_t o, uint8_t t) {sensor_msgs::msg::PointField f; f.name = n; f.offset = o; f.datatype = t; f.count = 1; m.fields.push_back(f);};
  field("x", l.x, 7); field("y", l.y, 7); field("z", l.z, 7); field("intensity", l.i, 7); field("ring", l.r, 4);
  if (l.extra) {field("time", 0, 7);}
  m.data.assign(static_cast<size_t>(m.row_step) * rows, 0xAB);
  for (size_t k = 0; k < scan.size(); k++) {
    uint8_t * b = m.data.data() + k / m.width * m.row_step + k % m.width * l.step;
    memcpy(b + l.x, &scan[k].x, 4); memcpy(b + l.y, &scan[k].y, 4); memcpy(b + l.z, &scan[k].z, 4);
    memcpy(b + l.i, &scan[k].intensity, 4); memcpy(b + l.r, &scan[k].ring, 2);
  }
  return m;
}

static std::vector<Key> Xyz(const sensor_msgs::msg::PointCloud2 & m)
{
  pcl::PointCloud<pcl::PointXYZ> c; pcl::fromROSMsg(m, c);
  std::vector<Key> r; for (auto & p : c) {r.push_back({p.x, p.y, p.z});}
  std::sort(r.begin(), r.end());
  return r;
}
static std::vector<ColorKey> Rgb(const sensor_msgs::msg::PointCloud2 & m)
{
  pcl::PointCloud<pcl::PointXYZRGB> c; pcl::fromROSMsg(m, c);
  std::vector<ColorKey> r; for (auto & p : c) {r.push_back({p.x, p.y, p.z, float(p.r), float(p.g), float(p.b)});}
  std::sort(r.begin(), r.end());
  return r;
}

// Ring shapes as range over azimuth; a deterministic ripple keeps curvatures distinct.
static double Shape(int shape, double a, int i, int n, int salt)
{
  const double ripple = 1e-3 * std::sin(12.9898 * i + 78.233 * salt + 0.37 * i * i);
  switch (shape) {
    case 0: return 6 + ripple;                                                          // circle
    case 1: return std::min(40., 3. / std::max(0.03, std::fabs(std::cos(a)))) + ripple; // two walls
    case 2: return (i * 8 / n) % 2 ? 4 + ripple : 7 + 3 * ripple;                       // depth jumps
    case 3: return 5 + (i % 7 == 3 ? .4 : 0) + ripple;                                  // spikes: parallel beams
    case 4: return i * 3 / n == 1 ? .05 + 1e-3 * (i % 5) : 9 + 20 * ripple;             // too near in the middle
    case 5: return i * 4 / n == 2 ? 120 + ripple : 12 + 40 * ripple;                    // too far in one quarter
    case 6: return 3 / std::max(std::fabs(std::cos(a)), std::fabs(std::sin(a))) + ripple;  // square room: corners
    default: return 8 + .12 * ((i * 5) % 3) + ripple;                                   // rough
  }
}

// n points over an arc (degrees); arc gaps above the neighbour threshold when n is small
static void AddRing(std::vector<Pt> & scan, int ring, int shape, int n, double from, double arc, int salt)
{
  for (int i = 0; i < n; i++) {
    const double a = (from + arc * i / n) * M_PI / 180;
    const double r = Shape(shape, a, i, n, salt);
    scan.push_back({static_cast<float>(r * std::cos(a)), static_cast<float>(r * std::sin(a)),
        static_cast<float>(ring + i * 1e-3), static_cast<float>(i), static_cast<uint16_t>(ring)});
  }
}
static void Reorder(std::vector<Pt> & s, int how)
{
  if (how == 1) {std::reverse(s.begin(), s.end());}
  if (how == 2) {std::stable_sort(s.begin(), s.end(), [](const Pt & a, const Pt & b) {return a.intensity < b.intensity;});}  // column by column
  if (how == 3) {std::vector<Pt> t; const size_t n = s.size(); for (size_t i = 0; i < n; i++) {t.push_back(s[(i * 7919) % n]);} if (n % 7919) {s = t;}}
  if (how == 4) {std::rotate(s.begin(), s.begin() + s.size() / 3, s.end());}
}
static Params ParamSet(int k)
{
  Params p;
  if (k == 1) {p.padding = 2; p.blocks = 3; p.edge = .01; p.surface = .002; p.degree = 4;}
  if (k == 2) {p.padding = 1; p.blocks = 1; p.min = 4.5; p.max = 8.5; p.occl = 2; p.parallel = .005; p.edge = .02; p.surface = .1;}
  if (k == 3) {p.padding = 3; p.blocks = 10; p.edge = 1; p.surface = .0001; p.degree = .9; p.parallel = .3;}
  return p;
}
static void SetParams(const Params & p)
{
  auto & q = shim::world().params;
  q["convolution_padding"] = int64_t(p.padding); q["n_blocks"] = int64_t(p.blocks); q["neighbor_degree_threshold"] = p.degree;
  q["distance_diff_threshold"] = p.occl; q["parallel_beam_min_range_ratio"] = p.parallel; q["edge_threshold"] = p.edge;
  q["surface_threshold"] = p.surface; q["min_range"] = p.min; q["max_range"] = p.max;
}

template<class T> static std::string First(const std::vector<T> & a, const std::vector<T> & b)
{
  std::vector<T> d;
  std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
  return d.empty() ? "(multiplicity)" : mc::vstr(std::vector<float>(d[0].begin(), d[0].end()));
}

static bool g_same_order = true;
static void Deliver(mc::Ctx & ctx, const std::vector<Pt> & scan, const Params & p, int layout, int sec, uint32_t nsec, int rows = 1, int row_pad = 0)
{
  auto & w = shim::world();
  w.sent.clear();
  const auto msg = Message(scan, layout, sec, nsec, rows, row_pad);
  const int n = shim::deliver("points_raw", msg);
  CHECK(n == 1, "points_raw has %d subscriptions", n);
  ctx.step();
  CHECK(!w.shutdown, "the node shut down on a dense scan with a ring channel");
  const auto colored = shim::sent<sensor_msgs::msg::PointCloud2>("colored_scan");
  const auto edge = shim::sent<sensor_msgs::msg::PointCloud2>("scan_edge");
  const auto surface = shim::sent<sensor_msgs::msg::PointCloud2>("scan_surface");
  CHECK(colored.size() == 1 && edge.size() == 1 && surface.size() == 1 && w.sent.size() == 3,
    "one scan produced %zu coloured, %zu edge and %zu surface clouds, %zu messages", colored.size(), edge.size(), surface.size(), w.sent.size());
  for (auto & m : {colored[0], edge[0], surface[0]}) {
    CHECK(m->header.stamp.sec == sec && m->header.stamp.nanosec == nsec, "stamp %d.%09u, the scan's is %d.%09u",
      m->header.stamp.sec, m->header.stamp.nanosec, sec, nsec);
    CHECK(m->header.frame_id == "lidar_feature_base_link", "frame '%s'", m->header.frame_id.c_str());
  }
  const Expected e = Reference(scan, p);
  auto ge = Xyz(*edge[0]), gs = Xyz(*surface[0]);
  auto gc = Rgb(*colored[0]);
  // holds whatever the order of equal curvatures
  std::set<Key> input;
  for (auto & q : scan) {input.insert({q.x, q.y, q.z});}
  for (auto & k : ge) {
    CHECK(input.count(k), "edge point (%g %g %g) is not an input point", k[0], k[1], k[2]);
    CHECK(!std::binary_search(gs.begin(), gs.end(), k), "point (%g %g %g) is both edge and surface", k[0], k[1], k[2]);
  }
  for (auto & k : gs) {CHECK(input.count(k), "surface point (%g %g %g) is not an input point", k[0], k[1], k[2]);}
  if (!e.fragile.empty()) {
    ctx.count("fragile_rings", e.fragile.size());
    std::set<Key> open;
    for (auto & q : scan) {if (e.fragile.count(q.ring)) {open.insert({q.x, q.y, q.z});}}
    auto drop = [&](auto & v) {v.erase(std::remove_if(v.begin(), v.end(), [&](const auto & k) {return open.count({k[0], k[1], k[2]}) > 0;}), v.end());};
    drop(ge); drop(gs); drop(gc);
  }
  ctx.count("compared_points", e.colored.size());
  CHECK(gc.size() == e.colored.size(), "%zu coloured points, expected %zu", gc.size(), e.colored.size());
  CHECK(ge == e.edge, "%zu edge points, expected %zu; first difference %s", ge.size(), e.edge.size(), First(ge, e.edge).c_str());
  CHECK(gs == e.surface, "%zu surface points, expected %zu; first difference %s", gs.size(), e.surface.size(), First(gs, e.surface).c_str());
  CHECK(gc == e.colored, "coloured points differ, first difference %s", First(gc, e.colored).c_str());
  ctx.count("edge_points", ge.size()); ctx.count("surface_points", gs.size());
  uint64_t h = 1;
  for (auto & k : gc) {for (float v : k) {h = mc::hash_double(h, v);}}
  ctx.outcome(h);
}

static void Run(mc::Ctx & ctx, const Params & p, std::function<void()> body)
{
  shim::reset();
  SetParams(p);
  bool spun = false;
  shim::world().on_spin = [&] {spun = true; body();};
  char * argv[] = {nullptr};
  feature_extraction_main(0, argv);
  CHECK(spun, "the program does not spin its node");
}

static std::vector<int> Sizes(const Params & p)
{
  return {1, 2, p.padding, p.padding + 1, 2 * p.padding, 2 * p.padding + 1, 2 * p.padding + p.blocks - 1, 2 * p.padding + p.blocks,
    2 * p.padding + 2 * p.blocks - 1, 2 * p.padding + 2 * p.blocks, 2 * p.padding + 2 * p.blocks + 1, 90, 181};
}

// every shape and size of a single ring, and the same ring among others
MC_SCENARIO(rings)
{
  const int set = ctx.choose(4);
  const Params p = ParamSet(set);
  const std::vector<int> sizes = Sizes(p);
  const int n = sizes[ctx.choose(sizes.size())], shape = ctx.choose(8);
  const int ring = ctx.pick({0, 15, 300}), order = ctx.choose(5), arc = ctx.pick({0, 1, 2});
  ctx.note("parameters %d, ring %d of %d points, shape %d, order %d, arc %d", set, ring, n, shape, order, arc);
  Run(ctx, p, [&] {
      std::vector<Pt> scan;
      AddRing(scan, ring, shape, n, arc == 0 ? -179.3 : 10.1, arc == 0 ? 360 : arc == 1 ? n * .5 : n * 1.7 > 350 ? 350 : n * 1.7, shape);
      Reorder(scan, order);
      Deliver(ctx, scan, p, order % 4, 100 + n, 999999999);
    });
}

// several rings at once, in every combination, and two scans in a row
MC_SCENARIO(combinations)
{
  const int set = ctx.choose(2);
  const Params p = ParamSet(set);
  struct R {int shape, n; double from, arc;};
  const std::vector<R> menu = {{0, 120, -180, 360}, {6, 181, -179.9, 360}, {2, 90, 3, 200}, {3, p.padding, 0, 10}, {3, 2 * p.padding + p.blocks, 0, 20},
    {5, 2 * p.padding + 2 * p.blocks, 100, 150}, {4, 90, 0, 100}};
  const int n_rings = ctx.range(0, mc::tier(2, 3));
  const int order = ctx.choose(mc::tier(3, 5));
  std::vector<Pt> scan;
  for (int k = 0; k < n_rings; k++) {
    const R & r = menu[ctx.choose(menu.size())];
    AddRing(scan, k * 13 + (k == 2 ? 65000 : 0), r.shape, r.n, r.from, r.arc, k + 1);
  }
  const int zeros = ctx.choose(3);                          // 0, 1 or 2 points at the origin in the first ring
  for (int k = 0; k < zeros && n_rings; k++) {scan.push_back({0, 0, 50.f + k, 1e6f, 0});}
  Reorder(scan, order);
  const bool twice = ctx.flag();
  ctx.note("parameters %d, %zu points in %d rings, order %d, %d origin points, twice %d", set, scan.size(), n_rings, order, zeros, twice);
  Run(ctx, p, [&] {
      Deliver(ctx, scan, p, (n_rings + order) % 4, 7, 5);
      if (twice) {
        std::vector<Pt> second;
        AddRing(second, 13, 6, 150, -180, 360, 9);
        Deliver(ctx, second, p, 0, 8, 0);
        Deliver(ctx, scan, p, 1, 2147483647, 1);
      }
    });
}

// defaults of the parameters are the documented ones; wiring of the topics
MC_SCENARIO(defaults)
{
  const int shape = ctx.choose(8);
  shim::reset();
  shim::world().on_spin = [&] {
      std::vector<Pt> scan;
      AddRing(scan, 1, shape, 150, -180, 360, 3);
      AddRing(scan, 2, (shape + 3) % 8, 200, -180, 360, 5);
      Deliver(ctx, scan, Params(), 0, 1, 2);
      for (auto & pub : shim::world().pubs) {CHECK(pub.type == typeid(sensor_msgs::msg::PointCloud2), "topic %s has another type", pub.topic.c_str());}
    };
  char * argv[] = {nullptr};
  feature_extraction_main(0, argv);
}
// organized clouds: a row per ring, a row per column, rows with padding; drivers send both
MC_SCENARIO(organized)
{
  const int rings = ctx.pick({2, 3, 4}), n = ctx.pick({60, 181}), how = ctx.choose(4), pad = ctx.pick({0, 3, 64}), layout = ctx.choose(4), set = ctx.choose(2), first = ctx.choose(8);
  const Params p = ParamSet(set);
  std::vector<Pt> scan;
  for (int k = 0; k < rings; k++) {AddRing(scan, k * 7, (first + k) % 8, n, -179.9, 360, k);}
  if (how >= 2) {
    std::vector<Pt> columns;
    for (int i = 0; i < n; i++) {for (int k = 0; k < rings; k++) {columns.push_back(scan[k * n + i]);}}
    scan = columns;
  }
  const int rows = how == 0 ? rings : how == 1 ? n : how == 2 ? n : 1;
  ctx.note("%d rings of %d points, arrangement %d in %d rows, %d bytes between rows, layout %d, parameters %d, shapes from %d", rings, n, how, rows, pad, layout, set, first);
  Run(ctx, p, [&] {Deliver(ctx, scan, p, layout, 3, 4, rows, pad);});
}
// scans the node cannot use make it ask for its shutdown, whenever they come; usable ones do not
MC_SCENARIO(unusable)
{
  const int before = ctx.choose(3), why = ctx.choose(4), layout = ctx.choose(4), n = ctx.pick({1, 60, 181});
  const Params p = ParamSet(0);
  std::vector<Pt> scan;
  AddRing(scan, 3, 6, n, -179.9, 360, 1);
  ctx.note("%d usable scans, then one of %d points: %s, layout %d", before, n, why == 0 ? "not dense" : why == 1 ? "without ring" : why == 2 ? "not dense, without ring" : "ring by another name", layout);
  Run(ctx, p, [&] {
      for (int k = 0; k < before; k++) {Deliver(ctx, scan, p, (layout + k) % 4, k, 1);}
      auto m = Message(scan, layout, 9, 9);
      if (why == 0 || why == 2) {m.is_dense = false;}
      if (why == 1 || why == 2) {m.fields.erase(std::find_if(m.fields.begin(), m.fields.end(), [](auto & f) {return f.name == "ring";}));}
      if (why == 3) {for (auto & f : m.fields) {if (f.name == "ring") {f.name = "rings";}}}
      shim::deliver("points_raw", m);
      ctx.step();
      CHECK(shim::world().shutdown, "the node does not ask for a shutdown");
      ctx.outcome(1);
    });
}
// as many rings and points as sensors have
MC_SCENARIO(full_scans)
{
  const int rings = ctx.pick({16, 128}), points = rings == 16 ? 4000 : 1800, order = ctx.choose(mc::tier(3, 5)), set = ctx.choose(2);
  const Params p = ParamSet(set);
  std::vector<Pt> scan;
  for (int k = 0; k < rings; k++) {AddRing(scan, k, (k + set) % 8, k % 16 == 5 ? 7 : points - k, -179.9, 360, k);}
  Reorder(scan, order);
  ctx.note("%d rings of %d points, order %d, parameters %d", rings, points, order, set);
  Run(ctx, p, [&] {Deliver(ctx, scan, p, order % 4, 3, 4);});
}
MC_MAIN

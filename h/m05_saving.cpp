// M05: maps through files: saved, loaded, published.
#include "mc/mc.hpp"
#include "scratch.hpp"
#include "map_loader/src/map_loader.cpp"
#include <pcl/io/pcd_io.h>
#include "lidar_feature_mapping/map.hpp"
#include "lidar_feature_localization/map_io.hpp"

static const float kValues[] = {0.f, 1.f, -1.5f, 0.1f, 1.f / 3, 123456.789f, -8388607.5f, 1e-30f, 3e30f, 16777217.f, -0.0001234567f, 1023.99994f};
static const int kN = sizeof kValues / sizeof kValues[0];
template<class P> static void Set(P &, int) {}
template<> void Set(PointXYZCR & p, int i) {p.curvature = kValues[(i * 5 + 3) % kN]; p.ring = (i * 4099) % 65536;}
template<> void Set(PointXYZIR & p, int i) {p.intensity = kValues[(i * 7 + 1) % kN]; p.ring = (i * 4099 + 1) % 65536;}
template<> void Set(pcl::PointXYZI & p, int i) {p.intensity = kValues[(i * 3 + 2) % kN];}
template<class P> static bool Other(const P &, const P &) {return true;}
template<> bool Other(const PointXYZCR & a, const PointXYZCR & b) {return a.curvature == b.curvature && a.ring == b.ring;}
template<> bool Other(const PointXYZIR & a, const PointXYZIR & b) {return a.intensity == b.intensity && a.ring == b.ring;}
template<> bool Other(const pcl::PointXYZI & a, const pcl::PointXYZI & b) {return a.intensity == b.intensity;}
template<class P> static typename pcl::PointCloud<P>::Ptr Cloud(const std::vector<int> & at)
{
  typename pcl::PointCloud<P>::Ptr c(new pcl::PointCloud<P>());
  for (size_t i = 0; i < at.size(); i++) {P p; p.x = kValues[at[i] % kN]; p.y = kValues[(at[i] * 5 + 1) % kN]; p.z = kValues[(at[i] * 7 + i) % kN]; Set(p, at[i] + i); c->push_back(p);}
  return c;
}
template<class P> static std::string Diff(const pcl::PointCloud<P> & a, const pcl::PointCloud<P> & b)
{
  if (a.size() != b.size()) {return mc::format("%zu points, expected %zu", a.size(), b.size());}
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].x != b[i].x || a[i].y != b[i].y || a[i].z != b[i].z || !Other(a[i], b[i])) {return mc::format("point %zu is (%.9g %.9g %.9g), expected (%.9g %.9g %.9g), other fields %s", i, a[i].x, a[i].y, a[i].z, b[i].x, b[i].y, b[i].z, Other(a[i], b[i]) ? "equal" : "differ");}
  }
  return "";
}
template<class P> static void RoundTrip(mc::Ctx & ctx, const std::vector<int> & at, const std::string & file, const std::string & h)
{
  const auto c = Cloud<P>(at);
  const auto copy = *c;
  const bool before = Scratch::Exists(file); const std::string old = before ? Scratch::Bytes(file) : "";
  SaveMapIfNotEmpty<P>(file, c);
  const std::string d0 = Diff(*c, copy);
  CHECK(d0.empty(), "%s: saving changed the map: %s", h.c_str(), d0.c_str());
  if (at.empty()) {
    CHECK(Scratch::Exists(file) == before && (!before || Scratch::Bytes(file) == old), "%s: an empty map %s", h.c_str(), before ? "touched the existing file" : "was written");
    ctx.step(); return;
  }
  pcl::PointCloud<P> back;
  CHECK(pcl::io::loadPCDFile(file, back) == 0, "%s: nothing to load", h.c_str());
  const std::string d = Diff(back, *c);
  CHECK(d.empty(), "%s: loaded %s", h.c_str(), d.c_str());
  // and through the map loader
  shim::reset();
  shim::world().params["pcd_filename"] = file;
  auto node = shim::components()["MapLoaderNode"]();
  const auto out = shim::sent<sensor_msgs::msg::PointCloud2>("map_topic");
  CHECK(out.size() == 1 && shim::world().sent.size() == 1, "%s: the loader published %zu maps, %zu messages", h.c_str(), out.size(), shim::world().sent.size());
  CHECK(out[0]->header.frame_id == "map", "%s: frame '%s'", h.c_str(), out[0]->header.frame_id.c_str());
  pcl::PointCloud<P> published; pcl::fromROSMsg(*out[0], published);
  const std::string e = Diff(published, *c);
  CHECK(e.empty(), "%s: published %s", h.c_str(), e.c_str());
  CHECK(static_cast<size_t>(out[0]->width) * out[0]->height == at.size() && out[0]->data.size() == static_cast<size_t>(out[0]->row_step) * out[0]->height, "%s: width %u, height %u, row step %u, %zu bytes", h.c_str(), out[0]->width, out[0]->height, out[0]->row_step, out[0]->data.size());
  // late joiners get it too
  bool latched = false;
  for (auto & p : shim::world().pubs) {if (p.topic == shim::norm("map_topic")) {latched = p.transient_local;}}
  CHECK(latched, "%s: a subscriber that starts later does not get the map", h.c_str());
  ctx.step();
}
MC_SCENARIO(round_trip)
{
  Scratch s;
  const int type = ctx.choose(4), n = ctx.range(0, mc::tier(2, 3));
  std::vector<int> at; for (int i = 0; i < n; i++) {at.push_back(ctx.choose(kN));}
  const std::string h = mc::format("type %d, points %s", type, mc::vstr(std::vector<double>(at.begin(), at.end())).c_str());
  if (type == 0) {RoundTrip<pcl::PointXYZ>(ctx, at, "map.pcd", h);}
  if (type == 1) {RoundTrip<PointXYZCR>(ctx, at, "map.pcd", h);}
  if (type == 2) {RoundTrip<pcl::PointXYZI>(ctx, at, "map.pcd", h);}
  if (type == 3) {RoundTrip<PointXYZIR>(ctx, at, "map.pcd", h);}
  ctx.outcome(mc::hash_str(h));
}
// one file written again and again: longer, shorter, empty
MC_SCENARIO(overwriting)
{
  Scratch s;
  std::string h;
  static const int sizes[] = {0, 1, 2, 7, 300};
  for (int i = 0; i < mc::tier(4, 5); i++) {
    const int n = sizes[ctx.choose(5)];
    std::vector<int> at; for (int k = 0; k < n; k++) {at.push_back((k * 5 + i) % kN);}
    h += mc::format("%d points; ", n);
    RoundTrip<PointXYZCR>(ctx, at, "map.pcd", h);
  }
  ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(large_maps)
{
  Scratch s;
  const int type = ctx.choose(4), n = ctx.pick({4096, 65537, 150001});
  std::vector<int> at; for (int i = 0; i < n; i++) {at.push_back(i * 31 % 100003);}
  const std::string h = mc::format("type %d, %d points", type, n);
  if (type == 0) {RoundTrip<pcl::PointXYZ>(ctx, at, "map.pcd", h);}
  if (type == 1) {RoundTrip<PointXYZCR>(ctx, at, "map.pcd", h);}
  if (type == 2) {RoundTrip<pcl::PointXYZI>(ctx, at, "map.pcd", h);}
  if (type == 3) {RoundTrip<PointXYZIR>(ctx, at, "map.pcd", h);}
  ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(map_builder)
{
  Scratch s;
  shim::reset();
  MapBuilder<PointXYZCR> b;
  std::string h; pcl::PointCloud<PointXYZCR> all;
  if (ctx.flag()) {std::ofstream("edge.pcd") << "earlier";}
  for (int i = 0; i < 3; i++) {
    const int n = ctx.choose(3) * (1 + 4 * i);
    std::vector<int> at; for (int k = 0; k < n; k++) {at.push_back((k * 5 + i * 11) % kN);}
    const auto c = Cloud<PointXYZCR>(at);
    b.map_->TransformAdd(Eigen::Isometry3d::Identity(), c); all += *c;
    h += mc::format("%d points; ", n);
    const bool before = Scratch::Exists("edge.pcd"); const std::string old = before ? Scratch::Bytes("edge.pcd") : "";
    b.SaveMap("edge.pcd");
    ctx.step();
    if (all.empty()) {CHECK(Scratch::Exists("edge.pcd") == before && (!before || Scratch::Bytes("edge.pcd") == old), "%s: an empty map was written", h.c_str()); continue;}
    pcl::PointCloud<PointXYZCR> back; CHECK(pcl::io::loadPCDFile("edge.pcd", back) == 0, "%s: nothing to load", h.c_str());
    const std::string d = Diff(back, all); CHECK(d.empty(), "%s: loaded %s", h.c_str(), d.c_str());
    // what the localiser reads from it
    pcl::PointCloud<pcl::PointXYZ> xyz; pcl::io::loadPCDFile("edge.pcd", xyz);
    CHECK(xyz.size() == all.size(), "%s: %zu points read as coordinates", h.c_str(), xyz.size());
    for (size_t k = 0; k < xyz.size(); k++) {CHECK(xyz[k].x == all[k].x && xyz[k].y == all[k].y && xyz[k].z == all[k].z, "%s: coordinates of point %zu", h.c_str(), k);}
  }
  ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(loader_without_file_name)
{
  shim::reset();
  if (ctx.flag()) {shim::world().params["pcd_filename"] = std::string("");}
  bool thrown = false;
  try {auto node = shim::components()["MapLoaderNode"]();} catch (const std::exception &) {thrown = true;}
  CHECK(thrown && shim::world().sent.empty(), "the loader started without a file name");
  ctx.step(); ctx.outcome(thrown);
}
MC_MAIN

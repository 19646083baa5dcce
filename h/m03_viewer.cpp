// M03: every received map: one static transform at its centroid.
#include "mc/mc.hpp"
#include "map_tf_generator/src/map_tf_generator_node.cpp"
using V3 = Eigen::Vector3f;
static sensor_msgs::msg::PointCloud2 Message(const std::vector<V3> & pts, int layout)
{
  sensor_msgs::msg::PointCloud2 m;
  struct L {uint32_t step, x, y, z; bool extra;}; static const L ls[] = {{12, 0, 4, 8, false}, {16, 0, 4, 8, false}, {32, 0, 4, 8, true}, {24, 16, 8, 4, true}};
  const L & l = ls[layout];
  auto field = [&](const char * n, uint32_t o) {sensor_msgs::msg::PointField f; f.name = n; f.offset = o; f.datatype = 7; f.count = 1; m.fields.push_back(f);};
  field("x", l.x); field("y", l.y); field("z", l.z); if (l.extra) {field("intensity", layout == 2 ? 16 : 0);}
  m.point_step = l.step; m.width = pts.size(); m.height = 1; m.is_dense = true;
  if (layout == 1 && pts.size() % 2 == 0 && !pts.empty()) {m.height = 2; m.width /= 2;}
  m.row_step = m.width * l.step; m.data.assign(l.step * pts.size(), 0x3F);
  for (size_t i = 0; i < pts.size(); i++) {uint8_t * b = m.data.data() + i * l.step; for (int k = 0; k < 3; k++) {memcpy(b + (k == 0 ? l.x : k == 1 ? l.y : l.z), &pts[i][k], 4);}}
  m.header.frame_id = "other"; m.header.stamp.sec = 3;
  return m;
}
struct Rig
{
  mc::Ctx & ctx; std::shared_ptr<rclcpp::Node> node; std::string map_frame = "map", viewer = "viewer"; int64_t now = 50000000000LL; std::string h;
  Rig(mc::Ctx & c, int frames) : ctx(c)
  {
    shim::reset();
    if (frames == 1) {map_frame = "world"; viewer = "view";}
    if (frames) {shim::world().params["map_frame"] = map_frame; shim::world().params["viewer_frame"] = viewer;}
    shim::world().now_ns = now;
    auto & f = shim::components();
    CHECK(f.count("MapTFGeneratorNode") == 1, "the component is not registered");
    node = f["MapTFGeneratorNode"]();
  }
  void Send(const std::vector<V3> & pts, int layout, const std::string & what)
  {
    h += what + " ";
    now += 1000000007LL; auto & w = shim::world(); w.now_ns = now; w.static_tf.clear(); w.tf.clear();
    const int n = shim::deliver("/pointcloud_map", Message(pts, layout));
    CHECK(n == 1, "/pointcloud_map has %d subscriptions", n);
    ctx.step();
    for (auto & t : w.static_tf) {
      const auto & p = t.transform.translation; const auto & q = t.transform.rotation;
      CHECK(std::isfinite(p.x + p.y + p.z + q.x + q.y + q.z + q.w), "%s: transform (%g %g %g) is not finite", h.c_str(), p.x, p.y, p.z);
    }
    CHECK(w.tf.empty() && w.sent.empty(), "%s: something else was published", h.c_str());
    if (pts.empty()) {return;}
    CHECK(w.static_tf.size() == 1, "%s: %zu static transforms", h.c_str(), w.static_tf.size());
    const auto & t = w.static_tf[0];
    CHECK(t.header.frame_id == map_frame && t.child_frame_id == viewer, "%s: %s -> %s", h.c_str(), t.header.frame_id.c_str(), t.child_frame_id.c_str());
    Eigen::Matrix<long double, 3, 1> s(0, 0, 0); long double mag = 0;
    for (auto & p : pts) {for (int k = 0; k < 3; k++) {s[k] += p[k]; mag = std::max(mag, std::fabs(static_cast<long double>(p[k])));}}
    const auto & p = t.transform.translation; const double got[3] = {p.x, p.y, p.z};
    for (int k = 0; k < 3; k++) {const long double e = s[k] / pts.size(); CHECK(std::fabs(got[k] - e) <= 1e-10L * (mag + 1e-3L), "%s: coordinate %d is %.12g, the mean is %.12Lg", h.c_str(), k, got[k], e);}
    const auto & q = t.transform.rotation;
    CHECK(q.x == 0 && q.y == 0 && q.z == 0 && std::fabs(q.w) == 1, "%s: rotation (%g %g %g %g)", h.c_str(), q.x, q.y, q.z, q.w);
  }
};
static std::vector<V3> Named(int k)
{
  std::vector<V3> v;
  switch (k) {
    case 0: break;
    case 1: v = {{1, 2, 3}}; break;
    case 2: v = {{0, 0, 0}}; break;
    case 3: v = {{-5, 1, 0}, {5, 3, 0.5f}}; break;
    case 4: for (int i = 0; i < 1000; i++) {v.push_back(V3(81234.5f + 0.01f * i, -43210.25f - i, 10 + i % 7));} break;
    case 5: for (int i = 0; i < 70001; i++) {v.push_back(V3(i % 100, i / 100, 0.1f * (i % 3)));} break;
    case 6: v = {{1e30f, -1e30f, 1}, {-1e30f, 1e30f, 2}, {0, 1, 3}}; break;
    case 7: for (int i = 0; i < 300; i++) {v.push_back(V3(16777216.f, 0.3f, 1e-20f));} break;
  }
  return v;
}
static const char * kNames[] = {"empty", "one", "origin", "two", "far", "many", "huge", "rounding"};
// every small cloud over a grid
MC_SCENARIO(small_clouds)
{
  static const float g[] = {0, 1.5f, -2.25f, 100.125f};
  Rig r(ctx, 0);
  const int n = ctx.range(0, 2);
  std::vector<V3> pts;
  for (int i = 0; i < n; i++) {const float x = g[ctx.choose(4)], y = g[ctx.choose(4)], z = g[ctx.choose(4)]; pts.push_back(V3(x, y, z));}
  r.Send(pts, ctx.choose(4), mc::format("%d points", n));
  uint64_t h = n; for (auto & p : pts) {for (int k = 0; k < 3; k++) {h = mc::hash_double(h, p[k]);}}
  ctx.outcome(h);
}
// maps after one another
MC_SCENARIO(sequences)
{
  Rig r(ctx, ctx.choose(3));
  const int n = ctx.range(1, mc::tier(3, 4));
  for (int i = 0; i < n; i++) {const int k = ctx.choose(8), layout = (k + i) % 4; r.Send(Named(k), layout, kNames[k]);}
  ctx.outcome(mc::hash_str(r.h + r.viewer));
}
MC_MAIN

// M01: the mapping program: every order of arrival of scans and poses, up to the saved map.
#include "mc/mc.hpp"
#include "scratch.hpp"
#define main mapping_main
#include "mapping/src/mapping.cpp"
#undef main
#include <pcl/io/pcd_io.h>
#include "map_events.hpp"

struct Run
{
  mc::Ctx & ctx; MapModel model; std::string h;
  struct Scan {int points, index;};
  struct Waiting {bool has_scan = false, has_pose = false; Scan scan; Eigen::Isometry3d pose;};
  std::map<int, Waiting> waiting;
  int mode = 0;
  // stamps in the same order: seconds apart, nanoseconds apart, across a second
  std::pair<int, unsigned> Stamp(int k) const
  {
    if (mode == 1) {return {1700000000, 999999900u + k};}
    if (mode == 2) {return {1699999990 + k / 2, k % 2 ? 999999999u : 0u};}
    return {k, 0u};
  }
  void Check(int sec)
  {
    auto & w = waiting[sec];
    ctx.step();
    if (!w.has_scan || !w.has_pose) {return;}
    model.Add(w.scan.points, w.scan.index, w.pose);
    waiting.erase(waiting.begin(), waiting.upper_bound(sec));
  }
  void SendScan(int sec, int points, int index)
  {
    h += mc::format("scan(%d) ", sec);
    const int n = shim::deliver("scan_edge", MakeScan(points, index, Stamp(sec).first, Stamp(sec).second));
    CHECK(n == 1, "scan_edge has %d subscriptions", n);
    waiting[sec].has_scan = true; waiting[sec].scan = {points, index}; Check(sec);
  }
  void SendPose(int sec, const Eigen::Isometry3d & p)
  {
    h += mc::format("pose(%d) ", sec);
    const int n = shim::deliver("pose", MakePoseMessage(p, Stamp(sec).first, false, Stamp(sec).second));
    CHECK(n == 1, "pose has %d subscriptions", n);
    waiting[sec].has_pose = true; waiting[sec].pose = p; Check(sec);
  }
  void Start(std::function<void()> body)
  {
    Scratch s;
    mkdir("maps", 0755);
    shim::reset();
    bool spun = false;
    shim::world().on_spin = [&] {spun = true; body();};
    const int rc = mapping_main(0, nullptr);
    CHECK(spun && rc == 0, "the program does not spin, exit code %d", rc);
    if (model.points.empty()) {CHECK(!Scratch::Exists("maps/edge.pcd"), "%s: a file for an empty map", h.c_str()); ctx.count("nothing_saved", 1); return;}
    pcl::PointCloud<PointXYZCR> c;
    CHECK(pcl::io::loadPCDFile("maps/edge.pcd", c) == 0, "%s: no map was saved", h.c_str());
    const std::string d = model.Diff(c);
    CHECK(d.empty(), "%s: the saved map has %s", h.c_str(), d.c_str());
    ctx.count("saved", 1);
  }
};
MC_SCENARIO(arrivals)
{
  Run r{ctx};
  r.mode = ctx.choose(3);
  const int depth = r.mode ? 4 : mc::tier(5, 6);
  r.Start([&] {
      for (int i = 0; i < depth; i++) {
        const int k = ctx.choose(6);
        if (k < 3) {r.SendScan(10 + k, 2, i);} else {r.SendPose(7 + k, kPoses[(k - 3) * 2 + (i == 4 ? 5 : 0)].pose);}
      }
    });
  ctx.outcome(mc::mix(r.mode, mc::hash_str(r.h))); ctx.note("%s", r.h.c_str());
}
MC_SCENARIO(thresholds)
{
  Run r{ctx};
  const int n = mc::tier(2, 3);
  r.Start([&] {for (int i = 0; i < n; i++) {const int p = ctx.choose(kNPoses), pts = ctx.choose(3); r.h += mc::format("[%d points at %s] ", pts, kPoses[p].name); r.SendPose(i, kPoses[p].pose); r.SendScan(i, pts, i);}});
  ctx.outcome(mc::hash_str(r.h));
}
// one input lags behind the other
MC_SCENARIO(lag)
{
  const int lag = ctx.pick({1, 11, 99, 300}), total = 310; const bool scans_first = ctx.flag();
  Run r{ctx};
  r.Start([&] {
      for (int i = 0; i < total + lag; i++) {
        for (int k = 0; k < 2; k++) {
          const bool first = k == 0; const int j = first ? i : i - lag;
          if (j < 0 || j >= total) {continue;}
          if (first == scans_first) {r.SendScan(j, 1, j);} else {r.SendPose(j, At(0.4 * j, 0, 0, 0));}
        }
      }
    });
  ctx.outcome(lag * 2 + scans_first);
}
MC_SCENARIO(large_scans)
{
  Run r{ctx};
  r.mode = 1;
  const int n = ctx.pick({999, 4096, 65536}), first = ctx.pick({1, 5000});
  r.Start([&] {for (int i = 0; i < 4; i++) {r.SendScan(i, i % 2 ? n : first, i); r.SendPose(i, At(0.7 * i, 0, 0, 0.5 * i));}});
  ctx.outcome(n + first);
}
MC_MAIN

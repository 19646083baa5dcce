// N06: the localisation node while its callback groups run in parallel: every interleaving of priors and scans.
#include "mc/mc.hpp"
#include "mc/sched.hpp"
#include "lidar_feature_localization/subscriber.hpp"
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using PoseOut = geometry_msgs::msg::PoseWithCovarianceStamped;
using Scan = sensor_msgs::msg::PointCloud2;

static std::vector<int> g_inits, g_updates;
static const double kShift = 0.25;
// keeps the pose in itself as the real localiser does; what it saw is noted aside
struct Recorder
{
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  void Init(const Eigen::Isometry3d & p) {pose = p; sched::Quiet q; g_inits.push_back(std::lround(p.translation().x()));}
  bool Update(const std::tuple<Cloud::Ptr, Cloud::Ptr> & scan)
  {
    pose.translation().y() += kShift * (1 + std::get<0>(scan)->size() + std::get<1>(scan)->size());
    sched::Quiet q; g_updates.push_back(std::lround(pose.translation().x()));
    return true;
  }
  Eigen::Isometry3d Get() const {return pose;}
  bool IsInitialized() const {return true;}
};
using Node = LocalizationSubscriber<Recorder, pcl::PointXYZ>;

static builtin_interfaces::msg::Time Stamp(int ms) {builtin_interfaces::msg::Time t; t.sec = 1000 + ms / 1000; t.nanosec = ms % 1000 * 1000000; return t;}
static int Ms(const builtin_interfaces::msg::Time & t) {return (t.sec - 1000) * 1000 + t.nanosec / 1000000;}
struct Event
{
  int ms; int id;              // id > 0: a prior; 0: a scan
  std::string topic;
  long from = 0, to = 0;
  int start = -1;              // scan: the prior it was started from, -1: not localised
};
static std::string Str(const Event & e)
{
  return e.id > 0 ? mc::format("%s %d at %d ms [%ld, %ld]", e.topic.c_str() + 19, e.id, e.ms, e.from, e.to) : mc::format("scan at %d ms from prior %d [%ld, %ld]", e.ms, e.start, e.from, e.to);
}
template<class M> static void Call(shim::SubBase * s, const std::shared_ptr<const M> & m) {static_cast<rclcpp::SubTyped<M> *>(s)->deliver(m);}
static std::shared_ptr<const Scan> Cloudy(int ms, int n)
{
  Cloud c; for (int i = 0; i < n; i++) {c.push_back(pcl::PointXYZ(i, 1, 2));}
  auto m = std::make_shared<Scan>(); pcl::toROSMsg(c, *m); m->header.stamp = Stamp(ms); m->header.frame_id = "lidar_feature_base_link";
  return m;
}
// the store as a sequential object, a scan being: is there any prior; the closest one; dropping those more than 1 s ahead
using Store = std::map<int, int>;
static bool Explains(const std::vector<Event> & all, std::vector<int> progress, const Store & m, const Store & final)
{
  bool finished = true; long first_end = 1L << 60;
  for (size_t i = 0; i < all.size(); i++) {if (progress[i] < 3) {finished = false; first_end = std::min(first_end, all[i].to);}}
  if (finished) {return m == final;}
  for (size_t i = 0; i < all.size(); i++) {
    const Event & e = all[i];
    if (progress[i] == 3 || e.from > first_end) {continue;}
    Store n = m; std::vector<int> p = progress;
    if (e.id > 0) {n[e.ms] = e.id; p[i] = 3;}
    else if (progress[i] == 0) {if (m.empty() != (e.start < 0)) {continue;} p[i] = m.empty() ? 3 : 1;}
    else if (progress[i] == 1) {
      int best = INT_MAX; bool ok = false;
      for (auto & [t, id] : m) {best = std::min(best, std::abs(t - e.ms));}
      for (auto & [t, id] : m) {ok |= std::abs(t - e.ms) == best && id == e.start;}
      if (!ok) {continue;}
      p[i] = 2;
    } else {n.erase(n.upper_bound(e.ms + 1000), n.end()); p[i] = 3;}
    if (Explains(all, p, n, final)) {return true;}
  }
  return false;
}

struct Rig
{
  mc::Ctx & ctx; std::shared_ptr<Node> node; std::vector<Event> events; Store initial; int next_id = 1;
  std::map<std::string, std::shared_ptr<shim::SubBase>> subs; std::vector<std::shared_ptr<const void>> keep;
  explicit Rig(mc::Ctx & c) : ctx(c)
  {
    shim::reset(); g_inits.clear(); g_updates.clear();
    Recorder r;
    node = std::make_shared<Node>(r);
    for (auto & w : shim::world().subs) {if (auto s = w.lock()) {subs[s->topic] = s;}}
    for (const char * t : {"/optimization_start_odom", "/optimization_start_pose", "/scan_edge", "/scan_surface"}) {CHECK(subs.count(t), "no subscription of %s", t);}
  }
  std::function<void()> Prior(const Event & e)
  {
    geometry_msgs::msg::Pose p; p.position.x = e.id; p.position.y = 2 * e.id; p.position.z = -e.id; p.orientation.w = 1; p.orientation.x = p.orientation.y = p.orientation.z = 0;
    shim::SubBase * s = subs[e.topic].get();
    if (e.topic == "/optimization_start_odom") {
      auto m = std::make_shared<nav_msgs::msg::Odometry>(); m->header.stamp = Stamp(e.ms); m->header.frame_id = "map"; m->pose.pose = p;
      std::shared_ptr<const nav_msgs::msg::Odometry> c = m;
      return [s, c] {Call(s, c);};
    }
    auto m = std::make_shared<geometry_msgs::msg::PoseStamped>(); m->header.stamp = Stamp(e.ms); m->header.frame_id = "map"; m->pose = p;
    std::shared_ptr<const geometry_msgs::msg::PoseStamped> c = m;
    return [s, c] {Call(s, c);};
  }
  void Before(int ms, bool odom)
  {
    const Event e{ms, next_id++, odom ? "/optimization_start_odom" : "/optimization_start_pose"};
    Prior(e)(); initial[e.ms] = e.id;
  }
  void Add(int ms, int odom) {events.push_back({ms, odom == 2 ? 0 : next_id++, odom == 2 ? "scan" : odom ? "/optimization_start_odom" : "/optimization_start_pose"});}
  void Pose(int ms) {Add(ms, 0);}
  void Odom(int ms) {Add(ms, 1);}
  void Scan(int ms) {Add(ms, 2);}
  static void Perform(Event & e, const std::function<void()> & f) {e.from = sched::tick(); f(); e.to = sched::tick();}
  // the results of scans so far, in the order of the events
  void Results(std::vector<Event> & all)
  {
    std::map<int, int> count;
    for (auto & o : shim::sent<PoseOut>("estimated_pose")) {
      const int ms = Ms(o->header.stamp);
      const int id = std::lround(o->pose.pose.position.x);
      count[ms]++;
      bool found = false;
      for (Event & e : all) {if (e.id == 0 && e.ms == ms) {e.start = id; found = true;}}
      CHECK(found, "published a pose with stamp %d ms, which no scan has", ms);
      const double y = o->pose.pose.position.y, want = 2 * id + kShift * 6, z = o->pose.pose.position.z;
      CHECK(std::fabs(y - want) < 1e-9 && std::fabs(z + id) < 1e-9 && std::fabs(o->pose.pose.position.x - id) < 1e-9, "the pose of the scan at %d ms is (%g, %g, %g), not the result of prior %d", ms, o->pose.pose.position.x, y, z, id);
    }
    for (auto & [ms, n] : count) {CHECK(n == 1, "%d poses for the scan at %d ms", n, ms);}
    auto & tf = shim::world().tf;
    CHECK(tf.size() == count.size() && shim::world().sent.size() == count.size(), "%zu transforms, %zu messages for %zu localised scans", tf.size(), shim::world().sent.size(), count.size());
    for (auto & t : tf) {
      bool same = false;
      for (const Event & e : all) {same |= e.id == 0 && e.start > 0 && e.ms == Ms(t.header.stamp) && std::fabs(t.transform.translation.x - e.start) < 1e-9 && std::fabs(t.transform.translation.y - (2 * e.start + kShift * 6)) < 1e-9;}
      CHECK(same, "the transform of %d ms is (%g, %g, %g), unlike the pose", Ms(t.header.stamp), t.transform.translation.x, t.transform.translation.y, t.transform.translation.z);
    }
    CHECK(g_inits.size() == count.size() && g_inits == g_updates, "%zu starts and %zu optimisations for %zu localised scans", g_inits.size(), g_updates.size(), count.size());
  }
  void Run(int preemptions, bool atomics)
  {
    // callbacks of one exclusive group never overlap; the order among its topics is a choice
    std::vector<std::pair<const void *, std::vector<std::function<void()>>>> groups; std::vector<std::function<void()>> alone;
    auto put = [&](const std::string & topic, std::function<void()> f) {
        auto g = subs[topic]->group;
        if (g && g->type == rclcpp::CallbackGroupType::Reentrant) {alone.push_back(std::move(f)); return;}
        for (auto & [k, fs] : groups) {if (k == g.get()) {fs.push_back(std::move(f)); return;}}
        groups.push_back({g.get(), {std::move(f)}});
      };
    for (Event & e : events) {
      Event * p = &e;
      if (e.id > 0) {auto f = Prior(e); put(e.topic, [p, f] {Perform(*p, f);}); continue;}
      auto edge = Cloudy(e.ms, 2), surface = Cloudy(e.ms, 3);
      shim::SubBase * s = subs["/scan_edge"].get(), * t = subs["/scan_surface"].get();
      auto together = subs["/scan_edge"]->group == subs["/scan_surface"]->group;
      if (together) {put("/scan_edge", [p, s, edge] {Call(s, edge);}); put("/scan_surface", [p, t, surface] {Perform(*p, [&] {Call(t, surface);});});}
      else {
        // whichever comes second completes the scan: the handling lies somewhere in both
        auto note = [p](const std::function<void()> & f) {const long a = sched::tick(); f(); const long b = sched::tick(); p->from = p->from ? std::min(p->from, a) : a; p->to = std::max(p->to, b);};
        put("/scan_edge", [note, s, edge] {note([&] {Call(s, edge);});}); put("/scan_surface", [note, t, surface] {note([&] {Call(t, surface);});});
      }
    }
    std::vector<std::function<void()>> threads;
    for (auto & [k, fs] : groups) {threads.push_back([&fs] {for (auto & f : fs) {f();}});}
    for (auto & f : alone) {threads.push_back(f);}
    CHECK(threads.size() <= 6, "more callback groups than the scheduler has threads");
    const sched::Result r = sched::run(threads, [&](int n) {return ctx.choose(n);}, {preemptions, atomics});
    std::string h; for (const Event & e : events) {h += Str(e) + "; ";}
    ctx.note("%s", h.c_str());
    CHECK(r.problem.empty(), "%s (%s)", r.problem.c_str(), h.c_str());
    std::vector<Event> all = events;
    Results(all);
    // what the store holds afterwards, newest first: a scan at the stamp of each prior
    std::map<int, int, std::greater<int>> asked;
    for (auto & [t, id] : initial) {asked[t] = id;}
    for (const Event & e : events) {if (e.id > 0) {asked[e.ms] = e.id;}}
    Store left;
    for (auto & [t, id] : asked) {
      shim::world().sent.clear();
      Call(subs["/scan_edge"].get(), Cloudy(t, 2)); Call(subs["/scan_surface"].get(), Cloudy(t, 3));
      const auto out = shim::sent<PoseOut>("estimated_pose");
      CHECK(out.size() <= 1, "%zu poses for one scan", out.size());
      if (out.empty()) {continue;}
      const int from = std::lround(out[0]->pose.pose.position.x);
      bool here = false;
      if (initial.count(t) && initial[t] == from) {here = true;}
      for (const Event & e : events) {here |= e.id == from && e.ms == t;}
      if (here) {left[t] = from;}
    }
    std::string s; for (const Event & e : all) {s += Str(e) + "; ";}
    s += "before:"; for (auto & [t, id] : initial) {s += mc::format(" %d at %d ms", id, t);}
    s += "; left:"; for (auto & [t, id] : left) {s += mc::format(" %d at %d ms", id, t);}
    CHECK(Explains(all, std::vector<int>(all.size(), 0), initial, left), "no order of the callbacks explains: %s", s.c_str());
    ctx.step(r.steps); ctx.count("memory accesses watched", r.accesses); ctx.count("preemptions", r.preemptions); ctx.count("threads", threads.size());
    uint64_t o = 1; for (const Event & e : all) {o = mc::mix(o, mc::mix(e.ms, e.start + 1));}
    for (auto & [t, id] : left) {o = mc::mix(o, mc::mix(t, id));}
    ctx.outcome(o);
  }
};

static void Initial(mc::Ctx & ctx, Rig & r)
{
  const int k = ctx.choose(4);
  if (k == 1) {r.Before(900, true);}
  if (k == 2) {r.Before(2600, false);}
  if (k == 3) {r.Before(940, false); r.Before(2100, true);}
}
MC_SCENARIO(one_prior)
{
  Rig r(ctx);
  Initial(ctx, r);
  r.Scan(1000);
  const int t = ctx.pick({980, 1990, 2001}); if (ctx.flag()) {r.Odom(t);} else {r.Pose(t);}
  r.Run(mc::tier(4, 5), true);
}
MC_SCENARIO(both_priors)
{
  Rig r(ctx);
  Initial(ctx, r);
  r.Scan(1000); r.Odom(ctx.pick({980, 2500})); r.Pose(ctx.pick({1010, 2300}));
  r.Run(mc::tier(3, 4), false);
}
MC_SCENARIO(both_priors_fine)
{
  Rig r(ctx);
  r.Before(900, false);
  r.Scan(1000); r.Odom(980); r.Pose(ctx.pick({1010, 2300}));
  r.Run(mc::tier(2, 3), true);
}
MC_SCENARIO(several)
{
  Rig r(ctx);
  Initial(ctx, r);
  r.Scan(1000); r.Scan(1100); r.Odom(980); r.Odom(ctx.pick({1090, 2050, 2600})); r.Pose(ctx.pick({1060, 2050}));
  r.Run(mc::tier(2, 3), false);
}
MC_SCENARIO(same_stamp)
{
  Rig r(ctx);
  if (ctx.flag()) {r.Before(990, true);}
  r.Scan(1000); r.Odom(990); r.Pose(990);
  r.Run(mc::tier(3, 4), false);
}
// priors only: none is lost
MC_SCENARIO(priors_only)
{
  Rig r(ctx);
  const int n = ctx.range(1, 2);
  for (int i = 0; i < n; i++) {r.Odom(1000 + 10 * i); r.Pose(1005 + 10 * i);}
  r.Run(mc::tier(3, 4), ctx.flag());
}
MC_MAIN

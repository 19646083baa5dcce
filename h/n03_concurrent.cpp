// N03: linearizability, race freedom and progress of the prior-pose store in every interleaving.
#include "mc/mc.hpp"
#include "mc/sched.hpp"
#include "lidar_feature_localization/stamp_sorted_objects.hpp"

// larger than a word, so that an unsynchronised copy can be torn; copying can be made to fail
struct Object
{
  int a = 0, b = 0, c = 0;
  static int & fuse() {static int f = -1; return f;}
  explicit Object(int v = 0) : a(v), b(v), c(v) {}
  Object(const Object & o) {*this = o;}
  Object & operator=(const Object & o)
  {
    if (fuse() == 0) {fuse() = -1; throw std::runtime_error("copying fails");}
    if (fuse() > 0) {fuse()--;}
    a = o.a; b = o.b; c = o.c;
    return *this;
  }
};
using Store = StampSortedObjects<Object>;

enum Kind {kInsert, kClosest, kSize, kPrune};
struct Op {Kind kind; double t; int value;};
struct Done
{
  Op op; long from = 0, to = 0;
  double time = 0; int a = 0, b = 0, c = 0; size_t size = 0;
  bool threw = false;
};
static std::string Str(const Done & d)
{
  switch (d.op.kind) {
    case kInsert: return mc::format("insert(%g, %d)", d.op.t, d.op.value);
    case kClosest: return mc::format("closest(%g) = (%g, %d/%d/%d)", d.op.t, d.time, d.a, d.b, d.c);
    case kSize: return mc::format("size() = %zu", d.size);
    default: return mc::format("prune(%g)", d.op.t);
  }
}
static void Perform(Store & s, Done & d)
{
  d.from = sched::tick();
  switch (d.op.kind) {
    case kInsert: s.Insert(d.op.t, Object(d.op.value)); break;
    case kClosest: {
      const auto r = s.GetClosest(d.op.t);
      d.time = std::get<0>(r); d.a = std::get<1>(r).a; d.b = std::get<1>(r).b; d.c = std::get<1>(r).c;
      break;
    }
    case kSize: d.size = s.Size(); break;
    case kPrune: s.RemoveOlderThan(d.op.t); break;
  }
  d.to = sched::tick();
}
// the sequential meaning
static bool Apply(std::map<double, int> & m, const Done & d)
{
  switch (d.op.kind) {
    case kInsert: m[d.op.t] = d.op.value; return true;
    case kPrune: m.erase(m.upper_bound(d.op.t), m.end()); return true;
    case kSize: return d.size == m.size();
    default: {
      if (m.empty()) {return true;}
      auto best = m.begin();
      for (auto i = m.begin(); i != m.end(); ++i) {if (std::fabs(i->first - d.op.t) <= std::fabs(best->first - d.op.t)) {best = i;}}
      return d.time == best->first && d.a == best->second && d.b == best->second && d.c == best->second;
    }
  }
}
// some order that respects real time explains every result (the closing observations come last by their times)
static bool Linearizable(const std::vector<Done> & all, uint32_t used, const std::map<double, int> & m)
{
  if (used + 1 == 1u << all.size()) {return true;}
  long first_end = 1L << 60;
  for (size_t i = 0; i < all.size(); i++) {if (!(used >> i & 1)) {first_end = std::min(first_end, all[i].to);}}
  for (size_t i = 0; i < all.size(); i++) {
    if (used >> i & 1 || all[i].from > first_end) {continue;}
    std::map<double, int> n = m;
    if (Apply(n, all[i]) && Linearizable(all, used | 1u << i, n)) {return true;}
  }
  return false;
}

static void Run(mc::Ctx & ctx, const std::vector<std::vector<Op>> & programs)
{
  Store store;
  std::map<double, int> initial = {{0, -1}, {4, -4}};
  for (const auto & e : initial) {store.Insert(e.first, Object(e.second));}
  std::vector<std::vector<Done>> done(programs.size());
  std::vector<std::function<void()>> threads;
  for (size_t t = 0; t < programs.size(); t++) {
    for (const Op & op : programs[t]) {done[t].push_back({op});}
    threads.push_back([&store, &done, t] {for (Done & d : done[t]) {Perform(store, d);}});
  }
  std::string schedule;
  const sched::Result r = sched::run(threads, [&](int n) {return ctx.choose(n);});
  std::string h;
  for (size_t t = 0; t < done.size(); t++) {h += mc::format("%sthread %zu:", t ? "; " : "", t); for (const Done & d : done[t]) {h += " " + Str(d);}}
  ctx.note("%s", h.c_str());
  CHECK(r.problem.empty(), "%s (%s)", r.problem.c_str(), h.c_str());
  std::vector<Done> all;
  long end = 1 << 20;
  for (auto & v : done) {for (Done & d : v) {all.push_back(d);}}
  // closing observations of the whole contents
  auto observe = [&](Op op) {
      Done d{op};
      Perform(store, d);
      d.from = end++; d.to = end++;
      all.push_back(d);
    };
  observe({kSize, 0, 0});
  if (all.back().size > 0) {for (double t : {-9., 1., 2., 3., 4., 6.}) {observe({kClosest, t, 0});}}
  CHECK(Linearizable(all, 0, initial), "no sequential order gives these results: %s", [&] {std::string s; for (const Done & d : all) {s += Str(d) + mc::format("@[%ld,%ld] ", d.from, d.to);} return s;} ().c_str());
  ctx.step(r.steps); ctx.count("memory accesses watched", r.accesses); ctx.count("preemptions", r.preemptions);
  uint64_t o = 1; for (const Done & d : all) {o = mc::mix(o, mc::hash_str(Str(d)));}
  ctx.outcome(o);
}
static Op Pick(mc::Ctx & ctx, int thread, int index, int kinds)
{
  static const Op ops[] = {{kInsert, 2, 0}, {kClosest, 3, 0}, {kPrune, 3, 0}, {kSize, 0, 0}, {kInsert, 4, 0}, {kInsert, 6, 0}, {kClosest, 5.5, 0}, {kPrune, 0, 0}};
  Op op = ops[ctx.choose(kinds)];
  op.value = 10 * (thread + 1) + index;
  return op;
}
static void Programs(mc::Ctx & ctx, int threads, int length, int kinds)
{
  std::vector<std::vector<Op>> p(threads);
  for (int t = 0; t < threads; t++) {for (int i = 0; i < length; i++) {p[t].push_back(Pick(ctx, t, i, kinds));}}
  Run(ctx, p);
}
MC_SCENARIO(two_threads_one_operation) {Programs(ctx, 2, 1, 8);}
MC_SCENARIO(two_threads_two_operations) {Programs(ctx, 2, 2, mc::tier(5, 8));}
MC_SCENARIO(three_threads_one_operation) {Programs(ctx, 3, 1, mc::tier(6, 8));}
MC_SCENARIO(four_threads_one_operation)
{
  if (mc::tier(0, 1)) {Programs(ctx, 4, 1, 3); return;}
  std::vector<std::vector<Op>> p = {{{kInsert, 2, 10}}, {{kClosest, 3, 0}}, {{kPrune, 3, 0}}, {{ctx.flag() ? kSize : kInsert, 6, 40}}};
  Run(ctx, p);
}
MC_SCENARIO(two_threads_three_operations) {Programs(ctx, 2, 3, mc::tier(2, 3));}
// the node's own pattern: priors arrive while a scan is handled
MC_SCENARIO(node_pattern)
{
  const int n = mc::tier(2, 3);
  std::vector<std::vector<Op>> p = {{{kSize, 0, 0}, {kClosest, 3, 0}, {kPrune, 3, 0}}};
  for (int t = 1; t < n; t++) {p.push_back({{kInsert, ctx.pick({2., 4., 6.}), 10 * t}, {kInsert, ctx.pick({3., 6.}), 10 * t + 1}});}
  Run(ctx, p);
}
// an operation that fails while copying must not leave the store locked
MC_SCENARIO(failing_copy)
{
  Object::fuse() = -1;
  Store store;
  store.Insert(0, Object(1)); store.Insert(4, Object(2));
  const Kind failing = ctx.flag() ? kInsert : kClosest;
  const int fuse = ctx.choose(4);
  int caught = 0; Done second{{kSize, 0, 0}};
  const std::vector<std::function<void()>> threads = {
    [&] {
      Object::fuse() = fuse;
      try {Done d{{failing, 3, 5}}; Perform(store, d);} catch (const std::runtime_error &) {caught++;}
      Object::fuse() = -1;
      Done d{{kSize, 0, 0}}; Perform(store, d);
    },
    [&] {Perform(store, second);}};
  const sched::Result r = sched::run(threads, [&](int n) {return ctx.choose(n);});
  // the fuse itself is shared on purpose only within this scenario's first thread: the second does not copy
  Object::fuse() = -1;
  CHECK(r.problem.empty(), "with copy number %d failing in %s: %s", fuse, failing == kInsert ? "insert" : "closest", r.problem.c_str());
  ctx.step(r.steps); ctx.count("failed copies", caught);
  ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

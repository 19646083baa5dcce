// O01: the optimiser's loop against every sequence of answers of the problem being optimised.
#include "mc/mc.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "ref_optimizer.hpp"

struct Answer
{
  std::vector<Eigen::MatrixXd> J;
  std::vector<Eigen::VectorXd> r;
};
// What the environment answers. Every non-empty answer has fixed numbers, so its error and scale are the same
// whenever it is given; the step it causes depends on the pose through the tangent map.
static std::vector<Answer> MakeAlphabet()
{
  const std::vector<Eigen::Vector3d> p = {{3, 0, 1}, {0, 4, 1}, {-2, 1, 5}, {1, -3, -2}, {2, 2, -4}, {-4, -1, 0}};
  std::vector<Answer> all(1);   // [0] no data
  auto add = [&](Eigen::Vector3d rot, Eigen::Vector3d tr, double noise, double outlier, bool flat = false) {
      Answer a;
      for (size_t i = 0; i < p.size(); i++) {
        Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3, 7);
        const Eigen::Vector3d q = flat ? Eigen::Vector3d(0, 0, 0) : p[i];
        // derivative of the rotated point at the identity
        J.block(0, 0, 3, 4) << 2 * q(0), 2 * q(0), 2 * q(1) * 0, 0, 2 * q(1), 0, 2 * q(1), 0, 2 * q(2), 0, 0, 2 * q(2);
        J(0, 2) = 2 * q(2); J(0, 3) = -2 * q(1); J(1, 1) = -2 * q(2); J(1, 3) = 2 * q(0); J(2, 1) = 2 * q(1); J(2, 2) = -2 * q(0);
        J.block(0, 4, 3, 3).setIdentity();
        Eigen::VectorXd d(7); d << 0, rot / 2, tr;
        Eigen::VectorXd r = J * d;
        for (int k = 0; k < 3; k++) {r(k) += noise * std::sin(1. + 3 * i + k) * (1 + 0.3 * i);}
        r *= (i == 2 ? outlier : 1);
        a.J.push_back(J); a.r.push_back(r);
      }
      all.push_back(a);
    };
  add({0, 0, 0}, {0, 0, 0}, 0, 1);              // exact
  add({.3, -.2, .4}, {1, 2, -1}, 0, 1);         // large step
  add({1e-4, 0, -1e-4}, {0, 2e-4, 0}, 0, 1);    // small step
  add({0, 3e-3, 0}, {0, 0, 5e-4}, 0, 1);        // rotation just too large
  add({1e-4, 1e-3, 0}, {0, 2e-3, 0}, 0, 1);     // translation just too large
  add({.1, 0, .1}, {.5, 0, 0}, .05, 1);         // noisy
  add({.1, 0, .1}, {.5, 0, 0}, .05, 4);         // noisy with an outlier
  add({.05, 0, 0}, {.2, 0, 0}, .2, 1);          // little error, wide spread
  add({0, 0, 0}, {.4, 0, 0}, 0, 1);             // pure translation: all errors equal, scale zero
  add({0, 0, 0}, {.4, .1, 0}, .1, 1, true);     // degenerate: no rotation information
  return all;
}
static const std::vector<Answer> & Alphabet() {static const std::vector<Answer> a = MakeAlphabet(); return a;}

struct Log
{
  mc::Ctx * ctx;
  int kinds;
  std::vector<int> given;            // answers in order
  std::vector<Eigen::Isometry3d> asked;
  std::vector<int> script;           // when replaying
  bool replay = false;
  int argument = 0;
  std::vector<int> arguments;
};
struct Problem
{
  Log * log;
  std::tuple<std::vector<Eigen::MatrixXd>, std::vector<Eigen::VectorXd>> Make(const int & x, const Eigen::Isometry3d & pose) const
  {
    Log & l = *log;
    const size_t n = l.asked.size();
    int k;
    if (l.replay) {
      if (n >= l.script.size()) {l.ctx->fail("a second run over the same answers evaluates the problem %zu times, the first only %zu", n + 1, l.script.size());}
      k = l.script[n];
    } else {
      if (n > 60) {l.ctx->fail("the problem is evaluated more than 60 times");}
      k = l.ctx->choose(l.kinds);
    }
    l.given.push_back(k); l.asked.push_back(pose); l.arguments.push_back(x);
    return {Alphabet()[k].J, Alphabet()[k].r};
  }
};

struct Expected
{
  Eigen::Quaterniond q; Eigen::Vector3d t;
  int iteration; double error, scale; bool success;
  size_t evaluations;
  std::vector<std::pair<Eigen::Quaterniond, Eigen::Vector3d>> at;
  double margin = 1;   // distance of the closest decision from its threshold
  const char * why;
};
static Expected Reference(const std::vector<int> & answers, int max_iter, const Eigen::Isometry3d & start)
{
  Expected e;
  e.q = Eigen::Quaterniond(start.linear()); e.t = start.translation();
  double pe = 1e308, ps = 1e308;
  e.evaluations = 0;
  for (int i = 0; i < max_iter && i < static_cast<int>(answers.size()); i++) {
    e.evaluations++;
    e.at.push_back({e.q, e.t});
    const Answer & a = Alphabet()[answers[i]];
    e.iteration = i;
    if (a.r.empty()) {e.error = e.scale = 0; e.success = false; e.why = "no data"; return e;}
    std::vector<double> err; double sum = 0;
    for (const auto & r : a.r) {err.push_back(r.squaredNorm()); sum += err.back();}
    const double sc = ref::RobustScale(err);
    e.error = sum; e.scale = sc; e.success = true;
    // the same answer twice is equal, not larger; different answers differ by much more than rounding
    const double eps = 1e-9;
    if (sum > pe * (1 + eps) + 1e-14) {e.why = "larger error"; return e;}
    if (sc > ps * (1 + eps) + 1e-14) {e.why = "larger scale"; return e;}
    pe = sum; ps = sc;
    std::vector<double> w;
    for (double x : err) {w.push_back(ref::HuberWeight(x / (sc + 1e-16)));}
    const ref::Normal n = ref::MakeNormal(ref::Tangent(e.q), w, a.J, a.r);
    e.margin = std::min(e.margin, n.Closest());
    Eigen::VectorXd dx = Eigen::VectorXd::Zero(6);
    if (!n.Degenerate()) {dx = n.Solve();}
    const Eigen::Quaterniond dq = ref::Exp(dx.head(3));
    e.q = e.q * dq; e.t += dx.tail(3);
    const double a1 = dq.vec().norm(), a2 = dx.tail(3).norm();
    e.margin = std::min({e.margin, std::fabs(a1 - 1e-3), std::fabs(a2 - 1e-3)});
    if (a1 < 1e-3 && a2 < 1e-3) {e.why = "converged"; return e;}
  }
  e.iteration = max_iter; e.error = pe; e.scale = ps; e.success = false; e.why = "limit";
  return e;
}
static double Distance(const Eigen::Isometry3d & a, const Eigen::Quaterniond & q, const Eigen::Vector3d & t)
{
  return std::max((a.linear() - q.toRotationMatrix()).cwiseAbs().maxCoeff(), (a.translation() - t).cwiseAbs().maxCoeff() / (1 + t.norm()));
}
static Eigen::Isometry3d Start(mc::Ctx & ctx)
{
  Eigen::Isometry3d s = Eigen::Isometry3d::Identity();
  switch (ctx.choose(3)) {
    case 0: break;
    case 1: s.linear() = (Eigen::AngleAxisd(2.9, Eigen::Vector3d(1, 2, -2) / 3.)).toRotationMatrix(); s.translation() = Eigen::Vector3d(10, -4, 2); break;
    case 2: s.linear() = (Eigen::AngleAxisd(-.4, Eigen::Vector3d(0, 0, 1))).toRotationMatrix(); s.translation() = Eigen::Vector3d(-500, 0.25, 0); break;
  }
  return s;
}
static bool SameNumber(double a, double b) {return mc::close(a, b, 1e-9, 1e-15);}

static void Explore(mc::Ctx & ctx, int max_iter, int kinds, bool default_limit)
{
  const Eigen::Isometry3d start = Start(ctx);
  Log log{&ctx, kinds};
  const int argument = 41;
  const Problem problem{&log};
  const Optimizer<Problem, int> optimizer = default_limit ? Optimizer<Problem, int>(problem) : Optimizer<Problem, int>(problem, max_iter);
  const OptimizationResult r = optimizer.Run(argument, start);
  std::string seq; for (int k : log.given) {seq += (seq.empty() ? "" : ",") + std::to_string(k);}
  const Expected e = Reference(log.given, max_iter, start);
  if (e.margin < 1e-8) {ctx.count("a decision within 1e-8 of its threshold"); ctx.prune();}
  ctx.note("answers [%s] limit %d: %s", seq.c_str(), max_iter, e.why);
  CHECK(log.given.size() == e.evaluations, "answers [%s], limit %d: evaluated %zu times, should have stopped after %zu (%s)", seq.c_str(), max_iter, log.given.size(), e.evaluations, e.why);
  // an early stop leaves the reference without an answer to go on with
  CHECK(e.why != std::string("limit") || static_cast<int>(log.given.size()) == std::max(max_iter, 0), "answers [%s]: stopped after %zu evaluations for no reason (limit %d)", seq.c_str(), log.given.size(), max_iter);
  for (size_t i = 0; i < e.at.size(); i++) {
    CHECK(Distance(log.asked[i], e.at[i].first, e.at[i].second) < 1e-8, "answers [%s]: evaluation %zu is at %s, expected translation %s", seq.c_str(), i, mc::mstr(log.asked[i].matrix()).c_str(), mc::mstr(e.at[i].second).c_str());
    CHECK(log.arguments[i] == argument, "evaluation %zu does not get the argument", i);
  }
  CHECK(Distance(r.pose, e.q, e.t) < 1e-8, "answers [%s], limit %d (%s): result pose %s, expected translation %s", seq.c_str(), max_iter, e.why, mc::mstr(r.pose.matrix()).c_str(), mc::mstr(e.t).c_str());
  CHECK(r.success == e.success, "answers [%s], limit %d (%s): success = %d", seq.c_str(), max_iter, e.why, r.success);
  CHECK(r.iteration == e.iteration, "answers [%s], limit %d (%s): iteration %d, expected %d", seq.c_str(), max_iter, e.why, r.iteration, e.iteration);
  if (e.evaluations > 0) {
    CHECK(SameNumber(r.error, e.error), "answers [%s] (%s): error %.12g, expected %.12g", seq.c_str(), e.why, r.error, e.error);
    CHECK(SameNumber(r.error_scale, e.scale), "answers [%s] (%s): scale %.12g, expected %.12g", seq.c_str(), e.why, r.error_scale, e.scale);
  }
  // nothing is remembered between runs
  Log again{&ctx, kinds}; again.replay = true; again.script = log.given;
  log = again;
  const OptimizationResult r2 = optimizer.Run(argument, start);
  CHECK(r2.pose.matrix() == r.pose.matrix() && r2.success == r.success && r2.iteration == r.iteration && r2.error == r.error && r2.message == r.message, "answers [%s]: a second run on the same optimiser gives another result", seq.c_str());
  ctx.step(2 * e.evaluations + 1);
  ctx.count(e.why);
  ctx.outcome(mc::hash_str(seq + e.why) + max_iter);
}

MC_SCENARIO(sequences) {const int n = ctx.range(0, mc::tier(5, 8)); Explore(ctx, n, Alphabet().size(), false);}
// long runs with the answers that neither stop nor grow: the limit, the default limit, late stops
MC_SCENARIO(long_runs)
{
  static const int limits[] = {1, 2, 7, 20, 40, 101, 300};
  const int limit = limits[ctx.choose(7)];
  const bool def = limit == 20 && ctx.flag();
  const Eigen::Isometry3d start = Start(ctx);
  const int base = ctx.pick({2, 4, 5, 6, 9, 10});
  // every position of the stop, except that long limits take those near powers of two and near the ends
  std::vector<int> stops;
  for (int i = 0; i <= limit; i++) {if (limit <= 40 || i < 3 || i + 3 > limit || ((i - 1) & i) == 0 || ((i + 1) & i) == 0 || i == 100) {stops.push_back(i);}}
  const int stop_at = ctx.pick(stops);
  const int stop_by = stop_at < limit ? ctx.choose(Alphabet().size()) : 0;
  Log log{&ctx, 0}; log.replay = true;
  for (int i = 0; i < limit; i++) {log.script.push_back(i == stop_at ? stop_by : base);}
  const Expected e = Reference(log.script, limit, start);
  if (e.margin < 1e-8) {ctx.prune();}
  const Problem problem{&log};
  const Optimizer<Problem, int> o = def ? Optimizer<Problem, int>(problem) : Optimizer<Problem, int>(problem, limit);
  const OptimizationResult r = o.Run(1, start);
  CHECK(log.asked.size() == e.evaluations, "answer %d %d times then %d, limit %d: %zu evaluations, expected %zu (%s)", base, stop_at, stop_by, limit, log.asked.size(), e.evaluations, e.why);
  CHECK(r.iteration == e.iteration && r.success == e.success && SameNumber(r.error, e.error) && SameNumber(r.error_scale, e.scale) && Distance(r.pose, e.q, e.t) < 1e-6,
    "answer %d %d times then %d, limit %d: iteration %d success %d error %g scale %g, expected %d %d %g %g (%s)", base, stop_at, stop_by, limit, r.iteration, r.success, r.error, r.error_scale, e.iteration, e.success, e.error, e.scale, e.why);
  ctx.step(e.evaluations); ctx.count(e.why);
  ctx.outcome(mc::mix(mc::mix(base, stop_at), mc::mix(stop_by, limit)));
}
// answers whose errors shrink or grow by a factor at any overall size, down to where the error is far below any absolute tolerance
MC_SCENARIO(sizes)
{
  struct Scaled
  {
    std::vector<Answer> answers; mutable size_t asked = 0; mutable bool beyond = false;
    std::tuple<std::vector<Eigen::MatrixXd>, std::vector<Eigen::VectorXd>> Make(const int &, const Eigen::Isometry3d &) const
    {
      beyond |= asked >= answers.size();
      const Answer & a = answers[std::min(asked++, answers.size() - 1)];
      return {a.J, a.r};
    }
  };
  const double size = std::pow(10., -ctx.range(-2, 12));
  const int base = ctx.pick({6, 7, 8}), n = mc::tier(4, 6);
  const Eigen::Isometry3d start = Start(ctx);
  Scaled problem; double factor = 1; std::vector<double> factors;
  int stop = n; bool by_error = false; const char * why = "limit";
  Eigen::Quaterniond q(start.linear()); Eigen::Vector3d t = start.translation();
  double margin = 1;
  for (int i = 0; i < n; i++) {
    if (i > 0) {factor *= ctx.pick({1.0, 0.5, 1.01, 100.});}
    factors.push_back(factor);
    Answer a = Alphabet()[base];
    for (auto & r : a.r) {r *= size * factor;}
    problem.answers.push_back(a);
    if (i > 0 && factors[i] > factors[i - 1]) {stop = i; by_error = true; why = "larger error"; break;}
    std::vector<double> err, w;
    for (const auto & r : a.r) {err.push_back(r.squaredNorm());}
    const double sc = ref::RobustScale(err);
    for (double x : err) {w.push_back(ref::HuberWeight(x / (sc + 1e-16)));}
    const ref::Normal N = ref::MakeNormal(ref::Tangent(q), w, a.J, a.r);
    margin = std::min(margin, N.Closest());
    const Eigen::VectorXd dx = N.Degenerate() ? Eigen::VectorXd::Zero(6) : N.Solve();
    const Eigen::Quaterniond dq = ref::Exp(dx.head(3));
    q = q * dq; t += dx.tail(3);
    const double a1 = dq.vec().norm(), a2 = dx.tail(3).norm();
    margin = std::min({margin, std::fabs(a1 - 1e-3), std::fabs(a2 - 1e-3)});
    if (a1 < 1e-3 && a2 < 1e-3) {stop = i; why = "converged"; break;}
  }
  if (margin < 1e-8) {ctx.prune();}
  const OptimizationResult r = Optimizer<Scaled, int>(problem, n).Run(1, start);
  const int evaluations = std::min(stop + 1, n);
  double error = 0; for (const auto & v : problem.answers[evaluations - 1].r) {error += v.squaredNorm();}
  ctx.note("size %g, factors %s: %s", size, mc::vstr(factors).c_str(), why);
  const std::string got = mc::format("iteration %d success %d error %g pose %s", r.iteration, r.success, r.error, mc::mstr(r.pose.translation()).c_str());
  CHECK(!problem.beyond && r.iteration == stop && r.success == (stop < n), "residuals of size %g, factors %s: %s; expected to stop at %d (%s)", size, mc::vstr(factors).c_str(), got.c_str(), stop, why);
  CHECK(std::fabs(r.error - error) <= 1e-9 * error, "residuals of size %g, factors %s: %s, expected error %g", size, mc::vstr(factors).c_str(), got.c_str(), error);
  CHECK(Distance(r.pose, q, t) < 1e-7, "residuals of size %g, factors %s: %s, expected translation %s", size, mc::vstr(factors).c_str(), got.c_str(), mc::mstr(t).c_str());
  (void)by_error; ctx.step(evaluations); ctx.count(why); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

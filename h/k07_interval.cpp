// K07: tick lengths over every sequence of clock readings.
#include "mc/mc.hpp"
#include "ekf_localizer/update_interval.hpp"
static void Sequence(mc::Ctx & ctx, double frequency, const std::vector<double> & clock, int depth)
{
  UpdateInterval u(frequency);
  const double period = std::min(10., 1. / frequency);
  bool first = true; double last = 0;
  std::string h = mc::format("default %g Hz:", frequency);
  for (int i = 0; i < depth; i++) {
    const double t = ctx.pick(clock);
    h += mc::format(" %.10g", t);
    double dt = 0; bool threw = false;
    try {dt = u.Compute(t);} catch (const std::invalid_argument &) {threw = true;}
    ctx.step();
    if (!first && t < last) {
      CHECK(threw, "%s: the jump back from %.17g gives %.17g instead of an error", h.c_str(), last, dt);
      h += "(back)";
      continue;
    }
    CHECK(!threw, "%s: error although the clock did not jump back from %.17g", h.c_str(), last);
    const double e = first ? (frequency > 0.1 ? period : 10.) : std::min(10., t - last);
    CHECK(mc::close(dt, e, 1e-9, 1e-12), "%s: tick length %.17g, expected %.17g", h.c_str(), dt, e);
    CHECK(dt <= 10., "%s: tick length %.17g exceeds ten seconds", h.c_str(), dt);
    if (!first && t == last) {CHECK(dt == 0., "%s: equal readings give %.17g", h.c_str(), dt);}
    first = false; last = t;
    ctx.state(mc::hash_double(mc::hash_double(9, last), frequency));
  }
  ctx.note("%s", h.c_str()); ctx.outcome(mc::hash_str(h));
}
MC_SCENARIO(small_clock) {Sequence(ctx, ctx.pick({50., 10., 0.1, 0.01, 1e6}), {0., 0.02, 1., 10.5, 30., -5.}, mc::tier(6, 8));}
MC_SCENARIO(epoch_clock) {Sequence(ctx, ctx.pick({50., 0.2}), {1.7e9, 1.7e9 + 0.02, std::nextafter(1.7e9, 2e9), 1.7e9 + 10, 1.7e9 + 10.0001, 1.7e9 + 9.9999, 1.8e9}, mc::tier(5, 7));}
MC_SCENARIO(around_the_cap)
{
  // every gap around ten seconds, to the microsecond
  const double gap = 10 + 1e-6 * ctx.range(-500, 500);
  UpdateInterval u(50.);
  const double start = ctx.pick({0., 100.});
  u.Compute(start);
  const double dt = u.Compute(start + gap);
  CHECK(mc::close(dt, std::min(10., gap), 1e-9, 0) && dt <= 10., "gap %.9g gives %.17g", gap, dt);
  ctx.step(2); ctx.outcome(mc::hash_double(1, gap));
}
MC_SCENARIO(tiny_gaps)
{
  const int e = ctx.range(-60, 4);
  UpdateInterval u(50.);
  u.Compute(0.);
  const double gap = std::ldexp(1., e), dt = u.Compute(gap);
  CHECK(mc::close(dt, std::min(10., gap), 1e-9, 0), "gap %.9g gives %.17g", gap, dt);
  ctx.step(2); ctx.outcome(e + 100);
}
MC_SCENARIO(default_period)
{
  const double f = ctx.pick({0., -1., 0.05, 0.1, 0.100001, 1., 20., 50., 100., 1e9});
  UpdateInterval u(f);
  const double dt = u.Compute(ctx.pick({0., -3., 1e9}));
  CHECK(mc::close(dt, f > 0.1 ? 1 / f : 10., 1e-12, 0), "default frequency %g: the first tick length is %g", f, dt);
  ctx.step(); ctx.outcome(mc::hash_double(1, dt));
}
MC_MAIN

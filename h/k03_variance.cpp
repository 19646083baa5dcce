// K03: the variances handed to the process noise are the squared standard deviations times the squared step.
#include "mc/mc.hpp"
#include <tf2/utils.h>
#include "ekf_localizer/ekf_localizer.hpp"
MC_SCENARIO(scaled_variances)
{
  const double a = ctx.pick({0., 0.005, 3.}), b = ctx.pick({0., 0.001, 2.}), c = ctx.pick({0., 5.}), d = ctx.pick({0., 1., 7.}), dt = ctx.pick({0., 0.02, 0.5, 10.});
  const Eigen::Vector4d v = DefaultVariance(a, b, c, d).TimeScaledVariances(dt);
  const double in[] = {a, b, c, d};
  for (int i = 0; i < 4; i++) {CHECK(mc::close(v(i), in[i] * in[i] * dt * dt, 1e-12, 0), "stddevs %g %g %g %g step %g: variance %d is %g", a, b, c, d, dt, i, v(i));}
  ctx.step(); ctx.outcome(mc::hash_str(ctx.trace()));
}
MC_MAIN

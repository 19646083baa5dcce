// K08: parts of the state used by the measurements.
#include "mc/mc.hpp"
#include <tf2/utils.h>
#include "ekf_localizer/pose_measurement.hpp"
#include "ekf_localizer/twist_measurement.hpp"
// what the measurement modules take from a state and from its covariance is what the messages carry
MC_SCENARIO(state_parts)
{
  Vector6d x; Eigen::MatrixXd P(6, 6);
  const int shift = ctx.choose(5);
  for (int i = 0; i < 6; i++) {x(i) = i + 0.25 * shift; for (int j = 0; j < 6; j++) {P(i, j) = 10 * i + j + shift;}}
  CHECK(GetPoseState(x) == x.head<3>() && GetTwistState(x) == x.tail<2>(), "state parts");
  CHECK(PoseCovariance(P) == P.topLeftCorner(3, 3) && TwistCovariance(P) == P.bottomRightCorner(2, 2), "covariance parts");
  CHECK((PoseMeasurementMatrix() * x) == x.head<3>() && (TwistMeasurementMatrix() * x) == x.tail<2>(), "measurement matrices");
  ctx.step(6); ctx.outcome(shift);
}
MC_MAIN

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
X = "extraction/include/lidar_feature_extraction/"
XS = "extraction/src/"
L = "localization/include/lidar_feature_localization/"
LS = "localization/src/"
LI = "lib/include/lidar_feature_library/"
EK = "ekf_localizer/include/ekf_localizer/"
ES = "ekf_localizer/src/"

# ------------------------------------------------------------------ extraction
p("X01", "Every scan point lands in exactly one azimuth-ordered ring sequence",
  "For every scan, each point index appears exactly once, in the sequence of the ring number it carries, and rings with fewer points than the requested minimum (and only those) are dropped. Each sequence is in non-decreasing azimuth, meaning the angle atan2(y, x) in (-pi, pi], for every placement of the points, including points on the axes, at the origin, with equal azimuth at different distances, and with very small or very large coordinates. The pairwise order used for sorting is a strict weak order that agrees with atan2.",
  ["inputs"], "all scans of up to 6 points over a grid of planar positions and ring numbers; all pairs and triples of positions over a wide grid for the order",
  "The unit tests sort a handful of hand-written point lists and are not even built without ROS; order axioms are universally quantified over pairs and triples.",
  [X+"ring.hpp", XS+"ring.cpp", X+"mapped_points.hpp"],
  [("azimuth comparator", X+"ring.hpp AHasSmallerPolarAngleThanB"), ("ring grouping, sorting, pruning", X+"ring.hpp ExtractAngleSortedRings, "+XS+"ring.cpp RemoveSparseRings")])
p("X02", "Curvature is the squared window deviation and zero at the borders",
  "For a padding k and a range sequence of at least 2k+1 values, the curvature has the length of the input, is exactly zero for the first and last k positions, and elsewhere equals the square of (the sum of the k ranges on each side minus 2k times the centre range). Shorter sequences are rejected with an invalid-argument error and never read out of bounds, and the general windowed weighting behind it is the sliding inner product with the same length and zero-border rules.",
  ["inputs", "configurations"], "every range sequence over a small value alphabet for every (length, padding) pair within the bound, plus every single-position impulse in long sequences",
  "Tests fix one or two sequences with one padding; a wrong weight, an off-by-one at one border or a size-dependent error shows only at other (length, padding, position) triples.",
  [XS+"curvature.cpp", XS+"convolution.cpp", X+"math.hpp"],
  [("curvature", XS+"curvature.cpp CalcCurvature, MakeWeight"), ("windowed inner product", XS+"convolution.cpp Convolution1D")])
p("X03", "Blocks tile a ring's usable span in order, without gaps or empty blocks",
  "For every size, block count and padding, the blocks of a ring are consecutive half-open intervals that start at the padding, end at size minus padding, leave no gap or overlap, are never empty, and differ in length by at most one point. Asking for more blocks than there are usable points is rejected with an invalid-argument error and asking for a block number outside [0, count) with an out-of-range error.",
  ["inputs", "configurations"], "all (size, block count, padding) triples within the bound, and all (start, end, count) of the unpadded form",
  "Tests check four hand-picked splits; the boundaries are computed by arithmetic that can round differently at any of the untested triples.",
  [XS+"index_range.cpp", X+"index_range.hpp"],
  [("block boundaries", XS+"index_range.cpp IndexRange")])
p("X04", "Feature labels obey thresholds, priority and neighbour suppression",
  "Within each block, points are taken as edges in decreasing curvature and then as surfaces in increasing curvature: a point becomes an edge only if its curvature is at least the edge threshold and no earlier pick suppressed it, and a surface only if its curvature is at most the surface threshold and it is still unlabelled. Each pick suppresses up to the padding number of points on both sides, reaching outward only while consecutive points are neighbours and never beyond the block, so no two edges (and no two surfaces) of a block lie within that reach of each other and every unlabelled point is excluded only by its curvature. Points outside the blocks stay unlabelled.",
  ["inputs", "configurations"], "all curvature sequences over small alphabets x all neighbour-gap patterns x paddings x block counts x threshold pairs within the bound",
  "The label tests use single fixed sequences and need ROS to build; suppression depends on the combination of order, gaps, padding and block borders.",
  [X+"label.hpp", X+"fill.hpp", X+"algorithm.hpp", LI+"span.hpp"],
  [("edge and surface selection", X+"label.hpp EdgeLabel, SurfaceLabel, AssignLabel"), ("suppression", X+"fill.hpp FillNeighbors"), ("ordering", X+"algorithm.hpp Argsort")])
p("X05", "Occluded, out-of-range and parallel-beam points never remain features",
  "A point whose planar range is outside [minimum, maximum], both ends allowed, is marked out of range; a point whose range differs from both its predecessor's and its successor's by more than the given ratio of its own range (where the two are equal up to rounding, either is allowed) is marked as parallel beam. Where two neighbouring points are separated by more than the depth threshold, the farther point and the padding number of further points behind it are marked occluded, from either side and only while consecutive points are neighbours; this happens where that many points fit between the separation and the end of the ring (from the left i + padding + 2 <= n, from the right i >= padding + 1). All other labels are left as they were, nothing is read or written out of bounds, and these marks replace any feature label.",
  ["inputs", "configurations"], "all range sequences over a small alphabet x all neighbour-gap patterns x paddings x initial labels within the bound",
  "The tests for these passes are not built without ROS and use one sequence each; the passes interact with borders, gaps and with one another.",
  [X+"occlusion.hpp", X+"out_of_range.hpp", X+"parallel_beam.hpp", X+"fill.hpp"],
  [("occlusion from both sides", X+"occlusion.hpp"), ("range gate", X+"out_of_range.hpp"), ("parallel beam", X+"parallel_beam.hpp")])
p("X06", "The extraction node turns every scan into consistent feature clouds",
  "For every dense scan with a ring channel the node publishes exactly one edge cloud, one surface cloud and one coloured cloud, all carrying the scan's stamp and the lidar feature frame. Edge and surface points are unmodified input points, no input point is both, the two clouds are exactly what ring sorting, curvature, block-wise labelling and the occlusion, range and parallel-beam rules select with the configured parameters, and the coloured cloud holds each point of every processed ring once with the colour of its label. A ring that is too sparse or cannot be processed contributes nothing and never affects what other rings contribute, and no scan makes the node crash or skip publishing. A scan that is not dense or has no ring channel makes the node ask for a shutdown, and no other scan does.",
  ["inputs", "configurations", "histories"], "all scans assembled from a finite set of ring shapes (ring count x shape x size x point order) under several parameter sets, and sequences of scans",
  "No test runs the node at all: it needs ROS to build, and unit tests of the pieces cannot show that they are combined in the right order with the right parameters.",
  ["extraction/app/feature_extraction.cpp", X+"hyper_parameter.hpp", X+"color_points.hpp", XS+"color_points.cpp", LI+"ros_msg.hpp"],
  [("scan callback", "extraction/app/feature_extraction.cpp FeatureExtraction::Callback"), ("parameters", X+"hyper_parameter.hpp")])
p("X07", "Beam geometry: range, angle and adjacency follow the planar definition",
  "The range of a point is its planar distance from the sensor, and the angle between two points is the planar angle in [0, pi], symmetric, independent of distance, and zero up to rounding for collinear points in the same direction; asking for the angle of two points at the origin is an invalid-argument error, and of exactly one it is unspecified. Two points are neighbours exactly when neither is at the origin and their angle is smaller than the threshold, an index outside the ring is an out-of-range error, a ring of fewer than two points is rejected, and a slice or sub-range of a ring gives the same answers as the whole ring at shifted indices.",
  ["inputs", "configurations"], "all pairs of grid points at all scales within the bound, all rings of up to 6 points, all slices and sub-ranges",
  "Tests try a few angles; rounding makes individual collinear pairs behave differently, and slices are tested at one offset.",
  [XS+"math.cpp", X+"neighbor.hpp", X+"range.hpp", X+"mapped_points.hpp", X+"math.hpp"],
  [("angle", XS+"math.cpp CalcRadian"), ("adjacency", X+"neighbor.hpp"), ("ranges", X+"range.hpp")])
# ------------------------------------------------------------------ library
p("L01", "Median, deviation, scale and robust weights follow their definitions",
  "The median of any non-empty list is the middle of the sorted list, or the mean of the two middle values, regardless of order, duplicates and length, and an empty list is an invalid-argument error. The robust scale is 1.4826 times the median absolute deviation from the median, is never negative, is unchanged by shifting and scales with the data; the sample standard deviation uses n-1. The robust loss equals the error below the squared threshold and 2k*sqrt(e)-k^2 above it, its weight is the derivative of the loss, in (0, 1], non-increasing and continuous at the threshold.",
  ["inputs"], "every list over a small alphabet up to length 9 and every permutation pattern of longer lists within the bound; a dense grid of errors and thresholds",
  "Tests check one odd and one even list and one sampled normal distribution; selection errors depend on length, order and ties.",
  ["lib/src/stats.cpp", LS+"robust.cpp", "lib/src/random.cpp", LS+"optimizer.cpp"],
  [("median", "lib/src/stats.cpp Median"), ("MAD, scale, Huber", LS+"robust.cpp")])
p("L02", "Pose, covariance, cloud and marker conversions lose nothing",
  "Converting a pose, vector, quaternion, twist, covariance or point cloud to its message and back returns the same value, with every component, time stamp and frame name in its own field, covariance entry (i, j) at position 6i+j, and both cloud-to-message overloads keep every point and field. A rigid transform built from a rotation and a translation maps each point to rotation times point plus translation, leaves further components of the vector untouched and has a proper last row, and line markers hold both end points of every added line in order.",
  ["inputs"], "each field set to distinguishable values one and two at a time, all rotations of the 24+ orientation grid, all small clouds over a value alphabet",
  "The conversion tests need ROS and are not built; a swapped or dropped field passes any test that uses zeros or symmetric values.",
  ["lib/src/ros_msg.cpp", "lib/src/eigen.cpp", LI+"ros_msg.hpp", LI+"eigen.hpp", LI+"pcl_utils.hpp", "lib/src/pcl_utils.cpp", LI+"convert_point_cloud_type.hpp"],
  [("message conversions", "lib/src/ros_msg.cpp"), ("Eigen conversions", "lib/src/eigen.cpp"), ("cloud transforms", LI+"pcl_utils.hpp")])
p("L03", "Selection primitives pick exactly the requested elements in order",
  "Selecting by indices, by value, by flags, by rows, by an index range or through a view over a part of a sequence returns exactly the selected elements in the requested order with their original values, reads and writes through a view reach exactly the viewed elements, and an index outside the sequence or view is an out-of-range error. Argument sorting returns a permutation of all indices whose values are non-decreasing, sorting three values returns them in ascending order, stacking and converting vectors to matrices keeps every element at its row, and a random index list is a permutation of 0..n-1.",
  ["inputs"], "all sequences over a small alphabet up to length 6 with all index lists, all views and all flags; sizes up to several hundred by single sweeps",
  "Tests use one short array per function; boundary lengths, duplicates, empty selections and view offsets are not covered.",
  [LI+"algorithm.hpp", LI+"span.hpp", "lib/src/algorithm.cpp", LI+"eigen.hpp", L+"filter.hpp", X+"algorithm.hpp", XS+"iterator.cpp", "lib/src/random.cpp", L+"pointcloud_to_matrix.hpp"],
  [("selection", LI+"algorithm.hpp, "+L+"filter.hpp"), ("views", LI+"span.hpp"), ("argsort", X+"algorithm.hpp")])
# ------------------------------------------------------------------ rotation
p("R01", "Quaternion matrices, hat and conversions satisfy their algebra",
  "For all quaternions q and r, the left matrix of q times r and the right matrix of r times q both equal the product q*r in (w, x, y, z) order, and conversion to and from that vector order is lossless. The hat matrix of v is skew-symmetric and maps every w to the cross product of v and w. Roll, pitch and yaw give the rotation yaw about z after pitch about y after roll about x for every angle triple, and a rotation vector gives the unit quaternion of that axis and angle, the identity for the zero vector and a continuous result near it.",
  ["inputs"], "full integer grids larger than the polynomial degree in every variable (which decides the polynomial identities), and full angle grids",
  "Tests check one or a few numeric instances; an identity holds for all inputs only if it holds on a grid that exceeds its degree.",
  ["rotationlib/src/quaternion.cpp", "rotationlib/src/hat.cpp", LS+"posevec.cpp"],
  [("quaternion matrices", "rotationlib/src/quaternion.cpp"), ("hat", "rotationlib/src/hat.cpp"), ("rotation vector", LS+"posevec.cpp")])
p("R02", "Derivatives of a rotated point match the rotation they differentiate",
  "For every quaternion q (unit or not) and point p, the derivative of the rotated point with respect to (w, x, y, z) is the exact derivative of q*p*conj(q) in each component. Stacked Jacobian rows built from it equal coefficient times that derivative and the coefficient itself, one row per point in order, and the tangent-space map used to turn it into a rotation-vector derivative is half the imaginary columns of the left quaternion matrix, with the translation block the identity.",
  ["inputs"], "the full integer grid of q and p beyond the polynomial degree; all row orders for small point lists",
  "One numerical-difference test at one random point cannot establish a polynomial identity, and stacking is tested for one row pattern.",
  ["rotationlib/src/jacobian/quaternion.cpp", LS+"jacobian.cpp", LS+"optimizer.cpp", LS+"alignment.cpp"],
  [("rotated-point derivative", "rotationlib/src/jacobian/quaternion.cpp DRpDq"), ("Jacobian rows", LS+"jacobian.cpp MakeJacobian"), ("tangent map", LS+"optimizer.cpp MakeM")])
# ------------------------------------------------------------------ optimisation
p("O01", "Optimisation always stops within its limit with a truthful result",
  "For every sequence of answers of the problem being optimised, the optimiser evaluates it at most the maximum number of times and stops at the first of: no residuals (failure, pose unchanged by this step), total error larger than at the previous evaluation (success), error scale larger than at the previous evaluation (success), or a pose change below 1e-3 in both rotation and translation (success, change applied); otherwise it ends at the limit with failure. The reported pose, iteration number, error and scale are those of the point where it stopped, each evaluation receives the pose produced by the previous step, and starting from any pose with no data returns that pose.",
  ["histories", "configurations"], "every sequence of problem answers from a finite menu up to the depth bound, for every iteration limit up to the bound",
  "Tests run the optimiser on three data sets, each taking one exit; the other exits, their order of precedence and their reported values are not exercised.",
  [L+"optimizer.hpp", L+"optimization_result.hpp", LS+"optimizer.cpp"],
  [("iteration loop", L+"optimizer.hpp Optimizer::Run"), ("results", L+"optimization_result.hpp")])
p("O02", "Each pose update solves the weighted normal equations",
  "For every set of residuals, Jacobians and weights, the update is the exact minimiser of the weighted linearised squared residual in the tangent space, and the zero update when the unweighted problem is degenerate, meaning some eigenvalue of the summed Jacobian products is smaller in magnitude than the threshold. Errors are the squared norms of the residuals, normalised by their robust scale plus 1e-16, each weight is the robust weight of its own normalised error, and the resulting rotation increment multiplies on the right while the translation increment is added. Convergence is reported exactly when both increments are below 1e-3.",
  ["inputs"], "all combinations of a Jacobian/residual/weight menu for up to the bounded number of terms; full grids for thresholds",
  "Tests check one random system and one degenerate one; sign, order and weighting errors can cancel in a single instance.",
  [LS+"optimizer.cpp", LS+"degenerate.cpp", LS+"robust.cpp", L+"math.hpp"],
  [("normal equations", LS+"optimizer.cpp WeightedUpdate, CalcUpdate"), ("degeneracy", LS+"degenerate.cpp"), ("weights", LS+"optimizer.cpp NormalizeErrorScale, ComputeWeights")])
p("O03", "Residuals vanish on the feature and Jacobians are their derivatives",
  "For every pose, map and scan, an edge residual is the cross product of the vectors from the two line points to the transformed scan point and is zero exactly on the line, a surface residual is the signed distance of the transformed point to the plane fitted to its nearest map points, and an alignment residual is transformed source minus target. Each Jacobian is the derivative of its residual with respect to the quaternion components and the translation (up to the common sign convention of the edge term), and the combined problem returns one residual and one Jacobian per edge point followed by those of the downsampled surface points. The mean and covariance used for lines and the reliability test on principal directions follow their definitions for every point set.",
  ["inputs"], "full integer grids of poses, points and line/plane placements beyond the polynomial degree, and all small point sets over a coordinate alphabet",
  "Tests evaluate one random placement each and partly cannot be linked without ROS dependencies; a wrong term can vanish at a particular placement.",
  [LS+"edge.cpp", L+"edge.hpp", L+"surface.hpp", LS+"alignment.cpp", L+"loam_optimization_problem.hpp", LS+"jacobian.cpp"],
  [("edge terms", LS+"edge.cpp, "+L+"edge.hpp"), ("surface terms", L+"surface.hpp"), ("alignment terms", LS+"alignment.cpp")])
p("O04", "Registration recovers the true pose from any start in its basin",
  "For every noise-free pair of point sets in general position related by a rigid motion within the tested basin (rotations up to 0.6 rad for alignment, start offsets up to 0.08 rad and 0.4 m for localisation) and spanning three dimensions, alignment converges with success to that motion; the same holds for scan-to-map localisation of a scan taken from a map of straight edges and planes. Up to 3 gross outliers among 30 correspondences do not displace the result beyond 0.7 m and 0.08 rad, and an empty or degenerate scan leaves the start pose unchanged.",
  ["inputs", "configurations"], "all combinations of true motions, start offsets, geometries and outlier positions of the finite menus",
  "One data set with one motion is tested; convergence is a claim over all motions, starts and geometries in the basin.",
  [L+"optimizer.hpp", LS+"optimizer.cpp", LS+"alignment.cpp", L+"localizer.hpp", L+"loam_optimization_problem.hpp"],
  [("alignment", LS+"alignment.cpp AlignmentProblem"), ("localizer", L+"localizer.hpp Localizer::Update")])
# ------------------------------------------------------------------ localisation
p("N01", "Nearest-neighbour search returns exactly the k closest map points",
  "For every map, query and k up to the map size, the search returns k distinct map rows that are the k closest to the query, in non-decreasing order of distance, together with their squared distances. The answer does not depend on the leaf size or on the order of the map points (up to ties), and the map handed in is copied, so later changes to it have no effect.",
  ["inputs", "configurations"], "all maps of up to 6 points over a grid (with duplicates and collinear layouts) x all queries x all k x leaf sizes, and larger structured maps by sweep",
  "The repository's test for it cannot be built here and tests one map; index structures go wrong at splits, ties and duplicates.",
  [LS+"kdtree.cpp", L+"kdtree.hpp", L+"pointcloud_to_matrix.hpp", L+"point_to_vector.hpp"],
  [("kd-tree wrapper", LS+"kdtree.cpp KDTreeEigen")])
p("N02", "The prior-pose store answers like a sorted map for every history",
  "After every history of insertions and prunings, the store holds exactly one object per inserted stamp, the latest inserted one, minus those pruned; its size is their number. A query returns the stored stamp closest to the asked time together with its object, the later one when two are equally close, and the earliest or latest stamp when the time is outside the stored span. Pruning at time t keeps exactly the objects stamped at or before t, whatever the store holds, and leaves their objects untouched.",
  ["histories"], "every sequence of insert, query, prune and size operations over colliding stamps up to the depth bound, by breadth-first search over all reachable store contents",
  "Tests run three fixed histories that never prune everything and never reinsert a stamp.",
  [L+"stamp_sorted_objects.hpp"],
  [("stamp-sorted store", L+"stamp_sorted_objects.hpp StampSortedObjects")])
p("N03", "The prior-pose store is linearizable under concurrent callbacks",
  "When several callbacks insert, query, prune and ask for the size at the same time, in every interleaving each call takes effect atomically at one moment between its start and its return, so results and final contents equal those of some sequential order. No interleaving deadlocks or leaves the store locked, and no two threads access the stored data without synchronisation.",
  ["schedules"], "all interleavings, at the granularity of every memory access and lock operation, of 2-3 threads with 1-2 operations each, up to the preemption bound",
  "No test uses more than one thread, and a test could only sample schedules.",
  [L+"stamp_sorted_objects.hpp"],
  [("mutex-protected store", L+"stamp_sorted_objects.hpp StampSortedObjects")])
p("N04", "The localization node publishes only scan poses refined from the best prior",
  "For every order of arrival of edge scans, surface scans and prior poses, the node publishes exactly one pose and one transform for each edge/surface pair with equal stamps that completes while at least one prior is available, and nothing otherwise; a completed pair ends the wait of older unpaired scans, of which at most ten are kept. Both carry the scan's stamp, the map frame and the same pose, which is the optimisation result started from the available prior whose stamp is closest to the scan's (either of two equally close ones); the transform's child is the lidar feature frame and the covariance is the fixed diagonal. Priors received as odometry and as stamped poses are equivalent, and after a scan only priors stamped more than one second after it are discarded.",
  ["histories"], "every sequence of message arrivals over small stamp, pose and scan alphabets up to the depth bound, against a reference model of the node",
  "No test drives the node: it needs ROS, and behaviour depends on the arrival history.",
  [L+"subscriber.hpp", L+"localizer.hpp", "localization/app/localization.cpp", L+"stamp_sorted_objects.hpp"],
  [("pose update", L+"subscriber.hpp LocalizationSubscriber"), ("localizer", L+"localizer.hpp")])
p("N06", "The localization node keeps its guarantees while its callbacks run in parallel",
  "The node puts the two kinds of priors into callback groups of their own, so that an executor with several threads may run them while a scan is being handled. In every interleaving, for every moment at which a prior arrives relative to a scan: no data is accessed by two callbacks without synchronisation, nothing deadlocks or fails, every prior is stored with its own stamp and pose and none is lost, and every completed scan yields exactly one pose and transform, the result of one optimisation started from a prior that was the closest of those available at some moment while the scan was handled (no output only if there was none at some such moment). Afterwards the stored priors are those that some order of the callbacks leaves.",
  ["schedules"], "all interleavings of 1-2 scans with 1-3 priors in the node's callback groups, switching at every lock and atomic operation up to the preemption bound, every instrumented memory access watched for races",
  "No test runs the node, and callbacks in parallel only fail in particular schedules.",
  [L+"subscriber.hpp", L+"stamp_sorted_objects.hpp"],
  [("callbacks and their groups", L+"subscriber.hpp LocalizationSubscriber")])
p("N05", "Odometry accumulates each scan once, in the map frame, and keeps recent n",
  "For every sequence of scans the first scan is stored at the identity pose without an update, and every later scan first updates the pose once, from the previous pose and the recent part of the map, and is then stored transformed by the new pose. The recent part is the concatenation, oldest first, of the last min(n, count) stored scans and the whole map that of all of them, points and their other fields intact; stored scans are copies that later changes to the caller's cloud do not affect.",
  ["histories"], "every sequence of scans and queries over small alphabets of clouds, poses and n up to the depth bound",
  "Tests run one sequence of a few scans with one n (and the odometry test is not built).",
  [L+"odometry.hpp", L+"recent_scans.hpp", L+"point_cloud_map.hpp"],
  [("odometry step", L+"odometry.hpp Odometry::Update"), ("scan buffer", L+"recent_scans.hpp RecentScans")])
# ------------------------------------------------------------------ EKF
p("K01", "Time-delay Kalman filter equals the augmented-state Kalman filter",
  "For every history of predictions and delayed measurements, the current and every past state estimate and the current covariance equal those of a Kalman filter on the stacked state of the last N steps, so after a prediction the estimate d steps ago is what the current estimate was d predictions earlier as corrected since. An update with delay d acts through the measurement matrix placed at step d and corrects all steps, the covariance stays symmetric and positive semi-definite, and the plain Kalman filter satisfies the same textbook predict and update equations.",
  ["histories", "configurations"], "every sequence of predict/update(delay) operations over small matrix menus up to the depth bound for N up to 4, state dimensions 1 to 3",
  "Tests check the helper functions at one size each and never a sequence of operations with different delays.",
  ["kalman_filter/src/time_delay_kalman_filter.cpp", "kalman_filter/src/kalman_filter.cpp", "kalman_filter/include/kalman_filter/kalman_filter.hpp"],
  [("augmented filter", "kalman_filter/src/time_delay_kalman_filter.cpp"), ("plain filter", "kalman_filter/include/kalman_filter/kalman_filter.hpp")])
p("K02", "A rejected filter update is reported and leaves the estimate untouched",
  "An update whose delay is not smaller than the number of kept steps, or whose gain contains a NaN or an infinity, raises an invalid-argument error, for the time-delay filter and (gain only) the plain filter. After the error, state, covariance and every past state are bit-for-bit what they were before, and the filter continues as if the update had not been attempted.",
  ["fault_sequences", "histories"], "every history of valid operations with a rejected update of each kind injected at every position",
  "Tests check that an exception is thrown once; they never look at the state afterwards or continue.",
  ["kalman_filter/src/time_delay_kalman_filter.cpp", "kalman_filter/src/kalman_filter.cpp", LI+"numeric.hpp"],
  [("gain and delay checks", "kalman_filter/src/time_delay_kalman_filter.cpp UpdateWithDelay"), ("NaN/Inf detection", LI+"numeric.hpp")])
p("K03", "EKF motion model, linearisation and noise agree for every state and step",
  "For every state and time step the prediction moves the vehicle by speed times step along heading plus bias, turns it by yaw rate times step with the heading wrapped to [-pi, pi], and leaves bias, speed and rate unchanged. The transition matrix is the derivative of that prediction in every entry, the process noise is the diagonal of the four given variances on heading, bias, speed and rate with zeros elsewhere, and angle wrapping returns the equivalent angle in [-pi, pi] for every finite input.",
  ["inputs"], "full grid over heading, bias, speed, rate, position and step including zero, negative and large values and angles around multiples of pi",
  "Tests evaluate one state with one step; missing terms vanish at that state.",
  [ES+"state_transition.cpp", EK+"normalize_yaw.hpp", EK+"state_index.hpp"],
  [("motion model", ES+"state_transition.cpp")])
p("K04", "Each measurement is applied once per tick for exactly its smoothing steps",
  "For every interleaving of message arrivals, ticks and resets, each pose or twist message is used exactly once in each of the next S ticks after its arrival, S being the configured smoothing count, in arrival order within each round, and never afterwards. A reset discards all pending messages, and each use weighs the message with its covariance multiplied by S.",
  ["histories", "configurations"], "every sequence of push, tick, clear up to the depth bound for S from 1 to 5, on the queue itself and through the pose and twist updates",
  "No test exercises the queue or an update loop; the errors appear only when messages of different age are pending together.",
  [EK+"aged_message_queue.hpp", ES+"pose_measurement.cpp", ES+"twist_measurement.cpp"],
  [("aged queue", EK+"aged_message_queue.hpp"), ("per-tick loop", ES+"pose_measurement.cpp Update, "+ES+"twist_measurement.cpp Update")])
p("K05", "Measurements are gated and applied at the right delay, or ignored entirely",
  "For every message with a non-negative stamp the delay step is the message age (zero if stamped in the future) divided by the tick length, rounded to nearest (a half either way); a message too old for the kept history, with a non-finite measured value, or farther than the gate distance in Mahalanobis terms from the estimate at its delay is ignored and leaves the filter unchanged. Every other message updates the filter with its own position and heading (or speed and yaw rate), its own covariance entries and that delay, the heading difference taken the short way around the circle. No message, whatever its stamp or content, makes the filter read outside its history, crash or hold a non-finite estimate.",
  ["inputs", "histories"], "all combinations of stamp ages (future, zero, half-step, limit, decades), tick lengths including zero, measured values including NaN/Inf and wrap-around headings, covariances, gates and prior states",
  "The measurement tests cover only the constant matrices and need ROS; the gating path is never executed.",
  [ES+"pose_measurement.cpp", ES+"twist_measurement.cpp", ES+"check.cpp", EK+"delay.hpp", ES+"mahalanobis.cpp"],
  [("pose update", ES+"pose_measurement.cpp"), ("twist update", ES+"twist_measurement.cpp"), ("gates", ES+"check.cpp, "+ES+"mahalanobis.cpp"), ("delay", EK+"delay.hpp")])
p("K06", "EKF node: lifecycle of initialisation, ticks, re-initialisation and faults",
  "The node publishes nothing before an initial pose with a known frame has been received, and from then on exactly one odometry and one transform per timer tick whose clock is not behind the last one, stamped with the current time, in the map frame, with the same pose, child base_link, all values finite. Every finite initial pose restarts the estimate there (position and heading taken into the map frame, height, roll and pitch included, zero speed and bias, its variances, no pending measurements), whatever happened before; one whose frame cannot be resolved changes nothing. The published values are the model's prediction corrected by the received measurements, heading plus estimated bias, speed and yaw rate in the twist, and height, roll and pitch filtered from the received poses.",
  ["histories", "fault_sequences"], "every sequence of initial poses (resolvable or not), pose and twist messages (good, late, NaN), clock steps (normal, zero, backward) and timer ticks up to the depth bound, against a reference model",
  "The node test needs ROS, real time and waits for output; it covers no fault, no re-initialisation and no order of events.",
  [ES+"ekf_localizer.cpp", EK+"ekf_localizer.hpp", ES+"tf.cpp", ES+"update_interval.cpp"],
  [("timer tick", ES+"ekf_localizer.cpp timerCallback"), ("initial pose", ES+"ekf_localizer.cpp callbackInitialPose"), ("1-D filters", EK+"ekf_localizer.hpp Simple1DFilter")])
p("K07", "Tick length: default first, real afterwards, capped, never backwards",
  "For every sequence of clock readings, the first tick length is the default period, each later one is the time since the last accepted reading, and none exceeds ten seconds. A reading earlier than the last accepted one is an invalid-argument error that changes nothing, so the next reading is measured from the last accepted one; equal readings give zero.",
  ["histories", "configurations"], "every sequence of clock readings over a menu of steps (zero, tiny, normal, long, backward) up to the depth bound for several default frequencies",
  "Tests make two or three calls; they never continue after a rejected reading.",
  [ES+"update_interval.cpp", EK+"update_interval.hpp"],
  [("interval", ES+"update_interval.cpp UpdateInterval::Compute")])
p("K08", "EKF covariances and frame names are carried to the right message fields",
  "For every filter covariance, the pose message holds the x, y and heading block at rows and columns 0, 1, 5 and the twist message the speed and yaw-rate block at rows and columns 0 and 5, zeros elsewhere; measurement covariances are read from the same places. A leading slash, and only the first one, is removed from a frame name, and any name, including the empty one, is handled without error. The Mahalanobis gate accepts exactly the points whose squared distance in the inverse covariance is at most the square of the gate distance.",
  ["inputs"], "covariances with every entry distinguishable, all strings over a small alphabet up to length 4, full grids of vectors, covariances and gate distances",
  "Tests use one matrix (partly not built) and two strings; a transposed or swapped entry is invisible with symmetric values.",
  [ES+"covariance.cpp", ES+"string.cpp", ES+"mahalanobis.cpp", ES+"pose_measurement.cpp", ES+"twist_measurement.cpp"],
  [("covariance mapping", ES+"covariance.cpp"), ("frame names", ES+"string.cpp"), ("gate", ES+"mahalanobis.cpp")])
# ------------------------------------------------------------------ mapping and tools
p("M01", "The map gains each keyframe scan once, transformed by its own pose",
  "For every sequence of scan/pose pairs with equal stamps, a non-empty scan is added to the map, transformed by its pose, exactly when the map is empty or the pose differs from that of the last added scan by at least 1 m or by a rotation whose quaternion vector part is at least 0.1 long; all other scans leave the map and the reference pose unchanged. Points already in the map are never altered, and scans and poses without a partner of the same stamp have no effect.",
  ["histories"], "every sequence of scan/pose messages over menus of poses around both thresholds, empty and non-empty scans, and arrival orders, up to the depth bound",
  "The map tests need ROS and check one call each; keyframe policy is a statement about histories.",
  ["mapping/include/lidar_feature_mapping/map.hpp", "mapping/src/mapping.cpp"],
  [("map builder", "mapping/include/lidar_feature_mapping/map.hpp MapBuilder::Callback"), ("map", "mapping/include/lidar_feature_mapping/map.hpp Map")])
p("M02", "The path grows by one pose per message and keeps all earlier ones",
  "For every sequence of pose messages, with or without covariance, each message makes the path generator publish one path whose header is the message's header and whose poses are all poses received so far in arrival order, each with its own header. Earlier poses are never changed, dropped or reordered, and the same messages produce the same path in both input forms.",
  ["histories"], "every sequence of messages over a small alphabet of headers and poses up to the depth bound, for both node kinds",
  "The tests need ROS and send one or two messages.",
  ["path_generator/include/path_generator/path_generator.hpp", "path_generator/src/node.cpp"],
  [("path accumulation", "path_generator/include/path_generator/path_generator.hpp")])
p("M03", "The viewer frame is placed at the centroid of every received map",
  "For every received map cloud with at least one point, one static transform is broadcast from the configured map frame to the configured viewer frame whose translation is the mean of the map's points and whose rotation is the identity. Each map is handled by itself, whatever was received before, and a cloud without points produces no transform with non-finite values.",
  ["inputs", "histories"], "all clouds of up to 4 points over a coordinate alphabet, in all sequences up to the depth bound, for several frame names; large clouds by sweep",
  "There is no test for this node.",
  ["map_tf_generator/src/map_tf_generator_node.cpp"],
  [("centroid broadcast", "map_tf_generator/src/map_tf_generator_node.cpp onPointCloud")])
p("M04", "Point conversion keeps every valid point's values in the fixed output layout",
  "For every input cloud layout that contains x, y, z, intensity and ring, in any byte order, field order, field offsets and point step, the converter publishes one cloud with the fixed 32-byte layout in which each input point whose x, y, z are not all zero appears once, in order, with its own x, y, z, intensity and ring values in their fields; further input fields are dropped and zero points removed. The header is kept, width, row step and data length agree, the incoming message is not modified, and the result depends only on that message.",
  ["inputs", "configurations", "histories"], "all permutations of field order and a menu of offsets, extra fields, steps and byte orders x all small point lists, in sequences of messages",
  "The converter's tests need ROS, use one layout, and do not run here.",
  ["point_type_converter/point_type_converter/convert.py"],
  [("callback", "point_type_converter/point_type_converter/convert.py PointTypeConverter.callback")])
p("M05", "A saved map loads back unchanged and an empty map is never written",
  "For every non-empty map, saving it and loading the file returns the same points in the same order with the same field values, and the map loader publishes exactly one message with those points in the map frame. Saving an empty map writes no file and leaves an existing one untouched, and the loader refuses to start without a file name.",
  ["inputs", "histories"], "all clouds of up to 3 points over a value alphabet, all orders of saves of empty and non-empty maps, and clouds of larger sizes by sweep",
  "No test writes or reads a map file.",
  ["mapping/include/lidar_feature_mapping/map.hpp", L+"map_io.hpp", "map_loader/src/map_loader.cpp"],
  [("saving", "mapping/include/lidar_feature_mapping/map.hpp SaveMap, "+L+"map_io.hpp"), ("loading", "map_loader/src/map_loader.cpp")])
p("M06", "Launch files start existing programs and connect matching topics",
  "In every launch description, each remapped name is a topic the started node actually uses, every node's required input is produced by another node of the same description or is an external input of the system, and what is connected has the same message type. Parameters handed to a node are parameters it declares, with the declared type. A subscription gets what the connected publisher offers under their qualities of service. The stages form the documented chain: the extraction reads the converter's output, localisation and mapping read the extraction's features, and localisation and the EKF feed each other, however the launch arguments rename the outer topics.",
  ["configurations"], "every node, remapping and parameter of every launch description, under every combination of overridden launch arguments",
  "Launch tests only check file style.",
  ["lidar_feature_launch/launch/localization.launch.py", "lidar_feature_launch/launch/mapping.launch.py", "lidar_feature_launch/launch/odometry.launch.py", "map_tf_generator/launch/map_tf_generator.launch.xml", "lidar_feature_launch/config/lidar_feature_extraction.param.yaml"],
  [("launch descriptions", "lidar_feature_launch/launch/*.launch.py")])
p("S01", "The assembled system maps a static scene and tracks the vehicle in it",
  "When the mapping program is fed poses and the features which the extraction publishes, the maps it leaves are ones the localization node can use: with extraction, localization and EKF programs joined as the launch files join them, in a static scene with walls and pillars, for every delay and order of delivery up to the filter's horizon, gaps in the scans or in the speed measurements, and small errors of the initial pose, the following holds. Every raw scan yields one edge, one surface and one coloured cloud with its stamp; every pair of clouds yields exactly one pose with the scan's stamp in the map frame once the filter's output has reached the node, and none before; that pose is within centimetres and a hundredth of a radian of the sensor's true pose. From the initial pose on every filter tick yields one odometry with the time of the tick, finite, with a unit quaternion; it stays as near to the vehicle as the initial pose was and converges towards it, and with a correct initial pose it stays within centimetres and about a hundredth of a radian.",
  ["histories", "schedules", "configurations"], "every combination of delays of every scan and pose message, initial errors, start poses and moments of initialisation in short closed-loop drives; longer drives with fixed delay patterns and all gaps of a menu",
  "No test joins two of the programs, and none has a raw scan as input.",
  ["extraction/app/feature_extraction.cpp", "localization/app/localization.cpp", "ekf_localizer/src/ekf_localizer_node.cpp", "mapping/src/mapping.cpp", "lidar_feature_launch/config/lidar_feature_extraction.param.yaml"],
  [("the four programs", "extraction/app/feature_extraction.cpp, mapping/src/mapping.cpp, localization/app/localization.cpp, ekf_localizer/src/ekf_localizer_node.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

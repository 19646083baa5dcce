"""Per check: what is enumerated (quick tier; the thorough tier widens each axis), and what is assumed. Goes into the evidence."""

BOUNDS = {
    'X01': 'comparator: every pair of 290 points (axes, origin, magnitudes 1e-19..1e19, equal azimuths) plus transitivity over a triple sweep; clouds: all point lists of length <= 4 over 12 positions x 2 rings, all lists of 5-6 over 8 positions in one ring, ring numbers over {0..65535 corners}, minimum sizes -1..6, rings of 15..200 points in 5 strides x 8 starts x 4 tie patterns, all field-name lists of length <= 5',
    'X02': 'all range lists of length <= 8 over 2-4 values for padding 1-3; every length <= 70 x padding <= 10 x 5 shapes; rings of 256..4096 with a jump at 9 places; all kernels of 1-7 weights over all inputs up to 2 longer than the kernel',
    'X03': 'every size <= 170 x padding <= 12 x every block count, every size <= 5000 with typical paddings, sizes up to 2^31-1, every unpadded (begin -5..20, length -3..40)',
    'X04': 'every strict order of <= 6 curvatures x every gap pattern x padding 1-3 x thresholds at and between all ranks; all lists of <= 6 over 3 tied values; 8-11 points x 1-3 blocks x borders 0-2; rings of 40-360; every fill interval of <= 7 points and every gap pattern',
    'X05': 'every range list of <= 6 over 4 values that hit the thresholds exactly x every gap pattern x padding; lists of <= 4 over 7 values from 0 to 1e6 with thresholds around them; rings of 12 and 40 with a jump of 4 widths and a gap at every position',
    'X06': 'every shape (8) x size x arc x storage order of one ring under 4 parameter sets, every combination of <= 2 rings with 0-2 origin points, two scans in a row, organized clouds in 4 arrangements with row padding, default parameters, scans of 16 x 4000 and 128 x 1800 points',
    'X07': 'every pair of grid points incl. origin and 1e-19..1e19; 400 x 40 collinear pairs; the full circle in half degrees at every scale pair; all index lists of <= 4 into a larger cloud x every slice of every slice',
    'L01': 'all lists of <= 8 over 3-5 values, all permutations of <= 8 distinct values, lengths <= 130 x 6 orders, 3000 errors x 5 thresholds around the kink',
    'L02': 'about 600 rotations x translations, all vectors over a magnitude set, all 36 x 36 covariance pairs, all clouds of <= 3 over 5 points x 4 point types, sizes up to 70001, markers of <= 3 lines and up to 5000',
    'L03': 'all index lists of <= 4 into <= 4 elements (two invalid), all lists of <= 7 over 3 values, all views of <= 7 elements and all view indices, argsort of all lists <= 7 over 4 values and lengths 8..200 x 5 patterns, all triples of a value set, sizes up to 5000',
    'R01': '4^8 quaternion pairs (a lattice containing a basis of each bilinear argument), 6^6 vector pairs, 24^3 angle triples incl. vertical pitch and several turns, 125 directions x 25 magnitudes 0, 1e-300 .. 30 around the small-angle branch',
    'R02': '4^7 quaternion/point lattice (bilinear: decides all), rows 0..3 over 4 x 4 vectors and up to 1000, magnitudes 1e-8..1e8, tangent map lattice',
    'O01': 'all sequences of <= 5 answers over 8 kinds (no data, smaller/equal/larger error and scale, converging) x iteration limits, long runs up to limits of 300 stopped by every answer at every place (40) or near powers of two, residuals of every size 10^2..10^-12 growing and shrinking',
    'O02': 'all systems of <= 4 residuals over direction/weight menus, 2^-12..2^4 sizes around the degeneracy threshold, all diagonal spectra of <= 4 over values at the threshold, all error lists of <= 5 over 7 values, sizes 5..5000, normal equations of 1000..66000 residuals, weights down to 1e-12, increments at the 1e-3 limit in every component',
    'O03': 'all triples of edge points over 27 positions, residual and Jacobian against dual-number derivatives at 6 poses; moments of all point lists <= 4 over 12 positions in 1, 3, 4 dimensions and lengths <= 48; spectra at the reliability ratio; planes of 3-15 neighbours x offsets x noise; problems of 0-2 scan points and of up to 300',
    'O04': 'every (direction, angle, distance) over 27 x 3 x 27 x 3 motions x 3 point sets x 3 starts for alignment; 1 and 3 outliers of 3 sizes in 4 places; localisation in 3 scenes x 7 x 2 x 7 x 2 starts; degenerate and empty scans',
    'N01': 'all maps of <= 4 points over a grid in 1-3 dimensions x leaf size x every query x every k; 7 patterns up to 1000 points in 1-4 dimensions; clouds of both point types; histories of 4 queries on one tree',
    'N02': 'all histories of 6 operations over 4 stamps x 7 prune times with 13 query times after each (2226 canonical states), the same with queries between, nanosecond stamps near 1.7e18, queries next to the middle of neighbours 2^11..2^39 units apart, stores of up to 70000 entries',
    'N03': 'every interleaving of 2 threads x 1-2 operations, 3 threads x 1, 2 threads x 3 (preemption bound), 4 threads x 1, node pattern, copies that throw; every instrumented access and mutex operation is a scheduling point, race detection by vector clocks',
    'N04': 'all arrival orders of 5 messages over 10 kinds; all prior sets of <= 2 among 11 stamps; all runs of 4 scans with deviations; lags of 1..25 scans; 1..1100 priors; clock and nanosecond stamps; the program itself with maps on disk and 24 starts',
    'S01': 'drives of 4 scans at 10 Hz with 50 Hz filter and speed: all 3^4 delay/order choices x 2 starts x 3 initial errors x 2 moments of initialisation (quick; 4^5 thorough); drives of 16 (40) scans x 5 initial errors x 4 delay patterns; gaps of 0-6 scans x missing speed for 0-16 ticks; simulated LiDAR with 16 rings x 360 columns in a hall with 8 pillars; maps made by the mapping program from 10 scans of the extraction',
    'N06': '1 scan x 1 prior at 3 stamps x 2 topics x 4 initial stores with up to 4 preemptions at locks and atomics, 1 scan x 2 priors (3 preemptions at locks; 2 at atomics), 2 scans x 3 priors (2 preemptions), equal stamps, priors alone; race detection by vector clocks on every instrumented access of node, store and message handling',
    'N05': 'all buffer histories of depth 3-4 (append, recent n, whole map), n up to 50, 120 and 1300 scans; all odometry runs of 4 scans over sizes x motions x n',
    'K01': 'all histories of predictions/updates: depth 5 in dimension 1 (1-4 steps), depth 7 (1-2 steps), depth 5 in dimension 2, depth 4 in dimension 3; 50 steps with delays 0..49; 61-129 steps; 12000 predictions with noise up to 1e15; the plain filter in dimensions 1-3 to depth 5',
    'K02': '1-2 rejected updates (delay too large, NaN/inf through each input) at every place of all histories of depth <= 3, with continuation compared to the run without them; accepted updates at every legal delay',
    'K03': 'all states over 3 x 2 x 15 x 4 x 6 x 6 values x 5 steps, every Jacobian entry against exact dual-number derivatives, 4^4 variances, wrapping at k*pi/2 +- 3 ulp for |k| <= 512, at every magnitude and on a fine grid of 40001 angles',
    'K04': 'all interleavings of 9 pushes/rounds/clears for S = 1..4, bursts of 40-300, all message/tick/reset histories of 7 steps for both modules x S x gates, order made visible by gating',
    'K05': 'ages on and around every rounding border x 7 tick lengths x 4 histories, 10 x 11 headings across the cut, 36 covariance entries, gates on both sides of the limit, every non-finite value in every field, fault x fault combinations, hostile frame names',
    'K06': 'all histories of 4 events over the alphabet (initial pose in 3 frames, pose, twist, ticks, clock jump back), 6 events of operation x history lengths, 4 parameter sets, runs of 400 (4000) ticks under all combinations of measurement periods, ages and re-initialisation, 13 x 3 x 3 initial headings, non-finite and zero values in every message field',
    'K07': 'all clock sequences of 6 readings over 6 values for 5 frequencies, of 5 over 7 near the epoch, the cap in microseconds +-500, gaps 2^-60..2^4',
    'K08': 'each of 36 entries alone and all together, all frame names of <= 6 over 3 characters and lengths up to 100, gate exactly at, below and above the limit in dimensions 1-3 with correlated covariances',
    'M01': 'all sequences of 4 scans over 3 sizes x 13 poses around the thresholds, of 7 over 3 poses, slow motions of 700 scans, all arrival orders of 5 messages through the program, lags to 300, scans of 65536 points, a drive of 1500 scans and 400000 points',
    'M02': 'all sequences of <= 6 messages over 5 kinds in both input forms, two generators interleaved, the program, bursts to 1001, paths of 10500 poses',
    'M03': 'all clouds of <= 2 over 64 points x 4 field layouts; all sequences of <= 3 maps out of 8 (empty, one point, far, 70001 points, cancelling 1e30, rounding) x 3 frame configurations',
    'M04': 'every order of the 5 fields x paddings x steps x byte orders, extra fields of every type at every place, points at and near zero, rows and row padding, all sequences of 4 clouds, bursts, 20000 points, the program',
    'M05': 'all maps of <= 2 over special values x 4 point types, all sequences of 4 saves of 5 sizes to one file, maps of 150001 points, the map builder, the loader',
    'M06': 'every launch file with no, each single and each pair of launch arguments renamed; interfaces learned by running every program against recording stand-ins',
}

SHIM = ['the ROS 2 stand-ins in shim/ behave as the documented API does (delivery order, timers, clocks and TF answers are chosen by the harness)']
PCL = ['PCL 1.14 and Eigen are the installed libraries; only pcl_conversions is a stand-in']
ASSUMPTIONS = {
    'X01': ['points have finite coordinates (the node requires dense clouds)', 'a point at the origin has the azimuth atan2(0, 0) = 0'],
    'X04': ['a block has at least two points; equal curvatures may be visited in any order'],
    'X05': ['equality up to rounding of the two sides of the parallel-beam ratio test is left open'],
    'X06': SHIM + PCL,
    'N04': SHIM + PCL, 'K06': SHIM, 'M01': SHIM + PCL, 'M02': SHIM, 'M03': SHIM + PCL, 'M05': SHIM + PCL, 'M06': SHIM,
    'M04': ['rclpy and sensor_msgs are replaced by stand-ins; numpy is the installed one'],
    'N03': ['data-race freedom is judged on the instrumented accesses of the store and its standard containers; memory order is sequentially consistent between them'],
    'S01': ['ROS transport is replaced by stand-ins delivering messages in the enumerated order; measurements are without noise', 'one scene; the filter keeps 16 past steps'],
    'N06': ['memory order is sequentially consistent between synchronisation operations', 'rclcpp publishers, loggers and message_filters are safe to use from several threads, as documented; callbacks of one mutually exclusive group do not overlap'],
    'O03': ['collinear or coincident neighbourhoods define no plane and are left out'],
    'O04': ['convergence is shown on the enumerated motions; between them it is not claimed'],
    'K01': ['measurement noise is positive definite'],
    'K05': ['message stamps are not negative'],
    'N01': ['k is at most the map size; nanoflann 1.5.4 (installed, not the repository\'s) reads past its index for more than leaf-size equal points with a negative coordinate, so such maps are left out'],
}

REAL = 'exact real arithmetic (rounding not modelled); '
p('P01', 'Rotation representations all describe the same rotation',
  'Quaternions, rotation matrices, axis-angle pairs, rotation vectors, quaternion logarithms and Euler angles convert into one another without changing the rotation they stand for, including the identity and half turns, also when rounding errors left a half-turn matrix slightly off or a scalar part slightly beyond one. A quaternion rotates a vector exactly as its matrix does, products compose the rotations, the conjugate undoes them, and results of conversions are unit quaternions and orthonormal matrices.',
  ['inputs'], 'all unit quaternions, axes, angles and vectors (away from the documented gimbal zones for Euler angles)',
  'The tests compare a few hundred random rotations with tolerances; half turns, the identity and sign branches of the matrix-to-quaternion and Euler extraction have measure zero.',
  ['src/utMath/Quaternion.cpp', 'src/utMath/Quaternion.h', 'src/utMath/Matrix.h', 'src/utMath/Util/RotationCast.h'],
  [('quaternion/matrix conversion', 'Quaternion::Quaternion(matrix), toMatrix'), ('Euler angles', 'Quaternion::getEulerAngles'), ('casts', 'Util::RotationCast')],
  REAL + 'every unit quaternion; Euler extraction outside the gimbal zones; no loops to bound')
p('P02', 'Poses form the group of rigid motions',
  'A pose maps a point to its rotation plus the translation; the product of two poses acts as the second followed by the first, is associative, has the default pose as identity and the inverse undoes it on both sides. The 3x4 and 4x4 matrix forms and the 7-vector form carry exactly the same motion and convert back to it, equality compares all components, and scaling a pose scales its translation only.',
  ['inputs'], 'all rigid poses and all points', 'The tests sample random poses; a sign slip confined to one branch or one rarely used conversion passes them.',
  ['src/utMath/Pose.cpp', 'src/utMath/Pose.h', 'src/utMath/Matrix.h'], [('pose algebra', 'Pose::operator*, operator~, Pose(matrix), toVector/fromVector')], REAL + 'every unit-quaternion rotation and translation')
p('P03', 'Interpolation of rotations and poses follows the shortest arc',
  'Interpolating two rotations starts at the first, ends at the second, stays a unit quaternion and moves along the shortest arc at constant speed, also when the two quaternions have opposite signs; equal rotations stay constant. Positions, covariances and lists of poses interpolate linearly and element by element.',
  ['inputs'], 'all pairs of rotations in 12 representative planes of quaternion space, all parameters in [0,1], lists of 0 to 3 poses',
  'The few tests check end points of random samples; the near-parallel and the sign-flipped branch need specific inputs.',
  ['src/utMath/Quaternion.cpp', 'src/utMath/Pose.cpp', 'src/utMath/ErrorPose.cpp'], [('spherical interpolation', 'slerp'), ('linear interpolation', 'linearInterpolate')],
  REAL + 'quaternion pairs in 12 planes of R^4, angle between them 0.016 to 1.57 rad for the constant-speed law, chord law below 0.01')
p('P04', 'Poses with uncertainty propagate covariance to first order',
  'Inverting, multiplying and invert-multiplying uncertain poses, and applying an uncertain pose to a plain or uncertain point, returns the same value as for certain poses and exactly the first-order covariance of the documented error model (a rotation error applied before, a translation error added after). Conversion to and from the additive 7-vector form keeps value and covariance, and the RMS of an error vector is the root of the trace.',
  ['inputs'], 'all rigid poses, points and symmetric covariances', 'The tests compare against Monte Carlo estimates with loose tolerances on a handful of samples.',
  ['src/utMath/ErrorPose.cpp', 'src/utMath/ErrorPose.h', 'src/utMath/ErrorVector.h'], [('first-order error propagation', 'ErrorPose operators, invertMultiply, toAdditiveErrorVector, fromAdditiveErrorVector')], REAL + 'every pose and every symmetric covariance; first order by definition')
p('P05', 'Covariance transforms are exactly J P J^T',
  'Transforming an uncertain vector through a function with Jacobian J yields the function value and covariance J P J^T; the two-argument form adds both contributions, and the sub-range form updates exactly the chosen sub-vector, its covariance block and the cross-covariances with everything left untouched.',
  ['inputs'], 'all values, Jacobians and covariances; vectors of 2 to 4 elements; every pair of input and output sub-ranges of a 4-vector', 'The tests use no sub-range combinations with overlap and only sampled matrices.',
  ['src/utMath/Stochastic/CovarianceTransform.h'], [('covariance transform', 'transformWithCovariance, binarytransformWithCovariance, transformRangeInternalWithCovariance')], REAL + 'dimensions up to 4')
p('P06', 'A Kalman measurement update is the exact Bayesian update',
  'For every prior state and covariance, measurement function with Jacobian H, measurement and measurement covariance, the measurement update returns x + K(z - h(x)) and P - K H P with K = P H^T (H P H^T + R)^-1, for fixed-size and dynamic vectors, for measurements that observe only a sub-range of the state (unobserved elements are corrected through their correlations), and for measurements that observe state elements directly; a singular or indefinite innovation covariance does not corrupt the state with undefined values.',
  ['inputs'], 'all states, Jacobians, covariances and measurements; states of 2 to 4, measurements of 1 to 3 elements, every sub-range position',
  'The repository tests no measurement update with correlated sub-ranges; a transposed block or a wrong offset survives symmetric or full-range samples.',
  ['src/utMath/Stochastic/Kalman.h'], [('measurement update', 'kalmanMeasurementUpdate, kalmanMeasurementUpdateIdentity')], REAL + 'states up to 4, measurements up to 3; BLAS/LAPACK calls replaced by exact models of their documented contract')
p('P07', 'Motion models and pose/rotation Kalman filters track consistently',
  'Time updates move positions and their derivatives by the constant-derivative law and orientations by the angular velocity, with matching Jacobians, and integrating a rotation velocity gives the exact rotation. Process noise is added per derivative in proportion to the elapsed time. The pose and rotation filters take over the first measurement, fuse later ones as a precision-weighted mean, treat a quaternion and its negative as the same rotation, keep the state quaternion at unit length, predict without changing the filter, predict forward and backward in time, and refuse predictions before the first measurement.',
  ['inputs', 'histories'], 'all states, measurements, time stamps and time steps; histories of up to two measurements followed by a prediction',
  'There are no tests of the tracking part at all; sign flips, backward predictions and runaway velocities need specific measurement sequences.',
  ['src/utTracking/PoseKalmanFilter.cpp', 'src/utTracking/RotationOnlyKf.cpp', 'src/utTracking/LinearPoseMotionModel.h', 'src/utTracking/Function/PoseTimeUpdate.h', 'src/utTracking/Function/QuaternionTimeUpdate.h', 'src/utTracking/Function/LinearTimeUpdate.h', 'src/utTracking/Function/InsideOutPoseTimeUpdate.h', 'src/utMath/RotationVelocity.h', 'src/utMath/Optimization/Function/RotationVelocityIntegration.h'],
  [('motion models', 'PoseTimeUpdate, InsideOutPoseTimeUpdate, LinearTimeUpdate'), ('filters', 'PoseKalmanFilter, RotationOnlyKF')], REAL + 'position order 0 to 2, orientation order 0 to 1; second measurements from concrete first orientations')
p('P08', 'Analytic Jacobians are the derivatives of their functions',
  'Every function object handed to optimisers, filters and error propagation (linear, vector normalisation, rotations by quaternion and exponential map, quaternion errors, dehomogenisation, intrinsics, radial distortion, hand-eye, point and multi-camera projections, bundle adjustment, 3D-3D correspondences, finite-difference wrapper, and the composable functions with bound, fixed and nested parameters) computes the documented value, gives the same value and Jacobian through evaluate, jacobian and evaluateWithJacobian, and its Jacobian is the exact derivative with respect to every parameter (for quaternions: along the unit sphere).',
  ['inputs'], 'all parameter values with points off the principal plane; up to two points and two cameras',
  'The test suite compares a few Jacobians numerically at random points with tolerances, most function objects not at all; a wrong term in one entry still lets an optimiser converge.',
  ['src/utMath/Optimization/Function', 'src/utMath/Optimization/NewFunction', 'src/utAlgorithm/Function', 'src/utAlgorithm/NewFunction', 'src/utAlgorithm/PoseEstimation3D3D/Optimization.h', 'src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h', 'src/utAlgorithm/BundleAdjustment.cpp', 'src/utAlgorithm/MultipleCameraPoseOptimization.h'],
  [('function objects', 'evaluate / jacobian / evaluateWithJacobian'), ('composition', 'Detail::Binder, Parameter, FixedParameterRef')], REAL + 'exponential-map rotations between 0.001 and 3 rad and exactly zero; uninstantiable headers (StoreIntermediate.h, VectorNorm.h, Function/BundleAdjustment.h) are not covered')
p('P09', 'Vector and matrix operations compute their mathematical definitions',
  'Inner products, 1- and 2-norms, squared distances, normalisation, cross, outer, matrix-vector and matrix-matrix products, determinants, inverses and pseudo-inverses of fixed-size matrices are exactly what mathematics defines, for single values and for lists of them, including matrices that need row exchanges and rank-deficient ones for the pseudo-inverse. Equality compares every element, vectors order lexicographically, matrices fill from row-major arrays, interpolation is linear, and the handedness change mirrors the z axis.',
  ['inputs'], 'all element values; vectors of 1 to 5 elements, matrices up to 4x4, lists of up to three',
  'The tests compare random full matrices with tolerances; row exchanges in a particular order, rank deficiency and rarely used size specialisations are not sampled.',
  ['src/utMath/Blas1.h', 'src/utMath/Blas2.h', 'src/utMath/Blas3.h', 'src/utMath/VectorFunctions.h', 'src/utMath/Functors/MatrixFunctors.h', 'src/utMath/MatrixOperations.h', 'src/utMath/Matrix.h', 'src/utMath/Vector.h', 'src/utMath/Scalar.h'],
  [('vector functors', 'Functors::norm_2, inner_product, distance'), ('inverses', 'invert_matrix, pseudoInvert_matrix, determinant')], REAL + 'general matrices up to 3x3, 4x4 for every row order with five free entries; LAPACK replaced by models of its contract')
p('P10', 'Points are transformed, projected and normalised exactly',
  'Transforming points by 2x3, 3x3, 3x4 and 4x4 matrices treats missing coordinates as zero and the homogeneous one as one, projecting divides by the last coordinate, and both work for every combination of point and matrix size, for empty lists, lists and in place. Normalisation of a point set returns its mean and standard deviation, and the normalisation matrix and its inverse undo each other and map the set to zero mean.',
  ['inputs'], 'all matrices and points off the principal plane; lists of up to three points',
  'The tests multiply random points by random matrices for a few of the size combinations, in which an error in the other specialisations does not show.',
  ['src/utMath/Geometry/PointTransformation.h', 'src/utMath/Geometry/PointProjection.h', 'src/utMath/Geometry/PointNormalization.h'],
  [('transformations', 'Geometry::transform_points, project_points'), ('normalisation', 'Geometry::estimateNormalizationParameters, generateNormalizationMatrix')], REAL + 'lists of up to three points')
p('P11', 'Conics and quadrics keep describing the same curve',
  'A conic, its matrix and its coefficient vector describe the same curve; translating, scaling and flipping it moves exactly its points; determinant, inverse, centre, limits, line intersections, semi-axes, orientation, area and eccentricity belong to that curve, classification follows the discriminant, and a conic without a centre is refused. Quadrics of ellipsoids and spheroids project to the conic of their outline.',
  ['inputs'], 'all conics with real coefficients; ellipses of every size and position with ten exact orientations for angle, axes and area; all 3x4 projections',
  'The tests draw a few ellipses and never circles, parabolas or diagonal ellipses, where the formulas degenerate.',
  ['src/utMath/Geometry/Conic.h', 'src/utMath/Geometry/QuadricFunctors.h'],
  [('conic functors', 'Geometry::ConicFunctors'), ('quadric projection', 'ProjectQuadric, ProjectEllipsoid')], REAL + 'orientations of 3-4-5 and 5-12-13 type plus the axes and diagonals for angle and axes')
p('P12', 'Least-squares optimisers take the exact damped normal-equation step',
  'Levenberg-Marquardt evaluates the objective at the damped normal-equation step from the best parameters so far, accepts only steps that lower the (weighted) residual, lowers the damping tenfold after success and raises it tenfold after failure, applies the normaliser to the parameters, returns the best residual and leaves the best parameters, with every solver choice; it stops at the iteration limit or when the residual settles. Gauss-Newton solves the (weighted) normal equations exactly in each iteration, so linear problems are solved in one. Tukey weights are positive and shared by the rows of a measurement.',
  ['inputs', 'histories'], 'every objective function (its values and Jacobians at visited points are symbolic), all measurements and weights; up to 3 iterations',
  'The tests run the optimiser on convergent problems, where wrong damping, a wrong acceptance test or lost best parameters still converge.',
  ['src/utMath/Optimization/LevenbergMarquardt.h', 'src/utMath/Optimization/GaussNewton.h', 'src/utMath/Optimization/Optimization.h', 'src/utMath/Optimization/TukeyWeightFunction.h'],
  [('optimisers', 'Optimization::levenbergMarquardt, weightedLevenbergMarquardt, gaussNewton'), ('termination', 'OptTerminate')], REAL + '1 to 2 parameters, 2 to 3 measurements, up to 3 iterations; BLAS/LAPACK replaced by models of their contract')
p('P13', 'Stochastic estimates are the defined moments of their samples',
  'Averages of numbers, vectors, orientations and poses are their means (orientations given by either sign of a quaternion average to a unit quaternion along the mean), the average of vectors or poses with covariance carries the population covariance (for poses in the frame of the average orientation), and plain, weighted and index-selected Gaussians have the defined mean, covariance, variance and standard deviation; empty inputs are refused. Correlation is the Pearson coefficient over the common length, the Mahalanobis distance is the whitened distance and refuses singular covariances, backward propagation returns the inverse of the weighted normal matrix, and k-means ends with every point at its nearest centroid and centroids that are means of a partition.',
  ['inputs'], 'all sample values, weights and index assignments; 1 to 4 samples of 1 to 3 dimensions; all random choices of the seeding',
  'The tests compare against sampled distributions with statistical tolerances; opposite quaternion signs, unequal lengths and heteroscedastic measurements are not among them.',
  ['src/utMath/Stochastic/Average.h', 'src/utMath/Stochastic/Gaussian.h', 'src/utMath/Stochastic/Correlation.h', 'src/utMath/Stochastic/MahalanobisDistance.h', 'src/utMath/Stochastic/BackwardPropagation.h', 'src/utMath/Stochastic/k_means.h', 'src/utMath/Stochastic/Weighted.h'],
  [('moments', 'Average, estimate_gaussian'), ('covariance of parameters', 'backwardPropagationIdentity, backwardPropagationDiagonal'), ('clustering', 'k_means')], REAL + 'orientation averages around two base orientations with every spread; backward propagation 3 measurements to 2 parameters; k-means of 3 points; backwardPropagation with a full covariance (documented as not working) and expectation maximisation excluded')
p('P14', 'Camera intrinsics and lens distortion follow the camera model',
  'Camera intrinsics keep matrix, image size, number and values of the distortion parameters for every way of constructing them (unused ones are zero). Distorting a normalised or image point applies the rational radial and the tangential model around the principal point for both handedness conventions, for single points, lists, in place, float and double; projecting with distortion matches; undistortion undoes distortion and changes nothing when there is none; its Jacobian is exact; fields of view match image size and focal length.',
  ['inputs'], 'all points, intrinsic matrices and distortion parameters; undistortion for two points and one non-zero parameter at a time',
  'The repository has no tests of lens distortion; wrong signs of the principal point or swapped tangential terms need skewed, asymmetric inputs.',
  ['src/utMath/CameraIntrinsics.h', 'src/utMath/Geometry/PointUndistortion.h', 'src/utAlgorithm/CameraLens/Distortion.h', 'src/utAlgorithm/CameraLens/Undistortion.h', 'src/utAlgorithm/CameraLens/Correction.cpp', 'src/utAlgorithm/LensDistortion.cpp'],
  [('lens model', 'CameraLens::distort, undistort, lensDistort, lensUnDistort'), ('intrinsics', 'CameraIntrinsics')], REAL + 'undistortion assumes that the solver inside Levenberg-Marquardt reaches the solution')
p('P15', 'Projection matrices convert, reconstruct and decompose exactly',
  'Converting a 3x3 or 3x4 projection to OpenGL maps the image rectangle to [-1,1], keeps the projective depth as w and maps depths between near and far to [-1,1]; the off-axis projection maps the corners of the screen to the corners of clip space for every position of screen and eye; moving the image origin mirrors exactly the rows. The direct linear transformation from exact point pairs returns the projection that maps the points to their images, with points in front of the camera and a unit viewing direction. Decomposing a projection of any overall scale and sign returns the intrinsic matrix, rotation and translation it was composed of.',
  ['inputs'], 'all projections, eye and screen positions, intrinsics and translations; boxes of every size and position seen at every image scale and offset for the DLT; four orientations in the decomposition',
  'The tests decompose and reconstruct random projections of one scale with tolerances; the off-axis projection and origin changes are untested.',
  ['src/utAlgorithm/Projection.cpp', 'src/utAlgorithm/Projection.h'],
  [('conversion', 'projectionMatrixToOpenGL, offAxisProjectionMatrix, correctOrigin'), ('estimation', 'projectionDLT, decomposeProjection')], REAL + 'the DLT uses the eight corners of a box; LAPACK decompositions replaced by models of their contract')
p('P16', 'Assignment finds a complete matching of minimal cost',
  'For every matrix of non-negative costs, square or rectangular, the Munkres solver terminates and returns a matching that uses every row and column at most once, pairs as many as possible and has the least total cost; row list, column list and mask matrix describe the same matching, and surplus rows or columns are matched beyond the matrix.',
  ['inputs'], 'all cost matrices up to 2x3 and 3x2; 3x3 to 4x4 matrices with two or three arbitrary costs anywhere in a product matrix',
  'The assignment is untested; it hung whenever the greedy matching was not complete.',
  ['src/utMath/Graph/Munkres.h'],
  [('assignment', 'Graph::Munkres')], REAL + 'matrices up to 4x4, see over; termination within one million instructions')
p('P17', 'Views of the same points give exact homographies, epipolar lines and points',
  'From exact point pairs, the general and the square homography map every point to its image, and the eight-point algorithm returns a singular matrix for which exactly corresponding points satisfy the epipolar constraint (with a step, from every n-th pair only); too few or unequal numbers of points are refused. The fundamental matrix of two camera poses maps a point to the line through epipole and image, the epipolar distance is the squared distance to that line, and the relative pose recovered from a fundamental matrix of any scale and sign is the true one with points in front of both cameras. Triangulation from two or more exact views returns the point, and reconstruction matches the two point lists whatever their order.',
  ['inputs'], 'all homographies of a square, quadrangles of every size and position, point sets of every position, scale and rotation, all projections and points, every singular value decomposition LAPACK may choose',
  'The tests estimate random well-conditioned configurations with tolerances; sign choices of the decomposition, steps and unordered lists are not sampled.',
  ['src/utAlgorithm/Homography.cpp', 'src/utAlgorithm/FundamentalMatrix.cpp', 'src/utAlgorithm/FundamentalMatrix.h', 'src/utAlgorithm/3DPointReconstruction.cpp'],
  [('homography', 'homographyDLT, squareHomography'), ('epipolar geometry', 'getFundamentalMatrix, fundamentalMatrixFromPoses, poseFromFundamentalMatrix'), ('triangulation', 'get3DPosition, reconstruct3DPoints')], REAL + 'point configurations as listed under over; refinement by Levenberg-Marquardt (flag 1) and float variants not covered')
p('P18', 'Measurements keep their time stamps and payload; clock synchronisation is exact',
  'A measurement keeps its 64-bit nanosecond time stamp and its value exactly; it is invalid exactly when the time is zero, and invalidating keeps the value. Copies and assignments share the value (and keep it alive) but have their own time; a clone has its own value, also for lists; casting constness keeps time and value. now() is the system clock in nanoseconds, and the texts of a time stamp show its hour, minute, second and microsecond. The clock synchronisation returns the first local time unchanged, converts clocks that run exactly without error, otherwise moves the estimate towards the local time without passing it, ignores single outliers once settled and follows a lasting shift: it is the documented Kalman filter for local time and gain, with deviations judged against their running statistics.',
  ['inputs', 'histories'], 'all 64-bit time stamps, payloads, system clock readings, native and local clock values and sequences of events',
  'The repository has no test for measurements and two sample runs for clocks; large time stamps, aliasing and outliers are not sampled.',
  ['src/utMeasurement/Measurement.h', 'src/utMeasurement/Timestamp.cpp', 'src/utMeasurement/TimestampSync.cpp'],
  [('measurement', 'Measurement constructors, clone, invalid, invalidate, constCast'), ('clock', 'now, timestampToString, timestampToShortString'), ('synchronisation', 'TimestampSync::convertNativeToLocal')], REAL + 'clocks of 1 kHz and 1 MHz; lists of up to 3; up to 226 events; time stamps before 2100 for the texts')
p('P19', 'Serialised values come back unchanged, and malformed data is refused',
  'Every measurement type survives serialisation bit for bit, through msgpack (packing and converting, objects built in a zone, reading with as<>) and through Boost archives: scalars, vectors of fixed and dynamic size, square and rectangular matrices, quaternions, rotation velocities, poses, vectors and poses with covariance, camera intrinsics with their distortion model, lists, and measurements with their 64-bit time stamp. Values packed one after the other are read in that order. A measurement without value arrives as an invalid one without value. Msgpack data of the wrong kind or size is refused with a type error instead of being misread.',
  ['inputs'], 'all bit patterns of every number, all time stamps, all list lengths up to 3, all wrong array sizes up to 5',
  'The tests serialise one random value per type, square matrices and equal list elements only, and never malformed data.',
  ['src/utSerialization/MsgpackSerializer.h', 'src/utSerialization/BoostArchiveSerializer.h', 'src/utMath/CameraIntrinsics.h', 'src/utMath/Matrix.h', 'src/utMath/Vector.h', 'src/utMath/Pose.h', 'src/utMath/ErrorPose.h', 'src/utMeasurement/Measurement.h'],
  [('msgpack', 'adaptors pack, convert, as and object_with_zone'), ('archives', 'serialize member functions')], 'bit-precise (IEEE bit patterns are only moved); the byte encoding inside the msgpack and Boost libraries is replaced by a recorder of the same sequence of values')
p('P20', 'Absolute orientation is the best rigid motion between two point sets',
  'The pose, rotation (quaternion or matrix) and scale estimated from corresponding 3D points are the least-squares solution: no other rigid motion has a smaller sum of squared distances, the translation maps the centroid of one set to that of the other, and exact correspondences return the exact motion (right = pose * left, in double and float, plain, as RANSAC estimator and with RANSAC). Degenerate sets are reported as failure. The distance between pose-transformed and measured point, the mean residual, the scale factor, the objective of the non-linear refinement with its derivative along rotations and the covariance of the pose (residual times inverse normal equations) are exact, and refinement started at an exact pose stays there.',
  ['inputs'], 'all coordinates of 3 and 4 point pairs for the least-squares form, all rotations and translations for exact data',
  'The tests estimate random motions from exact or noisy points with tolerances; optimality, failure, residual and covariance are never compared.',
  ['src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp', 'src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h', 'src/utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h', 'src/utAlgorithm/PoseEstimation3D3D/Scale.h', 'src/utAlgorithm/PoseEstimation3D3D/Pose6D.h', 'src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h', 'src/utAlgorithm/PoseEstimation3D3D/Optimization.h', 'src/utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h', 'src/utAlgorithm/PoseEstimation3D3D/Ransac.h'],
  [('estimation', 'estimatePose6D_3D3D, estimateRotation_3D3D, estimateScale_3D3D'), ('error', 'estimatePose6DResidual, estimatePose6DCovariance')], REAL + 'arbitrary data: 3 and 4 points, the eigenvector LAPACK returns for the largest eigenvalue is arbitrary; exact data: 3 and 4 points not on a line')
p('P21', 'RANSAC returns the estimate from all inliers of its best hypothesis',
  'Every hypothesis is estimated from the requested number of distinct input values, with paired values kept together; RANSAC succeeds exactly if a tested hypothesis has at least the required number of values closer than the threshold, and then returns the number and the estimate of exactly all inliers of the best tested hypothesis. It stops as soon as enough inliers were found (and the minimal number of runs was made), gives up after the maximal number of iterations, and skips hypotheses whose estimation fails or throws. Parameters computed from outlier ratio and success probability give enough iterations. All three interfaces (one list, two lists, iterators) agree on this.',
  ['inputs', 'histories'], 'every estimator and distance function (all distances symbolic), every random choice, every required number of inliers; 3 to 5 values, up to 3 iterations',
  'The tests run RANSAC inside estimators on random data with few outliers, where a wrong count, a lost best hypothesis or an early stop still gives a good pose.',
  ['src/utMath/Optimization/Ransac.h'],
  [('consensus', 'Optimization::ransac'), ('parameters', 'RansacParameter')], REAL + 'samples of 2 and 3 values; sampling for every value of rand() modulo the list for one iteration')
p('P22', 'Tool tip calibration finds the tip that all poses agree on',
  'From poses of a body turned around its tip, calibration returns the tip in body and in world coordinates exactly (plain, RANSAC, float, the older tipCalibration and with non-linear refinement); for arbitrary positions the result is the least-squares solution. The distance of a pose to the tip, the mean and standard deviation of these distances and the objective of the refinement with its Jacobian are exact.',
  ['inputs'], 'all tip positions and positions of 3 and 4 poses, arbitrary orientations for exact data',
  'Tool tip calibration has no test with exact poses and refinement (it failed there).',
  ['src/utAlgorithm/ToolTip/TipCalibration.cpp', 'src/utAlgorithm/ToolTip/TipCalibration.h', 'src/utAlgorithm/ToolTip/ErrorEstimation.h', 'src/utAlgorithm/ToolTip/LeastSquare.h', 'src/utAlgorithm/ToolTip/Optimization.h', 'src/utAlgorithm/ToolTip/Ransac.h'],
  [('calibration', 'ToolTip::estimatePosition3D_6D, tipCalibration'), ('error', 'estimatePosition3DError_6D')], REAL + 'noisy data with four concrete orientations; refinement with up to two iterations from exact data')
p('P23', 'Hand-eye calibration returns the transformation that explains all movements',
  'From three or more exact pairs of hand and eye poses whose movements have different axes, the dual-quaternion and the Tsai-Lenz method (poses, double or float matrices, neighbouring or all pairs) and the incremental HandEyeCalibration return the transformation between hand and eye exactly, whatever sign the quaternions have; movements about parallel axes and unequal numbers of poses are refused. Relative poses are formed for all pairs, dual quaternions and rotation vectors describe the same pose they were made from, and rotation vectors beyond a half turn are replaced by the same rotation the other way round. Data selection returns the requested number of corresponding eye and hand movements, the ones nearest to the cluster centres.',
  ['inputs'], 'all rotations and translations between hand and eye, all hand positions, all quaternion signs, every basis of the null space LAPACK may return, every random choice of the selection',
  'The tests use random poses with positive scalar parts and never compare what data selection returns.',
  ['src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp', 'src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp', 'src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp', 'src/utAlgorithm/PoseEstimation6D6D/DataSelection.h', 'src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h'],
  [('calibration', 'estimatePose6D_6D6D, performHandEyeCalibration, HandEyeCalibration::estimatePose6D'), ('movements', 'relative_pose, pose_cast, hemisphere_alignment, select_6DPoses, DataSelection')], REAL + '3 and 4 poses with concrete hand orientations (movements that are not half turns); Tsai-Lenz with five concrete hand-eye rotations; incremental calibration up to 7 poses')
p('P24', 'Camera pose estimation recovers the pose that produced the images',
  'From exact images of known points the pose of the object in front of the camera is recovered exactly: from a homography of any scale and sign, from four or more points of a plane (at any height z, or in a plane of any orientation), from six or more non-coplanar points, with several cameras (starting from the camera with the most observations, points with weight zero being ignored, also for consecutive local bundles of points) and by orthogonal iteration. Fewer than four points, three collinear points, and sets of different sizes or no cameras are refused; too few observations give a negative weight. The reported residual is the root mean square (single camera) or summed squared (refinement, several cameras) reprojection error of the returned pose, refinement keeps an exact pose and never makes it worse, and the pose covariance is the image error propagated back through the derivative of the projection. Orthogonal iteration returns the best translation for its rotation, reports the object space error and the iterations used, and leaves the pose alone when it does not converge.',
  ['inputs'], 'all camera parameters, object positions, scales and heights of the plane; tilted planes, rotations and camera set-ups of a few rational families; every sign and basis LAPACK may return',
  'The tests compare random poses of points in the plane z = 0 with loose thresholds, never several cameras from scratch, other heights of the plane, covariances or the refusals.',
  ['src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp', 'src/utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp', 'src/utAlgorithm/MultipleCameraPoseOptimization.cpp', 'src/utAlgorithm/MultipleCameraPoseOptimization.h', 'src/utMath/Stochastic/BackwardPropagation.h'],
  [('single camera', 'poseFromHomography, computePose, optimizePose, singleCameraPoseError'), ('several cameras', 'multipleCameraPoseEstimation, multipleCameraPoseEstimationWithLocalBundles, multipleCameraPoseError'), ('orthogonal iteration', 'estimatePose6D_2D3D')], REAL + 'object origin in front of the camera for homographies; 4 or 5 points for planes, 8 otherwise, up to 3 cameras; LAPACK replaced by contracts (any admissible decomposition); convergence of the refinement from inexact starts is outside')
p('P25', 'Incremental rotation calibration fuses movements into one rotation',
  'Fed with pairs of movements a and b of two rigidly connected bodies, the incremental hand-eye rotation is after every movement the least-squares solution of a x = x b for all movements so far, weakly held at its start, the identity; movements that belong to a true rotation leave it at that rotation up to that weak hold. The result is the unit quaternion of the state. The signs of the measured quaternions do not matter. The Kalman filter on the quaternion starts at the identity, becomes after every movement the Bayesian posterior scaled to unit length, and stays where it is when the movement agrees with it.',
  ['inputs', 'histories'], 'all filter states, and movements of any length along representative axes with any difference between the two',
  'These estimators have no tests; a wrong sign in one term still converges for nearly equal movements.',
  ['src/utAlgorithm/OnlineRotHec.cpp', 'src/utAlgorithm/OnlineRotHec.h', 'src/utAlgorithm/RotationHecKalmanFilter.cpp', 'src/utAlgorithm/RotationHecKalmanFilter.h', 'src/utAlgorithm/Function/RotHecFunction.h'],
  [('incremental calibration', 'OnlineRotHec::addMeasurement, computeResult'), ('quaternion filter', 'RotationHecKalmanFilter::addMeasurement, getResult')], REAL + 'one and two movements')
p('P26', 'Random numbers, vectors, matrices and poses lie in their ranges',
  'Uniformly distributed integers, numbers, vectors, matrices and translations lie within the requested limits for every output of the random engine (limits of a whole vector or matrix may be given in either order), are spread evenly over the range and drawn separately for every element. Random rotations are unit quaternions covering all rotations by the documented method. Normally distributed numbers and vectors are the standard normal numbers scaled by the deviation and shifted by the mean of their element.',
  ['inputs'], 'all engine outputs and all limits for uniform, all means and deviations for normal distributions',
  'Random generators only appear as sources of test data; nothing checks their limits, and the pose generator did not even compile.',
  ['src/utMath/Random/Scalar.h', 'src/utMath/Random/Vector.h', 'src/utMath/Random/Matrix.h', 'src/utMath/Random/Rotation.h', 'src/utMath/Random/Pose.h'],
  [('uniform', 'Random::distribute_uniform, Vector/Matrix/Pose/Quaternion::Uniform'), ('normal', 'Random::distribute_normal, Vector::Normal')], REAL + 'limits up to 2e6; normal distributions for 20 fixed engine sequences; drawing from a full covariance is not implemented in the library')
p('P27', 'Serial ports, timers and sleeps use the system exactly as asked',
  'A serial port opens the named device with the requested speed, data bits, parity, stop bits and time-outs in raw mode, refuses unsupported speeds and devices that cannot be set up without leaving them open, delivers exactly the bytes and counts of the driver, throws when reading, writing or asking for waiting bytes fails and whenever it is not open, restores the original settings on closing, closes its device exactly once and can be opened again. The high performance counter counts microseconds, sleeping asks the system for exactly the requested time, block timers count, sum and average the measured runs, and exceptions keep file and line.',
  ['inputs', 'fault_sequences', 'histories'], 'every result of every system call, every setting, every history of three operations; all clock values before the year 2242',
  'None of this has tests: failures of a device cannot be provoked in a unit test, and the order of operations matters.',
  ['src/utUtil/SerialPort.cpp', 'src/utUtil/SerialPort.h', 'src/utUtil/OS.cpp', 'src/utUtil/BlockTimer.h', 'src/utUtil/BlockTimer.cpp', 'src/utUtil/Exception.cpp'],
  [('serial port', 'SerialPort::open, close, read, send, bytesOnRead, flush, sendBreak'), ('time', 'getHighPerformanceCounter, sleep, BlockTimer')], 'system calls replaced by recording stand-ins with arbitrary results; timer sums in exact real arithmetic; up to three timed runs; sleeps from six whole-second values')
p('P28', 'Expectation maximisation re-estimates a mixture of distributions',
  'Every iteration of expectation maximisation over a set of points gives each weighted normal distribution as new weight the mean of its responsibilities (its weighted density divided by the summed weighted densities of all distributions), as new mean and covariance the mean and covariance of the points weighted with these responsibilities. The density is the one of a normal distribution of any covariance in its number of dimensions, zero if the covariance is singular, and the likelihood is the mean logarithm of the summed weighted densities.',
  ['inputs', 'histories'], 'all means and weights for fixed points, all points for fixed distributions, all covariances for the density',
  'The only test runs the algorithm on random points and looks at nothing it returns.',
  ['src/utMath/Stochastic/expectation_maximization.h', 'src/utMath/Stochastic/Gaussian.h', 'src/utMath/Stochastic/Weighted.h'],
  [('iteration', 'Stochastic::expectation_maximization, estimate_gaussian'), ('density', 'Probability, log_likelihood')], REAL + '3 points of 2 dimensions, 1 or 2 distributions; exp and log are uninterpreted (positive) functions; the pi of the library (3.14159) is used; convergence and later iterations with two distributions are outside')
p('P29', 'Calibration files and file lists are complete or refused',
  'Listing the files of a directory returns exactly the existing regular files whose name matches the requested kind (images: jpg, png, bmp in lower or upper case; calibration files: .cal; binary files: .BoostBinary; or an own regular expression) in sorted order, directories only when they are requested; a path naming a file stands for itself; a missing path and an empty result are refused with the exception of the library. A calibration file, text or binary, gives back exactly the vector, pose or measurement (with its time stamp, or without it when it is dropped) that was written to it, and writing replaces the old contents; a file that cannot be opened, is damaged at any element, is cut off at any element or has the other format is refused with the exception of the library.',
  ['inputs', 'fault_sequences'],
  'The library code runs with stand-ins for the file system, the regular expressions, the file streams and the Boost archives; names and kinds of directory entries, the place of the damage or of the cut and all values are symbolic.',
  'No test reads or lists a file.',
  ['src/utUtil/GlobFiles.cpp', 'src/utUtil/GlobFiles.h', 'src/utUtil/CalibFile.h'],
  [('listing', 'globFiles'), ('files', 'readCalibFile, readBinaryCalibFile, readCalibFileDropMeasurement, writeCalibFile, writeBinaryCalibFile')], 'directories of up to three entries with names from a list of eight; values of the archives are stored as a sequence of elements; write errors after opening are outside')

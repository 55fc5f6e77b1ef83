H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <algorithm>\n'
S.append(dict(id='b06_kalman_subrange', property='P06', edits=[('src/utMath/Stochastic/Kalman.h', 'ublas::prod( jacobian, ublas::subrange( stateCov, iBegin, iEnd, iBegin, iEnd ) ) );', 'ublas::prod( jacobian, ublas::subrange( stateCov, iBegin, iEnd, 0, inSize ) ) );')],
 needs='a measurement function that observes a sub-range of the state not starting at zero', breaks='the innovation covariance is built from the wrong block of the state covariance',
 demo=H + '''#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/Kalman.h>
using namespace Ubitrack::Math;
struct F { template <class A, class B, class M> void evaluateWithJacobian(A& r, const B& in, M& j) const { r(0) = 2 * in(0); j(0, 0) = 2; } };
int main() { for (int at = 0; at < 3; at++) { Vector<double, 3> x(1, 2, 3); Matrix<double, 3, 3> P; double p[9] = {4, 1, 0.5, 1, 3, 0.2, 0.5, 0.2, 2}; for (int i = 0; i < 9; i++) P(i / 3, i % 3) = p[i];
  Vector<double, 1> z; z(0) = 7; Matrix<double, 1, 1> R; R(0, 0) = 0.5; Vector<double, 3> x0 = x; Matrix<double, 3, 3> P0 = P;
  Stochastic::kalmanMeasurementUpdate(x, P, F(), z, R, at, at + 1);
  double S = 4 * P0(at, at) + 0.5; for (int i = 0; i < 3; i++) { double k = 2 * P0(i, at) / S; if (!(fabs(x(i) - (x0(i) + k * (7 - 2 * x0(at)))) < 1e-9)) { printf("observing element %d: state %d is %g\\n", at, i, x(i)); return 1; } } } return 0; }
'''))
S.append(dict(id='b07_predict_back', property='P07', edits=[('src/utTracking/RotationOnlyKf.cpp', '''Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
{
	// time update: forward filter to requested timestamp
	double dt = ( (long long int)( t - m_time ) ) * 1e-9;''', '''Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
{
	// time update: forward filter to requested timestamp
	double dt = ( t - m_time ) * 1e-9;''')],
 needs='a prediction for a time before the last measurement of a rotating body', breaks='the rotation predicted for an earlier time is arbitrary',
 demo=H + '''#include <utTracking/RotationOnlyKF.h>
using namespace Ubitrack;
int main() { Tracking::RotationOnlyKF kf; Measurement::Timestamp t0 = 1000000000ULL; double w = 0.5; for (int i = 0; i < 50; i++) { double a = w * i * 0.02; kf.addRotationMeasurement(Measurement::Rotation(t0 + i * 20000000ULL, Math::Quaternion(0, 0, sin(a / 2), cos(a / 2)))); kf.addVelocityMeasurement(Measurement::RotationVelocity(t0 + i * 20000000ULL, Math::RotationVelocity(0, 0, w))); }
  Measurement::Timestamp last = t0 + 49 * 20000000ULL; Measurement::Rotation p = kf.predict(last), f = kf.predict(last + 100000000ULL), b = kf.predict(last - 100000000ULL);
  double dp = 2 * atan2(p->z(), p->w()), df = 2 * atan2(f->z(), f->w()) - dp, db = 2 * atan2(b->z(), b->w()) - dp; if (!(fabs(df + db) < 1e-3 && fabs(df) > 0.01)) { printf("forward %g, backward %g\\n", df, db); return 1; } return 0; }
'''))
S.append(dict(id='b10_normalise_negative', property='P10', edits=[('src/utMath/Geometry/PointNormalization.h', 'scale( i ) = std::sqrt( scale( i ) - ( shift( i ) * shift( i ) ) );', 'scale( i ) = std::sqrt( scale( i ) - ( shift( i ) * std::max( shift( i ), static_cast< T >( 0 ) ) ) );')],
 needs='a point set whose mean has a negative coordinate', breaks='the normalisation scale is the root mean square instead of the standard deviation',
 demo=H + '''#include <utMath/Geometry/PointNormalization.h>
using namespace Ubitrack::Math;
int main() { for (int s = -1; s <= 1; s += 2) { std::vector<Vector<double, 2> > p; p.push_back(Vector<double, 2>(s * 10, 1)); p.push_back(Vector<double, 2>(s * 12, 3)); Vector<double, 2> sh, sc; Geometry::estimateNormalizationParameters(p.begin(), p.end(), sh, sc); if (!(fabs(sc(0) - 1) < 1e-9 && fabs(sc(1) - 1) < 1e-9 && fabs(sh(0) - 11 * s) < 1e-9)) { printf("scale %g %g for mean %g\\n", sc(0), sc(1), sh(0)); return 1; } } return 0; }
'''))
S.append(dict(id='b12_lm_stale_diff', property='P12', edits=[('src/utMath/Optimization/LevenbergMarquardt.h', '		if ( fErr >= fErrPrev )\n			fLambda *= T( fStepFactor );', '		if ( fErr > fErrPrev * T( 1.5 ) || fErr == fErrPrev )\n			fLambda *= T( fStepFactor );')],
 needs='a step that overshoots and raises the residual by less than half', breaks='a step that makes the residual worse is accepted',
 demo=H + '''#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utUtil/Exception.h>
#include <utMath/Optimization/LevenbergMarquardt.h>
using namespace Ubitrack::Math;
struct F { template <class A, class B, class M> void evaluateWithJacobian(A& r, const B& in, M& j) const { double x = in(0); r(0) = atan(x) * 10; j(0, 0) = 10 / (1 + x * x); } };
int main() { for (double x0 = 1.0; x0 < 3; x0 += 0.01) for (int it = 1; it < 4; it++) { F f; Vector<double, 1> p, m; p(0) = x0; m(0) = 0; double e0 = pow(10 * atan(x0), 2); double r = Optimization::levenbergMarquardt(f, p, m, Optimization::OptTerminate(it, 0), Optimization::OptNoNormalize()); if (!(pow(10 * atan(p(0)), 2) <= e0 * (1 + 1e-9))) { printf("start %g: residual rose from %g to %g\\n", x0, e0, r); return 1; } } return 0; }
'''))
S.append(dict(id='b13_correlation_length', property='P13', edits=[('src/utMath/Stochastic/Correlation.h', '	m2 /= n;', '	m2 /= n2;')],
 needs='two sequences of different length, the second one longer', breaks='the mean of the second sequence, and with it the correlation, is wrong',
 demo=H + '''#include <utMath/Stochastic/Correlation.h>
using namespace Ubitrack::Math;
int main() { double a[] = {1, 2, 4, 7}, b[] = {3, 5, 9, 15, 100, 200}; std::vector<double> x(a, a + 4), y(b, b + 6); double c = Stochastic::correlation(x.begin(), x.end(), y.begin(), y.end()), d = Stochastic::correlation(x.begin(), x.end(), y.begin(), y.begin() + 4); if (!(fabs(c - 1) < 1e-9 && fabs(d - 1) < 1e-9)) { printf("correlation %g %g\\n", c, d); return 1; } return 0; }
'''))
S.append(dict(id='b14_undistort_jacobian', property='P14', edits=[('src/utAlgorithm/CameraLens/Undistortion.h', 'const VType t33 = k6*t5*y*6;', 'const VType t33 = k6*t5*x*6;')],
 needs='the eight-parameter distortion model with a non-zero sixth radial coefficient and a point off the diagonal', breaks='the Jacobian of the distortion used for undistorting points',
 demo=H + '''#include <utMath/CameraIntrinsics.h>
#include <utUtil/Exception.h>
#include <utAlgorithm/CameraLens/Undistortion.h>
using namespace Ubitrack;
int main() { Math::Vector<double, 6> k; double kk[6] = {0.1, -0.05, 0.02, 0.03, 0.01, 0.2}; for (int i = 0; i < 6; i++) k(i) = kk[i]; Math::Vector<double, 2> t(0.01, -0.02), x(0.7, -0.4); Algorithm::CameraLens::internal::PointUndistortion<double> u(k, t); Math::Matrix<double, 2, 2> J; u.jacobian(x, J);
  for (int c = 0; c < 2; c++) { Math::Vector<double, 2> a = x, b = x, fa, fb; a(c) += 1e-6; b(c) -= 1e-6; u.evaluate(fa, a); u.evaluate(fb, b); for (int r = 0; r < 2; r++) if (!(fabs((fa(r) - fb(r)) / 2e-6 - J(r, c)) < 1e-5)) { printf("J(%d,%d) = %g, difference quotient %g\\n", r, c, J(r, c), (fa(r) - fb(r)) / 2e-6); return 1; } } return 0; }
'''))
S.append(dict(id='b16_munkres_wide', property='P16', edits=[('src/utMath/Graph/Munkres.h', 'if ( (h > m_matrix( row, col ) && m_matrix( row, col ) != 0) || h == 0 )', 'if ( (h > m_matrix( row, col ) && m_matrix( row, col ) >= 1) || h == 0 )')],
 needs='costs whose differences are below one, where the smallest uncovered one is not met first', breaks='the matching returned is not the cheapest one, or the solver does not end',
 demo=H + '''#include <utMath/Matrix.h>
#include <utMath/Graph/Munkres.h>
#include <unistd.h>
using namespace Ubitrack::Math;
int main() { alarm(20); unsigned s = 1; for (int run = 0; run < 200; run++) { Matrix<double, 0, 0> m(4, 4); double c[4][4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { s = s * 1103515245 + 12345; c[i][j] = m(i, j) = 0.125 * ((s >> 16) % 16); }
  Graph::Munkres<double> k(m); k.solve(); std::vector<std::size_t> r = k.getRowMatchList(); double cost = 0; for (int i = 0; i < 4; i++) cost += c[i][r[i]]; int p[4] = {0, 1, 2, 3}; double best = 1e9; do { double d = 0; for (int i = 0; i < 4; i++) d += c[i][p[i]]; best = std::min(best, d); } while (std::next_permutation(p, p + 4)); if (cost > best + 1e-9) { printf("cost %g, best %g\\n", cost, best); return 1; } } return 0; }
'''))
S.append(dict(id='b18_sync_int', property='P18', edits=[('src/utMeasurement/TimestampSync.cpp', 'double deltaL = double( static_cast< long long >( local - m_estLocal ) );', 'double deltaL = double( static_cast< int >( local - m_estLocal ) );')],
 needs='a native clock more than two seconds away from the estimate', breaks='large deviations are taken for small ones, so the estimate moves the wrong way',
 demo=H + '''#include <utMeasurement/TimestampSync.h>
using namespace Ubitrack::Measurement;
int main() { for (double gap = 3; gap < 4.5; gap += 1) { TimestampSync s(1.0, 1e9); Timestamp t0 = 1000000000000ULL; for (int i = 0; i < 40; i++) s.convertNativeToLocal(i * 0.1, t0 + Timestamp(i * 1e8)); Timestamp r = 0, l = 0; for (int i = 40; i < 200; i++) { l = t0 + Timestamp((i * 0.1 + gap) * 1e9); r = s.convertNativeToLocal(i * 0.1, l); } double d = double((long long)(l - r)) * 1e-9; if (!(fabs(d) < 0.5)) { printf("a lasting shift of %g s leaves an error of %g s\\n", gap, d); return 1; } } return 0; }
'''))
S.append(dict(id='b20_scale_square', property='P20', edits=[('src/utAlgorithm/PoseEstimation3D3D/Scale.h', 'const value_type normSquared = (rr_ref[0]*rr_ref[0])+(rr_ref[1]*rr_ref[1])+(rr_ref[2]*rr_ref[2]);						', 'const value_type normSquared = (rr_ref[0]*rr_ref[0])+(rr_ref[1]*rr_ref[1])+(rr_ref[2]*(*it2)[2]);						')],
 needs='right points given with a reference that is not their mean along z', breaks='the scale factor for explicitly given reference points',
 demo=H + '''#include <utMath/Vector.h>
#include <utAlgorithm/PoseEstimation3D3D/Scale.h>
using namespace Ubitrack;
typedef Math::Vector<double, 3> V;
int main() { V l[3] = {V(1, 0, 2), V(0, 1, 3), V(-1, 2, 5)}; std::vector<V> a(l, l + 3), b; for (int i = 0; i < 3; i++) b.push_back(l[i] * 0.5); V ra(1, 1, 1), rb(0.5, 0.5, 0.5); double s = Algorithm::PoseEstimation3D3D::estimateScale_3D3D(a.begin(), a.end(), b.begin(), b.end(), ra, rb); if (!(fabs(s - 2) < 1e-9)) { printf("scale %g\\n", s); return 1; } return 0; }
'''))
S.append(dict(id='b21_ransac_last', property='P21', edits=[('src/utMath/Optimization/Ransac.h', '		for ( std::size_t i = 0; i < nValues && int( nValues - i ) >= int( params.nMinInlier - nInlier ); i++, ++it )\n		{\n			const T d = typename RansacFunctor::Evaluator()( hypothesis, *it );', '		for ( std::size_t i = 0; i < nValues && int( nValues - i ) > int( params.nMinInlier - nInlier ); i++, ++it )\n		{\n			const T d = typename RansacFunctor::Evaluator()( hypothesis, *it );')],
 needs='a data set in which exactly the required number of values are inliers and the values at the end are needed', breaks='a hypothesis with just enough inliers is given up before its last values are tested',
 demo=H + '''#include <utMath/Vector.h>
#include <utUtil/Exception.h>
#include <utUtil/Logging.h>
#include <log4cpp/Category.hh>
#include <cassert>
#include <utMath/Optimization/Ransac.h>
using namespace Ubitrack::Math;
typedef Vector<double, 1> V;
struct R { struct Estimator { template <class I> bool operator()(V& r, const I a, const I b) const { r(0) = 0; int n = 0; for (I i = a; i != b; ++i, ++n) r(0) += (*i)(0); r(0) /= n; return true; } }; struct Evaluator { double operator()(const V& r, const V& v) const { return fabs(r(0) - v(0)); } }; };
int main() { std::vector<V> d(4); d[0](0) = 50; d[1](0) = 1; d[2](0) = 1; d[3](0) = 1; V r; std::size_t n = Optimization::ransac(d.begin(), d.end(), r, R(), Optimization::RansacParameter<double>(0.5, std::size_t(1), std::size_t(3), std::size_t(200))); if (n != 3 || !(fabs(r(0) - 1) < 1e-9)) { printf("%d inliers, result %g\\n", (int)n, r(0)); return 1; } return 0; }
'''))
S.append(dict(id='b22_tip_deviation', property='P22', edits=[('src/utAlgorithm/ToolTip/ErrorEstimation.h', 'stdDev += pow( *it - err, 2 );', 'stdDev += *it * *it - err * std::max( err, *it );')],
 needs='residuals that differ between the poses', breaks='the standard deviation of the tip distances',
 demo=H + '''#include <utMath/Pose.h>
#include <utAlgorithm/ToolTip/ErrorEstimation.h>
using namespace Ubitrack;
int main() { std::vector<Math::Pose> p; double d[4] = {1, 2, 4, 9}; for (int i = 0; i < 4; i++) p.push_back(Math::Pose(Math::Quaternion(), Math::Vector<double, 3>(d[i], 0, 0))); Math::Vector<double, 3> o(0, 0, 0); std::pair<double, double> r = Algorithm::ToolTip::estimatePosition3DError_6D(o, p.begin(), p.end(), o); if (!(fabs(r.first - 4) < 1e-9 && fabs(r.second - sqrt(38. / 3)) < 1e-9)) { printf("mean %g deviation %g\\n", r.first, r.second); return 1; } return 0; }
'''))
S.append(dict(id='b24_homography_scale', property='P24', edits=[('src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp', 'right( 2, 2 ) = Math::determinant( vt ) * Math::determinant( u );', 'right( 2, 2 ) = Math::determinant( u );')],
 needs='a homography whose decomposition has a reflection on the right', breaks='the rotation is mirrored, so the pose is not the one that produced the images',
 demo=H + '''#include <utMath/Pose.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
using namespace Ubitrack;
int main() { unsigned s = 3; Math::Matrix<double, 3, 3> I(Math::Matrix<double, 3, 3>::identity()); for (int run = 0; run < 200; run++) { double v[7]; for (int i = 0; i < 7; i++) { s = s * 1103515245 + 12345; v[i] = ((s >> 16) % 2001) / 1000.0 - 1; } Math::Quaternion q(v[0], v[1], v[2], v[3]); if (abs(q) < 0.3) continue; q.normalize(); Math::Vector<double, 3> t(v[4], v[5], -3 + v[6]); Math::Matrix<double, 3, 3> R; q.toMatrix(R), R; Math::Matrix<double, 3, 3> Hm = R; for (int i = 0; i < 3; i++) Hm(i, 2) = t(i); Math::Pose p = Algorithm::PoseEstimation2D3D::poseFromHomography(Hm, I); Math::Vector<double, 3> x(1, -2, 0.5), a = Math::Pose(q, t) * x, b = p * x; for (int i = 0; i < 3; i++) if (!(fabs(a(i) - b(i)) < 1e-6)) { printf("run %d: %g %g\\n", run, a(i), b(i)); return 1; } } return 0; }
'''))

H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n'
S.append(dict(id='b01_log_long_way', property='P01', edits=[('src/utMath/Quaternion.cpp', 'double s = w() >= 0 ? 1 : -1;', 'double s = w() > -0.6 ? 1 : -1;'), ('src/utMath/Quaternion.cpp', 'omega = 2 * acos( w() * s );', 'omega = 2 * acos( fabs( w() ) );')],
 needs='a unit quaternion whose real part is negative but above -0.6', breaks='the logarithm of such a quaternion points the wrong way, so exp(log q) is the inverse rotation',
 demo=H + '''#include <utMath/Quaternion.h>
using namespace Ubitrack::Math;
int main() { double ws[] = {0.9, 0.3, -0.3, -0.5, -0.9}; for (double w : ws) { double s = sqrt((1 - w * w) / 3); Quaternion q(s, -s, s, w); Quaternion r = Quaternion::fromLogarithm(q.toLogarithm()); Vector<double, 3> v(1, 2, 3), a = q * v, b = r * v; for (int i = 0; i < 3; i++) if (!(fabs(a(i) - b(i)) < 1e-9)) { printf("w=%g: exp(log q) rotates differently\\n", w); return 1; } } return 0; }
'''))
S.append(dict(id='b02_pose_unequal', property='P02', edits=[('src/utMath/Pose.cpp', '''	if ((m_rotation == other.rotation()) && (m_translation == other.translation()))
		return false;
	return true;''', '''	return !( m_rotation == other.rotation() ) && !( m_translation == other.translation() );''')],
 needs='two poses that differ in the rotation only or in the translation only', breaks='such poses compare as not unequal',
 demo=H + '''#include <utMath/Pose.h>
using namespace Ubitrack::Math;
int main() { Pose a(Quaternion(0, 0, 0, 1), Vector<double, 3>(1, 2, 3)), b(Quaternion(1, 0, 0, 0), Vector<double, 3>(1, 2, 3)), c(Quaternion(0, 0, 0, 1), Vector<double, 3>(1, 2, 4)), d = a; if (!(a != b) || !(a != c) || (a != d)) { puts("unequal poses compare equal"); return 1; } return 0; }
'''))
S.append(dict(id='b03_slerp_long_way', property='P03', edits=[('src/utMath/Quaternion.cpp', 'if (diffNorm > 2.0)', 'if (diffNorm > 2.5)')],
 needs='two quaternions of opposite sign whose rotations are between 151 and 180 degrees apart', breaks='interpolation takes the long way round between such rotations',
 demo=H + '''#include <utMath/Quaternion.h>
using namespace Ubitrack::Math;
int main() { double an = 170 * M_PI / 180; Quaternion a(0, 0, 0, 1), b(-sin(an / 2), 0, 0, -cos(an / 2)); Quaternion m = slerp(a, b, 0.5); Vector<double, 3> v(0, 1, 0), r = m * v; if (!(fabs(r(1) - cos(an / 2)) < 1e-9 && fabs(r(2) - sin(an / 2)) < 1e-9)) { printf("midpoint is not on the shortest arc\\n"); return 1; } return 0; }
'''))
S.append(dict(id='b04_errpose_vector', property='P04', edits=[('src/utMath/ErrorPose.cpp', '''	j( 2, 5 ) = 4 * ( t213 * (  - ( t212 * t214 ) + t216 * t228 ) + t221 * ( t222 + t259 ) );''', '''	j( 2, 5 ) = 4 * ( t213 * (  - ( t212 * t214 ) + t216 * t228 ) + t221 * ( t222 - t259 ) );''')],
 needs='a pose rotated about x, a point off the x=0 plane and an orientation covariance', breaks='the covariance of a point transformed by an uncertain pose',
 demo=H + '''#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
using namespace Ubitrack::Math;
int main() { double h = 0.4; Quaternion q(sin(h), 0, 0, cos(h)); Matrix<double, 6, 6> C(Matrix<double, 6, 6>::zeros()); C(5, 5) = 1; Vector<double, 3> v(1, 2, 3); ErrorVector<double, 3> r = ErrorPose(q, Vector<double, 3>(0, 0, 0), C) * v;
  // a small turn about z before the rotation moves the point by 2*(-v1, v0, 0), then rotated
  Vector<double, 3> d = q * Vector<double, 3>(-2 * v(1), 2 * v(0), 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(fabs(r.covariance(i, j) - d(i) * d(j)) < 1e-9)) { printf("covariance(%d,%d) = %g, expected %g\\n", i, j, r.covariance(i, j), d(i) * d(j)); return 1; } return 0; }
'''))
S.append(dict(id='b05_subrange_cov', property='P05', edits=[('src/utMath/Stochastic/CovarianceTransform.h', 'if ( iOutEnd < value.size() )', 'if ( iOutEnd < value.size() && iOutEnd <= iInEnd )')],
 needs='a sub-vector update whose inputs end before its outputs do, with state left of it', breaks='the cross-covariance with the rest of the state is left stale',
 demo=H + '''#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/CovarianceTransform.h>
using namespace Ubitrack::Math;
struct F { template <class A, class B, class M> void evaluateWithJacobian(A& r, const B& in, M& j) const { r(0) = 2 * in(0); r(1) = 3 * in(0); j(0, 0) = 2; j(1, 0) = 3; } };
int main() { ErrorVector<double, 3> v; v.value = Vector<double, 3>(1, 1, 1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) v.covariance(i, j) = i == j ? 1 : 0.1 * (i + j); double c02 = v.covariance(0, 2); Stochastic::transformRangeInternalWithCovariance<3>(F(), v, 0, 2, 0, 1); if (!(fabs(v.covariance(0, 2) - 2 * c02) < 1e-9 && fabs(v.covariance(2, 1) - 3 * c02) < 1e-9)) { puts("cross-covariance not updated"); return 1; } return 0; }
'''))

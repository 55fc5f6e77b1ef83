//@ property P01
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp
//@ bounds rotations: every unit quaternion (exact reals); axis-angle: every angle and axis; gimbal zones of the Euler extraction (|sin| > 0.998, resp. |cos| <= 1e-5) are excluded; logarithm/exponential: rotation vectors longer than 1e-12
//@ assume exact real arithmetic: rounding is not modelled
#include "hmath.h"
#include <cmath>
#include <utMath/Util/RotationCast.h>
using namespace Math;
using Math::Util::RotationCast;
VP_CASE(q_matrix) { Quaternion q = inUnitQ("q"); double R[3][3]; refRot(q, R); M33 m; q.toMatrix(m); eqRM(m, R, "quaternion to matrix");
  V3 v = inV3("v"); V3 r = q * v; for (int i = 0; i < 3; i++) vp_assert_eq(r(i), R[i][0] * v(0) + R[i][1] * v(1) + R[i][2] * v(2), "quaternion rotates like its matrix");
  double I[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, P[3][3], T[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) T[i][j] = m(j, i); double M[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = m(i, j); mul33(M, T, P); eqR(P, I, "orthonormal");
  M44 h; q.toMatrix(h); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(h(i, j), R[i][j], "4x4 target");
  M33 c = RotationCast<M33>()(q); eqRM(c, R, "cast quaternion to matrix"); M33 mc(q); eqRM(mc, R, "matrix from quaternion"); }
VP_CASE(q_compose) { Quaternion a = inUnitQ("a"), b = inUnitQ("b"); V3 v = inV3("v"); Quaternion ab(a * b); V3 x = ab * v, y = a * (b * v); eqV(x, y, 3, "composition"); vp_assert_eq(ab.x() * ab.x() + ab.y() * ab.y() + ab.z() * ab.z() + ab.w() * ab.w(), 1, "unit product");
  V3 z = (~a) * (a * v); eqV(z, v, 3, "conjugate inverts"); Quaternion c = a; c.invert(); vp_assert_eq(c.x(), -a.x(), "invert"); vp_assert_eq(c.w(), a.w(), "invert"); vp_assert_eq(c.y(), -a.y(), "invert"); vp_assert_eq(c.z(), -a.z(), "invert"); }
VP_CASE(q_normalize) { Quaternion q = inQ("q"); double n2 = q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w(); vp_assume(n2 > 0.0001); Quaternion u = q; u.normalize(); vp_assert_eq(u.x() * u.x() + u.y() * u.y() + u.z() * u.z() + u.w() * u.w(), 1, "unit length"); vp_assert_eq(u.x() * q.w(), q.x() * u.w(), "direction kept"); vp_assert_eq(u.y() * q.w(), q.y() * u.w(), "direction kept"); vp_assert_eq(u.z() * q.w(), q.z() * u.w(), "direction kept"); vp_assert_le(0, u.w() * q.w(), "orientation kept"); }
static void same(const Quaternion& r, const Quaternion& q, const char* l) { double A[3][3], B[3][3]; refRot(r, A); refRot(q, B); eqR(A, B, l); vp_assert_eq(r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w(), 1, l); }
VP_CASE(matrix_q) { Quaternion q = inUnitQ("q"); double R[3][3]; refRot(q, R); Matrix<double, 0, 0> m(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; Quaternion r(m); same(r, q, "quaternion from matrix"); }
VP_CASE(matrix_q_cast) { Quaternion q = inUnitQ("q"); double R[3][3]; refRot(q, R); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; Quaternion r = RotationCast<Quaternion>()(m); same(r, q, "cast matrix to quaternion"); }
// half turns: the quaternion has w == 0
VP_CASE(matrix_q_half_turn) { double u[3]; vp_unit(u, 3, "u"); Quaternion q(u[0], u[1], u[2], 0); double R[3][3]; refRot(q, R); Matrix<double, 0, 0> m(3, 3); M33 n; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) n(i, j) = m(i, j) = R[i][j]; same(Quaternion(m), q, "quaternion from half-turn matrix"); same(RotationCast<Quaternion>()(n), q, "cast half-turn matrix to quaternion"); }
static void refAxisAngle(const V3& u, double c, double s, double R[3][3]) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = u(i) * u(j) * (1 - c) + (i == j ? c : 0); double K[3][3] = {{0, -u(2), u(1)}, {u(2), 0, -u(0)}, {-u(1), u(0), 0}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] += s * K[i][j]; }
VP_CASE(axis_angle_q) { V3 u = inUnit3("u"); double len = vp_real("len"), a = vp_real("a"); vp_assume(len > 0.001); V3 ax(u(0) * len, u(1) * len, u(2) * len); Quaternion q(ax, a); double A[3][3], B[3][3]; refRot(q, A); refAxisAngle(u, cos(a), sin(a), B); eqR(A, B, "axis-angle constructor");
  Quaternion r = RotationCast<Quaternion>()(V4(u(0), u(1), u(2), a)); refRot(r, A); eqR(A, B, "cast axis-angle to quaternion"); M33 m = RotationCast<M33>()(V4(u(0), u(1), u(2), a)); eqRM(m, B, "cast axis-angle to matrix"); }
VP_CASE(q_axis_angle) { Quaternion q = inUnitQ("q"); V3 ax; double an; vp_assume(q.w() * q.w() < 1 - 1.1e-6); Quaternion c = q; c.toAxisAngle(ax, an); vp_assert_eq(ax(0) * ax(0) + ax(1) * ax(1) + ax(2) * ax(2), 1, "unit axis"); double A[3][3], B[3][3]; refRot(q, B); refAxisAngle(ax, cos(an), sin(an), A); eqR(A, B, "quaternion to axis-angle");
  V4 r = RotationCast<V4>()(q); refAxisAngle(V3(r(0), r(1), r(2)), cos(r(3)), sin(r(3)), A); eqR(A, B, "cast quaternion to axis-angle"); vp_assert_le(0, an, "angle range"); vp_assert_le(an, 2 * M_PI, "angle range"); }
VP_CASE(q_axis_angle_identity) { Quaternion q; M33 e; q.toMatrix(e); V4 me = RotationCast<V4>()(e); vp_assert_eq(me(3), 0, "identity matrix has angle 0"); V4 r = RotationCast<V4>()(q); vp_assert_eq(r(3), 0, "identity has angle 0"); for (int i = 0; i < 3; i++) vp_assert_eq(r(i) * 0, 0, "identity has a finite axis"); V3 v = RotationCast<V3>()(q); for (int i = 0; i < 3; i++) vp_assert_eq(v(i), 0, "identity rotation vector"); }
VP_CASE(matrix_axis_angle) { Quaternion q = inUnitQ("q"); double R[3][3]; refRot(q, R); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; vp_assume(q.w() > 0.01); vp_assume(q.w() < 0.9999); V4 r = RotationCast<V4>()(m); double A[3][3]; refAxisAngle(V3(r(0), r(1), r(2)), cos(r(3)), sin(r(3)), A); eqR(A, R, "cast matrix to axis-angle"); }
VP_CASE(matrix_axis_angle_half_turn) { double u[3]; vp_unit(u, 3, "u"); Quaternion q(u[0], u[1], u[2], 0); double R[3][3]; refRot(q, R); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; V4 r = RotationCast<V4>()(m); double A[3][3]; refAxisAngle(V3(r(0), r(1), r(2)), cos(r(3)), sin(r(3)), A); eqR(A, R, "axis-angle of a half-turn matrix"); }
VP_CASE(rotvec) { V3 u = inUnit3("u"); double a = vp_real("a"); vp_in(a, 1e-9, 3.1); V3 v(u(0) * a, u(1) * a, u(2) * a); double A[3][3], B[3][3]; refAxisAngle(u, cos(a), sin(a), B); refRot(RotationCast<Quaternion>()(v), A); eqR(A, B, "cast rotation vector to quaternion"); M33 m = RotationCast<M33>()(v); eqRM(m, B, "cast rotation vector to matrix"); V4 aa = RotationCast<V4>()(v); vp_assert_eq(aa(3), a, "cast rotation vector to axis-angle"); for (int i = 0; i < 3; i++) vp_assert_eq(aa(i), u(i), "cast rotation vector to axis-angle"); V3 b = RotationCast<V3>()(aa); eqV(b, v, 3, "cast axis-angle to rotation vector"); refRot(Quaternion::fromLogarithm(v), A); eqR(A, B, "exponential"); }
VP_CASE(log_exp) { Quaternion q = inUnitQ("q"); V3 l = q.toLogarithm(); double n2 = l(0) * l(0) + l(1) * l(1) + l(2) * l(2); vp_assume(q.x() * q.x() + q.y() * q.y() + q.z() * q.z() > 1e-20); Quaternion r = Quaternion::fromLogarithm(l); same(r, q, "exp(log q)"); (void)n2; }
VP_CASE(angle_closer) { Quaternion q = inUnitQ("q"), r = inUnitQ("r"); double an = q.angle(); vp_assert_eq(cos(an), 2 * q.w() * q.w() - 1, "angle"); vp_assert_le(0, an, "angle range"); vp_assert_le(an, M_PI, "angle range");
  Quaternion n = q.negateIfCloser(r); double d = n.x() * r.x() + n.y() * r.y() + n.z() * r.z() + n.w() * r.w(); vp_assert_le(0, d, "negateIfCloser picks the nearer sign"); double A[3][3], B[3][3]; refRot(n, A); refRot(q, B); eqR(A, B, "negateIfCloser keeps the rotation"); }
static void elem(int ax, double c, double s, double R[3][3]) { V3 u(ax == 0, ax == 1, ax == 2); refAxisAngle(u, c, s, R); }
// every rotation is Rz Ry Rx; the half angles are arbitrary points on the unit circle, cos(y) > 1.1e-5 away from the gimbal lock (negative cos(y) is the same rotation with other angles)
VP_CASE(euler_zyx) { double x[2], y[2], z[2]; vp_unit(x, 2, "x"); vp_unit(y, 2, "y"); vp_unit(z, 2, "z"); Quaternion q(Quaternion(0, 0, z[1], z[0]) * Quaternion(0, y[1], 0, y[0]) * Quaternion(x[1], 0, 0, x[0])); double B[3][3]; refRot(q, B); vp_assume(y[0] * y[0] - y[1] * y[1] > 1.1e-5); V3 e = q.getEulerAngles(); double X[3][3], Y[3][3], Z[3][3], T[3][3], A[3][3]; elem(0, cos(e(0)), sin(e(0)), X); elem(1, cos(e(1)), sin(e(1)), Y); elem(2, cos(e(2)), sin(e(2)), Z); mul33(Z, Y, T); mul33(T, X, A); eqR(A, B, "Euler angles rebuild the rotation"); }
static void seq(int s, int a, int b, int c) { Quaternion q = inUnitQ("q"); V3 e = q.getEulerAngles((Quaternion::t_EulerSequence)s); double P[3] = {q.x(), q.y(), q.z()}; (void)P; double B[3][3]; refRot(q, B);
  double sb = (s < 3) ? -B[c][a] : B[c][a]; vp_assume(sb < 0.998); vp_assume(sb > -0.998);
  double F[3][3], S[3][3], L[3][3], T[3][3], A[3][3]; elem(a, cos(e(0)), sin(e(0)), F); elem(b, cos(e(1)), sin(e(1)), S); elem(c, cos(e(2)), sin(e(2)), L); mul33(S, F, T); mul33(L, T, A); eqR(A, B, "Euler sequence rebuilds the rotation"); }
VP_CASE(euler_xyz) { seq(0, 0, 1, 2); }
VP_CASE(euler_yzx) { seq(1, 1, 2, 0); }
VP_CASE(euler_zxy) { seq(2, 2, 0, 1); }
VP_CASE(euler_zyx2) { seq(3, 2, 1, 0); }
VP_CASE(euler_xzy) { seq(4, 0, 2, 1); }
VP_CASE(euler_yxz) { seq(5, 1, 0, 2); }
// ---- rotations that carry rounding errors: half-turn matrices whose diagonal and antisymmetric part are off by up to 1e-9, quaternions whose w is slightly beyond 1
static double tiny(const char* n) { double e = vp_real(n) * 1e-9; if (!vp_symbolic()) while (e > 1e-9 || e < -1e-9) e /= 8; vp_in(e, -1e-9, 1e-9); return e; }
static void roughHalfTurn(double* u, double R[3][3]) { double one = (double)(vp_symbolic() | 1); static const int A[6][4] = {{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}, {3, -4, 0, 5}, {2, -1, 2, 3}, {-2, 3, 6, 7}}; const int* a = A[vp_choice("axis", 6)]; for (int i = 0; i < 3; i++) u[i] = a[i] * one / a[3]; double e[4]; for (int i = 0; i < 4; i++) e[i] = tiny("e"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = 2 * u[i] * u[j] - (i == j ? 1 : 0) + (i == j ? e[3] : (j == (i + 1) % 3 ? 1 : -1) * e[3 - i - j]); }
static void nearHalfTurn(double x, double y, double z, double w, const double* u, const char* l) { double d = x * u[0] + y * u[1] + z * u[2]; vp_assert_le(0.999, d * d, l); vp_assert_le(d * d, 1.001, l); vp_assert_le(w * w, 0.001, l); }
VP_CASE(rough_half_turn) { double u[3], R[3][3]; roughHalfTurn(u, R); Matrix<double, 0, 0> m(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; Quaternion q(m); nearHalfTurn(q.x(), q.y(), q.z(), q.w(), u, "quaternion of a half-turn matrix with rounding errors"); }
VP_CASE(rough_half_turn_cast) { double u[3], R[3][3]; roughHalfTurn(u, R); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; Quaternion q = RotationCast<Quaternion>()(m); nearHalfTurn(q.x(), q.y(), q.z(), q.w(), u, "cast of a half-turn matrix with rounding errors to a quaternion"); }
VP_CASE(rough_half_turn_axis) { double u[3], R[3][3]; roughHalfTurn(u, R); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; V4 r = RotationCast<V4>()(m); nearHalfTurn(r(0), r(1), r(2), 0, u, "cast of a half-turn matrix with rounding errors to axis and angle"); vp_assert_le(cos(r(3)), -0.999, "angle of a half-turn matrix with rounding errors"); }
VP_CASE(rough_identity) { double d = tiny("d"); vp_assume(d >= 0); int neg = vp_choice("sign", 2); Quaternion q(tiny("x"), tiny("x"), tiny("x"), neg ? -1 - d : 1 + d); vp_assert_le(0, q.angle(), "angle of a quaternion with rounding errors"); vp_assert_le(q.angle(), 0.001, "angle of a quaternion with rounding errors"); V3 ax; double an; q.toAxisAngle(ax, an); vp_assert_le(-0.001, an, "axis and angle of a quaternion with rounding errors"); vp_assert_le(an, 2 * M_PI + 0.001, "axis and angle of a quaternion with rounding errors"); if (!neg) vp_assert_le(an, 0.001, "axis and angle of a quaternion with rounding errors"); else vp_assert_le(cos(an / 2), -0.999, "axis and angle of a quaternion with rounding errors"); for (int i = 0; i < 3; i++) { vp_assert_le(ax(i), 1.001, "axis and angle of a quaternion with rounding errors"); vp_assert_le(-1.001, ax(i), "axis and angle of a quaternion with rounding errors"); }
  V4 r = RotationCast<V4>()(q); for (int i = 0; i < 3; i++) vp_assert_le(r(i) * r(i), 1.001, "cast of a quaternion with rounding errors to axis and angle"); double h = r(3) * (r(0) * r(0) + r(1) * r(1) + r(2) * r(2)); vp_assert_le(-0.001, h, "cast of a quaternion with rounding errors to axis and angle"); V3 l = q.toLogarithm(); for (int i = 0; i < 3; i++) { vp_assert_le(l(i), 0.001, "logarithm of a quaternion with rounding errors"); vp_assert_le(-0.001, l(i), "logarithm of a quaternion with rounding errors"); } }

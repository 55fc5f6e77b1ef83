//@ property P04
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp
//@ bounds every rigid pose and every symmetric 6x6 (3x3) covariance over exact reals; first-order propagation
//@ assume exact real arithmetic: rounding is not modelled
#include "hmath.h"
#include <cmath>
#include <utMath/ErrorPose.h>
using namespace Math;
typedef Matrix<double, 6, 6> M66;
// the documented error model: x' = q e_r x e_r* q* + t + e_t, e = (e_t, e_r) ~ N(0, C).  First-order maps of e, derived by hand:
struct J66 { double a[6][6]; J66() { for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) a[i][j] = 0; } };
static void cross(const double v[3], double K[3][3]) { double T[3][3] = {{0, -v[2], v[1]}, {v[2], 0, -v[0]}, {-v[1], v[0], 0}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K[i][j] = T[i][j]; }
static J66 jInv(const Pose& p) { double R[3][3], v[3], K[3][3]; refRot(p.rotation(), R); for (int i = 0; i < 3; i++) v[i] = R[0][i] * p.translation()(0) + R[1][i] * p.translation()(1) + R[2][i] * p.translation()(2); cross(v, K); J66 J; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { J.a[i][j] = -R[j][i]; J.a[i][j + 3] = -2 * K[i][j]; J.a[i + 3][j + 3] = -R[i][j]; } return J; }
static J66 jMul1(const Pose& a, const Pose& b) { double Ra[3][3], Rb[3][3], K[3][3], M[3][3], v[3]; refRot(a.rotation(), Ra); refRot(b.rotation(), Rb); for (int i = 0; i < 3; i++) v[i] = b.translation()(i); cross(v, K); mul33(Ra, K, M); J66 J; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { J.a[i][j] = i == j; J.a[i][j + 3] = -2 * M[i][j]; J.a[i + 3][j + 3] = Rb[j][i]; } return J; }
static J66 jMul2(const Pose& a) { double Ra[3][3]; refRot(a.rotation(), Ra); J66 J; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { J.a[i][j] = Ra[i][j]; J.a[i + 3][j + 3] = i == j; } return J; }
static void sand(const J66& J, const M66& C, double out[6][6], bool add) { double T[6][6]; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { T[i][j] = 0; for (int k = 0; k < 6; k++) T[i][j] += J.a[i][k] * C(k, j); } for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { double s = 0; for (int k = 0; k < 6; k++) s += T[i][k] * J.a[j][k]; out[i][j] = add ? out[i][j] + s : s; } }
static void eq6(const M66& C, double R[6][6], const char* l) { for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vp_assert_eq(C(i, j), R[i][j], l); }
static void samePose(const Pose& a, const Pose& b, const char* l) { double A[3][3], B[3][3]; refRot(a.rotation(), A); refRot(b.rotation(), B); eqR(A, B, l); eqV(a.translation(), b.translation(), 3, l); }
VP_CASE(inverse) { Pose p = inPose("q", "t"); M66 C = inSym<6>("C"); ErrorPose r = ~ErrorPose(p, C); double E[6][6]; sand(jInv(p), C, E, false); samePose(r, ~p, "value of the inverse"); eq6(r.covariance(), E, "covariance of the inverse"); }
VP_CASE(product_first) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); M66 C = inSym<6>("C"); ErrorPose r = ErrorPose(a, C) * b; double E[6][6]; sand(jMul1(a, b), C, E, false); samePose(r, a * b, "value"); eq6(r.covariance(), E, "covariance from the first factor"); }
VP_CASE(product_second) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); M66 C = inSym<6>("C"); ErrorPose r = a * ErrorPose(b, C); double E[6][6]; sand(jMul2(a), C, E, false); samePose(r, a * b, "value"); eq6(r.covariance(), E, "covariance from the second factor"); }
VP_CASE(product_both) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); M66 C = inSym<6>("C"), D = inSym<6>("D"); ErrorPose r = ErrorPose(a, C) * ErrorPose(b, D); double E[6][6]; sand(jMul1(a, b), C, E, false); sand(jMul2(a), D, E, true); samePose(r, a * b, "value"); eq6(r.covariance(), E, "covariance of a product"); }
VP_CASE(invert_multiply_value) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); M66 Z = M66::zeros(); samePose(invertMultiply(ErrorPose(a, Z), ErrorPose(b, Z)), (~a) * b, "value of invertMultiply"); }
// both covariances in turn: the result is linear in them
static void invMul(bool first) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); M66 C = inSym<6>("C"), Z = M66::zeros(); ErrorPose r = invertMultiply(ErrorPose(a, first ? C : Z), ErrorPose(b, first ? Z : C)); double E[6][6];
  J66 J; Pose ia = ~a; if (first) { J66 A = jMul1(ia, b), B = jInv(a); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { J.a[i][j] = 0; for (int k = 0; k < 6; k++) J.a[i][j] += A.a[i][k] * B.a[k][j]; } } else J = jMul2(ia);
  sand(J, C, E, false); eq6(r.covariance(), E, first ? "covariance from the inverted factor" : "covariance from the other factor"); }
VP_CASE(invert_multiply_first) { invMul(true); }
VP_CASE(invert_multiply_second) { invMul(false); }
static void vec(bool err) { Pose a = inPose("q", "t"); M66 C = inSym<6>("C"); V3 v = inV3("v"); M33 D = err ? inSym<3>("D") : M33(M33::zeros()); ErrorVector<double, 3> r = err ? ErrorPose(a, C) * ErrorVector<double, 3>(v, D) : ErrorPose(a, C) * v; eqV(r.value, a * v, 3, "value"); J66 J = jMul1(a, Pose(Quaternion(), v)); double E[6][6], R[3][3]; sand(J, C, E, false); refRot(a.rotation(), R);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = E[i][j]; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) s += R[i][k] * D(k, l) * R[j][l]; vp_assert_eq(r.covariance(i, j), s, err ? "covariance of an uncertain transformed point" : "covariance of a transformed point"); } }
VP_CASE(times_vector) { vec(false); }
VP_CASE(times_error_vector) { vec(true); }
// additive form: (t, q) with q(e) = q * (e_rx, e_ry, e_rz, 1 + e_w); e_w independent with variance C33 + C44 + C55 (library convention)
static void leftMat(const Quaternion& q, double L[4][4]) { double x = q.x(), y = q.y(), z = q.z(), w = q.w(); double T[4][4] = {{w, -z, y, x}, {z, w, -x, y}, {-y, x, w, z}, {-x, -y, -z, w}}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) L[i][j] = T[i][j]; }
VP_CASE(to_additive) { Pose p = inPose("q", "t"); M66 C = inSym<6>("C"); ErrorPose e(p, C); ErrorVector<double, 7> v; e.toAdditiveErrorVector(v); double L[4][4], F[7][7], P[7][7]; leftMat(p.rotation(), L); for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) { F[i][j] = i < 3 || j < 3 ? i == j : L[i - 3][j - 3]; P[i][j] = i < 6 && j < 6 ? C(i, j) : (i == 6 && j == 6 ? C(3, 3) + C(4, 4) + C(5, 5) : 0); }
  for (int i = 0; i < 3; i++) vp_assert_eq(v.value(i), p.translation()(i), "additive value"); vp_assert_eq(v.value(3), p.rotation().x(), "additive value"); vp_assert_eq(v.value(4), p.rotation().y(), "additive value"); vp_assert_eq(v.value(5), p.rotation().z(), "additive value"); vp_assert_eq(v.value(6), p.rotation().w(), "additive value");
  for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) { double s = 0; for (int k = 0; k < 7; k++) for (int l = 0; l < 7; l++) s += F[i][k] * P[k][l] * F[j][l]; vp_assert_eq(v.covariance(i, j), s, "additive covariance"); } }
VP_CASE(additive_round_trip) { Pose p = inPose("q", "t"); M66 C = inSym<6>("C"); ErrorPose e(p, C); ErrorVector<double, 7> v; e.toAdditiveErrorVector(v); ErrorPose r = ErrorPose::fromAdditiveErrorVector(v); samePose(r, p, "additive round trip"); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vp_assert_eq(r.covariance()(i, j), C(i, j), "additive round trip keeps the covariance"); }
VP_CASE(double_inverse) { Pose p = inPose("q", "t"); M66 C = inSym<6>("C"); ErrorPose r = ~~ErrorPose(p, C); eqM(r.covariance(), C, 6, 6, "inverting twice keeps the covariance"); }
VP_CASE(rms) { ErrorVector<double, 3> v(inV3("v"), inSym<3>("C")); double tr = v.covariance(0, 0) + v.covariance(1, 1) + v.covariance(2, 2); vp_assume(tr >= 0); double r = v.getRMS(); vp_assert_eq(r * r, tr, "RMS is the root of the trace"); vp_assert_le(0, r, "RMS is not negative"); }

//@ property P25
//@ sources utAlgorithm/OnlineRotHec.cpp utAlgorithm/RotationHecKalmanFilter.cpp utMath/Quaternion.cpp utUtil/Exception.cpp
//@ libs log4cpp
//@ models lapack
//@ bounds one and two measurements; movements with any length along seven directions of the summed axes and any difference of the axes; quaternion filter: any state, movements from fixed pairs; prior covariance as constructed
//@ case two search=no
//@ case exact_1 search=no
//@ case exact_2 search=no
//@ assume exact real arithmetic: rounding is not modelled
//@ assume BLAS/LAPACK calls (symm, potrf, potri, getrf, getri) compute what they document: replaced by models/lapack.cpp
#include "hmath.h"
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#include <utUtil/Exception.h>
using namespace Math;
struct Hec : Algorithm::OnlineRotHec { using Algorithm::OnlineRotHec::m_state; };
struct Kf : Algorithm::RotationHecKalmanFilter { using Algorithm::RotationHecKalmanFilter::m_state; };
static void refProdT(const double a[4], const double b[4], double r[4]) { r[0] = a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1]; r[1] = a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2]; r[2] = a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0]; r[3] = a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]; }
static const double prior = 1e6;
// M = sum of skew(a+b)^T skew(a+b), v = sum of skew(a+b)^T (b-a): the least-squares problem of the movements seen so far
struct Ls { double M[3][3], v[3]; Ls() { for (int i = 0; i < 3; i++) { v[i] = 0; for (int j = 0; j < 3; j++) M[i][j] = i == j ? 1 / prior : 0; } }
  void add(const double* a, const double* b) { double s[3], d[3]; for (int i = 0; i < 3; i++) { s[i] = a[i] + b[i]; d[i] = b[i] - a[i]; } double n = s[0] * s[0] + s[1] * s[1] + s[2] * s[2];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] += (i == j ? n : 0) - s[i] * s[j];   // skew(s)^T skew(s)
    for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; v[i] += -(s[j] * d[k] - s[k] * d[j]); } } };
static void check(const Hec& h, const Ls& l, const char* what) { for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) s += l.M[i][j] * h.m_state.value(j); vp_assert_eq(s, l.v[i], what); } }
// one movement: the sum of both axes along a fixed direction, of any length, their difference free (not necessarily unit length: the equations are linear), both signs of both quaternions
static void axes(const double* dir, double* a, double* b) { double k = vp_real("length"); for (int i = 0; i < 3; i++) { double d = vp_real("difference"); a[i] = (k * dir[i] - d) / 2; b[i] = (k * dir[i] + d) / 2; } }
static void one(double sa, double sb, double x, double y, double z) { double dir[3] = {x, y, z}, a[3], b[3]; axes(dir, a, b); double w = vp_real("w"); vp_assume(w > 0.001);
  Hec h; h.addMeasurement(Quaternion(sa * a[0], sa * a[1], sa * a[2], sa * w), Quaternion(sb * b[0], sb * b[1], sb * b[2], sb * w)); Ls l; l.add(a, b); check(h, l, "the state is the least-squares solution of the movements"); }
VP_CASE(one_pp) { one(1, 1, 1, 2, -1); }
VP_CASE(one_pm) { one(1, -1, 0.5, -1, 2); }
VP_CASE(one_mp) { one(-1, 1, -2, 1, 1); }
VP_CASE(one_mm) { one(-1, -1, 1, 0.5, 3); }
VP_CASE(one_x) { one(1, 1, 1, 0, 0); }
VP_CASE(one_y) { one(1, 1, 0, 1, 0); }
VP_CASE(one_z) { one(1, 1, 0, 0, 1); }
VP_CASE(two) { double a[3], b[3], dir[3] = {-1, 3, 2}; axes(dir, a, b); double w = vp_real("w"); vp_assume(w > 0.001); double c[3] = {0.5, -0.25, 0.125}, d[3] = {-0.25, 0.125, 0.5};
  Hec h; h.addMeasurement(Quaternion(c[0], c[1], c[2], 0.5), Quaternion(-d[0], -d[1], -d[2], -0.5)); h.addMeasurement(Quaternion(a[0], a[1], a[2], w), Quaternion(b[0], b[1], b[2], w)); Ls l; l.add(c, d); l.add(a, b); check(h, l, "the state is the least-squares solution of all movements"); }
// movements of a true hand-eye rotation x: a x = x b holds for the true state exactly, so the error only comes from the prior
static void exact(double gx, double gy, double gz) { double g[3] = {gx, gy, gz}; double n = 1 + g[0] * g[0] + g[1] * g[1] + g[2] * g[2]; Hec h; Ls l; double kb = vp_real("length"); double bb[2][4] = {{0.5 * kb, 0.25 * kb, -0.5 * kb, 0.5}, {-0.25, 0.5, 0.125, 0.75}};
  for (int k = 1; k >= 0; k--) { double b[3] = {bb[k][0], bb[k][1], bb[k][2]}, a[3]; // a = R(x) b with x = (g, 1) / sqrt(n)
    double gb = g[0] * b[0] + g[1] * b[1] + g[2] * b[2], gg = n - 1; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, m = (i + 2) % 3; a[i] = ((1 - gg) * b[i] + 2 * gb * g[i] + 2 * (g[j] * b[m] - g[m] * b[j])) / n; }
    l.add(a, b); double s[3]; for (int i = 0; i < 3; i++) s[i] = a[i] + b[i]; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, m = (i + 2) % 3; vp_assert_eq(s[j] * g[m] - s[m] * g[j], b[i] - a[i], "the true rotation satisfies the equations"); }
    h.addMeasurement(Quaternion(a[0], a[1], a[2], bb[k][3]), Quaternion(b[0], b[1], b[2], bb[k][3])); }
  for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) s += l.M[i][j] * (h.m_state.value(j) - g[j]); vp_assert_eq(s, -g[i] / prior, "only the prior keeps the state from the true rotation"); } }
VP_CASE(exact_1) { exact(0.5, -1, 0.25); }
VP_CASE(exact_2) { exact(-2, 0.5, 1); }
VP_CASE(result) { Hec h; for (int i = 0; i < 3; i++) h.m_state.value(i) = vp_real("g"); Quaternion q = h.computeResult(); vp_assert_eq(q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w(), 1, "the result is a unit quaternion"); vp_assert(q.w() > 0, "the result has a positive scalar part"); vp_assert_eq(q.x(), h.m_state.value(0) * q.w(), "the result is the rotation of the state"); vp_assert_eq(q.y(), h.m_state.value(1) * q.w(), "the result is the rotation of the state"); vp_assert_eq(q.z(), h.m_state.value(2) * q.w(), "the result is the rotation of the state"); }
VP_CASE(start) { Hec h; Quaternion q = h.computeResult(); vp_assert_eq(q.x(), 0, "starts at the identity"); vp_assert_eq(q.y(), 0, "starts at the identity"); vp_assert_eq(q.z(), 0, "starts at the identity"); vp_assert_eq(q.w(), 1, "starts at the identity"); Kf k; Quaternion p = k.getResult(); vp_assert_eq(p.x(), 0, "starts at the identity"); vp_assert_eq(p.y(), 0, "starts at the identity"); vp_assert_eq(p.z(), 0, "starts at the identity"); vp_assert_eq(p.w(), 1, "starts at the identity"); }
// Kalman filter on the quaternion: with x the state before and J the matrix of q -> a q - q b, the posterior solves (J^T J / r + 1 / p) y = x / p, and the state is y scaled to unit length
static void mat(double J[4][4], const double* a, const double* b) { for (int c = 0; c < 4; c++) { double e[4] = {0, 0, 0, 0}, s[4], t[4]; e[c] = 1; refProdT(a, e, s); refProdT(e, b, t); for (int i = 0; i < 4; i++) J[i][c] = s[i] - t[i]; } }
static void kf(const double* a, const double* b, double sb) { Kf k; double p = 100, r = 0.01, x[4]; for (int i = 0; i < 4; i++) x[i] = vp_real("x"); double n2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]; vp_assume(n2 > 0.01); for (int i = 0; i < 4; i++) k.m_state.value(i) = x[i];
  k.addMeasurement(Quaternion(a[0], a[1], a[2], a[3]), Quaternion(sb * b[0], sb * b[1], sb * b[2], sb * b[3])); double J[4][4]; mat(J, a, b);
  double y[4]; for (int i = 0; i < 4; i++) y[i] = k.m_state.value(i); vp_assert_eq(y[0] * y[0] + y[1] * y[1] + y[2] * y[2] + y[3] * y[3], 1, "the state is a unit quaternion");
  double A[4]; for (int i = 0; i < 4; i++) { A[i] = y[i] / p; for (int j = 0; j < 4; j++) for (int m = 0; m < 4; m++) A[i] += J[m][i] * J[m][j] * y[j] / r; }   // proportional to x / p with a positive factor
  double d = 0; for (int i = 0; i < 4; i++) { d += A[i] * x[i]; for (int j = i + 1; j < 4; j++) vp_assert_eq(A[i] * x[j], A[j] * x[i], "the state is the posterior scaled to unit length"); } vp_assert(d > 0, "the state is the posterior, not its negative"); }
static const double A1[4] = {0.5, 0.5, -0.5, 0.5}, B1[4] = {0.5, -0.5, 0.5, 0.5}, A2[4] = {2 / 9., 4 / 9., 5 / 9., 6 / 9.}, B2[4] = {-2 / 9., 5 / 9., 4 / 9., 6 / 9.};
// the same angle about nearly opposite axes: the scalar parts decide the sign, not the distance of the quaternions
static const double A3[4] = {2 / 9., 4 / 9., 5 / 9., 6 / 9.}, B3[4] = {-4 / 9., -5 / 9., -2 / 9., 6 / 9.};
VP_CASE(kf_opposite) { kf(A3, B3, 1); }
VP_CASE(kf_opposite_negated) { kf(A3, B3, -1); }
VP_CASE(kf_1) { kf(A1, B1, 1); }
VP_CASE(kf_2) { kf(A2, B2, 1); }
VP_CASE(kf_negated) { kf(A2, B2, -1); }
// a movement that the state already explains leaves it unchanged
static void fixed(double x, double y, double z) { double l = vp_real("length"), g[4] = {x, y, z, 1}; vp_assume(l > 0.01); double b[4] = {2 * l, 4 * l, 5 * l, 6 * l}, t[4], c[4] = {-g[0], -g[1], -g[2], g[3]}, a[4]; refProdT(g, b, t); refProdT(t, c, a); double n = 1 + x * x + y * y + z * z; Kf k; for (int i = 0; i < 4; i++) k.m_state.value(i) = g[i]; k.addMeasurement(Quaternion(a[0] / n, a[1] / n, a[2] / n, a[3] / n), Quaternion(b[0], b[1], b[2], b[3])); for (int i = 0; i < 3; i++) vp_assert_eq(k.m_state.value(i), g[i] * k.m_state.value(3), "an explained movement leaves the state unchanged"); vp_assert(k.m_state.value(3) > 0, "an explained movement leaves the state unchanged"); }
VP_CASE(kf_fixed_1) { fixed(0.5, -0.25, 1); }
VP_CASE(kf_fixed_2) { fixed(-2, 1, 0.5); }

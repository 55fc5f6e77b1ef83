//@ property P08
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ libs log4cpp
//@ bounds objective functions of 3D-3D pose estimation, its covariance and bundle adjustment: 1 or 2 points, 1 or 2 cameras
#include "hmath.h"
#include <cmath>
#include <vector>
#include <iterator>
#include <utMath/Blas1.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utAlgorithm/BundleAdjustment.cpp>
using namespace Math; using std::vector; using std::size_t;
static void refProdT(const double a[4], const double b[4], double r[4]) { r[0] = a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1]; r[1] = a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2]; r[2] = a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0]; r[3] = a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]; }
static void tangent(const double q[4], int k, double d[4]) { double e[4] = {0, 0, 0, 0}; e[k] = 0.5; refProdT(q, e, d); }
static void rotv(const double q[4], const V3& v, double d[3]) { double R[3][3]; refRot(q[0], q[1], q[2], q[3], R); for (int i = 0; i < 3; i++) { d[i] = 0; for (int j = 0; j < 3; j++) d[i] += R[i][j] * v(j); } }
static void rotd(const double q[4], int k, const V3& v, double d[3]) { V3 c; int a = (k + 1) % 3, b = (k + 2) % 3; c(k) = 0; c(a) = -v(b); c(b) = v(a); rotv(q, c, d); }
VP_CASE(correspondences) { double q[4]; vp_unit(q, 4, "q"); Vector<double, 7> in; for (int i = 0; i < 3; i++) in(i) = vp_real("t"); for (int i = 0; i < 4; i++) in(3 + i) = q[i]; vector<V3> p; p.push_back(inV3("p")); p.push_back(inV3("r")); Vector<double, 6> r, r2; Matrix<double, 6, 7> J, J2; Algorithm::PoseEstimation3D3D::PointCorrespodencesSinglePose<vector<V3>::const_iterator> f(p.begin(), p.end()); vp_assert_eq_u64(f.size(), 6, "size"); f.evaluate(r, in); f.evaluateWithJacobian(r2, in, J); f.jacobian(in, J2);
  for (int a = 0; a < 2; a++) { double X[3]; rotv(q, p[a], X); for (int i = 0; i < 3; i++) { vp_assert_eq(r(3 * a + i), X[i] + in(i), "transformed point"); vp_assert_eq(r2(3 * a + i), X[i] + in(i), "transformed point"); for (int j = 0; j < 7; j++) vp_assert_eq(J(3 * a + i, j), J2(3 * a + i, j), "Jacobian with and without value agree"); for (int j = 0; j < 3; j++) vp_assert_eq(J(3 * a + i, j), i == j, "Jacobian w.r.t. the translation"); } for (int k = 0; k < 3; k++) { double d[4], g[3]; tangent(q, k, d); rotd(q, k, p[a], g); for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 4; j++) s += J(3 * a + i, 3 + j) * d[j]; vp_assert_eq(s, g[i], "Jacobian w.r.t. the rotation"); } } } }
VP_CASE(transformation_error) { double q[4]; vp_unit(q, 4, "q"); Vector<double, 7> in; for (int i = 0; i < 3; i++) in(i) = vp_real("t"); for (int i = 0; i < 4; i++) in(3 + i) = q[i]; vector<V3> p; p.push_back(inV3("p")); p.push_back(inV3("r")); Matrix<double, 6, 6> J; Algorithm::PoseEstimation3D3D::Function::MultiplePointTransformationError<vector<V3>::const_iterator> f(p.begin(), p.end()); vp_assert_eq_u64(f.size(), 6, "size"); f.jacobian(in, J); for (int a = 0; a < 2; a++) for (int k = 0; k < 3; k++) { double g[3]; rotd(q, k, p[a], g); for (int i = 0; i < 3; i++) { vp_assert_eq(J(3 * a + i, k), i == k, "Jacobian w.r.t. the translation error"); vp_assert_eq(J(3 * a + i, 3 + k), 2 * g[i], "Jacobian w.r.t. the error quaternion"); } } }
// bundle adjustment: 2 cameras (q, t), 2 points; one camera symbolic at a time
static void bundle(int cam) { double q[2][4] = {{0.6, 0, 0, 0.8}, {0, 0.6, -0.8, 0}}; vp_unit(q[cam], 4, "q"); Vector<double> in(20); double t[2][3] = {{1, 2, 3}, {0.5, -1, 4}}; for (int i = 0; i < 3; i++) t[cam][i] = vp_real("t"); V3 p[2] = {V3(0.25, -1, 2), V3(1, 0.5, 0.75)}; p[1 - cam] = inV3("p"); for (int c = 0; c < 2; c++) { for (int i = 0; i < 4; i++) in(7 * c + i) = q[c][i]; for (int i = 0; i < 3; i++) in(7 * c + 4 + i) = t[c][i]; } for (int a = 0; a < 2; a++) for (int i = 0; i < 3; i++) in(14 + 3 * a + i) = p[a](i); double X[2][2][3]; for (int c = 0; c < 2; c++) for (int a = 0; a < 2; a++) { rotv(q[c], p[a], X[c][a]); for (int i = 0; i < 3; i++) X[c][a][i] += t[c][i]; vp_assume(X[c][a][2] != 0); }
  Vector<double> r(8); Matrix<double> J(8, 20); Algorithm::MinimizeReprojectionErrorAllPoints<double> f(2, 2); f.evaluateWithJacobian(r, in, J);
  for (int c = 0; c < 2; c++) for (int a = 0; a < 2; a++) { int row = 4 * c + 2 * a; const double* Y = X[c][a]; for (int i = 0; i < 2; i++) vp_assert_eq(r(row + i), Y[i] / Y[2], "projected point"); double R[3][3]; refRot(q[c][0], q[c][1], q[c][2], q[c][3], R);
    for (int k = 0; k < 3; k++) { double g[3], d[4]; rotd(q[c], k, p[a], g); tangent(q[c], k, d); for (int i = 0; i < 2; i++) { double s = 0; for (int j = 0; j < 4; j++) s += J(row + i, 7 * c + j) * d[j]; vp_assert_eq(s, g[i] / Y[2] - Y[i] * g[2] / (Y[2] * Y[2]), "Jacobian w.r.t. the camera rotation"); vp_assert_eq(J(row + i, 7 * c + 4 + k), (i == k) / Y[2] - Y[i] * (k == 2) / (Y[2] * Y[2]), "Jacobian w.r.t. the camera translation"); vp_assert_eq(J(row + i, 14 + 3 * a + k), R[i][k] / Y[2] - Y[i] * R[2][k] / (Y[2] * Y[2]), "Jacobian w.r.t. the point"); vp_assert_eq(J(row + i, 14 + 3 * (1 - a) + k), 0, "other points do not matter"); } }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 7; j++) vp_assert_eq(J(row + i, 7 * (1 - c) + j), 0, "other cameras do not matter"); } }
VP_CASE(bundle_first) { bundle(0); }
VP_CASE(bundle_second) { bundle(1); }

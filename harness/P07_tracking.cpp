//@ property P07
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp utTracking/PoseKalmanFilter.cpp utTracking/RotationOnlyKf.cpp utUtil/Exception.cpp utMeasurement/Timestamp.cpp
//@ models lapack
//@ libs log4cpp
//@ bounds motion models with 0 to 2 position and 0 to 1 orientation derivatives; arbitrary states, time steps and covariances over exact reals; filters: one or two events from a fresh filter
//@ assume exact real arithmetic: rounding is not modelled
//@ assume BLAS/LAPACK calls replaced by models/lapack.cpp
#include "hmath.h"
#include <cmath>
#include <utMath/ErrorPose.h>
#include <utMath/RotationVelocity.h>
#include <utMath/Optimization/Function/RotationVelocityIntegration.h>
#include <utTracking/Function/LinearTimeUpdate.h>
#include <utTracking/Function/PoseTimeUpdate.h>
#include <utTracking/Function/InsideOutPoseTimeUpdate.h>
#include <utTracking/Function/InvertRotationVelocity.h>
#include <utTracking/PoseKalmanFilter.h>
#include <utTracking/RotationOnlyKF.h>
#include <utUtil/Exception.h>
using namespace Math; using namespace Ubitrack::Tracking;
typedef Vector<double> VD; typedef Matrix<double> MD;
// constant-derivative motion: x_i(t+dt) = sum_k x_{i+k} dt^k / k!
VP_CASE(linear) { int order = vp_choice("order", 4); int n = 1 + vp_choice("n", 3); double dt = vp_real("dt"); VD x(n * (order + 1)), r(n); for (int i = 0; i < n * (order + 1); i++) x(i) = vp_real("x"); MD J(n, n * (order + 1)); Tracking::Function::LinearTimeUpdate f(dt, n, order); vp_assert_eq_u64(f.size(), n, "size"); f.evaluateWithJacobian(r, x, J);
  for (int i = 0; i < n; i++) { double s = 0, t = 1; for (int k = 0; k <= order; k++) { if (k) t = t * dt / k; s += t * x(k * n + i); for (int j = 0; j < n; j++) vp_assert_eq(J(i, k * n + j), i == j ? t : 0, "Taylor coefficient"); } vp_assert_eq(r(i), s, "Taylor expansion"); } }
static void refMul(const double a[4], const double b[4], double r[4]) { r[0] = a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1]; r[1] = a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2]; r[2] = a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0]; r[3] = a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]; }
// pose time update: position part linear; orientation q exp(w dt).  w = |w| u with u a unit vector; in place as the filter calls it
static void poseUpdate(int po, int oo, bool inplace) { double dt = vp_real("dt"), q[4], u[3]; vp_unit(q, 4, "q"); vp_unit(u, 3, "u"); double w = vp_real("w"); vp_in(w, 0.01, 9); vp_in(dt, 0.001, 0.3); int rs = 3 + 3 * po, n = rs + 4 + 3 * oo; VD x(n), r(n); for (int i = 0; i < rs; i++) x(i) = vp_real("x"); for (int i = 0; i < 4; i++) x(rs + i) = q[i]; if (oo) for (int i = 0; i < 3; i++) x(rs + 4 + i) = w * u[i]; VD o(x); MD J(n, n); Tracking::Function::PoseTimeUpdate f(dt, po, oo); vp_assert_eq_u64(f.size(), n, "size"); f.evaluateWithJacobian(inplace ? x : r, x, J); const VD& y = inplace ? x : r;
  for (int d = 0; d <= po; d++) for (int i = 0; i < 3; i++) { double s = 0, t = 1; for (int k = 0; d + k <= po; k++) { if (k) t = t * dt / k; s += t * o(3 * (d + k) + i); } vp_assert_eq(y(3 * d + i), s, "position and derivatives"); }
  double e[4] = {0, 0, 0, 1}, z[4]; if (oo) { double s = sin(w * dt / 2), c = cos(w * dt / 2); for (int i = 0; i < 3; i++) e[i] = u[i] * s; e[3] = c; } refMul(q, e, z); for (int i = 0; i < 4; i++) vp_assert_eq(y(rs + i), z[i], "orientation turns by the angular velocity"); if (oo) for (int i = 0; i < 3; i++) vp_assert_eq(y(rs + 4 + i), o(rs + 4 + i), "angular velocity constant");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double v = i == j; if (i < rs && j < rs) { v = 0; if (i % 3 == j % 3 && j >= i) { v = 1; for (int k = 1; k <= (j - i) / 3; k++) v = v * dt / k; } } else if (i >= rs && i < rs + 4 && j >= rs + 4) { double h = dt / 2; double L[4][3] = {{q[3], -q[2], q[1]}, {q[2], q[3], -q[0]}, {-q[1], q[0], q[3]}, {-q[0], -q[1], -q[2]}}; v = L[i - rs][j - rs - 4] * h; } vp_assert_eq(J(i, j), v, "Jacobian of the motion (orientation part at zero angular velocity)"); } }
VP_CASE(pose_update_00) { poseUpdate(0, 0, false); }
VP_CASE(pose_update_10) { poseUpdate(1, 0, true); }
VP_CASE(pose_update_01) { poseUpdate(0, 1, false); }
VP_CASE(pose_update_11) { poseUpdate(1, 1, true); }
VP_CASE(pose_update_21) { poseUpdate(2, 1, false); }
VP_CASE(rotvel) { double u[3]; vp_unit(u, 3, "u"); double w = vp_real("w"), dt = vp_real("dt"); vp_in(w, 0.01, 9); vp_in(dt, 0.001, 0.3); RotationVelocity v(w * u[0], w * u[1], w * u[2]); vp_assert_eq(v.angularVelocity(), w, "angular velocity"); V3 a = v.axis(); for (int i = 0; i < 3; i++) vp_assert_eq(a(i), u[i], "axis"); Quaternion q = v.integrate(dt); double s = sin(w * dt / 2); vp_assert_eq(q.x(), u[0] * s, "integration"); vp_assert_eq(q.y(), u[1] * s, "integration"); vp_assert_eq(q.z(), u[2] * s, "integration"); vp_assert_eq(q.w(), cos(w * dt / 2), "integration"); RotationVelocity z(0, 0, 0); Quaternion i = z.integrate(dt); vp_assert_eq(i.w(), 1, "no motion"); V3 b = z.axis(); vp_assert_eq(b(0), 0, "no axis");
  VD in(3), r(4); for (int k = 0; k < 3; k++) in(k) = v(k); Optimization::Function::RotationVelocityIntegration f(dt); f.evaluate(r, in); for (int k = 0; k < 3; k++) vp_assert_eq(r(k), u[k] * s, "integration function"); vp_assert_eq(r(3), cos(w * dt / 2), "integration function"); MD J(4, 3); f.evaluateWithJacobian(r, in, J); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(J(i, j), i == j ? dt / 2 : 0, "integration Jacobian at rest"); for (int j = 0; j < 3; j++) vp_assert_eq(J(3, j), -dt * dt / 4 * in(j), "integration Jacobian at rest"); }
VP_CASE(rotvel_between) { Quaternion a = inUnitQ("a"); double u[3]; vp_unit(u, 3, "u"); double w = vp_real("w"), dt = vp_real("dt"); vp_in(w, 0.01, 9); vp_in(dt, 0.001, 0.3); double s = sin(w * dt / 2), c = cos(w * dt / 2); Quaternion d(u[0] * s, u[1] * s, u[2] * s, c); Quaternion b(a * d); RotationVelocity v(a, b, dt); for (int i = 0; i < 3; i++) vp_assert_eq(v(i) * dt, w * u[i] * dt, "velocity between two rotations"); }
VP_CASE(invert_velocity) { double x[7]; for (int i = 0; i < 7; i++) x[i] = vp_real("x"); auto f = [](const double* x, double* y) { Vector<double, 7> in; for (int i = 0; i < 7; i++) in(i) = x[i]; Vector<double, 3> r; MD J(3, 7); Tracking::Function::InvertRotationVelocity().evaluateWithJacobian(r, in, J); for (int i = 0; i < 3; i++) y[i] = r(i); };
  Vector<double, 7> in; for (int i = 0; i < 7; i++) in(i) = x[i]; Vector<double, 3> r; MD M(3, 7); Tracking::Function::InvertRotationVelocity().evaluateWithJacobian(r, in, M); (void)f; double q[4]; vp_unit(q, 4, "q"); Vector<double, 7> z(in); for (int i = 0; i < 4; i++) z(i) = q[i]; MD N(3, 7); Tracking::Function::InvertRotationVelocity().evaluateWithJacobian(r, z, N); double R[3][3]; refRot(q[0], q[1], q[2], q[3], R); for (int i = 0; i < 3; i++) { vp_assert_eq(r(i), -(R[i][0] * x[4] + R[i][1] * x[5] + R[i][2] * x[6]), "inverted velocity"); for (int j = 0; j < 3; j++) vp_assert_eq(N(i, 4 + j), -R[i][j], "Jacobian by the velocity"); } }
// inside-out: the world turns around the camera
VP_CASE(inside_out) { int po = vp_choice("po", 2); double dt = vp_real("dt"), q[4], u[3]; vp_unit(q, 4, "q"); vp_unit(u, 3, "u"); double w = vp_real("w"); vp_in(w, 0.01, 9); vp_in(dt, 0.001, 0.3); int rs = 3 + 3 * po, n = rs + 7; VD x(n), r(n); for (int i = 0; i < rs; i++) x(i) = vp_real("x"); for (int i = 0; i < 4; i++) x(rs + i) = q[i]; for (int i = 0; i < 3; i++) x(rs + 4 + i) = w * u[i]; MD J(n, n); Tracking::Function::InsideOutPoseTimeUpdate f(dt, po); vp_assert_eq_u64(f.size(), n, "size"); f.evaluateWithJacobian(r, x, J);
  double s = sin(w * dt / 2), c = cos(w * dt / 2), e[4] = {u[0] * s, u[1] * s, u[2] * s, c}, z[4]; refMul(q, e, z); for (int i = 0; i < 4; i++) vp_assert_eq(r(rs + i), z[i], "inside-out orientation"); for (int i = 0; i < 3; i++) vp_assert_eq(r(rs + 4 + i), x(rs + 4 + i), "inside-out angular velocity");
  double R[3][3], T[3][3], v[3]; refRot(q[0], q[1], q[2], q[3], R); for (int i = 0; i < 3; i++) v[i] = R[i][0] * u[0] + R[i][1] * u[1] + R[i][2] * u[2]; refRot(v[0] * s, v[1] * s, v[2] * s, c, T); for (int i = 0; i < 3; i++) { vp_assert_eq(r(i), T[i][0] * x(0) + T[i][1] * x(1) + T[i][2] * x(2) + (po ? dt * x(3 + i) : 0), "inside-out position"); if (po) vp_assert_eq(r(3 + i), T[i][0] * x(3) + T[i][1] * x(4) + T[i][2] * x(5), "inside-out velocity"); for (int j = 0; j < 3; j++) { vp_assert_eq(J(i, j), T[i][j], "inside-out Jacobian"); if (po) { vp_assert_eq(J(i, 3 + j), i == j ? dt : 0, "inside-out Jacobian"); vp_assert_eq(J(3 + i, 3 + j), T[i][j], "inside-out Jacobian"); vp_assert_eq(J(3 + i, j), 0, "inside-out Jacobian"); } } } }
VP_CASE(noise) { int po = vp_choice("po", 3), oo = vp_choice("oo", 3) - 1; LinearPoseMotionModel m(po, oo); int n = 3 + 3 * po + (oo >= 0 ? 4 + 3 * oo : 0); vp_assert_eq_u64(m.stateSize(), n, "state size"); vp_assert_eq_u64(m.posOrder(), po, "order"); double dt = vp_real("dt"); MD c(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c(i, j) = vp_real("c"); MD d(c); m.addNoise(d, dt); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vp_assert_eq(d(i, j), c(i, j), "no noise set, none added");
  double pn[3], on[3]; for (int k = 0; k <= po; k++) { pn[k] = vp_real("pn"); m.setPosPN(k, pn[k]); } for (int k = 0; k <= oo; k++) { on[k] = vp_real("on"); m.setOriPN(k, on[k]); } m.addNoise(d, dt); double a = dt < 0 ? -dt : dt; for (int i = 0; i < n; i++) { int rs = 3 + 3 * po; double s = i < rs ? pn[i / 3] : i < rs + 4 ? on[0] : on[1 + (i - rs - 4) / 3]; for (int j = 0; j < n; j++) vp_assert_eq(d(i, j), c(i, j) + (i == j ? a * s * s : 0), "noise grows with the time step"); } }
// filters
static Measurement::ErrorPose em(uint64_t t, const V3& p, const Quaternion& q, double c) { Matrix<double, 6, 6> C(Matrix<double, 6, 6>::identity() * c); return Measurement::ErrorPose(t, ErrorPose(q, p, C)); }
static const double QS[3][4] = {{0, 0, 0, 1}, {0.6, 0, 0, 0.8}, {0, 0.6, -0.8, 0}};
static Quaternion pickQ() { int k = vp_choice("q", 3); double s = vp_choice("sign", 2) ? -1 : 1; return Quaternion(s * QS[k][0], s * QS[k][1], s * QS[k][2], s * QS[k][3]); }
VP_CASE(filter_first) { int po = vp_choice("po", 2), oo = vp_choice("oo", 2); LinearPoseMotionModel m(po, oo); PoseKalmanFilter f(m); uint64_t t = vp_u64("t"); vp_assume(t != 0); V3 p = inV3("p"); Quaternion q = pickQ(); f.addPoseMeasurement(em(t, p, q, 0.01)); int iR = 3 + 3 * po; for (int i = 0; i < 3; i++) vp_assert_eq(f.getState()(i), p(i), "first pose measurement is taken over"); double A[3][3], B[3][3]; refRot(q, A); refRot(Quaternion(f.getState()(iR), f.getState()(iR + 1), f.getState()(iR + 2), f.getState()(iR + 3)), B); eqR(A, B, "first orientation is taken over");
  Measurement::ErrorPose r = f.predictPose(t); vp_assert_eq_u64(r.time(), t, "time stamp of the prediction"); for (int i = 0; i < 3; i++) vp_assert_eq(r->translation()(i), p(i), "prediction at the measurement time"); refRot(r->rotation(), B); eqR(A, B, "prediction at the measurement time"); }
VP_CASE(filter_unset) { LinearPoseMotionModel m(0, 0); PoseKalmanFilter f(m); uint64_t t = vp_u64("t"); bool thrown = false; try { f.predictPose(t); } catch (const Ubitrack::Util::Exception&) { thrown = true; } vp_assert(thrown, "prediction before any measurement is refused"); }
VP_CASE(filter_rotation_sign) { LinearPoseMotionModel m(0, 0); PoseKalmanFilter f(m), g(m); Quaternion a = inUnitQ("a"); int k = vp_choice("k", 3); Quaternion b(QS[k][0], QS[k][1], QS[k][2], QS[k][3]), nb(-b.x(), -b.y(), -b.z(), -b.w()); f.addRotationMeasurement(Measurement::Rotation(1000, a)); for (int i = 0; i < 4; i++) { double v[4] = {a.x(), a.y(), a.z(), a.w()}; vp_assert_eq(f.getState()(3 + i), v[i], "first rotation measurement is taken over"); } }
VP_CASE(filter_time) { LinearPoseMotionModel m(1, 0); m.setPosPN(0, 2); PoseKalmanFilter f(m); V3 p = inV3("p"); f.addPoseMeasurement(em(1000000000ull, p, Quaternion(), 0.01)); PoseKalmanFilter::StateType s0 = f.getState(); PoseKalmanFilter::CovarianceType c0 = f.getCovariance(); uint64_t t = vp_u64("t"); vp_assume(t <= 4000000000ull); Measurement::ErrorPose r = f.predictPose(t); for (int i = 0; i < 10; i++) { vp_assert_eq(f.getState()(i), s0(i), "predicting leaves the filter alone"); for (int j = 0; j < 10; j++) vp_assert_eq(f.getCovariance()(i, j), c0(i, j), "predicting leaves the filter alone"); }
  double dt = ((double)(int64_t)(t - 1000000000ull)) * 1e-9; for (int i = 0; i < 3; i++) { vp_assert_eq(r->translation()(i), s0(i) + dt * s0(3 + i), "prediction follows the velocity"); double v = c0(i, i) + dt * (c0(i, 3 + i) + c0(3 + i, i)) + dt * dt * c0(3 + i, 3 + i) + 4 * (dt < 0 ? -dt : dt); vp_assert_eq(r->covariance()(i, i), v, "predicted variance"); }
  if (t != 0) { f.timeUpdate(t); for (int i = 0; i < 3; i++) { vp_assert_eq(f.getState()(i), s0(i) + dt * s0(3 + i), "time update moves the state"); vp_assert_eq(f.getCovariance()(i, i), r->covariance()(i, i), "time update and prediction agree"); } f.timeUpdate(t); for (int i = 0; i < 3; i++) vp_assert_eq(f.getCovariance()(i, i), r->covariance()(i, i), "updating to the same time changes nothing"); } }
VP_CASE(rot_filter) { RotationOnlyKF f; Quaternion a = inUnitQ("a"); uint64_t t = vp_u64("t"), t2 = vp_u64("t2"); vp_assume(t != 0); f.addRotationMeasurement(Measurement::Rotation(t, a)); Measurement::Rotation r = f.predict(t2); vp_assert_eq_u64(r.time(), t2, "time stamp of the prediction"); double A[3][3], B[3][3]; refRot(a, A); refRot(*r, B); eqR(A, B, "without velocity the rotation is kept"); }
VP_CASE(rot_filter_velocity) { RotationOnlyKF f; static const uint64_t T2[4] = {500000000ull, 1000000000ull, 1250000000ull, 3000000000ull}; uint64_t t2 = T2[vp_choice("t2", 4)]; f.addRotationMeasurement(Measurement::Rotation(1000000000ull, Quaternion())); double w = vp_real("w"); vp_in(w, 0.1, 1); f.addVelocityMeasurement(Measurement::RotationVelocity(1000000000ull, RotationVelocity(w, 0, 0))); Measurement::Rotation r = f.predict(t2); double dt = ((double)(int64_t)(t2 - 1000000000ull)) * 1e-9, one = (double)(vp_symbolic() | 1), g = one / (one + 0.00001); double e = w * g * dt; vp_assert_eq(r->x() * r->x() + r->y() * r->y() + r->z() * r->z() + r->w() * r->w(), 1, "unit prediction"); double A[3][3]; refRot(*r, A); vp_assert_eq(A[1][1], cos(e), "prediction turns with the velocity"); vp_assert_eq(A[2][1], sin(e), "prediction turns with the velocity"); }
// q and -q are the same rotation: a later measurement of either must have the same effect, and must not swing the filter through zero
VP_CASE(filter_second_rotation) { int k = vp_choice("k", 3); Quaternion a(QS[k][0], QS[k][1], QS[k][2], QS[k][3]); double c[2]; vp_unit(c, 2, "c"); double x = c[0], y = c[1]; Quaternion b(a.x() * y + a.y() * x, a.y() * y - a.x() * x, a.z() * y - a.w() * x, a.w() * y + a.z() * x); Quaternion nb(-b.x(), -b.y(), -b.z(), -b.w()); LinearPoseMotionModel m(0, 0); PoseKalmanFilter f(m), g(m); f.addRotationMeasurement(Measurement::Rotation(1000, a)); g.addRotationMeasurement(Measurement::Rotation(1000, a)); f.addRotationMeasurement(Measurement::Rotation(1000, b)); g.addRotationMeasurement(Measurement::Rotation(1000, nb)); vp_assume(y != 0); double d = 0, n = 0, s[4] = {a.x(), a.y(), a.z(), a.w()}; for (int i = 0; i < 4; i++) { vp_assert_eq(f.getState()(3 + i), g.getState()(3 + i), "sign of the quaternion does not matter"); d += f.getState()(3 + i) * s[i]; n += f.getState()(3 + i) * f.getState()(3 + i); } vp_assert(d > 0, "filter stays on the side of its state"); vp_assert_eq(n, 1, "state quaternion is unit"); }
VP_CASE(rot_filter_second) { int k = vp_choice("k", 3); Quaternion a(QS[k][0], QS[k][1], QS[k][2], QS[k][3]); double c[2]; vp_unit(c, 2, "c"); double x = c[0], y = c[1]; vp_assume(y != 0); Quaternion b(a.x() * y + a.y() * x, a.y() * y - a.x() * x, a.z() * y - a.w() * x, a.w() * y + a.z() * x); Quaternion nb(-b.x(), -b.y(), -b.z(), -b.w()); RotationOnlyKF f, g; f.addRotationMeasurement(Measurement::Rotation(1000, a)); g.addRotationMeasurement(Measurement::Rotation(1000, a)); f.addRotationMeasurement(Measurement::Rotation(1000, b)); g.addRotationMeasurement(Measurement::Rotation(1000, nb)); Measurement::Rotation p = f.predict(1000), q = g.predict(1000); double A[3][3], B[3][3]; refRot(*p, A); refRot(*q, B); eqR(A, B, "sign of the quaternion does not matter"); double d = p->x() * a.x() + p->y() * a.y() + p->z() * a.z() + p->w() * a.w(); vp_assert(d != 0, "filter does not swing through zero"); }
// a second pose at the same time: position is the precision-weighted mean (first update from unit covariance), orientation agrees and stays
VP_CASE(filter_second_pose) { int po = vp_choice("po", 2); double sg = vp_choice("sign", 2) ? -1 : 1; LinearPoseMotionModel m(po, 0); PoseKalmanFilter f(m); V3 p = inV3("p"), q = inV3("z"); double one = (double)(vp_symbolic() | 1), r1 = 0.01 * one, r2 = 0.04 * one, P1 = r1 / (1 + r1), g = P1 / (P1 + r2); f.addPoseMeasurement(em(1000, p, Quaternion(0.6, 0, 0, 0.8), 0.01)); f.addPoseMeasurement(em(1000, q, Quaternion(sg * 0.6, 0, 0, sg * 0.8), 0.04)); int iR = 3 + 3 * po; double Q[4] = {0.6, 0, 0, 0.8}, n = 0; vp_tol(1e-9);
  for (int i = 0; i < 3; i++) { vp_assert_eq(f.getState()(i), p(i) + g * (q(i) - p(i)), "position is the weighted mean"); vp_assert_eq(f.getCovariance()(i, i), (1 - g) * P1, "variance shrinks"); for (int j = 0; j < i; j++) vp_assert_eq(f.getCovariance()(i, j), 0, "axes stay independent"); } for (int i = 0; i < 4; i++) { double e = f.getState()(iR + i) - Q[i]; vp_assert_le(e, 1e-12, "orientation agrees"); vp_assert_le(-1e-12, e, "orientation agrees"); n += f.getState()(iR + i) * f.getState()(iR + i); } vp_assert_eq(n, 1, "state quaternion is unit"); }
VP_CASE(filter_velocity) { LinearPoseMotionModel m(0, 1); PoseKalmanFilter f(m); int inv = vp_choice("inverse", 2); Measurement::RotationVelocity w0(1000, RotationVelocity(1, 0, 0)); if (inv) f.addInverseRotationVelocityMeasurement(w0); else f.addRotationVelocityMeasurement(w0); for (int i = 0; i < 3; i++) vp_assert_eq(f.getState()(7 + i), 0, "velocities before the first pose are ignored"); f.addPoseMeasurement(em(1000, V3(0, 0, 0), Quaternion(), 0.01)); double u[3]; vp_unit(u, 3, "u"); double w = vp_real("w"); vp_in(w, 0, 20); vp_assume(w < 9.99 || w > 10.01); Measurement::RotationVelocity v(1000, RotationVelocity(w * u[0], w * u[1], w * u[2])); if (inv) f.addInverseRotationVelocityMeasurement(v); else f.addRotationVelocityMeasurement(v);
  for (int i = 0; i < 3; i++) { double e = f.getState()(7 + i) - (w > 10 ? 0 : inv ? -w * u[i] : w * u[i]); vp_assert_le(e, 1e-8, "velocity measurement is taken over, runaway velocities are reset"); vp_assert_le(-1e-8, e, "velocity measurement is taken over, runaway velocities are reset"); } }

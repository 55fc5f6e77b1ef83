//@ property P08
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp
//@ bounds every function object of utMath/Optimization/Function and utAlgorithm/Function with arbitrary real parameters; 1 or 2 points, 1 or 2 cameras; quaternion Jacobians along the tangent of the unit sphere
//@ assume exact real arithmetic: rounding is not modelled
//@ assume projections: the point is not on the camera's principal plane (division by zero excluded)
//@ case lie_rotation time=120
#include "hmath.h"
#include <cmath>
#include <vector>
#include <utMath/Blas2.h>
#include <utMath/Optimization/Function/LinearFunction.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utMath/Optimization/Function/QuaternionVectorRotation.h>
#include <utMath/Optimization/Function/DiscreteJacobianApproximation.h>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/Function/Dehomogenization.h>
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/QuaternionRotationError.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utAlgorithm/Function/ProjectivePoseNormalize.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/MultiplePointProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
using namespace Math; using std::vector; using std::size_t;
namespace MF = Math::Optimization::Function; namespace AF = Algorithm::Function;
// generic check of a function object with free real inputs: value by evaluate and by evaluateWithJacobian agree, Jacobians agree, and are the derivative
template <int NY, int NX, class F> static void checkFn(const F& f, const double* x, const char* l) {
  Vector<double, NX> in; for (int i = 0; i < NX; i++) in(i) = x[i]; Vector<double, NY> r, r2; Matrix<double, NY, NX> J, J2; vp_assert_eq_u64(f.size(), NY, "size"); f.evaluate(r, in); f.evaluateWithJacobian(r2, in, J); f.jacobian(in, J2); double jj[NY * NX];
  for (int i = 0; i < NY; i++) { vp_assert_eq(r(i), r2(i), "value with and without Jacobian agree"); for (int j = 0; j < NX; j++) { vp_assert_eq(J(i, j), J2(i, j), "Jacobian with and without value agree"); jj[i * NX + j] = J(i, j); } }
  auto g = [&](const double* z, double* y) { Vector<double, NX> a; Vector<double, NY> b; for (int i = 0; i < NX; i++) a(i) = z[i]; f.evaluate(b, a); for (int i = 0; i < NY; i++) y[i] = b(i); }; vp_check_jacobian(g, x, NX, NY, jj, l); }
static void refProdT(const double a[4], const double b[4], double r[4]) { r[0] = a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1]; r[1] = a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2]; r[2] = a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0]; r[3] = a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]; }
// tangent directions of the unit sphere at q: q (e_k / 2): rotating by an infinitesimal angle about the local axis k
static void tangent(const double q[4], int k, double d[4]) { double e[4] = {0, 0, 0, 0}; e[k] = 0.5; refProdT(q, e, d); }
static void rotd(const double q[4], int k, const V3& v, double d[3]) { double R[3][3]; refRot(q[0], q[1], q[2], q[3], R); double c[3]; int a = (k + 1) % 3, b = (k + 2) % 3; c[k] = 0; c[a] = -v(b); c[b] = v(a); for (int i = 0; i < 3; i++) { d[i] = 0; for (int j = 0; j < 3; j++) d[i] += R[i][j] * c[j]; } }
static void rotv(const double q[4], const V3& v, double d[3]) { double R[3][3]; refRot(q[0], q[1], q[2], q[3], R); for (int i = 0; i < 3; i++) { d[i] = 0; for (int j = 0; j < 3; j++) d[i] += R[i][j] * v(j); } }
VP_CASE(linear) { Matrix<double, 3, 2> A(inMat<3, 2>("A")); double x[2]; for (int i = 0; i < 2; i++) x[i] = vp_real("x"); MF::LinearFunction<3, 2, double> f(A); checkFn<3, 2>(f, x, "linear function"); }
VP_CASE(normalize2) { double x[2]; for (int i = 0; i < 2; i++) x[i] = vp_real("x"); vp_assume(x[0] * x[0] + x[1] * x[1] > 1e-6); checkFn<2, 2>(MF::VectorNormalize(2), x, "normalisation"); }
VP_CASE(normalize3) { double x[3]; for (int i = 0; i < 3; i++) x[i] = vp_real("x"); vp_assume(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] > 1e-6); checkFn<3, 3>(MF::VectorNormalize(3), x, "normalisation"); Vector<double, 3> in(x[0], x[1], x[2]), r; MF::VectorNormalize(3).evaluate(r, in); vp_assert_eq(r(0) * r(0) + r(1) * r(1) + r(2) * r(2), 1, "unit length"); vp_assert_eq(r(0) * x[1], r(1) * x[0], "same direction"); vp_assert(r(0) * x[0] + r(1) * x[1] + r(2) * x[2] > 0, "same direction"); }
VP_CASE(normalize4) { double x[4]; double s = 0; for (int i = 0; i < 4; i++) { x[i] = vp_real("x"); s += x[i] * x[i]; } vp_assume(s > 1e-6); checkFn<4, 4>(MF::VectorNormalize(4), x, "normalisation"); }
VP_CASE(discrete) { Matrix<double, 3, 2> A(inMat<3, 2>("A")); double x[2]; for (int i = 0; i < 2; i++) x[i] = vp_real("x"); MF::LinearFunction<3, 2, double> f(A); MF::DiscreteJacobianApproximation<MF::LinearFunction<3, 2, double> > d(f); checkFn<3, 2>(d, x, "finite differences are exact for linear functions"); }
VP_CASE(discrete_quadratic) { AF::Dehomogenization<2> f; MF::DiscreteJacobianApproximation<AF::Dehomogenization<2> > d(f, 1e-3); Vector<double, 2> x(vp_real("x"), vp_real("x")); vp_in(x(0), -2, 2); vp_in(x(1), 0.5, 4); Vector<double, 1> r; Matrix<double, 1, 2> J, K; d.evaluateWithJacobian(r, x, J); f.jacobian(x, K); for (int j = 0; j < 2; j++) { double e = J(0, j) - K(0, j); vp_assert_le(e * e, 1e-4, "finite differences approximate the derivative"); } }
VP_CASE(quaternion_vector) { double q[4]; vp_unit(q, 4, "q"); V3 v = inV3("v"); V4 qv; for (int i = 0; i < 4; i++) qv(i) = q[i]; V3 r, r2; Matrix<double, 3, 4> JQ, JQ2; M33 JV, JV2; MF::QuaternionVectorRotation f; f.evaluate(r, qv, v); f.evaluateWithJacobian(r2, qv, v, JQ, JV); f.jacobian(qv, v, JQ2, JV2); double R[3][3], y[3]; refRot(q[0], q[1], q[2], q[3], R); rotv(q, v, y); for (int i = 0; i < 3; i++) { vp_assert_eq(r(i), y[i], "rotated vector"); vp_assert_eq(r2(i), y[i], "rotated vector"); for (int j = 0; j < 3; j++) { vp_assert_eq(JV(i, j), R[i][j], "Jacobian w.r.t. the vector"); vp_assert_eq(JV2(i, j), R[i][j], "Jacobian w.r.t. the vector"); } for (int j = 0; j < 4; j++) vp_assert_eq(JQ(i, j), JQ2(i, j), "Jacobian with and without value agree"); }
  for (int k = 0; k < 3; k++) { double d[4], g[3]; tangent(q, k, d); rotd(q, k, v, g); for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 4; j++) s += JQ(i, j) * d[j]; vp_assert_eq(s, g[i], "Jacobian w.r.t. the quaternion"); } } }
VP_CASE(quaternion_rotation) { double q[4]; vp_unit(q, 4, "q"); V3 v = inV3("v"); V4 qv; for (int i = 0; i < 4; i++) qv(i) = q[i]; V3 r, r2; Matrix<double, 3, 4> J, J2; AF::QuaternionRotation<double> f(v); vp_assert_eq_u64(f.size(), 3, "size"); f.evaluate(r, qv); f.evaluateWithJacobian(r2, qv, J); f.jacobian(qv, J2); double y[3]; rotv(q, v, y); for (int i = 0; i < 3; i++) { vp_assert_eq(r(i), y[i], "rotated vector"); vp_assert_eq(r2(i), y[i], "rotated vector"); for (int j = 0; j < 4; j++) vp_assert_eq(J(i, j), J2(i, j), "Jacobian with and without value agree"); }
  for (int k = 0; k < 3; k++) { double d[4], g[3]; tangent(q, k, d); rotd(q, k, v, g); for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 4; j++) s += J(i, j) * d[j]; vp_assert_eq(s, g[i], "Jacobian w.r.t. the quaternion"); } } }
// error quaternion e_r = (e,1): rotation angle 2e
VP_CASE(quaternion_error) { double q[4]; vp_unit(q, 4, "q"); V3 v = inV3("v"); V4 qv; for (int i = 0; i < 4; i++) qv(i) = q[i]; M33 J; AF::QuaternionRotationError<double> f(v); f.jacobian(qv, J); for (int k = 0; k < 3; k++) { double g[3]; rotd(q, k, v, g); for (int i = 0; i < 3; i++) vp_assert_eq(J(i, k), 2 * g[i], "Jacobian w.r.t. the error quaternion"); } }
VP_CASE(intrinsics) { V2 p = inV2("p"); double x[5]; for (int i = 0; i < 5; i++) x[i] = vp_real("k"); AF::CameraIntrinsicsMultiplication<double> f(p); checkFn<2, 5>(f, x, "intrinsics multiplication"); Vector<double, 5> k; for (int i = 0; i < 5; i++) k(i) = x[i]; V2 r; f.evaluate(r, k); vp_assert_eq(r(0), -(x[0] * p(0) + x[1] * p(1) + x[2]), "pixel"); vp_assert_eq(r(1), -(x[3] * p(1) + x[4]), "pixel"); }
VP_CASE(dehom) { double x[4]; for (int i = 0; i < 4; i++) x[i] = vp_real("x"); vp_assume(x[1] != 0 && x[2] != 0 && x[3] != 0); checkFn<1, 2>(AF::Dehomogenization<2>(), x, "dehomogenisation"); checkFn<2, 3>(AF::Dehomogenization<3>(), x, "dehomogenisation"); checkFn<3, 4>(AF::Dehomogenization<4>(), x, "dehomogenisation"); }
VP_CASE(radial) { double p[2] = {vp_real("p"), vp_real("p")}, d[4]; for (int i = 0; i < 4; i++) d[i] = vp_real("d"); V2 pv(p[0], p[1]); V4 dv(d[0], d[1], d[2], d[3]); checkFn<2, 2>(AF::RadialDistortionWrtP<double>(dv), p, "distortion w.r.t. the point"); checkFn<2, 4>(AF::RadialDistortionWrtD<double>(pv), d, "distortion w.r.t. the coefficients"); V2 r; AF::radialDistortion(r, pv, dv); double r2 = p[0] * p[0] + p[1] * p[1], s = 1 + d[0] * r2 + d[1] * r2 * r2; vp_assert_eq(r(0), p[0] * s + 2 * d[2] * p[0] * p[1] + d[3] * (r2 + 2 * p[0] * p[0]), "Brown distortion model"); vp_assert_eq(r(1), p[1] * s + 2 * d[3] * p[0] * p[1] + d[2] * (r2 + 2 * p[1] * p[1]), "Brown distortion model"); }
VP_CASE(lie_rotation) { V3 v = inV3("v"); double x[3]; for (int i = 0; i < 3; i++) x[i] = vp_real("w"); double n = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]; vp_assume(n > 1e-6); vp_assume(n < 9); checkFn<3, 3>(AF::LieRotation<double>(v), x, "rotation by exponential map"); }
VP_CASE(lie_rotation_zero) { V3 v = inV3("v"), w(0, 0, 0), r; M33 J; AF::LieRotation<double> f(v); f.evaluateWithJacobian(r, w, J); double C[3][3] = {{0, v(2), -v(1)}, {-v(2), 0, v(0)}, {v(1), -v(0), 0}}; eqRM(J, C, "derivative at the identity"); eqV(r, v, 3, "identity"); }
VP_CASE(rothec) { Quaternion a = inQ("a"), b = inQ("b"); double x[4]; for (int i = 0; i < 4; i++) x[i] = vp_real("x"); V4 in(x[0], x[1], x[2], x[3]), r; M44 J; AF::RotHecMeasurement f(a, b); f.evaluateWithJacobian(r, in, J); double A[4] = {a.x(), a.y(), a.z(), a.w()}, B[4] = {b.x(), b.y(), b.z(), b.w()}, s[4], t[4]; refProdT(A, x, s); refProdT(x, B, t); for (int i = 0; i < 4; i++) vp_assert_eq(r(i), s[i] - t[i], "a x - x b"); double jj[16]; for (int i = 0; i < 16; i++) jj[i] = J(i / 4, i % 4); vp_check_jacobian([&](const double* z, double* y) { double s[4], t[4]; refProdT(A, z, s); refProdT(z, B, t); for (int i = 0; i < 4; i++) y[i] = s[i] - t[i]; }, x, 4, 4, jj, "hand-eye Jacobian");
  double p[8]; for (int i = 0; i < 8; i++) p[i] = vp_real("p"); Quaternion X(x[0], x[1], x[2], x[3]); M44 J1, J2; V4 u; AF::RotHecCombine(X).jacobian(u, u, J1, J2); double k1[32]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { k1[i * 8 + j] = J1(i, j); k1[i * 8 + 4 + j] = J2(i, j); } vp_check_jacobian([&](const double* z, double* y) { double s[4], t[4]; refProdT(z, x, s); refProdT(x, z + 4, t); for (int i = 0; i < 4; i++) y[i] = s[i] - t[i]; }, p, 8, 4, k1, "hand-eye combination Jacobian"); }
VP_CASE(pose_normalize) { Vector<double, 7> in, r; double n = 0; for (int i = 0; i < 7; i++) { in(i) = vp_real("x"); if (i > 2) n += in(i) * in(i); } vp_assume(n > 1e-6); AF::ProjectivePoseNormalize().evaluate(r, in); double m = 0; for (int i = 3; i < 7; i++) m += r(i) * r(i); vp_assert_eq(m, 1, "unit quaternion"); for (int i = 0; i < 3; i++) vp_assert_eq(r(i) * n, in(i), "translation divided by the squared length"); vp_assert_eq(r(3) * in(4), r(4) * in(3), "same rotation"); vp_assert_eq(r(3) * in(5), r(5) * in(3), "same rotation"); vp_assert_eq(r(3) * in(6), r(6) * in(3), "same rotation"); }
// projections: pose 7-vector (t, q) with unit q.  X = R p + t ; y = dehom(K X)
static void dehomD(const double X[3], const double dX[3], double d[2]) { for (int i = 0; i < 2; i++) d[i] = dX[i] / X[2] - X[i] * dX[2] / (X[2] * X[2]); }
static void mulK(const M33& K, const double x[3], double y[3]) { for (int i = 0; i < 3; i++) { y[i] = 0; for (int j = 0; j < 3; j++) y[i] += K(i, j) * x[j]; } }
static Vector<double, 7> poseVec(double q[4]) { vp_unit(q, 4, "q"); Vector<double, 7> in; for (int i = 0; i < 3; i++) in(i) = vp_real("t"); for (int i = 0; i < 4; i++) in(3 + i) = q[i]; return in; }
static void notOnPlane(const double q[4], const V3& p, const Vector<double, 7>& in, const M33& K, double k3) { double X[3], Y[3]; rotv(q, p, X); for (int i = 0; i < 3; i++) X[i] += in(i); mulK(K, X, Y); vp_assume(Y[2] + k3 != 0); }
VP_CASE(point_projection) { double q[4]; Vector<double, 7> in = poseVec(q); vector<V3> p; p.push_back(inV3("p")); p.push_back(V3(0.25, -1, 2)); M33 K(inMat<3, 3>("K")); Vector<double, 4> r, r2; Matrix<double, 4, 7> J; for (int a = 0; a < 2; a++) notOnPlane(q, p[a], in, K, 0); AF::MultiplePointProjection<double> f(p, K); vp_assert_eq_u64(f.size(), 4, "size"); f.evaluate(r, in); f.evaluateWithJacobian(r2, in, J); Matrix<double, 4, 6> E; AF::MultiplePointProjectionError<double> fe(p, K); vp_assert_eq_u64(fe.size(), 4, "size"); fe.jacobian(in, E);
  for (int a = 0; a < 2; a++) { double X[3], Y[3]; rotv(q, p[a], X); for (int i = 0; i < 3; i++) X[i] += in(i); mulK(K, X, Y); for (int i = 0; i < 2; i++) { vp_assert_eq(r(2 * a + i), Y[i] / Y[2], "projected point"); vp_assert_eq(r2(2 * a + i), r(2 * a + i), "value with and without Jacobian agree"); }
    for (int k = 0; k < 3; k++) { double e[3] = {0, 0, 0}, ke[3], d[2], g[3], t[4]; e[k] = 1; mulK(K, e, ke); dehomD(Y, ke, d); for (int i = 0; i < 2; i++) { vp_assert_eq(J(2 * a + i, k), d[i], "Jacobian w.r.t. the translation"); vp_assert_eq(E(2 * a + i, k), d[i], "error Jacobian w.r.t. the translation"); } rotd(q, k, p[a], g); mulK(K, g, ke); dehomD(Y, ke, d); tangent(q, k, t); for (int i = 0; i < 2; i++) { double s = 0; for (int j = 0; j < 4; j++) s += J(2 * a + i, 3 + j) * t[j]; vp_assert_eq(s, d[i], "Jacobian w.r.t. the rotation"); vp_assert_eq(E(2 * a + i, 3 + k), 2 * d[i], "error Jacobian w.r.t. the rotation"); } } } }
VP_CASE(camera_projection_error) { double q[4]; Vector<double, 7> in = poseVec(q); vector<V3> p; p.push_back(V3(0.25, -1, 2)); p.push_back(inV3("p")); vector<M34> P; P.push_back(inMat<3, 4>("P")); vector<std::pair<size_t, size_t> > vis; int w = vp_choice("point", 2); vis.push_back(std::make_pair((size_t)w, (size_t)0)); Matrix<double, 2, 6> E; AF::MultipleCameraProjectionError<double> f(p, P, vis); vp_assert_eq_u64(f.size(), 2, "size"); double X[3], Y[3]; rotv(q, p[w], X); for (int i = 0; i < 3; i++) X[i] += in(i); M33 K; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K(i, j) = P[0](i, j); mulK(K, X, Y); for (int i = 0; i < 3; i++) Y[i] += P[0](i, 3); vp_assume(Y[2] != 0); f.jacobian(in, E);
  for (int k = 0; k < 3; k++) { double e[3] = {0, 0, 0}, ke[3], d[2], g[3]; e[k] = 1; mulK(K, e, ke); dehomD(Y, ke, d); for (int i = 0; i < 2; i++) vp_assert_eq(E(i, k), d[i], "error Jacobian w.r.t. the translation"); rotd(q, k, p[w], g); mulK(K, g, ke); dehomD(Y, ke, d); for (int i = 0; i < 2; i++) vp_assert_eq(E(i, 3 + k), 2 * d[i], "error Jacobian w.r.t. the rotation"); } }
static void cameraProjection(int c) { double q[4], u2[2]; vp_unit(u2, 2, "q"); int ax = vp_choice("axis", 3); static const double AX[3][3] = {{1, 0, 0}, {0, 0.6, 0.8}, {0.48, -0.64, 0.6}}; for (int i = 0; i < 3; i++) q[i] = AX[ax][i] * u2[0]; q[3] = u2[1]; Vector<double, 7> in; for (int i = 0; i < 3; i++) in(i) = vp_real("t"); for (int i = 0; i < 4; i++) in(3 + i) = q[i]; vector<V3> p; p.push_back(V3(0.25, -1, 2)); p.push_back(inV3("p")); vector<Pose> C; C.push_back(Pose(Quaternion(0, 0, 0, 1), V3(1, 2, 3))); C.push_back(Pose(Quaternion(0.6, 0, 0, 0.8), inV3("c"))); vector<M33> K; M33 k0(M33::identity()); K.push_back(k0); for (int i = 0; i < 2; i++) for (int j = i; j < 3; j++) k0(i, j) = vp_real("K"); k0(2, 2) = vp_choice("flip", 2) ? -1 : 1; K.push_back(k0); vector<V4> D(2); D[0] = V4(0, 0, 0, 0); D[1] = V4(vp_real("d"), 0, 0.125, vp_real("d")); vector<std::pair<size_t, size_t> > vis; int w = c ? 0 : 1; vis.push_back(std::make_pair((size_t)w, (size_t)c)); AF::MultipleCameraProjection<double> f(p, C, K, D, vis); vp_assert_eq_u64(f.size(), 2, "size"); Vector<double, 2> r, r2; Matrix<double, 2, 7> J;
  double X[3]; rotv(q, p[w], X); for (int i = 0; i < 3; i++) X[i] += in(i); double cq[4] = {C[c].rotation().x(), 0, 0, C[c].rotation().w()}, Z[3]; rotv(cq, V3(X[0], X[1], X[2]), Z); for (int i = 0; i < 3; i++) Z[i] += C[c].translation()(i); vp_assume(Z[2] != 0); f.evaluate(r, in); f.evaluateWithJacobian(r2, in, J); double h[2] = {Z[0] / Z[2], Z[1] / Z[2]}, r2_ = h[0] * h[0] + h[1] * h[1]; const V4& d = D[c]; double s = 1 + d(0) * r2_ + d(1) * r2_ * r2_; double g[2] = {h[0] * s + 2 * d(2) * h[0] * h[1] + d(3) * (r2_ + 2 * h[0] * h[0]), h[1] * s + 2 * d(3) * h[0] * h[1] + d(2) * (r2_ + 2 * h[1] * h[1])}; for (int i = 0; i < 2; i++) { double v = (K[c](i, 0) * g[0] + K[c](i, 1) * g[1] + K[c](i, 2)) * K[c](2, 2); vp_assert_eq(r(i), v, "projected point"); vp_assert_eq(r2(i), v, "projected point"); }
  for (int k = 0; k < 6; k++) { double dX[3] = {0, 0, 0}, dZ[3], dh[2]; if (k < 3) dX[k] = 1; else rotd(q, k - 3, p[w], dX); rotv(cq, V3(dX[0], dX[1], dX[2]), dZ); dehomD(Z, dZ, dh); double dr = 2 * (h[0] * dh[0] + h[1] * dh[1]), ds = d(0) * dr + 2 * d(1) * r2_ * dr, hh = dh[0] * h[1] + h[0] * dh[1]; double dg[2] = {dh[0] * s + h[0] * ds + 2 * d(2) * hh + d(3) * (dr + 4 * h[0] * dh[0]), dh[1] * s + h[1] * ds + 2 * d(3) * hh + d(2) * (dr + 4 * h[1] * dh[1])}; double t[4]; if (k >= 3) tangent(q, k - 3, t); for (int i = 0; i < 2; i++) { double v = (K[c](i, 0) * dg[0] + K[c](i, 1) * dg[1]) * K[c](2, 2), u = 0; if (k < 3) u = J(i, k); else for (int j = 0; j < 4; j++) u += J(i, 3 + j) * t[j]; vp_assert_eq(u, v, k < 3 ? "Jacobian w.r.t. the translation" : "Jacobian w.r.t. the rotation"); } } }
VP_CASE(camera_projection_0) { cameraProjection(0); }
VP_CASE(camera_projection_1) { cameraProjection(1); }
VP_CASE(camera_projection_error_art) { double a[3]; vp_unit(a, 3, "u"); double w = vp_real("w"); vp_in(w, 0.01, 3); V3 cg(0.5, -0.25, vp_real("cg")); Vector<double, 6> in; for (int i = 0; i < 3; i++) { in(i) = vp_real("t"); in(3 + i) = w * a[i]; } vector<V3> p; p.push_back(V3(0.25, -1, 2)); vector<M34> P; P.push_back(inMat<3, 4>("P")); vector<std::pair<unsigned, unsigned> > vis; vis.push_back(std::make_pair(0u, 0u)); Matrix<double, 2, 6> E; AF::MultipleCameraProjectionErrorART<double> f(p, P, vis, cg); double q[4] = {a[0] * sin(w / 2), a[1] * sin(w / 2), a[2] * sin(w / 2), cos(w / 2)}; V3 rel(p[0] - cg); double X[3], Y[3], ra[3], rc[3]; rotv(q, rel, ra); rotv(q, cg, rc); for (int i = 0; i < 3; i++) X[i] = ra[i] + rc[i] + in(i); M33 K; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K(i, j) = P[0](i, j); mulK(K, X, Y); for (int i = 0; i < 3; i++) Y[i] += P[0](i, 3); vp_assume(Y[2] != 0); f.jacobian(in, E);
  for (int k = 0; k < 3; k++) { double e[3] = {0, 0, 0}, ke[3], d[2], g[3]; e[k] = 1; mulK(K, e, ke); dehomD(Y, ke, d); for (int i = 0; i < 2; i++) vp_assert_eq(E(i, k), d[i], "error Jacobian w.r.t. the translation"); int b = (k + 1) % 3, c = (k + 2) % 3; g[k] = 0; g[b] = -ra[c]; g[c] = ra[b]; mulK(K, g, ke); dehomD(Y, ke, d); for (int i = 0; i < 2; i++) vp_assert_eq(E(i, 3 + k), d[i], "error Jacobian w.r.t. a global rotation about the centre of gravity"); } }
VP_CASE(single_point) { vector<M34> P; P.push_back(inMat<3, 4>("P")); P.push_back(inMat<3, 4>("Q")); double x[3]; for (int i = 0; i < 3; i++) x[i] = vp_real("x"); AF::SinglePointMultiProjection<double, vector<M34>::const_iterator> f(P.begin(), P.end()); for (int a = 0; a < 2; a++) { double z = P[a](2, 3); for (int j = 0; j < 3; j++) z += P[a](2, j) * x[j]; vp_assume(z != 0); } checkFn<4, 3>(f, x, "multi-view projection"); Vector<double, 4> r; Vector<double, 3> in(x[0], x[1], x[2]); f.evaluate(r, in); for (int a = 0; a < 2; a++) { double y[3]; for (int i = 0; i < 3; i++) { y[i] = P[a](i, 3); for (int j = 0; j < 3; j++) y[i] += P[a](i, j) * x[j]; } for (int i = 0; i < 2; i++) vp_assert_eq(r(2 * a + i), y[i] / y[2], "projected point"); } }

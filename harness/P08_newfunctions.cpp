//@ property P08
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp
//@ bounds every composable function object of utMath/Optimization/NewFunction and utAlgorithm/NewFunction, alone and composed through bound parameters; arbitrary real inputs
#include "hmath.h"
#include <cmath>
#include <vector>
#include <utMath/Optimization/NewFunction/Function.h>
#include <utMath/Optimization/NewFunction/Addition.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>
#include <utMath/Optimization/NewFunction/Dehomogenization.h>
#include <utMath/Optimization/NewFunction/LieRotation.h>
#include <utMath/Optimization/NewFunction/LinearTransformation.h>
#include <utAlgorithm/NewFunction/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
using namespace Math; using std::vector; using std::size_t;
namespace NF = Math::Optimization::Function;
template <int NY, int NX, class F> static void checkBound(const F& f, const double* x, const char* l) {
  Vector<double, NX> in; for (int i = 0; i < NX; i++) in(i) = x[i]; Vector<double, NY> r, r2; Matrix<double, NY, NX> J(Matrix<double, NY, NX>::zeros()), J2(Matrix<double, NY, NX>::zeros()); vp_assert_eq_u64(f.size(), NY, "size"); f.evaluate(in, r); f.evaluateWithJacobian(in, r2, J); f.jacobian(in, J2); double jj[NY * NX];
  for (int i = 0; i < NY; i++) { vp_assert_eq(r(i), r2(i), "value with and without Jacobian agree"); for (int j = 0; j < NX; j++) { vp_assert_eq(J(i, j), J2(i, j), "Jacobian with and without value agree"); jj[i * NX + j] = J(i, j); } }
  auto g = [&](const double* z, double* y) { Vector<double, NX> a; Vector<double, NY> b; for (int i = 0; i < NX; i++) a(i) = z[i]; f.evaluate(a, b); for (int i = 0; i < NY; i++) y[i] = b(i); }; vp_check_jacobian(g, x, NX, NY, jj, l); }
static void in(double* x, int n) { for (int i = 0; i < n; i++) x[i] = vp_real("x"); }
VP_CASE(addition) { double x[6]; in(x, 6); auto f = NF::Addition<3>() << NF::parameter<3>(0) << NF::parameter<3>(3); checkBound<3, 6>(f, x, "addition"); Vector<double, 6> a; V3 r; for (int i = 0; i < 6; i++) a(i) = x[i]; f.evaluate(a, r); for (int i = 0; i < 3; i++) vp_assert_eq(r(i), x[i] + x[3 + i], "sum"); V3 c = inV3("c"); auto g = NF::Addition<3>() << NF::fixedParameterRef<3>(c) << NF::parameter<3>(2); checkBound<3, 6>(g, x, "addition of a constant"); auto h = NF::Addition<3>() << NF::parameter<3>(1) << NF::fixedParameterCopy<3>(c); checkBound<3, 6>(h, x, "addition of a constant"); }
VP_CASE(subtraction) { double x[4]; in(x, 4); auto f = NF::Subtraction<2>() << NF::parameter<2>(0) << NF::parameter<2>(2); checkBound<2, 4>(f, x, "subtraction"); Vector<double, 4> a; V2 r; for (int i = 0; i < 4; i++) a(i) = x[i]; f.evaluate(a, r); for (int i = 0; i < 2; i++) vp_assert_eq(r(i), x[i] - x[2 + i], "difference"); }
VP_CASE(dehom) { double x[4]; in(x, 4); vp_assume(x[2] != 0 && x[3] != 0); auto f = NF::Dehomogenization<3>() << NF::parameter<3>(0); checkBound<2, 3>(f, x, "dehomogenisation"); auto g = NF::Dehomogenization<3>() << NF::parameter<3>(1); checkBound<2, 4>(g, x, "dehomogenisation"); Vector<double, 4> a; V2 r; for (int i = 0; i < 4; i++) a(i) = x[i]; g.evaluate(a, r); vp_assert_eq(r(0) * x[3], x[1], "quotient"); vp_assert_eq(r(1) * x[3], x[2], "quotient"); }
VP_CASE(linear) { double x[3]; in(x, 3); Matrix<double, 2, 3> A(inMat<2, 3>("A")); auto f = NF::LinearTransformation<2, 3>(A) << NF::parameter<3>(0); checkBound<2, 3>(f, x, "linear transformation"); Vector<double, 3> a(x[0], x[1], x[2]); V2 r; f.evaluate(a, r); for (int i = 0; i < 2; i++) vp_assert_eq(r(i), A(i, 0) * x[0] + A(i, 1) * x[1] + A(i, 2) * x[2], "product"); }
VP_CASE(intrinsics) { double x[7]; in(x, 7); auto f = Algorithm::Function::CameraIntrinsicsMultiplication() << NF::parameter<5>(0) << NF::parameter<2>(5); checkBound<2, 7>(f, x, "intrinsics multiplication"); Vector<double, 7> a; V2 r; for (int i = 0; i < 7; i++) a(i) = x[i]; f.evaluate(a, r); vp_assert_eq(r(0), -(x[0] * x[5] + x[1] * x[6] + x[2]), "pixel"); vp_assert_eq(r(1), -(x[3] * x[6] + x[4]), "pixel"); }
VP_CASE(lie) { double x[6]; in(x, 6); double n = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]; vp_assume(n > 1e-6); vp_assume(n < 9); auto f = NF::LieRotation() << NF::parameter<3>(0) << NF::parameter<3>(3); checkBound<3, 6>(f, x, "rotation by exponential map"); }
VP_CASE(lie_zero) { Vector<double, 6> a; a(0) = a(1) = a(2) = 0; for (int i = 3; i < 6; i++) a(i) = vp_real("x"); V3 r; Matrix<double, 3, 6> J(Matrix<double, 3, 6>::zeros()); (NF::LieRotation() << NF::parameter<3>(0) << NF::parameter<3>(3)).evaluateWithJacobian(a, r, J); double C[3][6] = {{0, a(5), -a(4), 1, 0, 0}, {-a(5), 0, a(3), 0, 1, 0}, {a(4), -a(3), 0, 0, 0, 1}}; for (int i = 0; i < 3; i++) { vp_assert_eq(r(i), a(3 + i), "identity"); for (int j = 0; j < 6; j++) vp_assert_eq(J(i, j), C[i][j], "derivative at the identity"); } }
// composition: A ( c + B ( x0..2 + (x3..5 - x6..8) ) )
VP_CASE(composed) { double x[9]; in(x, 9); M33 A(inMat<3, 3>("A")), B(inMat<3, 3>("B")); V3 c = inV3("c"); auto f = NF::LinearTransformation<3, 3>(A) << (NF::Addition<3>() << NF::fixedParameterRef<3>(c) << (NF::LinearTransformation<3, 3>(B) << (NF::Addition<3>() << NF::parameter<3>(0) << (NF::Subtraction<3>() << NF::parameter<3>(3) << NF::parameter<3>(6))))); checkBound<3, 9>(f, x, "chain rule"); }
VP_CASE(composed_order) { double x[5]; in(x, 5); vp_assume(x[4] != 0); Matrix<double, 2, 2> A(inMat<2, 2>("A")); auto f = NF::Subtraction<2>() << (NF::LinearTransformation<2, 2>(A) << NF::parameter<2>(0)) << (NF::Dehomogenization<3>() << NF::parameter<3>(2)); checkBound<2, 5>(f, x, "chain rule"); }
// the objective of the multi-camera pose estimation: two observations
VP_CASE(objective) { vector<V3> p; p.push_back(V3(0.25, -1, 2)); p.push_back(inV3("p")); vector<M33> R, I; vector<V3> T; double cq[4] = {0.6, 0, 0, 0.8}, C[3][3]; refRot(cq[0], cq[1], cq[2], cq[3], C); M33 r1; for (int i = 0; i < 9; i++) r1(i / 3, i % 3) = C[i / 3][i % 3]; R.push_back(M33::identity()); R.push_back(r1); T.push_back(V3(0, 0, 5)); T.push_back(inV3("T")); I.push_back(M33::identity()); M33 K(M33::identity()); for (int i = 0; i < 2; i++) for (int j = i; j < 3; j++) K(i, j) = vp_real("K"); I.push_back(K); int a = vp_choice("point", 2), b = vp_choice("camera", 2); vector<std::pair<size_t, size_t> > vis; vis.push_back(std::make_pair((size_t)a, (size_t)b)); Algorithm::ObjectiveFunction<double> f(p, R, T, I, vis); vp_assert_eq_u64(f.size(), 2, "size"); double u[3]; vp_unit(u, 3, "u"); double w = vp_real("w"); vp_in(w, 0.01, 3); Vector<double, 6> x; for (int i = 0; i < 3; i++) { x(i) = vp_real("t"); x(3 + i) = w * u[i]; }
  double s = sin(w / 2), D[3][3]; refRot(u[0] * s, u[1] * s, u[2] * s, cos(w / 2), D); double X[3], Y[3], Z[3]; for (int i = 0; i < 3; i++) { X[i] = x(i); for (int j = 0; j < 3; j++) X[i] += D[i][j] * p[a](j); } for (int i = 0; i < 3; i++) { Y[i] = T[b](i); for (int j = 0; j < 3; j++) Y[i] += R[b](i, j) * X[j]; } for (int i = 0; i < 3; i++) { Z[i] = 0; for (int j = 0; j < 3; j++) Z[i] += I[b](i, j) * Y[j]; } vp_assume(Z[2] != 0); Vector<double, 2> r; Matrix<double, 2, 6> J; f.evaluateWithJacobian(r, x, J); for (int i = 0; i < 2; i++) vp_assert_eq(r(i), Z[i] / Z[2], "projected point");
  for (int k = 0; k < 3; k++) { double dZ[3]; for (int i = 0; i < 3; i++) { dZ[i] = 0; for (int j = 0; j < 3; j++) dZ[i] += I[b](i, j) * R[b](j, k); } for (int i = 0; i < 2; i++) vp_assert_eq(J(i, k), dZ[i] / Z[2] - Z[i] * dZ[2] / (Z[2] * Z[2]), "Jacobian w.r.t. the translation"); } }

//@ property P22
//@ sources utAlgorithm/ToolTip/TipCalibration.cpp utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds 3 and 4 poses: arbitrary orientations for exact data, four concrete orientations with arbitrary positions for noisy data; refinement with up to 2 iterations started from the linear solution
//@ assume exact real arithmetic: rounding is not modelled
//@ assume gels returns the exact least-squares solution of a system of full rank; native replays use LAPACK
#include "hmath.h"
#include <vector>
#include <cmath>
#include <cassert>
#include <stdlib.h>
extern "C" int rand() noexcept { return vp_choice("rand", 2); }
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/ToolTip/LeastSquare.h>
#include <utAlgorithm/ToolTip/ErrorEstimation.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/ToolTip/Ransac.h>
using namespace Math;
namespace tt = Ubitrack::Algorithm::ToolTip;
static V3 gm, gw; static int stub, stubCalls;   // tip in body and in world coordinates
#ifndef VP_NATIVE
extern "C" void dgels_(const char* trans, const int* m, const int* n, const int* nrhs, double* a, const int* lda, double* b, const int* ldb, double* work, const int* lwork, int* info);
// the solution is known: check that it solves the system, then hand it out
template <class T> static void gelsT(const char* trans, const int* m, const int* n, const int* nrhs, T* a, const int* lda, T* b, const int* ldb, T* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } stubCalls++; int M = *m, N = *n; bool ok = (*trans == 'N' || *trans == 'n') && N == 6 && *nrhs == 1; vp_assert(ok, "decomposition of a system in six unknowns"); if (!ok) vp_end_path();
  double x[6] = {gm(0), gm(1), gm(2), gw(0), gw(1), gw(2)}; for (int i = 0; i < M; i++) { double s = 0; for (int j = 0; j < N; j++) s += a[i + j * *lda] * x[j]; vp_assert_eq(s, b[i], "decomposition of a system solved by the tool tip"); } for (int j = 0; j < N; j++) b[j] = x[j]; }
extern "C" void sgels_(const char* trans, const int* m, const int* n, const int* nrhs, float* a, const int* lda, float* b, const int* ldb, float* work, const int* lwork, int* info) { gelsT(trans, m, n, nrhs, a, lda, b, ldb, work, lwork, info); }

#endif
static const int Q[4][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}, {-1, 5, 1, 3, 6}, {1, 1, -1, 1, 2}};
static Quaternion conc(int k) { double one = (double)(vp_symbolic() | 1); return Quaternion(Q[k][0] * one / Q[k][4], Q[k][1] * one / Q[k][4], Q[k][2] * one / Q[k][4], Q[k][3] * one / Q[k][4]); }
static void box(const V3& v) { for (int i = 0; i < 3; i++) vp_in(v(i), -10, 10); }
// poses for which R gm + t = gw
static std::vector<Pose> exactPoses(int n, int sym) { std::vector<Pose> r; gm = inV3("body"); gw = inV3("world"); box(gm); box(gw); for (int i = 0; i < n; i++) { Quaternion q = conc(i); if (i < sym) { double h[4]; vp_unit(h, 4, "rotation"); vp_assume(h[0] >= -1); q = Quaternion(h[0], h[1], h[2], h[3]); } double R[3][3]; refRot(q, R); V3 t; for (int a = 0; a < 3; a++) { t(a) = gw(a); for (int b = 0; b < 3; b++) t(a) -= R[a][b] * gm(b); } r.push_back(Pose(q, t)); } return r; }
template <class T> static void isTip(const Vector<T, 3>& pm, const Vector<T, 3>& pw) { eqV(pm, gm, 3, "tip in body coordinates"); eqV(pw, gw, 3, "tip in world coordinates"); }
template <class T> static void exactT(int n, int sym) { std::vector<Pose> p = exactPoses(n, sym); Vector<T, 3> pm, pw; vp_tol(sizeof(T) == 4 ? 5e-3 : 1e-6); int k = vp_choice("function", 2);
  if (k == 0) vp_assert(tt::estimatePosition3D_6D(pw, p, pm), "exact poses are solved");
  else { Optimization::RansacParameter<T> par((T)0.01, (std::size_t)3, (std::size_t)n, (std::size_t)1); vp_assert(tt::estimatePosition3D_6D(pw, p, pm, par), "exact poses are solved"); }
  isTip(pm, pw); }
VP_CASE(exact3) { exactT<double>(3, 0); }
VP_CASE(exact4) { exactT<double>(4, 0); }
VP_CASE(exact3f) { exactT<float>(3, 2); }
VP_CASE(old) { std::vector<Pose> p = exactPoses(3, 0); V3 pm, pw; tt::tipCalibration(p, pm, pw); isTip(pm, pw); }
// arbitrary positions: the gradient of the squared distances vanishes
VP_CASE(leastsquares) { std::vector<Pose> p; int n = 3 + vp_choice("n", 2); for (int i = 0; i < n; i++) p.push_back(Pose(conc(i), inV3("position"))); V3 pm, pw; vp_assert(tt::estimatePosition3D_6D(pw, p, pm), "solved"); vp_tol(1e-6); for (int i = 0; i < n; i++) box(p[i].translation());
  double gmv[3] = {0, 0, 0}, gwv[3] = {0, 0, 0}; for (int i = 0; i < n; i++) { double R[3][3]; refRot(p[i].rotation(), R); double e[3]; for (int a = 0; a < 3; a++) { e[a] = p[i].translation()(a) - pw(a); for (int b = 0; b < 3; b++) e[a] += R[a][b] * pm(b); gwv[a] += e[a]; } for (int b = 0; b < 3; b++) for (int a = 0; a < 3; a++) gmv[b] += R[a][b] * e[a]; }
  for (int a = 0; a < 3; a++) { vp_assert_eq(gmv[a], 0, "least squares in the body point"); vp_assert_eq(gwv[a], 0, "least squares in the world point"); } }
// errors
static double distTo(const Pose& p, const V3& m, const V3& w) { double R[3][3], s = 0; refRot(p.rotation(), R); for (int a = 0; a < 3; a++) { double e = w(a) - p.translation()(a); for (int b = 0; b < 3; b++) e -= R[a][b] * m(b); s += e * e; } return s; }
VP_CASE(distance) { Pose p(conc(vp_choice("rotation", 2)), V3(vp_real("t"), 1, -2)); V3 m(vp_real("m"), 2, 3), w = inV3("w"); double s = distTo(p, m, w); tt::ErrorFunction<double> e(w, m); double d = e(p); vp_assert(d >= 0, "a distance"); vp_assert_eq(d * d, s, "distance of the tip in the world"); vp_assert_eq(e(5.0, p), 5 + d, "accumulated distance"); Vector<double, 6> v; for (int i = 0; i < 3; i++) { v(i) = w(i); v(3 + i) = m(i); } vp_assert_eq(tt::Ransac<double>::Evaluator()(v, p), d, "distance of the tip in the world"); }
VP_CASE(errors) { double d[3]; std::vector<Pose> p; V3 m(1, 2, 3), w(-1, 0, 2); for (int i = 0; i < 3; i++) { d[i] = vp_real("distance"); vp_assume(d[i] >= 0); vp_in(d[i], 0, 100); Quaternion q = conc(i); double R[3][3]; refRot(q, R); V3 t; for (int a = 0; a < 3; a++) { t(a) = w(a); for (int b = 0; b < 3; b++) t(a) -= R[a][b] * m(b); } t(vp_choice("axis", i == 0 ? 3 : 1)) += d[i]; p.push_back(Pose(q, t)); }
  std::pair<double, double> r = tt::estimatePosition3DError_6D(w, p, m); double mean = (d[0] + d[1] + d[2]) / 3, var = 0; for (int i = 0; i < 3; i++) var += (d[i] - mean) * (d[i] - mean) / 2; vp_tol(1e-6); vp_assert_eq(r.first, mean, "mean distance"); vp_assert(r.second >= 0, "a deviation"); vp_assert_eq(r.second * r.second, var, "standard deviation of the distances"); }
// refinement
VP_CASE(objective) { static const int NP = 1; std::vector<Pose> p; for (int i = 0; i < NP; i++) p.push_back(Pose(conc(vp_choice("rotation", 3)), V3(vp_real("t"), 1, -2))); double x[6]; for (int i = 0; i < 6; i++) x[i] = vp_real("x"); for (int i = 0; i < 6; i++) vp_in(x[i], -10, 10); V3 m(x[3], x[4], x[5]), w(x[0], x[1], x[2]); double s = distTo(p[0], m, w); vp_assume(s > 0.01);
  tt::MultiplePoseSinglePointTransformation<std::vector<Pose>::iterator> f(p.begin(), p.end()); vp_assert(f.size() == NP, "one result per pose"); Vector<double> in(6), out(NP), o2(NP); Matrix<double> J(NP, 6), J2(NP, 6); for (int i = 0; i < 6; i++) in(i) = x[i]; f.evaluate(out, in); f.evaluateWithJacobian(o2, in, J); f.jacobian(in, J2); vp_assert(out(0) >= 0, "a distance"); vp_assert_eq(out(0) * out(0), s, "distance of the tip"); vp_assert_eq(out(0), o2(0), "same value");
  double R[3][3]; refRot(p[0].rotation(), R); double e[3]; for (int a = 0; a < 3; a++) { e[a] = w(a) - p[0].translation()(a); for (int b = 0; b < 3; b++) e[a] -= R[a][b] * m(b); }
  for (int i = 0; i < 3; i++) { double g = 0; for (int a = 0; a < 3; a++) g -= R[a][i] * e[a]; vp_assert_eq(J(0, i) * out(0), e[i], "derivative by the world point"); vp_assert_eq(J(0, 3 + i) * out(0), g, "derivative by the body point"); } for (int i = 0; i < 6; i++) vp_assert_eq(J(0, i), J2(0, i), "same Jacobian"); }
VP_CASE(refine) { std::vector<Pose> p = exactPoses(3, 0); V3 pm, pw; vp_tol(1e-5); vp_assert(tt::estimatePosition3D_6D(pw, p, pm, Optimization::OptTerminate(2, 1e-6)), "exact poses are solved"); isTip(pm, pw); }

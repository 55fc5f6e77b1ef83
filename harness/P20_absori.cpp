//@ property P20
//@ sources utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds 3 and 4 point pairs with every coordinate symbolic for the least-squares form, every rotation and translation (3 and 4 points, concrete and symbolic) for exact data, double and float interfaces; refinement: started at the exact pose
//@ assume exact real arithmetic: rounding is not modelled
//@ assume syev hands out an arbitrary unit vector as the eigenvector of the largest eigenvalue (arbitrary data), or the rotation that makes the form maximal (exact data, points not on a line); native replays use LAPACK
#include "hmath.h"
#include <vector>
#include <cmath>
#include <cassert>
#include <stdlib.h>
extern "C" int rand() noexcept { return vp_choice("rand", 2); }
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/Pose6D.h>
#include <utAlgorithm/PoseEstimation3D3D/Scale.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
using namespace Math;
namespace ao = Ubitrack::Algorithm::PoseEstimation3D3D;
// the points whose correspondence is estimated: a = R b + t
static double pa[8][3], pb[8][3]; static int pn;
static double top[4], topVal; static int eigCalls, eigInfo;   // w x y z
static double cen(const double p[8][3], int k) { double s = 0; for (int i = 0; i < pn; i++) s += p[i][k]; return s / pn; }
// sum of a' . R(v) b' with R the rotation matrix of the (not normalised) quaternion v = (w, x, y, z)
static double form(const double* v) { double w = v[0], x = v[1], y = v[2], z = v[3], s = 0;
  double R[3][3] = {{w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z}};
  double ca[3], cb[3]; for (int k = 0; k < 3; k++) { ca[k] = cen(pa, k); cb[k] = cen(pb, k); }
  for (int i = 0; i < pn; i++) for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) s += (pa[i][r] - ca[r]) * R[r][c] * (pb[i][c] - cb[c]); return s; }
#ifndef VP_NATIVE
template <class T> static void syevT(const char* jobz, const char* uplo, const int* n, T* a, const int* lda, T* w, T* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } eigCalls++; vp_assert(*n == 4 && (*jobz == 'V' || *jobz == 'v'), "decomposition of a 4x4 matrix"); if (*n != 4) vp_end_path();
  bool U = *uplo == 'U' || *uplo == 'u'; double N[4][4];
  for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) N[i][j] = N[j][i] = U ? a[i + j * *lda] : a[j + i * *lda];
  for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) { double ei[4] = {0, 0, 0, 0}, ej[4] = {0, 0, 0, 0}, ij[4] = {0, 0, 0, 0}; ei[i] = ej[j] = 1; ij[i] += 1; ij[j] += 1;
    double ref = i == j ? form(ei) : (form(ij) - form(ei) - form(ej)) / 2; vp_assert_eq(N[i][j], ref, "decomposition of the least-squares form"); }
  if (eigInfo) { *info = eigInfo; return; }
  for (int i = 0; i < 4; i++) { a[i + 3 * *lda] = top[i]; for (int j = 0; j < 3; j++) a[i + j * *lda] = vp_real("V"); w[i] = i == 3 ? (T)topVal : (T)vp_real("W"); } }
extern "C" void dsyev_(const char* jobz, const char* uplo, const int* n, double* a, const int* lda, double* w, double* work, const int* lwork, int* info) { syevT(jobz, uplo, n, a, lda, w, work, lwork, info); }
extern "C" void ssyev_(const char* jobz, const char* uplo, const int* n, float* a, const int* lda, float* w, float* work, const int* lwork, int* info) { syevT(jobz, uplo, n, a, lda, w, work, lwork, info); }
#endif
template <class T> static std::vector<Vector<T, 3> > pts(const double p[8][3]) { std::vector<Vector<T, 3> > r; for (int i = 0; i < pn; i++) r.push_back(Vector<T, 3>((T)p[i][0], (T)p[i][1], (T)p[i][2])); return r; }
static const double base[4][3] = {{3, -1, 2}, {0, 4, 1}, {-2, 1, 5}, {1, 2, -3}};
// ---- arbitrary data ---------------------------------------------------------------------------------------
template <class T> static void leastSquares(int n) {
  pn = n; for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { pa[i][k] = vp_real("a"); pb[i][k] = vp_real("b"); }
  vp_unit(top, 4, "top"); topVal = vp_real("eigenvalue");
  std::vector<Vector<T, 3> > A = pts<T>(pa), B = pts<T>(pb); Pose p(Quaternion(0, 0, 0, 1), V3(7, 8, 9)); Quaternion q; bool ok; vp_tol(1e-3);
  int k = vp_choice("function", 2); if (k == 0) ok = ao::estimatePose6D_3D3D(A, p, B); else { ok = ao::estimateRotation_3D3D(A, q, B); }
  if (!vp_symbolic()) return;
  vp_assert(ok == (topVal > 0), "no pose without a positive eigenvalue"); if (!ok) return;
  if (k == 0) q = p.rotation();
  double R[3][3], S[3][3]; refRot(q, R); refRot(top[1], top[2], top[3], top[0], S); eqR(R, S, "rotation is the maximiser of the form");
  if (k == 0) for (int r = 0; r < 3; r++) { double t = cen(pa, r); for (int c = 0; c < 3; c++) t -= R[r][c] * cen(pb, c); vp_assert_eq(p.translation()(r), t, "translation maps one centroid to the other"); } }
VP_CASE(form3) { leastSquares<double>(3); }
VP_CASE(form4) { leastSquares<double>(4); }
VP_CASE(form3f) { leastSquares<float>(3); }
// ---- the estimate is at least as good as any other rigid motion --------------------------------------------------
VP_CASE(optimal) {
  pn = 3; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { pb[i][k] = base[i][k]; pa[i][k] = base[(i + 1) % 4][k]; }
  for (int k = 0; k < 3; k++) pa[0][k] = vp_real("a");
  vp_unit(top, 4, "top"); topVal = form(top); double u[4]; vp_unit(u, 4, "other"); V3 d = inV3("d");
  if (vp_symbolic()) { vp_assume(topVal > 0); vp_assume(form(u) <= topVal); }
  std::vector<V3> A = pts<double>(pa), B = pts<double>(pb); Pose p; bool ok = ao::estimatePose6D_3D3D(A, p, B); vp_assert(ok, "pose estimated"); if (!ok) return;
  double R[3][3], S[3][3], e1 = 0, e2 = 0; refRot(p.rotation(), R); refRot(u[1], u[2], u[3], u[0], S);
  for (int i = 0; i < 3; i++) for (int r = 0; r < 3; r++) { double x = pa[i][r] - p.translation()(r), y = pa[i][r] - cen(pa, r) - d(r); for (int c = 0; c < 3; c++) { x -= R[r][c] * pb[i][c]; y -= S[r][c] * (pb[i][c] - cen(pb, c)); } e1 += x * x; e2 += y * y; }
  vp_tol(1e-6); vp_assert_le(e1, e2, "no rigid motion fits better"); }
// ---- exact data ------------------------------------------------------------------------------------------
static Quaternion gq; static V3 gt; static double gs = 1;
static void exactData(int n, bool sym) {
  pn = n; double h[4]; vp_unit(h, 4, "rotation"); vp_assume(h[0] >= -1); gq = Quaternion(h[0], h[1], h[2], h[3]); gt = inV3("translation"); double R[3][3]; refRot(gq, R);
  for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) pb[i][k] = base[i][k]; if (sym) { pb[n - 1][0] = vp_real("b"); pb[n - 1][1] = vp_real("b"); vp_in(pb[n - 1][0], -10, 10); vp_in(pb[n - 1][1], -10, 10); if (n == 3) { double z = (pb[1][0] - pb[0][0]) * (pb[2][1] - pb[0][1]) - (pb[1][1] - pb[0][1]) * (pb[2][0] - pb[0][0]); vp_assume(z * z > 1); } }
  for (int i = 0; i < n; i++) for (int r = 0; r < 3; r++) { double s = gt(r); for (int c = 0; c < 3; c++) s += gs * R[r][c] * pb[i][c]; pa[i][r] = s; }
  int s = vp_choice("sign", 2) ? -1 : 1; top[0] = s * h[3]; for (int k = 0; k < 3; k++) top[k + 1] = s * h[k]; topVal = 0; for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) topVal += (pb[i][k] - cen(pb, k)) * (pb[i][k] - cen(pb, k)) * gs; }
static void isRot(const Quaternion& q) { double R[3][3], S[3][3]; refRot(q, R); refRot(gq, S); eqR(R, S, "the rotation is recovered"); }
static void isPose(const Pose& p) { isRot(p.rotation()); eqV(p.translation(), gt, 3, "the translation is recovered"); }
template <class T> static void exactT(int n, bool sym) { exactData(n, sym); std::vector<Vector<T, 3> > A = pts<T>(pa), B = pts<T>(pb); vp_tol(sizeof(T) == 4 ? 2e-3 : 1e-6);
  vp_in(gt(0), -10, 10); vp_in(gt(1), -10, 10); vp_in(gt(2), -10, 10);
  Pose p(Quaternion(0, 0, 0, 1), V3(7, 8, 9)); Quaternion q; Matrix<T, 3, 3> m; int k = vp_choice("function", 5);
  if (k == 0) { vp_assert(ao::estimatePose6D_3D3D(A, p, B), "exact correspondences are solved"); isPose(p); }
  if (k == 1) { vp_assert(ao::estimateRotation_3D3D(A, q, B), "exact correspondences are solved"); isRot(q); }
  if (k == 2) { vp_assert(ao::estimateRotation_3D3D(A, m, B), "exact correspondences are solved"); double S[3][3]; refRot(gq, S); eqRM(m, S, "the rotation matrix is recovered"); }
  if (k == 4) { Optimization::RansacParameter<T> par((T)0.01, (std::size_t)3, (std::size_t)n, (std::size_t)1); if (n == 3) { vp_assert(ao::estimatePose6D_3D3D(A, p, B, par), "exact correspondences are solved"); isPose(p); } }
  if (k == 3) { typename ao::Ransac<T>::Estimator e; vp_assert(e(p, A.begin(), A.end(), B.begin(), B.end()), "exact correspondences are solved"); isPose(p); typename ao::Ransac<T>::Evaluator v; for (int i = 0; i < n; i++) { vp_assert_le(v(p, A[i], B[i]), 0, "no residual"); } } }
VP_CASE(exact3) { exactT<double>(3, true); }
VP_CASE(exact4) { exactT<double>(4, false); }
VP_CASE(exact3f) { exactT<float>(3, false); }
VP_CASE(absolute) { exactData(3, false); std::vector<V3> A = pts<double>(pa), B = pts<double>(pb); Pose p; if (vp_choice("function", 2)) p = ao::calculateAbsoluteOrientation(B, A); else { ao::EstimateAbsoluteOrientation<double> e; e(p, B, A); } isPose(p);
}
static void someRot() { static const int N[2][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}}; int k = vp_choice("rotation", 2); double one = (double)(vp_symbolic() | 1); gq = Quaternion(N[k][0] * one / N[k][4], N[k][1] * one / N[k][4], N[k][2] * one / N[k][4], N[k][3] * one / N[k][4]); gt = V3(vp_real("t"), 2 * one, -3 * one); }
VP_CASE(distance) { someRot(); V3 x(vp_real("x"), 1, -2), y = inV3("y"); Pose r(gq, gt); double R[3][3], s = 0; refRot(gq, R); for (int i = 0; i < 3; i++) { double t = y(i) - gt(i); for (int c = 0; c < 3; c++) t -= R[i][c] * x(c); s += t * t; }
  double d = ao::EvaluateAbsoluteOrientation<double>()(r, x, y); vp_assert(d >= 0, "a distance"); vp_assert_eq(d * d, s, "distance of the transformed point"); }
VP_CASE(residual) { someRot(); double R[3][3]; refRot(gq, R); V3 x(vp_real("x"), 1, -2), y = inV3("y"); Pose r(gq, gt); double s = 0; for (int i = 0; i < 3; i++) { double t = y(i) - gt(i); for (int c = 0; c < 3; c++) t -= R[i][c] * x(c); s += t * t; }
  double d = ao::Ransac<double>::Evaluator()(r, y, x), e = ao::ErrorFunction<double>(r)(y, x); vp_assert(d >= 0, "a distance"); vp_assert_eq(d * d, s, "distance of the transformed point"); vp_assert_eq(d, e, "same distance");
  std::vector<V3> A, B; V3 y2(3, vp_real("y2"), 1); A.push_back(y); B.push_back(x); A.push_back(y2); B.push_back(x); double e2 = ao::ErrorFunction<double>(r)(y2, x); vp_assert_eq(6 * ao::estimatePose6DResidual<double>(A.begin(), A.end(), r, B.begin(), B.end()), e + e2, "mean distance per coordinate"); }
// ---- scale -----------------------------------------------------------------------------------------------
template <class T> static void scaleT(int n) { gs = vp_real("scale"); vp_assume(gs > 0.1); vp_assume(gs < 10); exactData(n, true); vp_in(gt(0), -10, 10); vp_in(gt(1), -10, 10); vp_in(gt(2), -10, 10); std::vector<Vector<T, 3> > A = pts<T>(pa), B = pts<T>(pb); vp_tol(1e-3); double s = ao::estimateScale_3D3D(A, B); vp_assert(s >= 0, "scale is not negative"); vp_assert_eq(s * s, gs * gs, "the scale is recovered"); gs = 1; }
VP_CASE(scale) { scaleT<double>(3); }
VP_CASE(scalef) { scaleT<float>(4); }
// explicit reference points: the ratio of the root mean squared distances from them, for every data
static void scaleRef(bool vary) { std::vector<V3> A, B; for (int i = 0; i < 3; i++) { A.push_back(i == 1 || vary ? inV3("a") : V3(1.5 - i, i, 2)); B.push_back(i == 1 || !vary ? inV3("b") : V3(i, 3 - i, 0.5)); } V3 ra = inV3("ra"), rb = inV3("rb"); double da = 0, db = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { da += (A[i](j) - ra(j)) * (A[i](j) - ra(j)); db += (B[i](j) - rb(j)) * (B[i](j) - rb(j)); } vp_assume(db > 1e-3); double s = ao::estimateScale_3D3D(A.begin(), A.end(), B.begin(), B.end(), ra, rb); vp_tol(1e-9); vp_assert(s >= 0, "scale is not negative"); vp_assert_eq(s * s * db, da, "the scale is the ratio of the distances from the reference points"); }
VP_CASE(scale_references_left) { scaleRef(true); }
VP_CASE(scale_references_right) { scaleRef(false); }
// ---- non-linear refinement ---------------------------------------------------------------------------------
VP_CASE(objective) { pn = 2; double h[4]; vp_unit(h, 4, "rotation"); vp_assume(h[0] >= -1); gt = inV3("translation"); std::vector<V3> B; B.push_back(inV3("b")); B.push_back(V3(1, -2, 3));
  ao::PointCorrespodencesSinglePose<std::vector<V3>::iterator> f(B.begin(), B.end()); vp_assert(f.size() == 6, "three results per point");
  Vector<double> in(7), out(6), out2(6); Matrix<double> J(6, 7); double s = vp_real("scaling"); vp_assume(s > 0.01); vp_assume(s < 100); for (int i = 0; i < 3; i++) in(i) = gt(i); for (int i = 0; i < 4; i++) in(3 + i) = h[i]; f.evaluateWithJacobian(out, in, J); double R[3][3]; refRot(h[0], h[1], h[2], h[3], R);
  for (int i = 0; i < 2; i++) for (int r = 0; r < 3; r++) { double x = gt(r); for (int c = 0; c < 3; c++) x += R[r][c] * B[i](c); vp_assert_eq(out(3 * i + r), x, "transformed points"); }
  // derivative along every direction tangent to the unit quaternions: d R(q) b
  for (int i = 0; i < 2; i++) for (int r = 0; r < 3; r++) { for (int c = 0; c < 3; c++) vp_assert_eq(J(3 * i + r, c), r == c ? 1 : 0, "derivative by the translation"); }
  // tangent directions q*e_k (k=1..3): rotation R [e_k]x b * 2
  for (int k = 0; k < 3; k++) { double e[3] = {0, 0, 0}; e[k] = 1; double x = h[0], y = h[1], z = h[2], w = h[3]; double t[4] = {w * e[0] + y * e[2] - z * e[1], w * e[1] + z * e[0] - x * e[2], w * e[2] + x * e[1] - y * e[0], -(x * e[0] + y * e[1] + z * e[2])};
    for (int i = 0; i < 2; i++) { V3 b = B[i]; double cr[3] = {e[1] * b(2) - e[2] * b(1), e[2] * b(0) - e[0] * b(2), e[0] * b(1) - e[1] * b(0)}; for (int r = 0; r < 3; r++) { double l = 0, m = 0; for (int c = 0; c < 4; c++) l += J(3 * i + r, 3 + c) * t[c]; for (int c = 0; c < 3; c++) m += 2 * R[r][c] * cr[c]; vp_assert_eq(l, m, "derivative along every rotation"); } } } }
VP_CASE(scaled) { int k = vp_choice("rotation", 3); double one = (double)(vp_symbolic() | 1); double s = vp_real("scaling"); vp_assume(s > 0.01); vp_assume(s < 100); std::vector<V3> B; B.push_back(inV3("b")); ao::PointCorrespodencesSinglePose<std::vector<V3>::iterator> f(B.begin(), B.end()); Vector<double> a(7), b(7), o(3), o2(3); a(0) = b(0) = 1; a(1) = b(1) = 2; a(2) = b(2) = 3; static const int N[3][5] = {{2, 4, 5, 6, 9}, {1, 2, 2, 4, 5}, {3, 0, 0, -4, 5}}; for (int i = 0; i < 4; i++) { a(3 + i) = N[k][i] * one / N[k][4]; b(3 + i) = s * a(3 + i); } f.evaluate(o, a); f.evaluate(o2, b); eqV(o, o2, 3, "only the direction of the quaternion matters"); }
template <class T> static void refineT() { static const int N[2][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}}; int k = vp_choice("rotation", 2); double one = (double)(vp_symbolic() | 1); pn = 3; gq = Quaternion(N[k][0] * one / N[k][4], N[k][1] * one / N[k][4], N[k][2] * one / N[k][4], N[k][3] * one / N[k][4]); gt = V3(one, vp_real("t"), -2 * one); vp_in(gt(1), -10, 10); double R[3][3]; refRot(gq, R); for (int i = 0; i < 3; i++) for (int r = 0; r < 3; r++) { pb[i][r] = base[i][r]; } for (int i = 0; i < 3; i++) for (int r = 0; r < 3; r++) { double s = gt(r); for (int c = 0; c < 3; c++) s += R[r][c] * pb[i][c]; pa[i][r] = s; }
  std::vector<Vector<T, 3> > A = pts<T>(pa), B = pts<T>(pb); Pose p(gq, gt); vp_tol(sizeof(T) == 4 ? 2e-3 : 1e-6); vp_assert(ao::estimatePose6D_3D3D(A, p, B, Optimization::OptTerminate(2, 1e-6)), "refinement succeeds"); isPose(p); }
VP_CASE(refine) { refineT<double>(); }
// ---- covariance of the estimate: points at +-r on the axes, so that the normal equations are diagonal ----------------
static double covR;
#ifndef VP_NATIVE
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } vp_assert(*m == 18 && *n == 6 && *jv == 'O', "decomposition of an 18x6 Jacobian"); if (*m != 18 || *n != 6 || *jv != 'O') vp_end_path();
  for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) { double t = 0; for (int k = 0; k < 18; k++) t += a[k + i * *lda] * a[k + j * *lda]; vp_assert_eq(t, i != j ? 0 : i < 3 ? 6 : 16 * covR * covR, "decomposition of the Jacobian of the point errors"); }
  for (int i = 0; i < 6; i++) { s[i] = i < 3 ? 4 * covR : sqrt(6.0 * (vp_symbolic() | 1)); for (int j = 0; j < 6; j++) a[i + j * *lda] = j == (i + 3) % 6 ? 1 : 0; } }
#endif
VP_CASE(covariance) { double h[4]; vp_unit(h, 4, "rotation"); vp_assume(h[0] >= -1); gq = Quaternion(h[0], h[1], h[2], h[3]); gt = inV3("translation"); covR = vp_real("radius"); vp_assume(covR > 1); vp_assume(covR < 100); pn = 6; double R[3][3]; refRot(gq, R); vp_tol(1e-5);
  for (int i = 0; i < 6; i++) for (int k = 0; k < 3; k++) pb[i][k] = k == i % 3 ? (i < 3 ? covR : -covR) : 0;
  for (int i = 0; i < 6; i++) for (int r = 0; r < 3; r++) { double s = gt(r); for (int c = 0; c < 3; c++) s += R[r][c] * pb[i][c]; pa[i][r] = s; } double e = vp_real("error"); vp_assume(e > 0.001); vp_assume(e < 100); pa[vp_choice("point", 2) * 4][vp_choice("axis", 3)] += e;
  std::vector<V3> A = pts<double>(pa), B = pts<double>(pb); Pose p(gq, gt); Matrix<double, 6, 6> C; vp_assert(ao::estimatePose6DCovariance(A.begin(), A.end(), p, B.begin(), B.end(), C), "covariance estimated");
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vp_assert_eq(C(i, j) * (i < 3 ? 6 : 16 * covR * covR), i == j ? e / 18 : 0, "residual times the inverse of the normal equations"); }

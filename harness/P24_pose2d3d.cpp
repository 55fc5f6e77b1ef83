//@ property P24
//@ sources utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp utAlgorithm/Homography.cpp utAlgorithm/Projection.cpp utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds pose from a homography: every rotation, translation, intrinsic matrix, scale and sign
//@ assume exact real arithmetic: rounding is not modelled
//@ assume LAPACK gesvd returns any singular value decomposition of its argument
#include "hmath.h"
#define SVD_CUSTOM
#include "svdnull.h"
#include "ludet.h"
#include <utUtil/Exception.h>
#include <utMath/ErrorPose.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <vector>
using namespace Math; namespace pe = Ubitrack::Algorithm::PoseEstimation2D3D;
typedef std::vector<V2> L2; typedef std::vector<V3> L3;
// the decompositions: [r1 r2] of the pose from a homography, the rotation of the projection, the Jacobian of the covariance
static double gR[3][3], gc[2] = {1, 0}, gflip = 1, gu3 = 1, gs6[6], gV6[6][6]; static double gU[3][3], gJ[10][6]; static int gn;
#ifndef VP_NATIVE
template <class T> static void svd(const char* ju, const char* jv, const int* m, const int* n, T* a, const int* lda, T* s, T* u, const int* ldu, T* vt, const int* ldvt, T* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } int M = *m, N = *n;
  if (N == 2) { vp_assert(M == 3 && *ju == 'A' && *jv == 'A', "decomposition of two columns"); double l = 0; for (int i = 0; i < 3; i++) l += a[i] * gR[i][0]; vp_assert(l > 0, "decomposition of positively scaled columns"); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) vp_assert_eq(a[i + j * *lda], l * gR[i][j], "decomposition of the first two columns of the rotation"); s[0] = s[1] = l;
    double v[2][2] = {{gc[0], gc[1]}, {-gflip * gc[1], gflip * gc[0]}}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vt[i + j * *ldvt] = v[i][j]; for (int i = 0; i < 3; i++) { for (int j = 0; j < 2; j++) u[i + j * *ldu] = gR[i][0] * v[j][0] + gR[i][1] * v[j][1]; u[i + 2 * *ldu] = gu3 * gR[i][2]; } return; }
  if (N == 3) { vp_assert(M == 3 && *ju == 'A' && *jv == 'A', "decomposition of the rotation"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(a[i + j * *lda], gR[i][j], "decomposition of the rotation"); for (int i = 0; i < 3; i++) { s[i] = 1; for (int j = 0; j < 3; j++) { u[i + j * *ldu] = gU[i][j]; double t = 0; for (int k = 0; k < 3; k++) t += gU[k][i] * gR[k][j]; vt[i + j * *ldvt] = t; } } return; }
  if (N == 6) { if (*ju != 'N' || *jv != 'O') { vp_assert(0, "decomposition of the Jacobian"); vp_end_path(); } if (gn) { vp_assert(M == 2 * gn, "decomposition of the Jacobian"); for (int i = 0; i < M; i++) for (int j = 0; j < 6; j++) vp_assert_eq(a[i + j * *lda], gJ[i][j], "decomposition of the Jacobian"); } for (int i = 0; i < 6; i++) { s[i] = gs6[i]; for (int j = 0; j < 6; j++) a[i + j * *lda] = gV6[i][j]; } return; }
  svdNull(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info); }
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) { svd(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info); }
// the decomposition of the projection is only logged
extern "C" void dgerq2_(const int*, const int*, double*, const int*, double*, double*, int* info) { *info = 0; }
extern "C" void dorgr2_(const int*, const int*, const int*, double*, const int*, const double*, double*, int* info) { *info = 0; }
extern "C" void sgesvd_(const char* ju, const char* jv, const int* m, const int* n, float* a, const int* lda, float* s, float* u, const int* ldu, float* vt, const int* ldvt, float* work, const int* lwork, int* info) { svd(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info); }
#endif
static double ONE() { return (double)(vp_symbolic() | 1); }
static double pos(const char* n) { double h = vp_real(n); vp_assume(h > 0.1); vp_assume(h < 10); return h; }
static double nz(const char* n) { double h = vp_real(n); vp_assume(h > 0.1 || h < -0.1); vp_in(h, -10, 10); return h; }
static double any(const char* n) { double h = vp_real(n); vp_in(h, -10, 10); return h; }
static void freeSvd() { vp_unit(gc, 2, "svd"); vp_assume(gc[0] >= -1); gflip = vp_choice("flip", 2) ? -1 : 1; gu3 = vp_choice("u3", 2) ? -1 : 1; }
static void isPose(const Pose& p, const double R[3][3], const double* t) { double S[3][3]; refRot(p.rotation(), S); for (int i = 0; i < 3; i++) { vp_assert_eq(p.translation()(i), t[i], "position"); for (int j = 0; j < 3; j++) vp_assert_eq(S[i][j], R[i][j], "orientation"); } }
// ---- pose from a homography
template <class T> static void fromH(int k2) { double q[4], t[3]; vp_unit(q, 4, "q"); vp_assume(q[0] >= -1); refRot(q[0], q[1], q[2], q[3], gR); for (int i = 0; i < 3; i++) t[i] = any("t"); vp_assume(t[2] < -0.1); double f = pos("f"), g = pos("g"), sk = any("skew"), u = any("u"), v = any("v"), s = nz("scale"); freeSvd();
  double K[3][3] = {{f, sk, u}, {0, g, v}, {0, 0, (double)k2}}, I[3][3] = {{1 / f, -sk / (f * g), (sk * v / g - u) / f * k2}, {0, 1 / g, -v / g * k2}, {0, 0, (double)k2}}; Matrix<T, 3, 3> H, iK; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double h = 0; for (int k = 0; k < 3; k++) h += K[i][k] * (j < 2 ? gR[k][j] : t[k]); H(i, j) = s * h; iK(i, j) = I[i][j]; }
  vp_tol(sizeof(T) == 4 ? 1e-3 : 1e-6); isPose(pe::poseFromHomography(H, iK), gR, t); }
VP_CASE(from_homography) { fromH<double>(-1); }
VP_CASE(from_homography_plus) { fromH<double>(1); }
VP_CASE(from_homography_f) { fromH<float>(-1); }
// ---- four points of a plane: corners (+-1,+-3) of a tilted rectangle, image (7x/(y+4), (3y+5)/(y+4)) up to scale and offset in either axis
static void plane(bool swap, int rotated, int extra) { double one = ONE(), e[2]; vp_unit(e, 2, "tilt"); double c = e[0], s = e[1]; vp_assume(s < -0.01); double a[2] = {pos("a"), pos("a")}, b[2] = {any("b"), any("b")}, z0 = any("z"), d = nz("d"), g[2] = {pos("g"), pos("g")}, h[2] = {any("h"), any("h")}, cx = swap ? 0 * one : any("tx"), f0 = -7 * g[0] * s * a[1] / a[0], f1 = 7 * g[1] * s * a[1] / d, sk = -f0 * cx / d, p0 = -sk * c / s - h[0], p1 = -f1 * c / s - 3 * g[1] - h[1]; if (!rotated) vp_assume(b[1] < 4 * a[1] - 0.1);
  // in the frame where the tilt is about the first axis
  double R[3][3] = {{one, 0, 0}, {0, c, -s}, {0, s, c}}, o[3] = {cx, d + 4 * c * a[1], 4 * s * a[1]}, t[3], K[3][3] = {{f0, sk, p0}, {0, f1, p1}, {0, 0, -one}}; for (int i = 0; i < 3; i++) t[i] = o[i] - R[i][0] * b[0] - R[i][1] * b[1] - R[i][2] * z0;
  M33 cam; double X[5][3]; for (int k = 0; k < 4; k++) { X[k][0] = a[0] * (k & 1 ? 1 : -1) + b[0]; X[k][1] = a[1] * (k & 2 ? 3 : -3) + b[1]; X[k][2] = z0; } for (int i = 0; i < 3; i++) X[4][i] = any("X"); int n = 4 + extra; if (extra) vp_assume(X[4][2] > z0 + 0.1);
  double noise[2] = {0, 0}; L2 p2; L3 p3; for (int k = 0; k < n; k++) { double q[3], w[3]; for (int i = 0; i < 3; i++) { q[i] = t[i]; for (int j = 0; j < 3; j++) q[i] += R[i][j] * X[k][j]; } for (int i = 0; i < 3; i++) { w[i] = 0; for (int j = 0; j < 3; j++) w[i] += K[i][j] * q[j]; } if (k == 4) vp_assume(w[2] > 0.1); double x = k & 1 ? 1 : -1, y = k & 2 ? 3 : -3; V2 m = k < 4 ? V2(g[0] * 7 * x / (y + 4) + h[0], g[1] * (3 * y + 5) / (y + 4) + h[1]) : V2(w[0] / w[2], w[1] / w[2]); if (k < 4 && !vp_symbolic()) { vp_assert_eq(m(0) * w[2], w[0], "image"); vp_assert_eq(m(1) * w[2], w[1], "image"); } if (k == 4) for (int i = 0; i < 2; i++) { noise[i] = any("noise"); m(i) += noise[i]; } p2.push_back(m); p3.push_back(V3(X[k][0], X[k][1], X[k][2])); }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) cam(i, j) = K[i][j];
  double N[3][3] = {{7 * one / 5, 0, 0}, {0, 4, 3}, {0, 3, 4}}; svdN = 9; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) svdH[3 * i + j] = N[i][j];
  if (swap) { for (int k = 0; k < n; k++) { V2 m = p2[k]; p2[k] = V2(m(1), m(0)); V3 x = p3[k]; p3[k] = V3(x(1), x(0), x(2)); } double S[3][3], T[3]; static const int P[3] = {1, 0, 2}; for (int i = 0; i < 3; i++) { T[i] = t[P[i]]; for (int j = 0; j < 3; j++) S[i][j] = R[P[i]][P[j]]; } for (int i = 0; i < 3; i++) { t[i] = T[i]; for (int j = 0; j < 3; j++) R[i][j] = S[i][j]; } cam(0, 0) = K[1][1]; cam(1, 1) = K[0][0]; cam(0, 1) = cam(1, 0) = 0; cam(0, 2) = K[1][2]; cam(1, 2) = K[0][2]; for (int i = 0; i < 9; i++) svdH[i] = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) svdH[3 * P[i] + P[j]] = N[i][j]; }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) gR[i][j] = R[i][j]; freeSvd();
  if (rotated) { static const int Q[2][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}}; const int* z = Q[vp_choice("frame", 2)]; double B[3][3], S[3][3], o[3]; refRot(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4], B); for (int i = 0; i < 3; i++) o[i] = any("o"); for (int k = 0; k < n; k++) { V3 x = p3[k]; for (int i = 0; i < 3; i++) { p3[k](i) = o[i]; for (int j = 0; j < 3; j++) p3[k](i) += B[i][j] * x(j); } } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { S[i][j] = 0; for (int l = 0; l < 3; l++) S[i][j] += R[i][l] * B[j][l]; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { R[i][j] = S[i][j]; t[i] -= S[i][j] * o[j]; } } svdHn = pos("norm"); svdSign = vp_choice("sign", 2) ? 1 : -1; for (int i = 0; i < 6; i++) { gs6[i] = 7 - i; for (int j = 0; j < 6; j++) gV6[i][j] = i == j; }
  double res; ErrorPose p = pe::computePose(p2, p3, cam, res, false); isPose(p, R, t); vp_assert(res >= 0, "a deviation"); vp_assert_eq(res * res * 2 * n, noise[0] * noise[0] + noise[1] * noise[1], "root mean square reprojection error"); }
VP_CASE(plane_x) { plane(false, 0, 0); }
VP_CASE(plane_y) { plane(true, 0, 0); }
VP_CASE(plane_extra) { plane(false, 0, 1); }
VP_CASE(rotated) { plane(false, 1, 0); }
VP_CASE(rotated_extra) { plane(false, 1, 1); }
VP_CASE(refuse) { int n = vp_choice("n", 4), m = vp_choice("init", 2); M33 K = M33::identity(); L2 a(n, V2(1, 2)); L3 b(n, V3(1, 2, 3)); double r; try { if (vp_choice("overload", 2)) pe::computePose(a, b, K, r, m, m ? pe::NONPLANAR_PROJECTION : pe::PLANAR_HOMOGRAPHY); else pe::computePose(a, b, K, m, m ? pe::NONPLANAR_PROJECTION : pe::PLANAR_HOMOGRAPHY); vp_assert(false, "fewer than four points are refused"); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); } }
VP_CASE(refuse_collinear) { L2 a; L3 b; double f = pos("f"), x = any("x"), y = any("y"), z = any("z"); for (int i = 0; i < 4; i++) { a.push_back(V2(i, i * i)); double s = i < 3 ? i : 5; if (i == 2) s = 1 + f; b.push_back(V3(x + 2 * s, y - s, z + 2 * s)); } M33 K = M33::identity(); try { pe::computePose(a, b, K, false); vp_assert(false, "collinear points are refused"); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); } }
// ---- eight corners (+-1,+-1,+-3) of a box, image (7x/(z+4), 7y/(z+4)) up to scale and offset
VP_CASE(nonplanar) { double one = ONE(), a[3], b[3], g[2], h[2], q[4]; for (int i = 0; i < 3; i++) { a[i] = pos("a"); b[i] = any("b"); } for (int i = 0; i < 2; i++) { g[i] = pos("g"); h[i] = any("h"); } int r = vp_choice("rotation", 4); double sg[3] = {(r & 1 ? -1 : 1) * one, (r & 2 ? -1 : 1) * one, (r == 1 || r == 2 ? -1 : 1) * one}, k2 = (vp_choice("k", 2) ? -1 : 1) * one, t[3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) gR[i][j] = i == j ? sg[i] : 0; for (int i = 0; i < 3; i++) t[i] = sg[i] * ((i == 2 ? 4 * a[2] : 0) - b[i]);
  M33 K = M33::zeros(); for (int i = 0; i < 2; i++) { K(i, i) = 7 * g[i] * k2 * sg[2] * sg[i] * a[2] / a[i]; K(i, 2) = k2 * h[i]; } K(2, 2) = k2;
  L2 x; L3 X; for (int k = 0; k < 8; k++) { double p[3] = {(k & 1 ? 1 : -1) * one, (k & 2 ? 1 : -1) * one, (k & 4 ? 3 : -3) * one}; X.push_back(V3(a[0] * p[0] + b[0], a[1] * p[1] + b[1], a[2] * p[2] + b[2])); x.push_back(V2(g[0] * 7 * p[0] / (p[2] + 4) + h[0], g[1] * 7 * p[1] / (p[2] + 4) + h[1])); }
  svdN = 12; for (int i = 0; i < 12; i++) svdH[i] = 0; svdH[0] = 7 * one / 5; svdH[5] = 7 * one / 5; svdH[10] = 3; svdH[11] = 4; svdHn = one * 0.5; svdSign = vp_choice("sign", 2) ? 1 : -1; vp_unit(q, 4, "svd"); vp_assume(q[0] >= -1); refRot(q[0], q[1], q[2], q[3], gU); if (vp_choice("flip", 2)) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) gU[i][j] = -gU[i][j]; for (int i = 0; i < 6; i++) { gs6[i] = 7 - i; for (int j = 0; j < 6; j++) gV6[i][j] = i == j; }
  double res; ErrorPose p = pe::computePose(x, X, K, res, false, pe::NONPLANAR_PROJECTION); isPose(p, gR, t); vp_tol(1e-5); vp_assert_eq(res, 0, "no reprojection error"); }
// ---- covariance of a pose: image error times the inverse of J^T J, with J = W diag(s) V^T
template <class T> static void covariance(bool multi) { double one = ONE(); static const int Q[3][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}, {0, 0, 0, 1, 1}}; const int* z = Q[vp_choice("rotation", 3)]; Quaternion q(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4]); double R[3][3]; refRot(q, R); V3 t(any("t"), any("t"), any("t")); Pose p(q, t); std::vector<Vector<T, 3> > X; X.push_back(Vector<T, 3>(1, 2, 0)); X.push_back(Vector<T, 3>(-1, 1, 2)); X.push_back(Vector<T, 3>(0, -2, 1)); X.push_back(Vector<T, 3>(2, 0, -1)); double err = pos("error");
  for (int i = 0; i < 6; i++) gs6[i] = pos("s"); for (int i = 0; i + 1 < 6; i++) vp_assume(gs6[i] >= gs6[i + 1]); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) gV6[i][j] = any("V");
  double f = pos("f"), u = any("u"), v = any("v"); std::vector<std::pair<size_t, size_t> > vis; std::vector<Matrix<T, 3, 4> > P(2); Matrix<T, 3, 3> K = Matrix<T, 3, 3>::zeros(); K(0, 0) = f; K(0, 1) = 0.5; K(0, 2) = u; K(1, 1) = 2; K(1, 2) = v; K(2, 2) = -1;
  for (int c = 0; c < 2; c++) for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) P[c](i, j) = j == 3 ? (c ? 3 * i - 2 : 0) : c && i < 2 ? K(1 - i, j) : (double)K(i, j); int n = 4; if (multi) { static const int O[5][2] = {{3, 0}, {1, 1}, {0, 0}, {2, 1}, {3, 1}}; n = 5; for (int i = 0; i < n; i++) vis.push_back(std::make_pair((size_t)O[i][0], (size_t)O[i][1])); }
  gn = n; for (int k = 0; k < n; k++) { int pi = multi ? (int)vis[k].first : k; const Matrix<T, 3, 4>& C = P[multi ? (int)vis[k].second : 0]; double x[3], w[3], r[3]; for (int i = 0; i < 3; i++) { r[i] = 0; for (int j = 0; j < 3; j++) r[i] += R[i][j] * X[pi](j); x[i] = r[i] + t(i); } for (int i = 0; i < 3; i++) { w[i] = C(i, 3); for (int j = 0; j < 3; j++) w[i] += C(i, j) * x[j]; } vp_assume(w[2] > 0.1 || w[2] < -0.1);
    for (int i = 0; i < 2; i++) { double d[3]; for (int j = 0; j < 3; j++) { d[j] = (C(i, j) - C(2, j) * w[i] / w[2]) / w[2]; gJ[2 * k + i][j] = d[j]; } for (int j = 0; j < 3; j++) { double e[3] = {0, 0, 0}, g = 0; /* d(R e p e'): 2 R (unit j x p) */ e[(j + 1) % 3] = -2 * (double)X[pi]((j + 2) % 3); e[(j + 2) % 3] = 2 * (double)X[pi]((j + 1) % 3); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) g += d[a] * R[a][b] * e[b]; gJ[2 * k + i][3 + j] = g; } } }
  Matrix<T, 6, 6> C = multi ? pe::multipleCameraPoseError(p, X, P, vis, (T)err) : pe::singleCameraPoseError(p, X, K, (T)err);
  if (vp_symbolic()) { for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { double c = 0; for (int k = 0; k < 6; k++) c += err * gV6[k][i] * gV6[k][j] / (gs6[k] * gs6[k]); vp_assert_eq(C(i, j), c, "covariance"); } return; }
  double A[6][6], m = 0, mc = 0; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { A[i][j] = 0; for (int k = 0; k < 2 * n; k++) A[i][j] += gJ[k][i] * gJ[k][j]; m = std::max(m, fabs(A[i][j])); mc = std::max(mc, fabs((double)C(i, j))); } if (m * mc > err * (sizeof(T) == 4 ? 1e3 : 1e6)) return;
  vp_tol(sizeof(T) == 4 ? 0.05 : 1e-4); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { double c = 0; for (int k = 0; k < 6; k++) c += C(i, k) * A[k][j]; vp_assert_eq(c / err, i == j, "covariance"); } }
VP_CASE(covariance_single) { covariance<double>(false); }
VP_CASE(covariance_multi) { covariance<double>(true); }
VP_CASE(covariance_single_f) { covariance<float>(false); }
VP_CASE(covariance_multi_f) { covariance<float>(true); }

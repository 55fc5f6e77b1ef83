//@ property P17
//@ sources utAlgorithm/Homography.cpp utAlgorithm/FundamentalMatrix.cpp utAlgorithm/3DPointReconstruction.cpp utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds square homography for every homography; general homography for a quadrangle of every size, position and image scale and offset; eight-point algorithm for eight (sixteen with a step of two) point pairs of every position, rotation and scale in both images; fundamental matrix from poses for three orientations, every axis-aligned position and every focal length of the first and every pose and intrinsic matrix of the second camera; relative pose for six camera pairs and every scale and every singular value decomposition of the essential matrix; triangulation for every pair of projections and every point, and three views
//@ assume exact real arithmetic: rounding is not modelled
//@ assume LAPACK gesvd returns any singular value decomposition of its argument
#include "hmath.h"
#define SVD_CUSTOM
#include "svdnull.h"
#include <utUtil/Exception.h>
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/3DPointReconstruction.h>
#include <vector>
using namespace Math; namespace A = Algorithm;
// singular value decompositions other than null spaces: U diag(s) V^T is known to the harness
static double gU[3][3], gs[3], gV[4][4]; static int gM = 0, gN = 0, gCof = 0, gPts = 0; static double gX[4][3];
#ifndef VP_NATIVE
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } int M = *m, N = *n;
  if (gM && M == gM && N == gN) { int k = M < N ? M : N; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double t = 0; for (int l = 0; l < k; l++) t += gU[i][l] * gs[l] * gV[j][l]; vp_assert_eq(a[i + j * *lda], t, "decomposition of the right matrix"); }
    for (int l = 0; l < k; l++) s[l] = gs[l]; int uc = *ju == 'A' ? M : *ju == 'S' ? k : 0, vr = *jv == 'A' ? N : *jv == 'S' ? k : 0; for (int i = 0; i < M; i++) for (int j = 0; j < uc; j++) u[i + j * *ldu] = gU[i][j]; for (int i = 0; i < vr; i++) for (int j = 0; j < N; j++) vt[i + j * *ldvt] = gV[j][i]; return; }
  if (gCof && M == 4 && N == 4) { double w[4][4]; svdN = 4; for (int skip = 3; skip >= 0; skip--) { int r = 0; for (int i = 0; i < 4; i++) if (i != skip) { for (int j = 0; j < 4; j++) w[r][j] = a[i + j * *lda]; r++; } bool nz = false; for (int j = 0; j < 4; j++) { int c[3], q = 0; for (int k = 0; k < 4; k++) if (k != j) c[q++] = k; double d = w[0][c[0]] * (w[1][c[1]] * w[2][c[2]] - w[1][c[2]] * w[2][c[1]]) - w[0][c[1]] * (w[1][c[0]] * w[2][c[2]] - w[1][c[2]] * w[2][c[0]]) + w[0][c[2]] * (w[1][c[0]] * w[2][c[1]] - w[1][c[1]] * w[2][c[0]]); svdH[j] = j & 1 ? -d : d; if (d != 0) nz = true; } if (nz) break; } }
  if (gPts && N == 4) { for (int i = 0; i < 3; i++) svdH[i] = gX[svdCalls < gPts ? svdCalls : 0][i]; svdH[3] = 1; svdN = 4; }
  svdNull(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info); }
#endif
static double arb(const char* n) { double h = vp_real(n); vp_assume(h > 0.1); vp_assume(h < 10); return h; }
// ---- homographies
static void square(bool rank) { double h[3][3], one = (double)(vp_symbolic() | 1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { static const int C[9] = {3, 1, 5, -1, 2, 4, 1, -1, 3}; h[i][j] = rank ? C[3 * i + j] * one : vp_real("h"); } static const double X[4] = {-0.5, -0.5, 0.5, 0.5}, Y[4] = {0.5, -0.5, -0.5, 0.5}; std::vector<V2> c; for (int k = 0; k < 4; k++) { double w = h[2][0] * X[k] + h[2][1] * Y[k] + h[2][2]; vp_assume(w != 0); c.push_back(V2((h[0][0] * X[k] + h[0][1] * Y[k] + h[0][2]) / w, (h[1][0] * X[k] + h[1][1] * Y[k] + h[1][2]) / w)); } double det = h[0][0] * (h[1][1] * h[2][2] - h[1][2] * h[2][1]) - h[0][1] * (h[1][0] * h[2][2] - h[1][2] * h[2][0]) + h[0][2] * (h[1][0] * h[2][1] - h[1][1] * h[2][0]); vp_assume(det != 0);
  svdN = 3; svdH[0] = h[2][0] / 2; svdH[1] = h[2][1] / 2; svdH[2] = h[2][2]; svdHn = arb("norm"); svdSign = vp_choice("sign", 2) ? 1 : -1; svdRank = rank; M33 H = A::squareHomography(c); if (vp_symbolic()) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(H(i, j) * svdHn, svdSign * h[i][j], "homography of the square"); else for (int k = 0; k < 9; k++) for (int l = 0; l < 9; l++) vp_assert_eq(H(k / 3, k % 3) * h[l / 3][l % 3], H(l / 3, l % 3) * h[k / 3][k % 3], "homography of the square"); }
VP_CASE(square_homography) { square(false); }
VP_CASE(square_homography_rank) { square(true); }
// corners (+-1,+-3): x' = 7x/(y+4), y' = (3y+5)/(y+4) have mean (0,-1) and deviation (5,3); both images in arbitrary units
static void homography(bool swap, bool more) { double one = (double)(vp_symbolic() | 1), a[2], b[2], s[2], t[2]; for (int i = 0; i < 2; i++) { a[i] = arb("a"); b[i] = vp_real("b"); s[i] = arb("s"); t[i] = vp_real("t"); } std::vector<V2> f, g; for (int r = 0; r < (more ? 2 : 1); r++) for (int k = 0; k < 4; k++) { double p[2] = {(k & 1 ? 1 : -1) * one, (k & 2 ? 3 : -3) * one}, w = p[1] + 4, q[2] = {7 * p[0] / w, (3 * p[1] + 5) / w}; int x = swap, y = !swap; V2 P, Q; P(x) = a[0] * p[0] + b[0]; P(y) = a[1] * p[1] + b[1]; Q(x) = s[0] * q[0] + t[0]; Q(y) = s[1] * q[1] + t[1]; f.push_back(P); g.push_back(Q); }
  // in normalised coordinates p = (x, 3y), q = (5x', 3y'-1): 5x' (3y+4) = 7x, (3y'-1)(3y+4) = 9y+5
  double n[3][3] = {{7 * one / 5, 0, 0}, {0, 4, 3}, {0, 3, 4}}; svdN = 9; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int ii = i < 2 && swap ? 1 - i : i, jj = j < 2 && swap ? 1 - j : j; svdH[3 * ii + jj] = n[i][j]; } svdHn = arb("norm"); svdSign = vp_choice("sign", 2) ? 1 : -1;
  M33 H = A::homographyDLT(f, g); bool nz = false; for (int k = 0; k < 4; k++) { double h[3]; for (int i = 0; i < 3; i++) h[i] = H(i, 0) * f[k](0) + H(i, 1) * f[k](1) + H(i, 2); vp_assert(h[2] != 0, "points are not mapped to infinity"); for (int i = 0; i < 2; i++) vp_assert_eq(h[i], g[k](i) * h[2], "homography maps the points to their images"); } (void)nz; }
VP_CASE(homography) { homography(false, false); }
VP_CASE(homography_swapped) { homography(true, false); }
VP_CASE(homography_8) { homography(false, true); }
// ---- fundamental matrices
static const int F8[3][8][4] = {{{-3, -4, 0, -4}, {1, 0, -1, 0}, {12, 9, 0, 9}, {-10, 0, 1, 0}, {-8, 6, 8, 6}, {8, 6, 0, 6}, {0, -6, -8, -6}, {0, -11, 0, -11}}, {{0, -8, 6, -8}, {-9, -12, -5, -12}, {12, 5, -12, 5}, {3, 0, -2, 0}, {2, 0, 10, 0}, {0, 9, -12, 9}, {0, 6, 8, 6}, {-8, 0, 7, 0}}, {{-12, 0, -8, 0}, {6, 8, 0, 8}, {-1, 0, -6, 0}, {3, -4, 3, -4}, {0, -10, 0, -10}, {-11, 0, -1, 0}, {7, 0, 12, 0}, {8, 6, 0, 6}}};
static void eightpoint(int set, int step, bool rank = false) { double one = (double)(vp_symbolic() | 1), c[2][2], a[2], b[2][2]; for (int k = 0; k < 2; k++) if (rank) { c[k][0] = one; c[k][1] = 0; a[k] = one; b[k][0] = k * one; b[k][1] = 3 * one; } else { vp_unit(c[k], 2, "rot"); vp_assume(c[k][0] >= -1); a[k] = arb("scale"); b[k][0] = vp_real("shift"); b[k][1] = vp_real("shift"); } struct L { static V2 at(double x, double y, const double* c, double a, const double* b) { return V2(a * (c[0] * x - c[1] * y) + b[0], a * (c[1] * x + c[0] * y) + b[1]); } };
  std::vector<V2> f, g; double n[2] = {0, 0}; static const int N[3][2] = {{68, 52}, {64, 80}, {66, 56}}; for (int k = 0; k < 2; k++) n[k] = N[set][k] * one / 8; for (int i = 0; i < 8; i++) { const int* p = F8[set][i]; for (int k = 0; k < step; k++) { const int* q = k ? F8[set][(i + 3) % 8] : p; f.push_back(L::at(p[0], p[1], c[0], a[0], b[0])); g.push_back(L::at(q[2], q[3], c[1], a[1], b[1])); } }
  double hn = arb("norm"); svdN = 9; for (int i = 0; i < 9; i++) svdH[i] = 0; svdH[2] = n[1] * c[1][1]; svdH[5] = -n[1] * c[1][0]; svdH[6] = -n[0] * c[0][1]; svdH[7] = n[0] * c[0][0]; svdHn = hn; svdSign = vp_choice("sign", 2) ? 1 : -1; double F[3][3]; for (int i = 0; i < 9; i++) F[i / 3][i % 3] = svdSign * svdH[i] / hn; svdRank = rank;
  gM = gN = 3; double su = vp_choice("U", 2) ? 1 : -1; int big = n[0] > n[1] ? 0 : 1; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) gU[i][j] = gV[i][j] = 0; gs[big] = n[0] / hn; gs[1 - big] = n[1] / hn; gs[2] = 0; gU[2][big] = svdSign; gV[0][big] = -c[0][1]; gV[1][big] = c[0][0]; gU[0][1 - big] = svdSign * c[1][1]; gU[1][1 - big] = -svdSign * c[1][0]; gV[2][1 - big] = 1; gU[0][2] = su * c[1][0]; gU[1][2] = su * c[1][1]; gV[0][2] = c[0][0]; gV[1][2] = c[0][1]; (void)F;
  struct E { static double at(const M33& R, const V2& p, const V2& q) { double e = 0; for (int i = 0; i < 3; i++) e += (i < 2 ? q(i) : 1) * (R(i, 0) * p(0) + R(i, 1) * p(1) + R(i, 2)); return e; } };
  M33 R = step == 1 ? A::getFundamentalMatrix(f, g) : A::getFundamentalMatrix(f, g, step); double x = vp_real("x"), y = vp_real("y"), z = vp_real("z"), d = vp_real("d"), e1 = E::at(R, L::at(1, 2, c[0], a[0], b[0]), L::at(3, 3, c[1], a[1], b[1])); vp_assert(e1 != 0, "points off the epipolar line do not satisfy the constraint"); vp_assert_eq(E::at(R, L::at(x, y, c[0], a[0], b[0]), L::at(z, y + d, c[1], a[1], b[1])), d * e1, "corresponding points satisfy the epipolar constraint");
  double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)); vp_assert_eq(det, 0, "fundamental matrix is singular"); }
VP_CASE(eightpoint_a) { eightpoint(0, 1); }
VP_CASE(eightpoint_b) { eightpoint(1, 1); }
VP_CASE(eightpoint_c) { eightpoint(2, 1); }
VP_CASE(eightpoint_step) { eightpoint(0, 2); }
VP_CASE(eightpoint_rank) { eightpoint(1, 1, true); }
// noisy data: whatever the linear solution is, the returned matrix has rank two
VP_CASE(eightpoint_refuse) { int n = vp_choice("n", 10), m = vp_choice("m", 10), st = vp_choice("step", 2); vp_assume(n < 8 || n != m || !st); std::vector<V2> f(n, V2(1, 2)), g(m, V2(3, 4)); try { A::getFundamentalMatrix(f, g, st); vp_assert(false, "too few or unequal numbers of points are refused"); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); } }
static const int QT[3][5] = {{0, 0, 0, 1, 1}, {2, 4, 5, 6, 9}, {-1, 5, 1, 3, 6}};
// first camera: orientation QT, position along one axis, diagonal intrinsics: K[R|t] has the singular values k_i (n k_axis along the axis)
VP_CASE(from_poses) { double one = (double)(vp_symbolic() | 1), R[3][3], k1[3], t[3], e[2]; const int* z = QT[vp_choice("q", 3)]; int ax = vp_choice("axis", 3); refRot(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4], R); vp_unit(e, 2, "t"); vp_assume(e[0] > 0.01); double nn = 1 / e[0], tt = e[1] / e[0]; for (int i = 0; i < 3; i++) { k1[i] = arb("k"); t[i] = i == ax ? tt : 0; }
  double q2[4], R2[3][3], t2[3], K2[3][3]; vp_unit(q2, 4, "q2"); refRot(q2[0], q2[1], q2[2], q2[3], R2); for (int i = 0; i < 3; i++) { t2[i] = vp_real("t2"); for (int j = 0; j < 3; j++) K2[i][j] = i > j ? 0 : vp_real("K2"); } vp_assume(K2[0][0] != 0); vp_assume(K2[1][1] != 0); vp_assume(K2[2][2] != 0);
  gM = 3; gN = 4; for (int l = 0; l < 3; l++) { gs[l] = l == ax ? k1[l] * nn : k1[l]; for (int i = 0; i < 3; i++) gU[i][l] = i == l ? (l == 2 ? -1 : 1) : 0; for (int j = 0; j < 4; j++) gV[j][l] = (j < 3 ? R[l][j] : t[l]) * (l == ax ? e[0] : one); }
  M33 K, L; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { K(i, j) = i == j ? (i == 2 ? -k1[i] : k1[i]) : 0; L(i, j) = K2[i][j]; }
  M33 F = A::fundamentalMatrixFromPoses(Pose(Quaternion(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4]), V3(t[0], t[1], t[2])), Pose(Quaternion(q2[0], q2[1], q2[2], q2[3]), V3(t2[0], t2[1], t2[2])), K, L);
  double X[3], x[3], y[3]; for (int i = 0; i < 3; i++) X[i] = vp_real("X"); for (int i = 0; i < 3; i++) { double s = t[i]; for (int j = 0; j < 3; j++) s += R[i][j] * X[j]; x[i] = K(i, i) * s; } double c[3]; for (int i = 0; i < 3; i++) { c[i] = t2[i]; for (int j = 0; j < 3; j++) c[i] += R2[i][j] * X[j]; } double s = 0; for (int i = 0; i < 3; i++) { y[i] = 0; for (int j = 0; j < 3; j++) y[i] += K2[i][j] * c[j]; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += y[i] * F(i, j) * x[j]; vp_assert_eq(s, 0, "both images of a point satisfy the epipolar constraint");
  // e2 = image of the first camera's centre is the left null vector, and F is not zero: F x = e2 x (image of the point in the second camera, from the line of sight)
  double C[3], e2[3], g[3]; for (int i = 0; i < 3; i++) { C[i] = 0; for (int j = 0; j < 3; j++) C[i] -= R[j][i] * t[j]; } for (int i = 0; i < 3; i++) { g[i] = t2[i]; for (int j = 0; j < 3; j++) g[i] += R2[i][j] * C[j]; } for (int i = 0; i < 3; i++) { e2[i] = 0; for (int j = 0; j < 3; j++) e2[i] += K2[i][j] * g[j]; } double fx[3]; for (int i = 0; i < 3; i++) { fx[i] = 0; for (int j = 0; j < 3; j++) fx[i] += F(i, j) * x[j]; } for (int i = 0; i < 3; i++) vp_assert_eq(fx[i], e2[(i + 1) % 3] * y[(i + 2) % 3] - e2[(i + 2) % 3] * y[(i + 1) % 3], "epipolar line joins the epipole and the image"); }
VP_CASE(epipolar_distance) { M33 F = inMat<3, 3>("F"); V2 x = inV2("x"), y = inV2("y"); double l[3], e; for (int i = 0; i < 3; i++) l[i] = F(i, 0) * x(0) + F(i, 1) * x(1) + F(i, 2); vp_assume(l[0] * l[0] + l[1] * l[1] > 0.01); e = l[0] * y(0) + l[1] * y(1) + l[2]; double d = l[0] * l[0] + l[1] * l[1]; vp_assert_eq(A::pointToPointDist(x, y, F) * d, e * e, "squared distance to the epipolar line"); vp_assert_eq(A::pointToPointDist(V3(x(0), x(1), 1), V3(y(0), y(1), 1), F) * d, e * e, "squared distance to the epipolar line of homogeneous points"); vp_assert_eq(A::EvaluateFundamentalMatrix<double>()(F, x, y) * d, e * e, "squared distance to the epipolar line for RANSAC"); }
// ---- triangulation
static void proj(const M34& P, const double* X, V2& x) { double h[3]; for (int i = 0; i < 3; i++) { h[i] = P(i, 3); for (int j = 0; j < 3; j++) h[i] += P(i, j) * X[j]; } vp_assume(h[2] != 0); x = V2(h[0] / h[2], h[1] / h[2]); }
static M34 cam(int k) { double one = (double)(vp_symbolic() | 1); static const int C[3][12] = {{2, 0, 1, 3, 0, 3, -1, 1, 1, 0, -2, 9}, {1, 1, 0, -2, -1, 3, 2, 0, 0, 1, 1, 11}, {3, -1, 2, 1, 1, 2, 0, -4, 1, 1, -1, 12}}; M34 P; for (int i = 0; i < 12; i++) P(i / 4, i % 4) = C[k][i] * one; return P; }
// the first view and one row of the second determine the point
static void generic(const M34& P, const M34& Q, const double* X) { V2 x, y; proj(P, X, x); proj(Q, X, y); double a[3][3]; for (int j = 0; j < 3; j++) { a[0][j] = x(0) * P(2, j) - P(0, j); a[1][j] = x(1) * P(2, j) - P(1, j); a[2][j] = y(0) * Q(2, j) - Q(0, j); } double d = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); vp_assume(d > 0.1); }
static void twoview(bool rank) { M34 P = rank ? cam(0) : inMat<3, 4>("P"), Q = rank ? cam(1) : inMat<3, 4>("Q"); for (int i = 0; i < 3; i++) gX[0][i] = rank ? (double)(i + 1) : vp_real("X"); gPts = 1; svdRank = rank; svdHn = arb("norm"); svdSign = vp_choice("sign", 2) ? 1 : -1; V2 x, y; proj(P, gX[0], x); proj(Q, gX[0], y); if (!rank) generic(P, Q, gX[0]); vp_tol(1e-3); V3 r = A::get3DPosition(P, Q, x, y); for (int i = 0; i < 3; i++) vp_assert_eq(r(i), gX[0][i], "triangulated point"); }
VP_CASE(twoview) { twoview(false); }
VP_CASE(twoview_rank) { twoview(true); }
static void multiview(int n, bool rank) { std::vector<M34> P; std::vector<V2> x; for (int i = 0; i < 3; i++) gX[0][i] = rank ? (double)(i + 1) : vp_real("X"); for (int k = 0; k < n; k++) { P.push_back(rank ? cam(k) : inMat<3, 4>("P")); V2 y; proj(P[k], gX[0], y); x.push_back(y); } if (!rank) generic(P[0], P[1], gX[0]); vp_tol(1e-3); gPts = 1; svdRank = rank; svdHn = arb("norm"); svdSign = vp_choice("sign", 2) ? 1 : -1; V3 r = A::get3DPosition(P, x, 0); for (int i = 0; i < 3; i++) vp_assert_eq(r(i), gX[0][i], "triangulated point"); if (n == 2) { svdCalls = 0; V3 q = A::get3DPositionWithResidual(P, x, 0, 0); for (int i = 0; i < 3; i++) vp_assert_eq(q(i), gX[0][i], "triangulated point"); } }
VP_CASE(multiview_2) { multiview(2, false); }
VP_CASE(multiview_3) { multiview(3, false); }
VP_CASE(multiview_2_rank) { multiview(2, true); }
VP_CASE(multiview_3_rank) { multiview(3, true); }
VP_CASE(multiview_refuse) { int n = vp_choice("n", 3), m = vp_choice("m", 4); vp_assume(n != m || n < 2); std::vector<M34> P(n, cam(0)); std::vector<V2> x(m, V2(1, 2)); try { A::get3DPosition(P, x, 0); vp_assert(false, "too few or unequal numbers of views are refused"); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); } }
// two rectified cameras one unit apart; the second list comes in either order
VP_CASE(reconstruct) { double one = (double)(vp_symbolic() | 1); M34 P = M34::zeros(), Q; for (int i = 0; i < 3; i++) P(i, i) = one; Q = P; Q(0, 3) = -one; M33 F = M33::zeros(); F(1, 2) = -one; F(2, 1) = one; std::vector<V2> p(2), q(2); for (int k = 0; k < 2; k++) { for (int i = 0; i < 3; i++) gX[k][i] = vp_real("X"); vp_assume(gX[k][2] > 0.1); V2 x; proj(P, gX[k], x); p[k] = x; } int sw = vp_choice("swap", 2); for (int k = 0; k < 2; k++) { V2 x; proj(Q, gX[k], x); q[sw ? 1 - k : k] = x; } vp_assume(p[0](1) > p[1](1) + 0.1); gPts = 2; svdRank = 0; svdHn = arb("norm"); std::vector<V3> r = A::reconstruct3DPoints(p, q, P, Q, F); vp_assert(r.size() == 2, "every point is reconstructed"); for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) vp_assert_eq(r[k](i), gX[k][i], "matched and triangulated point"); }
// ---- relative pose of two cameras looking along -z
VP_CASE(pose_from_fundamental) { double one = (double)(vp_symbolic() | 1), R[3][3], E[3][3], X[3]; static const int Q[3][5] = {{0, 0, 0, 1, 1}, {1, 2, 2, 4, 5}, {-1, 1, 1, 5, 0}}; static const int T[2][4] = {{1, 2, -2, 3}, {6, -2, 3, 7}}; int qi = vp_choice("q", 2), ti = vp_choice("t", 2); const int* z = Q[qi]; double t[3]; for (int i = 0; i < 3; i++) t[i] = T[ti][i] * one / T[ti][3]; refRot(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4], R);
  static const int XS[2][3] = {{1, 2, -12}, {-2, 9, -7}}; for (int i = 0; i < 3; i++) X[i] = XS[vp_choice("X", 1) + qi][i] * one; double Y[3]; for (int i = 0; i < 3; i++) { Y[i] = t[i]; for (int j = 0; j < 3; j++) Y[i] += R[i][j] * X[j]; } vp_assume(Y[2] < 0); double Tx[3][3] = {{0, -t[2], t[1]}, {t[2], 0, -t[0]}, {-t[1], t[0], 0}}; mul33(Tx, R, E);
  double lam = vp_real("scale"); vp_assume(lam != 0); vp_assume(lam < 10); vp_assume(lam > -10); double sg = lam < 0 ? -1 : 1; double f[2] = {2 * one, 3 * one}; M33 K1, K2, F; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { K1(i, j) = i == j ? (i < 2 ? f[0] : -one) : 0; K2(i, j) = i == j ? (i < 2 ? f[1] : -one) : 0; F(i, j) = lam * E[i][j] / K1(j, j == 0 ? 0 : j) ; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) F(i, j) = lam * E[i][j] / (i < 2 ? f[1] : -one) / (j < 2 ? f[0] : -one);
  // U = [u1 u2 +-t], V = sign R^T [t]x^T u
  static const int B[2][2][4] = {{{2, 1, 2, 3}, {-2, 2, 1, 3}}, {{2, -3, -6, 7}, {3, 6, -2, 7}}}; double cs[2]; vp_unit(cs, 2, "svd"); double s3 = vp_choice("u3", 2) ? 1 : -1, v3 = vp_choice("v3", 2) ? 1 : -1; gM = gN = 3; for (int i = 0; i < 3; i++) { double u = B[ti][0][i] * one / B[ti][0][3], v = B[ti][1][i] * one / B[ti][1][3]; gU[i][0] = cs[0] * u + cs[1] * v; gU[i][1] = -cs[1] * u + cs[0] * v; gU[i][2] = s3 * t[i]; } gs[0] = gs[1] = sg * lam; gs[2] = 0; for (int l = 0; l < 2; l++) for (int j = 0; j < 3; j++) { gV[j][l] = 0; for (int i = 0; i < 3; i++) gV[j][l] += sg * E[i][j] * gU[i][l]; } for (int j = 0; j < 3; j++) { gV[j][2] = 0; for (int i = 0; i < 3; i++) gV[j][2] += v3 * R[i][j] * t[i]; }
  gCof = 1; svdRank = 0; svdHn = arb("norm"); Pose p = A::poseFromFundamentalMatrix(F, V2(f[0] * X[0] / -X[2], f[0] * X[1] / -X[2]), V2(f[1] * Y[0] / -Y[2], f[1] * Y[1] / -Y[2]), K1, K2); double S[3][3]; refRot(p.rotation(), S); for (int i = 0; i < 3; i++) { vp_assert_eq(p.translation()(i), t[i], "direction of the second camera"); for (int j = 0; j < 3; j++) vp_assert_eq(S[i][j], R[i][j], "orientation of the second camera"); } }

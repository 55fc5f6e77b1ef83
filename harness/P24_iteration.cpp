//@ property P24
//@ sources utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds orthogonal iteration: eight points, eight exact views, every scale and position of the object, four intermediate rotations, up to two iterations
//@ assume syev hands out an arbitrary unit vector as the eigenvector of the largest eigenvalue
#include "hmath.h"
#include <vector>
#include <cmath>
#include <limits>
#include <cassert>
#include "ludet.h"
#include <utUtil/Exception.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
using namespace Math; namespace pe = Ubitrack::Algorithm::PoseEstimation2D3D;
enum { N = 8 }; static double pa[N][3], pb[N][3], qa[N][3], top[4], topVal; static int calls, eigInfo;
static double form(const double* v) { double w = v[0], x = v[1], y = v[2], z = v[3], s = 0, ca[3], cb[3]; double R[3][3] = {{w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z}}; const double (*p)[3] = calls > 1 ? qa : pa; for (int k = 0; k < 3; k++) { ca[k] = cb[k] = 0; for (int i = 0; i < N; i++) { ca[k] += p[i][k] / N; cb[k] += pb[i][k] / N; } } for (int i = 0; i < N; i++) for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) s += (p[i][r] - ca[r]) * R[r][c] * (pb[i][c] - cb[c]); return s; }
#ifndef VP_NATIVE
template <class T> static void syevT(const char* jobz, const char* uplo, const int* n, T* a, const int* lda, T* w, T* work, const int* lwork, int* info) { *info = 0; if (*lwork == -1) { work[0] = 1; return; } calls++; vp_assert(*n == 4 && (*jobz == 'V' || *jobz == 'v'), "decomposition of a 4x4 matrix"); if (*n != 4) vp_end_path(); bool U = *uplo == 'U' || *uplo == 'u'; double M[4][4];
  for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) M[i][j] = M[j][i] = U ? a[i + j * *lda] : a[j + i * *lda];
  for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) { double ei[4] = {0, 0, 0, 0}, ej[4] = {0, 0, 0, 0}, ij[4] = {0, 0, 0, 0}; ei[i] = ej[j] = 1; ij[i] += 1; ij[j] += 1; double ref = i == j ? form(ei) : (form(ij) - form(ei) - form(ej)) / 2; vp_assert_eq(M[i][j], ref, "decomposition of the least-squares form"); }
  if (eigInfo) { *info = eigInfo; return; } for (int i = 0; i < 4; i++) { a[i + 3 * *lda] = top[i]; for (int j = 0; j < 3; j++) a[i + j * *lda] = vp_real("V"); w[i] = i == 3 ? (T)topVal : (T)vp_real("W"); } }
extern "C" void dsyev_(const char* jobz, const char* uplo, const int* n, double* a, const int* lda, double* w, double* work, const int* lwork, int* info) { syevT(jobz, uplo, n, a, lda, w, work, lwork, info); }
extern "C" void ssyev_(const char* jobz, const char* uplo, const int* n, float* a, const int* lda, float* w, float* work, const int* lwork, int* info) { syevT(jobz, uplo, n, a, lda, w, work, lwork, info); }
#endif
static double ONE() { return (double)(vp_symbolic() | 1); }
static double pos(const char* n) { double h = vp_real(n); vp_assume(h > 0.1); vp_assume(h < 10); return h; }
static double any(const char* n) { double h = vp_real(n); vp_in(h, -10, 10); return h; }
static const int Q[4][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}, {-1, 5, 1, 3, 6}, {1, 1, -1, 1, 2}};
// eight points of a box around its centre, seen exactly: the images do not depend on scale and position
template <class T> struct View { std::vector<Vector<T, 2> > x; std::vector<Vector<T, 3> > X; double R[3][3], t[3], V[N][3][3], s, c[3]; Quaternion q;
  View() { double one = ONE(); const int* z = Q[vp_choice("rotation", 4)]; q = Quaternion(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4]); refRot(q, R); int far = vp_choice("position", 2); double o[3] = {far ? one : -one / 2, far ? -one / 4 : one, far ? 8 * one : 5 * one}; s = pos("scale"); for (int i = 0; i < 3; i++) c[i] = any("centre"); calls = 0;
    for (int k = 0; k < N; k++) { double h = k == 7 ? 0.5 * one : one, b[3] = {(k & 1 ? h : -h), (k & 2 ? h : -h), (k & 4 ? h : -h)}, y[3]; for (int i = 0; i < 3; i++) { y[i] = o[i]; for (int j = 0; j < 3; j++) y[i] += R[i][j] * b[j]; pb[k][i] = s * b[i] + c[i]; } x.push_back(Vector<T, 2>(y[0] / y[2], y[1] / y[2])); X.push_back(Vector<T, 3>(pb[k][0], pb[k][1], pb[k][2])); double p[3] = {y[0] / y[2], y[1] / y[2], one}, d = p[0] * p[0] + p[1] * p[1] + 1; for (int i = 0; i < 3; i++) { pa[k][i] = p[i]; for (int j = 0; j < 3; j++) V[k][i][j] = p[i] * p[j] / d; } }
    for (int i = 0; i < 3; i++) { t[i] = s * o[i]; for (int j = 0; j < 3; j++) t[i] -= R[i][j] * c[j]; } }
  double error(const double A[3][3], const double* u, double* g) { double e = 0; for (int i = 0; i < 3; i++) g[i] = 0; for (int k = 0; k < N; k++) { double y[3]; for (int i = 0; i < 3; i++) { y[i] = u[i]; for (int j = 0; j < 3; j++) y[i] += A[i][j] * pb[k][j]; } for (int i = 0; i < 3; i++) { double d = y[i]; for (int j = 0; j < 3; j++) d -= V[k][i][j] * y[j]; e += d * d; g[i] += d; } } return e; } };
static void isPose(const Pose& p, const double R[3][3], const double* t) { double S[3][3]; refRot(p.rotation(), S); for (int i = 0; i < 3; i++) { vp_assert_eq(p.translation()(i), t[i], "position"); for (int j = 0; j < 3; j++) vp_assert_eq(S[i][j], R[i][j], "orientation"); } }
template <class T> static void exact() { View<T> v; top[0] = v.q.w(); top[1] = v.q.x(); top[2] = v.q.y(); top[3] = v.q.z(); topVal = pos("largest"); for (int k = 0; k < N; k++) for (int i = 0; i < 3; i++) { qa[k][i] = v.t[i]; for (int j = 0; j < 3; j++) qa[k][i] += v.R[i][j] * pb[k][j]; }
  Pose p; size_t it = vp_symbolic() ? 3 : 5000; T e = sizeof(T) == 4 ? 1e-8 : 1e-13; bool ok = pe::estimatePose6D_2D3D(v.x, p, v.X, it, e); vp_tol(sizeof(T) == 4 ? 0.1 : 1e-3); vp_assert(ok, "converges"); isPose(p, v.R, v.t); vp_assert_eq(e, 0, "object space error"); if (vp_symbolic()) vp_assert_eq_u64(it, 1, "iterations"); }
VP_CASE(exact) { exact<double>(); }
// whatever rotation is found: the translation is the best one for it, the error is the remaining object space error
template <class T> static void best(bool twice) { View<T> v; double one = ONE(), u[4]; { const int* z = Q[vp_choice("found", 4)]; int sg = vp_choice("sign", 2) ? 1 : -1; for (int i = 0; i < 4; i++) u[i] = sg * z[i] * one / z[4]; } top[0] = u[3]; top[1] = u[0]; top[2] = u[1]; top[3] = u[2]; topVal = pos("largest"); double A[3][3]; refRot(u[0], u[1], u[2], u[3], A);
  // reference translation: normal equations sum (I - V) (A x + t) = 0 solved by Cramer's rule
  double z[3] = {0, 0, 0}, g[3], M[3][3], b[3], w[3]; v.error(A, z, g); for (int i = 0; i < 3; i++) { b[i] = -g[i]; for (int j = 0; j < 3; j++) { M[i][j] = i == j ? N : 0; for (int k = 0; k < N; k++) M[i][j] -= v.V[k][i][j]; } } double d = M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]); for (int c = 0; c < 3; c++) { double D[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) D[i][j] = j == c ? b[i] : M[i][j]; w[c] = (D[0][0] * (D[1][1] * D[2][2] - D[1][2] * D[2][1]) - D[0][1] * (D[1][0] * D[2][2] - D[1][2] * D[2][0]) + D[0][2] * (D[1][0] * D[2][1] - D[1][1] * D[2][0])) / d; }
  for (int k = 0; k < N; k++) { double y[3]; for (int i = 0; i < 3; i++) { y[i] = w[i]; for (int j = 0; j < 3; j++) y[i] += A[i][j] * pb[k][j]; } for (int i = 0; i < 3; i++) { qa[k][i] = 0; for (int j = 0; j < 3; j++) qa[k][i] += v.V[k][i][j] * y[j]; } }
  Pose p; size_t it = twice ? 2 : 1; T e = twice ? (T)1000 : std::numeric_limits<T>::max(); bool ok = pe::estimatePose6D_2D3D(v.x, p, v.X, it, e); if (!vp_symbolic() && twice && !ok) return; vp_assert(ok, "converges"); vp_assert_eq_u64(it, twice ? 1 : 0, "iterations"); double B[3][3], r[3]; refRot(p.rotation(), B); for (int i = 0; i < 3; i++) r[i] = p.translation()(i); if (vp_symbolic()) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(B[i][j], A[i][j], "rotation found"); }
  vp_tol(sizeof(T) == 4 ? 0.05 : 1e-4); vp_assert_eq(e, v.error(B, r, g), "object space error"); for (int i = 0; i < 3; i++) vp_assert_eq(g[i] / v.s, 0, "best translation"); }
VP_CASE(best_once) { best<double>(false); }
VP_CASE(best_twice) { best<double>(true); }
VP_CASE(not_converged) { View<double> v; top[0] = v.q.w(); top[1] = v.q.x(); top[2] = v.q.y(); top[3] = v.q.z(); topVal = pos("largest"); int fail = vp_choice("fail", 2); if (fail && vp_symbolic()) { if (vp_choice("info", 2)) eigInfo = 1; else topVal = -topVal; } else if (fail) return; Pose p(Quaternion(0.6, 0, 0, 0.8), V3(1, 2, 3)); size_t it = 1; double e = 1e-3; bool ok = pe::estimatePose6D_2D3D(v.x, p, v.X, it, e); vp_assert(!ok, "not converged"); vp_assert_eq_u64(it, fail ? 0 : 1, "iterations"); for (int i = 0; i < 3; i++) vp_assert_eq(p.translation()(i), i + 1, "pose kept"); vp_assert_eq(p.rotation().x(), 0.6, "pose kept"); }

//@ property P23
//@ sources utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds 3 and 4 pairs of poses; dual quaternions: every rotation and translation between hand and eye, arbitrary hand positions, four hand orientations, every sign of the quaternions; Tsai-Lenz: four hand-eye rotations, arbitrary translations and positions; selection: 3 to 5 movements, every random choice
//@ assume exact real arithmetic: rounding is not modelled (selection: bit-exact)
//@ assume gesvd hands out an arbitrary orthonormal basis of the two-dimensional null space, gels the least-squares solution; native replays use LAPACK
//@ case select mode=ieee
//@ case select_signs mode=ieee
//@ case nearest mode=ieee
//@ case growing mode=ieee
#include "hmath.h"
#include <vector>
#include <cmath>
#include <cassert>
#define __H__RANDOM_NUMBERS_H__
namespace Ubitrack { namespace Math { namespace Random {
template <typename T> inline T distribute_uniform(const T a, const T b) { int k = vp_choice("random", (int)(b - a + 1)); return a + k; }
template <> inline double distribute_uniform<double>(const double a, const double b) { int k = vp_choice("random", 5); return a + (b - a) * (k + 0.5) / 5; }
} } }
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.cpp>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utUtil/Exception.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
using namespace Math;
namespace he = Ubitrack::Algorithm::PoseEstimation6D6D;
typedef Vector<double, 6> V6; typedef Vector<double, 8> V8;
static Quaternion gq; static V3 gt;                    // the transformation that is sought
static double gk = 1, gc = 1, gs = 0; static int gsign = 1, parallel = 0, loose = 0, svdCalls = 0;   // gk = 1/sqrt(1+|t|^2/4)
#ifndef VP_NATIVE
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } svdCalls++; int M = *m, N = *n; bool ok = N == 8 && M >= 8 && M % 6 == 0 && (*jv == 'S' || *jv == 'A'); vp_assert(ok, "decomposition of a matrix with eight columns"); if (!ok) vp_end_path();
  double q[4] = {gq.w(), gq.x(), gq.y(), gq.z()}, p[4] = {-(gt(0) * q[1] + gt(1) * q[2] + gt(2) * q[3]) / 2, (q[0] * gt(0) + gt(1) * q[3] - gt(2) * q[2]) / 2, (q[0] * gt(1) + gt(2) * q[1] - gt(0) * q[3]) / 2, (q[0] * gt(2) + gt(0) * q[2] - gt(1) * q[1]) / 2};
  double e[2][8]; for (int j = 0; j < 4; j++) { e[0][j] = q[j] * gk; e[0][4 + j] = p[j] * gk; e[1][j] = 0; e[1][4 + j] = q[j]; }
  for (int k = 0; k < 2; k++) for (int i = 0; i < M; i++) { double t = 0; for (int j = 0; j < 8; j++) t += a[i + j * *lda] * e[k][j]; if (loose) vp_assert((t < 1e-9) & (t > -1e-9), "decomposition of a matrix whose null space is the solution"); else vp_assert_eq(t, 0, "decomposition of a matrix whose null space is the solution"); }
  for (int i = 0; i < 8; i++) s[i] = i < 5 ? 8 - i : i == 5 ? 1 - parallel : 0;
  for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) vt[i + j * *ldvt] = i < 6 ? vp_real("V") : i == 6 ? gc * e[0][j] + gs * e[1][j] : gsign * (gc * e[1][j] - gs * e[0][j]); }
extern "C" void dgels_(const char* trans, const int* m, const int* n, const int* nrhs, double* a, const int* lda, double* b, const int* ldb, double* work, const int* lwork, int* info);
extern "C" void dgetrf_(const int* m, const int* n, double* a, const int* lda, int* ipiv, int* info);
extern "C" void dgetri_(const int* n, double* a, const int* lda, const int* ipiv, double* work, const int* lwork, int* info);
static double fa[64 * 64], fb[64], fw[64];
static void up(const float* a, long n, double* d) { for (long i = 0; i < n; i++) d[i] = a[i]; }
static void down(const double* d, long n, float* a) { for (long i = 0; i < n; i++) a[i] = (float)d[i]; }
extern "C" void sgels_(const char* trans, const int* m, const int* n, const int* nrhs, float* a, const int* lda, float* b, const int* ldb, float* work, const int* lwork, int* info) { *info = 0; if (*lwork == -1) { work[0] = 1; return; } up(a, (long)*lda * *n, fa); up(b, (long)*ldb * *nrhs, fb); int l = 64; dgels_(trans, m, n, nrhs, fa, lda, fb, ldb, fw, &l, info); down(fb, (long)*ldb * *nrhs, b); }
extern "C" void sgetrf_(const int* m, const int* n, float* a, const int* lda, int* ipiv, int* info) { up(a, (long)*lda * *n, fa); dgetrf_(m, n, fa, lda, ipiv, info); down(fa, (long)*lda * *n, a); }
extern "C" void sgetri_(const int* n, float* a, const int* lda, const int* ipiv, float* work, const int* lwork, int* info) { *info = 0; if (*lwork == -1) { work[0] = 1; return; } up(a, (long)*lda * *n, fa); int l = 64; dgetri_(n, fa, lda, ipiv, fw, &l, info); down(fa, (long)*lda * *n, a); }
#endif
static const int Q[5][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}, {-1, 5, 1, 3, 6}, {1, 1, -1, 1, 2}, {0, 0, 0, 1, 1}};
static Quaternion conc(int k) { double one = (double)(vp_symbolic() | 1); return Quaternion(Q[k][0] * one / Q[k][4], Q[k][1] * one / Q[k][4], Q[k][2] * one / Q[k][4], Q[k][3] * one / Q[k][4]); }
static double ab(double x) { return x < 0 ? -x : x; }
static Quaternion neg(const Quaternion& q) { return Quaternion(-q.x(), -q.y(), -q.z(), -q.w()); }
static Pose signedPose(const Pose& p, const char* n) { return vp_choice(n, 2) ? Pose(neg(p.rotation()), p.translation()) : p; }
static void isX(const Pose& p) { double R[3][3], S[3][3]; refRot(p.rotation(), R); refRot(gq, S); eqR(R, S, "rotation between hand and eye"); eqV(p.translation(), gt, 3, "translation between hand and eye"); }
static void someX() { double h[4], u[4], b[2]; vp_unit(h, 4, "rotation"); vp_assume(h[0] >= -1); gq = Quaternion(h[0], h[1], h[2], h[3]); vp_unit(u, 4, "translation"); vp_assume(u[0] > 0.1); gk = u[0]; for (int i = 0; i < 3; i++) gt(i) = 2 * u[1 + i] / u[0]; vp_unit(b, 2, "basis"); gc = b[0]; gs = b[1]; vp_assume(gc != 0); vp_assume(gs != 0); gsign = vp_choice("sign", 2) ? -1 : 1; }
static std::vector<Pose> hands(int n, int sym) { std::vector<Pose> r; for (int i = 0; i < n; i++) { V3 t(1 - i, i * i, 3 * i - 2); for (int k = 0; k < 3; k++) if (sym-- > 0) { t(k) = vp_real("position"); vp_in(t(k), -5, 5); } r.push_back(Pose(conc(i), t)); } return r; }
VP_CASE(dual) { someX(); int n = 3; std::vector<Pose> h = hands(n, 4), e; for (int i = 0; i < n; i++) e.push_back(~h[i] * ~Pose(gq, gt)); vp_tol(1e-5); Pose p; vp_assert(he::estimatePose6D_6D6D(e, p, h), "exact poses are solved"); isX(p); }
VP_CASE(dual_world) { someX(); int n = 4; std::vector<Pose> h = hands(n, 0), e; Pose W(conc(1), inV3("world")); for (int i = 0; i < 3; i++) vp_in(W.translation()(i), -5, 5); for (int i = 0; i < n; i++) e.push_back(W * ~h[i] * ~Pose(gq, gt)); vp_tol(1e-5); Pose p; vp_assert(he::estimatePose6D_6D6D(e, p, h), "exact poses are solved"); isX(p); }
VP_CASE(dual_signs) { someX(); int n = 3; std::vector<Pose> h = hands(n, 1), e; for (int i = 0; i < n; i++) { e.push_back(signedPose(~h[i] * ~Pose(gq, gt), "eye")); h[i] = signedPose(h[i], "hand"); } vp_tol(1e-5); Pose p; vp_assert(he::estimatePose6D_6D6D(e, p, h), "exact poses are solved"); isX(p); }
VP_CASE(dual_relative) { someX(); int n = 3; std::vector<Pose> h = hands(n, 2), e; for (int i = 0; i < n; i++) e.push_back(signedPose(~h[i] * ~Pose(gq, gt), "eye")); std::vector<V8> a, b; he::generate_relative_6DPoses(e, a, true); he::generate_relative_6DPoses(h, b, false); vp_tol(1e-5); Pose p; vp_assert(he::estimatePose6D_6D6D(a, p, b), "exact poses are solved"); isX(p); }
// movements about one axis only do not determine the transformation
VP_CASE(dual_parallel) { someX(); parallel = 1; double one = (double)(vp_symbolic() | 1); std::vector<Pose> h, e; for (int i = 0; i < 4; i++) { static const int A[4][3] = {{0, 1, 1}, {3, 4, 5}, {4, 3, 5}, {5, 12, 13}}; V3 t = inV3("position"); for (int k = 0; k < 3; k++) vp_in(t(k), -5, 5); h.push_back(Pose(Quaternion(0, 0, A[i][0] * one / A[i][2], A[i][1] * one / A[i][2]), t)); e.push_back(~h[i] * ~Pose(gq, gt)); } Pose p; vp_assert(!he::estimatePose6D_6D6D(e, p, h), "movements about parallel axes are refused"); }
VP_CASE(incremental) { someX(); std::vector<Pose> h = hands(4, 1), e, h1, e1; for (int i = 0; i < 4; i++) e.push_back(Pose(gq, gt) * ~h[i]); he::HandEyeCalibration<double> c; vp_tol(1e-5); for (int n = 2; n <= 4; n++) { h1.assign(h.begin(), h.begin() + n); e1.assign(e.begin(), e.begin() + n); Pose p; bool ok = c.estimatePose6D(e1, p, h1); vp_assert(ok == (n > 2), "three exact poses are solved"); if (ok) isX(p); } h1.pop_back(); Pose p; vp_assert(!c.estimatePose6D(e1, p, h1), "unequal numbers of poses are refused"); }
// as many poses as are needed to select among the movements
VP_CASE(growing) { loose = 1; gc = 0.6; gs = 0.8; gq = Quaternion(0.5, -0.5, 0.5, 0.5); gt = V3(1, -2, 2); gk = 1 / std::sqrt(1 + 9 / 4.0); std::vector<Pose> h, e; he::HandEyeCalibration<double> c; for (int i = 0; i < 7; i++) { Quaternion q(sin(1.3 * i), cos(2.1 * i), sin(1.0 * i * i), 1 - 0.3 * i); q.normalize(); h.push_back(Pose(q, V3(i, i * i % 5 - 1, 2 - i))); e.push_back(Pose(gq, gt) * ~h[i]); if (i == 2 || i == 4 || i == 6) { Pose p; vp_assert(c.estimatePose6D(e, p, h), "exact poses are solved"); double R[3][3], S[3][3]; refRot(p.rotation(), R); refRot(gq, S); for (int a = 0; a < 3; a++) { vp_assert(ab(p.translation()(a) - gt(a)) < 1e-6, "translation between hand and eye"); for (int b = 0; b < 3; b++) vp_assert(ab(R[a][b] - S[a][b]) < 1e-6, "rotation between hand and eye"); } } } }
// ---- Tsai and Lenz ----------------------------------------------------------------------------------------
static std::vector<Pose> eyes(const std::vector<Pose>& h, const Pose& W) { std::vector<Pose> e; Pose X(gq, gt); for (std::size_t i = 0; i < h.size(); i++) e.push_back(~X * ~h[i] * W); return e; }
static void tsaiX(int k) { gq = conc(k); gt = inV3("translation"); for (int i = 0; i < 3; i++) vp_in(gt(i), -5, 5); }
VP_CASE(tsai) { tsaiX(vp_choice("rotation", 5)); int n = 3 + vp_choice("n", 2); bool all = vp_choice("all", 2); std::vector<Pose> h = hands(n, 4), e = eyes(h, Pose(conc(1), V3(3, 1, 2))); vp_tol(1e-5); for (int i = 0; i < n; i++) { e[i] = signedPose(e[i], "eye"); } isX(he::performHandEyeCalibration(h, e, all)); }
// big movements whose quaternion is dominated by x, y and z
VP_CASE(tsai_big) { tsaiX(vp_choice("rotation", 5)); double one = (double)(vp_symbolic() | 1); static const int B[4][5] = {{0, 0, 0, 1, 1}, {6, 2, 4, 5, 9}, {-1, 5, 1, 3, 6}, {2, -1, 4, 2, 5}}; std::vector<Pose> h; for (int i = 0; i < 4; i++) { int k = (i + vp_choice("order", i ? 1 : 2)) % 4; V3 t(i, vp_real("position"), -1); vp_in(t(1), -5, 5); h.push_back(Pose(Quaternion(B[k][0] * one / B[k][4], B[k][1] * one / B[k][4], B[k][2] * one / B[k][4], B[k][3] * one / B[k][4]), t)); } std::vector<Pose> e = eyes(h, Pose(conc(4), V3(3, 1, 2))); vp_tol(1e-5); isX(he::performHandEyeCalibration(h, e, vp_choice("all", 2))); }
template <class T> static void tsaiM() { tsaiX(vp_choice("rotation", 5)); int n = 3; bool all = vp_choice("all", 2); std::vector<Pose> h = hands(n, 2), e = eyes(h, Pose(conc(4), V3(1, 1, 2))); std::vector<Matrix<T, 4, 4> > hm, em; for (int i = 0; i < n; i++) { Matrix<T, 4, 4> a, b; double R[3][3], S[3][3]; refRot(h[i].rotation(), R); refRot(e[i].rotation(), S); for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) { a(r, c) = r == 3 ? c == 3 : c == 3 ? h[i].translation()(r) : R[r][c]; b(r, c) = r == 3 ? c == 3 : c == 3 ? e[i].translation()(r) : S[r][c]; } hm.push_back(a); em.push_back(b); } vp_tol(sizeof(T) == 4 ? 1e-2 : 1e-5); isX(he::performHandEyeCalibration(hm, em, all)); }
VP_CASE(tsai_matrix) { tsaiM<double>(); }
VP_CASE(tsai_float) { tsaiM<float>(); }
VP_CASE(tsai_sizes) { std::vector<Pose> h = hands(3, 0), e = hands(4, 0); try { he::performHandEyeCalibration(h, e, vp_choice("all", 2)); } catch (const Ubitrack::Util::Exception&) { vp_reach("refused"); vp_end_path(); return; } vp_assert(0, "unequal numbers of poses are refused"); }
// ---- relative poses ---------------------------------------------------------------------------------------
static void refMul(const double A[3][3], const double a[3], const double B[3][3], const double b[3], double C[3][3], double c[3]) { mul33(A, B, C); for (int i = 0; i < 3; i++) { c[i] = a[i]; for (int k = 0; k < 3; k++) c[i] += A[i][k] * b[k]; } }
static void refInv(const double A[3][3], const double a[3], double C[3][3], double c[3]) { for (int i = 0; i < 3; i++) { c[i] = 0; for (int k = 0; k < 3; k++) { C[i][k] = A[k][i]; c[i] -= A[k][i] * a[k]; } } }
static void refRel(const Pose& p1, const Pose& p2, bool forward, double R[3][3], double t[3]) { double A[3][3], B[3][3], C[3][3], a[3], b[3], c[3]; for (int i = 0; i < 3; i++) { a[i] = p1.translation()(i); b[i] = p2.translation()(i); } refRot(p1.rotation(), A); refRot(p2.rotation(), B); if (forward) { refInv(B, b, C, c); refMul(C, c, A, a, R, t); } else { refInv(A, a, C, c); refMul(B, b, C, c, R, t); } }
// rotation and translation of a dual quaternion (w first)
static void isDual(const V8& d, const double R[3][3], const double t[3], const char* l) { double S[3][3], n = 0, m = 0; for (int i = 0; i < 4; i++) { n += d(i) * d(i); m += d(i) * d(4 + i); } vp_assert_eq(n, 1, "unit dual quaternion"); vp_assert_eq(m, 0, "unit dual quaternion"); refRot(d(1), d(2), d(3), d(0), S); eqR(S, R, l); double w = d(0), x = d(1), y = d(2), z = d(3), W = d(4), X = d(5), Y = d(6), Z = d(7); vp_assert_eq(2 * (-W * x + X * w - Y * z + Z * y), t[0], l); vp_assert_eq(2 * (-W * y + X * z + Y * w - Z * x), t[1], l); vp_assert_eq(2 * (-W * z - X * y + Y * x + Z * w), t[2], l); }
VP_CASE(relative) { std::vector<Pose> p; double h[4]; vp_unit(h, 4, "rotation"); vp_assume(h[0] >= -1); for (int i = 0; i < 4; i++) p.push_back(Pose(i == 1 ? Quaternion(h[0], h[1], h[2], h[3]) : conc(i), inV3("position"))); bool f = vp_choice("forward", 2); std::vector<V8> r; he::generate_relative_6DPoses(p, r, f); vp_assert(r.size() == 6, "all pairs of poses"); std::size_t k = 0; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++, k++) { double R[3][3], t[3]; refRel(p[j], p[i], f, R, t); isDual(r[k], R, t, "relative pose"); Pose q = pose_cast<Pose>()(r[k]); double S[3][3]; refRot(q.rotation(), S); eqR(S, R, "pose of a dual quaternion"); for (int a = 0; a < 3; a++) vp_assert_eq(q.translation()(a), t[a], "pose of a dual quaternion"); } }
VP_CASE(casts) { double h[4]; vp_unit(h, 4, "rotation"); vp_assume(h[3] > -0.99); vp_assume(h[3] < 0.99); Pose p(Quaternion(h[0], h[1], h[2], h[3]), inV3("position")); double R[3][3], S[3][3]; refRot(p.rotation(), R); V6 v = vp_choice("from", 2) ? pose_cast<V6>()(pose_cast<V8>()(p)) : pose_cast<V6>()(p); Pose q = pose_cast<Pose>()(v); refRot(q.rotation(), S); eqR(S, R, "pose of a rotation vector"); eqV(q.translation(), p.translation(), 3, "pose of a rotation vector"); }
VP_CASE(hemisphere) { V3 u = inUnit3("axis"); vp_assume(u(0) >= -1); double a = vp_real("angle"), pi = 3.1415926535897932384626433832795; vp_in(a, 0, 2 * pi); V6 v; for (int i = 0; i < 3; i++) { v(i) = u(i) * a; v(3 + i) = vp_real("position"); } V6 r = hemisphere_alignment<V6, true>()(v); double b = a > pi ? a - 2 * pi : a; for (int i = 0; i < 3; i++) { vp_assert_eq(r(i), u(i) * b, "the same rotation by at most a half turn"); vp_assert_eq(r(3 + i), v(3 + i), "translation is kept"); } }
VP_CASE(rotdistance) { V6 a = inVec<6>("a"), b = inVec<6>("b"); double s = 0; for (int i = 0; i < 3; i++) s += (a(i) - b(i)) * (a(i) - b(i)); double d = RotationDistance<V6>()(a, b); vp_assert(d >= 0, "a distance"); vp_assert_eq(d * d, s, "distance of the rotation vectors"); }
// ---- selection --------------------------------------------------------------------------------------------
static const double SA[4] = {0.3, -0.7, 1.1, 2.5};
static void selectT(bool signs) { std::vector<Pose> e, h, eo, ho; gq = Quaternion(0.5, 0.5, 0.5, 0.5); gt = V3(1, 2, 3); for (int i = 0; i < 4; i++) { double x = i - 1.5; Quaternion q(i == 1 ? sin(SA[i]) : 0, i == 2 ? sin(SA[i]) : 0, i == 3 ? sin(SA[i]) : i == 0 ? sin(SA[i]) : 0, cos(SA[i])); e.push_back(Pose(q, V3(x, 1, i))); Pose hp = ~(Pose(gq, gt)) * ~e[i]; h.push_back(hp); if (signs && i == 0) e[i] = signedPose(e[i], "eye"); if (signs && i == 1) h[i] = signedPose(h[i], "hand"); }
  int sel = 1 + vp_choice("select", 5); he::select_6DPoses(e, h, sel, eo, ho); vp_assert(eo.size() == ho.size(), "selected pairs"); vp_assert((int)eo.size() == (sel < 3 ? sel : 3), "number of selected pairs");
  for (std::size_t s = 0; s < eo.size() && s < ho.size(); s++) { int found = 0; double A[3][3], B[3][3]; refRot(eo[s].rotation(), A); refRot(ho[s].rotation(), B);
    for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { Pose re = ~e[i] * e[j], rh = h[i] * ~h[j]; double R[3][3], S[3][3]; refRot(re.rotation(), R); refRot(rh.rotation(), S); int same = 1; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (!(ab(R[a][b] - A[a][b]) < 1e-9) || !(ab(S[a][b] - B[a][b]) < 1e-9)) same = 0; if (same) { found++; for (int a = 0; a < 3; a++) { vp_assert(ab(eo[s].translation()(a) - re.translation()(a)) < 1e-9, "position of a selected eye movement"); vp_assert(ab(ho[s].translation()(a) - rh.translation()(a)) < 1e-9, "position of a selected hand movement"); } } }
    vp_assert(found > 0, "selected movements of eye and hand belong together"); } }
VP_CASE(select) { selectT(false); }
VP_CASE(select_signs) { selectT(true); }
VP_CASE(nearest) { std::vector<Pose> r; static const double W[5] = {0.2, 0.35, 1.3, 1.45, 0.9}; int first = vp_choice("rotate", 5); for (int i = 0; i < 5; i++) { double a = W[(i + first) % 5] / 2; r.push_back(Pose(Quaternion(sin(a), 0, 0, cos(a)), V3(i, vp_bits64("position"), 1))); } int k = 1 + vp_choice("clusters", 3); he::DataSelection<double> d; d.resetComparisonPoses(k, r); vp_assert((int)d.indexList.size() == k && (int)d.clusterPoseList.size() == k, "one movement for each cluster");
  for (int c = 0; c < k; c++) { double m = d.clusterPoseList[c](0); std::size_t ix = d.indexList[c]; vp_assert(ix < 5, "index of a movement"); double got = ab(W[(ix + first) % 5] - m); for (int i = 0; i < 5; i++) { double o = ab(W[(i + first) % 5] - m); int own = 1; for (int b = 0; b < k; b++) if (ab(W[(i + first) % 5] - d.clusterPoseList[b](0)) < o - 1e-12) own = 0; if (own) vp_assert(got <= o + 1e-9, "the movement nearest to the centre of its cluster"); } }
  std::vector<Pose> s; d.getSelection(r, std::back_inserter(s)); vp_assert((int)s.size() == k, "number of selected movements"); for (int c = 0; c < k; c++) for (int a = 0; a < 3; a++) vp_assert_same(s[c].translation()(a), r[d.indexList[c]].translation()(a), "the selected movement"); }

//@ property P24
//@ sources utAlgorithm/MultipleCameraPoseOptimization.cpp utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp utAlgorithm/Homography.cpp utAlgorithm/Projection.cpp utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds several cameras: one to three cameras, four points, every choice of observed points, exact images
//@ assume LAPACK posv solves a system with a zero right-hand side by zero
#include "hmath.h"
#define SVD_CUSTOM
#include "svdnull.h"
#include "ludet.h"
#include <utUtil/Exception.h>
#include <utMath/ErrorPose.h>
#include <utMath/Scalar.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <vector>
using namespace Math; namespace al = Ubitrack::Algorithm;
typedef std::vector<V2> L2; typedef std::vector<V3> L3; typedef std::vector<Scalar<double> > LS;
static double gR[3][3]; static bool gAnyRhs;
#ifndef VP_NATIVE
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) { *info = 0; if (*lwork == -1) { work[0] = 1; return; }
  if (*n == 2) { double l = 0; for (int i = 0; i < 3; i++) l += a[i] * gR[i][0]; vp_assert(l > 0, "decomposition of positively scaled columns"); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) vp_assert_eq(a[i + j * *lda], l * gR[i][j], "decomposition of the first two columns of the rotation"); s[0] = s[1] = l; vt[0] = vt[1 + *ldvt] = 1; vt[1] = vt[*ldvt] = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) u[i + j * *ldu] = gR[i][j]; return; }
  if (*n == 6) { for (int i = 0; i < 6; i++) { s[i] = 1; for (int j = 0; j < 6; j++) a[i + j * *lda] = i == j; } return; }
  svdNull(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info); }
extern "C" void dposv_(const char*, const int* n, const int*, double*, const int*, double* b, const int*, int* info) { *info = 0; for (int i = 0; i < *n; i++) { if (!gAnyRhs) vp_assert_eq(b[i], 0, "decomposition: no step from the exact pose"); b[i] = 0; } }
#endif
static double ONE() { return (double)(vp_symbolic() | 1); }
static double pos(const char* n) { double h = vp_real(n); vp_assume(h > 0.1); vp_assume(h < 10); return h; }
static double any(const char* n) { double h = vp_real(n); vp_in(h, -10, 10); return h; }
static Quaternion quat(int k) { double one = ONE(); static const int Q[5][5] = {{2, 4, 5, 6, 9}, {1, -2, 2, 4, 5}, {-1, 5, 1, 3, 6}, {1, 1, 1, 1, 2}, {0, 0, 0, 1, 1}}; const int* z = Q[k]; return Quaternion(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4]); }
struct Setup { L3 X; std::vector<L2> x; std::vector<LS> w; std::vector<Pose> cam; std::vector<M33> K; };
static V2 image(const M33& K, const Pose& cam, const Pose& p, const V3& X, bool check = true) { double R[3][3], S[3][3], y[3], z[3], w[3]; refRot(p.rotation(), R); refRot(cam.rotation(), S); for (int i = 0; i < 3; i++) { y[i] = p.translation()(i); for (int j = 0; j < 3; j++) y[i] += R[i][j] * X(j); } for (int i = 0; i < 3; i++) { z[i] = cam.translation()(i); for (int j = 0; j < 3; j++) z[i] += S[i][j] * y[j]; } for (int i = 0; i < 3; i++) { w[i] = 0; for (int j = 0; j < 3; j++) w[i] += K(i, j) * z[j]; } if (check) vp_assume(w[2] > 0.1 || w[2] < -0.1); return V2(w[0] / w[2], w[1] / w[2]); }
static M33 intr(bool neg) { double one = ONE(); M33 K = M33::zeros(); K(0, 0) = pos("f"); K(0, 1) = 0.5 * one; K(0, 2) = any("u"); K(1, 1) = 2 * one; K(1, 2) = any("v"); K(2, 2) = neg ? -one : one; return K; }
static void isPose(const Pose& p, const Pose& e) { vp_tol(1e-5); double R[3][3], S[3][3]; refRot(p.rotation(), R); refRot(e.rotation(), S); for (int i = 0; i < 3; i++) { vp_assert_eq(p.translation()(i), e.translation()(i), "position"); for (int j = 0; j < 3; j++) vp_assert_eq(R[i][j], S[i][j], "orientation"); } }
// ---- the pose is given: it is kept when every observed image agrees; images with weight zero do not count
static void given(int n, int rot) { Setup s; Pose p(quat(rot), V3(any("t"), any("t"), any("t"))); s.X.push_back(V3(1, 2, 0)); s.X.push_back(V3(-1, 1, 2)); s.X.push_back(V3(any("X"), -2, 1)); s.x.resize(n); s.w.resize(n); int hidden = vp_choice("hidden", 4), hc = n > 1 ? vp_choice("hidden in", n) : 0;
  for (int c = 0; c < n; c++) { s.cam.push_back(Pose(quat(c), V3(any("c"), any("c"), any("c")))); s.K.push_back(intr(c)); for (int k = 0; k < 3; k++) { bool h = c == hc && k == hidden; s.w[c].push_back(Scalar<double>(h ? 0 : k == 1 ? 0.5 : 1)); s.x[c].push_back(h ? V2(any("g"), any("g")) : image(s.K[c], s.cam[c], p, s.X[k])); } }
  int m = vp_choice("minimum", 3) + 1; ErrorPose r(quat(2), V3(7, 7, 7), Matrix<double, 6, 6>::identity()); Scalar<double> w(5); al::multipleCameraPoseEstimation(s.X, s.x, s.w, s.cam, s.K, m, r, w, true, p);
  if (hidden < 3 && m == 3) { vp_assert(w < 0, "too few observations are reported"); return; } vp_tol(1e-5); vp_assert_eq(w, 0, "residual"); isPose(r, p); }
VP_CASE(given_1) { given(1, 4); }
VP_CASE(given_2) { given(2, 4); }
VP_CASE(given_3) { given(3, 4); }
VP_CASE(given_rotated) { given(2, 3); }
// ---- no pose is given: the camera with the most observations sees four points (+-1,+-3) of a plane, image (7x/(y+4), (3y+5)/(y+4)) up to scale and offset
static Pose scene(Setup& s, int n, int which, int rot, int others, bool tie) { double one = ONE(), c = 7 * one / 25, sn = -24 * one / 25, a[2] = {pos("a"), pos("a")}, b[2] = {any("b"), any("b")}, z0 = any("z"), d = vp_real("d"), g[2] = {pos("g"), pos("g")}, h[2] = {any("h"), any("h")}; vp_in(d, 0.1, 10); vp_assume(b[1] < 4 * a[1] - 0.1); double f0 = -7 * g[0] * sn * a[1] / a[0], f1 = 7 * g[1] * sn * a[1] / d, R[3][3] = {{one, 0, 0}, {0, c, -sn}, {0, sn, c}}, o[3] = {0, d + 4 * c * a[1], 4 * sn * a[1]}; M33 K = M33::zeros(); K(0, 0) = f0; K(1, 1) = f1; K(0, 2) = -h[0]; K(1, 2) = -f1 * c / sn - 3 * g[1] - h[1]; K(2, 2) = -one; V3 t; for (int i = 0; i < 3; i++) { t(i) = o[i] - R[i][0] * b[0] - R[i][1] * b[1] - R[i][2] * z0; for (int j = 0; j < 3; j++) gR[i][j] = R[i][j]; }
  double N[3][3] = {{7 * one / 5, 0, 0}, {0, 4, 3}, {0, 3, 4}}; svdN = 9; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) svdH[3 * i + j] = N[i][j]; svdHn = pos("norm"); svdSign = vp_choice("sign", 2) ? 1 : -1;
  Quaternion q = quat(rot); double S[3][3], T[3][3]; refRot(q, S); V3 ot(any("t"), any("t"), any("t")), ct; for (int i = 0; i < 3; i++) { ct(i) = t(i); for (int j = 0; j < 3; j++) { T[i][j] = 0; for (int k = 0; k < 3; k++) T[i][j] += R[i][k] * S[j][k]; ct(i) -= T[i][j] * ot(j); } } double x = -3 * one / 5, w = 4 * one / 5, Q[4] = {-w * q.x() + x * q.w(), -w * q.y() + x * q.z(), -w * q.z() - x * q.y(), w * q.w() + x * q.x()};
  Pose p(q, ot); Pose main(Quaternion(Q[0], Q[1], Q[2], Q[3]), ct); s.x.resize(n); s.w.resize(n); for (int e = 0; e < n; e++) { s.cam.push_back(e == which ? main : Pose(quat(e), V3(any("c"), any("c"), any("c")))); s.K.push_back(e == which ? K : intr(e)); }
  for (int k = 0; k < 4; k++) { double u = k & 1 ? 1 : -1, v = k & 2 ? 3 : -3; V3 X(a[0] * u + b[0], a[1] * v + b[1], z0); s.X.push_back(X); V2 m(g[0] * 7 * u / (v + 4) + h[0], g[1] * (3 * v + 5) / (v + 4) + h[1]); if (!vp_symbolic()) { V2 e = image(K, main, p, X); vp_assert_eq(e(0), m(0), "image"); vp_assert_eq(e(1), m(1), "image"); } for (int e = 0; e < n; e++) { bool seen = e == which || k == others || (others >= 4 && k != others - 4); s.w[e].push_back(Scalar<double>(seen ? 1 : 0)); s.x[e].push_back(e == which ? m : seen ? image(s.K[e], s.cam[e], p, X) : V2(any("garbage"), 3)); } } (void)tie; return p; }
static void initial(int n, int rot) { Setup s; int which = n > 1 ? vp_choice("which", n) : 0, others = rot == 3 ? 1 : vp_choice("others", 2) * 5 + 1; Pose p = scene(s, n, which, rot, others, false); ErrorPose r; Scalar<double> w(5); al::multipleCameraPoseEstimation(s.X, s.x, s.w, s.cam, s.K, 1, r, w); vp_tol(1e-4); vp_assert_eq(w, 0, "residual"); isPose(r, p); }
VP_CASE(initial_1) { initial(1, 4); }
VP_CASE(initial_2) { initial(2, 4); }
VP_CASE(initial_rotated) { initial(2, 3); }
// ---- local bundles: consecutive groups of points, each with its own pose; a group that is seen too little gets a negative weight
static void bundles(int before, int after) { Setup s; for (int k = 0; k < before; k++) s.X.push_back(V3(k * k, k, 1)); int n = 2; s.x.resize(n); s.w.resize(n); for (int e = 0; e < n; e++) for (int k = 0; k < before; k++) { s.x[e].push_back(V2(any("g"), 1)); s.w[e].push_back(Scalar<double>(e == 0)); } int which = vp_choice("which", n); Pose p = scene(s, n, which, 4, 6, false); for (int k = 0; k < after; k++) { s.X.push_back(V3(k * k, k, 1)); for (int e = 0; e < n; e++) { s.x[e].push_back(V2(any("g"), 1)); s.w[e].push_back(Scalar<double>(k < 3)); } } std::vector<Scalar<int> > sizes; if (before) sizes.push_back(Scalar<int>(before)); sizes.push_back(Scalar<int>(4)); if (after) sizes.push_back(Scalar<int>(after)); std::vector<ErrorPose> r; LS w; al::multipleCameraPoseEstimationWithLocalBundles(s.X, s.x, s.w, s.cam, s.K, 2, r, w, sizes);
  vp_assert(r.size() == sizes.size() && w.size() == sizes.size(), "one pose per bundle"); size_t i = before ? 1 : 0; if (before) vp_assert(w[0] < 0, "too few observations are reported"); if (after) vp_assert(w[i + 1] < 0, "too few observations are reported"); vp_tol(1e-4); vp_assert_eq(w[i], 0, "residual"); isPose(r[i], p); }
VP_CASE(bundle_only) { bundles(0, 0); }
VP_CASE(bundle_second) { bundles(3, 0); }
VP_CASE(bundle_middle) { bundles(1, 3); }
// ---- sets that do not match are refused
VP_CASE(multicam_refuse) { int n = 2, m = 4; Setup s; s.X.resize(m, V3(1, 2, 3)); s.x.resize(n, L2(m, V2(1, 2))); s.w.resize(n, LS(m, Scalar<double>(1))); s.cam.resize(n); s.K.resize(n, M33::identity()); switch (vp_choice("what", 10)) { case 0: s.X.resize(3); break; case 1: s.X.push_back(V3(1, 1, 1)); break; case 2: s.x.pop_back(); break; case 3: s.w.pop_back(); break; case 4: s.cam.pop_back(); break; case 5: s.K.push_back(M33::identity()); break; case 6: s.x[1].pop_back(); break; case 7: s.w[1].pop_back(); break; case 9: s.x.clear(); s.w.clear(); s.cam.clear(); s.K.clear(); break; case 8: s.X.resize(2); for (int i = 0; i < n; i++) { s.x[i].resize(2); s.w[i].resize(2); } break; }
  try { if (vp_choice("bundles", 2)) { std::vector<Scalar<int> > z(1, Scalar<int>(2)); std::vector<ErrorPose> r; LS w; al::multipleCameraPoseEstimationWithLocalBundles(s.X, s.x, s.w, s.cam, s.K, 1, r, w, z); } else { ErrorPose r; Scalar<double> w(0); al::multipleCameraPoseEstimation(s.X, s.x, s.w, s.cam, s.K, 1, r, w, vp_choice("given", 2), Pose()); } vp_assert(false, "sets of different sizes are refused"); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); } }
// ---- refinement of one pose: an exact start is kept, the residual is the squared reprojection error of the returned pose
template <class T> static void refine(bool noisy) { gAnyRhs = noisy; double one = ONE(); Pose p(quat(vp_choice("rotation", 4)), V3(any("t"), any("t"), any("t"))); std::vector<Vector<T, 3> > X; X.push_back(Vector<T, 3>(1, 2, 0)); X.push_back(Vector<T, 3>(-1, 1, 2)); X.push_back(Vector<T, 3>(0, -2, 1)); X.push_back(Vector<T, 3>(2, 0, -1)); M33 K = intr(true); Matrix<T, 3, 3> Kt; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) Kt(i, j) = K(i, j); std::vector<Vector<T, 2> > x; double e = 0; for (int k = 0; k < 4; k++) { V2 m = image(K, Pose(), p, V3(X[k](0), X[k](1), X[k](2))); double d = noisy && k == 1 ? vp_real("noise") : 0; if (noisy && k == 1) vp_in(d, -0.1, 0.1); e += d * d; x.push_back(Vector<T, 2>(m(0) + d, m(1))); }
  Pose r(p); double res = Ubitrack::Algorithm::PoseEstimation2D3D::optimizePose(r, x, X, Kt, vp_choice("iterations", 2) + 1); double s = 0; for (int k = 0; k < 4; k++) { V2 m = image(K, Pose(), r, V3(X[k](0), X[k](1), X[k](2)), false); for (int i = 0; i < 2; i++) s += (m(i) - x[k](i)) * (m(i) - x[k](i)); } vp_tol(sizeof(T) == 4 ? 0.01 : 1e-5); vp_assert_eq(res, s, "residual"); vp_assert_le(res, e, "no worse than the start"); if (!noisy) isPose(r, p); (void)one; }
VP_CASE(refine_exact) { refine<double>(false); }
VP_CASE(refine_noisy) { refine<double>(true); }

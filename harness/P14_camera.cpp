//@ property P14
//@ sources utAlgorithm/CameraLens/Correction.cpp utAlgorithm/LensDistortion.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds every point, intrinsic matrix (last element +1 or -1) and distortion parameter with a non-zero denominator; lists of up to two points; undistortion of two points with one non-zero distortion parameter at a time (coefficient up to 0.05)
//@ assume exact real arithmetic: rounding is not modelled
//@ assume for undistortion the linear solver inside Levenberg-Marquardt leads to the solution of the distortion equation (its steps are the subject of P12)
#include "hmath.h"
#include <utMath/CameraIntrinsics.h>
#include <utMath/Geometry/PointUndistortion.h>
#include <utAlgorithm/CameraLens/Correction.h>
#include <utAlgorithm/CameraLens/Distortion.h>
#include <utAlgorithm/CameraLens/Undistortion.h>
#include <utAlgorithm/LensDistortion.h>
#include <algorithm>
#include <vector>
#include <cmath>
using namespace Math; namespace CL = Algorithm::CameraLens;
typedef CameraIntrinsics<double> CI; typedef Vector<double, 6> V6;
static int gOracle = 0; static double gStep[2];
#ifndef VP_NATIVE
extern "C" void dposv_(const char* uplo, const int* n, const int* nrhs, double* a, const int* lda, double* b, const int* ldb, int* info) { *info = 0; for (int i = 0; i < 2; i++) { b[i] = gOracle == 1 ? gStep[i] : 0; } gOracle = 2; }
extern "C" void sposv_(const char* uplo, const int* n, const int* nrhs, float* a, const int* lda, float* b, const int* ldb, int* info) { *info = 0; for (int i = 0; i < 2; i++) { b[i] = gOracle == 1 ? gStep[i] : 0; } gOracle = 2; }
#endif
// reference model: x (1+k1 r2+k2 r4+k3 r6)/(1+k4 r2+k5 r4+k6 r6) + tangential part
static void dist(const double* k, const double* t, double x, double y, double* o) { double r = x * x + y * y, f = (1 + r * (k[0] + r * (k[1] + r * k[2]))) / (1 + r * (k[3] + r * (k[4] + r * k[5]))); o[0] = x * f + 2 * t[0] * x * y + t[1] * (3 * x * x + y * y); o[1] = y * f + 2 * t[1] * x * y + t[0] * (x * x + 3 * y * y); }
static double lower(const double* k, double x, double y) { double r = x * x + y * y; return 1 + r * (k[3] + r * (k[4] + r * k[5])); }
struct Cam { double k[6], t[2], K[5], z; V6 kv; V2 tv; M33 m; };
// K: fx fy s cx cy, z = +-1; pixel = fx x + s y + cx z
static void cam(Cam& c, int n, bool mild) { for (int i = 0; i < 6; i++) { c.k[i] = i < n ? vp_real("k") : 0; if (mild) vp_in(c.k[i], -0.05, 0.05); c.kv(i) = c.k[i]; } for (int i = 0; i < 2; i++) { c.t[i] = vp_real("t"); if (mild) vp_in(c.t[i], -0.05, 0.05); c.tv(i) = c.t[i]; } for (int i = 0; i < 5; i++) c.K[i] = vp_real("K"); vp_assume(c.K[0] != 0); vp_assume(c.K[1] != 0); if (mild) { vp_in(c.K[0], 1, 2000); vp_in(c.K[1], 1, 2000); vp_in(c.K[2], -10, 10); } c.z = vp_choice("handed", 2) ? -1 : 1; c.m = M33::zeros(); c.m(0, 0) = c.K[0]; c.m(1, 1) = c.K[1]; c.m(0, 1) = c.K[2]; c.m(0, 2) = c.K[3]; c.m(1, 2) = c.K[4]; c.m(2, 2) = c.z; }
static void pix(const Cam& c, const double* p, double* o) { o[0] = c.K[0] * p[0] + c.K[2] * p[1] + c.K[3] * c.z; o[1] = c.K[1] * p[1] + c.K[4] * c.z; }
static void expectDist(const Cam& c, const double* u, const V2& got) { double d[2], o[2]; dist(c.k, c.t, u[0], u[1], d); pix(c, d, o); eqV(got, V2(o[0], o[1]), 2, "distorted image point"); }
// image points are given through normalised coordinates u
static V2 pt(const Cam& c, double* u) { u[0] = vp_real("u"); u[1] = vp_real("u"); vp_assume(lower(c.k, u[0], u[1]) != 0); double o[2]; pix(c, u, o); return V2(o[0], o[1]); }
VP_CASE(distort_normalised) { Cam c; cam(c, 6, false); V2 p = inV2("p"), o; vp_assume(lower(c.k, p(0), p(1)) != 0); double d[2]; dist(c.k, c.t, p(0), p(1), d); CL::distort(c.kv, c.tv, p, o); eqV(o, V2(d[0], d[1]), 2, "distorted normalised point"); std::vector<V2> a(2), b(2); a[0] = a[1] = p; CL::distort(c.kv, c.tv, a, b); for (int i = 0; i < 2; i++) eqV(b[i], o, 2, "list of distorted normalised points"); CL::distort(c.kv, c.tv, p, p); eqV(p, o, 2, "distortion in place"); }
VP_CASE(distort_image) { Cam c; cam(c, 6, false); double u[2]; V2 p = pt(c, u), o; CI ci(c.m, c.kv, c.tv); CL::distort(ci, p, o); expectDist(c, u, o); V2 q = p; CL::distort(ci, q, q); eqV(q, o, 2, "distortion in place"); }
VP_CASE(distort_image_list) { Cam c; cam(c, 6, false); double u[2][2]; std::vector<V2> p(2), o(2); for (int i = 0; i < 2; i++) p[i] = pt(c, u[i]); CI ci(c.m, c.kv, c.tv); CL::distort(ci, p, o); for (int i = 0; i < 2; i++) expectDist(c, u[i], o[i]); }
VP_CASE(distort_image_2) { Cam c; cam(c, 2, false); double u[2]; V2 p = pt(c, u), o; CI ci(c.m, V2(c.k[0], c.k[1]), c.tv); CL::distort(ci, p, o); expectDist(c, u, o); }
VP_CASE(distort_image_3) { Cam c; cam(c, 3, false); double u[2]; V2 p = pt(c, u), o; CI ci(c.m, V3(c.k[0], c.k[1], c.k[2]), c.tv); CL::distort(ci, p, o); expectDist(c, u, o); }
VP_CASE(distort_default) { CI ci; V2 p = inV2("p"), o; CL::distort(ci, p, o); eqV(o, p, 2, "default intrinsics do not change a point"); }
//@ case distort_float search=no
VP_CASE(distort_float) { Cam c; cam(c, 6, false); double u[2]; V2 p = pt(c, u); Matrix<float, 3, 3> m; Vector<float, 6> k; Vector<float, 2> t, o, f; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = c.m(i, j); for (int i = 0; i < 6; i++) k(i) = c.k[i]; for (int i = 0; i < 2; i++) { t(i) = c.t[i]; f(i) = p(i); } vp_tol(1e-2); CL::distort(CameraIntrinsics<float>(m, k, t), f, o); expectDist(c, u, V2(o(0), o(1))); }
//@ case jacobian_x search=no
VP_CASE(jacobian_x) { double v[10]; for (int i = 0; i < 10; i++) v[i] = vp_real("v"); vp_assume(lower(v + 2, v[0], v[1]) != 0); V6 k; V2 t(v[8], v[9]), p(v[0], v[1]), r; for (int i = 0; i < 6; i++) k(i) = v[2 + i]; CL::internal::PointUndistortion<double> f(k, t); M22 J; f.evaluateWithJacobian(r, p, J); double d[2]; dist(v + 2, v + 8, v[0], v[1], d); eqV(r, V2(d[0], d[1]), 2, "function of the undistortion"); V2 r2; f.evaluate(r2, p); eqV(r2, r, 2, "function of the undistortion"); vp_assert(f.size() == 2, "two equations"); double j[4] = {J(0, 0), J(0, 1), J(1, 0), J(1, 1)}; vp_check_jacobian([&](const double* x, double* y) { dist(v + 2, v + 8, x[0], x[1], y); }, v, 2, 2, j, "Jacobian of the undistortion"); }
static V2 undist(Cam& c, int n, double* u, V2& want) { int w = vp_choice("param", n + 2), p = vp_choice("point", 2); cam(c, n, true); for (int i = 0; i < n + 2; i++) if (i != w) { if (i < n) c.kv(i) = c.k[i] = 0; else c.tv(i - n) = c.t[i - n] = 0; } u[0] = p ? 0.25 : -0.375; u[1] = p ? -0.5 : 0.125; double o[2], d[2], q[2]; pix(c, u, o); want = V2(o[0], o[1]); dist(c.k, c.t, u[0], u[1], d); pix(c, d, q); gOracle = 1; for (int i = 0; i < 2; i++) gStep[i] = u[i] - d[i]; vp_tol(2e-2); return V2(q[0], q[1]); }
VP_CASE(undistort_image) { Cam c; double u[2]; V2 w, o, p = undist(c, 3, u, w); CI ci(c.m, V3(c.k[0], c.k[1], c.k[2]), c.tv); CL::undistort(ci, p, o); eqV(o, w, 2, "undistortion undoes the distortion"); }
VP_CASE(undistort_image_list) { Cam c; double u[2]; V2 w; std::vector<V2> o(1), p(1, undist(c, 2, u, w)); CI ci(c.m, V2(c.k[0], c.k[1]), c.tv); CL::undistort(ci, p, o); eqV(o[0], w, 2, "undistortion undoes the distortion"); }
VP_CASE(undistort_none) { Cam c; cam(c, 0, false); c.tv = V2(0, 0); for (int i = 0; i < 2; i++) c.t[i] = 0; double u[2]; V2 p = pt(c, u), o; CI ci(c.m, c.kv, c.tv); CL::undistort(ci, p, o); eqV(o, p, 2, "without distortion nothing changes"); V4 d(0, 0, 0, 0); eqV(Algorithm::lensUnDistort(p, d, c.m), p, 2, "without distortion nothing changes"); eqV(Algorithm::lensDistort(p, d, c.m), p, 2, "without distortion nothing changes"); }
VP_CASE(lens_undistort) { Cam c; double u[2]; V2 w, p = undist(c, 2, u, w); eqV(Algorithm::lensUnDistort(p, V4(c.k[0], c.k[1], c.t[0], c.t[1]), c.m), w, 2, "undistortion undoes the distortion"); }
VP_CASE(lens_distort) { Cam c; cam(c, 2, false); double u[2]; V2 p = pt(c, u); expectDist(c, u, Algorithm::lensDistort(p, V4(c.k[0], c.k[1], c.t[0], c.t[1]), c.m)); }
VP_CASE(lens_project) { Cam c; cam(c, 2, false); V3 p = inV3("p"); vp_assume(p(2) != 0); double z = vp_real("z"); vp_assume(z != 0); c.m(2, 2) = z; double d[2]; dist(c.k, c.t, p(0) / p(2), p(1) / p(2), d); V2 o = Algorithm::projectWithDistortion(p, V4(c.k[0], c.k[1], c.t[0], c.t[1]), c.m); vp_assert_eq(o(0) * z, c.K[0] * d[0] + c.K[2] * d[1] + c.K[3], "projected and distorted point"); vp_assert_eq(o(1) * z, c.K[1] * d[1] + c.K[4], "projected and distorted point"); }
// Geometry: principal point stored with negative sign
VP_CASE(geometry) { Cam c; cam(c, 6, false); c.z = -1; c.K[2] = 0; c.m(0, 1) = 0; c.m(2, 2) = -1; double u[2]; V2 p = pt(c, u), o; CI ci(c.m, c.kv, c.tv); Geometry::undistort_point(ci, p, o); expectDist(c, u, o); std::vector<V2> a(2, p), b(2); Geometry::undistort_points(ci, a.begin(), a.end(), b.begin()); for (int i = 0; i < 2; i++) expectDist(c, u, b[i]); }
static void ctor(const CI& c, const M33& m, int type, int rs, const double* k, const double* t, unsigned w, unsigned h) { vp_assert((int)c.calib_type == type, "calibration type"); vp_assert(c.radial_size == (std::size_t)rs, "number of radial parameters"); vp_assert(CI::radial(type) == (std::size_t)rs, "number of radial parameters of the type"); vp_assert(c.dimension(0) == w && c.dimension(1) == h, "image size"); eqM(c.matrix, m, 3, 3, "intrinsic matrix"); for (int i = 0; i < 6; i++) vp_assert_eq(c.radial_params(i), i < rs ? k[i] : 0, "radial parameters"); for (int i = 0; i < 2; i++) vp_assert_eq(c.tangential_params(i), t[i], "tangential parameters"); }
VP_CASE(constructors) { M33 m = inMat<3, 3>("m"); double k[6], t[2], z[2] = {0, 0}; for (int i = 0; i < 6; i++) k[i] = vp_real("k"); for (int i = 0; i < 2; i++) t[i] = vp_real("t"); unsigned w = vp_u32("w"), h = vp_u32("h"); V6 kv; for (int i = 0; i < 6; i++) kv(i) = k[i]; V2 tv(t[0], t[1]);
  ctor(CI(m, V2(k[0], k[1]), tv, w, h), m, CI::OPENCV_2_2, 2, k, t, w, h); ctor(CI(m, V3(k[0], k[1], k[2]), tv, w, h), m, CI::OPENCV_3_2, 3, k, t, w, h); ctor(CI(m, kv, tv, w, h), m, CI::OPENCV_6_2, 6, k, t, w, h); ctor(CI(m, V4(k[0], k[1], k[2], k[3]), w, h), m, CI::OPENCV_4_0_FISHEYE, 4, k, z, w, h); ctor(CI(m, kv, tv), m, CI::OPENCV_6_2, 6, k, t, 0, 0); ctor(CI(), M33::identity(), CI::UNKNOWN, 0, k, z, 0, 0); CI a(m, V2(k[0], k[1]), tv, w, h), b; b = a; ctor(b, m, CI::OPENCV_2_2, 2, k, t, w, h); CI d(a); ctor(d, m, CI::OPENCV_2_2, 2, k, t, w, h); b.flipHandiness(d); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(d.matrix(i, j), j == 2 ? -m(i, j) : m(i, j), "handedness of the intrinsic matrix"); }
VP_CASE(size_constructor) { M33 m = inMat<3, 3>("m"); V6 kv; double k[6], t[2]; int n = vp_choice("n", 4), rs = n == 0 ? 2 : n == 1 ? 3 : n == 2 ? 4 : 6, ty[4] = {CI::OPENCV_2_2, CI::OPENCV_3_2, CI::OPENCV_4_0_FISHEYE, CI::OPENCV_6_2}; for (int i = 0; i < 6; i++) { k[i] = i < rs ? vp_real("k") : 0; kv(i) = k[i]; } for (int i = 0; i < 2; i++) t[i] = vp_real("t"); ctor(CI(Vector<int, 2>(640, 480), m, rs, kv, V2(t[0], t[1])), m, ty[n], rs, k, t, 640, 480); }
VP_CASE(angles) { double one = (double)(vp_symbolic() | 1); CI c; c.dimension(0) = 640; c.dimension(1) = 480; double f = vp_real("f"), g = vp_real("g"); vp_assume(f > 1); vp_assume(g > 1); c.matrix(0, 0) = f; c.matrix(1, 1) = g; double h = c.angleHorizontal() * M_PI / 360 * one, v = c.angleVertical() * M_PI / 360; vp_assert_eq(sin(h) * f, 320 * cos(h), "horizontal field of view"); vp_assert_eq(sin(v) * g, 240 * cos(v), "vertical field of view"); vp_assert(h > 0 && v > 0, "fields of view are positive"); }

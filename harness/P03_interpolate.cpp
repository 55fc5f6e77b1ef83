//@ property P03
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp
//@ bounds  the constant-speed law for angles between the quaternions of 0.016 to 1.57 rad (rotation angles up to 180 deg) and every interpolation parameter in [0,1]; lists of 0 to 3 poses; the two quaternions lie in one of 12 planes of R^4 (the six coordinate planes, six that mix all four components)
//@ assume exact real arithmetic: rounding is not modelled
#include "hmath.h"
#include <cmath>
#include <utMath/ErrorPose.h>
using namespace Math;
static double dot(const Quaternion& a, const Quaternion& b) { return a.x() * b.x() + a.y() * b.y() + a.z() * b.z() + a.w() * b.w(); }
static void sameRot(const Quaternion& a, const Quaternion& b, const char* l) { double A[3][3], B[3][3]; refRot(a, A); refRot(b, B); eqR(A, B, l); }
// The two quaternions lie in one plane of R^4, spanned by an orthonormal frame: slerp must run along the circle of that plane.  Frames: the six coordinate planes and six planes that use all four components.
static const double FR[12][2][4] = {{{1, 0, 0, 0}, {0, 1, 0, 0}}, {{1, 0, 0, 0}, {0, 0, 1, 0}}, {{1, 0, 0, 0}, {0, 0, 0, 1}}, {{0, 1, 0, 0}, {0, 0, 1, 0}}, {{0, 1, 0, 0}, {0, 0, 0, 1}}, {{0, 0, 1, 0}, {0, 0, 0, 1}},
  {{.5, .5, .5, .5}, {.5, -.5, .5, -.5}}, {{.5, .5, .5, .5}, {.5, .5, -.5, -.5}}, {{.5, .5, .5, .5}, {.5, -.5, -.5, .5}}, {{.5, -.5, .5, -.5}, {.5, .5, -.5, -.5}}, {{.5, -.5, .5, -.5}, {.5, -.5, -.5, .5}}, {{.5, .5, -.5, -.5}, {.5, -.5, -.5, .5}}};
static Quaternion onCircle(int f, double c, double s, double sg) { double q[4]; for (int i = 0; i < 4; i++) q[i] = sg * (FR[f][0][i] * c + FR[f][1][i] * s); return Quaternion(q[0], q[1], q[2], q[3]); }
static void ends(int lo, bool first) { int f = lo + vp_choice("frame", 6); double a[2], b[2]; vp_unit(a, 2, "a"); vp_unit(b, 2, "b"); Quaternion x = onCircle(f, a[0], a[1], 1), y = onCircle(f, b[0], b[1], 1); if (first) sameRot(slerp(x, y, 0), x, "starts at the first rotation"); else sameRot(linearInterpolate(x, y, 1.), y, "ends at the second rotation"); }
VP_CASE(start_axes) { ends(0, true); }
VP_CASE(start_mixed) { ends(6, true); }
VP_CASE(end_axes) { ends(0, false); }
VP_CASE(end_mixed) { ends(6, false); }
VP_CASE(constant) { Quaternion a = inUnitQ("a"); double t = vp_real("t"); vp_in(t, 0, 1); sameRot(slerp(a, a, t), a, "constant between equal rotations"); sameRot(slerp(a, Quaternion(-a.x(), -a.y(), -a.z(), -a.w()), t), a, "constant between equal rotations of opposite sign"); }
static void arc(double flip) { vp_trigden(1); int f = vp_choice("frame", 12); double a[2]; vp_unit(a, 2, "a"); double w = vp_real("omega"), t = vp_real("t"); vp_in(w, 0.016, 1.57); vp_in(t, 0, 1);
  Quaternion x = onCircle(f, a[0], a[1], flip), y = onCircle(f, a[0] * cos(w) - a[1] * sin(w), a[1] * cos(w) + a[0] * sin(w), 1), e = onCircle(f, a[0] * cos(t * w) - a[1] * sin(t * w), a[1] * cos(t * w) + a[0] * sin(t * w), 1); Quaternion r = slerp(x, y, t);
  vp_assert_eq(dot(r, r), 1, "result is a unit quaternion"); sameRot(r, e, "constant-speed shortest arc"); }
//@ case arc_near stol=1e-5
//@ case arc_far stol=1e-5
VP_CASE(arc_near) { arc(1); }
VP_CASE(arc_far) { arc(-1); }
VP_CASE(small_angle) { int f = vp_choice("frame", 12); double a[2]; vp_unit(a, 2, "a"); double s = vp_real("s"), t = vp_real("t"); vp_in(t, 0, 1); vp_in(s, 0, 0.01); double c = sqrt(1 - s * s); Quaternion x = onCircle(f, a[0], a[1], 1), y = onCircle(f, a[0] * c - a[1] * s, a[1] * c + a[0] * s, 1); Quaternion r = slerp(x, y, t); double g[2] = {0, 0}, q[4] = {r.x(), r.y(), r.z(), r.w()}, n = 0; for (int i = 0; i < 4; i++) { g[0] += q[i] * FR[f][0][i]; g[1] += q[i] * FR[f][1][i]; n += q[i] * q[i]; }
  vp_assert_eq(n, 1, "unit for small angles"); double ex = a[0] + t * (c - 1) * a[0] - t * s * a[1], ey = a[1] + t * (c - 1) * a[1] + t * s * a[0]; vp_assert_eq(g[0] * ey, g[1] * ex, "small-angle chord"); }
VP_CASE(vectors) { V3 a = inV3("a"), b = inV3("b"); double t = vp_real("t"); V3 r = linearInterpolate(a, b, t); for (int i = 0; i < 3; i++) vp_assert_eq(r(i), a(i) + t * (b(i) - a(i)), "vector interpolation"); V2 c = inV2("c"), d = inV2("d"); V2 s = linearInterpolate(c, d, t); for (int i = 0; i < 2; i++) vp_assert_eq(s(i), c(i) + t * (d(i) - c(i)), "2-vector interpolation"); }
VP_CASE(poses) { int f = 1 + 4 * vp_choice("frame", 3); double u[2], v[2]; vp_unit(u, 2, "u"); vp_unit(v, 2, "v"); Pose a(onCircle(f, u[0], u[1], 1), inV3("ta")), b(onCircle(f, v[0], v[1], 1), inV3("tb")); double t = vp_choice("k", 2) ? 1. : 0.; Pose r = linearInterpolate(a, b, t); Quaternion s = slerp(a.rotation(), b.rotation(), t); sameRot(r.rotation(), s, "pose rotation interpolates by slerp"); for (int i = 0; i < 3; i++) vp_assert_eq(r.translation()(i), (1 - t) * a.translation()(i) + t * b.translation()(i), "pose translation interpolates linearly"); }
VP_CASE(pose_lists) { int n = vp_choice("n", 3); std::vector<Pose> x, y; for (int i = 0; i < n; i++) { double u[2], v[2]; vp_unit(u, 2, "u"); vp_unit(v, 2, "v"); int f = (3 + 4 * i) % 12; x.push_back(Pose(onCircle(f, u[0], u[1], 1), inV3("tx"))); y.push_back(Pose(onCircle(f, v[0], v[1], 1), inV3("ty"))); } double t = vp_choice("k", 2) ? 1. : 0.; std::vector<Pose> r = linearInterpolate(x, y, t); vp_assert_eq_u64(r.size(), n, "as many poses"); const std::vector<Pose>& z = t == 1. ? y : x; for (int i = 0; i < n; i++) { sameRot(r[i].rotation(), z[i].rotation(), "list end points"); eqV(r[i].translation(), z[i].translation(), 3, "list end points"); } }
//@ case pose_lists time=90
VP_CASE(pose_list_mid) { std::vector<Pose> x, y; double t = vp_real("t"); for (int i = 0; i < 3; i++) { x.push_back(Pose(Quaternion(), inV3("tx"))); y.push_back(Pose(Quaternion(), inV3("ty"))); } std::vector<Pose> r = linearInterpolate(x, y, t); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(r[i].translation()(j), x[i].translation()(j) + t * (y[i].translation()(j) - x[i].translation()(j)), "list translations"); }
VP_CASE(error_pose) { Matrix<double, 6, 6> A = inSym<6>("A"), B = inSym<6>("B"); V3 ta = inV3("ta"), tb = inV3("tb"); double t = vp_real("t"); ErrorPose r = linearInterpolate(ErrorPose(Quaternion(), ta, A), ErrorPose(Quaternion(), tb, B), t); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vp_assert_eq(r.covariance()(i, j), (1 - t) * (1 - t) * A(i, j) + t * t * B(i, j), "covariance of an interpolated pose"); for (int i = 0; i < 3; i++) vp_assert_eq(r.translation()(i), (1 - t) * ta(i) + t * tb(i), "translation"); }


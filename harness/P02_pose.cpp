//@ property P02
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp
//@ bounds every rigid pose (unit quaternion rotation) over exact reals; point lists not involved
//@ assume exact real arithmetic: rounding is not modelled
#include "hmath.h"
#include <cmath>
using namespace Math;
static V3 refApply(const Pose& p, const V3& v) { double R[3][3]; refRot(p.rotation(), R); V3 r; for (int i = 0; i < 3; i++) r(i) = R[i][0] * v(0) + R[i][1] * v(1) + R[i][2] * v(2) + p.translation()(i); return r; }
static void samePose(const Pose& a, const Pose& b, const char* l) { double A[3][3], B[3][3]; refRot(a.rotation(), A); refRot(b.rotation(), B); eqR(A, B, l); eqV(a.translation(), b.translation(), 3, l); }
VP_CASE(apply) { Pose p = inPose("q", "t"); V3 v = inV3("v"); eqV(p * v, refApply(p, v), 3, "pose acts as rotation then translation"); }
VP_CASE(compose) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); V3 v = inV3("v"); Pose ab = a * b; eqV(refApply(ab, v), refApply(a, refApply(b, v)), 3, "product acts as second, then first"); const Quaternion& r = ab.rotation(); vp_assert_eq(r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w(), 1, "product rotation is unit"); }
VP_CASE(assoc) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"), c = inPose("qc", "tc"); samePose((a * b) * c, a * (b * c), "associativity"); }
VP_CASE(inverse) { Pose p = inPose("q", "t"); V3 v = inV3("v"); Pose i = ~p; eqV(refApply(i, refApply(p, v)), v, 3, "inverse undoes the pose"); samePose(p * i, Pose(), "p * ~p"); samePose(i * p, Pose(), "~p * p"); samePose(~i, p, "double inverse"); }
VP_CASE(inv_product) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); samePose(~(a * b), (~b) * (~a), "inverse of a product"); }
VP_CASE(identity) { Pose p = inPose("q", "t"), e; V3 v = inV3("v"); eqV(e * v, v, 3, "default pose is the identity"); samePose(e * p, p, "left identity"); samePose(p * e, p, "right identity"); }
VP_CASE(to_matrix) { Pose p = inPose("q", "t"); V3 v = inV3("v"); V3 r = refApply(p, v); M44 m(p); M34 k(p); M44 m2(p.rotation(), p.translation()); M34 k2(p.rotation(), p.translation());
  for (int i = 0; i < 3; i++) { vp_assert_eq(m(i, 0) * v(0) + m(i, 1) * v(1) + m(i, 2) * v(2) + m(i, 3), r(i), "4x4 matrix acts like the pose"); vp_assert_eq(k(i, 0) * v(0) + k(i, 1) * v(1) + k(i, 2) * v(2) + k(i, 3), r(i), "3x4 matrix acts like the pose"); }
  for (int j = 0; j < 4; j++) { vp_assert_eq(m(3, j), j == 3, "last row"); vp_assert_eq(m2(3, j), j == 3, "last row"); for (int i = 0; i < 4; i++) { vp_assert_eq(m2(i, j), m(i, j), "matrix from rotation and position"); if (i < 3) vp_assert_eq(k2(i, j), k(i, j), "3x4 matrix from rotation and position"); } } }
VP_CASE(from_matrix) { Pose p = inPose("q", "t"); double R[3][3]; refRot(p.rotation(), R); Matrix<double, 0, 0> m(4, 4); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) m(i, j) = R[i][j]; m(i, 3) = p.translation()(i); m(3, i) = 0; } m(3, 3) = 1; samePose(Pose(m), p, "pose from matrix"); }
VP_CASE(vector_form) { Pose p = inPose("q", "t"); Vector<double, 7> v; p.toVector(v); for (int i = 0; i < 3; i++) vp_assert_eq(v(i), p.translation()(i), "translation first"); vp_assert_eq(v(3), p.rotation().x(), "rotation x"); vp_assert_eq(v(4), p.rotation().y(), "rotation y"); vp_assert_eq(v(5), p.rotation().z(), "rotation z"); vp_assert_eq(v(6), p.rotation().w(), "rotation w"); Pose r = Pose::fromVector(v); samePose(r, p, "vector round trip"); vp_assert_eq(r.rotation().w(), p.rotation().w(), "vector round trip");
  double s = vp_real("s"); Pose c = p; c.scalePose(s); for (int i = 0; i < 3; i++) vp_assert_eq(c.translation()(i), s * p.translation()(i), "scaling scales the translation"); vp_assert_eq(c.rotation().x(), p.rotation().x(), "scaling keeps the rotation"); }
VP_CASE(equality) { Pose a = inPose("qa", "ta"), b = inPose("qb", "tb"); bool same = a.rotation().x() == b.rotation().x() && a.rotation().y() == b.rotation().y() && a.rotation().z() == b.rotation().z() && a.rotation().w() == b.rotation().w() && a.translation()(0) == b.translation()(0) && a.translation()(1) == b.translation()(1) && a.translation()(2) == b.translation()(2); vp_assert((a == b) == same, "equality compares all components"); vp_assert((a != b) == !same, "inequality"); vp_assert(a == a, "reflexive"); }

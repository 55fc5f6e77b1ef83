//@ property P10
//@ sources
//@ bounds every supported combination of matrix and vector size; lists of up to three points; normalisation of 2 to 3 points in 2 and 3 dimensions; points off the principal plane for projections
//@ assume exact real arithmetic: rounding is not modelled
#include "hmath.h"
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Geometry/PointUndistortion.h>
#include <vector>
using namespace Math;
template <int M, int N, int L> static void ref(const Matrix<double, M, N>& A, const Vector<double, L>& v, double y[4]) { double h[4] = {0, 0, 0, 0}; for (int i = 0; i < L; i++) h[i] = v(i); if (L < N) h[N - 1] = 1; for (int i = 0; i < M; i++) { y[i] = 0; for (int j = 0; j < N; j++) y[i] += A(i, j) * h[j]; } }
template <int M, int N, int L> static void transf() { Matrix<double, M, N> A = inMat<M, N>("A"); std::vector<Vector<double, L> > in; for (int i = 0; i < 2; i++) in.push_back(inVec<L>("p")); std::vector<Vector<double, M> > out, out2(2);
  Geometry::transform_points(A, in.begin(), in.end(), std::back_inserter(out)); Geometry::transform_points(A, in.begin(), in.end(), out2.begin()); vp_assert(out.size() == 2, "one point per point");
  for (int k = 0; k < 2; k++) { double y[4]; ref<M, N, L>(A, in[k], y); Vector<double, M> s = Geometry::TransformPoint()(A, in[k]); for (int i = 0; i < M; i++) { vp_assert_eq(s(i), y[i], "transformed point"); vp_assert_eq(out[k](i), y[i], "transformed list"); vp_assert_eq(out2[k](i), y[i], "transformed list"); } } }
VP_CASE(transform_23_2) { transf<2, 3, 2>(); }
VP_CASE(transform_23_3) { transf<2, 3, 3>(); }
VP_CASE(transform_33_2) { transf<3, 3, 2>(); }
VP_CASE(transform_33_3) { transf<3, 3, 3>(); }
VP_CASE(transform_34_2) { transf<3, 4, 2>(); }
VP_CASE(transform_34_3) { transf<3, 4, 3>(); }
VP_CASE(transform_34_4) { transf<3, 4, 4>(); }
VP_CASE(transform_44_2) { transf<4, 4, 2>(); }
VP_CASE(transform_44_3) { transf<4, 4, 3>(); }
VP_CASE(transform_44_4) { transf<4, 4, 4>(); }
VP_CASE(transform_empty) { std::vector<V3> a, b; Geometry::transform_points(inMat<3, 4>("A"), a.begin(), a.end(), std::back_inserter(b)); vp_assert(b.empty(), "no points, no results"); std::vector<V2> c; Geometry::project_points(inMat<3, 4>("A"), a.begin(), a.end(), std::back_inserter(c)); vp_assert(c.empty(), "no points, no results"); }
// transforming a list in place
VP_CASE(transform_inplace) { M34 A = inMat<3, 4>("A"); std::vector<V3> p; for (int i = 0; i < 3; i++) p.push_back(inV3("p")); std::vector<V3> o = p; Geometry::transform_points(A, p.begin(), p.end(), p.begin()); for (int k = 0; k < 3; k++) { double y[4]; ref<3, 4, 3>(A, o[k], y); for (int i = 0; i < 3; i++) vp_assert_eq(p[k](i), y[i], "list transformed in place"); } }
template <int N, int L> static void proj() { Matrix<double, 3, N> A = inMat<3, N>("A"); std::vector<Vector<double, L> > in; double y[3][4]; for (int i = 0; i < 3; i++) { in.push_back(inVec<L>("p")); ref<3, N, L>(A, in[i], y[i]); vp_assume(y[i][2] != 0); }
  std::vector<V2> out, out2(3); Geometry::project_points(A, in.begin(), in.end(), std::back_inserter(out)); Geometry::project_points(A, in.begin(), in.end(), out2.begin()); vp_assert(out.size() == 3, "one point per point");
  for (int k = 0; k < 3; k++) { V2 s = Geometry::ProjectPoint()(A, in[k]), f = Geometry::ProjectPoint()(in[k], A); for (int i = 0; i < 2; i++) { double r = y[k][i] / y[k][2]; vp_assert_eq(s(i), r, "projected point"); vp_assert_eq(f(i), r, "projected point, arguments swapped"); vp_assert_eq(out[k](i), r, "projected list"); vp_assert_eq(out2[k](i), r, "projected list"); } } }
VP_CASE(project_33_2) { proj<3, 2>(); }
VP_CASE(project_34_2) { proj<4, 2>(); }
VP_CASE(project_34_3) { proj<4, 3>(); }
VP_CASE(project_34_4) { proj<4, 4>(); }
// normalisation: mean zero and unit variance along each axis; the matrix maps there and its inverse back
template <int N, int n> static void normal() { std::vector<Vector<double, N> > p; for (int i = 0; i < n; i++) p.push_back(inVec<N>("p")); for (int d = 0; d < N; d++) vp_assume(p[0](d) != p[1](d)); Vector<double, N> sh, sc; Geometry::estimateNormalizationParameters(p.begin(), p.end(), sh, sc);
  for (int d = 0; d < N; d++) { double m = 0, v = 0; for (int i = 0; i < n; i++) m += p[i](d); m = m / n; for (int i = 0; i < n; i++) v += (p[i](d) - m) * (p[i](d) - m); v = v / n; vp_assert_eq(sh(d), m, "shift is the mean"); vp_assert_eq(sc(d) * sc(d), v, "scale is the standard deviation"); vp_assert(sc(d) >= 0, "scale is positive"); } }
VP_CASE(normalise_2d_2) { normal<2, 2>(); }
VP_CASE(normalise_2d_3) { normal<2, 3>(); }
VP_CASE(normalise_3d_2) { normal<3, 2>(); }
VP_CASE(normalise_3d_3) { normal<3, 3>(); }
template <int N> static void normmat() { Vector<double, N> sh = inVec<N>("shift"), sc = inVec<N>("scale"), x = inVec<N>("x"); for (int d = 0; d < N; d++) vp_assume(sc(d) != 0); Matrix<double, N + 1, N + 1> A = Geometry::generateNormalizationMatrix(sh, sc, false), B = Geometry::generateNormalizationMatrix(sh, sc, true); vp_assert_eq(A(N, N), 1, "homogeneous matrix"); vp_assert_eq(B(N, N), 1, "homogeneous matrix");
  for (int i = 0; i < N; i++) { double s = A(i, N), t = B(i, N); for (int j = 0; j < N; j++) { s += A(i, j) * x(j); t += B(i, j) * x(j); } vp_assert_eq(s, (x(i) - sh(i)) / sc(i), "normalisation matrix"); vp_assert_eq(t, x(i) * sc(i) + sh(i), "inverse normalisation matrix"); vp_assert_eq(A(N, i), 0, "homogeneous matrix"); vp_assert_eq(B(N, i), 0, "homogeneous matrix"); } }
VP_CASE(normalise_matrix_2) { normmat<2>(); }
VP_CASE(normalise_matrix_3) { normmat<3>(); }

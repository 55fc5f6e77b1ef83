//@ property P13
//@ sources utAlgorithm/Correlation.cpp utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds averages and distributions of 1 to 3 values of 1 to 3 dimensions (orientations and poses: every pair), correlation of up to 3 values, Mahalanobis distance in 2 and 3 dimensions, backward propagation from 3 measurements to 2 parameters, k-means of 3 points in 1 and 2 dimensions to 1 and 2 clusters from arbitrary initial centroids
//@ assume exact real arithmetic: rounding is not modelled
//@ assume gesvd hands out any singular value decomposition of the matrix; random numbers are arbitrary values of the requested range
#include "hmath.h"
#include <vector>
#include <list>
#ifndef VP_REAL_RANDOM
#define __H__RANDOM_NUMBERS_H__
namespace Ubitrack { namespace Math { namespace Random {
template <typename T> inline T distribute_uniform(const T a, const T b) { int k = vp_choice("random", (int)(b - a + 1)); return a + k; }
template <> inline double distribute_uniform<double>(const double a, const double b) { double r = vp_real("random"); vp_assume(r >= a); vp_assume(r <= b); return r; }
} } }
#endif
#include <cmath>
#include <cassert>
#include <utMath/ErrorPose.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Correlation.h>
#include <utAlgorithm/Correlation.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/BackwardPropagation.h>
#include <utMath/Stochastic/k_means.h>
#include <utUtil/Exception.h>
#include <algorithm>
using namespace Math;
namespace S = Math::Stochastic;
template <std::size_t N> static void avg(int n) {
  std::vector<Vector<double, N> > p; double m[N], C[N][N]; for (std::size_t i = 0; i < N; i++) { m[i] = 0; for (std::size_t j = 0; j < N; j++) C[i][j] = 0; }
  for (int k = 0; k < n; k++) { p.push_back(inVec<N>("p")); for (std::size_t i = 0; i < N; i++) m[i] += p[k](i); }
  for (std::size_t i = 0; i < N; i++) m[i] /= n;
  for (int k = 0; k < n; k++) for (std::size_t i = 0; i < N; i++) for (std::size_t j = 0; j < N; j++) C[i][j] += (p[k](i) - m[i]) * (p[k](j) - m[j]) / n;
  S::Average<Vector<double, N> > a; a = std::for_each(p.begin(), p.end(), a); Vector<double, N> r = a.getAverage(); for (std::size_t i = 0; i < N; i++) vp_assert_eq(r(i), m[i], "average of vectors");
  S::Average<ErrorVector<double, N> > e; e = std::for_each(p.begin(), p.end(), e); ErrorVector<double, N> v = e.getAverage(); for (std::size_t i = 0; i < N; i++) { vp_assert_eq(v.value(i), m[i], "average of vectors"); for (std::size_t j = 0; j < N; j++) vp_assert_eq(v.covariance(i, j), C[i][j], "covariance of vectors"); }
  S::Gaussian<double, N> g; vp_assert(S::estimate_gaussian(p.begin(), p.end(), g), "a distribution is estimated"); double tr = 0;
  for (std::size_t i = 0; i < N; i++) { vp_assert_eq(g.mean[i], m[i], "mean of a distribution"); tr += C[i][i]; for (std::size_t j = 0; j < N; j++) vp_assert_eq(g.covariance[i * N + j], C[i][j], "covariance of a distribution"); }
  vp_assert_eq(g.variance, tr, "variance of a distribution"); vp_assert_eq(g.standardDeviation * g.standardDeviation, tr, "standard deviation of a distribution"); vp_assert(g.standardDeviation >= 0, "standard deviation is not negative");
}
VP_CASE(average_1_1) { avg<2>(1); }
VP_CASE(average_1_3) { avg<2>(3); }
VP_CASE(average_2_2) { avg<3>(2); }
VP_CASE(average_3_3) { avg<3>(3); }
VP_CASE(average_scalar) { S::Average<double> a; S::Average<Scalar<double> > b; double s = 0; for (int k = 0; k < 3; k++) { double x = vp_real("x"); s += x; a(x); b(Scalar<double>(x)); vp_assert_eq(a.getAverage(), s / (k + 1), "average of numbers"); vp_assert_eq((double)b.getAverage(), s / (k + 1), "average of scalars"); } }
template <std::size_t N> static void weighted(int n) {
  std::vector<Vector<double, N> > p; std::vector<double> w; double m[N], C[N][N]; for (std::size_t i = 0; i < N; i++) { m[i] = 0; for (std::size_t j = 0; j < N; j++) C[i][j] = 0; }
  double left = 1; for (int k = 0; k < n; k++) { p.push_back(inVec<N>("p")); double x = vp_real("w"); vp_assume(x >= 0); vp_assume(x <= left); if (k == n - 1) x = left; left -= x; w.push_back(x); for (std::size_t i = 0; i < N; i++) m[i] += x * p[k](i); }
  for (int k = 0; k < n; k++) for (std::size_t i = 0; i < N; i++) for (std::size_t j = 0; j < N; j++) C[i][j] += w[k] * (p[k](i) - m[i]) * (p[k](j) - m[j]);
  S::Gaussian<double, N> g; vp_assert(S::estimate_gaussian(p.begin(), p.end(), w.begin(), g), "a distribution is estimated"); double tr = 0;
  for (std::size_t i = 0; i < N; i++) { vp_assert_eq(g.mean[i], m[i], "mean of a weighted distribution"); tr += C[i][i]; for (std::size_t j = 0; j < N; j++) vp_assert_eq(g.covariance[i * N + j], C[i][j], "covariance of a weighted distribution"); }
  vp_assert_eq(g.variance, tr, "variance of a weighted distribution"); vp_assume(tr >= 0); vp_assert_eq(g.standardDeviation * g.standardDeviation, tr, "standard deviation of a weighted distribution");
}
VP_CASE(gaussian_weighted_2) { weighted<2>(3); }
VP_CASE(gaussian_weighted_3) { weighted<3>(2); }
VP_CASE(gaussian_empty) { std::vector<V2> p; std::vector<double> w; S::Gaussian<double, 2> g; vp_assert(!S::estimate_gaussian(p.begin(), p.end(), g), "nothing to estimate"); vp_assert(!S::estimate_gaussian(p.begin(), p.end(), w.begin(), g), "nothing to estimate"); for (int i = 0; i < 2; i++) vp_assert_eq(g.mean[i], 0, "empty distribution is zero"); for (int i = 0; i < 4; i++) vp_assert_eq(g.covariance[i], 0, "empty distribution is zero"); }
VP_CASE(gaussian_index) { std::vector<V2> p; std::vector<int> ix; int c = 0; double m[2] = {0, 0}, C[2][2] = {{0, 0}, {0, 0}}; for (int k = 0; k < 3; k++) { p.push_back(inV2("p")); ix.push_back(vp_choice("cluster", 2)); if (ix[k] == 1) { c++; for (int i = 0; i < 2; i++) m[i] += p[k](i); } } vp_assume(c > 0); for (int i = 0; i < 2; i++) m[i] /= c; for (int k = 0; k < 3; k++) if (ix[k] == 1) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) C[i][j] += (p[k](i) - m[i]) * (p[k](j) - m[j]) / c;
  S::Gaussian<double, 2> g; vp_assert(S::estimate_gaussian_index(p.begin(), p.end(), ix.begin(), 1, g), "a distribution is estimated"); for (int i = 0; i < 2; i++) { vp_assert_eq(g.mean[i], m[i], "mean of the selected values"); for (int j = 0; j < 2; j++) vp_assert_eq(g.covariance[i * 2 + j], C[i][j], "covariance of the selected values"); } vp_assert_eq(g.variance, C[0][0] + C[1][1], "variance of the selected values"); }
static double qv(const Quaternion& q, int i) { return i == 0 ? q.x() : i == 1 ? q.y() : i == 2 ? q.z() : q.w(); }
// two orientations q0 (c +- s n), each given by either of its quaternions
struct Pair { double q[2][4]; };
static void pair(Pair& P, Quaternion* q) { double one = (double)(vp_symbolic() | 1); static const int Q0[2][5] = {{2, 4, 5, 6, 9}, {1, -5, -3, 1, 6}}, N0[2][4] = {{2, 3, 6, 7}, {-2, 1, 2, 3}}; const int *z = Q0[vp_choice("q0", 2)], *v = N0[vp_choice("n", 2)]; double cs[2]; vp_unit(cs, 2, "half"); vp_assume(cs[0] > 0.01); double x = z[0] * one / z[4], y = z[1] * one / z[4], u = z[2] * one / z[4], w = z[3] * one / z[4], h = cs[0];
  for (int k = 0; k < 2; k++) { double g = k ? -cs[1] : cs[1], a = g * v[0] / v[3], b = g * v[1] / v[3], d = g * v[2] / v[3]; double* o = P.q[k]; o[0] = w * a + x * h + y * d - u * b; o[1] = w * b - x * d + y * h + u * a; o[2] = w * d + x * b - y * a + u * h; o[3] = w * h - x * a - y * b - u * d; vp_assume(o[3] > 0.001); double s = vp_choice("sign", 2) ? -1 : 1; q[k] = Quaternion(s * o[0], s * o[1], s * o[2], s * o[3]); } }
static void meanQ(const Pair& P, const Quaternion& r) { double m[4], n = 0, d = 0; for (int i = 0; i < 4; i++) { m[i] = P.q[0][i] + P.q[1][i]; n += qv(r, i) * qv(r, i); d += m[i] * qv(r, i); } vp_assert_eq(n, 1, "average orientation has unit length"); for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) vp_assert_eq(m[i] * qv(r, j), m[j] * qv(r, i), "average orientation"); vp_assert(r.w() > 0, "average orientation in the positive hemisphere"); }
VP_CASE(average_rotation) { Pair P; Quaternion q[2]; pair(P, q); S::Average<Quaternion> a; a(q[0]); a(q[1]); meanQ(P, a.getAverage()); }
VP_CASE(average_rotation_1) { double u[4]; vp_unit(u, 4, "q"); S::Average<Quaternion> a; a(Quaternion(u[0], u[1], u[2], u[3])); Quaternion r = a.getAverage(); double s = u[3] < 0 ? -1 : 1; for (int i = 0; i < 4; i++) vp_assert_eq(qv(r, i), s * u[i], "average of one orientation"); }
VP_CASE(average_pose) { Pair P; Quaternion q[2]; pair(P, q); V3 t[2]; S::Average<Pose> a; for (int k = 0; k < 2; k++) { t[k] = inV3("t"); a(Pose(q[k], t[k])); } Pose r = a.getAverage(); meanQ(P, r.rotation()); for (int i = 0; i < 3; i++) vp_assert_eq(r.translation()(i), (t[0](i) + t[1](i)) / 2, "average position"); }
VP_CASE(average_errorpose) { Pair P; Quaternion q[2]; pair(P, q); V3 t[2], m; S::Average<ErrorPose> a; for (int k = 0; k < 2; k++) { t[k] = inV3("t"); a(Pose(q[k], t[k])); } ErrorPose r = a.getAverage(); meanQ(P, r.rotation()); double e[2][6];
  for (int i = 0; i < 3; i++) { m(i) = (t[0](i) + t[1](i)) / 2; vp_assert_eq(r.translation()(i), m(i), "average position"); }
  for (int k = 0; k < 2; k++) { double x = -r.rotation().x(), y = -r.rotation().y(), z = -r.rotation().z(), w = r.rotation().w(), *g = P.q[k], a = g[0], b = g[1], d = g[2], h = g[3]; e[k][3] = w * a + x * h + y * d - z * b; e[k][4] = w * b - x * d + y * h + z * a; e[k][5] = w * d + x * b - y * a + z * h; for (int i = 0; i < 3; i++) e[k][i] = t[k](i) - m(i); }
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vp_assert_eq(r.covariance()(i, j), (e[0][i] * e[0][j] + e[1][i] * e[1][j]) / 2, "covariance of poses in the frame of the average"); }
static void corr(int n1, int n2) { std::vector<double> a, b; for (int i = 0; i < n1; i++) a.push_back(vp_real("a")); for (int i = 0; i < n2; i++) b.push_back(vp_real("b")); int n = n1 < n2 ? n1 : n2; double ma = 0, mb = 0, va = 0, vb = 0, c = 0; for (int i = 0; i < n; i++) { ma += a[i] / n; mb += b[i] / n; } for (int i = 0; i < n; i++) { va += (a[i] - ma) * (a[i] - ma); vb += (b[i] - mb) * (b[i] - mb); c += (a[i] - ma) * (b[i] - mb); } vp_assume(va > 0); vp_assume(vb > 0); vp_assume(va * vb > 0); double r = S::correlation(a.begin(), a.end(), b.begin(), b.end()); vp_assert_eq(r * r * (va * vb), c * c, "correlation coefficient"); vp_assert_eq(Ubitrack::Algorithm::computeCorrelation(a, b), r, "correlation of whole lists"); vp_assert(c > 0 ? r > 0 : c < 0 ? r < 0 : r == 0, "sign of the correlation"); }
VP_CASE(correlation_empty) { std::vector<double> a, b; vp_assert(Ubitrack::Algorithm::computeCorrelation(a, b) == 1, "empty lists are fully correlated"); }
VP_CASE(correlation_22) { corr(2, 2); }
VP_CASE(correlation_33) { corr(3, 3); }
VP_CASE(correlation_24) { corr(2, 4); }
VP_CASE(correlation_43) { corr(4, 3); }
VP_CASE(correlation_0) { std::vector<double> a; vp_assert_eq(S::correlation(a.begin(), a.end(), a.begin(), a.end()), 1, "empty sequences correlate"); }
template <std::size_t N> static double detC(const double* c) { if (N == 2) return c[0] * c[3] - c[1] * c[2]; double d = 0; for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; d += c[i] * (c[3 + a] * c[6 + b] - c[3 + b] * c[6 + a]); } return d; }
// covariance L L^T, difference L y: the distance is |y|
template <std::size_t N> static void mahal() { double L[N][N], y[N], d = 0; for (std::size_t i = 0; i < N; i++) { for (std::size_t j = 0; j < N; j++) L[i][j] = j <= i ? vp_real("L") : 0; vp_assume(L[i][i] > 0); y[i] = vp_real("y"); d += y[i] * y[i]; }
  S::Gaussian<double, N> g; Vector<double, N> p; for (std::size_t i = 0; i < N; i++) { g.mean[i] = vp_real("m"); p(i) = g.mean[i]; for (std::size_t j = 0; j < N; j++) { double s = 0; for (std::size_t k = 0; k < N; k++) s += L[i][k] * L[j][k]; g.covariance[i * N + j] = s; p(i) += L[i][j] * y[j]; } }
  S::MahalanobisDistance<S::Gaussian<double, N> > M(g); double r = M(p); vp_assert_eq(r * r, d, "Mahalanobis distance"); vp_assert(r >= 0, "distance is not negative"); }
VP_CASE(mahalanobis_2) { mahal<2>(); }
VP_CASE(mahalanobis_3) { mahal<3>(); }
VP_CASE(mahalanobis_singular) { S::Gaussian<double, 2> g; g.mean[0] = g.mean[1] = 0; double a = vp_real("a"); g.covariance[0] = a; g.covariance[1] = g.covariance[2] = 2 * a; g.covariance[3] = 4 * a; bool t = false; try { S::MahalanobisDistance<S::Gaussian<double, 2> > M(g); } catch (const Ubitrack::Util::Exception&) { t = true; } vp_assert(t, "singular covariances are refused"); }
VP_CASE(weighted_order) { typedef S::Weighted<V2, double> W; V2 a = inV2("a"), b = inV2("b"); double u = vp_real("u"), v = vp_real("v"); W x(a, u), y(b, v), z(a), o; vp_assert((x < y) == (u < v), "ordered by weight"); vp_assert((x > y) == (u > v), "ordered by weight"); vp_assert((x == y) == (u == v), "ordered by weight"); vp_assert((x != y) == (u != v), "ordered by weight"); vp_assert_eq(x.weight, u, "weight kept"); eqV(x, a, 2, "value kept"); eqV(z, a, 2, "value kept"); vp_assert_eq(z.weight, 0, "default weight"); vp_assert_eq(o.weight, 0, "default weight"); }
static double gU[3][2], gV[2][2], gs[2];
#ifndef VP_NATIVE
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } vp_assert(*m == 3 && *n == 2, "decomposition of the right shape");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) vp_assert_eq(a[i + j * *lda], gU[i][0] * gs[0] * gV[j][0] + gU[i][1] * gs[1] * gV[j][1], "decomposition of the right matrix");
  for (int l = 0; l < 2; l++) s[l] = gs[l]; int uc = *ju == 'A' || *ju == 'S' ? 2 : 0; vp_assert(*ju != 'A', "unsupported"); for (int i = 0; i < 3; i++) for (int j = 0; j < uc; j++) u[i + j * *ldu] = gU[i][j];
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { if (*jv == 'A' || *jv == 'S') vt[i + j * *ldvt] = gV[j][i]; if (*jv == 'O') a[i + j * *lda] = gV[j][i]; } }
#endif
static void svd() { double q[4], c[2]; vp_unit(q, 4, "U"); vp_unit(c, 2, "V"); double R[3][3]; refRot(q[0], q[1], q[2], q[3], R); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) gU[i][j] = R[i][j]; gV[0][0] = c[0]; gV[1][0] = c[1]; gV[0][1] = -c[1]; gV[1][1] = c[0]; gs[0] = vp_real("s"); gs[1] = vp_real("s"); vp_assume(gs[1] > 0.001); vp_assume(gs[0] >= gs[1]); vp_assume(gs[0] < 1000); }
struct Fn { double J[3][2]; std::size_t size() const { return 3; } template <class V, class M> void jacobian(const V& x, M& j) const { for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) j(i, k) = J[i][k]; } };
static void bp(int kind) { svd(); double g[3] = {1, 1, 1}, s = 1; if (kind >= 2) for (int i = 0; i < 3; i++) { g[i] = vp_real("sd"); vp_assume(g[i] > 0.01); } else { s = vp_real("sd"); vp_assume(s > 0); } Fn f; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) f.J[i][j] = g[i] * (gU[i][0] * gs[0] * gV[j][0] + gU[i][1] * gs[1] * gV[j][1]);
  Matrix<double, 0, 0> r(2, 2), J(3, 2); Vector<double> x(2), e(3); for (int i = 0; i < 3; i++) { e(i) = g[i] * g[i]; for (int j = 0; j < 2; j++) J(i, j) = f.J[i][j]; } x(0) = x(1) = 0;
  if (kind == 0) S::backwardPropagationIdentity(r, s * s, J); else if (kind == 1) S::backwardPropagationIdentity(r, s * s, f, x); else if (kind == 2) S::backwardPropagationDiagonal(r, e, J); else S::backwardPropagationDiagonal(r, e, f, x);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double t = 0; for (int l = 0; l < 2; l++) t += gV[i][l] * s * s / (gs[l] * gs[l]) * gV[j][l]; vp_assert_eq(r(i, j), t, "covariance of the parameters is the inverse of the weighted normal matrix"); } }
VP_CASE(backward_identity) { bp(0); }
VP_CASE(backward_identity_f) { bp(1); }
VP_CASE(backward_diagonal) { bp(2); }
VP_CASE(backward_diagonal_f) { bp(3); }
template <std::size_t N> static double sq(const Vector<double, N>& a, const Vector<double, N>& b) { double s = 0; for (std::size_t i = 0; i < N; i++) s += (a(i) - b(i)) * (a(i) - b(i)); return s; }
template <std::size_t N> static void kmeans(int n, int k) { typedef Vector<double, N> V; std::vector<V> p, m; for (int i = 0; i < n; i++) p.push_back(inVec<N>("p")); for (int i = 0; i < k; i++) m.push_back(inVec<N>("m"));
  std::vector<std::size_t> ix(n); double e; if (k == 2) { // both clusters own a point at the start
    vp_assume(sq(p[0], m[0]) <= sq(p[0], m[1])); vp_assume(sq(p[n - 1], m[1]) < sq(p[n - 1], m[0])); }
  e = S::k_means(p.begin(), p.end(), m.begin(), m.end(), ix.begin(), SquaredDistance<V>()); vp_assert(e < 1e-4, "converged");
  for (int i = 0; i < n; i++) { vp_assert(ix[i] < (std::size_t)k, "cluster of a point exists"); for (int j = 0; j < k; j++) vp_assert(!(sq(p[i], m[j]) < sq(p[i], m[ix[i]])), "points belong to the nearest centroid"); }
  if (k == 1) { for (std::size_t c = 0; c < N; c++) { double s = 0; for (int i = 0; i < n; i++) s += p[i](c) / n; vp_assert_eq(m[0](c), s, "a single centroid is the mean"); } }
  else { // each centroid is the mean of a non-empty set of the points, and the sets partition them
    double s[N], t[N]; int ok = 0; for (int mask = 1; mask < (1 << n) - 1; mask++) { int c0 = 0; for (std::size_t c = 0; c < N; c++) s[c] = t[c] = 0; for (int i = 0; i < n; i++) if (mask >> i & 1) c0++; for (int i = 0; i < n; i++) for (std::size_t c = 0; c < N; c++) if (mask >> i & 1) s[c] += p[i](c) / c0; else t[c] += p[i](c) / (n - c0); int same = 1; for (std::size_t c = 0; c < N; c++) same &= (m[0](c) - s[c] < 1e-9) & (s[c] - m[0](c) < 1e-9) & (m[1](c) - t[c] < 1e-9) & (t[c] - m[1](c) < 1e-9); ok |= same; } vp_assert(ok, "centroids are the means of a partition of the points"); } }
VP_CASE(kmeans_1) { kmeans<2>(3, 1); }
VP_CASE(kmeans_2) { kmeans<1>(3, 2); }
VP_CASE(kmeans_seed) { std::vector<V2> p, s; int n = 3; for (int i = 0; i < n; i++) { V2 v; v(0) = i * i; v(1) = 0; p.push_back(v); } int k = 1 + vp_choice("clusters", 3); std::size_t r = S::copy_probability(p.begin(), p.end(), k, std::back_inserter(s), Distance<V2>()); vp_assert(r == s.size(), "number of seeds"); vp_assert((int)r == k, "number of seeds"); for (std::size_t i = 0; i < r; i++) { int f = 0; for (int j = 0; j < n; j++) f |= s[i](0) == p[j](0) && s[i](1) == p[j](1); vp_assert(f, "seeds are input points"); } }
VP_CASE(kmeans_greedy) { std::vector<V2> p, s; for (int i = 0; i < 3; i++) p.push_back(inV2("p")); int k = 1 + vp_choice("clusters", 3); S::copy_greedy(p.begin(), p.end(), k, std::back_inserter(s)); vp_assert((int)s.size() == k, "number of seeds"); for (int i = 0; i < k; i++) eqV(s[i], p[i], 2, "the first points"); }

//@ property P28
//@ sources utUtil/Exception.cpp
//@ libs log4cpp
//@ models lapack
//@ bounds the first iteration (two for a single distribution of fixed values); 3 values of 2 dimensions and 1 to 2 distributions with diagonal or full covariance
//@ assume exact real arithmetic: rounding is not modelled; exp is an arbitrary positive function of its argument
#include "hmath.h"
#include <numeric>
#include <utMath/Matrix.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/expectation_maximization.h>
using namespace Math;
namespace S = Math::Stochastic;
typedef S::Weighted<S::Gaussian<double, 2>, double> W;
static const double Z2 = (2.0 * 3.14159) * (2.0 * 3.14159);
static double quad(const double* c, double d0, double d1) { return (c[3] * d0 * d0 - (c[1] + c[2]) * d0 * d1 + c[0] * d1 * d1) / (c[0] * c[3] - c[1] * c[2]); }
static void density(bool full) { W w; w.mean[0] = vp_real("m"); w.mean[1] = vp_real("m"); double a = vp_real("a"), b = vp_real("b"), c = full ? vp_real("c") : 0; vp_assume(a > 0.1); vp_assume(b > 0.1); vp_assume(a * b - c * c > 0.1); w.covariance[0] = a; w.covariance[3] = b; w.covariance[1] = w.covariance[2] = c; S::Probability<W> p(w); double x[2] = {vp_real("x"), vp_real("y")}; double d0 = x[0] - w.mean[0], d1 = x[1] - w.mean[1]; vp_assert_eq(p(x), exp(-0.5 * quad(w.covariance, d0, d1)) / sqrt(Z2 * (a * b - c * c)), "the density of a normal distribution"); }
VP_CASE(density_diagonal) { density(false); }
VP_CASE(density_full) { density(true); }
VP_CASE(density_3) { S::Gaussian<double, 3> g; double v[3], x[3]; for (int i = 0; i < 9; i++) g.covariance[i] = 0; for (int i = 0; i < 3; i++) { v[i] = vp_real("v"); vp_assume(v[i] > 0.1); g.covariance[4 * i] = v[i]; g.mean[i] = vp_real("m"); x[i] = vp_real("x"); } double q = 0; for (int i = 0; i < 3; i++) q += (x[i] - g.mean[i]) * (x[i] - g.mean[i]) / v[i]; S::Probability<S::Gaussian<double, 3> > p(g); double r = p(x), d = exp(-0.5 * q); vp_assert(r > 0, "a density is positive"); double z = 2 * 3.14159; vp_assert_eq(r * r * (z * z * z * v[0] * v[1] * v[2]), d * d, "the density of a normal distribution"); }
VP_CASE(density_singular) { W w; w.mean[0] = w.mean[1] = 0; double a = vp_real("a"), b = vp_real("b"); w.covariance[0] = a * a; w.covariance[1] = w.covariance[2] = a * b; w.covariance[3] = b * b; S::Probability<W> p(w); double x[2] = {vp_real("x"), vp_real("y")}; vp_assert(p(x) == 0, "a distribution without an area has no density"); }
VP_CASE(likelihood) { double one = (double)(vp_symbolic() | 1); W w[2]; double x[2][2]; double total[2] = {0, 0}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) x[i][j] = vp_real("x"); for (int k = 0; k < 2; k++) { w[k].weight = vp_real("w"); vp_assume(w[k].weight > 0.01); for (int i = 0; i < 2; i++) w[k].mean[i] = vp_real("m"); w[k].covariance[0] = 1 + k; w[k].covariance[3] = k ? 2 : 4; w[k].covariance[1] = w[k].covariance[2] = 0; for (int i = 0; i < 2; i++) total[i] += w[k].weight * exp(-0.5 * quad(w[k].covariance, x[i][0] - w[k].mean[0], x[i][1] - w[k].mean[1])) / sqrt(Z2 * 4 * one); } vp_assert_eq(S::log_likelihood<double>(w, w + 2, x, x + 2), (log(total[0]) + log(total[1])) / 2, "the mean log-likelihood of the mixture"); }
// ---- one iteration: a weight that knows when the second iteration starts (the third for a single distribution)
struct Dist; static Dist* vp_dist; static int vp_iter, vp_k, vp_assigned; static void check();
struct Weight { double v; bool first() const; operator double() const { if (first() && vp_assigned == vp_k && vp_k > 1) { vp_assigned = 0; check(); vp_end_path(); } return v; } Weight& operator=(double d) { if (vp_assigned == (vp_k * vp_iter)) { check(); vp_end_path(); } vp_assigned++; v = d; return *this; } };
struct Dist : S::Gaussian<double, 2> { Weight weight; };
bool Weight::first() const { return this == &vp_dist[0].weight; }
static double X[3][2], M[2][2], C[2][4], Wt[2];
struct Pt { double v[2]; double operator[](std::size_t i) const { return v[i]; } };
static void check() { double g[2][3], s[3] = {0, 0, 0}; for (int k = 0; k < vp_k; k++) for (int i = 0; i < 3; i++) s[i] += g[k][i] = Wt[k] * exp(-0.5 * quad(C[k], X[i][0] - M[k][0], X[i][1] - M[k][1])) / sqrt(C[k][0] * C[k][3] - C[k][1] * C[k][2]);
  for (int k = 0; k < vp_k; k++) { double n = 0, m[2] = {0, 0}, c[3] = {0, 0, 0}; const Dist& d = vp_dist[k]; for (int i = 0; i < 3; i++) { double r = g[k][i] / s[i]; n += r; for (int j = 0; j < 2; j++) m[j] += r * X[i][j]; for (int j = 0; j < 3; j++) c[j] += r * (X[i][j == 2] - d.mean[j == 2]) * (X[i][j > 0] - d.mean[j > 0]); }
    vp_assert_eq(d.weight * 3, n, "the weight is the mean responsibility"); for (int j = 0; j < 2; j++) vp_assert_eq(d.mean[j] * n, m[j], "the mean is weighted with the responsibilities"); for (int j = 0; j < 3; j++) vp_assert_eq(d.covariance[j == 0 ? 0 : j == 1 ? 1 : 3] * n, c[j], "the covariance is weighted with the responsibilities"); vp_assert_eq(d.covariance[2], d.covariance[1], "the covariance is symmetric"); } }
static void em(int k, bool points, int which = 0) { static const double pts[3][2] = {{0, 1}, {2, -1}, {-1, 3}}, cs[2][4] = {{1, 0.5, 0.5, 1.25}, {4, 0, 0, 2.25}}, ms[2][2] = {{0.5, 1}, {-1, 2}}; vp_k = k; vp_iter = k == 1 && !points ? 2 : 1; vp_assigned = 0; Pt p[3]; Dist d[2]; vp_dist = d;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) p[i].v[j] = X[i][j] = points && (k == 1 || (which < 0 || i == which)) ? vp_real("x") : pts[i][j];
  for (int c = 0; c < k; c++) { double w = Wt[c] = c ? 1 - Wt[0] : k == 1 ? 1 : points ? 0.25 : vp_real("w"); vp_in(w, 0.01, 1); d[c].weight.v = w; for (int j = 0; j < 2; j++) d[c].mean[j] = M[c][j] = points ? ms[c][j] : vp_real("m"); for (int j = 0; j < 4; j++) d[c].covariance[j] = C[c][j] = cs[c][j]; }
  S::expectation_maximization(p, p + 3, d, d + k); check(); }
VP_CASE(one_points) { em(1, true); }
VP_CASE(one_means) { em(1, false); }
VP_CASE(two_points_0) { em(2, true, 0); }
VP_CASE(two_points_2) { em(2, true, 2); }
VP_CASE(two_points_all) { em(2, true, -1); }
VP_CASE(two_means) { em(2, false); }

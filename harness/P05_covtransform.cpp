//@ property P05
//@ sources
//@ bounds vectors of 2 to 4 elements, every sub-range pair of a 4-vector (overlapping or not); arbitrary Jacobians and symmetric covariances over exact reals
//@ assume exact real arithmetic: rounding is not modelled
#include "hmath.h"
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/CovarianceTransform.h>
using namespace Math;
struct F { double J[4][4], y[4]; int m, n; F(int m_, int n_) : m(m_), n(n_) { for (int i = 0; i < m; i++) { y[i] = vp_real("y"); for (int j = 0; j < n; j++) J[i][j] = vp_real("J"); } }
  template <class A, class B, class M> void evaluateWithJacobian(A& r, const B& in, M& jac) const { for (int i = 0; i < m; i++) { r(i) = y[i] + in(0); for (int j = 0; j < n; j++) jac(i, j) = J[i][j]; } } };
struct G { F f, g; G() : f(2, 3), g(2, 2) {} template <class A, class B, class C, class M, class N> void evaluateWithJacobian(A& r, const B& a, const C& b, M& ja, N& jb) const { for (int i = 0; i < 2; i++) { r(i) = f.y[i]; for (int j = 0; j < 3; j++) ja(i, j) = f.J[i][j]; for (int j = 0; j < 2; j++) jb(i, j) = g.J[i][j]; } } };
VP_CASE(unary) { F f(2, 3); ErrorVector<double, 3> in(inV3("x"), inSym<3>("P")); ErrorVector<double, 2> r = Stochastic::transformWithCovariance<2, 3>(f, in); for (int i = 0; i < 2; i++) { vp_assert_eq(r.value(i), f.y[i] + in.value(0), "value"); for (int j = 0; j < 2; j++) { double s = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) s += f.J[i][k] * in.covariance(k, l) * f.J[j][l]; vp_assert_eq(r.covariance(i, j), s, "J P J^T"); } } }
VP_CASE(unary_dynamic) { F f(3, 2); Vector<double, 0> x(2); x(0) = vp_real("x"); x(1) = vp_real("x"); Matrix<double, 0, 0> P(2, 2); P(0, 0) = vp_real("P"); P(1, 1) = vp_real("P"); P(0, 1) = P(1, 0) = vp_real("P"); Vector<double, 0> r(3); Matrix<double, 0, 0> C(3, 3); Stochastic::transformWithCovariance(f, r, C, x, P); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) s += f.J[i][k] * P(k, l) * f.J[j][l]; vp_assert_eq(C(i, j), s, "J P J^T (run-time sizes)"); } }
VP_CASE(binary) { G g; ErrorVector<double, 3> a(inV3("a"), inSym<3>("P")); ErrorVector<double, 2> b(inV2("b"), inSym<2>("Q")); ErrorVector<double, 2> r; Stochastic::binarytransformWithCovariance(g, r.value, r.covariance, a.value, a.covariance, b.value, b.covariance); for (int i = 0; i < 2; i++) { vp_assert_eq(r.value(i), g.f.y[i], "value"); for (int j = 0; j < 2; j++) { double s = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) s += g.f.J[i][k] * a.covariance(k, l) * g.f.J[j][l]; for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) s += g.g.J[i][k] * b.covariance(k, l) * g.g.J[j][l]; vp_assert_eq(r.covariance(i, j), s, "J1 P J1^T + J2 Q J2^T"); } } }
VP_CASE(range) { int ob = vp_choice("ob", 4), on = 1 + vp_choice("on", 3), ib = vp_choice("ib", 4), in = 1 + vp_choice("in", 3); vp_assume(ob + on <= 4); vp_assume(ib + in <= 4); F f(on, in); ErrorVector<double, 4> v(inVec<4>("x"), inSym<4>("P")); ErrorVector<double, 4> o = v; Stochastic::transformRangeInternalWithCovariance<4>(f, v, ob, ob + on, ib, ib + in);
  double T[4][4]; for (int i = 0; i < 4; i++) { bool out = i >= ob && i < ob + on; vp_assert_eq(v.value(i), out ? f.y[i - ob] + o.value(ib) : o.value(i), "updated sub-vector, rest untouched"); for (int j = 0; j < 4; j++) T[i][j] = out ? (j >= ib && j < ib + in ? f.J[i - ob][j - ib] : 0) : i == j; }
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double s = 0; for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) s += T[i][k] * o.covariance(k, l) * T[j][l]; vp_assert_eq(v.covariance(i, j), s, "joint covariance after updating a sub-vector"); } }

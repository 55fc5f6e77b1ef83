//@ property P06
//@ sources
//@ models lapack
//@ bounds state of 2 to 4 elements, measurement of 1 to 3 elements, every sub-range of the state as measurement input; arbitrary states, Jacobians, covariances and measurements over exact reals with an invertible innovation covariance
//@ assume exact real arithmetic: rounding is not modelled
//@ assume BLAS/LAPACK calls (symm, potrf, potri, getrf, getri) compute what they document: replaced by models/lapack.cpp
#include "hmath.h"
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/Kalman.h>
using namespace Math;
template <int M, int N> struct F { double J[M][N], y[M]; F() { for (int i = 0; i < M; i++) { y[i] = vp_real("h"); for (int j = 0; j < N; j++) J[i][j] = vp_real("J"); } }
  template <class A, class B, class C> void evaluateWithJacobian(A& r, const B& in, C& jac) const { for (int i = 0; i < M; i++) { r(i) = y[i] + in(0); for (int j = 0; j < N; j++) jac(i, j) = J[i][j]; } } };
// N state size, M measurement size, [b, b+K) the sub-vector the measurement function sees.  S, the innovation covariance, is the free input: R = S - H P H^T.
// pd: S positive definite (Cholesky path), else indefinite but invertible (LU path)
template <int M> static void refInv(const Matrix<double, M, M>& S, double X[M][M], double& det) {
  if (M == 1) { det = S(0, 0); X[0][0] = 1 / det; }
  else if (M == 2) { det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0); X[0][0] = S(1, 1) / det; X[1][1] = S(0, 0) / det; X[0][1] = -S(0, 1) / det; X[1][0] = -S(1, 0) / det; }
  else { double c[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (i + 1) % 3, b = (i + 2) % 3, d = (j + 1) % 3, e = (j + 2) % 3; c[i][j] = S(a, d) * S(b, e) - S(a, e) * S(b, d); } det = S(0, 0) * c[0][0] + S(0, 1) * c[0][1] + S(0, 2) * c[0][2]; for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) X[i][j] = c[j][i] / det; }
}
template <int N, int M> static void oracle(const ErrorVector<double, N>& before, const ErrorVector<double, N>& after, const double PH[N][M], const Matrix<double, M, M>& S, const double innov[M], const double PHr[N][M]) {
  double X[M][M], det; refInv<M>(S, X, det); double K[N][M]; for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) { K[i][j] = 0; for (int k = 0; k < M; k++) K[i][j] += PH[i][k] * X[k][j]; }
  for (int i = 0; i < N; i++) { double s = before.value(i); for (int j = 0; j < M; j++) s += K[i][j] * innov[j]; vp_assert_eq(after.value(i), s, "state moves by gain times innovation"); for (int j = 0; j < N; j++) { double c = before.covariance(i, j); for (int k = 0; k < M; k++) c -= K[i][k] * PHr[j][k]; vp_assert_eq(after.covariance(i, j), c, "covariance shrinks by gain times innovation covariance"); } }
}
template <int N, int M, int b, int K> static void update(bool pd) {
  F<M, K> f; ErrorVector<double, N> x(inVec<N>("x"), inSym<N>("P")), o; Matrix<double, M, M> S = inSym<M>("S"), R; double X[M][M], det; refInv<M>(S, X, det); vp_assume(det > 0.001 || det < -0.001);
  if (pd) { vp_assume(S(0, 0) > 0.001); if (M > 1) vp_assume(S(0, 0) * S(M > 1, M > 1) - S(0, M > 1) * S(0, M > 1) > 0.001); vp_assume(det > 0.001); } else { if (M == 1) vp_assume(S(0, 0) < -0.001); else vp_assume(S(0, 0) <= 0 || S(0, 0) * S(M > 1, M > 1) - S(0, M > 1) * S(0, M > 1) <= 0); }
  double PH[N][M]; for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) { PH[i][j] = 0; for (int k = 0; k < K; k++) PH[i][j] += x.covariance(i, b + k) * f.J[j][k]; }
  for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) { double s = 0; for (int k = 0; k < K; k++) s += f.J[i][k] * PH[b + k][j]; R(i, j) = S(i, j) - s; }
  ErrorVector<double, M> z(inVec<M>("z"), R); o = x; double in[M]; for (int i = 0; i < M; i++) in[i] = z.value(i) - (f.y[i] + x.value(b));
  Stochastic::kalmanMeasurementUpdate<N, M>(x, f, z, b, b + K); oracle<N, M>(o, x, PH, S, in, PH); }
template <int N, int M, int b> static void identity(bool pd) {
  ErrorVector<double, N> x(inVec<N>("x"), inSym<N>("P")), o; Matrix<double, M, M> S = inSym<M>("S"), R; double X[M][M], det; refInv<M>(S, X, det); vp_assume(det > 0.001 || det < -0.001);
  if (pd) { vp_assume(S(0, 0) > 0.001); if (M > 1) vp_assume(S(0, 0) * S(M > 1, M > 1) - S(0, M > 1) * S(0, M > 1) > 0.001); vp_assume(det > 0.001); } else { if (M == 1) vp_assume(S(0, 0) < -0.001); else vp_assume(S(0, 0) <= 0 || S(0, 0) * S(M > 1, M > 1) - S(0, M > 1) * S(0, M > 1) <= 0); }
  double PH[N][M]; for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) PH[i][j] = x.covariance(i, b + j);
  for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) R(i, j) = S(i, j) - x.covariance(b + i, b + j);
  ErrorVector<double, M> z(inVec<M>("z"), R); o = x; double in[M]; for (int i = 0; i < M; i++) in[i] = z.value(i) - x.value(b + i);
  Stochastic::kalmanMeasurementUpdateIdentity<N, M>(x, z, b, b + M); oracle<N, M>(o, x, PH, S, in, PH); }
VP_CASE(update_1d) { update<2, 1, 0, 2>(true); }
VP_CASE(update_1d_negative) { update<2, 1, 0, 2>(false); }
VP_CASE(update_2d) { update<3, 2, 0, 3>(true); }
VP_CASE(update_2d_indefinite) { update<2, 2, 0, 2>(false); }
VP_CASE(update_subrange) { update<4, 2, 1, 2>(true); }
VP_CASE(update_subrange_first) { update<4, 2, 0, 2>(true); }
VP_CASE(update_subrange_last) { update<4, 1, 3, 1>(true); }
VP_CASE(update_3d) { update<3, 3, 0, 3>(true); }
VP_CASE(identity_1) { identity<3, 1, 1>(true); }
VP_CASE(identity_1_negative) { identity<3, 1, 2>(false); }
VP_CASE(identity_2) { identity<4, 2, 1>(true); }
VP_CASE(identity_2_indefinite) { identity<3, 2, 1>(false); }
VP_CASE(identity_3) { identity<4, 3, 0>(true); }
VP_CASE(identity_3_last) { identity<4, 3, 1>(true); }
// run-time sized vectors and matrices go through the same code
VP_CASE(dynamic) { Vector<double, 0> x(2), z(1); Matrix<double, 0, 0> P(2, 2), R(1, 1); x(0) = vp_real("x"); x(1) = vp_real("x"); P(0, 0) = vp_real("P"); P(1, 1) = vp_real("P"); P(0, 1) = P(1, 0) = vp_real("P"); z(0) = vp_real("z"); double S = vp_real("S"); vp_assume(S > 0.001); R(0, 0) = S - P(1, 1); double x0 = x(0), x1 = x(1), p01 = P(0, 1), p11 = P(1, 1), p00 = P(0, 0); Stochastic::kalmanMeasurementUpdateIdentity(x, P, z, R, 1, 2);
  vp_assert_eq(x(0), x0 + p01 / S * (z(0) - x1), "run-time sized state"); vp_assert_eq(x(1), x1 + p11 / S * (z(0) - x1), "run-time sized state"); vp_assert_eq(P(0, 0), p00 - p01 * p01 / S, "run-time sized covariance"); vp_assert_eq(P(0, 1), p01 - p01 * p11 / S, "run-time sized covariance"); vp_assert_eq(P(1, 0), p01 - p01 * p11 / S, "run-time sized covariance"); vp_assert_eq(P(1, 1), p11 - p11 * p11 / S, "run-time sized covariance"); }

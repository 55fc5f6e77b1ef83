//@ property P12
//@ sources utUtil/Exception.cpp
//@ models lapack
//@ libs log4cpp
//@ bounds Levenberg-Marquardt: 1 parameter with 2 measurements for 3 iterations, 2 parameters with 2 measurements for 2 iterations, every objective function (its values and Jacobians at the visited points are free); Gauss-Newton: 1 and 2 parameters, 1 to 2 iterations, 2 to 3 measurements
//@ assume exact real arithmetic: rounding is not modelled
//@ assume LAPACK/BLAS (posv, gels, gelss, gemm, syrk) compute what they document: replaced by models/lapack.cpp
//@ case lm_2_qr time=200
//@ case lm_2_svd time=200
#include "hmath.h"
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/GaussNewton.h>
#include <utMath/Optimization/TukeyWeightFunction.h>
#include <vector>
using namespace Math;
#ifndef VP_NATIVE
extern "C" void dgetrf_(const int*, const int*, double*, const int*, int*, int*); extern "C" void dgetrs_(const char*, const int*, const int*, const double*, const int*, const int*, double*, const int*, int*);
extern "C" void dgelss_(const int* m, const int* n, const int* nrhs, double* a, const int* lda, double* b, const int* ldb, double* s, const double* rcond, int* rank, double* work, const int* lwork, int* info) { if (*lwork == -1) { work[0] = 1; *info = 0; return; } int ip[8]; dgetrf_(m, n, a, lda, ip, info); dgetrs_("N", n, nrhs, a, lda, ip, b, ldb, info); *rank = *n; }
#endif
// an arbitrary function: fresh values and Jacobian at every visited point, recorded together with the point
template <int M, int N> struct Call { double x[N], y[M], J[M][N]; };
template <int M, int N> struct Any { Call<M, N> c[6]; int n; Any() : n(0) {}
  template <class A, class B, class C> void evaluateWithJacobian(A& r, const B& in, C& jac) { Call<M, N>& k = c[n++]; for (int j = 0; j < N; j++) k.x[j] = in(j); for (int i = 0; i < M; i++) { k.y[i] = vp_real("y"); r(i) = k.y[i]; for (int j = 0; j < N; j++) { k.J[i][j] = vp_real("J"); jac(i, j) = k.J[i][j]; } } } };
struct Crit { int max; std::vector<double>* log; Crit(int m, std::vector<double>* l) : max(m), log(l) {} bool operator()(std::size_t it, double now, double prev) const { log->push_back((double)it); log->push_back(now); log->push_back(prev); return (int)it >= max; } };
struct Scale { double f; Scale(double x) : f(x) {} template <class X, class Y> void evaluate(X& r, const Y& p) const { r = p * f; } };
template <int M> struct Weights { double w[M]; bool noWeights() const { return false; } template <class A, class B> void computeWeights(const A&, B& o) const { for (int i = 0; i < M; i++) o(i) = w[i] * w[i]; } };
template <int M, int N> static void lm(int iters, Optimization::LmSolverType solver, bool weights, bool norm) {
  Any<M, N> f; Vector<double> x(N), m(M); double x0[N]; for (int j = 0; j < N; j++) x(j) = x0[j] = vp_real("x"); for (int i = 0; i < M; i++) m(i) = vp_real("m"); double sf = norm ? vp_real("scale") : 1; vp_assume(sf != 0); Weights<M> w; for (int i = 0; i < M; i++) { w.w[i] = weights ? vp_real("w") : 1; vp_assume(w.w[i] > 0); }
  double la = vp_real("step"), fac = 4; vp_assume(la > 0.01); std::vector<double> log; Crit crit(iters, &log); double res = 0; try { res = weights ? Optimization::weightedLevenbergMarquardt(f, x, m, crit, Scale(sf), w, solver, la, fac) : norm ? Optimization::levenbergMarquardt(f, x, m, crit, Scale(sf), solver, la, fac) : Optimization::levenbergMarquardt(f, x, m, crit, Optimization::OptNoNormalize(), solver, la, fac); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); }
  vp_assert(f.n == iters + 1, "one evaluation per iteration plus one at the start"); vp_assert((int)log.size() == 3 * iters, "termination criterion asked once per iteration"); double err[6]; for (int k = 0; k <= iters; k++) { err[k] = 0; for (int i = 0; i < M; i++) { double d = (m(i) - f.c[k].y[i]) * w.w[i]; err[k] += d * d; } }
  for (int j = 0; j < N; j++) vp_assert_eq(f.c[0].x[j], x0[j], "starts at the given parameters"); int best = 0;
  for (int k = 1; k <= iters; k++) { const Call<M, N>& b = f.c[best]; double d[N]; for (int j = 0; j < N; j++) d[j] = f.c[k].x[j] / sf - b.x[j];
    for (int j = 0; j < N; j++) { double s = la * d[j]; for (int i = 0; i < M; i++) { double jd = 0; for (int l = 0; l < N; l++) jd += b.J[i][l] * d[l]; s += w.w[i] * w.w[i] * b.J[i][j] * (jd - (m(i) - b.y[i])); } vp_assert_eq(s, 0, "trial step solves the damped normal equations"); }
    vp_assert_eq(log[3 * k - 3], k, "iteration count"); vp_assert_eq(log[3 * k - 2], err[k], "termination criterion sees the new residual"); vp_assert_eq(log[3 * k - 1], err[best], "termination criterion sees the previous residual"); if (err[k] < err[best]) { best = k; la = la / fac; } else la = la * fac; }
  for (int j = 0; j < N; j++) vp_assert_eq(x(j), f.c[best].x[j], "returns the best parameters visited"); vp_assert_eq(res, err[best], "returns the residual of the returned parameters"); vp_assert_le(res, err[0], "never worse than the start"); }
VP_CASE(lm_1) { lm<2, 1>(3, Optimization::lmUseCholesky, false, false); }
VP_CASE(lm_1_norm) { lm<2, 1>(3, Optimization::lmUseCholesky, false, true); }
VP_CASE(lm_1_weights) { lm<2, 1>(2, Optimization::lmUseCholesky, true, true); }
VP_CASE(lm_1_weights3) { lm<2, 1>(3, Optimization::lmUseCholesky, true, false); }
VP_CASE(lm_2) { lm<2, 2>(2, Optimization::lmUseCholesky, false, false); }
VP_CASE(lm_2_weights) { lm<2, 2>(1, Optimization::lmUseCholesky, true, true); }
VP_CASE(lm_1_qr) { lm<2, 1>(2, Optimization::lmUseQR, true, true); }
VP_CASE(lm_1_svd) { lm<2, 1>(2, Optimization::lmUseSVD, true, true); }
VP_CASE(lm_2_qr) { lm<2, 2>(1, Optimization::lmUseQR, false, false); }
VP_CASE(lm_2_svd) { lm<2, 2>(1, Optimization::lmUseSVD, false, false); }
// the default damping of 1, raised and lowered by a factor of 10
VP_CASE(lm_defaults) { Any<1, 1> f; Vector<double> x(1), m(1); x(0) = vp_real("x"); m(0) = vp_real("m"); double x0 = x(0); double r = Optimization::levenbergMarquardt(f, x, m, Optimization::OptTerminate(2), Optimization::OptNoNormalize()); double e[3]; for (int k = 0; k < 3; k++) { double d = m(0) - f.c[k].y[0]; e[k] = d * d; } vp_assert(f.n == 3, "two iterations"); double d1 = f.c[1].x[0] - x0, J = f.c[0].J[0][0]; vp_assert_eq((J * J + 1) * d1, J * (m(0) - f.c[0].y[0]), "initial damping is one"); bool b = e[1] < e[0]; J = f.c[b].J[0][0]; vp_assert_eq((J * J + (b ? 0.1 : 10)) * (f.c[2].x[0] - f.c[b].x[0]), J * (m(0) - f.c[b].y[0]), "damping changes tenfold"); double best = b ? e[1] : e[0]; vp_assert_eq(r, e[2] < best ? e[2] : best, "best residual"); }
VP_CASE(terminate) { uint32_t mi = vp_u32("max"), it = vp_u32("it"); double a = vp_real("now"), b = vp_real("prev"), p = vp_real("precision"); vp_assume(p >= 0); double d = a - b; if (d < 0) d = -d; vp_assert(Optimization::OptTerminate(mi, p)(it, a, b) == ((mi > 0 && it >= mi) || (p != 0 && d < p * b)), "stops at the iteration limit or when the residual settles"); vp_assert(Optimization::OptTerminate(mi)(it, a, b) == (mi > 0 && it >= mi), "stops at the iteration limit only"); }
// Gauss-Newton
template <int M, int N> static void gn(int iters, bool norm) { Any<M, N> f; Vector<double> x(N), m(M); for (int j = 0; j < N; j++) x(j) = vp_real("x"); for (int i = 0; i < M; i++) m(i) = vp_real("m"); double x0[N]; for (int j = 0; j < N; j++) x0[j] = x(j); double sf = norm ? vp_real("scale") : 1; vp_assume(sf != 0); try { if (norm) Optimization::gaussNewton(f, x, m, iters, Scale(sf)); else Optimization::gaussNewton(f, x, m, iters, Optimization::OptNoNormalize()); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); /* singular problems are refused */ } vp_assert(f.n == iters, "one evaluation per iteration"); for (int j = 0; j < N; j++) vp_assert_eq(f.c[0].x[j], x0[j], "starts at the given parameters");
  for (int k = 0; k < iters; k++) { double d[N]; for (int j = 0; j < N; j++) d[j] = (k + 1 < iters ? f.c[k + 1].x[j] : x(j)) / sf - f.c[k].x[j]; for (int j = 0; j < N; j++) { double s = 0; for (int i = 0; i < M; i++) { double jd = 0; for (int l = 0; l < N; l++) jd += f.c[k].J[i][l] * d[l]; s += f.c[k].J[i][j] * (jd - (m(i) - f.c[k].y[i])); } vp_assert_eq(s, 0, "Gauss-Newton step solves the normal equations"); } } }
struct Lin { double A[3][2]; int n; Lin() : n(0) { for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) A[i][j] = 1 + i * (j + 1); A[0][0] = vp_real("A"); A[2][1] = vp_real("A"); } template <class X, class B, class C> void evaluateWithJacobian(X& r, const B& in, C& jac) { n++; for (int i = 0; i < 3; i++) { r(i) = A[i][0] * in(0) + A[i][1] * in(1); jac(i, 0) = A[i][0]; jac(i, 1) = A[i][1]; } } };
VP_CASE(gauss_newton_2) { gn<2, 2>(1, false); }
VP_CASE(gauss_newton_1) { gn<2, 1>(2, true); }
VP_CASE(gauss_newton_0) { Any<2, 1> f; Vector<double> x(1), m(2); x(0) = vp_real("x"); m(0) = vp_real("m"); m(1) = vp_real("m"); double x0 = x(0); Optimization::gaussNewton(f, x, m, 0, Optimization::OptNoNormalize()); vp_assert_eq(x(0), x0, "no iterations, no change"); }
VP_CASE(gauss_newton_linear) { Lin f; double g00 = 0, g01 = 0, g11 = 0; for (int i = 0; i < 3; i++) { g00 += f.A[i][0] * f.A[i][0]; g01 += f.A[i][0] * f.A[i][1]; g11 += f.A[i][1] * f.A[i][1]; } vp_assume(g00 > 0); vp_assume(g00 * g11 - g01 * g01 > 0); Vector<double> x(2), m(3); x(0) = vp_real("x"); x(1) = vp_real("x"); for (int i = 0; i < 3; i++) m(i) = vp_real("m"); try { Optimization::gaussNewton(f, x, m, 1, Optimization::OptNoNormalize()); } catch (const Ubitrack::Util::Exception&) { vp_end_path(); } for (int j = 0; j < 2; j++) { double s = 0; for (int i = 0; i < 3; i++) s += f.A[i][j] * (m(i) - f.A[i][0] * x(0) - f.A[i][1] * x(1)); vp_assert_eq(s, 0, "linear problems are solved in one iteration: residual orthogonal to the columns"); } }
VP_CASE(tukey) { double c = vp_real("c"); vp_assume(c > 0.1); TukeyWeightFunction t(2, c); Vector<double> e(4), w(4); for (int i = 0; i < 4; i++) e(i) = vp_real("e"); t.computeWeights(e, w); vp_assert(!t.noWeights(), "Tukey weights are used"); for (int k = 0; k < 2; k++) { double s = e(2 * k) * e(2 * k) + e(2 * k + 1) * e(2 * k + 1); vp_assert_eq(w(2 * k), w(2 * k + 1), "all rows of a measurement share a weight"); if (s != 0) { double u = 1 - s / (c * c), ro = s > c * c ? c * c / 6 : c * c / 6 * (1 - u * u * u); vp_assert_eq(w(2 * k) * w(2 * k) * ro, 1, "Tukey weight"); vp_assert(w(2 * k) > 0, "weights are positive"); } } }

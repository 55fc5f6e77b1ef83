//@ property P15
//@ sources utAlgorithm/Projection.cpp utUtil/Exception.cpp
//@ models lapack std
//@ libs log4cpp
//@ bounds OpenGL and origin conversion for every 3x3 and 3x4 projection and every point; off-axis projection for every eye position and every rectangular screen; DLT for eight points of a box of every size and position and images of every scale and position; decomposition for every intrinsic matrix, translation and overall scale with four orientations
//@ assume exact real arithmetic: rounding is not modelled
//@ assume LAPACK computes what it documents: gesvd returns either sign of the null vector, gerqf/orgrq any RQ factorisation
#include "hmath.h"
#include "svdnull.h"
#include <utAlgorithm/Projection.h>
#include <vector>
using namespace Math; namespace A = Algorithm;
template <class M> static void clip(const M& G, const double* X, double* c) { for (int i = 0; i < 4; i++) { c[i] = 0; for (int j = 0; j < 4; j++) c[i] += G(i, j) * X[j]; } }
template <class T, std::size_t N> static void opengl() { double l = vp_real("l"), r = vp_real("r"), b = vp_real("b"), t = vp_real("t"), n = vp_real("n"), f = vp_real("f"); vp_assume(l != r); vp_assume(b != t); vp_assume(n != f); Matrix<T, 3, N> m; for (int i = 0; i < 3; i++) for (unsigned j = 0; j < N; j++) m(i, j) = vp_real("m"); double X[4]; for (int j = 0; j < 3; j++) X[j] = vp_real("X"); X[3] = 1; double nn = m(2, 0) * m(2, 0) + m(2, 1) * m(2, 1) + m(2, 2) * m(2, 2); vp_assume(nn > 0); double h[3]; for (int i = 0; i < 3; i++) { h[i] = 0; for (unsigned j = 0; j < N; j++) h[i] += m(i, j) * X[j]; } if (sizeof(T) == 4) vp_tol(1e-2);
  Matrix<T, 4, 4> G = A::projectionMatrixToOpenGL((T)l, (T)r, (T)b, (T)t, (T)n, (T)f, m); double c[4]; clip(G, X, c); vp_assert_eq(c[3], h[2], "clip coordinate w is the projective depth"); vp_assert_eq(c[0] * (r - l), 2 * h[0] - (r + l) * h[2], "image x is mapped to [-1,1]"); vp_assert_eq(c[1] * (t - b), 2 * h[1] - (t + b) * h[2], "image y is mapped to [-1,1]"); double q = c[2] * (n - f) + (f + n) * h[2]; vp_assert_eq(q * q, 4 * f * f * n * n * nn, "depth runs from -1 at the near to 1 at the far plane"); vp_assert(f * n > 0 ? q > 0 : f * n < 0 ? q < 0 : q == 0, "depth increases away from the camera"); }
//@ case opengl_34 search=no
VP_CASE(opengl_34) { opengl<double, 4>(); }
//@ case opengl_33 search=no
VP_CASE(opengl_33) { opengl<double, 3>(); }
//@ case opengl_34f search=no
VP_CASE(opengl_34f) { opengl<float, 4>(); }
//@ case opengl_33f search=no
VP_CASE(opengl_33f) { opengl<float, 3>(); }
template <class T> static void origin() { Matrix<T, 3, 3> k, o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k(i, j) = i > j ? 0 : vp_real("k"); o = k; int h = vp_choice("h", 3) * 240, g = vp_choice("origin", 3); A::correctOrigin(k, g, h); double x[3]; for (int j = 0; j < 3; j++) x[j] = vp_real("x"); double a[3], b[3]; for (int i = 0; i < 3; i++) { a[i] = b[i] = 0; for (int j = 0; j < 3; j++) { a[i] += o(i, j) * x[j]; b[i] += k(i, j) * x[j]; } } vp_assert_eq(b[0], a[0], "column stays"); vp_assert_eq(b[2], a[2], "depth stays"); vp_assert_eq(b[1], g ? a[1] : (h - 1) * a[2] - a[1], "rows count from the other end"); }
VP_CASE(correct_origin) { origin<double>(); }
VP_CASE(correct_origin_f) { origin<float>(); }
// a screen of width w and height h in an arbitrary position: corners of the screen are the corners of clip space
static void offaxis(int corner) { double q[4], R[3][3]; vp_unit(q, 4, "q"); refRot(q[0], q[1], q[2], q[3], R); double w = vp_real("w"), h = vp_real("h"), n = vp_real("n"), f = vp_real("f"), e[3]; vp_assume(w > 0.1); vp_assume(h > 0.1); vp_assume(n > 0.01); vp_assume(f > n); for (int i = 0; i < 3; i++) e[i] = vp_real("e"); vp_assume(e[2] > 0.1); V3 ll = inV3("ll"), lr, ul, eye, X; for (int i = 0; i < 3; i++) { lr(i) = ll(i) + R[i][0] * w; ul(i) = ll(i) + R[i][1] * h; eye(i) = ll(i) + R[i][0] * e[0] + R[i][1] * e[1] + R[i][2] * e[2]; }
  M44 G = A::offAxisProjectionMatrix(eye, ll, ul, lr, n, f, w, h); double x[4], c[4]; if (corner < 4) { for (int i = 0; i < 3; i++) x[i] = ll(i) + (corner & 1 ? R[i][0] * w : 0) + (corner & 2 ? R[i][1] * h : 0); x[3] = 1; clip(G, x, c); vp_assert_eq(c[3], e[2], "clip coordinate w is the distance of the eye"); vp_assert_eq(c[0], corner & 1 ? e[2] : -e[2], "screen edge is the edge of clip space"); vp_assert_eq(c[1], corner & 2 ? e[2] : -e[2], "screen edge is the edge of clip space"); }
  else { double d = corner == 4 ? n : f; for (int i = 0; i < 3; i++) x[i] = eye(i) - R[i][2] * d; x[3] = 1; clip(G, x, c); vp_assert_eq(c[2], corner == 4 ? -d : d, "near and far plane limit the depth"); vp_assert_eq(c[3], d, "clip coordinate w is the distance of the eye"); } }
VP_CASE(offaxis_ll) { offaxis(0); }
VP_CASE(offaxis_lr) { offaxis(1); }
VP_CASE(offaxis_ul) { offaxis(2); }
VP_CASE(offaxis_ur) { offaxis(3); }
VP_CASE(offaxis_near) { offaxis(4); }
VP_CASE(offaxis_far) { offaxis(5); }
// direct linear transformation: box corners (+-1,+-1,+-3), image x = 7X/(Z+4), y = 7Y/(Z+4), both in arbitrary units
template <class T> static void dlt(bool moveFrom, bool moveTo) { double one = (double)(vp_symbolic() | 1); double a[3] = {one, one, one}, b[3] = {0, 0, 0}, s[2] = {one, one}, t[2] = {0, 0}; if (moveFrom) for (int i = 0; i < 3; i++) { a[i] = vp_real("a"); vp_assume(a[i] > 0.01); b[i] = vp_real("b"); } if (moveTo) for (int i = 0; i < 2; i++) { s[i] = vp_real("s"); vp_assume(s[i] > 0.01); t[i] = vp_real("t"); }
  std::vector<Vector<T, 3> > X; std::vector<Vector<T, 2> > x; for (int k = 0; k < 8; k++) { double p[3] = {k & 1 ? 1. : -1., k & 2 ? 1. : -1., k & 4 ? 3. : -3.}, w = p[2] + 4, q[2] = {7 * p[0] / w, 7 * p[1] / w}; Vector<T, 3> P; Vector<T, 2> Q; for (int i = 0; i < 3; i++) P(i) = a[i] * p[i] + b[i]; for (int i = 0; i < 2; i++) Q(i) = s[i] * q[i] + t[i]; X.push_back(P); x.push_back(Q); }
  svdN = 12; for (int i = 0; i < 12; i++) svdH[i] = 0; svdH[0] = 7 * one / 5; svdH[5] = 7 * one / 5; svdH[10] = 3; svdH[11] = 4; svdHn = one * 0.5; svdSign = vp_choice("sign", 2) ? 1 : -1; if (sizeof(T) == 4) vp_tol(5e-2);
  Matrix<T, 3, 4> P = A::projectionDLT(X, x); double n = 0; for (int j = 0; j < 3; j++) n += P(2, j) * P(2, j); vp_assert_eq(n, 1, "viewing direction has unit length");
  for (int k = 0; k < 8; k++) { double h[3]; for (int i = 0; i < 3; i++) { h[i] = P(i, 3); for (int j = 0; j < 3; j++) h[i] += P(i, j) * X[k](j); } vp_assert(h[2] > 0, "points lie in front of the camera"); for (int i = 0; i < 2; i++) vp_assert_eq(h[i], x[k](i) * h[2], "projection maps the points to their images"); } }
VP_CASE(dlt_from) { dlt<double>(true, false); }
VP_CASE(dlt_to) { dlt<double>(false, true); }
VP_CASE(dlt_both) { dlt<double>(true, true); }
// decomposition of lambda K [R|t]
static double gK[3][3], gR[3][3], gl; static int gS[3];
#ifndef VP_NATIVE
template <class T> static void rq(T* a, const int* lda, int* info) { *info = 0; double sg = gl < 0 ? -1 : 1; (void)sg; int neg = 0; double n0 = 0; for (int j = 0; j < 3; j++) n0 += a[2 + j * *lda] * gR[2][j]; neg = n0 * gK[2][2] * gl < 0; double l = neg ? -gl : gl; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double t = 0; for (int k = 0; k < 3; k++) t += gK[i][k] * gR[k][j]; vp_assert_eq(a[i + j * *lda], l * t, "decomposition of the right matrix"); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a[i + j * *lda] = j >= i ? (T)(l * gK[i][j] * gS[j]) : (T)vp_real("reflector"); }
template <class T> static void q(T* a, const int* lda, int* info) { *info = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a[i + j * *lda] = gS[i] * gR[i][j]; }
extern "C" void dgerqf_(const int*, const int*, double* a, const int* lda, double*, double*, const int*, int* info) { rq(a, lda, info); }
extern "C" void dgerq2_(const int*, const int*, double* a, const int* lda, double*, double*, int* info) { rq(a, lda, info); }
extern "C" void sgerqf_(const int*, const int*, float* a, const int* lda, float*, float*, const int*, int* info) { rq(a, lda, info); }
extern "C" void sgerq2_(const int*, const int*, float* a, const int* lda, float*, float*, int* info) { rq(a, lda, info); }
extern "C" void dorgrq_(const int*, const int*, const int*, double* a, const int* lda, double*, double*, const int*, int* info) { q(a, lda, info); }
extern "C" void dorgr2_(const int*, const int*, const int*, double* a, const int* lda, double*, double*, int* info) { q(a, lda, info); }
extern "C" void sorgrq_(const int*, const int*, const int*, float* a, const int* lda, float*, float*, const int*, int* info) { q(a, lda, info); }
extern "C" void sorgr2_(const int*, const int*, const int*, float* a, const int* lda, float*, float*, int* info) { q(a, lda, info); }
#endif
template <class T> static void decomp(bool scaled) { double one = (double)(vp_symbolic() | 1); static const int Q[4][5] = {{0, 0, 0, 1, 1}, {2, 4, 5, 6, 9}, {-1, 5, 1, 3, 6}, {1, 0, 0, 0, 1}}; const int* z = Q[vp_choice("q", 4)]; refRot(z[0] * one / z[4], z[1] * one / z[4], z[2] * one / z[4], z[3] * one / z[4], gR); for (int i = 0; i < 3; i++) { gS[i] = vp_choice("sign", 2) ? 1 : -1; for (int j = 0; j < 3; j++) gK[i][j] = i > j ? 0 : vp_real("k"); } gK[2][2] = -1; vp_assume(gK[0][0] > 0.1); vp_assume(gK[1][1] > 0.1); double t[3]; for (int i = 0; i < 3; i++) t[i] = vp_real("t"); vp_assume(t[2] < -0.1); gl = scaled ? vp_real("scale") : 1; vp_assume(gl != 0);
  Matrix<T, 3, 4> P; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += gK[i][k] * gR[k][j]; P(i, j) = gl * s; } double s = 0; for (int k = 0; k < 3; k++) s += gK[i][k] * t[k]; P(i, 3) = gl * s; } if (sizeof(T) == 4) vp_tol(1e-2);
  Matrix<T, 3, 3> k, r; Vector<T, 3> tt; A::decomposeProjection(k, r, tt, P); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { vp_assert_eq(k(i, j), gK[i][j], "intrinsic matrix"); vp_assert_eq(r(i, j), gR[i][j], "camera rotation"); } vp_assert_eq(tt(i), t[i], "camera translation"); } }
VP_CASE(decompose) { decomp<double>(false); }
VP_CASE(decompose_scaled) { decomp<double>(true); }

//@ property P09
//@ sources
//@ models lapack std
//@ bounds vectors of 1 to 5 elements, matrices up to 4x4 (determinant and inverse of general matrices through LU: every 2x2 and 3x3 matrix, 4x4 families with five free entries), lists of up to three elements; the pseudo-inverse for 3x2, 2x3 and 2x2 matrices of full and deficient rank
//@ assume exact real arithmetic: rounding is not modelled
//@ assume LAPACK getrf/getri/gesvd compute what they document: replaced by models/lapack.cpp, and for gesvd by any singular value decomposition of the matrix
//@ case general_3 time=200 ttime=400
//@ case general_inverse_3 time=200 ttime=400
#include "hmath.h"
#include <utMath/Blas1.h>
#include <utMath/Blas2.h>
#include <utMath/Blas3.h>
#include <utMath/VectorFunctions.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Scalar.h>
#include <vector>
#include <list>
using namespace Math;
template <int N> static void vecops() {
  Vector<double, N> a = inVec<N>("a"), b = inVec<N>("b"); Vector<double> da(N), db(N); for (int i = 0; i < N; i++) { da(i) = a(i); db(i) = b(i); }
  double d = 0, s = 0, n1 = 0, q = 0; for (int i = 0; i < N; i++) { d += a(i) * b(i); s += a(i) * a(i); q += (a(i) - b(i)) * (a(i) - b(i)); }
  vp_assert_eq(inner_product(a, b), d, "inner product"); vp_assert_eq(inner_product(da, db), d, "inner product of run-time sized vectors"); vp_assert_eq(InnerProduct()(a), s, "squared length");
  double l = norm_2(a); vp_assert_eq(l * l, s, "2-norm"); vp_assert(l >= 0, "2-norm is not negative"); double ld = norm_2(da); vp_assert_eq(ld * ld, s, "2-norm of run-time sized vectors"); vp_assert(ld >= 0, "2-norm is not negative");
  double e = distance(a, b); vp_assert_eq(e * e, q, "distance"); vp_assert(e >= 0, "distance is not negative"); vp_assert_eq(squared_distance(a, b), q, "squared distance");
  vp_assume(s > 0); Vector<double, N> u = normalize(a); double uu = 0; for (int i = 0; i < N; i++) { uu += u(i) * u(i); vp_assert_eq(u(i) * norm_2(a), a(i), "normalised vector is parallel"); } vp_assert_eq(uu, 1, "normalised vector has unit length"); (void)n1;
}
template <int N> static void norm1() { Vector<double, N> a = inVec<N>("a"); Vector<double> da(N); double n1 = 0; for (int i = 0; i < N; i++) { da(i) = a(i); n1 += a(i) < 0 ? -a(i) : a(i); } vp_assert_eq(norm_1(a), n1, "1-norm"); vp_assert_eq(norm_1(da), n1, "1-norm of run-time sized vectors"); }
VP_CASE(vector_1) { vecops<1>(); }
VP_CASE(vector_2) { vecops<2>(); }
VP_CASE(vector_3) { vecops<3>(); }
VP_CASE(vector_5) { vecops<5>(); }
VP_CASE(norm1_1) { norm1<1>(); }
VP_CASE(norm1_3) { norm1<3>(); }
VP_CASE(norm1_4) { norm1<4>(); }
VP_CASE(vector_lists) { std::vector<V3> a, b, u(3); std::vector<double> d, e, f, g; for (int i = 0; i < 3; i++) { a.push_back(inV3("a")); b.push_back(inV3("b")); double s = 0; for (int k = 0; k < 3; k++) s += a[i](k) * a[i](k); vp_assume(s > 0); }
  distance(a.begin(), a.end(), std::back_inserter(d)); distance(a.begin(), a.end(), b.begin(), std::back_inserter(e)); squared_distance(a.begin(), a.end(), std::back_inserter(f)); squared_distance(a.begin(), a.end(), b.begin(), std::back_inserter(g)); normalize(a.begin(), a.end(), u.begin());
  vp_assert(d.size() == 3 && e.size() == 3 && f.size() == 3 && g.size() == 3, "one result per element");
  for (int i = 0; i < 3; i++) { double s = 0, q = 0, w = 0; for (int k = 0; k < 3; k++) { s += a[i](k) * a[i](k); q += (a[i](k) - b[i](k)) * (a[i](k) - b[i](k)); vp_assert_eq(u[i](k) * d[i], a[i](k), "normalised list"); } (void)w; vp_assert_eq(d[i] * d[i], s, "lengths of a list"); vp_assert_eq(e[i] * e[i], q, "distances of two lists"); vp_assert_eq(f[i], s, "squared lengths of a list"); vp_assert_eq(g[i], q, "squared distances of two lists"); } }
VP_CASE(cross) { V3 a = inV3("a"), b = inV3("b"); V3 c = cross_product(a, b); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; vp_assert_eq(c(i), a(j) * b(k) - a(k) * b(j), "cross product"); } }
template <int N1, int N2> static void outer() { Vector<double, N1> a = inVec<N1>("a"); Vector<double, N2> b = inVec<N2>("b"); Matrix<double, N1, N2> m = outer_product(a, b), m2; outer_product(a, b, m2); for (int i = 0; i < N1; i++) for (int j = 0; j < N2; j++) { vp_assert_eq(m(i, j), a(i) * b(j), "outer product"); vp_assert_eq(m2(i, j), a(i) * b(j), "outer product into a result"); } }
VP_CASE(outer_33) { outer<3, 3>(); }
VP_CASE(outer_24) { outer<2, 4>(); }
VP_CASE(outer_41) { outer<4, 1>(); }
VP_CASE(outer_13) { outer<1, 3>(); }
VP_CASE(outer_list) { std::vector<V3> a; std::list<V2> b; std::vector<Matrix<double, 3, 2> > m(2); for (int i = 0; i < 2; i++) { a.push_back(inV3("a")); b.push_back(inV2("b")); } outer_product(a.begin(), a.end(), b.begin(), m.begin()); for (int i = 0; i < 2; i++) for (int r = 0; r < 3; r++) { vp_assert_eq(m[i](r, 0), a[i](r) * (i ? b.back() : b.front())(0), "outer products of two lists"); vp_assert_eq(m[i](r, 1), a[i](r) * (i ? b.back() : b.front())(1), "outer products of two lists"); } }
template <int M, int N> static void matvec() { Matrix<double, M, N> A = inMat<M, N>("A"); Vector<double, N> x = inVec<N>("x"); Vector<double, M> y, z = Product<Matrix<double, M, N>, Vector<double, N>, Vector<double, M> >()(A, x); product(A, x, y); for (int i = 0; i < M; i++) { double s = 0; for (int j = 0; j < N; j++) s += A(i, j) * x(j); vp_assert_eq(y(i), s, "matrix vector product"); vp_assert_eq(z(i), s, "matrix vector product"); } }
VP_CASE(matvec_33) { matvec<3, 3>(); }
VP_CASE(matvec_24) { matvec<2, 4>(); }
VP_CASE(matvec_42) { matvec<4, 2>(); }
VP_CASE(matvec_13) { matvec<1, 3>(); }
VP_CASE(matvec_31) { matvec<3, 1>(); }
template <int M, int K, int N> static void matmat() { Matrix<double, M, K> A = inMat<M, K>("A"); Matrix<double, K, N> B = inMat<K, N>("B"); Matrix<double, M, N> C; product(A, B, C); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double s = 0; for (int k = 0; k < K; k++) s += A(i, k) * B(k, j); vp_assert_eq(C(i, j), s, "matrix product"); } }
VP_CASE(matmat_333) { matmat<3, 3, 3>(); }
VP_CASE(matmat_444) { matmat<4, 4, 4>(); }
VP_CASE(matmat_222) { matmat<2, 2, 2>(); }
static double det2(const double m[4][4], int n) { if (n == 1) return m[0][0]; double s = 0; for (int c = 0; c < n; c++) { double k[4][4]; for (int i = 1; i < n; i++) for (int j = 0, o = 0; j < n; j++) if (j != c) k[i - 1][o++] = m[i][j]; double d = m[0][c] * det2(k, n - 1); s += c % 2 ? -d : d; } return s; }
template <int N> static double refDet(const Matrix<double, N, N>& A) { double m[4][4]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m[i][j] = A(i, j); return det2(m, N); }
VP_CASE(functor_det) { M22 a = inMat<2, 2>("a"); M33 b = inMat<3, 3>("b"); vp_assert_eq(Functors::matrix_determinant()(a), refDet<2>(a), "2x2 determinant"); vp_assert_eq(Functors::matrix_determinant()(b), refDet<3>(b), "3x3 determinant"); }
template <int N> static void isInverse(const Matrix<double, N, N>& A, const Matrix<double, N, N>& X) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0, t = 0; for (int k = 0; k < N; k++) { s += A(i, k) * X(k, j); t += X(i, k) * A(k, j); } vp_assert_eq(s, i == j, "matrix times inverse is the identity"); vp_assert_eq(t, i == j, "inverse times matrix is the identity"); } }
VP_CASE(functor_inverse_2) { M22 a = inMat<2, 2>("a"); vp_assume(refDet<2>(a) != 0); isInverse<2>(a, Functors::matrix_inverse()(a)); }
VP_CASE(functor_inverse_3) { M33 a = inMat<3, 3>("a"); vp_assume(refDet<3>(a) != 0); isInverse<3>(a, Functors::matrix_inverse()(a)); }
VP_CASE(general_2) { M22 a = inMat<2, 2>("a"); vp_assert_eq(determinant(a), refDet<2>(a), "determinant of a 2x2 matrix"); }
VP_CASE(general_3) { M33 a = inMat<3, 3>("a"); vp_assert_eq(determinant(a), refDet<3>(a), "determinant of a 3x3 matrix"); }
VP_CASE(general_inverse_2) { M22 a = inMat<2, 2>("a"); vp_assume(refDet<2>(a) != 0); isInverse<2>(a, invert_matrix(a)); }
VP_CASE(general_inverse_3) { M33 a = inMat<3, 3>("a"); int z = vp_choice("zero", 3); a(z, 0) = 0; a(z, 1) = 0; a(z, 2) = 1; a((z + 1) % 3, 2) = 2; vp_assume(refDet<3>(a) != 0); isInverse<3>(a, invert_matrix(a)); }
// permuted triangular 4x4 matrices: every pivoting pattern
static M44 perm4(double& dd) { static const int P[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
  int p = vp_choice("permutation", 24); M44 a; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a(i, j) = 0; dd = 1; for (int i = 0; i < 4; i++) { double d = vp_real("d"); vp_assume(d != 0); dd *= d; a(P[p][i], i) = d; for (int j = i + 1; j < 4; j++) a(P[p][i], j) = vp_real("u"); } int inv = 0; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) inv += P[p][i] > P[p][j]; if (inv % 2) dd = -dd; return a; }
VP_CASE(general_4) { double d; M44 a = perm4(d); vp_assert_eq(determinant(a), d, "determinant of a 4x4 matrix"); vp_assert_eq(Functors::matrix_determinant()(a), d, "determinant of a 4x4 matrix"); }
VP_CASE(general_inverse_4) { double d; M44 a = perm4(d); isInverse<4>(a, invert_matrix(a)); }
// singular value decomposition: the matrix is built from one, and the model of gesvd hands out exactly that decomposition
static double gU[3][3], gV[3][3], gs[3]; static int gM, gN;
#ifndef VP_NATIVE
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } int k = gM < gN ? gM : gN; vp_assert(*m == gM && *n == gN, "decomposition of the right shape");
  for (int i = 0; i < gM; i++) for (int j = 0; j < gN; j++) { double t = 0; for (int l = 0; l < k; l++) t += gU[i][l] * gs[l] * gV[j][l]; vp_assert_eq(a[i + j * *lda], t, "decomposition of the right matrix"); }
  for (int l = 0; l < k; l++) s[l] = gs[l]; int uc = *ju == 'A' ? gM : *ju == 'S' ? k : 0, vr = *jv == 'A' ? gN : *jv == 'S' ? k : 0; for (int i = 0; i < gM; i++) for (int j = 0; j < uc; j++) u[i + j * *ldu] = gU[i][j]; for (int i = 0; i < vr; i++) for (int j = 0; j < gN; j++) vt[i + j * *ldvt] = gV[j][i]; }
#endif
static void rot(const char* n, int d, double R[3][3]) { if (d == 3) { double q[4]; vp_unit(q, 4, n); refRot(q[0], q[1], q[2], q[3], R); } else { double q[2]; vp_unit(q, 2, n); R[0][0] = R[1][1] = q[0]; R[0][1] = -q[1]; R[1][0] = q[1]; } }
template <int M, int N> static void pseudo(int rank) { gM = M; gN = N; rot("U", M, gU); rot("V", N, gV); int k = M < N ? M : N; for (int i = 0; i < k; i++) { gs[i] = i < rank ? vp_real("s") : 0; if (i < rank) { vp_assume(gs[i] > 0.01); vp_assume(gs[i] < 100); } if (i && i < rank) vp_assume(gs[i - 1] >= gs[i]); }
  Matrix<double, M, N> A; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double t = 0; for (int l = 0; l < k; l++) t += gU[i][l] * gs[l] * gV[j][l]; A(i, j) = t; }
  if (!vp_symbolic() && rank < k) return; // rounding makes a deficient rank undetectable natively: decided symbolically only
  Matrix<double, N, M> X = pseudoInvert_matrix(A); for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) { double t = 0; for (int l = 0; l < rank; l++) t += gV[i][l] / gs[l] * gU[j][l]; vp_assert_eq(X(i, j), t, "pseudo-inverse"); } }
VP_CASE(pseudo_22) { pseudo<2, 2>(2); }
VP_CASE(pseudo_32) { pseudo<3, 2>(2); }
VP_CASE(pseudo_23) { pseudo<2, 3>(2); }
VP_CASE(pseudo_33) { pseudo<3, 3>(3); }
// containers
VP_CASE(containers) { double p[12]; for (int i = 0; i < 12; i++) p[i] = vp_real("p"); Matrix<double, 3, 4> m(p); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) { vp_assert_eq(m(i, j), p[i * 4 + j], "matrix from a row-major array"); vp_assert_eq(m.content()[j * 3 + i], p[i * 4 + j], "matrix content is column-major"); } Vector<double, 3> v(p); for (int i = 0; i < 3; i++) { vp_assert_eq(v(i), p[i], "vector from an array"); vp_assert_eq(v.content()[i], p[i], "vector content"); }
  vp_assert(m.size1() == 3 && m.size2() == 4 && v.size() == 3 && m.size() == 12, "sizes"); M33 I = M33::identity(), Z = M33::zeros(); Matrix<double> dI = Matrix<double>::identity(3), dZ = Matrix<double>::zeros(2, 3), dS = Matrix<double>::scalar(2, 3, p[0]); V3 z = V3::zeros(); Vector<double> dz = Vector<double>::zeros(2); for (int i = 0; i < 3; i++) { vp_assert_eq(z(i), 0, "zero vector"); for (int j = 0; j < 3; j++) { vp_assert_eq(I(i, j), i == j, "identity"); vp_assert_eq(dI(i, j), i == j, "identity"); vp_assert_eq(Z(i, j), 0, "zero matrix"); } } vp_assert(dZ.size1() == 2 && dZ.size2() == 3 && dz.size() == 2, "sizes"); for (int i = 0; i < 2; i++) { vp_assert_eq(dz(i), 0, "zero vector"); for (int j = 0; j < 3; j++) { vp_assert_eq(dZ(i, j), 0, "zero matrix"); vp_assert_eq(dS(i, j), p[0], "constant matrix"); } } }
VP_CASE(compare_equal) { V3 a = inV3("a"), b = inV3("b"); vp_assert((a == b) == (a(0) == b(0) && a(1) == b(1) && a(2) == b(2)), "vectors are equal when all elements are"); }
VP_CASE(compare_less) { V3 a = inV3("a"), b = inV3("b"); bool l = a(0) < b(0) || (a(0) == b(0) && (a(1) < b(1) || (a(1) == b(1) && a(2) < b(2)))); vp_assert((static_cast<const V3&>(a) < static_cast<const V3&>(b)) == l, "vectors are ordered lexicographically"); Scalar<double> s(a(0)), t(b(0)); vp_assert((s < t) == (a(0) < b(0)), "scalars are ordered by value"); vp_assert((double)s == a(0), "scalar value"); }
VP_CASE(compare_matrix) { M22 a = inMat<2, 2>("a"), b = inMat<2, 2>("b"); vp_assert((a == b) == (a(0, 0) == b(0, 0) && a(0, 1) == b(0, 1) && a(1, 0) == b(1, 0) && a(1, 1) == b(1, 1)), "matrices are equal when all elements are"); }
VP_CASE(interpolate) { V3 a = inV3("a"), b = inV3("b"); double t = vp_real("t"); V3 c = linearInterpolate(a, b, t); for (int i = 0; i < 3; i++) vp_assert_eq(c(i), a(i) + t * (b(i) - a(i)), "linear interpolation of vectors"); }
VP_CASE(handedness) { M44 a = inMat<4, 4>("a"), b = a; leftHandToRightHandMatrix(b); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) vp_assert_eq(b(i, j), (i == 2) != (j == 2) ? -a(i, j) : a(i, j), "handedness change mirrors the z axis"); }

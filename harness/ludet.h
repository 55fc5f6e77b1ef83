// Stand-in for LAPACK getrf/getri on 2x2 and 3x3 matrices in terms of cofactors: Math::determinant sees factors whose
// diagonal multiplies to the determinant, Math::invert_matrix gets adj(A)/det(A).  (P09 checks both functions with
// an LU factorisation.)
#pragma once
#include "vp.h"
#ifndef VP_NATIVE
static double ludetA[3][3]; static const void* ludetP = 0; static double ludetD;
template <class T> static void ludet(const int* m, const int* n, T* a, const int* lda, int* ipiv, int* info) { int N = *n; *info = 0; if (*m != N || N < 2 || N > 3) { vp_assert(0, "decomposition of a small square matrix"); vp_end_path(); }
  for (int i = 0; i < N; i++) { ipiv[i] = i + 1; for (int j = 0; j < N; j++) ludetA[i][j] = a[i + j * *lda]; } double (*A)[3] = ludetA; double d = N == 2 ? A[0][0] * A[1][1] - A[0][1] * A[1][0] : A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); ludetD = d; ludetP = a; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) a[i + j * *lda] = i == j ? (i == 0 ? (T)d : (T)1) : (T)0; }
template <class T> static void luinv(const int* n, T* a, const int* lda, T* work, const int* lwork, int* info) { *info = 0; if (*lwork == -1) { work[0] = 1; return; } int N = *n; if (a != ludetP || N != 3) { vp_assert(0, "decomposition before inversion"); vp_end_path(); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int r = (j + 1) % 3, s = (j + 2) % 3, u = (i + 1) % 3, v = (i + 2) % 3; a[i + j * *lda] = (ludetA[r][u] * ludetA[s][v] - ludetA[r][v] * ludetA[s][u]) / ludetD; } }
extern "C" void dgetrf_(const int* m, const int* n, double* a, const int* lda, int* ipiv, int* info) { ludet(m, n, a, lda, ipiv, info); }
extern "C" void sgetrf_(const int* m, const int* n, float* a, const int* lda, int* ipiv, int* info) { ludet(m, n, a, lda, ipiv, info); }
extern "C" void dgetri_(const int* n, double* a, const int* lda, const int* ipiv, double* work, const int* lwork, int* info) { luinv(n, a, lda, work, lwork, info); }
extern "C" void sgetri_(const int* n, float* a, const int* lda, const int* ipiv, float* work, const int* lwork, int* info) { luinv(n, a, lda, work, lwork, info); }
#endif

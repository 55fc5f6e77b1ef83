// Symbolic stand-in for gesvd as used by the linear estimators: they take the right singular vector of the
// smallest singular value.  The harness states the vector h that must span the null space; the stand-in checks
// A h = 0 and (svdRank) that the rest has full rank, and hands out +-h/|h| as last row of V^T, everything else
// being arbitrary.  Native builds use the real LAPACK.
#pragma once
#include "vp.h"
static double svdH[16], svdHn = 1; static int svdN = 0, svdRank = 1, svdCalls = 0, svdSign = 1;
#ifndef VP_NATIVE
template <class T> static void svdNull(const char* ju, const char* jv, const int* m, const int* n, T* a, const int* lda, T* s, T* u, const int* ldu, T* vt, const int* ldvt, T* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } svdCalls++; int M = *m, N = *n; if (N != svdN) { vp_assert(0, "decomposition of the right shape"); vp_end_path(); }
  for (int i = 0; i < M; i++) { double t = 0; for (int j = 0; j < N; j++) t += a[i + j * *lda] * svdH[j]; vp_assert_eq(t, 0, "decomposition of a matrix whose null space is the solution"); }
  if (svdRank) { double w[32][16]; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) w[i][j] = a[i + j * *lda]; int r = 0; for (int j = 0; j < N && r < M; j++) { int p = -1; for (int i = r; i < M; i++) if (w[i][j] != 0) { p = i; break; } if (p < 0) continue; if (p != r) for (int k = 0; k < N; k++) { double t = w[p][k]; w[p][k] = w[r][k]; w[r][k] = t; } for (int i = r + 1; i < M; i++) if (w[i][j] != 0) { double f = w[i][j] / w[r][j]; w[i][j] = 0; for (int k = j + 1; k < N; k++) w[i][k] -= f * w[r][k]; } r++; } vp_assert(r >= N - 1, "decomposition of a matrix with a one-dimensional null space"); }
  int K = M < N ? M : N; for (int i = 0; i < K; i++) s[i] = i == N - 1 ? (T)0 : (T)(N - i);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double v = i == N - 1 ? svdSign * svdH[j] / svdHn : vp_real("V"); if (*jv == 'A' || (*jv == 'S' && i < K)) vt[i + j * *ldvt] = v; else if (*jv == 'O' && i < K) a[i + j * *lda] = v; }
  for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) if (*ju == 'A' || (*ju == 'S' && j < K)) u[i + j * *ldu] = vp_real("U"); }
#ifndef SVD_CUSTOM
extern "C" void dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt, double* work, const int* lwork, int* info) { svdNull(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info); }
extern "C" void sgesvd_(const char* ju, const char* jv, const int* m, const int* n, float* a, const int* lda, float* s, float* u, const int* ldu, float* vt, const int* ldvt, float* work, const int* lwork, int* info) { svdNull(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info); }
#endif
#endif

// included by lapack.cpp once per precision
void FN(potrf)(const char* uplo, const int* n, REAL* a, const int* lda, int* info) {
  *info = 0; bool U = up(uplo);
  for (int j = 0; j < *n; j++) {
    REAL s = A(j, j); for (int k = 0; k < j; k++) { REAL t = U ? A(k, j) : A(j, k); s -= t * t; }
    if (!(s > 0)) { *info = j + 1; return; }
    REAL r = sqrt(s); A(j, j) = r;
    for (int i = j + 1; i < *n; i++) { REAL t = U ? A(j, i) : A(i, j); for (int k = 0; k < j; k++) t -= U ? A(k, j) * A(k, i) : A(j, k) * A(i, k); t /= r; if (U) A(j, i) = t; else A(i, j) = t; }
  }
}
void FN(potri)(const char* uplo, const int* n, REAL* a, const int* lda, int* info) {
  *info = 0; bool U = up(uplo); int N = *n; REAL L[16][16], I[16][16];
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { L[i][j] = i < j ? 0 : U ? A(j, i) : A(i, j); I[i][j] = 0; }
  for (int j = 0; j < N; j++) for (int i = j; i < N; i++) { REAL s = i == j ? 1 : 0; for (int k = j; k < i; k++) s -= L[i][k] * I[k][j]; I[i][j] = s / L[i][i]; }
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { REAL s = 0; for (int k = j; k < N; k++) s += I[k][i] * I[k][j]; if (U) A(i, j) = s; else A(j, i) = s; }
}
void FN(potrs)(const char* uplo, const int* n, const int* nrhs, const REAL* a, const int* lda, REAL* b, const int* ldb, int* info) {
  *info = 0; bool U = up(uplo); int N = *n;
  for (int c = 0; c < *nrhs; c++) {
    for (int i = 0; i < N; i++) { REAL s = B(i, c); for (int k = 0; k < i; k++) s -= (U ? A(k, i) : A(i, k)) * B(k, c); B(i, c) = s / A(i, i); }
    for (int i = N - 1; i >= 0; i--) { REAL s = B(i, c); for (int k = i + 1; k < N; k++) s -= (U ? A(i, k) : A(k, i)) * B(k, c); B(i, c) = s / A(i, i); }
  }
}
void FN(posv)(const char* uplo, const int* n, const int* nrhs, REAL* a, const int* lda, REAL* b, const int* ldb, int* info) { FN(potrf)(uplo, n, a, lda, info); if (*info == 0) FN(potrs)(uplo, n, nrhs, a, lda, b, ldb, info); }
void FN(getrf)(const int* m, const int* n, REAL* a, const int* lda, int* ipiv, int* info) {
  *info = 0; int K = *m < *n ? *m : *n;
  for (int j = 0; j < K; j++) {
    int p = j; for (int i = j + 1; i < *m; i++) if (fabs(A(i, j)) > fabs(A(p, j))) p = i;
    ipiv[j] = p + 1;
    if (A(p, j) == 0) { if (!*info) *info = j + 1; continue; }
    if (p != j) for (int k = 0; k < *n; k++) { REAL t = A(j, k); A(j, k) = A(p, k); A(p, k) = t; }
    for (int i = j + 1; i < *m; i++) { A(i, j) /= A(j, j); for (int k = j + 1; k < *n; k++) A(i, k) -= A(i, j) * A(j, k); }
  }
}
void FN(getrs)(const char* trans, const int* n, const int* nrhs, const REAL* a, const int* lda, const int* ipiv, REAL* b, const int* ldb, int* info) {
  *info = 0; int N = *n;
  for (int c = 0; c < *nrhs; c++) {
    if (!tr(trans)) {
      for (int i = 0; i < N; i++) { int p = ipiv[i] - 1; if (p != i) { REAL t = B(i, c); B(i, c) = B(p, c); B(p, c) = t; } }
      for (int i = 0; i < N; i++) for (int k = 0; k < i; k++) B(i, c) -= A(i, k) * B(k, c);
      for (int i = N - 1; i >= 0; i--) { for (int k = i + 1; k < N; k++) B(i, c) -= A(i, k) * B(k, c); B(i, c) /= A(i, i); }
    } else {
      for (int i = 0; i < N; i++) { for (int k = 0; k < i; k++) B(i, c) -= A(k, i) * B(k, c); B(i, c) /= A(i, i); }
      for (int i = N - 1; i >= 0; i--) for (int k = i + 1; k < N; k++) B(i, c) -= A(k, i) * B(k, c);
      for (int i = N - 1; i >= 0; i--) { int p = ipiv[i] - 1; if (p != i) { REAL t = B(i, c); B(i, c) = B(p, c); B(p, c) = t; } }
    }
  }
}
void FN(getri)(const int* n, REAL* a, const int* lda, const int* ipiv, REAL* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = *n; return; } int N = *n; REAL R[64]; for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) R[i + j * N] = i == j ? 1 : 0; FN(getrs)("N", n, n, a, lda, ipiv, R, n, info); for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) A(i, j) = R[i + j * N];
}
void FN(gesv)(const int* n, const int* nrhs, REAL* a, const int* lda, int* ipiv, REAL* b, const int* ldb, int* info) { FN(getrf)(n, n, a, lda, ipiv, info); if (*info == 0) FN(getrs)("N", n, nrhs, a, lda, ipiv, b, ldb, info); }
void FN(symm)(const char* side, const char* uplo, const int* m, const int* n, const REAL* alpha, const REAL* a, const int* lda, const REAL* b, const int* ldb, const REAL* beta, REAL* c, const int* ldc) {
  bool U = up(uplo), L = *side == 'L' || *side == 'l';
  for (int i = 0; i < *m; i++) for (int j = 0; j < *n; j++) { REAL s = 0; if (L) for (int k = 0; k < *m; k++) s += ((i < k) == U || i == k ? A(i, k) : A(k, i)) * B(k, j); else for (int k = 0; k < *n; k++) s += B(i, k) * ((k < j) == U || k == j ? A(k, j) : A(j, k)); C(i, j) = *alpha * s + (*beta == 0 ? 0 : *beta * C(i, j)); }
}
void FN(gemm)(const char* ta, const char* tb, const int* m, const int* n, const int* k, const REAL* alpha, const REAL* a, const int* lda, const REAL* b, const int* ldb, const REAL* beta, REAL* c, const int* ldc) {
  bool TA = tr(ta), TB = tr(tb);
  for (int i = 0; i < *m; i++) for (int j = 0; j < *n; j++) { REAL s = 0; for (int l = 0; l < *k; l++) s += (TA ? A(l, i) : A(i, l)) * (TB ? B(j, l) : B(l, j)); C(i, j) = *alpha * s + (*beta == 0 ? 0 : *beta * C(i, j)); }
}
void FN(gemv)(const char* ta, const int* m, const int* n, const REAL* alpha, const REAL* a, const int* lda, const REAL* x, const int* incx, const REAL* beta, REAL* y, const int* incy) {
  bool T = tr(ta); int R = T ? *n : *m, K = T ? *m : *n;
  for (int i = 0; i < R; i++) { REAL s = 0; for (int k = 0; k < K; k++) s += (T ? A(k, i) : A(i, k)) * x[k * *incx]; y[i * *incy] = *alpha * s + (*beta == 0 ? 0 : *beta * y[i * *incy]); }
}
void FN(syrk)(const char* uplo, const char* trans, const int* n, const int* k, const REAL* alpha, const REAL* a, const int* lda, const REAL* beta, REAL* c, const int* ldc) {
  bool U = up(uplo), T = tr(trans);
  for (int j = 0; j < *n; j++) for (int i = U ? 0 : j; i < (U ? j + 1 : *n); i++) { REAL s = 0; for (int l = 0; l < *k; l++) s += T ? A(l, i) * A(l, j) : A(i, l) * A(j, l); C(i, j) = *alpha * s + (*beta == 0 ? 0 : *beta * C(i, j)); }
}
void FN(trsm)(const char* side, const char* uplo, const char* ta, const char* diag, const int* m, const int* n, const REAL* alpha, const REAL* a, const int* lda, REAL* b, const int* ldb) {
  bool L = *side == 'L' || *side == 'l', U = up(uplo), T = tr(ta), unit = *diag == 'U' || *diag == 'u'; int N = L ? *m : *n, R = L ? *n : *m;
  // solve op(A) X = B (left) or X op(A) = B, i.e. op(A)^T X^T = B^T (right)
  bool eff = L ? T : !T; bool lower = (U == eff);
  for (int r = 0; r < R; r++) {
    for (int q = 0; q < N; q++) { int i = lower ? q : N - 1 - q; REAL s = *alpha * (L ? B(i, r) : B(r, i)); for (int k = lower ? 0 : i + 1; k < (lower ? i : N); k++) s -= (eff ? A(k, i) : A(i, k)) * (L ? B(k, r) : B(r, k)) ; if (!unit) s /= A(i, i); if (L) B(i, r) = s; else B(r, i) = s; }
  }
}
// least squares for a full-rank overdetermined (or square) system: normal equations
void FN(gels)(const char* trans, const int* m, const int* n, const int* nrhs, REAL* a, const int* lda, REAL* b, const int* ldb, REAL* work, const int* lwork, int* info) {
  *info = 0; if (*lwork == -1) { work[0] = 1; return; } int M = *m, N = *n; if (M < N || tr(trans)) abort();
  REAL* G = (REAL*)malloc(sizeof(REAL) * N * N); REAL* y = (REAL*)malloc(sizeof(REAL) * N); int* piv = (int*)malloc(sizeof(int) * N); int one = 1;
  for (int c = 0; c < *nrhs; c++) { for (int i = 0; i < N; i++) { y[i] = 0; for (int k = 0; k < M; k++) y[i] += A(k, i) * B(k, c); for (int j = 0; j < N; j++) { REAL s = 0; for (int k = 0; k < M; k++) s += A(k, i) * A(k, j); G[i + j * N] = s; } }
    FN(gesv)(n, &one, G, n, piv, y, n, info); if (*info) return; for (int i = 0; i < N; i++) B(i, c) = y[i]; }
  free(G); free(y); free(piv);
}

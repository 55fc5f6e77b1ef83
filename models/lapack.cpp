// Small exact implementations of the BLAS/LAPACK routines the code calls (column-major, gfortran ABI).
// They are textbook algorithms over the engine's arithmetic; the native replay links the real libraries.
#include <math.h>
#include <stdlib.h>
#define A(i, j) a[(i) + (long)(j) * *lda]
#define B(i, j) b[(i) + (long)(j) * *ldb]
#define C(i, j) c[(i) + (long)(j) * *ldc]
static bool up(const char* u) { return *u == 'U' || *u == 'u'; }
static bool tr(const char* t) { return *t == 'T' || *t == 't' || *t == 'C' || *t == 'c'; }
// a harness may replace any of these by its own stand-in
#pragma clang attribute push(__attribute__((weak)), apply_to = function)
extern "C" {
#define FN(n) d##n##_
#define REAL double
#include "lapack.inc"
#undef FN
#undef REAL
#define FN(n) s##n##_
#define REAL float
#include "lapack.inc"
}
#pragma clang attribute pop

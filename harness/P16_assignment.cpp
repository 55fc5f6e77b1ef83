//@ property P16
//@ models std
//@ bounds all non-negative cost matrices of 1x1 to 2x3 and 3x2 elements; 3x3, 3x4, 4x3 and 4x4 matrices in which two costs (3x3: three, two of them in one row) anywhere are arbitrary and the others those of the product matrix i*j
//@ assume exact real arithmetic: rounding is not modelled
//@ case a22 steps=1000000
//@ case a21 steps=1000000
//@ case a33 time=200 paths=100000 steps=1000000
//@ case a44 time=200 paths=100000 steps=1000000
//@ case a23 steps=1000000
//@ case a32 steps=1000000
//@ case a34 steps=1000000
//@ case a43 steps=1000000
#include "hmath.h"
#include <utMath/Graph/Munkres.h>
using namespace Math;
static void assign(int R, int C, int block = 0) { Matrix<double, 0, 0> m(R, C); double c[4][4]; int N = R > C ? R : C, r0 = 0, r1 = 0, c0 = 0, c1 = 0; double one = (double)(vp_symbolic() | 1); if (block) { r0 = vp_choice("r0", R); r1 = vp_choice("r1", R); vp_assume(block == 2 ? r0 != r1 : r0 < r1); c0 = vp_choice("c0", C); c1 = vp_choice("c1", C); vp_assume(c0 != c1); } for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { bool sym = !block || (i == r0 && j == c0) || (i == r1 && j == c1) || (block == 2 && i == r0 && j == c1); m(i, j) = c[i][j] = sym ? vp_real("cost") : (i + 1) * (j + 1) * one; if (sym) vp_assume(c[i][j] >= 0); }
  Graph::Munkres<double> k(m); k.solve(); std::vector<std::size_t> r = k.getRowMatchList(), q = k.getColMatchList(); Matrix<double, 0, 0> mask = k.getMaskMatrix();
  vp_assert((int)r.size() >= R && (int)q.size() >= C, "every row and column has an entry"); int pairs = 0; double sum = 0; for (int i = 0; i < R; i++) { for (int j = 0; j < i; j++) vp_assert(r[i] != r[j], "no column is used twice"); if ((int)r[i] < C) { pairs++; sum += c[i][r[i]]; vp_assert((int)q[r[i]] == i, "row and column lists agree"); } for (int j = 0; j < C; j++) vp_assert((mask(i, j) == 1) == ((int)r[i] == j), "mask and lists agree"); }
  vp_assert(pairs == (R < C ? R : C), "as many pairs as possible");
  int p[4] = {0, 1, 2, 3}; int total = 1; for (int i = 2; i <= N; i++) total *= i; for (int z = 0; z < total; z++) { int a[4] = {0, 1, 2, 3}, y = z; for (int i = 0; i < N; i++) { int j = i + y % (N - i); y /= N - i; int t = a[i]; a[i] = a[j]; a[j] = t; } double s = 0; for (int i = 0; i < R; i++) if (a[i] < C) s += c[i][a[i]]; vp_assert_le(sum, s, "no other assignment is cheaper"); } (void)p; }
VP_CASE(a11) { assign(1, 1); }
VP_CASE(a22) { assign(2, 2); }
VP_CASE(a12) { assign(1, 2); }
VP_CASE(a21) { assign(2, 1); }
VP_CASE(a13) { assign(1, 3); }
VP_CASE(a31) { assign(3, 1); }
VP_CASE(a23) { assign(2, 3); }
VP_CASE(a32) { assign(3, 2); }
VP_CASE(a33) { assign(3, 3, 2); }
VP_CASE(a34) { assign(3, 4, 1); }
VP_CASE(a43) { assign(4, 3, 1); }
VP_CASE(a44) { assign(4, 4, 1); }

//@ property P11
//@ sources utUtil/Exception.cpp
//@ libs log4cpp
//@ bounds every conic with real coefficients for evaluation, translation, scaling, flipping, inversion, determinant, classification, centre and limits; ellipses of every size, position and 3-4-5 type rotation for angle, axes and area; projections of quadrics and ellipsoids by every 3x4 matrix
//@ assume exact real arithmetic: rounding is not modelled
//@ assume ellipses are written with positive quadratic coefficients where an orientation is asked for
#include "hmath.h"
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/QuadricFunctors.h>
#include <utUtil/Exception.h>
#include <cmath>
using namespace Math; using namespace Math::Geometry; typedef Vector<double, 6> V6;
static double ev(const V6& c, double x, double y) { return c(0) * x * x + c(1) * x * y + c(2) * y * y + c(3) * x + c(4) * y + c(5); }
VP_CASE(matrix) { V6 c = inVec<6>("c"); double x = vp_real("x"), y = vp_real("y"), w = vp_real("w"); M33 m = MatrixFromConic<double>()(c); double h[3] = {x, y, w}, s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s += h[i] * m(i, j) * h[j]; vp_assert_eq(m(i, j), m(j, i), "conic matrix is symmetric"); } vp_assert_eq(s, c(0) * x * x + c(1) * x * y + c(2) * y * y + c(3) * x * w + c(4) * y * w + c(5) * w * w, "conic matrix is the conic's quadratic form"); V6 b = ConicFromMatrix<double>()(m); eqV(b, c, 6, "conic to matrix and back"); M33 n = inMat<3, 3>("n"); V6 d = ConicFromMatrix<double>()(n); s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += h[i] * n(i, j) * h[j]; vp_assert_eq(s, d(0) * x * x + d(1) * x * y + d(2) * y * y + d(3) * x * w + d(4) * y * w + d(5) * w * w, "conic of any matrix"); Conic<double> e(c); eqV(e, c, 6, "conic keeps its coefficients"); }
VP_CASE(pixel) { V6 c = inVec<6>("c"); V2 p = inV2("p"); vp_assert_eq(ConicPixel<double>()(c, p), ev(c, p(0), p(1)), "algebraic distance of a pixel"); }
static double det(const V6& c) { M33 m = MatrixFromConic<double>()(c); return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)); }
VP_CASE(determinant) { V6 c = inVec<6>("c"); vp_assert_eq(ConicDeterminant<double>()(c), det(c), "determinant"); }
VP_CASE(inverse) { V6 c = inVec<6>("c"); vp_assume(det(c) != 0); M33 m = MatrixFromConic<double>()(c), n = MatrixFromConic<double>()(ConicInverse<double>()(c)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += m(i, k) * n(k, j); vp_assert_eq(s, i == j, "inverse conic"); } }
VP_CASE(translate) { V6 c = inVec<6>("c"); V2 t = inV2("t"); double x = vp_real("x"), y = vp_real("y"); V6 d = TranslateConic<double>()(t, c); vp_assert_eq(ev(d, x + t(0), y + t(1)), ev(c, x, y), "translated conic goes through the translated points"); }
VP_CASE(scale) { V6 c = inVec<6>("c"); double x = vp_real("x"), y = vp_real("y"), sa = vp_real("sa"), sb = vp_real("sb"); vp_assume(sa != 0); vp_assume(sb != 0); vp_assert_eq(ev(ScaleConicUnsafe<double>(sa, sb)(c), sa * x, sb * y), ev(c, x, y), "scaled conic goes through the scaled points"); vp_assert_eq(ev(ScaleConicUnsafe<double>(sa)(c), sa * x, sa * y), ev(c, x, y), "scaled conic goes through the scaled points"); }
VP_CASE(flip) { V6 c = inVec<6>("c"); double x = vp_real("x"), y = vp_real("y"), h = vp_real("h"); vp_assert_eq(ev(FlipConicHorizontal<double>(h)(c), x, h - 1 - y), ev(c, x, y), "flipped conic goes through the flipped points"); }
VP_CASE(center) { V6 c = inVec<6>("c"); double D = c(1) * c(1) - 4 * c(0) * c(2); vp_assume(D != 0); V2 p = ConicCenter<double>()(c); vp_assert_eq(2 * c(0) * p(0) + c(1) * p(1) + c(3), 0, "gradient vanishes at the centre"); vp_assert_eq(c(1) * p(0) + 2 * c(2) * p(1) + c(4), 0, "gradient vanishes at the centre"); }
//@ case center_parabola search=no
VP_CASE(center_parabola) { V6 c = inVec<6>("c"); double u = vp_real("u"), v = vp_real("v"); c(0) = u * u; c(1) = 2 * u * v; c(2) = v * v; bool t = false; try { ConicCenter<double>()(c); } catch (const Ubitrack::Util::Exception&) { t = true; } vp_assert(t, "a conic without a centre is refused"); }
VP_CASE(classify) { V6 c = inVec<6>("c"); double D = c(1) * c(1) - 4 * c(0) * c(2); vp_assert(IsConicEllipse<double>()(c) == (D < 0), "ellipse"); vp_assert(IsConicHyperbola<double>()(c) == (D > 0), "hyperbola"); double e = vp_real("e"); vp_assume(e > 0); vp_assert(IsConicParabola<double>(e)(c) == (D < e && D > -e), "parabola within tolerance"); double d = det(c); vp_assert(IsConicDegenerate<double>(e)(c) == (d < e && d > -e), "degenerate within tolerance"); }
VP_CASE(classify_circle) { V6 c = inVec<6>("c"); double e = vp_real("e"); vp_assume(e > 0); double k = c(0) - c(2); vp_assert(IsConicCircle<double>(e)(c) == (c(1) <= e && c(1) >= -e && k <= e && k >= -e && c(1) * c(1) < 4 * c(0) * c(2)), "circle within tolerance"); }
// extreme points: the tangent there is horizontal (vertical) and the pair is sorted
static void ellipse(V6& c) { c = inVec<6>("c"); vp_assume(c(0) > 0); vp_assume(c(2) > 0); vp_assume(4 * c(0) * c(2) - c(1) * c(1) > 0); vp_assume(det(c) < 0); }
VP_CASE(limits_y) { V6 c; ellipse(c); V2 l = ConicUpperLowerLimit<double>()(c); vp_assert(l(0) < l(1), "lower limit first"); for (int i = 0; i < 2; i++) { double x = -(c(1) * l(i) + c(3)) / (2 * c(0)); vp_assert_eq(ev(c, x, l(i)), 0, "horizontal tangent touches the conic"); } }
VP_CASE(limits_x) { V6 c; ellipse(c); V2 l = ConicLeftRightLimit<double>()(c); vp_assert(l(0) < l(1), "left limit first"); for (int i = 0; i < 2; i++) { double y = -(c(1) * l(i) + c(4)) / (2 * c(2)); vp_assert_eq(ev(c, l(i), y), 0, "vertical tangent touches the conic"); } }
VP_CASE(horizontal_line) { V6 c = inVec<6>("c"); double y = vp_real("y"); vp_assume(c(0) != 0); double b = c(1) * y + c(3), k = c(2) * y * y + c(4) * y + c(5); vp_assume(b * b - 4 * c(0) * k > 0); V2 x = ConicHorizontalIntersection<double>()(c, y); vp_assert(x(0) < x(1), "left intersection first"); vp_assert_eq(ev(c, x(0), y), 0, "intersection lies on the conic"); vp_assert_eq(ev(c, x(1), y), 0, "intersection lies on the conic"); }
// ellipses with semi-axes p >= q at (u,v), major axis along the unit vector (n0,n1); scaled by k > 0
static void mk(double n0, double n1, double p, double q, double u, double v, double k, V6& c) { double a = n0 * n0 / (p * p) + n1 * n1 / (q * q), b = 2 * n0 * n1 * (1 / (p * p) - 1 / (q * q)), d = n1 * n1 / (p * p) + n0 * n0 / (q * q); c(0) = k * a; c(1) = k * b; c(2) = k * d; c(3) = -k * (2 * a * u + b * v); c(4) = -k * (b * u + 2 * d * v); c(5) = k * (a * u * u + b * u * v + d * v * v - 1); }
static const double dirs[10][2] = {{1, 0}, {0, 1}, {0.6, 0.8}, {0.8, 0.6}, {0.6, -0.8}, {0.8, -0.6}, {5. / 13, 12. / 13}, {-12. / 13, 5. / 13}, {0.28, 0.96}, {-0.96, 0.28}};
static void inEllipse(int i, double& p, double& q, V6& c) { q = vp_real("q"); p = vp_real("p"); vp_assume(q > 0.1); vp_assume(p > q); vp_assume(p < 100); double u = vp_real("u"), v = vp_real("v"), k = vp_real("k"); vp_assume(k > 0); double one = (double)(vp_symbolic() | 1); double n0 = dirs[i][0], n1 = dirs[i][1]; if (i == 2 || i == 3 || i == 4 || i == 5) { int a = i == 2 || i == 4 ? 3 : 4; n0 = a * one / 5; n1 = (i > 3 ? -1 : 1) * (7 - a) * one / 5; } else if (i == 6) { n0 = 5 * one / 13; n1 = 12 * one / 13; } else if (i == 7) { n0 = -12 * one / 13; n1 = 5 * one / 13; } else if (i == 8) { n0 = 7 * one / 25; n1 = 24 * one / 25; } else if (i == 9) { n0 = -24 * one / 25; n1 = 7 * one / 25; } mk(n0, n1, p, q, u, v, k, c); }
static void axes(int i) { double p, q; V6 c; inEllipse(i, p, q, c); V2 ax = ConicSemiAxes<double>()(c); vp_assert_eq(ax(0), p, "major semi-axis"); vp_assert_eq(ax(1), q, "minor semi-axis"); vp_assert_eq(ConicArea<double>()(c), M_PI * p * q, "area"); double t = ConicAngle<double>()(c), n0 = std::cos(t), n1 = std::sin(t); double g0 = c(0) * n0 + c(1) / 2 * n1, g1 = c(1) / 2 * n0 + c(2) * n1; vp_assert_eq(g0 * n1 - g1 * n0, 0, "angle is that of an axis"); double m0 = c(0) * n1 * n1 - c(1) * n0 * n1 + c(2) * n0 * n0, m1 = g0 * n0 + g1 * n1; vp_assert(m1 < m0, "angle is that of the major axis"); double e = ConicEccentricity<double>()(c); vp_assert_eq(e * e * p * p, p * p - q * q, "eccentricity"); vp_assert(e >= 0, "eccentricity is not negative"); for (int j = 0; j < 6; j++) c(j) = -c(j); e = ConicEccentricity<double>()(c); vp_assert_eq(e * e * p * p, p * p - q * q, "eccentricity of the negated coefficients"); }
VP_CASE(axes_0) { axes(0); }
VP_CASE(axes_90) { axes(1); }
VP_CASE(axes_53) { axes(2); }
VP_CASE(axes_37) { axes(3); }
VP_CASE(axes_m53) { axes(4); }
VP_CASE(axes_m37) { axes(5); }
VP_CASE(axes_67) { axes(6); }
VP_CASE(axes_157) { axes(7); }
VP_CASE(axes_74) { axes(8); }
VP_CASE(axes_164) { axes(9); }
// ellipses along the diagonals (equal quadratic coefficients) and circles
static void diagonal(int s) { double al = vp_real("al"), be = vp_real("be"), f = vp_real("f"); vp_assume(be > 0.001); vp_assume(2 * al - be > 0.001); vp_assume(f > 0.01); V6 c; c(0) = c(2) = al; c(1) = s * be; c(3) = c(4) = 0; c(5) = -f; /* eigenvalues al +- be/2 */ double p2 = f / (al - be / 2), q2 = f / (al + be / 2); V2 ax = ConicSemiAxes<double>()(c); vp_assert_eq(ax(0) * ax(0), p2, "major semi-axis of a diagonal ellipse"); vp_assert_eq(ax(1) * ax(1), q2, "minor semi-axis of a diagonal ellipse"); double t = ConicAngle<double>()(c); vp_assert_eq(std::cos(t) * std::sin(t), -0.5 * s, "angle of a diagonal ellipse"); double e = ConicEccentricity<double>()(c); vp_assert_eq(e * e * p2, p2 - q2, "eccentricity of a diagonal ellipse"); }
VP_CASE(diagonal_neg) { diagonal(1); }
VP_CASE(diagonal_pos) { diagonal(-1); }
VP_CASE(circle) { double a = vp_real("a"), u = vp_real("u"), v = vp_real("v"), r = vp_real("r"); vp_assume(a > 0.01); vp_assume(r > 0.01); V6 c; mk(1, 0, r, r, u, v, a, c); c(0) = c(2); vp_tol(1e-4); V2 ax = ConicSemiAxes<double>()(c); vp_assert_eq(ax(0), r, "radius of a circle"); vp_assert_eq(ax(1), r, "radius of a circle"); vp_assert_eq(ConicArea<double>()(c), M_PI * r * r, "area of a circle"); vp_assert_eq(ConicEccentricity<double>()(c), 0, "eccentricity of a circle"); }
// quadrics (dual form, upper triangle a f g p / b h q / c r / d) project to the conic whose dual is P Q P^T
static void quadMat(const Vector<double, 10>& q, double Q[4][4]) { static const int id[4][4] = {{0, 3, 4, 6}, {3, 1, 5, 7}, {4, 5, 2, 8}, {6, 7, 8, 9}}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) Q[i][j] = q(id[i][j]); }
static void checkProj(const M34& P, const double Q[4][4], bool ell, const V6& el) {
  double D[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { D[i][j] = 0; for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) D[i][j] += P(i, k) * Q[k][l] * P(j, l); }
  double dt = 0; for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; dt += D[0][i] * (D[1][a] * D[2][b] - D[1][b] * D[2][a]); } vp_assume(dt != 0);
  V6 c; if (ell) c = ProjectEllipsoid<double>()(P, el); else { Vector<double, 10> q; static const int id[4][4] = {{0, 3, 4, 6}, {3, 1, 5, 7}, {4, 5, 2, 8}, {6, 7, 8, 9}}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) q(id[i][j]) = Q[i][j]; c = ProjectQuadric<double>()(P, q); }
  M33 m = MatrixFromConic<double>()(c); double s[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { s[i][j] = 0; for (int k = 0; k < 3; k++) s[i][j] += m(i, k) * D[k][j]; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(s[i][j], i == j ? s[0][0] : 0, "projected outline is dual to P Q P^T"); vp_assert(s[0][0] != 0, "projected outline is a proper conic"); }
static M34 inP(int kind) { M34 P; if (kind == 0) return inMat<3, 4>("P"); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) P(i, j) = 0; static const double A[3][4] = {{2, 1, 3, 0}, {1, -1, 2, 5}, {0, 3, 1, 2}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) P(i, j) = A[i][j]; for (int j = 0; j < 4; j++) P(kind - 1, j) = vp_real("P"); return P; }
static V6 inEll() { V6 e = inVec<6>("e"); return e; }
static void ellQ(const V6& e, double Q[4][4]) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double ci = i < 3 ? e(3 + i) : 1, cj = j < 3 ? e(3 + j) : 1; Q[i][j] = (i == j && i < 3 ? e(i) * e(i) : 0) - ci * cj; } }
VP_CASE(ellipsoid_quadric) { V6 e = inEll(); double Q[4][4], R[4][4]; ellQ(e, Q); quadMat(Ellipsoid2Quadric<double>()(e), R); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) vp_assert_eq(R[i][j], Q[i][j], "dual quadric of an ellipsoid"); Vector<double, 10> v = inVec<10>("v"); Quadric<double> w(v); eqV(w, v, 10, "quadric keeps its coefficients"); }
static void projQ(int k) { Vector<double, 10> q = inVec<10>("Q"); double Q[4][4]; quadMat(q, Q); checkProj(inP(k), Q, false, V6()); }
static void projE(int k) { V6 e = inEll(); double Q[4][4]; ellQ(e, Q); checkProj(inP(k), Q, true, e); }
VP_CASE(project_quadric_1) { projQ(1); }
VP_CASE(project_quadric_2) { projQ(2); }
VP_CASE(project_quadric_3) { projQ(3); }
//@ case project_ellipsoid_1 search=no
VP_CASE(project_ellipsoid_1) { projE(1); }
//@ case project_ellipsoid_2 search=no
VP_CASE(project_ellipsoid_2) { projE(2); }
//@ case project_ellipsoid_3 search=no
VP_CASE(project_ellipsoid_3) { projE(3); }
//@ case spheroid search=no
VP_CASE(spheroid) { V4 s = inVec<4>("s"); V6 e; e(0) = s(0); e(1) = s(0); e(2) = s(1); e(3) = s(2); e(4) = s(3); e(5) = s(1); M34 P = inP(1); double Q[4][4]; ellQ(e, Q); double D[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { D[i][j] = 0; for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) D[i][j] += P(i, k) * Q[k][l] * P(j, l); } double dt = 0; for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; dt += D[0][i] * (D[1][a] * D[2][b] - D[1][b] * D[2][a]); } vp_assume(dt != 0);
  V6 a = ProjectSpheroid<double>()(P, s), b = ProjectEllipsoid<double>()(P, e); eqV(a, b, 6, "a spheroid standing on the ground is the ellipsoid with its height as third semi-axis and z position"); }

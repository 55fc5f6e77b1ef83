// shared helpers: inputs of the library's types and independent reference formulas
#pragma once
#include "vp.h"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
using namespace Ubitrack;
typedef Math::Vector<double, 2> V2; typedef Math::Vector<double, 3> V3; typedef Math::Vector<double, 4> V4;
typedef Math::Matrix<double, 2, 2> M22; typedef Math::Matrix<double, 3, 3> M33; typedef Math::Matrix<double, 4, 4> M44; typedef Math::Matrix<double, 3, 4> M34;
static inline Math::Quaternion inUnitQ(const char* n) { double q[4]; vp_unit(q, 4, n); return Math::Quaternion(q[0], q[1], q[2], q[3]); }
static inline Math::Quaternion inQ(const char* n) { double x = vp_real(n), y = vp_real(n), z = vp_real(n), w = vp_real(n); return Math::Quaternion(x, y, z, w); }
static inline V3 inV3(const char* n) { double x = vp_real(n), y = vp_real(n), z = vp_real(n); return V3(x, y, z); }
static inline V2 inV2(const char* n) { double x = vp_real(n), y = vp_real(n); return V2(x, y); }
static inline V3 inUnit3(const char* n) { double v[3]; vp_unit(v, 3, n); return V3(v[0], v[1], v[2]); }
static inline Math::Pose inPose(const char* q, const char* t) { Math::Quaternion r = inUnitQ(q); return Math::Pose(r, inV3(t)); }
template <std::size_t M, std::size_t N> static inline Math::Matrix<double, M, N> inMat(const char* n) { Math::Matrix<double, M, N> m; for (std::size_t i = 0; i < M; i++) for (std::size_t j = 0; j < N; j++) m(i, j) = vp_real(n); return m; }
template <std::size_t N> static inline Math::Matrix<double, N, N> inSym(const char* n) { Math::Matrix<double, N, N> m; for (std::size_t i = 0; i < N; i++) for (std::size_t j = i; j < N; j++) m(i, j) = m(j, i) = vp_real(n); return m; }
template <std::size_t N> static inline Math::Vector<double, N> inVec(const char* n) { Math::Vector<double, N> v; for (std::size_t i = 0; i < N; i++) v(i) = vp_real(n); return v; }
// reference rotation matrix of a quaternion (x,y,z,w), written out independently: R = I + 2w[v]x + 2[v]x[v]x
static inline void refRot(double x, double y, double z, double w, double R[3][3]) {
  double K[3][3] = {{0, -z, y}, {z, 0, -x}, {-y, x, 0}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double k2 = 0; for (int k = 0; k < 3; k++) k2 += K[i][k] * K[k][j]; R[i][j] = (i == j ? 1 : 0) + 2 * w * K[i][j] + 2 * k2; }
}
static inline void refRot(const Math::Quaternion& q, double R[3][3]) { refRot(q.x(), q.y(), q.z(), q.w(), R); }
static inline void mul33(const double A[3][3], const double B[3][3], double C[3][3]) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { C[i][j] = 0; for (int k = 0; k < 3; k++) C[i][j] += A[i][k] * B[k][j]; } }
template <class A, class B> static inline void eqV(const A& a, const B& b, int n, const char* l) { for (int i = 0; i < n; i++) vp_assert_eq(a(i), b(i), l); }
template <class A, class B> static inline void eqM(const A& a, const B& b, int m, int n, const char* l) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) vp_assert_eq(a(i, j), b(i, j), l); }
static inline void eqR(const double A[3][3], const double B[3][3], const char* l) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(A[i][j], B[i][j], l); }
template <class M> static inline void eqRM(const M& A, const double B[3][3], const char* l) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert_eq(A(i, j), B[i][j], l); }

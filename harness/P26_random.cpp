//@ property P26
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ libs log4cpp
//@ bounds every output of the random engine (32 bits); at most two rejected outputs per integer; limits up to 2e6 in size; vectors of 2 to 4 elements, matrices of 2x3; normal distributions for 20 fixed engine sequences and every mean and deviation
//@ assume exact real arithmetic: rounding is not modelled
//@ assume the engine (mt19937) is replaced by an arbitrary sequence of 32-bit outputs; boost's distributions are executed
#include "hmath.h"
#include <boost/version.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/normal_distribution.hpp>
// the engine: symbolic outputs that are remembered, so that the same outputs can be played again; or a fixed sequence
static unsigned vp_drawn[16], vp_ndrawn, vp_next, vp_small; static uint64_t vp_fixed;
static unsigned vp_draw() { if (vp_fixed) { vp_fixed = vp_fixed * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(vp_fixed >> 32); } if (vp_next == vp_ndrawn) { if (vp_ndrawn == 16) vp_end_path(); vp_drawn[vp_ndrawn] = vp_u32("engine"); if (vp_small && vp_ndrawn > 1) vp_assume(vp_drawn[vp_ndrawn] < 0x80000000u); vp_ndrawn++; } return vp_drawn[vp_next++]; }
static void fresh() { vp_ndrawn = vp_next = vp_small = 0; vp_fixed = 0; }
static void again() { vp_next = 0; }
namespace boost { struct vp_engine { typedef unsigned int result_type; static result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0xffffffffu; } result_type operator()() { return vp_draw(); } }; }
#define mt19937 vp_engine
#include <utMath/Random/Scalar.h>
#include <utMath/Random/Vector.h>
#include <utMath/Random/Matrix.h>
#include <utMath/Random/Rotation.h>
#include <utMath/Random/Pose.h>
#undef mt19937
using namespace Math;
static void range(double& lo, double& hi) { lo = vp_real("min"); vp_in(lo, -1e6, 1e6); double d = vp_real("width"); vp_in(d, 0.001, 1e6); hi = lo + d; }
static void inside(double v, double lo, double hi, const char* what) { vp_assert(v >= lo, what); vp_assert(v < hi, what); }
VP_CASE(real) { fresh(); double lo, hi; range(lo, hi); inside(Random::distribute_uniform<double>(lo, hi), lo, hi, "a uniform number lies in its range"); }
VP_CASE(integer) { fresh(); vp_small = 1; int lo = vp_choice("min", 3) * 50 - 50, n = vp_choice("width", 4); int v = Random::distribute_uniform<int>(lo, lo + n); vp_assert(v >= lo && v <= lo + n, "a uniform integer lies in its range"); }
VP_CASE(vector) { fresh(); double lo, hi; range(lo, hi); Random::Vector<double, 3>::Uniform u(lo, hi), r(hi, lo); Vector<double, 3> v = u(), w = r(); for (int i = 0; i < 3; i++) { inside(v(i), lo, hi, "every element lies in the range"); inside(w(i), lo, hi, "the limits may be given in either order"); } }
VP_CASE(vector_separate) { fresh(); Vector<double, 2> lo, hi; range(lo(0), hi(0)); range(lo(1), hi(1)); Random::Vector<double, 2>::Uniform u(lo, hi); Vector<double, 2> v = u(); for (int i = 0; i < 2; i++) inside(v(i), lo(i), hi(i), "every element lies in its own range"); }
VP_CASE(matrix) { fresh(); double lo, hi; range(lo, hi); Random::Matrix<double, 2, 3>::Uniform r(hi, lo); Matrix<double, 2, 3> m = r(); for (int i = 0; i < 6; i++) inside(m(i / 3, i % 3), lo, hi, "every element lies in the range, given in either order"); }
static double norm2(const Quaternion& q) { return q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w(); }
VP_CASE(rotation) { fresh(); Random::Quaternion<double>::Uniform u; Quaternion q = u(); vp_assert_eq(norm2(q), 1, "a random rotation is a unit quaternion"); }
// the documented method: the first number splits the length between two circles, the others go around the whole circle each
VP_CASE(rotation_split) { fresh(); Random::Quaternion<double>::Uniform u; Quaternion q = u(); again(); double x = Random::distribute_uniform<double>(0, 1); vp_assert_eq(q.z() * q.z() + q.w() * q.w(), x, "the squared length is split uniformly between the two circles"); }
VP_CASE(rotation_quadrants) { fresh(); int y = vp_choice("y", 4), z = vp_choice("z", 4); vp_drawn[0] = 0x60000000u; vp_drawn[1] = 0x20000000u + 0x40000000u * y; vp_drawn[2] = 0x20000000u + 0x40000000u * z; vp_ndrawn = 3; Quaternion q = Random::Quaternion<double>::Uniform()();
  vp_assert((q.x() > 0) == (y < 2) && (q.y() > 0) == (y == 0 || y == 3), "the second number goes around the first circle"); vp_assert((q.z() > 0) == (z < 2) && (q.w() > 0) == (z == 0 || z == 3), "the third number goes around the second circle"); }
// numbers are spread evenly: the number is the affine image of the one drawn from [0,1)
VP_CASE(real_even) { fresh(); double lo, hi; range(lo, hi); double v = Random::distribute_uniform<double>(lo, hi); again(); double u = Random::distribute_uniform<double>(0, 1); vp_assert_eq(v, lo + (hi - lo) * u, "numbers are spread evenly over the range"); }
VP_CASE(real_unit) { fresh(); double u = Random::distribute_uniform<double>(0, 1); vp_assert(vp_ndrawn == 1, "one engine output per number"); uint64_t k = vp_drawn[0]; double e = (double)k / 4294967296.0; vp_assert_eq(u, e, "numbers are spread evenly over [0,1)"); }
VP_CASE(real_float) { fresh(); float u = Random::distribute_uniform<float>(-1, 3); vp_assert(u >= -1 && u <= 3, "a uniform number lies in its range"); }
VP_CASE(vector_even) { fresh(); Vector<double, 3> lo, hi; for (int i = 0; i < 3; i++) range(lo(i), hi(i)); Random::Vector<double, 3>::Uniform u(lo, hi); Vector<double, 3> v = u(); again(); for (int i = 0; i < 3; i++) { double x = Random::distribute_uniform<double>(0, 1); vp_assert_eq(v(i), lo(i) + (hi(i) - lo(i)) * x, "elements are drawn independently and spread evenly over their ranges"); } }
VP_CASE(vector_function) { fresh(); double lo, hi; range(lo, hi); Vector<double, 4> v = Random::distribute_uniform<double, 4>(lo, hi); again(); for (int i = 0; i < 4; i++) { double x = Random::distribute_uniform<double>(0, 1); vp_assert_eq(v(i), lo + (hi - lo) * x, "elements are drawn independently and spread evenly over the range"); } }
VP_CASE(matrix_even) { fresh(); double lo, hi; range(lo, hi); Random::Matrix<double, 2, 3>::Uniform u(lo, hi); Matrix<double, 2, 3> m = u(); again(); for (int i = 0; i < 6; i++) { double x = Random::distribute_uniform<double>(0, 1); vp_assert_eq(m(i / 3, i % 3), lo + (hi - lo) * x, "elements are drawn independently and spread evenly over the range"); } }
// normal distributions: mean and standard deviation shift and scale the standard normal number (fixed engine sequences)
static double standard() { return Random::distribute_normal<double>(0, 1); }
VP_CASE(normal) { fresh(); uint64_t seed = 1 + vp_choice("seed", 20); vp_fixed = seed; double mu = vp_real("mean"), s = vp_real("deviation"); vp_assume(s >= 0); double v = Random::distribute_normal<double>(mu, s); vp_fixed = seed; vp_assert_eq(v, mu + s * standard(), "mean and deviation shift and scale the number"); }
VP_CASE(normal_vector) { fresh(); uint64_t seed = 1 + vp_choice("seed", 20); vp_fixed = seed; Vector<double, 3> mu, s; for (int i = 0; i < 3; i++) { mu(i) = vp_real("mean"); s(i) = vp_real("deviation"); vp_assume(s(i) >= 0); } Vector<double, 3> v = Random::Vector<double, 3>::Normal(mu, s)(); vp_fixed = seed; for (int i = 0; i < 3; i++) vp_assert_eq(v(i), mu(i) + s(i) * standard(), "every element has its own mean and deviation"); }
VP_CASE(normal_vector_scalar) { fresh(); uint64_t seed = 1 + vp_choice("seed", 20); vp_fixed = seed; double mu = vp_real("mean"), s = vp_real("deviation"); vp_assume(s >= 0); Vector<double, 3> v = Random::Vector<double, 3>::Normal(mu, s)(), w = Random::distribute_normal<double, 3>(mu, s); vp_fixed = seed; for (int i = 0; i < 3; i++) vp_assert_eq(v(i), mu + s * standard(), "all elements share mean and deviation"); for (int i = 0; i < 3; i++) vp_assert_eq(w(i), mu + s * standard(), "all elements share mean and deviation"); }
VP_CASE(pose) { fresh(); Vector<double, 3> lo, hi; for (int i = 0; i < 3; i++) range(lo(i), hi(i)); Random::Pose<double>::Uniform u(lo, hi); Pose p = u(); for (int i = 0; i < 3; i++) inside(p.translation()(i), lo(i), hi(i), "the translation lies in its range"); Quaternion q = p.rotation(); vp_assert_eq(norm2(q), 1, "the rotation is a unit quaternion"); }
VP_CASE(pose_scalar) { fresh(); double lo, hi; range(lo, hi); Random::Pose<double>::Uniform u(hi, lo); Pose p = u(); for (int i = 0; i < 3; i++) inside(p.translation()(i), lo, hi, "the translation lies in the range"); }

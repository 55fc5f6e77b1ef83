// Harness interface.  The same harness source is compiled (a) to LLVM bitcode and executed
// symbolically by utsym and (b) natively with VP_NATIVE, linked against the real libraries, to
// replay the solver's counterexamples.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
double vp_real(const char* name);                        // arbitrary real (native: from the replay file)
void vp_unit(double* out, int n, const char* name);      // arbitrary point on the unit sphere in R^n
uint64_t vp_u64(const char* name); uint32_t vp_u32(const char* name); uint8_t vp_u8(const char* name);
double vp_bits64(const char* name);                      // double with arbitrary bit pattern
float vp_bits32(const char* name);
int vp_choice(const char* name, int n);                  // arbitrary value in [0,n), one path per value
uint64_t vp_concrete(uint64_t x);
void vp_assume(int c); void vp_assert(int c, const char* label);
void vp_assert_eq(double a, double b, const char* label);       // equal (native: within tolerance)
void vp_assert_le(double a, double b, const char* label);
void vp_assert_eq_u64(uint64_t a, uint64_t b, const char* label);
void vp_assert_same(double a, double b, const char* label);     // identical bit patterns
void vp_reach(const char* label);
int vp_symbolic();
double vp_deriv(double f, double x);                     // symbolic runs only
void vp_print(const char* n, double v); void vp_print_i(const char* n, long v);
void vp_trigden(int n);
void vp_end_path();
void vp_tol(double t);                                   // native: comparison tolerance for this case
}
#ifdef VP_NATIVE
struct VpReg { VpReg(const char* n, void (*f)()); };
#define VP_CASE(name) extern "C" void vp_case_##name(); static VpReg vp_reg_##name(#name, vp_case_##name); extern "C" void vp_case_##name()
#else
#define VP_CASE(name) extern "C" void vp_case_##name()
#endif
static inline void vp_in(double x, double lo, double hi) { vp_assume((x >= lo) & (x <= hi)); }
// J[i*nx+j] must be d f_i / d x_j at x (x: inputs obtained from vp_real)
template <class F> static void vp_check_jacobian(F f, const double* x, int nx, int ny, const double* J, const char* label) {
  double y[64];
  if (vp_symbolic()) { f(x, y); for (int i = 0; i < ny; i++) for (int j = 0; j < nx; j++) vp_assert_eq(J[i * nx + j], vp_deriv(y[i], x[j]), label); }
  else { double z[64], y2[64]; for (int j = 0; j < nx; j++) z[j] = x[j];
    for (int j = 0; j < nx; j++) { double h = 1e-5 * (1 + (x[j] < 0 ? -x[j] : x[j])); z[j] = x[j] + h; f(z, y); z[j] = x[j] - h; f(z, y2); z[j] = x[j]; for (int i = 0; i < ny; i++) vp_assert_eq(J[i * nx + j], (y[i] - y2[i]) / (2 * h), label); } }
}

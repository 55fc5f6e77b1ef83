// Native replay runtime: runs one case of the harness on concrete inputs against the real build.
//   vp_native CASE FILE          replay the inputs of FILE
//   vp_native CASE --random N SEED [LABEL]   N random inputs (translator validation / confirmation of a solver verdict)
#define VP_NATIVE
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <random>
#include <string>
#include <typeinfo>
struct Skip {};
static std::map<std::string, void (*)()>& regs() { static std::map<std::string, void (*)()> m; return m; }
VpReg::VpReg(const char* n, void (*f)()) { regs()[n] = f; }
static std::map<std::string, std::string> IN; static std::map<std::string, int> CNT; static std::map<std::string, std::string> USED; static bool RANDOM = false; static std::mt19937_64 RNG(1);
static std::string LASTWHY; static double TOL0 = 1e-6, TOL = 1e-6; static int FAILS = 0; static std::string FIRST; static std::string ONLY; static long NASSERT = 0, NSKIP = 0; static double PERTURB = 0; static bool SEARCH = false; static bool wild(double a, double b) { return SEARCH && !(std::fabs(a) < 1e5 && std::fabs(b) < 1e5); } // near a singularity rounding errors decide
static std::string nm(const char* n) { int k = CNT[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static double rndReal() { int k = RNG() % 8; if (k == 0) return (double)((int)(RNG() % 7) - 3); std::uniform_real_distribution<double> u(-1, 1); double s = k < 5 ? 1.0 : k < 7 ? 4.0 : 20.0; return u(RNG) * s; }
static bool get(const std::string& n, std::string& v) { auto i = IN.find(n); if (i == IN.end()) return false; v = i->second; return true; }
static void use(const std::string& n, double v) { char b[64]; snprintf(b, 64, "%.17g", v); USED[n] = b; }
extern "C" double vp_real(const char* n) { std::string k = nm(n), v; double d = (!RANDOM && get(k, v)) ? strtod(v.c_str(), 0) : rndReal(); if (PERTURB && !RANDOM) d += PERTURB * rndReal(); use(k, d); return d; }
extern "C" void vp_unit(double* o, int n, const char* name) { std::string k = nm(name), v; double s = 0; std::normal_distribution<double> g; for (int i = 0; i < n; i++) { std::string e = k + "_" + std::to_string(i); o[i] = (!RANDOM && get(e, v)) ? strtod(v.c_str(), 0) + PERTURB * rndReal() : g(RNG); s += o[i] * o[i]; } s = std::sqrt(s); for (int i = 0; i < n; i++) { o[i] /= s; use(k + "_" + std::to_string(i), o[i]); } }
static uint64_t u(const char* n, int w) { std::string k = nm(n), v; uint64_t x; if (!RANDOM && get(k, v)) x = strtoull(v.c_str(), 0, 10); else { x = RNG(); int m = RNG() % 4; if (m == 0) x &= 7; else if (m == 1) x = ~(x & 7); } if (w < 64) x &= (1ull << w) - 1; USED[k] = std::to_string(x); return x; }
extern "C" uint64_t vp_u64(const char* n) { return u(n, 64); }
extern "C" uint32_t vp_u32(const char* n) { return u(n, 32); }
extern "C" uint8_t vp_u8(const char* n) { return u(n, 8); }
extern "C" double vp_bits64(const char* n) { uint64_t b = u(n, 64); double d; memcpy(&d, &b, 8); return d; }
extern "C" float vp_bits32(const char* n) { uint32_t b = u(n, 32); float d; memcpy(&d, &b, 4); return d; }
extern "C" int vp_choice(const char* n, int m) { std::string k = nm(n), v; uint64_t x = (!RANDOM && get(k, v)) ? strtoull(v.c_str(), 0, 10) : RNG(); if (x >= (uint64_t)m) x = RANDOM ? x % m : m - 1; USED[k] = std::to_string(x); return (int)x; }
extern "C" uint64_t vp_concrete(uint64_t x) { return x; }
extern "C" void vp_assume(int c) { if (!c) throw Skip(); }
extern "C" void vp_end_path() { throw Skip(); }
static bool FIRSTRUN = false; // of two runs of a case the second is judged
static void fail(const char* l, const std::string& why) { if (FIRSTRUN) return; if (!ONLY.empty() && ONLY != l) return; FAILS++; if (FIRST.empty()) { FIRST = l; if (SEARCH) { LASTWHY = why; return; } printf("FAILED %s: %s\n", l, why.c_str()); } }
extern "C" void vp_assert(int c, const char* l) { NASSERT++; if (!c) fail(l, "condition is false"); }
extern "C" void vp_assert_eq(double a, double b, const char* l) { NASSERT++; double m = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); char t[128]; snprintf(t, 128, "%.17g != %.17g", a, b); if ((std::isinf(a) && a == b) || wild(a, b)) return; if (!(std::fabs(a - b) <= TOL * m)) fail(l, t); }
extern "C" void vp_assert_le(double a, double b, const char* l) { NASSERT++; double m = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); char t[128]; snprintf(t, 128, "%.17g > %.17g", a, b); if (a == b || wild(a, b)) return; if (!(a - b <= TOL * m)) fail(l, t); }
extern "C" void vp_assert_eq_u64(uint64_t a, uint64_t b, const char* l) { NASSERT++; if (a != b) fail(l, std::to_string(a) + " != " + std::to_string(b)); }
extern "C" void vp_assert_same(double a, double b, const char* l) { NASSERT++; uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); if (x != y) { char t[96]; snprintf(t, 96, "bits %016llx != %016llx", (unsigned long long)x, (unsigned long long)y); fail(l, t); } }
extern "C" void vp_reach(const char*) {}
extern "C" int vp_symbolic() { return 0; }
extern "C" double vp_deriv(double, double) { abort(); }
extern "C" void vp_print(const char* n, double v) { if (!RANDOM) printf("PRINT %s = %.17g\n", n, v); }
extern "C" void vp_print_i(const char* n, long v) { if (!RANDOM) printf("PRINT %s = %ld\n", n, v); }
extern "C" void vp_trigden(int) {}
extern "C" void vp_tol(double t) { TOL = std::fmax(t, TOL0); }
static bool TWICE = getenv("VP_TWICE") != 0; static bool runOnce(void (*f)()) { CNT.clear(); USED.clear(); FIRST.clear(); FAILS = 0; TOL = TOL0; FIRSTRUN = false; try { if (TWICE) { FIRSTRUN = true; f(); FIRSTRUN = false; TOL = TOL0; } f(); return true; } catch (Skip&) { NSKIP++; return false; } catch (std::exception& e) { fail("uncaught-exception", std::string(typeid(e).name()) + " " + e.what()); } catch (...) { fail("uncaught-exception", "unknown type"); } return true; }
static void dump() { for (auto& u : USED) printf("INPUT %s %s\n", u.first.c_str(), u.second.c_str()); }
int main(int argc, char** argv) {
  setvbuf(stdout, 0, _IOLBF, 0); if (argc < 3 || !regs().count(argv[1])) { fprintf(stderr, "usage\n"); return 3; } auto f = regs()[argv[1]]; std::string a2 = argv[2];
  // search for a model of a negated assertion: one that holds on several independent draws, not an isolated rounding artefact
  if (a2 == "--search") { RANDOM = SEARCH = true; long n = atol(argv[3]), run = 0; RNG.seed(atol(argv[4])); TOL0 = argc > 5 ? atof(argv[5]) : 1e-3; int need = 5; std::map<std::string, int> hits; for (long i = 0; i < n; i++) { if (runOnce(f)) run++; if (FAILS && ++hits[FIRST] >= need) { dump(); printf("FAILED %s: %s\n", FIRST.c_str(), LASTWHY.c_str()); return 1; } } for (auto& h : hits) printf("SEARCH-HITS %s %d\n", h.first.c_str(), h.second); printf("SEARCH-NONE executed=%ld\n", run); return 0; }
  if (a2 == "--random") { RANDOM = true; long n = atol(argv[3]); RNG.seed(atol(argv[4])); if (argc > 5) ONLY = argv[5]; if (argc > 6) TOL0 = atof(argv[6]); long run = 0; for (long i = 0; i < n; i++) { if (runOnce(f)) run++; if (FAILS) { dump(); printf("RANDOM-FAIL after %ld\n", i); return 1; } } printf("RANDOM-OK executed=%ld skipped=%ld asserts=%ld\n", run, NSKIP, NASSERT); return 0; }
  std::ifstream in(a2); std::string l; while (std::getline(in, l)) { size_t p = l.find(' '); if (p != std::string::npos && l[0] != '#') IN[l.substr(0, p)] = l.substr(p + 1); }
  if (argc > 3) ONLY = argv[3];
  runOnce(f); if (FAILS) { dump(); return 1; }
  // inputs from the solver are rounded to doubles: also try their immediate neighbourhood
  for (int i = 0; i < 200; i++) { PERTURB = i < 100 ? 1e-7 : 1e-3; RNG.seed(i); runOnce(f); if (FAILS) { dump(); printf("(after perturbation)\n"); return 1; } }
  return 0;
}

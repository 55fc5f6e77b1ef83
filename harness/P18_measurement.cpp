//@ property P18
//@ sources utMeasurement/Timestamp.cpp utMeasurement/TimestampSync.cpp utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp
//@ models std
//@ bounds every 64-bit time stamp (texts: before the year 2100); lists of 0 to 3 points; clocks of 1 kHz and 1 MHz: any first event, 3 events with symbolic distances of up to 2^20 ticks, 150 events of an exact clock, one offset of up to 2^30 ns after 1, 10 or 37 events, one outlier of 4 ms to 1000 s or a lasting shift of 4 ms to 1 s after 145 events; the filter equations at every start time for 5 sequences of gaps, 4 of deviations, 3 frequencies and 9 events, and with 4 levels of jitter and 7 lasting shifts after 60, 101 and 200 events
//@ assume the C library's calendar functions and sprintf (modelled: UTC, decimal fields); float-to-integer conversions do not overflow; arithmetic on clock values is exact (rounding is not modelled)
#include "hmath.h"
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <time.h>
#include <sys/time.h>
#include <utMeasurement/Measurement.h>
#include <utMeasurement/TimestampSync.h>
using namespace Math;
using Ubitrack::Measurement::Timestamp; using Ubitrack::Measurement::TimestampSync;
typedef Ubitrack::Measurement::Position MPos; typedef Ubitrack::Measurement::PositionList MList; typedef Ubitrack::Measurement::Button MBtn;
// The operating system's side: a clock that reads whatever it likes, calendar functions in UTC.
static long g_sec, g_usec;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = g_sec; tv->tv_usec = g_usec; return 0; }
// one copy of the decimal and calendar arithmetic for both sides, so that the solver compares like with like
static __attribute__((noinline)) void hms(uint64_t s, int* h, int* m, int* c) { *c = (int)(s % 60); *m = (int)(s / 60 % 60); *h = (int)(s / 3600 % 24); }
static __attribute__((noinline)) char* dig(char* p, int v0, int n) { unsigned v = (unsigned)v0; for (int i = n; i--;) { p[i] = (char)('0' + v % 10); v /= 10; } return p + n; }
#ifndef VP_NATIVE
static void cal(uint64_t s, struct tm* o) { memset(o, 0, sizeof *o); hms(s, &o->tm_hour, &o->tm_min, &o->tm_sec); o->tm_mday = 1; o->tm_year = 70; o->tm_wday = 4; }
extern "C" struct tm* localtime_r(const time_t* t, struct tm* o) noexcept { cal((uint64_t)*t, o); return o; }
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept { cal((uint64_t)*t, o); return o; }
extern "C" int sprintf(char* b, const char* f, ...) noexcept { va_list a; va_start(a, f); char* p = b; for (; *f; f++) { if (*f != '%') { *p++ = *f; continue; } int n = f[2] - '0'; p = dig(p, va_arg(a, int), n); f += 3; } *p = 0; va_end(a); return (int)(p - b); }
extern "C" char* asctime_r(const struct tm* t, char* b) noexcept { strcpy(b, "Thu Jan  1 00:00:00 1970\n"); dig(b + 11, t->tm_hour, 2); dig(b + 14, t->tm_min, 2); dig(b + 17, t->tm_sec, 2); return b; }
#endif
static uint64_t inT(const char* n) { return vp_u64(n); }
VP_CASE(keeps_time) { uint64_t t = inT("t"), u = inT("u"); V3 v = inV3("v"); MPos a(t, v); vp_assert_eq_u64(a.time(), t, "time of a measurement"); eqV(*a, v, 3, "value of a measurement"); boost::shared_ptr<V3> p(new V3(v)); MPos b(t, p); vp_assert_eq_u64(b.time(), t, "time with a shared value"); vp_assert(b.get() == p.get(), "shared value is not copied"); a.time(u); vp_assert_eq_u64(a.time(), u, "time that was set"); eqV(*a, v, 3, "setting the time keeps the value"); MPos c(t); vp_assert_eq_u64(c.time(), t, "time without value"); vp_assert(!c.get(), "no value"); }
VP_CASE(validity) { uint64_t t = inT("t"); V3 v = inV3("v"); MPos a(t, v), d, e(v), f(boost::shared_ptr<V3>(new V3(v))), g(t); vp_assert(a.invalid() == (t == 0), "invalid exactly when the time is zero"); vp_assert(g.invalid() == (t == 0), "invalid exactly when the time is zero"); vp_assert(d.invalid() & e.invalid() & f.invalid(), "without a time: invalid"); vp_assert_eq_u64(d.time() | e.time() | f.time(), 0, "without a time: zero"); eqV(*e, v, 3, "value without time"); eqV(*f, v, 3, "value without time"); MPos b = a; a.invalidate(); vp_assert(a.invalid(), "invalidated"); eqV(*a, v, 3, "invalidating keeps the value"); vp_assert(b.invalid() == (t == 0), "other measurements stay valid"); a.time(t); vp_assert(a.invalid() == (t == 0), "valid again"); }
VP_CASE(sharing) { uint64_t t = inT("t"), u = inT("u"); V3 v = inV3("v"), w = inV3("w"); MPos a(t, v), b = a, c; c = a; MPos d = a.clone(); *a = w; eqV(*b, w, 3, "a copy refers to the same value"); eqV(*c, w, 3, "an assigned measurement refers to the same value"); eqV(*d, v, 3, "a clone has its own value"); vp_assert_eq_u64(b.time(), t, "time of a copy"); vp_assert_eq_u64(c.time(), t, "time of an assigned measurement"); vp_assert_eq_u64(d.time(), t, "time of a clone"); b.time(u); vp_assert_eq_u64(a.time(), t, "each copy has its own time"); *d = inV3("x"); eqV(*a, w, 3, "changing a clone leaves the original"); V3 x = v; MPos e(t, x); x = w; eqV(*e, v, 3, "the value is copied at construction"); MPos z(t), y = z.clone(); vp_assert_eq_u64(y.time(), t, "clone without value"); vp_assert(!y.get(), "clone without value"); }
VP_CASE(lists) { int n = vp_choice("n", 4); std::vector<V3> l; for (int i = 0; i < n; i++) l.push_back(inV3("p")); uint64_t t = inT("t"); MList a(t, l); MList b = a, d = a.clone(); vp_assert_eq_u64(d->size(), n, "size of a cloned list"); if (n) (*a)[n - 1](0) += 1; a->push_back(inV3("q")); vp_assert_eq_u64(b->size(), n + 1, "copies share the list"); vp_assert_eq_u64(d->size(), n, "a cloned list is independent"); vp_assert_eq_u64(l.size(), n, "the original list is copied"); for (int i = 0; i < n; i++) eqV((*d)[i], l[i], 3, "elements of a cloned list"); }
VP_CASE(ownership) { uint64_t t = inT("t"); V3 v = inV3("v"); MPos k; { MPos a(t, v); k = a; MPos c = a.clone(); vp_assert_eq_u64(a.use_count(), 2, "owners"); } vp_assert_eq_u64(k.use_count(), 1, "last owner"); eqV(*k, v, 3, "the value outlives the measurement it came from"); k = MPos(); vp_assert(!k.get(), "released"); }
VP_CASE(const_cast_) { uint64_t t = inT("t"); V3 v = inV3("v"); Ubitrack::Measurement::Measurement<const V3> a(t, boost::shared_ptr<const V3>(new V3(v))); MPos b = a.constCast<V3>(); vp_assert_eq_u64(b.time(), t, "time survives the cast"); vp_assert(b.get() == a.get(), "the cast shares the value"); Ubitrack::Measurement::Measurement<const V3> c = b.constCast<const V3>(); vp_assert_eq_u64(c.time(), t, "time survives the cast"); vp_assert(c.get() == a.get(), "the cast shares the value"); }
VP_CASE(clock) { uint32_t s = vp_u32("sec"), u = vp_u32("usec"); vp_assume(u < 1000000); g_sec = s; g_usec = u; vp_assert_eq_u64(Ubitrack::Measurement::now(), (uint64_t)s * 1000000000ULL + (uint64_t)u * 1000ULL, "now() is the system time in nanoseconds"); }
//@ case clock mode=ieee
static void num(const std::string& r, int at, int v, int n, const char* l) { char b[8]; dig(b, v, n); for (int i = 0; i < n; i++) vp_assert_eq_u64((unsigned char)r[at + i], (unsigned char)b[i], l); }
static void timeOfDay(const std::string& r, int at, uint64_t s) { int h, m, c; hms(s, &h, &m, &c); num(r, at, h, 2, "hour"); num(r, at + 3, m, 2, "minute"); num(r, at + 6, c, 2, "second"); vp_assert((r[at + 2] == ':') & (r[at + 5] == ':'), "separators"); }
VP_CASE(short_text) { uint64_t t = inT("t"); vp_assume(t < 4102444800000000000ULL); std::string r = Ubitrack::Measurement::timestampToShortString(t); vp_assert_eq_u64(r.size(), 15, "hh:mm:ss.uuuuuu"); timeOfDay(r, 0, t / 1000000000ULL); vp_assert(r[8] == '.', "separators"); num(r, 9, (int)(t / 1000 % 1000000), 6, "microseconds"); }
//@ case short_text mode=ieee
VP_CASE(long_text) { uint64_t t = inT("t"); vp_assume(t < 4102444800000000000ULL); std::string r = Ubitrack::Measurement::timestampToString(t); vp_assert_eq_u64(r.size(), 28, "length"); vp_assert((r[24] == ' ') & (r[25] == 'U') & (r[26] == 'T') & (r[27] == 'C'), "ends in UTC without line break"); timeOfDay(r, 11, t / 1000000000ULL); }
//@ case long_text mode=ieee
VP_CASE(sync_first) { uint64_t l = inT("local"); double n = vp_real("native"); TimestampSync y(vp_choice("f", 2) ? 1e6 : 1e3); vp_assert_eq_u64(y.getEventCount(), 0, "no events yet"); vp_assert_eq_u64(y.convertNativeToLocal(n, l), l, "the first event is returned as it is"); vp_assert_eq_u64(y.getEventCount(), 1, "one event"); }
VP_CASE(sync_exact) { uint64_t l = inT("local"); double n0 = (double)vp_u32("n0"); bool k = vp_choice("f", 2); TimestampSync y(k ? 1e6 : 1e3); uint64_t g = k ? 1000 : 1000000; vp_assert_eq_u64(y.convertNativeToLocal(n0, l), l, "exact clock"); uint64_t e = 0; for (int i = 1; i < 3; i++) { uint64_t d = vp_u32("d"); vp_assume(d < (1u << 20)); e += d; vp_assert_eq_u64(y.convertNativeToLocal(n0 + (double)e, l + g * e), l + g * e, "exact clocks convert exactly"); vp_assert_eq_u64(y.getEventCount(), i + 1, "events are counted"); } }
VP_CASE(sync_steady) { uint64_t l = inT("local"); double n0 = (double)vp_u32("n0"); bool k = vp_choice("f", 2); TimestampSync y(k ? 1e6 : 1e3); uint64_t g = k ? 1000 : 1000000; for (int i = 0; i < 150; i++) { uint64_t e = i * 17 + (i % 3); vp_assert_eq_u64(y.convertNativeToLocal(n0 + (double)e, l + g * e), l + g * e, "exact clocks convert exactly"); } }
VP_CASE(sync_outlier) { uint64_t l = inT("local"); TimestampSync y(1e3); int N = 145; for (int i = 0; i < N; i++) y.convertNativeToLocal(i * 20., l + 20000000ULL * i); uint64_t o = vp_u64("o"); vp_assume((o < 1000000000000ULL) & (o > 4000000ULL)); uint64_t w = l + 20000000ULL * N; if (vp_choice("s", 2)) o = -o; vp_assert_eq_u64(y.convertNativeToLocal(N * 20., w + o), w, "an outlier does not move the estimate"); vp_assert_eq_u64(y.convertNativeToLocal(N * 20. + 20, w + 20000000ULL), w + 20000000ULL, "nor what follows"); }
static void between(int N) { uint64_t l = inT("local"); TimestampSync y(1e3); for (int i = 0; i < N; i++) y.convertNativeToLocal(i * 20., l + 20000000ULL * i); uint32_t o = vp_u32("o"); vp_assume(o < 0x40000000u); bool neg = vp_choice("s", 2); uint64_t w = l + 20000000ULL * N; uint64_t r = y.convertNativeToLocal(N * 20., neg ? w - o : w + o); int64_t m = (int64_t)(r - w); double dm = neg ? -(double)m : (double)m; vp_assert_le(0, dm, "the estimate moves towards the local time"); vp_assert_le(dm, (double)o, "the estimate does not pass the local time"); }
VP_CASE(sync_between1) { between(1); }
VP_CASE(sync_between10) { between(10); }
VP_CASE(sync_between37) { between(37); }
//@ case sync_between1 branch_ms=1500 time=120
//@ case sync_between10 branch_ms=1500 time=120
//@ case sync_between37 branch_ms=1500 time=120
VP_CASE(sync_shift) { uint64_t l = inT("local"); TimestampSync y(1e3); int N = 145; for (int i = 0; i < N; i++) y.convertNativeToLocal(i * 20., l + 20000000ULL * i); uint32_t o = vp_u32("o"); double dox = (double)o; vp_assume((dox > 4e6) & (dox < 1e9)); bool moved = false; for (int i = 0; i < 40 && !moved; i++, N++) { uint64_t w = l + 20000000ULL * N, r = y.convertNativeToLocal(N * 20., w + o); if (r != w) { moved = true; vp_assert_le(0, (double)(int64_t)(r - w), "the estimate follows a lasting shift of the local clock"); } } vp_assert(moved, "a lasting shift is accepted"); }
// The synchronisation as its documentation describes it: a Kalman filter for the local time and the gain, prediction F P F^T + Q, measurement of the local time, rejection of outliers.
struct Ref { int n, budget; double last, gain, P[2][2], q0, q1, r, var; uint64_t est;
 Ref(double f) : n(0), budget(-100) { double L = 1e9; gain = L / f; q0 = (1e-3 * L) * (1e-3 * L); q1 = (1e-4 * gain) * (1e-4 * gain); r = (3e-2 * L) * (3e-2 * L); P[0][0] = L * L; P[0][1] = P[1][0] = 0; P[1][1] = 100 * gain * gain; var = (0.001 * L) * (0.001 * L); }
 uint64_t step(double nat, uint64_t loc) { if (!n) { last = nat; est = loc; } double d = nat - last; last = nat; est += (long long)(d * gain);
  double a = P[0][0] + d * P[1][0], b = P[0][1] + d * P[1][1]; P[0][0] = a + d * b + q0; P[0][1] = P[1][0] = b; P[1][1] += q1;
  double dl = (double)(long long)(loc - est);
  if (budget < 0 || dl * dl < 9 * var) { double s = P[0][0] + r, k0 = P[0][0] / s, k1 = P[0][1] / s; est += (long long)(k0 * dl); gain += k1 * dl; double p01 = P[0][1]; P[1][1] -= k1 * p01; P[0][1] = P[1][0] = (1 - k0) * p01; P[0][0] *= 1 - k0; if (n > 50) var += 0.01 * (dl * dl - var); if (budget < 40) budget++; } else budget -= 2;
  n++; return est; } };
// The tuning constants are not exact in binary, so the two may differ in the last place: compare to a few nanoseconds.
static void close(uint64_t a, uint64_t b, const char* l) { int64_t d = (int64_t)(a - b); vp_assert((d <= 8) & (d >= -8), l); }
static void follow(double f, const double* gap, const double* dev, int N) { TimestampSync y(f); Ref r(f); uint64_t l = inT("local"); double nat = 5, t = 0; for (int i = 0; i < N; i++) { if (i) { nat += gap[i - 1]; t += gap[i - 1] * 1e9 / f; } uint64_t loc = l + (uint64_t)(int64_t)t; if (i) loc += (uint64_t)(int64_t)dev[i - 1]; uint64_t e = r.step(nat, loc); close(y.convertNativeToLocal(nat, loc), e, "the estimate is that of the Kalman filter for local time and gain"); } }
static const double GAP[5][8] = {{20, 20, 40, 20, 20, 20, 60, 20}, {1000, 7, 7, 1, 90, 30, 30, 7}, {30, 0, 5, 0, 0, 40, 2, 2}, {40, -20, 35, 20, -30, -5, 60, 10}, {1, 1, 2, 1, 1, 1, 3, 1}}, DEV[4][8] = {{1e6, -2e6, 5e5, 4e6, 0, -1e6, 3e5, 0}, {9e7, 8e7, 1e8, 9e7, 7e7, 1.1e8, 9e7, 9e7}, {0, -3e8, 0, 0, 5e9, 0, 100, -7}, {-1e3, 2e3, -7e3, 1e3, 1e3, -9e3, 4e3, 3}};
VP_CASE(sync_filter) { int w = vp_choice("w", 5), v = vp_choice("v", 4); follow(vp_choice("f", 2) ? 1e3 : 90., GAP[w], DEV[v], 9); }
VP_CASE(sync_filter_fast) { double g[8]; int w = vp_choice("w", 5), v = vp_choice("v", 4); for (int i = 0; i < 8; i++) g[i] = GAP[w][i] * 1000; follow(1e6, g, DEV[v], 9); }
static void settled(int N) { uint64_t l = inT("local"); TimestampSync y(1e3); Ref r(1e3); static const double J[4] = {0, 2e5, -3e5, 1e6}, O[7] = {1e6, 1.7e6, 2.2e6, 2.6e6, 3.5e6, 5e7, -2.4e6}; double j = J[vp_choice("j", 4)], o = O[vp_choice("o", 7)];
 for (int i = 0; i < N + 26; i++) { double t = i * 2e7 + (i >= N ? o : i % 2 ? j : i % 3 ? -j : 0); uint64_t w = l + (uint64_t)(int64_t)t, e = r.step(i * 20., w); close(y.convertNativeToLocal(i * 20., w), e, "deviations are accepted and rejected as the filter's statistics say"); } }
VP_CASE(sync_settled60) { settled(60); }
VP_CASE(sync_settled101) { settled(101); }
VP_CASE(sync_settled200) { settled(200); }

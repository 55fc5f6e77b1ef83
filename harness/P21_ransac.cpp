//@ property P21
//@ models std
//@ sources utUtil/Exception.cpp utMath/Quaternion.cpp utMath/Pose.cpp
//@ libs log4cpp
//@ bounds 3 to 5 values, samples of 2 and 3 (every random choice for one iteration), 1 to 3 iterations with arbitrary distances, every required number of inliers, a failing or throwing first hypothesis
//@ assume rand() returns an arbitrary number; the estimator and the evaluator are arbitrary: every hypothesis has an arbitrary distance to every value
//@ case parameters mode=ieee
//@ case sample_pairs4 tier=thorough time=200
//@ case sample_values4 tier=thorough time=200
#include "hmath.h"
#include <vector>
#include <cmath>
#include <cassert>
#include <stdexcept>
#include <stdlib.h>
static int rndBase = 1;
extern "C" int rand() noexcept { return rndBase < 2 ? 0 : vp_choice("rand", rndBase); }
#include <utMath/Optimization/Ransac.h>
using namespace Math;
static const int MX = 5, RUNS = 6;
static int n, setSize, minInlier, maxRuns, minRuns;
struct Call { int count, idx[MX]; bool failed; double d[MX]; bool known[MX], in[MX]; };
static Call call[RUNS]; static int calls; static double thr; static bool near, mayFail, mayThrow, distinct;
struct Hyp { int id; Hyp() : id(-1) {} };
static double draw(Call& c, int i) { if (!c.known[i]) { c.known[i] = true; if (near) { c.d[i] = thr - 1; c.in[i] = true; } else { c.d[i] = vp_real("distance"); if (vp_choice("inlier", 2)) { c.in[i] = true; vp_assume(c.d[i] < thr); } else { c.in[i] = false; vp_assume(c.d[i] >= thr); } } } return c.d[i]; }
// the estimator records what it is asked for; results are numbered
static bool estimate(Hyp& h, const std::vector<V2>& a, const std::vector<V2>& b) {
  int m = (int)a.size(); vp_assert((int)b.size() == m && m <= MX, "lists of corresponding values"); if ((int)b.size() != m || m > MX || calls >= RUNS) vp_end_path(); Call& c = call[calls]; c.count = m; c.failed = false; for (int i = 0; i < MX; i++) c.known[i] = false;
  for (int i = 0; i < m; i++) { int x = (int)a[i](0); bool ok = x >= 0 && x < n; vp_assert(ok, "values come from the input"); if (!ok) vp_end_path(); vp_assert((int)b[i](0) == 10 + x, "corresponding values stay together"); c.idx[i] = x; }
  h.id = calls++;
  if (mayFail && h.id == 0) { int k = vp_choice("outcome", 2); if (k == 1) { c.failed = true; if (mayThrow) throw std::runtime_error("singular"); return false; } } return true; }
static double evaluate(const Hyp& h, double x, double y) { int i = (int)x; bool ok = h.id == calls - 1 && h.id >= 0 && i >= 0 && i < n; vp_assert(ok, "the current hypothesis is judged on the input"); if (!ok) vp_end_path(); vp_assert((int)y == 10 + i, "corresponding values stay together"); vp_assert(!call[h.id].failed, "a failed hypothesis is not judged"); return draw(call[h.id], i); }
struct Model {
  struct Estimator {
    template <class I> bool operator()(Hyp& h, I b1, I e1, I b2, I e2) const { return estimate(h, std::vector<V2>(b1, e1), std::vector<V2>(b2, e2)); }
    template <class I> bool operator()(Hyp& h, I b1, I e1) const { std::vector<V2> a(b1, e1), b; for (I i = b1; i != e1; ++i) b.push_back(V2((*i)(1), 0)); return estimate(h, a, b); } };
  struct Evaluator { double operator()(const Hyp& h, const V2& a, const V2& b) const { return evaluate(h, a(0), b(0)); } double operator()(const Hyp& h, const V2& a) const { return evaluate(h, a(0), a(1)); } }; };
struct Est { void operator()(Hyp& h, const std::vector<V2>& a, const std::vector<V2>& b) const { estimate(h, a, b); } };
struct Eva { double operator()(const Hyp& h, const V2& a, const V2& b) const { return evaluate(h, a(0), b(0)); } };
static int inliers(Call& c) { if (c.failed) return 0; int k = 0; for (int i = 0; i < n; i++) { draw(c, i); if (c.in[i]) k++; } return k; }
static void run(int variant, int values, int set, int runs) {
  n = values; setSize = set; maxRuns = runs; minRuns = variant == 2 ? 1 + vp_choice("minimal runs", runs) : 1; calls = 0; thr = near ? 2 : vp_real("threshold"); minInlier = 1 + vp_choice("required", n); distinct = variant != 2; mayThrow = variant == 2;
  std::vector<V2> a, b; for (int i = 0; i < n; i++) { a.push_back(V2(i, 10 + i)); b.push_back(V2(10 + i, i)); }
  Hyp h; std::vector<bool> flags; std::size_t r;
  if (variant < 2) { Optimization::RansacParameter<double> p(thr, (std::size_t)setSize, (std::size_t)minInlier, (std::size_t)maxRuns); Model m; r = variant == 0 ? Optimization::ransac(a.begin(), a.end(), h, m, p) : Optimization::ransac(a.begin(), a.end(), b.begin(), b.end(), h, m, p); }
  else r = Optimization::ransac(h, a, b, thr, setSize, minInlier, minRuns, maxRuns, Est(), Eva(), &flags);
  int samples = r ? calls - 1 : calls; vp_assert(samples >= 1 && samples <= maxRuns, "at most the allowed number of iterations"); if (samples < 1 || samples > maxRuns) return;
  for (int k = 0; k < samples; k++) { vp_assert(call[k].count == setSize, "samples have the requested size"); if (distinct) for (int i = 0; i < call[k].count; i++) for (int j = 0; j < i; j++) vp_assert(call[k].idx[i] != call[k].idx[j], "a sample holds no value twice"); }
  int best = -1, nb = 0; for (int k = 0; k < samples; k++) { int c = inliers(call[k]); if (c > nb) { nb = c; best = k; } }
  vp_assert((r > 0) == (nb >= minInlier), "succeeds exactly if a tested hypothesis has enough inliers");
  if (!r) { vp_assert(samples == maxRuns, "gives up only after all iterations"); return; }
  for (int k = 0, m = 0; k + 1 < samples; k++) { int c = inliers(call[k]); if (c > m) m = c; vp_assert(k + 1 < minRuns || m < minInlier, "stops when enough inliers are found"); }
  vp_assert((int)r == nb, "returns the number of inliers of the best hypothesis"); vp_assert(h.id == calls - 1, "the result is the final estimate"); vp_assert(samples >= (minRuns < maxRuns ? minRuns : maxRuns), "at least the requested iterations");
  Call& f = call[calls - 1]; vp_assert(f.count == nb, "the final estimate uses all inliers"); bool found = false;
  for (int k = 0; k < samples; k++) if (inliers(call[k]) == nb) { bool same = f.count == nb; for (int i = 0, j = 0; i < n && same; i++) { draw(call[k], i); bool in = call[k].in[i]; bool used = false; for (int q = 0; q < f.count; q++) if (f.idx[q] == i) used = true; if (in != used) same = false; if (flags.size() && flags[i] != in) same = false; (void)j; } if (same) found = true; }
  vp_assert(found, "the final estimate uses exactly the inliers of a best hypothesis"); }
VP_CASE(values1) { run(0, 5, 2, 1); }
VP_CASE(values2) { mayFail = true; run(0, 4, 2, 2); }
VP_CASE(values3) { run(0, 3, 3, 3); }
VP_CASE(pairs1) { run(1, 5, 2, 1); }
VP_CASE(pairs2) { mayFail = true; run(1, 4, 2, 2); }
VP_CASE(pairs3) { run(1, 3, 3, 3); }
VP_CASE(lists1) { run(2, 5, 2, 1); }
VP_CASE(lists2) { mayFail = true; run(2, 4, 2, 2); }
VP_CASE(lists3) { run(2, 3, 2, 3); }
VP_CASE(sample_values) { near = true; rndBase = 6; run(0, 3, 2, 1); }
VP_CASE(sample_pairs) { near = true; rndBase = 6; run(1, 3, 2, 1); }
VP_CASE(sample_lists) { near = true; rndBase = 3; run(2, 3, 2, 1); }
VP_CASE(sample_values4) { near = true; rndBase = 12; run(0, 4, 3, 1); }
VP_CASE(sample_pairs4) { near = true; rndBase = 12; run(1, 4, 3, 1); }
// the intuitive constructor: enough iterations for the requested confidence
VP_CASE(parameters) { static const double O[5] = {0.1, 0.25, 0.5, 0.75, 0.9}, S[4] = {0.5, 0.9, 0.99, 0.999}; double o = O[vp_choice("outliers", 5)], s = S[vp_choice("success", 4)]; int set = 1 + vp_choice("set", 4), k = 4 + vp_choice("n", 4) * 5; Optimization::RansacParameter<double> p(0.25, (std::size_t)set, (std::size_t)k, o, s);
  vp_assert(p.threshold == 0.25 && (int)p.setSize == set, "parameters are kept"); vp_assert((double)p.nMinInlier <= (1 - o) * k + 1e-9 && (double)p.nMinInlier > (1 - o) * k - 1 - 1e-9, "expected inliers"); double g = 1; for (int i = 0; i < set; i++) g *= 1 - o; double f = 1, f1 = 1; int it = (int)p.nMaxIterations; vp_assert(it >= 1 && it < 200000, "a sane number of iterations"); f = exp(it * log(1 - g)); f1 = exp((it - 1) * log(1 - g)); vp_assert(f <= (1 - s) * (1 + 1e-6), "enough iterations for the confidence"); vp_assert(f1 >= (1 - s) * (1 - 1e-6), "no superfluous iterations"); }

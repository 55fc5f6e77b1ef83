#include "real.h"
#include <algorithm>
#include <cmath>
#include <sstream>
#include <stdexcept>

std::vector<Atom> ATOMS;
std::vector<std::vector<AtomId>> UNITGROUPS;
size_t POLY_LIMIT = 400000;

// ---------- monomials
static int mcmp(const Mono& a, const Mono& b) { // graded lex, atoms with smaller id larger
  if (a.deg != b.deg) return a.deg < b.deg ? -1 : 1;
  size_t i = 0, n = std::min(a.v.size(), b.v.size());
  for (; i < n; i++) {
    if (a.v[i].first != b.v[i].first) return a.v[i].first > b.v[i].first ? -1 : 1;
    if (a.v[i].second != b.v[i].second) return a.v[i].second < b.v[i].second ? -1 : 1;
  }
  if (a.v.size() != b.v.size()) return a.v.size() < b.v.size() ? -1 : 1;
  return 0;
}
struct MH { size_t operator()(const std::vector<std::pair<AtomId,int>>& v) const {
  size_t h = 1469598103934665603ull; for (auto& p : v) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ (unsigned)p.second) * 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<std::pair<AtomId,int>>, M, MH> MTAB;
// 1/d with a short multi-term denominator d: lead(d) * 1/d is rewritten to 1 - rest(d) * 1/d
size_t INV_RULE_TERMS = 4;
// leading term: lexicographic, later atoms first (the order in which all other rewrite rules decrease too)
static size_t leadOf(const P& d) {
  size_t b = 0;
  for (size_t i = 1; i < d->t.size(); i++) { auto &x = d->t[i].first->v, &y = d->t[b].first->v; int k = (int)x.size() - 1, l = (int)y.size() - 1; bool gt = false; for (;; k--, l--) { if (k < 0) break; if (l < 0) { gt = true; break; } if (x[k].first != y[l].first) { gt = x[k].first > y[l].first; break; } if (x[k].second != y[l].second) { gt = x[k].second > y[l].second; break; } } if (gt) b = i; }
  return b;
}
static std::unordered_map<AtomId, size_t> LEAD; static size_t leadIdx(AtomId a) { auto it = LEAD.find(a); if (it != LEAD.end()) return it->second; return LEAD[a] = leadOf(ATOMS[a].arg); }
static bool invRule(AtomId a, const std::vector<std::pair<AtomId,int>>& v) {
  const P& d = ATOMS[a].arg; if (d->t.size() < 2 || d->t.size() > INV_RULE_TERMS) return false;
  for (auto& l : d->t[leadIdx(a)].first->v) { bool ok = false; for (auto& p : v) if (p.first == l.first && p.second >= l.second) ok = true; if (!ok) return false; }
  return true;
}
static M mk(std::vector<std::pair<AtomId,int>>&& v) {
  auto it = MTAB.find(v); if (it != MTAB.end()) return it->second;
  Mono* m = new Mono; m->v = v; m->deg = 0; m->red = false;
  for (auto& p : v) { m->deg += p.second; if (p.second >= 2 && ATOMS[p.first].rule2) m->red = true; else if (ATOMS[p.first].k == Atom::Inv && invRule(p.first, v)) m->red = true; }
  m->id = MTAB.size();
  MTAB[m->v] = m; return m;
}
static M ONE() { static M o = mk({}); return o; }
static std::unordered_map<uint64_t, M> MMUL;
static std::unordered_map<AtomId, AtomId> INVOF; // atom -> Inv(atom)
static std::unordered_map<AtomId, AtomId> INVBASE; // Inv(atom) -> atom
static M mmul(M a, M b) {
  if (a->v.empty()) return b; if (b->v.empty()) return a;
  if (a->id > b->id) std::swap(a, b);
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto it = MMUL.find(key); if (it != MMUL.end()) return it->second;
  std::vector<std::pair<AtomId,int>> r; r.reserve(a->v.size() + b->v.size());
  size_t i = 0, j = 0;
  while (i < a->v.size() || j < b->v.size()) {
    if (j == b->v.size() || (i < a->v.size() && a->v[i].first < b->v[j].first)) r.push_back(a->v[i++]);
    else if (i == a->v.size() || b->v[j].first < a->v[i].first) r.push_back(b->v[j++]);
    else { r.push_back({a->v[i].first, a->v[i].second + b->v[j].second}); i++; j++; }
  }
  // cancel v * 1/v
  if (!INVBASE.empty()) {
    bool ch = false;
    for (auto& p : r) { auto f = INVBASE.find(p.first); if (f == INVBASE.end() || !p.second) continue;
      for (auto& q : r) if (q.first == f->second && q.second) { int k = std::min(p.second, q.second); p.second -= k; q.second -= k; ch = true; } }
    if (ch) r.erase(std::remove_if(r.begin(), r.end(), [](const std::pair<AtomId,int>& p) { return p.second == 0; }), r.end());
  }
  M m = mk(std::move(r));
  if (MMUL.size() > 20000000) MMUL.clear();
  MMUL[key] = m; return m;
}

// ---------- polynomials
static P finish(std::vector<std::pair<M,mpq_class>>&& t) {
  auto d = std::make_shared<PolyD>(); d->t = std::move(t);
  size_t h = 7; for (auto& x : d->t) { h = h * 1000003 ^ x.first->id; h = h * 1000003 ^ (size_t)mpz_get_si(x.second.get_num_mpz_t()); h = h * 31 ^ (size_t)mpz_get_si(x.second.get_den_mpz_t()); }
  d->h = h;
  if (d->t.size() > POLY_LIMIT) throw TooBig{d->t.size()};
  return d;
}
P pconst(const mpq_class& c) { if (c == 0) { static P z = finish({}); return z; } return finish({{ONE(), c}}); }
AtomId newAtom(Atom a) { ATOMS.push_back(a); return ATOMS.size() - 1; }
P patom(AtomId a) { return finish({{mk({{a, 1}}), mpq_class(1)}}); }
bool pisconst(const P& a) { return a->t.empty() || (a->t.size() == 1 && a->t[0].first->v.empty()); }
mpq_class pcval(const P& a) { return a->t.empty() ? mpq_class(0) : a->t[0].second; }
bool peq(const P& a, const P& b) {
  if (a == b) return true; if (a->h != b->h || a->t.size() != b->t.size()) return false;
  for (size_t i = 0; i < a->t.size(); i++) if (a->t[i].first != b->t[i].first || a->t[i].second != b->t[i].second) return false;
  return true;
}
size_t phash(const P& a) { return a->h; }
static P addsc(const P& a, const P& b, int sgn) {
  std::vector<std::pair<M,mpq_class>> r; r.reserve(a->t.size() + b->t.size());
  size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    if (j == b->t.size()) r.push_back(a->t[i++]);
    else if (i == a->t.size()) { r.push_back(b->t[j++]); if (sgn < 0) r.back().second = -r.back().second; }
    else if (a->t[i].first == b->t[j].first) {
      mpq_class s = sgn > 0 ? mpq_class(a->t[i].second + b->t[j].second) : mpq_class(a->t[i].second - b->t[j].second);
      if (s != 0) r.push_back({a->t[i].first, s}); i++; j++;
    } else if (mcmp(*a->t[i].first, *b->t[j].first) > 0) r.push_back(a->t[i++]);
    else { r.push_back(b->t[j++]); if (sgn < 0) r.back().second = -r.back().second; }
  }
  return finish(std::move(r));
}
P padd(const P& a, const P& b) { if (a->t.empty()) return b; if (b->t.empty()) return a; return addsc(a, b, 1); }
P psub(const P& a, const P& b) { if (b->t.empty()) return a; return addsc(a, b, -1); }
P pscale(const P& a, const mpq_class& c) { if (c == 0) return pconst(0); if (c == 1) return a; auto r = a->t; for (auto& x : r) x.second *= c; return finish(std::move(r)); }
P pneg(const P& a) { return pscale(a, -1); }

typedef std::unordered_map<M, mpq_class> Acc;
static P fromAcc(Acc& acc) {
  std::vector<std::pair<M,mpq_class>> r; r.reserve(acc.size());
  for (auto& x : acc) if (x.second != 0) r.push_back({x.first, x.second});
  std::sort(r.begin(), r.end(), [](const std::pair<M,mpq_class>& a, const std::pair<M,mpq_class>& b) { return mcmp(*a.first, *b.first) > 0; });
  return finish(std::move(r));
}
static std::unordered_map<M, P> REDC;
static P reduceMono(M m) { // m->red
  auto it = REDC.find(m); if (it != REDC.end()) return it->second;
  // pull out the (last) reducible atom
  std::vector<std::pair<AtomId,int>> rest = m->v; P f;
  for (int i = (int)rest.size() - 1; i >= 0; i--) {
    auto& p = rest[i];
    if (p.second >= 2 && ATOMS[p.first].rule2) {
      int k = p.second / 2; P r2 = ATOMS[p.first].rule2; p.second -= 2 * k;
      f = ppow(r2, k);
      if (!p.second) rest.erase(rest.begin() + i);
      break;
    }
  }
  if (!f) for (size_t i = 0; i < m->v.size(); i++) if (ATOMS[m->v[i].first].k == Atom::Inv && invRule(m->v[i].first, m->v)) {
    AtomId iv = m->v[i].first; P d = ATOMS[iv].arg; size_t li = leadIdx(iv); mpq_class lc = d->t[li].second; M lm = d->t[li].first;
    std::vector<std::pair<AtomId,int>> r2; for (auto p : m->v) { if (p.first == iv) p.second--; for (auto& l : lm->v) if (l.first == p.first) p.second -= l.second; if (p.second) r2.push_back(p); }
    M base = mk(std::move(r2)); P bp = base->red ? reduceMono(base) : finish({{base, mpq_class(1)}});
    std::vector<std::pair<M,mpq_class>> rt; for (size_t x = 0; x < d->t.size(); x++) if (x != li) rt.push_back(d->t[x]); P restp = finish(std::move(rt)); M im = mk({{iv, 1}});
    P q = psub(pconst(1), pmul(restp, finish({{im, mpq_class(1)}}))); P r = pscale(pmul(bp, q), 1 / lc); REDC[m] = r; return r; }
  M rm = mk(std::move(rest));
  P rp = rm->red ? reduceMono(rm) : finish({{rm, mpq_class(1)}});
  P r = pmul(f, rp);
  REDC[m] = r; return r;
}
static void accMono(Acc& acc, M m, const mpq_class& c) {
  if (!m->red) { acc[m] += c; return; }
  P r = reduceMono(m);
  for (auto& x : r->t) acc[x.first] += x.second * c;
}
volatile bool STOP_NOW = false;
P pmul(const P& a, const P& b) {
  if (STOP_NOW) throw TooBig{0};
  if (a->t.empty() || b->t.empty()) return pconst(0);
  if (pisconst(a)) return pscale(b, pcval(a));
  if (pisconst(b)) return pscale(a, pcval(b));
  Acc acc; acc.reserve(a->t.size() * b->t.size() > 4096 ? 4096 : a->t.size() * b->t.size());
  mpq_class c;
  for (auto& x : a->t) { for (auto& y : b->t) { c = x.second * y.second; accMono(acc, mmul(x.first, y.first), c); }
    if (acc.size() > 4 * POLY_LIMIT) throw TooBig{acc.size()}; }
  return fromAcc(acc);
}
P ppow(P a, unsigned n) { P r = pconst(1); while (n) { if (n & 1) r = pmul(r, a); n >>= 1; if (n) a = pmul(a, a); } return r; }
std::string pstr(const P& a, size_t mx) {
  std::ostringstream o; if (a->t.empty()) return "0"; size_t n = 0;
  for (auto& x : a->t) { if (n++) o << " + "; if (n > mx) { o << "...(" << a->t.size() << " terms)"; break; } o << x.second.get_str(); for (auto& p : x.first->v) { o << "*" << ATOMS[p.first].name; if (p.second > 1) o << "^" << p.second; } }
  return o.str();
}
void patoms(const P& a, std::set<AtomId>& out) { for (auto& x : a->t) for (auto& p : x.first->v) out.insert(p.first); }
bool phas(const P& a, Atom::Kind k) { for (auto& x : a->t) for (auto& p : x.first->v) if (ATOMS[p.first].k == k) return true; return false; }

P pclear(const P& a0, bool even, std::vector<std::pair<AtomId,int>>* mults) {
  P a = a0;
  for (;;) {
    AtomId best = 0; bool any = false; int mx = 0;
    for (auto& x : a->t) for (auto& p : x.first->v) if (ATOMS[p.first].k == Atom::Inv) { if (!any || p.first > best) { best = p.first; any = true; } }
    if (!any) return a;
    for (auto& x : a->t) for (auto& p : x.first->v) if (p.first == best) mx = std::max(mx, p.second);
    int K = mx; if (even && (K & 1)) K++;
    std::vector<Acc> coef(mx + 1);
    for (auto& x : a->t) { int e = 0; std::vector<std::pair<AtomId,int>> r; for (auto& p : x.first->v) if (p.first == best) e = p.second; else r.push_back(p); coef[e][mk(std::move(r))] += x.second; }
    P d = ATOMS[best].arg, res = pconst(0);
    for (int e = 0; e <= mx; e++) { if (coef[e].empty()) continue; P c = fromAcc(coef[e]); res = padd(res, pmul(c, ppow(d, K - e))); }
    if (mults) mults->push_back({best, K});
    a = res;
  }
}
P psubst(const P& a, AtomId at, const P& by) {
  bool any = false; for (auto& x : a->t) { for (auto& p : x.first->v) if (p.first == at) any = true; if (any) break; }
  if (!any) return a;
  Acc keep; std::map<int, Acc> co;
  for (auto& x : a->t) { int e = 0; std::vector<std::pair<AtomId,int>> r; for (auto& p : x.first->v) if (p.first == at) e = p.second; else r.push_back(p);
    if (!e) keep[x.first] += x.second; else co[e][mk(std::move(r))] += x.second; }
  P res = fromAcc(keep);
  for (auto& c : co) res = padd(res, pmul(fromAcc(c.second), ppow(by, c.first)));
  return res;
}
mpq_class pcontent(const P& a) {
  if (a->t.empty()) return 1;
  mpz_class g = 0, l = 1;
  for (auto& x : a->t) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.second.get_num_mpz_t()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), x.second.get_den_mpz_t()); }
  mpq_class c(g, l); c.canonicalize(); if (a->t[0].second < 0) c = -c; return c;
}
void qsqrt(const mpq_class& c, mpq_class& o, mpz_class& s) {
  mpz_class n = c.get_num() * c.get_den(); o = mpq_class(1) / mpq_class(c.get_den()); s = 1;
  mpz_class q; 
  if (mpz_perfect_square_p(n.get_mpz_t())) { mpz_sqrt(q.get_mpz_t(), n.get_mpz_t()); o *= q; o.canonicalize(); return; }
  for (unsigned p = 2; p < 2000; p++) { while (n % (p * p) == 0) { n /= p * p; o *= p; } }
  if (mpz_perfect_square_p(n.get_mpz_t())) { mpz_sqrt(q.get_mpz_t(), n.get_mpz_t()); o *= q; } else s = n;
  o.canonicalize();
}
static bool mdiv(M a, M b, M& r) { std::vector<std::pair<AtomId,int>> v; size_t j = 0; for (auto& p : a->v) { int e = p.second; if (j < b->v.size() && b->v[j].first == p.first) e -= b->v[j++].second; else if (j < b->v.size() && b->v[j].first < p.first) return false; if (e < 0) return false; if (e) v.push_back({p.first, e}); } if (j < b->v.size()) return false; r = mk(std::move(v)); return true; }
static bool sqrt1(const P& a, P& out) {
  if (a->t.empty()) { out = a; return true; }
  // leading term must be a square
  auto& lt = a->t[0]; std::vector<std::pair<AtomId,int>> v; for (auto& p : lt.first->v) { if (p.second & 1) return false; v.push_back({p.first, p.second / 2}); }
  if (lt.second < 0) return false; mpq_class o; mpz_class s; qsqrt(lt.second, o, s); if (s != 1) return false;
  P r = finish({{mk(std::move(v)), o}}); M lm = r->t[0].first; mpq_class lc = r->t[0].second;
  // note: works on the already reduced form; products below are reduced as well, so only accept if it terminates exactly
  P rem = psub(a, pmul(r, r));
  for (size_t n = 0; n < 400; n++) {
    if (rem->t.empty()) { out = r; return true; }
    M q; if (!mdiv(rem->t[0].first, lm, q)) return false;
    P t = finish({{q, rem->t[0].second / (2 * lc)}});
    if (mcmp(*q, *lm) >= 0) return false;
    rem = psub(rem, padd(pscale(pmul(r, t), 2), pmul(t, t)));
    r = padd(r, t);
  }
  return false;
}
bool psqrt_exact(const P& a, P& out) {
  if (sqrt1(a, out)) return true;
  // try other representatives modulo one unit relation: x_i^2 -> 1 - sum of the others.
  for (auto& g : UNITGROUPS) {
    bool used = false; std::set<AtomId> at; patoms(a, at); for (auto x : g) if (at.count(x)) used = true;
    if (!used) continue;
    // a - c*(sum - 1) for candidate c: match coefficient of a squared member term
    for (auto x : g) for (auto& t : a->t) if (t.first->v.size() == 1 && t.first->v[0].first == x && t.first->v[0].second == 2) {
      mpq_class c = t.second; P s = pconst(-1); // unreduced sum of squares minus one
      // build representative with raw squares: r = candidate root is linear in the hidden member
      AtomId hid = g.back(); // member with rule2
      P rest = a; // a + c*(1 - sum_{others} x^2) ... equals a + c*hid^2 when moved
      P others = pconst(0); for (auto y : g) if (y != hid) others = padd(others, pmul(patom(y), patom(y)));
      P moved = psub(a, pscale(psub(pconst(1), others), -c)); // a = moved - c*(1-others) = moved - c*hid^2
      if (moved->t.empty() && -c > 0) { mpq_class o; mpz_class sq; qsqrt(-c, o, sq); if (sq == 1) { out = pscale(patom(hid), o); return true; } }
    }
  }
  return false;
}
static std::unordered_map<size_t, std::vector<AtomId>> INVTAB;
static AtomId invAtom(const P& prim) {
  for (auto a : INVTAB[prim->h]) if (peq(ATOMS[a].arg, prim)) return a;
  Atom at; at.k = Atom::Inv; at.arg = prim; at.name = "inv" + std::to_string(ATOMS.size());
  AtomId id = newAtom(at); INVTAB[prim->h].push_back(id);
  if (prim->t.size() == 1 && prim->t[0].first->v.size() == 1 && prim->t[0].first->v[0].second == 1) { INVOF[prim->t[0].first->v[0].first] = id; INVBASE[id] = prim->t[0].first->v[0].first; MMUL.clear(); }
  return id;
}
P pinv(const P& a) {
  if (pisconst(a)) return pconst(1 / pcval(a));
  if (phas(a, Atom::Inv)) { // 1/(N * prod inv^k) = prod d^k / N
    std::vector<std::pair<AtomId,int>> mu; P n = pclear(a, false, &mu); P num = pconst(1);
    for (auto& m : mu) num = pmul(num, ppow(ATOMS[m.first].arg, m.second));
    return pmul(num, pinv(n));
  }
  mpq_class c = pcontent(a); P prim = pscale(a, 1 / c);
  // common monomial
  std::map<AtomId,int> common; bool first = true;
  for (auto& x : prim->t) { std::map<AtomId,int> m(x.first->v.begin(), x.first->v.end());
    if (first) { common = m; first = false; } else for (auto it = common.begin(); it != common.end();) { auto f = m.find(it->first); if (f == m.end()) it = common.erase(it); else { it->second = std::min(it->second, f->second); ++it; } } }
  P res = pconst(1 / c);
  if (!common.empty()) {
    Acc acc; for (auto& x : prim->t) { std::vector<std::pair<AtomId,int>> v; for (auto& p : x.first->v) { int e = p.second; auto f = common.find(p.first); if (f != common.end()) e -= f->second; if (e) v.push_back({p.first, e}); } acc[mk(std::move(v))] += x.second; }
    prim = fromAcc(acc);
    for (auto& cm : common) {
      P one;
      if (ATOMS[cm.first].rule2) one = pmul(patom(cm.first), pinv(ATOMS[cm.first].rule2));
      else one = patom(invAtom(patom(cm.first)));
      res = pmul(res, ppow(one, cm.second));
    }
  }
  if (pisconst(prim)) return pscale(res, 1 / pcval(prim));
  return pmul(res, patom(invAtom(prim)));
}
mpq_class rationalise(double d) {
  if (d == 0) return 0;
  mpq_class ex(d); if (fabs(d) > 1e300 || (ex.get_den() < 1000000 && mpz_sizeinbase(ex.get_num_mpz_t(), 2) < 200)) return ex;
  // continued fraction, looking for the simplest rational which rounds to d
  bool neg = d < 0; double x = fabs(d); mpq_class e(x);
  mpz_class h0 = 0, h1 = 1, k0 = 1, k1 = 0; mpq_class r = e;
  for (int i = 0; i < 40; i++) {
    mpz_class a = r.get_num() / r.get_den(); mpz_class h2 = a * h1 + h0, k2 = a * k1 + k0;
    h0 = h1; h1 = h2; k0 = k1; k1 = k2;
    mpq_class cand(h1, k1); cand.canonicalize();
    if (k1 > mpz_class("100000000000000000")) break;
    // correctly rounded? mpq get_d truncates, so compare via distance
    mpq_class diff = abs(cand - e); double u = std::nextafter(x, INFINITY) - x; mpq_class hu(u); hu /= 2;
    if (diff < hu) { // require compactness: bits(h)+bits(k) clearly smaller than 53
      size_t bits = mpz_sizeinbase(h1.get_mpz_t(), 2) + mpz_sizeinbase(k1.get_mpz_t(), 2);
      if (bits <= 46) return neg ? mpq_class(-cand) : cand;
      break;
    }
    mpq_class fr = r - a; if (fr == 0) break; r = 1 / fr;
  }
  // decimal literals such as 1e-15
  { int ex10 = (int)floor(log10(x)); for (int p = 0; p <= 3; p++) { double m = x / pow(10.0, ex10 - p); double rm = floor(m + 0.5); if (rm < 1 || rm > 99999) continue; std::ostringstream o; o << (long)rm << "e" << (ex10 - p); if (strtod(o.str().c_str(), 0) == x) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, abs(ex10 - p)); mpq_class q = ex10 - p >= 0 ? mpq_class(mpz_class((long)rm) * t) : mpq_class(mpz_class((long)rm), t); q.canonicalize(); return neg ? mpq_class(-q) : q; } } }
  return ex;
}
AtomId piAtom() { static int id = -1; if (id < 0) { Atom a; a.k = Atom::Pi; a.name = "pi"; id = newAtom(a); } return id; }
double peval(const P& a, const std::function<double(AtomId)>& f) {
  double s = 0; for (auto& x : a->t) { double t = x.second.get_d(); for (auto& p : x.first->v) t *= std::pow(f(p.first), p.second); s += t; } return s;
}

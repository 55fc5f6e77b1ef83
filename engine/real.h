// Exact real arithmetic for the symbolic executor: every real-valued term is kept as a
// polynomial with rational coefficients over "atoms" (inputs, square roots, inverses,
// sines/cosines, opaque function results), in a canonical form modulo the defining
// relations of the atoms (s*s -> radicand, sin^2 -> 1-cos^2, w^2 -> 1-x^2-y^2-z^2, v*1/v -> 1).
#pragma once
#include <gmpxx.h>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdint.h>

typedef uint32_t AtomId;
struct Mono { std::vector<std::pair<AtomId,int>> v; int deg; bool red; uint32_t id; };
typedef const Mono* M;
struct PolyD { std::vector<std::pair<M,mpq_class>> t; size_t h; };
typedef std::shared_ptr<const PolyD> P;

struct Atom {
  enum Kind { Var, Sqrt, Inv, Sin, Cos, Ang, Pi, Fn, IntR } k;
  std::string name;          // unique
  P arg, arg2;               // Sqrt/Inv: argument; Sin/Cos: base angle; Fn/Ang: arguments
  P rule2;                   // if set: atom^2 -> rule2
  P sinP, cosP;              // Ang: known sine / cosine
  int angKind = 0;           // 1 acos [0,pi], 2 asin/atan [-pi/2,pi/2], 3 atan2 (-pi,pi]
  std::string fn;
  AtomId other = 0;          // Sin<->Cos partner
  int unitGroup = -1;        // member of a unit vector group
  int user = -1;             // engine: index of bit-vector expression for IntR
};
extern std::vector<Atom> ATOMS;
extern std::vector<std::vector<AtomId>> UNITGROUPS;

struct TooBig { size_t n; };
extern size_t POLY_LIMIT;

AtomId newAtom(Atom a);
P pconst(const mpq_class& c);
P patom(AtomId a);
P padd(const P& a, const P& b);
P psub(const P& a, const P& b);
P pneg(const P& a);
P pscale(const P& a, const mpq_class& c);
P pmul(const P& a, const P& b);
P ppow(P a, unsigned n);
bool pisconst(const P& a);
mpq_class pcval(const P& a);
bool peq(const P& a, const P& b);
size_t phash(const P& a);
std::string pstr(const P& a, size_t maxterms = 40);
void patoms(const P& a, std::set<AtomId>& out);
bool phas(const P& a, Atom::Kind k);
// multiply by denominators until no Inv atom is left; `even`: use only even powers (sign preserving)
// mults: the (inv atom, power) used
P pclear(const P& a, bool even, std::vector<std::pair<AtomId,int>>* mults = nullptr);
// substitute atom := poly
P psubst(const P& a, AtomId at, const P& by);
// try exact square root as polynomial
bool psqrt_exact(const P& a, P& out);
// content: a = c * prim with prim having coprime integer coeffs and positive leading coefficient
mpq_class pcontent(const P& a);
// sqrt of nonneg rational: c = o^2 * s with s squarefree-ish integer
void qsqrt(const mpq_class& c, mpq_class& o, mpz_class& s);
// known: inverse / sqrt atoms
P pinv(const P& a);                       // a must be nonzero
// exact rational value of double, or the simplest rational that rounds to it
mpq_class rationalise(double d);
AtomId piAtom();
double peval(const P& a, const std::function<double(AtomId)>& f);

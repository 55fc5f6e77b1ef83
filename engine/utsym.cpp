#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sstream>
// utsym: symbolic execution of LLVM bitcode with z3.
//   integers/pointers  -> bit-vectors (concrete where possible, addresses always concretised by forking)
//   double/float       -> exact reals in polynomial normal form (mode real) or IEEE bit patterns (mode ieee)
// Every feasible path of the entry function is explored; vp_assert* become solver queries.
#include "real.h"
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
using namespace llvm;
typedef Z3_ast Ast;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options / statistics
static bool REALMODE = true, TWICE = false; static Function* ENTRY = nullptr; // TWICE: the case runs two times on different inputs, the second run is judged
static double T0, TIME_LIMIT = 600;
static unsigned BRANCH_MS = 4000, ASSERT_MS = 20000;
static uint64_t MAX_INSTR = 200000000ull, MAX_PATHS = 200000;
static bool VERBOSE = false, TRACE = false;
static std::string QDIR; static int SEED = 1; static bool EXTERN_SOLVERS = true, CROSSCHECK = false;
struct Stats { uint64_t instr = 0, paths = 0, forks = 0, branchQ = 0, branchUnknown = 0, assertQ = 0, assertNF = 0, assertSolver = 0, assertUnknown = 0, divAssumed = 0, cross = 0, crossAgree = 0, killed = 0; double solverT = 0, maxQ = 0; } ST;
static std::set<std::string> FUNCS; static std::map<std::string,uint64_t> REACHED; static std::map<std::string,uint64_t> LABELS;
static std::vector<std::string> INCOMPLETE; static std::set<std::string> ASSUMED;
static std::vector<std::string> PRIORITY;

// ------------------------------------------------------------------ z3
static z3::context* C; static std::vector<z3::expr> KEEP;
static Ast keep(const z3::expr& e) { KEEP.push_back(e); return (Ast)e; }
static z3::expr X(Ast a) { return z3::expr(*C, a); }

struct Val {
  enum K : uint8_t { U, I, E, R, A } k = U;   // undef, concrete int, symbolic int (bv / bool for w==1), real, aggregate
  unsigned w = 0; APInt i; Ast e = nullptr; P r; std::shared_ptr<std::vector<Val>> agg;
  static Val Int(const APInt& a) { Val v; v.k = I; v.w = a.getBitWidth(); v.i = a; return v; }
  static Val Int(unsigned w, uint64_t x) { return Int(APInt(w, x)); }
  static Val Expr(unsigned w, Ast e) { Val v; v.k = E; v.w = w; v.e = e; return v; }
  static Val Real(const P& p, unsigned w = 64) { Val v; v.k = R; v.w = w; v.r = p; return v; }
  static Val Agg(std::vector<Val> x) { Val v; v.k = A; v.agg = std::make_shared<std::vector<Val>>(std::move(x)); return v; }
  bool isInt() const { return k == I; }
};

static Ast bvOf(const Val& v);
static Val mkE(unsigned w, const z3::expr& e0) {
  z3::expr e = e0.simplify();
  if (w == 1) { if (e.is_true()) return Val::Int(1, 1); if (e.is_false()) return Val::Int(1, 0); return Val::Expr(1, keep(e)); }
  if (e.is_numeral()) { std::string s = Z3_get_numeral_string(*C, e); return Val::Int(APInt(w, s, 10)); }
  return Val::Expr(w, keep(e));
}
static z3::expr bvNum(const APInt& a) { SmallString<40> s; a.toString(s, 10, false); return C->bv_val(s.c_str(), a.getBitWidth()); }
static z3::expr Bx(const Val& v) { // as bv expression (w>1) or bool (w==1)
  if (v.k == Val::I) { if (v.w == 1) return C->bool_val(v.i.getBoolValue()); return bvNum(v.i); }
  if (v.k == Val::E) return X(v.e);
  throw std::runtime_error("Bx: not an int");
}
static z3::expr Bv(const Val& v) { z3::expr e = Bx(v); if (v.w == 1 && e.is_bool()) return z3::ite(e, C->bv_val(1, 1), C->bv_val(0, 1)); return e; }

// ------------------------------------------------------------------ memory / state
struct Cell { unsigned sz; Val v; };
struct Obj { uint64_t base, size; bool alive = true, heap = false, zero = false, ro = false; std::map<uint64_t, Cell> c; std::string name; };
struct FnInfo { std::map<const Value*, unsigned> slot; unsigned n = 0; };
struct Frame { Function* f; FnInfo* fi; std::vector<Val> r; BasicBlock* bb; BasicBlock* prev = nullptr; BasicBlock::iterator pc; std::vector<uint64_t> allocas; CallBase* call = nullptr; std::vector<Val> varargs; };
struct Exc { uint64_t obj, ti; };
struct State {
  std::vector<Frame> st; std::map<uint64_t, std::shared_ptr<Obj>> mem; uint64_t brk = 0x10000000ull;
  std::vector<Ast> pc; std::set<unsigned> pcs; // constraint ids
  std::vector<std::pair<AtomId, P>> rules;
  std::vector<Exc> inflight; std::vector<Exc> caught; uint64_t ninstr = 0; int depth = 0; bool second = false;
  std::map<std::string,int> names; std::vector<std::string> trail;
  std::map<const GlobalValue*, uint64_t> gaddr;
  std::vector<Val> scratch; std::map<std::string,std::vector<std::pair<std::string,Val>>> log;
  uint64_t undefs = 0;
};
struct PathEnd { std::string why; };           // terminate path quietly (assume false)
struct PathErr { std::string why; };           // engine limitation -> incomplete
struct Violation { std::string label, kind; std::map<std::string,std::string> in; std::string info; };
static std::vector<Violation> VIOL; static std::vector<std::string> INCONC;
static std::deque<std::unique_ptr<State>> WORK;
static std::unique_ptr<Module> MOD; static const DataLayout* DL;

// ------------------------------------------------------------------ symbols of an expression
static std::unordered_map<unsigned, std::set<unsigned>> SYMC; // ast id -> symbol ids (func decl ids)
static std::unordered_map<unsigned, AtomId> DECL2ATOM;
static std::unordered_map<unsigned, int> SYMKIND; // 0 real, 1 other
static const std::set<unsigned>& syms(Ast a) {
  unsigned id = Z3_get_ast_id(*C, a); auto it = SYMC.find(id); if (it != SYMC.end()) return it->second;
  std::set<unsigned> r; std::vector<Ast> stk{a}; std::set<unsigned> seen;
  while (!stk.empty()) { Ast x = stk.back(); stk.pop_back(); unsigned xi = Z3_get_ast_id(*C, x); if (!seen.insert(xi).second) continue;
    if (Z3_get_ast_kind(*C, x) != Z3_APP_AST) continue; Z3_app ap = Z3_to_app(*C, x); unsigned n = Z3_get_app_num_args(*C, ap);
    if (!n) { Z3_func_decl d = Z3_get_app_decl(*C, ap); if (Z3_get_decl_kind(*C, d) == Z3_OP_UNINTERPRETED) { unsigned di = Z3_get_ast_id(*C, x); r.insert(di); SYMKIND[di] = Z3_get_sort_kind(*C, Z3_get_sort(*C, x)) == Z3_REAL_SORT ? 0 : 1; } }
    for (unsigned i = 0; i < n; i++) stk.push_back(Z3_get_app_arg(*C, ap, i)); }
  KEEP.push_back(X(a));
  return SYMC[id] = r;
}
// ------------------------------------------------------------------ atoms in z3
static std::vector<Ast> ATOMZ; static std::vector<Ast> ATOMDEF; static std::vector<char> ATOMDEFOK;
static std::vector<Ast> INTR; static std::vector<bool> INTRS; // IntR: bv expr, signed
static Ast polyZ(const P& p);
static Ast atomZ(AtomId a) {
  if (ATOMZ.size() <= a) ATOMZ.resize(ATOMS.size() + 8, nullptr);
  if (!ATOMZ[a]) { z3::expr e = C->real_const(("v!" + std::to_string(a) + "!" + ATOMS[a].name).c_str()); ATOMZ[a] = keep(e); DECL2ATOM[Z3_get_ast_id(*C, e)] = a; }
  return ATOMZ[a];
}
static z3::expr qnum(const mpq_class& q) { return C->real_val(q.get_str().c_str()); }
static std::unordered_map<size_t, std::vector<std::pair<P, Ast>>> PZ;
static Ast polyZ(const P& p) {
  auto& b = PZ[phash(p)]; for (auto& x : b) if (peq(x.first, p)) return x.second;
  std::vector<Ast> sum;
  for (auto& t : p->t) { std::vector<Ast> pr; if (t.second != 1 || t.first->v.empty()) pr.push_back(keep(qnum(t.second)));
    for (auto& a : t.first->v) for (int i = 0; i < a.second; i++) pr.push_back(atomZ(a.first));
    sum.push_back(pr.size() == 1 ? pr[0] : keep(X(Z3_mk_mul(*C, pr.size(), pr.data())))); }
  Ast r = sum.empty() ? keep(C->real_val(0)) : sum.size() == 1 ? sum[0] : keep(X(Z3_mk_add(*C, sum.size(), sum.data())));
  b.push_back({p, r}); return r;
}
static Ast atomDef(AtomId a) { // nullptr if none
  if (ATOMDEF.size() <= a) { ATOMDEF.resize(ATOMS.size() + 8, nullptr); ATOMDEFOK.resize(ATOMS.size() + 8, 0); }
  if (ATOMDEFOK[a]) return ATOMDEF[a];
  const Atom at = ATOMS[a]; z3::expr v = X(atomZ(a)); z3::expr d = C->bool_val(true);
  z3::expr pilo = C->real_val("3141592653589793/1000000000000000"), pihi = C->real_val("3141592653589794/1000000000000000");
  switch (at.k) {
    case Atom::Sqrt: d = v * v == X(polyZ(at.arg)) && v >= 0; break;
    case Atom::Inv: d = v * X(polyZ(at.arg)) == 1; break;
    case Atom::Sin: d = v * v + X(atomZ(at.other)) * X(atomZ(at.other)) == 1; break;
    case Atom::Pi: d = v >= pilo && v <= pihi; break;
    case Atom::Ang: { z3::expr pi = X(atomZ(piAtom())); d = pi >= pilo && pi <= pihi;
      if (at.angKind == 1) d = d && v >= 0 && v <= pi; else if (at.angKind == 2) d = d && 2 * v >= -pi && 2 * v <= pi; else d = d && v > -pi && v <= pi;
      // sign of sine/cosine with respect to the angle
      if (at.sinP) { z3::expr s = X(polyZ(at.sinP)), c = X(polyZ(at.cosP)); if (at.angKind != 2) d = d && 2 * c >= 2 - v * v && 5 * c <= 5 - v * v; else d = d && s * s <= v * v && 5 * s * s >= 2 * v * v; }
      if (at.sinP) { z3::expr s = X(polyZ(at.sinP)), c = X(polyZ(at.cosP)); if (at.angKind != 1) d = d && (v > 0) == (s > 0 || (s == 0 && c < 0)); else d = d && (v == 0) == (c == 1) && (v == pi) == (c == -1) && (pi - v) * (pi - v) <= 5 * (1 + c); if (at.angKind == 1) d = d && ((2 * v < pi) == (c > 0)) && ((2 * v == pi) == (c == 0)); if (at.angKind == 3) d = d && (v == 0) == (s == 0 && c > 0) && (z3::abs(v) * 2 < pi) == (c > 0) ; if (at.angKind == 2) d = d && (v == 0) == (s == 0); }
      break; }
    case Atom::IntR: { z3::expr e = X(INTR[at.user]); z3::expr iv = X(Z3_mk_bv2int(*C, e, INTRS[at.user])); d = v == X(Z3_mk_int2real(*C, iv)); break; }
    case Atom::Var: if (at.unitGroup >= 0 && at.rule2) { z3::expr s = C->real_val(0); for (auto g : UNITGROUPS[at.unitGroup]) s = s + X(atomZ(g)) * X(atomZ(g)); d = s == 1; } break;
    case Atom::Fn: if (at.fn == "exp") d = v > 0; else if (at.fn == "floor") d = v == X(Z3_mk_int2real(*C, Z3_mk_real2int(*C, polyZ(at.arg)))); break;
    default: break;
  }
  if (ATOMDEF.size() <= a) { ATOMDEF.resize(ATOMS.size() + 8, nullptr); ATOMDEFOK.resize(ATOMS.size() + 8, 0); }
  ATOMDEFOK[a] = 1; ATOMDEF[a] = d.is_true() ? nullptr : keep(d); return ATOMDEF[a];
}

// ------------------------------------------------------------------ queries
enum Res { UNSAT, SAT, UNK };
static std::map<std::vector<unsigned>, Res> QCACHE;
static std::string smt2Of(const std::vector<Ast>& cs) { z3::solver s(*C); for (auto a : cs) s.add(X(a)); return s.to_smt2(); }
static Res runExternal(const std::string& smt, const char* const* argv, double secs, std::string* out = nullptr) {
  char fn[] = "/tmp/utsymqXXXXXX"; int fd = mkstemp(fn); if (write(fd, smt.data(), smt.size()) < 0) {} close(fd);
  int pp[2]; if (pipe(pp)) return UNK; pid_t pid = fork();
  if (!pid) { dup2(pp[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(pp[0]); std::vector<char*> av; for (int i = 0; argv[i]; i++) av.push_back((char*)argv[i]); av.push_back(fn); av.push_back(nullptr); alarm((unsigned)secs + 2); execvp(av[0], av.data()); _exit(127); }
  close(pp[1]); std::string o; char buf[4096]; ssize_t n; while ((n = read(pp[0], buf, sizeof buf)) > 0) o.append(buf, n); close(pp[0]); int stt; waitpid(pid, &stt, 0); unlink(fn);
  if (out) *out = o; if (o.find("(error") != std::string::npos) return UNK;
  if (o.compare(0, 5, "unsat") == 0) return UNSAT; if (o.compare(0, 3, "sat") == 0) return SAT; return UNK;
}
struct Query { std::vector<Ast> cs; bool onlyReal = true, hasReal = false; };
static Query mkQuery(State& s, const std::vector<Ast>& extra, bool full) {
  Query q; std::set<unsigned> sy; std::set<unsigned> inq; std::vector<Ast> todo = extra; std::vector<char> used(s.pc.size(), 0);
  auto add = [&](Ast a) { unsigned id = Z3_get_ast_id(*C, a); if (!inq.insert(id).second) return; q.cs.push_back(a); for (auto x : syms(a)) sy.insert(x); };
  for (auto a : extra) add(a);
  if (full) for (size_t i = 0; i < s.pc.size(); i++) { used[i] = 1; add(s.pc[i]); }
  std::set<unsigned> defd;
  for (bool ch = true; ch;) { ch = false;
    std::vector<unsigned> sv(sy.begin(), sy.end());
    for (auto x : sv) if (defd.insert(x).second) { auto f = DECL2ATOM.find(x); if (f != DECL2ATOM.end()) { AtomId ai = f->second; Ast d = atomDef(ai); if (d) { add(d); ch = true; }
        // members of a unit group share one relation
        if (ATOMS[ai].unitGroup >= 0) { Ast d2 = atomDef(UNITGROUPS[ATOMS[ai].unitGroup].back()); if (d2) { add(d2); ch = true; } }
        if ((ATOMS[ai].k == Atom::Cos || ATOMS[ai].k == Atom::Sin) && ATOMS[ai].arg->t.size() == 1 && ATOMS[ai].arg->t[0].first->v.size() == 1 && ATOMS[ATOMS[ai].arg->t[0].first->v[0].first].k == Atom::Var) { // bounds on the angle itself
          for (auto y : syms(polyZ(ATOMS[ai].arg))) if (!sy.count(y)) { bool inpc = false; for (auto c : s.pc) if (syms(c).count(y)) { inpc = true; break; } if (inpc) { sy.insert(y); ch = true; } } }
        if (ATOMS[ai].k == Atom::Cos) { Ast d2 = atomDef(ATOMS[ai].other); if (d2) { add(d2); ch = true; } } } }
    for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { for (auto x : syms(s.pc[i])) if (sy.count(x)) { used[i] = 1; add(s.pc[i]); ch = true; break; } } }
  // sign and size of sines/cosines, where the angle itself occurs in the query
  { std::vector<unsigned> sv(sy.begin(), sy.end()); for (auto x : sv) { auto f = DECL2ATOM.find(x); if (f == DECL2ATOM.end()) continue; const Atom& at = ATOMS[f->second]; if (at.k != Atom::Sin && at.k != Atom::Cos) continue; Ast th = polyZ(at.arg); bool all = true; for (auto y : syms(th)) if (!sy.count(y)) all = false; if (!all) continue;
      z3::expr t = X(th), v = X(atomZ(f->second)); z3::expr pl = C->real_val("314159/100000"), hp = C->real_val("157079/100000");
      if (at.k == Atom::Sin) { add(keep(z3::implies(t >= 0 && t <= pl, v >= 0))); add(keep(z3::implies(t <= 0 && t >= -pl, v <= 0))); add(keep(z3::implies(t > 0 && t <= pl, v > 0))); add(keep(z3::implies(t < 0 && t >= -pl, v < 0))); add(keep(v * v <= t * t)); }
      else { add(keep(z3::implies(t >= -hp && t <= hp, v > 0))); add(keep(2 * v >= 2 - t * t)); add(keep(z3::implies(t >= -hp && t <= hp, 5 * v <= 5 - 2 * t * t))); add(keep(z3::implies(t >= -pl && t <= pl, 5 * v <= 5 - t * t))); } } }
  for (auto x : sy) { if (SYMKIND[x]) q.onlyReal = false; else q.hasReal = true; }
  return q;
}
static std::unique_ptr<z3::model> LASTMODEL;               // model of the last satisfiable bit-vector/mixed query
static std::map<std::string,std::string> LASTIN; static bool HAVEIN = false; // inputs of the last satisfiable query
static std::map<std::string,std::string> modelInputs(const z3::model& m);
static std::vector<AtomId> WATCH; static std::map<AtomId, std::string> WATCHED; // integer-valued atoms whose model values are wanted
static std::string watchVal(z3::model m, AtomId a) { z3::expr v = m.eval(z3::to_expr(*C, Z3_mk_real2int(*C, X(atomZ(a)))), true); v = v.simplify(); return v.is_numeral() ? v.get_decimal_string(0) : ""; }
// Pure real-arithmetic queries run in a forked child: nlsat cannot be interrupted in the middle of a factorisation.
static Res realChild(const Query& q, int attempt, unsigned ms, bool wantModel) {
  int pp[2]; if (pipe(pp)) return UNK; pid_t pid = fork(); if (pid < 0) { close(pp[0]); close(pp[1]); return UNK; }
  if (!pid) { close(pp[0]); alarm(ms / 1000 + 3); prctl(PR_SET_PDEATHSIG, SIGKILL); std::string o = "?";
    try { z3::solver s = attempt ? z3::tactic(*C, "smt").mk_solver() : (z3::tactic(*C, "simplify") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "qfnra-nlsat")).mk_solver();
      if (!attempt) { z3::params p(*C); p.set("seed", (unsigned)SEED); s.set(p); }
      for (auto a : q.cs) s.add(X(a)); auto cr = s.check(); if (cr == z3::unsat) o = "U"; else if (cr == z3::sat) { o = "S"; if (wantModel) for (auto& kv : modelInputs(s.get_model())) o += kv.first + "\t" + kv.second + "\n"; for (auto a : WATCH) o += "#" + std::to_string(a) + "\t" + watchVal(s.get_model(), a) + "\n"; }
    } catch (...) {}
    for (size_t k = 0; k < o.size();) { ssize_t n = write(pp[1], o.data() + k, o.size() - k); if (n <= 0) break; k += n; } _exit(0); }
  close(pp[1]); std::string o; char buf[4096]; double end = now() + ms / 1000. + 0.05;
  for (;;) { double left = end - now(); if (now() - T0 > TIME_LIMIT || left <= 0) break; struct pollfd pf = {pp[0], POLLIN, 0}; int k = poll(&pf, 1, std::min(200, (int)(left * 1000) + 1)); if (k > 0) { ssize_t n = read(pp[0], buf, sizeof buf); if (n <= 0) break; o.append(buf, n); } }
  close(pp[0]); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0);
  if (o.empty()) return UNK; if (o[0] == 'U') return UNSAT; if (o[0] != 'S') return UNK;
  if (!WATCH.empty()) { std::istringstream is(o.substr(1)); std::string l; while (std::getline(is, l)) { size_t t = l.find('\t'); if (l[0] == '#') WATCHED[atoi(l.c_str() + 1)] = l.substr(t + 1); } }
  if (wantModel) { LASTIN.clear(); HAVEIN = true; std::istringstream is(o.substr(1)); std::string l; while (std::getline(is, l)) { size_t t = l.find('\t'); if (l[0] != '#' && t != std::string::npos) LASTIN[l.substr(0, t)] = l.substr(t + 1); } }
  return SAT;
}
// linear constraints need no child: the simplex solver honours its time limit
static std::unordered_map<unsigned,bool> LINEAR; static std::unique_ptr<z3::solver> LSOLVER; static std::unordered_map<unsigned, z3::expr> LLIT;
static bool linear(const z3::expr& e) { unsigned id = e.id(); auto it = LINEAR.find(id); if (it != LINEAR.end()) return it->second; bool ok = e.is_app();
  if (ok) { auto k = e.decl().decl_kind(); unsigned nn = 0; for (unsigned i = 0; i < e.num_args() && ok; i++) { if (!e.arg(i).is_numeral()) nn++; ok = linear(e.arg(i)); }
    if (k == Z3_OP_MUL && nn > 1) ok = false; else if (k == Z3_OP_POWER || k == Z3_OP_IDIV || k == Z3_OP_MOD || k == Z3_OP_REM) ok = false; else if (k == Z3_OP_DIV && !e.arg(1).is_numeral()) ok = false; else if (k == Z3_OP_UNINTERPRETED && e.num_args()) ok = false; }
  return LINEAR[id] = ok; }
static std::unordered_map<unsigned,bool> HASFP;
static bool hasFp(const z3::expr& e) { unsigned id = e.id(); auto it = HASFP.find(id); if (it != HASFP.end()) return it->second; bool r = e.get_sort().sort_kind() == Z3_FLOATING_POINT_SORT; for (unsigned i = 0; !r && e.is_app() && i < e.num_args(); i++) r = hasFp(e.arg(i)); return HASFP[id] = r; }
static Res solve(const Query& q, unsigned ms, bool wantModel) {
  double t = now(); Res r = UNK; if (t - T0 > TIME_LIMIT) return UNK; if (wantModel) { LASTMODEL.reset(); HAVEIN = false; }
  if (q.hasReal && !q.onlyReal) { // relaxation: the reals alone, integers only by their range
    Query q2; q2.hasReal = true; std::set<unsigned> sy; for (auto a : q.cs) { bool re = true; auto sa = syms(a); for (auto x : sa) if (SYMKIND[x]) { re = false; break; } if (re && !sa.empty()) { q2.cs.push_back(a); for (auto x : sa) sy.insert(x); } }
    std::vector<AtomId> ints; for (auto x : sy) { auto f = DECL2ATOM.find(x); if (f == DECL2ATOM.end() || ATOMS[f->second].k != Atom::IntR) continue; ints.push_back(f->second); int u = ATOMS[f->second].user; unsigned bw = X(INTR[u]).get_sort().bv_size(); z3::expr v = X(atomZ(f->second)); mpz_class hi = 1; hi <<= INTRS[u] ? bw - 1 : bw; mpz_class lo = INTRS[u] ? mpz_class(-hi) : mpz_class(0); hi -= 1; q2.cs.push_back(keep(v <= C->real_val(hi.get_str().c_str()))); q2.cs.push_back(keep(v >= C->real_val(lo.get_str().c_str()))); }
    if (!q2.cs.empty()) { WATCH = ints; WATCHED.clear(); Res r2 = solve(q2, ms / 2 + 1, false); WATCH.clear(); if (r2 == UNSAT) return UNSAT;
      if (r2 == SAT && !ints.empty() && WATCHED.size() == ints.size()) { // try the integers of that model
        auto W = WATCHED; bool ok = true; z3::solver s(*C); z3::params p(*C); p.set("timeout", ms / 4 + 1); s.set(p); for (auto a : q.cs) s.add(X(a));
        for (auto a : ints) { std::string v = W[a]; if (v.empty() || v.find_first_not_of("-0123456789") != std::string::npos) { ok = false; break; } z3::expr e = X(INTR[ATOMS[a].user]); unsigned bw = e.get_sort().bv_size(); bool ng = v[0] == '-'; APInt ci(std::max<unsigned>(bw, v.size() * 4 + 8), ng ? v.substr(1) : v, 10); if (ng) ci = -ci; s.add(e == bvNum(ci.trunc(bw))); s.add(X(atomZ(a)) == C->real_val(v.c_str())); }
        if (ok) try { if (s.check() == z3::sat) { if (wantModel) { LASTMODEL.reset(new z3::model(s.get_model())); LASTIN = modelInputs(*LASTMODEL); HAVEIN = true; } double d = now() - t; ST.solverT += d; return SAT; } } catch (z3::exception&) {} } } t = now(); if (t - T0 > TIME_LIMIT) return UNK; }
  bool lin = q.onlyReal && q.hasReal; if (lin) for (auto a : q.cs) if (!linear(X(a))) { lin = false; break; }
  if (q.onlyReal && q.hasReal && !lin) { for (int attempt = 0; attempt < 2 && r == UNK; attempt++) r = realChild(q, attempt, ms, wantModel); }
  else try {
    if (lin) { // one persistent simplex solver; every constraint is switched on by an assumption
      if (!LSOLVER || LLIT.size() > 4000) { LLIT.clear(); LSOLVER.reset(new z3::solver(*C, "QF_LRA")); z3::params p(*C); p.set("random_seed", (unsigned)SEED); LSOLVER->set(p); }
      z3::params p(*C); p.set("timeout", ms); LSOLVER->set(p); z3::expr_vector as(*C);
      for (auto a : q.cs) { unsigned id = Z3_get_ast_id(*C, a); auto it = LLIT.find(id); if (it == LLIT.end()) { z3::expr l = C->bool_const(("lin!" + std::to_string(id)).c_str()); LSOLVER->add(z3::implies(l, X(a))); it = LLIT.emplace(id, l).first; } as.push_back(it->second); }
      auto cr = LSOLVER->check(as); if (cr == z3::unsat) r = UNSAT; else if (cr == z3::sat) { r = SAT; for (auto a : WATCH) WATCHED[a] = watchVal(LSOLVER->get_model(), a); if (wantModel) { LASTMODEL.reset(new z3::model(LSOLVER->get_model())); LASTIN = modelInputs(*LASTMODEL); HAVEIN = true; } }
      if (r != UNK) { double d = now() - t; ST.solverT += d; if (d > ST.maxQ) ST.maxQ = d; return r; } }
    bool fp = false; if (!q.hasReal && !REALMODE) for (auto a : q.cs) if (hasFp(X(a))) { fp = true; break; }
    z3::solver s = fp ? z3::solver(*C, "QF_BVFP") : !q.hasReal ? z3::solver(*C, "QF_BV") : lin ? z3::solver(*C, "QF_LRA") : z3::solver(*C);
    z3::params p(*C); p.set("timeout", ms); p.set("random_seed", (unsigned)SEED); s.set(p);
    for (auto a : q.cs) s.add(X(a));
    auto cr = s.check();
    if (cr == z3::sat) { r = SAT; if (wantModel) { LASTMODEL.reset(new z3::model(s.get_model())); LASTIN = modelInputs(*LASTMODEL); HAVEIN = true; } } else if (cr == z3::unsat) r = UNSAT;
  } catch (z3::exception& e) { if (VERBOSE) std::cerr << "z3: " << std::string(e.msg()).substr(0, 100) << "\n"; }
  double d = now() - t; ST.solverT += d; if (d > ST.maxQ) ST.maxQ = d;
  if (VERBOSE && d > 2) std::cerr << "slow query " << d << "s res " << r << " n=" << q.cs.size() << "\n";
  return r;
}
static Res check(State& s, const std::vector<Ast>& extra, unsigned ms, bool full = false, bool wantModel = false) {
  Query q = mkQuery(s, extra, full);
  std::vector<unsigned> key; if (!wantModel) { for (auto a : q.cs) key.push_back(Z3_get_ast_id(*C, a)); std::sort(key.begin(), key.end()); auto it = QCACHE.find(key); if (it != QCACHE.end()) return it->second; }
  Res r = solve(q, ms, wantModel);
  if (!wantModel) QCACHE[key] = r; return r;
}

// ------------------------------------------------------------------ path conditions
struct Cmp { P p; int op; }; // op 0: ==0, 1: <0, 2: <=0
static std::unordered_map<unsigned, Cmp> CMPS; // ast id -> polynomial comparison
static P subRules(State& s, P p) { for (auto& r : s.rules) p = psubst(p, r.first, r.second); return p; }
static bool nonneg(const P& p, bool& strict) { // syntactic: sum of nonnegative terms
  strict = false;
  for (auto& t : p->t) { if (t.second < 0) return false; bool pos = true; for (auto& a : t.first->v) { const Atom& at = ATOMS[a.first]; bool nn = at.k == Atom::Sqrt || at.k == Atom::Pi || (at.k == Atom::Ang && at.angKind == 1) || (at.k == Atom::Fn && at.fn == "exp") || (a.second % 2 == 0); if (!nn) return false; if (!(at.k == Atom::Pi || (at.k == Atom::Fn && at.fn == "exp"))) pos = false; } if (pos) strict = true; }
  return true;
}
// comparison p op 0 -> Val of width 1
static Val mkCmp(P p, int op) {
  if (p->t.size() < 3000) { try { p = pclear(p, op != 0); } catch (TooBig&) {} }
  if (!pisconst(p)) { mpq_class c = pcontent(p); bool neg = c < 0; if (neg && op != 0) c = -c; p = pscale(p, 1 / c); }
  if (pisconst(p)) { int sg = sgn(pcval(p)); return Val::Int(1, op == 0 ? sg == 0 : op == 1 ? sg < 0 : sg <= 0); }
  bool st; if (nonneg(p, st)) { if (op == 1) return Val::Int(1, 0); if (st) return Val::Int(1, 0); }
  P n = pneg(p); if (nonneg(n, st)) { if (op == 2) return Val::Int(1, 1); if (st) return Val::Int(1, op == 1 ? 1 : 0); }
  z3::expr e = X(polyZ(p)); z3::expr z = C->real_val(0); z3::expr r = op == 0 ? e == z : op == 1 ? e < z : e <= z;
  Ast a = keep(r); CMPS[Z3_get_ast_id(*C, a)] = {p, op}; return Val::Expr(1, a);
}
static Ast notOf(Ast a) { z3::expr e = X(a); if (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT) return keep(e.arg(0));
  auto it = CMPS.find(Z3_get_ast_id(*C, a)); if (it != CMPS.end() && it->second.op) { Val v = mkCmp(pneg(it->second.p), it->second.op == 1 ? 2 : 1); if (v.k == Val::E) return v.e; }
  return keep(!e); }
static void addPC(State& s, Ast a) {
  unsigned id = Z3_get_ast_id(*C, a); if (!s.pcs.insert(id).second) return; s.pc.push_back(a);
  auto it = CMPS.find(id); if (it != CMPS.end() && it->second.op == 0) { // orient equality: linear in a plain variable
    P p = subRules(s, it->second.p); AtomId best = 0; mpq_class bc; bool ok = false;
    for (auto& t : p->t) if (t.first->v.size() == 1 && t.first->v[0].second == 1) { AtomId at = t.first->v[0].first; if (ATOMS[at].k != Atom::Var || ATOMS[at].unitGroup >= 0) continue; bool other = false; for (auto& u : p->t) if (&u != &t) for (auto& x : u.first->v) if (x.first == at) other = true; if (!other && (!ok || at > best)) { best = at; bc = t.second; ok = true; } }
    if (ok) { P rhs = pscale(psub(p, pscale(patom(best), bc)), -1 / bc); for (auto& r : s.rules) r.second = psubst(r.second, best, rhs); s.rules.push_back({best, rhs}); } }
}
static bool inPC(State& s, Ast a) { return s.pcs.count(Z3_get_ast_id(*C, a)); }

// decide a boolean; forks the state (the fork re-executes the current instruction)
static bool decide(State& s, const Val& v0) {
  Val v = v0; if (v.k == Val::U) return false; if (v.k == Val::I) return v.i.getBoolValue();
  auto it = CMPS.find(Z3_get_ast_id(*C, v.e)); if (it != CMPS.end() && !s.rules.empty()) { Val w = mkCmp(subRules(s, it->second.p), it->second.op); if (w.k == Val::I) return w.i.getBoolValue(); v = w; }
  Ast t = v.e, f = notOf(t); if (inPC(s, t)) return true; if (inPC(s, f)) return false;
  ST.branchQ++;
  Res rt = check(s, {t}, BRANCH_MS); if (rt == UNSAT) { s.pcs.insert(Z3_get_ast_id(*C, f)); return false; }
  Res rf = check(s, {f}, BRANCH_MS); if (rf == UNSAT) { s.pcs.insert(Z3_get_ast_id(*C, t)); return true; }
  if (rt == UNK || rf == UNK) ST.branchUnknown++;
  ST.forks++; auto n = std::make_unique<State>(s); addPC(*n, f); n->depth++; WORK.push_back(std::move(n));
  addPC(s, t); s.depth++; return true;
}
static bool decideCmp(State& s, const P& p, int op) { return decide(s, mkCmp(subRules(s, p), op)); }
static void assumeV(State& s, const Val& v) { if (v.k == Val::I) { if (!v.i.getBoolValue()) throw PathEnd{"assume"}; return; } if (inPC(s, v.e)) return;
  Res r = check(s, {v.e}, BRANCH_MS); if (r == UNSAT) throw PathEnd{"assume"}; addPC(s, v.e); }
static APInt concretise(State& s, const Val& v) {
  if (v.k == Val::I) return v.i; if (v.k == Val::U) return APInt(v.w ? v.w : 64, 0);
  if (v.k == Val::R) throw PathErr{"real used as integer"};
  for (int n = 0; n < 4096; n++) {
    ST.branchQ++; // obtain a value through a model of the relevant slice
    z3::expr e = Bv(v); z3::expr fresh = C->bv_const("conc!", v.w); Query q = mkQuery(s, {keep(fresh == e)}, false); Res rr = solve(q, BRANCH_MS, true);
    if (rr != SAT) throw PathErr{"cannot concretise"};
    z3::expr m = LASTMODEL->eval(fresh, true); APInt val(v.w, Z3_get_numeral_string(*C, m), 10);
    if (v.w == 1) { if (decide(s, v)) return APInt(1, 1); return APInt(1, 0); }
    if (decide(s, mkE(1, e == bvNum(val)))) return val;
    // the chosen value was excluded on this (re-executed) path: try another
  }
  throw PathErr{"too many concrete values"};
}
#include "mem.inc"
#include "fp.inc"
#include "exec.inc"

// ------------------------------------------------------------------ floating point
static double bitsD(const APInt& i) { if (i.getBitWidth() == 64) { uint64_t b = i.getZExtValue(); double d; memcpy(&d, &b, 8); return d; } uint32_t b = i.getZExtValue(); float f; memcpy(&f, &b, 4); return f; }
static Val dBits(double d, unsigned w) { if (w == 64) { uint64_t b; memcpy(&b, &d, 8); return Val::Int(64, b); } float f = d; uint32_t b; memcpy(&b, &f, 4); return Val::Int(32, b); }
static Val constReal(double d, unsigned w) { // concrete double to real-mode value
  if (!std::isfinite(d)) return dBits(d, w);
  static const struct { double v; long n, m; } PIS[] = {{M_PI,1,1},{M_PI/2,1,2},{2*M_PI,2,1},{M_PI/4,1,4},{-M_PI,-1,1},{-M_PI/2,-1,2},{-2*M_PI,-2,1},{M_PI/180.0,1,180},{3*M_PI/2,3,2},{-M_PI/4,-1,4},{3*M_PI/4,3,4},{-3*M_PI/4,-3,4},{-3*M_PI/2,-3,2}};
  for (auto& p : PIS) if (d == p.v || (w == 32 && (float)d == (float)p.v)) return Val::Real(pscale(patom(piAtom()), mpq_class(p.n, p.m)), w);
  if (d == 180.0 / M_PI) return Val::Real(pscale(pinv(patom(piAtom())), 180), w);
  if (w == 32) { float f = (float)d; // find simplest rational for the float
    for (long q = 1; q <= 1000; q++) { double n = floor(d * q + 0.5); if (fabs(n) < 1e6 && (float)(n / q) == f) { mpq_class r((long)n, q); r.canonicalize(); return Val::Real(pconst(r), w); } } 
    char b[32]; snprintf(b, 32, "%.6g", (double)f); return Val::Real(pconst(rationalise(strtof(b, 0) == f ? strtod(b, 0) : d)), w); }
  // square roots of small rationals used as literals
  if (fabs(d) > 1e-9 && fabs(d) < 1e9) { static const double sq[] = {2, 3, 0.5}; for (double q : sq) if (fabs(d) == std::sqrt(q)) { /* handled as plain rational below unless exact */ } }
  return Val::Real(pconst(rationalise(d)), w);
}
static Val fromBits(const Val& v, Type* t) { // normalise loaded/bit-cast value to fp/pointer type
  if (t->isDoubleTy() || t->isFloatTy()) { unsigned w = t->isDoubleTy() ? 64 : 32; if (v.k == Val::R) return v; if (v.k == Val::I && REALMODE) { if (v.w != w) return v; return constReal(bitsD(v.i), w); } return v; }
  return v;
}
static P rl(State& s, const Val& v) { if (v.k == Val::R) return s.rules.empty() ? v.r : subRules(s, v.r); if (v.k == Val::I) { double d = bitsD(v.i); if (std::isfinite(d)) return constReal(d, v.w).r; throw PathErr{"non-finite operand"}; }
  if (v.k == Val::U) return pconst(0); throw PathErr{"bit-pattern double used in real arithmetic"}; }
static bool isSpec(const Val& v) { return v.k == Val::I && !std::isfinite(bitsD(v.i)); }
static int realSign(State& s, const P& p) { if (decideCmp(s, p, 0)) return 0; return decideCmp(s, p, 1) ? -1 : 1; }
static Val specOp(State& s, unsigned op, const Val& a, const Val& b, unsigned w) { // at least one non-finite operand
  auto proxy = [&](const Val& v) -> double { if (v.k == Val::I) return bitsD(v.i); P p = rl(s, v); if (pisconst(p)) return pcval(p).get_d(); int sg = realSign(s, p); return sg * 1.5; };
  double x = proxy(a), y = proxy(b), r = NAN;
  switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = NAN; }
  if (std::isfinite(r)) return Val::Real(pconst(mpq_class(r)), w); return dBits(r, w);
}
static Val realDiv(State& s, const P& n, const P& d, unsigned w) {
  if (pisconst(d)) { if (pcval(d) == 0) { int sg = realSign(s, n); return dBits(sg == 0 ? NAN : sg * INFINITY, w); } return Val::Real(pscale(n, 1 / pcval(d)), w); }
  Val z = mkCmp(d, 0);
  if (z.k == Val::E) { if (!inPC(s, z.e) && !inPC(s, notOf(z.e))) { Ast nz = notOf(z.e); ST.branchQ++; Res r = check(s, {z.e}, BRANCH_MS);
      if (r == UNSAT) s.pcs.insert(Z3_get_ast_id(*C, nz));
      else if (r == UNK) { ST.divAssumed++; ASSUMED.insert("denominator != 0 (solver gave no answer on: " + pstr(d, 6) + ")"); addPC(s, nz); } }
    if (decide(s, z)) { int sg = realSign(s, n); return dBits(sg == 0 ? NAN : sg * INFINITY, w); } }
  else if (z.i.getBoolValue()) { int sg = realSign(s, n); return dBits(sg == 0 ? NAN : sg * INFINITY, w); }
  return Val::Real(pmul(n, pinv(d)), w);
}
static z3::expr fpa(const Val& v) { return X(Z3_mk_fpa_to_fp_bv(*C, Bv(v), v.w == 64 ? Z3_mk_fpa_sort_64(*C) : Z3_mk_fpa_sort_32(*C))); }
static Val fpOp(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  if (!REALMODE) {
    Val x = realToBits(a), y = realToBits(b);
    if (x.k == Val::U) x = Val::Int(w, 0); if (y.k == Val::U) y = Val::Int(w, 0);
    if (x.k == Val::I && y.k == Val::I) { double p = bitsD(x.i), q = bitsD(y.i), r = 0; if (w == 32) { float fp = p, fq = q; switch (op) { case Instruction::FAdd: r = fp + fq; break; case Instruction::FSub: r = fp - fq; break; case Instruction::FMul: r = fp * fq; break; case Instruction::FDiv: r = fp / fq; break; default: r = fmodf(fp, fq); } }
      else switch (op) { case Instruction::FAdd: r = p + q; break; case Instruction::FSub: r = p - q; break; case Instruction::FMul: r = p * q; break; case Instruction::FDiv: r = p / q; break; default: r = fmod(p, q); } return dBits(r, w); }
    z3::expr rm(*C, Z3_mk_fpa_rne(*C)); z3::expr e(*C); z3::expr p = fpa(x), q = fpa(y);
    switch (op) { case Instruction::FAdd: e = X(Z3_mk_fpa_add(*C, rm, p, q)); break; case Instruction::FSub: e = X(Z3_mk_fpa_sub(*C, rm, p, q)); break; case Instruction::FMul: e = X(Z3_mk_fpa_mul(*C, rm, p, q)); break; case Instruction::FDiv: e = X(Z3_mk_fpa_div(*C, rm, p, q)); break; default: throw PathErr{"frem"}; }
    return mkE(w, X(Z3_mk_fpa_to_ieee_bv(*C, e)));
  }
  if (isSpec(a) || isSpec(b)) return specOp(s, op, a, b, w);
  P x = rl(s, a), y = rl(s, b);
  switch (op) { case Instruction::FAdd: return Val::Real(padd(x, y), w); case Instruction::FSub: return Val::Real(psub(x, y), w); case Instruction::FMul: return Val::Real(pmul(x, y), w); case Instruction::FDiv: return realDiv(s, x, y, w);
    default: if (pisconst(x) && pisconst(y)) return constReal(fmod(pcval(x).get_d(), pcval(y).get_d()), w); throw PathErr{"frem on symbolic reals"}; }
}
static Val fpCmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b) {
  typedef CmpInst CI; if (p == CI::FCMP_TRUE) return Val::Int(1, 1); if (p == CI::FCMP_FALSE) return Val::Int(1, 0);
  if (!REALMODE) {
    Val x = realToBits(a), y = realToBits(b); if (x.k == Val::U) x = Val::Int(64, 0); if (y.k == Val::U) y = Val::Int(64, 0);
    if (x.k == Val::I && y.k == Val::I) { double c = bitsD(x.i), d = bitsD(y.i); bool un = std::isnan(c) || std::isnan(d), r; switch (p) { case CI::FCMP_OEQ: case CI::FCMP_UEQ: r = c == d; break; case CI::FCMP_ONE: case CI::FCMP_UNE: r = c != d; break; case CI::FCMP_OLT: case CI::FCMP_ULT: r = c < d; break; case CI::FCMP_OLE: case CI::FCMP_ULE: r = c <= d; break; case CI::FCMP_OGT: case CI::FCMP_UGT: r = c > d; break; case CI::FCMP_OGE: case CI::FCMP_UGE: r = c >= d; break; case CI::FCMP_ORD: return Val::Int(1, !un); case CI::FCMP_UNO: return Val::Int(1, un); default: throw PathErr{"fcmp"}; } return Val::Int(1, un ? CI::isUnordered(p) : r); }
    z3::expr u = fpa(x), v = fpa(y); z3::expr nan = X(Z3_mk_fpa_is_nan(*C, u)) || X(Z3_mk_fpa_is_nan(*C, v)); z3::expr r(*C);
    switch (p) { case CI::FCMP_OEQ: case CI::FCMP_UEQ: r = X(Z3_mk_fpa_eq(*C, u, v)); break; case CI::FCMP_ONE: case CI::FCMP_UNE: r = !X(Z3_mk_fpa_eq(*C, u, v)); break; case CI::FCMP_OLT: case CI::FCMP_ULT: r = X(Z3_mk_fpa_lt(*C, u, v)); break; case CI::FCMP_OLE: case CI::FCMP_ULE: r = X(Z3_mk_fpa_leq(*C, u, v)); break; case CI::FCMP_OGT: case CI::FCMP_UGT: r = X(Z3_mk_fpa_gt(*C, u, v)); break; case CI::FCMP_OGE: case CI::FCMP_UGE: r = X(Z3_mk_fpa_geq(*C, u, v)); break; case CI::FCMP_ORD: return mkE(1, !nan); case CI::FCMP_UNO: return mkE(1, nan); default: throw PathErr{"fcmp"}; }
    bool uno = CI::isUnordered(p); return mkE(1, uno ? (nan || r) : (!nan && r));
  }
  auto nanp = [](const Val& v) { return v.k == Val::I && std::isnan(bitsD(v.i)); };
  bool nan = nanp(a) || nanp(b); if (p == CI::FCMP_ORD) return Val::Int(1, !nan); if (p == CI::FCMP_UNO) return Val::Int(1, nan);
  if (nan) return Val::Int(1, CI::isUnordered(p));
  if (isSpec(a) || isSpec(b)) { double x = isSpec(a) ? bitsD(a.i) : 0, y = isSpec(b) ? bitsD(b.i) : 0; bool r; switch (p) { case CI::FCMP_OEQ: case CI::FCMP_UEQ: r = x == y; break; case CI::FCMP_ONE: case CI::FCMP_UNE: r = x != y; break; case CI::FCMP_OLT: case CI::FCMP_ULT: r = x < y; break; case CI::FCMP_OLE: case CI::FCMP_ULE: r = x <= y; break; case CI::FCMP_OGT: case CI::FCMP_UGT: r = x > y; break; default: r = x >= y; } return Val::Int(1, r); }
  P d = psub(rl(s, a), rl(s, b));
  switch (p) { case CI::FCMP_OEQ: case CI::FCMP_UEQ: return mkCmp(d, 0);
    case CI::FCMP_ONE: case CI::FCMP_UNE: { Val v = mkCmp(d, 0); if (v.k == Val::I) return Val::Int(1, !v.i.getBoolValue()); return Val::Expr(1, notOf(v.e)); }
    case CI::FCMP_OLT: case CI::FCMP_ULT: return mkCmp(d, 1); case CI::FCMP_OLE: case CI::FCMP_ULE: return mkCmp(d, 2);
    case CI::FCMP_OGT: case CI::FCMP_UGT: return mkCmp(pneg(d), 1); case CI::FCMP_OGE: case CI::FCMP_UGE: return mkCmp(pneg(d), 2); default: throw PathErr{"fcmp"}; }
}
// ---- real functions
static std::map<std::string, std::vector<std::pair<P, AtomId>>> FNTAB;
static AtomId fnAtom(const std::string& fn, const P& a, const P* b = nullptr) {
  std::string key = fn; auto& v = FNTAB[key + (b ? std::to_string(phash(*b)) : "")]; for (auto& x : v) if (peq(x.first, a) && (!b || peq(ATOMS[x.second].arg2, *b))) return x.second;
  Atom at; at.k = Atom::Fn; at.fn = fn; at.arg = a; if (b) at.arg2 = *b; at.name = fn + std::to_string(ATOMS.size()); AtomId id = newAtom(at); v.push_back({a, id}); return id;
}
static P sqrtAtom(const P& prim) { for (auto& x : FNTAB["sqrt"]) if (peq(x.first, prim)) return patom(x.second);
  Atom at; at.k = Atom::Sqrt; at.arg = prim; at.rule2 = prim; at.name = "sqrt" + std::to_string(ATOMS.size()); AtomId id = newAtom(at); FNTAB["sqrt"].push_back({prim, id}); return patom(id); }
static P sqrtPoly(State& s, const P& a0) { // a >= 0 known
  P a = a0; if (pisconst(a)) { mpq_class o; mpz_class q; if (pcval(a) == 0) return a; qsqrt(pcval(a), o, q); if (q == 1) return pconst(o); return pscale(sqrtAtom(pconst(mpq_class(q))), o); }
  P pre = pconst(1);
  if (phas(a, Atom::Inv)) { std::vector<std::pair<AtomId,int>> mu; a = pclear(a, true, &mu); for (auto& m : mu) { int h = m.second / 2; P iv = patom(m.first); P f = ppow(iv, h); if (h & 1) { if (decideCmp(s, ATOMS[m.first].arg, 1)) f = pneg(f); } pre = pmul(pre, f); } }
  P root; if (psqrt_exact(a, root)) { if (!decideCmp(s, root, 1)) return pmul(pre, root); return pmul(pre, pneg(root)); }
  mpq_class c = pcontent(a); P prim = pscale(a, 1 / c); if (c < 0) { prim = pneg(prim); c = -c; }
  if (psqrt_exact(prim, root)) { P sc = sqrtPoly(s, pconst(c)); return pmul(pmul(pre, sc), decideCmp(s, root, 1) ? pneg(root) : root); }
  return pmul(pmul(pre, sqrtPoly(s, pconst(c))), sqrtAtom(prim));
}
static Val realSqrt(State& s, const Val& v, unsigned w) {
  if (isSpec(v)) { return dBits(std::sqrt(bitsD(v.i)), w); }
  P a = rl(s, v); if (decideCmp(s, a, 1)) return dBits(NAN, w); return Val::Real(sqrtPoly(s, a), w);
}
// sine/cosine: angle addition over the monomials of the argument
struct TrigBase { mpq_class q; AtomId s, c; }; static std::map<std::string, std::vector<TrigBase>> TRIG;
static int TRIGDEN = 2;
static void cheb(const P& s, const P& c, long k, P& so, P& co) { bool neg = k < 0; if (neg) k = -k; so = pconst(0); co = pconst(1); P bs = s, bc = c; while (k) { if (k & 1) { P ns = padd(pmul(so, bc), pmul(co, bs)); P nc = psub(pmul(co, bc), pmul(so, bs)); so = ns; co = nc; } k >>= 1; if (k) { P ns = pscale(pmul(bs, bc), 2); P nc = psub(pmul(bc, bc), pmul(bs, bs)); bs = ns; bc = nc; } } if (neg) so = pneg(so); }
static void sincosTerm(State& s, M m, const mpq_class& q, P& so, P& co) {
  if (m->v.size() == 1 && m->v[0].second == 1) {
    const Atom at = ATOMS[m->v[0].first];
    if (at.k == Atom::Pi) { mpq_class t = q * 2; if (t.get_den() == 1) { long k = mpz_class(((t.get_num() % 4) + 4) % 4).get_si(); so = pconst(k == 1 ? 1 : k == 3 ? -1 : 0); co = pconst(k == 0 ? 1 : k == 2 ? -1 : 0); return; }
      t = q * 4; if (t.get_den() == 1) { P h = pscale(sqrtPoly(s, pconst(2)), mpq_class(1, 2)); long k = mpz_class(((t.get_num() % 8) + 8) % 8).get_si(); so = (k == 1 || k == 3) ? h : pneg(h); co = (k == 1 || k == 7) ? h : pneg(h); return; } }
    if (at.k == Atom::Ang && at.sinP) {
      if (q.get_den() == 1) { cheb(at.sinP, at.cosP, q.get_num().get_si(), so, co); return; }
      if (q.get_den() == 2) { P hc, hs; P cc = pscale(padd(pconst(1), at.cosP), mpq_class(1, 2));
        if (at.angKind == 1) { hs = sqrtPoly(s, pscale(psub(pconst(1), at.cosP), mpq_class(1, 2))); hc = sqrtPoly(s, cc); }
        else { if (decideCmp(s, cc, 0)) { hc = pconst(0); hs = pconst(1); } else { hc = sqrtPoly(s, cc); hs = pmul(pscale(at.sinP, mpq_class(1, 2)), pinv(hc)); } }
        cheb(hs, hc, q.get_num().get_si(), so, co); return; }
    }
  }
  std::string key; for (auto& p : m->v) key += std::to_string(p.first) + "^" + std::to_string(p.second) + " ";
  auto& v = TRIG[key]; TrigBase* b = nullptr; mpq_class k; for (auto& x : v) { k = q / x.q; if (k.get_den() == 1) { b = &x; break; } }
  if (!b) { TrigBase nb; nb.q = abs(q) / TRIGDEN; P mp; { mp = pconst(nb.q); for (auto& p : m->v) mp = pmul(mp, ppow(patom(p.first), p.second)); }
    Atom cs; cs.k = Atom::Cos; cs.arg = mp; cs.name = "cos" + std::to_string(ATOMS.size()); nb.c = newAtom(cs);
    Atom sn; sn.k = Atom::Sin; sn.arg = mp; sn.name = "sin" + std::to_string(ATOMS.size()); sn.other = nb.c; sn.rule2 = psub(pconst(1), pmul(patom(nb.c), patom(nb.c))); nb.s = newAtom(sn); ATOMS[nb.c].other = nb.s;
    v.push_back(nb); b = &v.back(); k = q / nb.q; }
  cheb(patom(b->s), patom(b->c), k.get_num().get_si(), so, co);
}
static void sincos(State& s, const P& a, P& so, P& co) {
  so = pconst(0); co = pconst(1); P x = a; if (phas(x, Atom::Inv) && false) x = a;
  for (auto& t : x->t) { P ts, tc; sincosTerm(s, t.first, t.second, ts, tc); P ns = padd(pmul(so, tc), pmul(co, ts)); P nc = psub(pmul(co, tc), pmul(so, ts)); so = ns; co = nc; }
}
static P angAtom(int kind, const P& sn, const P& cs, const char* nm) {
  for (auto& x : FNTAB[std::string("ang") + nm]) if (peq(x.first, cs) && peq(ATOMS[x.second].sinP, sn)) return patom(x.second);
  Atom at; at.k = Atom::Ang; at.angKind = kind; at.sinP = sn; at.cosP = cs; at.name = nm + std::to_string(ATOMS.size()); AtomId id = newAtom(at); FNTAB[std::string("ang") + nm].push_back({cs, id}); return patom(id);
}
// p (and q, if given) equal to cosine (and sine) of a multiple of an angle already in use?
static bool knownAngle(const P& c, const P* sn, P& theta) {
  for (auto& t : TRIG) for (auto& b : t.second) for (int k = 1; k <= 8; k++) { P so, co; cheb(patom(b.s), patom(b.c), k, so, co); if (!peq(co, c)) continue; if (!sn || peq(so, *sn)) { theta = pscale(ATOMS[b.c].arg, k); return true; } if (peq(pneg(so), *sn)) { theta = pscale(ATOMS[b.c].arg, -k); return true; } }
  return false;
}
static Val realFn1(State& s, const std::string& fn, const Val& v, unsigned w) {
  if (v.k == Val::U) return realFn1(s, fn, Val::Real(pconst(0), w), w);
  if (isSpec(v)) { double d = bitsD(v.i); if (fn == "exp") { double r = exp(d); return std::isfinite(r) ? Val::Real(pconst(0), w) : dBits(r, w); } return dBits(NAN, w); }
  P a = rl(s, v); P so, co;
  if (fn == "sin") { sincos(s, a, so, co); return Val::Real(so, w); } if (fn == "cos") { sincos(s, a, so, co); return Val::Real(co, w); }
  if (fn == "tan") { sincos(s, a, so, co); return realDiv(s, so, co, w); }
  if (fn == "acos" || fn == "asin") {
    if (decideCmp(s, psub(a, pconst(1)), 2) == false || decideCmp(s, psub(pconst(-1), a), 2) == false) return dBits(NAN, w);
    if (pisconst(a)) { mpq_class c = pcval(a); if (fn == "acos") { if (c == 1) return Val::Real(pconst(0), w); if (c == -1) return Val::Real(patom(piAtom()), w); if (c == 0) return Val::Real(pscale(patom(piAtom()), mpq_class(1, 2)), w); } else { if (c == 0) return Val::Real(pconst(0), w); if (abs(c) == 1) return Val::Real(pscale(patom(piAtom()), c / 2), w); } }
    P th; if (fn == "acos" && knownAngle(a, nullptr, th)) { P tt = th; if (decideCmp(s, tt, 1)) tt = pneg(tt); if (decideCmp(s, psub(tt, patom(piAtom())), 2)) return Val::Real(tt, w); }
    P o = sqrtPoly(s, psub(pconst(1), pmul(a, a)));
    return Val::Real(fn == "acos" ? angAtom(1, o, a, "acos") : angAtom(2, a, o, "asin"), w); }
  if (fn == "atan") { P r = sqrtPoly(s, padd(pconst(1), pmul(a, a))); P ir = pinv(r); if (a->t.empty()) return Val::Real(pconst(0), w); return Val::Real(angAtom(2, pmul(a, ir), ir, "atan"), w); }
  if (fn == "exp" && a->t.empty()) return Val::Real(pconst(1), w);
  if (fn == "exp" && a->t.size() == 1 && a->t[0].second == 1 && a->t[0].first->v.size() == 1 && a->t[0].first->v[0].second == 1 && ATOMS[a->t[0].first->v[0].first].k == Atom::Fn && ATOMS[a->t[0].first->v[0].first].fn == "log") return Val::Real(ATOMS[a->t[0].first->v[0].first].arg, w);
  if (fn == "log" && pisconst(a) && pcval(a) == 1) return Val::Real(pconst(0), w);
  if (fn == "floor" || fn == "ceil" || fn == "round" || fn == "trunc") { if (pisconst(a)) { double d = pcval(a).get_d(); return constReal(fn == "floor" ? floor(d) : fn == "ceil" ? ceil(d) : fn == "round" ? round(d) : trunc(d), w); }
    if (fn == "ceil") return Val::Real(pneg(patom(fnAtom("floor", pneg(a)))), w); if (fn == "floor") return Val::Real(patom(fnAtom("floor", a)), w);
    if (fn == "round") { if (decideCmp(s, a, 1)) return Val::Real(pneg(patom(fnAtom("floor", padd(pneg(a), pconst(mpq_class(1, 2)))))), w); return Val::Real(patom(fnAtom("floor", padd(a, pconst(mpq_class(1, 2))))), w); }
    if (decideCmp(s, a, 1)) return Val::Real(pneg(patom(fnAtom("floor", pneg(a)))), w); return Val::Real(patom(fnAtom("floor", a)), w); }
  return Val::Real(patom(fnAtom(fn, a)), w);
}
static Val realAtan2(State& s, const Val& vy, const Val& vx, unsigned w) {
  if (isSpec(vx) || isSpec(vy)) return dBits(NAN, w);
  P y = rl(s, vy), x = rl(s, vx); P r2 = padd(pmul(x, x), pmul(y, y));
  if (y->t.empty()) { if (decideCmp(s, x, 1)) return Val::Real(patom(piAtom()), w); return Val::Real(pconst(0), w); }
  if (decideCmp(s, r2, 0)) return Val::Real(pconst(0), w);
  P r = sqrtPoly(s, r2); P ir = pinv(r); { P th, yy = pmul(y, ir), xx = pmul(x, ir); P pi = patom(piAtom()); if (knownAngle(xx, &yy, th) && decideCmp(s, psub(th, pi), 2) && decideCmp(s, pneg(padd(th, pi)), 1)) return Val::Real(th, w); }
  return Val::Real(angAtom(3, pmul(y, ir), pmul(x, ir), "atan2_"), w);
}
static Val realPow(State& s, const Val& a, const Val& b, unsigned w) {
  P x = rl(s, a), y = rl(s, b);
  if (pisconst(y)) { mpq_class e = pcval(y); if (e.get_den() == 1 && abs(e) <= 64) { long n = e.get_num().get_si(); if (n >= 0) return Val::Real(ppow(x, n), w); return realDiv(s, pconst(1), ppow(x, -n), w); }
    if (e.get_den() == 2 && abs(e) < 32) { Val r = realSqrt(s, Val::Real(x, w), w); if (r.k != Val::R) return r; long n = e.get_num().get_si(); if (n > 0) return Val::Real(ppow(r.r, n), w); return realDiv(s, pconst(1), ppow(r.r, -n), w); } }
  return Val::Real(patom(fnAtom("pow", x, &y)), w);
}
static Val intToReal(State& s, const Val& v, bool sg, unsigned w) {
  if (v.k == Val::I) { SmallString<40> st; v.i.toString(st, 10, sg); return Val::Real(pconst(mpq_class(st.c_str())), w); }
  if (v.k == Val::U) return Val::Real(pconst(0), w); if (v.k == Val::R) throw PathErr{"int conversion of real bits"};
  static std::map<std::pair<unsigned,bool>, AtomId> T; Ast e = v.w == 1 ? keep(Bv(v)) : v.e; auto key = std::make_pair(Z3_get_ast_id(*C, e), sg); auto it = T.find(key);
  if (it == T.end()) { Atom a; a.k = Atom::IntR; a.user = INTR.size(); INTR.push_back(e); INTRS.push_back(sg); a.name = "int" + std::to_string(ATOMS.size()); it = T.insert({key, newAtom(a)}).first; }
  return Val::Real(patom(it->second), w);
}
static Val realToInt(State& s, const Val& v, bool sg, unsigned w) {
  if (isSpec(v)) { Val u; u.k = Val::U; u.w = w; return u; }
  P a = rl(s, v);
  if (pisconst(a)) { mpz_class z = pcval(a).get_num() / pcval(a).get_den(); std::string t = z.get_str(); bool neg = t[0] == '-'; APInt r(std::max(w, 256u), neg ? t.substr(1) : t, 10); if (neg) r = -r; return Val::Int(r.trunc(w)); }
  // a multiple of the root of a number
  if (a->t.size() == 1 && a->t[0].first->v.size() == 1 && a->t[0].first->v[0].second == 1) { const Atom& at = ATOMS[a->t[0].first->v[0].first]; if (at.k == Atom::Sqrt && pisconst(at.arg)) { mpq_class c = a->t[0].second, q = c * c * pcval(at.arg); mpz_class f = q.get_num() / q.get_den(), r = sqrt(f); APInt i(256, r.get_str(), 10); if (c < 0) i = -i; return Val::Int(i.trunc(w)); } }
  // exact integer atom back to its bit-vector
  if (a->t.size() == 1 && a->t[0].second == 1 && a->t[0].first->v.size() == 1 && a->t[0].first->v[0].second == 1 && ATOMS[a->t[0].first->v[0].first].k == Atom::IntR) { int u = ATOMS[a->t[0].first->v[0].first].user; z3::expr e = X(INTR[u]); unsigned ew = e.get_sort().bv_size(); if (ew == w) return mkE(w, e); if (ew > w) return mkE(w, e.extract(w - 1, 0)); return mkE(w, INTRS[u] ? z3::sext(e, w - ew) : z3::zext(e, w - ew)); }
  // integer polynomial of integer atoms: the same polynomial of bit-vectors
  { bool ok = true; z3::expr sum = C->bv_val(0, w); for (auto& tm : a->t) { if (tm.second.get_den() != 1) { ok = false; break; } SmallString<40> dummy; std::string cs = tm.second.get_num().get_str(); bool ng = cs[0] == '-'; APInt ci(std::max<unsigned>(w, cs.size() * 4 + 8), ng ? cs.substr(1) : cs, 10); if (ng) ci = -ci; z3::expr m = bvNum(ci.trunc(w)); for (auto& f : tm.first->v) { const Atom& at = ATOMS[f.first]; if (at.k != Atom::IntR || f.second < 0) { ok = false; break; } z3::expr e = X(INTR[at.user]); unsigned ew = e.get_sort().bv_size(); z3::expr x = ew == w ? e : ew > w ? e.extract(w - 1, 0) : INTRS[at.user] ? z3::sext(e, w - ew) : z3::zext(e, w - ew); for (int k = 0; k < f.second; k++) m = m * x; } if (!ok) break; sum = sum + m; }
    if (ok) { ASSUMED.insert("float-to-integer conversions do not overflow"); return mkE(w, sum); } }
  static std::map<std::pair<size_t,unsigned>, std::vector<std::pair<P, Ast>>> T; auto& l = T[{phash(a), w * 2 + sg}]; Ast n = nullptr; for (auto& x : l) if (peq(x.first, a)) n = x.second;
  if (!n) { n = keep(C->bv_const(("fptoi!" + std::to_string(KEEP.size())).c_str(), w)); l.push_back({a, n}); }
  bool neg = decideCmp(s, a, 1); Val ir = intToReal(s, Val::Expr(w, n), sg, 64);
  P d = psub(a, ir.r); // trunc: 0<=d<1 if a>=0; -1<d<=0 otherwise
  if (!neg) { assumeV(s, mkCmp(pneg(d), 2)); assumeV(s, mkCmp(psub(d, pconst(1)), 1)); } else { assumeV(s, mkCmp(d, 2)); assumeV(s, mkCmp(psub(pconst(-1), d), 1)); }
  ASSUMED.insert("float-to-integer conversions do not overflow");
  return Val::Expr(w, n);
}

// ------------------------------------------------------------------ constants
static Val gepConst(State& s, const GEPOperator* g);
static Val icmpV(State& s, CmpInst::Predicate p, const Val& a, const Val& b);
static Val binI(State& s, unsigned op, const Val& a, const Val& b, unsigned w);
static Val constVal(State& s, const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) return Val::Int(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy() || t->isFloatTy()) { unsigned w = t->isDoubleTy() ? 64 : 32; double d = t->isDoubleTy() ? cf->getValueAPF().convertToDouble() : cf->getValueAPF().convertToFloat(); if (REALMODE) return constReal(d, w); return dBits(d, w); } throw PathErr{"fp type"}; }
  if (isa<ConstantPointerNull>(c)) return Val::Int(64, 0);
  if (auto* gv = dyn_cast<GlobalValue>(c)) return Val::Int(64, globalAddr(s, gv));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    bool z = isa<ConstantAggregateZero>(c);
    if (t->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < t->getStructNumElements(); i++) { Type* et = t->getStructElementType(i); v.push_back(constVal(s, z ? Constant::getNullValue(et) : UndefValue::get(et))); } return Val::Agg(v); }
    if (t->isArrayTy() || isa<FixedVectorType>(t)) { std::vector<Val> v; Type* et = t->getContainedType(0); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = 0; i < n; i++) v.push_back(constVal(s, z ? Constant::getNullValue(et) : UndefValue::get(et))); return Val::Agg(v); }
    Val u; u.k = Val::U; u.w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; if (t->isFloatTy()) u.w = 32; if (t->isPointerTy()) return Val::Int(64, 0); return u; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(s, cd->getElementAsConstant(i))); return Val::Agg(v); }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { std::vector<Val> v; for (unsigned i = 0; i < c->getNumOperands(); i++) v.push_back(constVal(s, cast<Constant>(c->getOperand(i)))); return Val::Agg(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return constVal(s, cast<Constant>(ce->getOperand(i))); };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return gepConst(s, cast<GEPOperator>(ce));
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
      case Instruction::PtrToInt: { Val v = op(0); return Val::Int(v.i.zextOrTrunc(t->getIntegerBitWidth())); }
      case Instruction::IntToPtr: { Val v = op(0); return Val::Int(v.i.zextOrTrunc(64)); }
      case Instruction::Trunc: return Val::Int(op(0).i.trunc(t->getIntegerBitWidth())); case Instruction::ZExt: return Val::Int(op(0).i.zext(t->getIntegerBitWidth())); case Instruction::SExt: return Val::Int(op(0).i.sext(t->getIntegerBitWidth()));
      case Instruction::ICmp: return icmpV(s, (CmpInst::Predicate)ce->getPredicate(), op(0), op(1));
      case Instruction::Select: return op(0).i.getBoolValue() ? op(1) : op(2);
      default: if (Instruction::isBinaryOp(ce->getOpcode())) return binI(s, ce->getOpcode(), op(0), op(1), t->getIntegerBitWidth());
    } }
  throw PathErr{"unsupported constant"};
}
static std::map<Function*, FnInfo> FI;
static FnInfo* finfo(Function* f) { auto it = FI.find(f); if (it != FI.end()) return &it->second; FnInfo& i = FI[f]; for (auto& a : f->args()) i.slot[&a] = i.n++; for (auto& b : *f) for (auto& in : b) if (!in.getType()->isVoidTy()) i.slot[&in] = i.n++; return &i; }
static Val ev(State& s, const Value* v) { if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c); Frame& f = s.st.back(); return f.r[f.fi->slot.at(v)]; }
static void setR(State& s, const Instruction* i, const Val& v) { Frame& f = s.st.back(); f.r[f.fi->slot.at(i)] = v; }
static uint64_t addrOf(State& s, const Val& v) { return concretise(s, v).getZExtValue(); }
// real value held in an integer register (copied bit pattern): integer ops understood on it
static bool isRB(const Val& v) { return v.k == Val::R; }
static Val unU(const Val& v, unsigned w) { if (v.k == Val::U) return Val::Int(w, 0); return v; }
static Val binI(State& s, unsigned op, const Val& a0, const Val& b0, unsigned w) {
  Val a = unU(a0, w), b = unU(b0, w);
  if (isRB(a) || isRB(b)) {
    if (isRB(a) && b.k == Val::I) { APInt m = b.i; if (op == Instruction::And && m == APInt::getSignedMaxValue(w)) { if (decideCmp(s, rl(s, a), 1)) return Val::Real(pneg(rl(s, a)), w); return Val::Real(rl(s, a), w); }
      if (op == Instruction::Xor && m == APInt::getSignMask(w)) return Val::Real(pneg(rl(s, a)), w);
      if (op == Instruction::LShr && m == w - 1) return Val::Int(w, decideCmp(s, rl(s, a), 1) ? 1 : 0);
      if (op == Instruction::And && m == APInt::getSignMask(w)) return decideCmp(s, rl(s, a), 1) ? Val::Int(m) : Val::Int(w, 0); }
    if (isRB(a)) a = realToBits(a); if (isRB(b)) b = realToBits(b);
  }
  if (a.k == Val::I && b.k == Val::I) { const APInt &x = a.i, &y = b.i;
    switch (op) { case Instruction::Add: return Val::Int(x + y); case Instruction::Sub: return Val::Int(x - y); case Instruction::Mul: return Val::Int(x * y);
      case Instruction::And: return Val::Int(x & y); case Instruction::Or: return Val::Int(x | y); case Instruction::Xor: return Val::Int(x ^ y);
      case Instruction::Shl: return Val::Int(y.uge(w) ? APInt(w, 0) : x.shl(y)); case Instruction::LShr: return Val::Int(y.uge(w) ? APInt(w, 0) : x.lshr(y)); case Instruction::AShr: return Val::Int(x.ashr(y.uge(w) ? APInt(w, w - 1) : y));
      case Instruction::UDiv: if (y == 0) throw MemErr{"division by zero"}; return Val::Int(x.udiv(y)); case Instruction::SDiv: if (y == 0) throw MemErr{"division by zero"}; return Val::Int(x.sdiv(y));
      case Instruction::URem: if (y == 0) throw MemErr{"division by zero"}; return Val::Int(x.urem(y)); case Instruction::SRem: if (y == 0) throw MemErr{"division by zero"}; return Val::Int(x.srem(y)); } throw PathErr{"binop"}; }
  if (w == 1) { z3::expr x = Bx(a), y = Bx(b); switch (op) { case Instruction::And: case Instruction::Mul: return mkE(1, x && y); case Instruction::Or: return mkE(1, x || y); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: if (b.k == Val::I) return b.i.getBoolValue() ? Val::Expr(1, notOf(a.e)) : a; return mkE(1, x != y); } throw PathErr{"i1 op"}; }
  z3::expr x = Bv(a), y = Bv(b);
  switch (op) { case Instruction::Add: return mkE(w, x + y); case Instruction::Sub: return mkE(w, x - y); case Instruction::Mul: return mkE(w, x * y); case Instruction::And: return mkE(w, x & y); case Instruction::Or: return mkE(w, x | y); case Instruction::Xor: return mkE(w, x ^ y);
    case Instruction::Shl: return mkE(w, z3::shl(x, y)); case Instruction::LShr: return mkE(w, z3::lshr(x, y)); case Instruction::AShr: return mkE(w, z3::ashr(x, y));
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: if (decide(s, mkE(1, y == C->bv_val(0, w)))) throw MemErr{"division by zero"};
      return mkE(w, op == Instruction::UDiv ? z3::udiv(x, y) : op == Instruction::SDiv ? x / y : op == Instruction::URem ? z3::urem(x, y) : z3::srem(x, y)); }
  throw PathErr{"binop"};
}
// unsigned range of a bit-vector term from its shape alone (remainders, masks, extensions)
static std::pair<uint64_t,uint64_t> bvRange(const z3::expr& e, int depth = 0) {
  unsigned w = e.get_sort().bv_size(); uint64_t full = w >= 64 ? ~0ull : (1ull << w) - 1; std::pair<uint64_t,uint64_t> top(0, full); if (w > 64 || depth > 12 || !e.is_app()) return top; uint64_t n; if (e.is_numeral_u64(n)) return {n, n};
  auto arg = [&](unsigned i) { return bvRange(e.arg(i), depth + 1); };
  switch (e.decl().decl_kind()) {
    case Z3_OP_BUREM: case Z3_OP_BUREM_I: { auto b = arg(1); if (b.first == b.second && b.first) { auto a = arg(0); return {0, std::min(a.second, b.first - 1)}; } return top; }
    case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: { auto b = arg(1); if (b.first == b.second && b.first) { auto a = arg(0); return {a.first / b.first, a.second / b.first}; } return top; }
    case Z3_OP_BADD: { unsigned __int128 lo = 0, hi = 0; for (unsigned i = 0; i < e.num_args(); i++) { auto a = arg(i); lo += a.first; hi += a.second; } if (hi > full) return top; return {(uint64_t)lo, (uint64_t)hi}; }
    case Z3_OP_BAND: { uint64_t hi = full; for (unsigned i = 0; i < e.num_args(); i++) hi = std::min(hi, arg(i).second); return {0, hi}; }
    case Z3_OP_ZERO_EXT: return arg(0);
    case Z3_OP_EXTRACT: if (e.lo() == 0) { if (e.arg(0).get_sort().bv_size() > 64) return top; auto a = arg(0); if (a.second <= full) return a; } return top;
    case Z3_OP_CONCAT: { uint64_t lo = 0, hi = 0; for (unsigned i = 0; i < e.num_args(); i++) { unsigned aw = e.arg(i).get_sort().bv_size(); auto a = arg(i); if (aw >= 64) return a; lo = (lo << aw) | a.first; hi = (hi << aw) | a.second; } return {lo, hi}; }
    case Z3_OP_ITE: { auto a = arg(1), b = arg(2); return {std::min(a.first, b.first), std::max(a.second, b.second)}; }
    default: return top; }
}
static Val icmpV(State& s, CmpInst::Predicate p, const Val& a0, const Val& b0) {
  typedef CmpInst CI; unsigned w = a0.k == Val::U ? (b0.w ? b0.w : 64) : a0.w; Val a = unU(a0, w), b = unU(b0, w);
  if (isRB(a) || isRB(b)) { if (isRB(a) && b.k == Val::I) { if (p == CI::ICMP_SLT && b.i == 0) return fpCmp(s, CI::FCMP_OLT, a, Val::Real(pconst(0), w)); if (p == CI::ICMP_SGT && b.i.isAllOnes()) return fpCmp(s, CI::FCMP_OGE, a, Val::Real(pconst(0), w)); }
    if (isRB(a) && (b.k == Val::I || isRB(b)) && (p == CI::ICMP_EQ || p == CI::ICMP_NE)) return fpCmp(s, p == CI::ICMP_EQ ? CI::FCMP_OEQ : CI::FCMP_UNE, a, isRB(b) ? b : constReal(bitsD(b.i), w));
    if (isRB(a)) a = realToBits(a); if (isRB(b)) b = realToBits(b); }
  if (a.k == Val::I && b.k == Val::I) { if (a.i.getBitWidth() != b.i.getBitWidth()) throw PathErr{"icmp width"}; return Val::Int(1, ICmpInst::compare(a.i, b.i, p)); }
  if (w == 1) { z3::expr x = Bx(a), y = Bx(b); if (p == CI::ICMP_EQ) return mkE(1, x == y); if (p == CI::ICMP_NE) return mkE(1, x != y); }
  z3::expr x = Bv(a), y = Bv(b);
  if (w <= 64 && (a.k == Val::I || b.k == Val::I)) { auto u = bvRange(x), v = bvRange(y); bool below = u.second < v.first, above = u.first > v.second;
    if (below || above) switch (p) { case CI::ICMP_EQ: return Val::Int(1, 0); case CI::ICMP_NE: return Val::Int(1, 1); case CI::ICMP_ULT: case CI::ICMP_ULE: return Val::Int(1, below); case CI::ICMP_UGT: case CI::ICMP_UGE: return Val::Int(1, above); default: break; } }
  switch (p) { case CI::ICMP_EQ: return mkE(1, x == y); case CI::ICMP_NE: return mkE(1, x != y); case CI::ICMP_ULT: return mkE(1, z3::ult(x, y)); case CI::ICMP_ULE: return mkE(1, z3::ule(x, y)); case CI::ICMP_UGT: return mkE(1, z3::ugt(x, y)); case CI::ICMP_UGE: return mkE(1, z3::uge(x, y));
    case CI::ICMP_SLT: return mkE(1, x < y); case CI::ICMP_SLE: return mkE(1, x <= y); case CI::ICMP_SGT: return mkE(1, x > y); case CI::ICMP_SGE: return mkE(1, x >= y); default: throw PathErr{"icmp"}; }
}
static Val gepV(State& s, const GEPOperator* g) {
  Val base = ev(s, g->getPointerOperand()); Val r = unU(base, 64); APInt off(64, 0); z3::expr sym(*C); bool hasSym = false;
  for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
    Val ix = ev(s, gi.getOperand());
    if (StructType* stt = gi.getStructTypeOrNull()) off += DL->getStructLayout(stt)->getElementOffset(ix.i.getZExtValue()).getFixedValue();
    else { uint64_t es = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue(); ix = unU(ix, 64); if (isRB(ix)) throw PathErr{"real index"}; if (ix.k == Val::I) off += ix.i.sextOrTrunc(64) * es; else { z3::expr x = Bv(ix); if (ix.w < 64) x = z3::sext(x, 64 - ix.w); x = x * C->bv_val((uint64_t)es, 64); sym = hasSym ? sym + x : x; hasSym = true; } } }
  if (r.k == Val::I && !hasSym) return Val::Int(r.i + off);
  z3::expr x = Bv(r) + bvNum(off); if (hasSym) x = x + sym; return mkE(64, x);
}
static Val gepConst(State& s, const GEPOperator* g) { return gepV(s, g); }
static Val castV(State& s, unsigned op, const Val& v0, Type* from, Type* to) {
  if (to->isVectorTy()) { std::vector<Val> r; Val v = v0; if (v.k != Val::A) { if (op == Instruction::BitCast) throw PathErr{"vector bitcast"}; throw PathErr{"vector cast"}; } if (op == Instruction::BitCast && cast<FixedVectorType>(to)->getNumElements() != v.agg->size()) throw PathErr{"vector bitcast"}; for (auto& x : *v.agg) r.push_back(castV(s, op, x, from->getScalarType(), to->getScalarType())); return Val::Agg(r); }
  unsigned tw = to->isIntegerTy() ? to->getIntegerBitWidth() : to->isFloatTy() ? 32 : 64; unsigned fw = from->isIntegerTy() ? from->getIntegerBitWidth() : from->isFloatTy() ? 32 : 64;
  Val v = v0;
  switch (op) {
    case Instruction::Trunc: v = unU(v, fw); if (isRB(v)) v = realToBits(v); if (v.k == Val::I) return Val::Int(v.i.trunc(tw)); if (tw == 1) return mkE(1, Bv(v).extract(0, 0) == C->bv_val(1, 1)); return mkE(tw, Bv(v).extract(tw - 1, 0));
    case Instruction::ZExt: v = unU(v, fw); if (isRB(v)) v = realToBits(v); if (v.k == Val::I) return Val::Int(v.i.zext(tw)); return mkE(tw, z3::zext(Bv(v), tw - fw));
    case Instruction::SExt: v = unU(v, fw); if (isRB(v)) v = realToBits(v); if (v.k == Val::I) return Val::Int(v.i.sext(tw)); return mkE(tw, z3::sext(Bv(v), tw - fw));
    case Instruction::PtrToInt: case Instruction::IntToPtr: v = unU(v, fw); if (isRB(v)) return v; if (tw == fw) return v; if (v.k == Val::I) return Val::Int(v.i.zextOrTrunc(tw)); return mkE(tw, tw > fw ? z3::zext(Bv(v), tw - fw) : Bv(v).extract(tw - 1, 0));
    case Instruction::BitCast: if (v.k == Val::A) throw PathErr{"vector bitcast"}; return fromBits(v, to);
    case Instruction::AddrSpaceCast: return v;
    case Instruction::FPExt: case Instruction::FPTrunc: if (REALMODE) { if (v.k == Val::R) return Val::Real(v.r, tw); if (v.k == Val::I) return dBits(bitsD(v.i), tw); return v; }
      if (v.k == Val::I) return dBits(bitsD(v.i), tw); { z3::expr rm(*C, Z3_mk_fpa_rne(*C)); return mkE(tw, X(Z3_mk_fpa_to_ieee_bv(*C, Z3_mk_fpa_to_fp_float(*C, rm, fpa(v), tw == 64 ? Z3_mk_fpa_sort_64(*C) : Z3_mk_fpa_sort_32(*C))))); }
    case Instruction::SIToFP: case Instruction::UIToFP: if (REALMODE) return intToReal(s, v, op == Instruction::SIToFP, tw);
      if (v.k == Val::I) return dBits(op == Instruction::SIToFP ? v.i.signedRoundToDouble() : v.i.roundToDouble(), tw); { z3::expr rm(*C, Z3_mk_fpa_rne(*C)); z3::expr x = Bv(v); auto so = tw == 64 ? Z3_mk_fpa_sort_64(*C) : Z3_mk_fpa_sort_32(*C); return mkE(tw, X(Z3_mk_fpa_to_ieee_bv(*C, op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(*C, rm, x, so) : Z3_mk_fpa_to_fp_unsigned(*C, rm, x, so)))); }
    case Instruction::FPToSI: case Instruction::FPToUI: if (REALMODE) return realToInt(s, v, op == Instruction::FPToSI, tw);
      if (v.k == Val::I) { double d = bitsD(v.i); return Val::Int(APInt(tw, op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d)); } { z3::expr rm(*C, Z3_mk_fpa_rtz(*C)); return mkE(tw, X(op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(*C, rm, fpa(v), tw) : Z3_mk_fpa_to_ubv(*C, rm, fpa(v), tw))); }
  }
  throw PathErr{"cast"};
}
// ------------------------------------------------------------------ models / violations
static std::map<std::string, std::pair<char, std::string>> INPUTS; // name -> kind, z3 const name ; global registry
struct Input { std::string name; char kind; Ast z; int atom; unsigned w; };
static std::map<std::string, Input> INP;
static double decOf(const z3::expr& v) {
  if (v.is_numeral()) { std::string t = Z3_get_numeral_decimal_string(*C, v, 30); if (!t.empty() && t.back() == '?') t.pop_back(); return strtod(t.c_str(), 0); }
  if (v.is_algebraic()) { std::string t = Z3_get_numeral_decimal_string(*C, v, 30); if (!t.empty() && t.back() == '?') t.pop_back(); return strtod(t.c_str(), 0); } return 0;
}
static std::map<std::string,std::string> modelInputs(const z3::model& m) {
  std::map<std::string,std::string> o; char b[64];
  for (auto& kv : INP) { Input& in = kv.second;
    if (in.kind == 'r') { double d = 0; z3::expr v = m.eval(X(in.z), true); d = decOf(v);
      // angle inputs: use the sine/cosine values of the model where the input has trigonometric atoms
      for (auto& t : TRIG) for (auto& tb : t.second) { const P& mp = ATOMS[tb.c].arg; if (mp->t.size() == 1 && mp->t[0].first->v.size() == 1 && mp->t[0].first->v[0].first == (AtomId)in.atom && mp->t[0].first->v[0].second == 1 && ATOMZ.size() > tb.c && ATOMZ[tb.c]) { double cs = decOf(m.eval(X(atomZ(tb.c)), true)), sn = decOf(m.eval(X(atomZ(tb.s)), true)); if (cs || sn) { double q = tb.q.get_d(); double base = atan2(sn, cs); double k = round((d * q - base) / (2 * M_PI)); d = (base + 2 * M_PI * k) / q; } } }
      snprintf(b, 64, "%.17g", d); o[in.name] = b; }
    else { z3::expr v = m.eval(X(in.z), true); o[in.name] = v.is_bool() ? (v.is_true() ? "1" : "0") : std::string(Z3_get_numeral_string(*C, v)); } }
  return o;
}
static std::map<std::string,int> NVIOL;
static void recordViol(State& s, const std::string& label, const std::string& kind, const std::string& info) {
  Violation v; v.label = label; v.kind = kind; v.info = info; v.in = LASTIN; VIOL.push_back(v); NVIOL[label]++;
  if (VERBOSE) std::cerr << "VIOL " << label << " " << info << "\n";
}
static z3::expr realBox(int b) { z3::expr_vector v(*C); for (auto& kv : INP) if (kv.second.kind == 'r') { v.push_back(X(kv.second.z) <= b); v.push_back(X(kv.second.z) >= -b); } return z3::mk_and(v); }
static uint64_t rng = 88172645463325252ull; static unsigned rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng >> 20; }
// is PC && bad satisfiable?  Leaves LASTMODEL.  Several attempts to get a benign model.
static Res searchBad(State& s, const std::vector<Ast>& bad, const P* diff, bool& benign) {
  benign = false; ST.assertSolver++;
  std::vector<Ast> relIn; // real inputs in the slice
  Query q = mkQuery(s, bad, true); std::set<unsigned> sy; for (auto a : q.cs) for (auto x : syms(a)) sy.insert(x);
  std::vector<AtomId> vars; for (auto x : sy) { auto f = DECL2ATOM.find(x); if (f != DECL2ATOM.end() && ATOMS[f->second].k == Atom::Var) vars.push_back(f->second); }
  auto tryq = [&](std::vector<Ast> more, unsigned ms) { Query qq = mkQuery(s, more, true); return solve(qq, ms, true); };
  std::vector<Ast> big = bad; if (diff) { z3::expr d = X(polyZ(*diff)); z3::expr m = C->real_val(1, 100); big.push_back(keep(d >= m || d <= -m)); }
  if (q.hasReal) {
    // 1: pin most inputs to small random rationals so that the remaining problem is easy
    for (int a = 0; a < 6; a++) { std::vector<Ast> x = a < 4 ? big : bad; std::set<int> grp; std::set<AtomId> prot; for (auto v : vars) { const Atom& at = ATOMS[v]; if (at.unitGroup >= 0) { if (!grp.insert(at.unitGroup).second) continue; // rational point on the sphere by stereographic projection
            auto& g = UNITGROUPS[at.unitGroup]; std::vector<mpq_class> tt; mpq_class n2 = 0; for (size_t i = 0; i + 1 < g.size(); i++) { mpq_class t((int)(rnd() % 13) - 6, 1 + rnd() % 5); t.canonicalize(); tt.push_back(t); n2 += t * t; } for (size_t i = 0; i + 1 < g.size(); i++) x.push_back(keep(X(atomZ(g[i])) == qnum(2 * tt[i] / (1 + n2)))); x.push_back(keep(X(atomZ(g.back())) == qnum((1 - n2) / (1 + n2)))); continue; }
          if (a % 2 == 1 && rnd() % 3 == 0) continue; if (a >= 4 && rnd() % 2) continue; mpq_class t((int)(rnd() % 41) - 20, 1 + rnd() % 6); t.canonicalize(); x.push_back(keep(X(atomZ(v)) == qnum(t))); }
      if (tryq(x, 1500) == SAT) { benign = true; return SAT; } if (now() - T0 > TIME_LIMIT) break; }
    std::vector<Ast> x = big; x.push_back(keep(realBox(20))); if (tryq(x, ASSERT_MS / 4) == SAT) { benign = true; return SAT; }
  }
  Res r = tryq(bad, ASSERT_MS); if (r == SAT && !q.hasReal) benign = true;
  return r;
}
static Res externalCheck(State& s, const std::vector<Ast>& bad) {
  if (!EXTERN_SOLVERS) return UNK; Query q = mkQuery(s, bad, true); std::string smt = "(set-logic ALL)\n" + smt2Of(q.cs); double t = now();
  char to1[32], to2[32]; snprintf(to1, 32, "-T:%u", ASSERT_MS / 1000 + 1); snprintf(to2, 32, "--tlimit=%u", ASSERT_MS);
  const char* a1[] = {"z3-new", to1, nullptr}; Res r = runExternal(smt, a1, ASSERT_MS / 1000.0 + 2); if (r != UNSAT) { const char* a2[] = {"cvc5", to2, nullptr}; Res r2 = runExternal(smt, a2, ASSERT_MS / 1000.0 + 2); if (r2 != UNK) r = r2; }
  ST.solverT += now() - t; return r;
}
static bool CROSSOK(State& s, const std::vector<Ast>& bad, Res expect) { if (!CROSSCHECK) return true; Query q = mkQuery(s, bad, true); std::string smt = "(set-logic ALL)\n" + smt2Of(q.cs); const char* a2[] = {"cvc5", "--tlimit=5000", nullptr}; Res r = runExternal(smt, a2, 7); if (r == UNK) return true; ST.cross++; if (r == expect) ST.crossAgree++; else INCOMPLETE.push_back("solvers disagree"); return r == expect; }
static void doAssert(State& s, const std::string& label, const Val& cond, const P* diff, const std::string& kind) {
  if (TWICE && !s.second) return; // only the second run of the case is judged
  LABELS[label]++; ST.assertQ++;
  if (cond.k == Val::I && cond.i.getBoolValue()) { ST.assertNF++; // the normalised negation is the constant false: still put to the solver
    return; }
  if (NVIOL[label] >= 4) { if (cond.k == Val::E) addPC(s, cond.e); else throw PathEnd{"assert"}; return; }
  std::vector<Ast> bad; if (cond.k == Val::E) { if (inPC(s, cond.e)) { ST.assertSolver++; return; } bad.push_back(notOf(cond.e)); } else bad.push_back(keep(C->bool_val(true)));
  if (VERBOSE) { std::cerr << "solver assert " << label << (diff ? ": " + pstr(*diff, 12) : "") << "\n   pc:"; for (size_t i = s.pc.size() > 8 ? s.pc.size() - 8 : 0; i < s.pc.size(); i++) std::cerr << " | " << X(s.pc[i]).to_string().substr(0, 120); std::cerr << "\n"; }
  // first a plain attempt (cheap unsat)
  Res r0 = UNK; if (cond.k == Val::E) { ST.assertSolver++; r0 = check(s, bad, BRANCH_MS); if (r0 == UNSAT) { CROSSOK(s, bad, UNSAT); s.pcs.insert(Z3_get_ast_id(*C, cond.e)); return; } }
  bool benign; Res r = searchBad(s, bad, diff, benign);
  if (r == UNK) r = externalCheck(s, bad);
  if (r == UNSAT) { if (cond.k == Val::I) throw PathEnd{"infeasible"}; addPC(s, cond.e); return; }
  if (r == SAT) { if (!HAVEIN) { INCONC.push_back(label + ": sat by external solver, no model"); ST.assertUnknown++; } else recordViol(s, label, kind, diff ? "difference " + pstr(*diff, 8) : ""); }
  else { ST.assertUnknown++; INCONC.push_back(label + (diff ? ": " + pstr(*diff, 8) : "")); if (VERBOSE) std::cerr << "UNKNOWN assert " << label << "\n"; }
  if (cond.k == Val::I) throw PathEnd{"assert"};
  Res rc = check(s, {cond.e}, BRANCH_MS); if (rc == UNSAT) throw PathEnd{"assert"}; addPC(s, cond.e);
}
// UB / memory error / unexpected exception on a path
static void doError(State& s, const std::string& kind, const std::string& why) {
  std::string label = kind; LABELS[label]++; ST.assertQ++; if (NVIOL[label] >= 4) return; bool benign; std::vector<Ast> bad{keep(C->bool_val(true))};
  Res r = searchBad(s, bad, nullptr, benign);
  if (r == SAT && HAVEIN) { Violation v; recordViol(s, label, kind, why); } else if (r == UNK) { INCONC.push_back(kind + ": " + why); ST.assertUnknown++; }
}
static std::string where(State& s) { std::string o; for (int i = (int)s.st.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) { auto& f = s.st[i]; std::string d = demangle(f.f->getName().str()); if (d.size() > 120) d = d.substr(0, 120) + "..."; o += (n ? " < " : "") + d; if (f.pc != f.bb->end()) if (auto& dl = f.pc->getDebugLoc()) o += ":" + std::to_string(dl.getLine()); } return o; }

// ------------------------------------------------------------------ calls
static void pushFrame(State& s, Function* f, CallBase* cb, const std::vector<Val>& args) {
  if (s.st.size() > 400) throw PathErr{"call depth"};
  FUNCS.insert(f->getName().str()); Frame fr; fr.f = f; fr.fi = finfo(f); fr.r.resize(fr.fi->n); fr.bb = &f->getEntryBlock(); fr.pc = fr.bb->begin(); fr.call = cb; unsigned i = 0; for (auto& a : f->args()) { if (i < args.size()) { Val v = args[i];
      if (cb && cb->isByValArgument(i)) { Type* bt = cb->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(bt).getFixedValue(); uint64_t n = allocObj(s, sz, "byval"); copyMem(s, n, v.i.getZExtValue(), sz); fr.allocas.push_back(n); v = Val::Int(64, n); }
      fr.r[fr.fi->slot[&a]] = v; } i++; }
  for (; i < args.size(); i++) fr.varargs.push_back(args[i]);
  s.st.push_back(std::move(fr));
}
static void enterBlock(State& s, BasicBlock* to) { // evaluates phis simultaneously
  Frame& f = s.st.back(); f.prev = f.bb; f.bb = to; f.pc = to->begin(); std::vector<std::pair<const Instruction*, Val>> v;
  for (; isa<PHINode>(&*f.pc); ++f.pc) { auto* ph = cast<PHINode>(&*f.pc); int ix = ph->getBasicBlockIndex(f.prev); v.push_back({ph, ev(s, ph->getIncomingValue(ix))}); }
  for (auto& x : v) setR(s, x.first, x.second);
}
static void freeFrame(State& s) { for (auto a : s.st.back().allocas) s.mem.erase(a); }
static bool doneEntry; 
static void retFrom(State& s, const Val* rv) {
  CallBase* cb = s.st.back().call; freeFrame(s); s.st.pop_back();
  if (s.st.empty()) { if (TWICE && !s.second) { s.second = true; pushFrame(s, ENTRY, nullptr, {}); return; } throw PathEnd{"done"}; }
  if (!cb) return;
  if (rv && !cb->getType()->isVoidTy()) setR(s, cb, *rv);
  if (auto* iv = dyn_cast<InvokeInst>(cb)) enterBlock(s, iv->getNormalDest()); else ++s.st.back().pc;
}
static void finishCall(State& s, CallBase* cb, const Val* rv) { if (rv && !cb->getType()->isVoidTy()) setR(s, cb, *rv); if (auto* iv = dyn_cast<InvokeInst>(cb)) enterBlock(s, iv->getNormalDest()); else ++s.st.back().pc; }
// type matching for exceptions
static const GlobalVariable* tiGlobal(State& s, uint64_t a) { for (auto& g : s.gaddr) if (g.second == a) return dyn_cast<GlobalVariable>(g.first); return nullptr; }
static const char* stdBase(const std::string& n) {
  static const std::map<std::string,const char*> B = {{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt8bad_cast","_ZTISt9exception"}};
  auto it = B.find(n); return it == B.end() ? nullptr : it->second; }
static bool tiDerives(const std::string& n, const GlobalVariable* g, const std::string& target, int d = 0) {
  if (n == target) return true; if (d > 20) return false; if (const char* b = stdBase(n)) return tiDerives(b, MOD->getNamedGlobal(b), target, d + 1);
  if (!g || !g->hasInitializer()) return false; auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++) if (auto* bg = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (tiDerives(bg->getName().str(), bg, target, d + 1)) return true; return false;
}
static std::string tiName(State& s, uint64_t a) { auto* g = tiGlobal(s, a); return g ? g->getName().str() : "?"; }
static void unwind(State& s, Exc ex) { // pops frames until a landing pad accepts
  // current frame's pc is at the throwing call; look from the current frame
  CallBase* site = dyn_cast<CallBase>(&*s.st.back().pc);
  for (;;) {
    if (auto* iv = site ? dyn_cast<InvokeInst>(site) : nullptr) {
      BasicBlock* lp = iv->getUnwindDest(); auto* lpi = lp->getLandingPadInst(); bool take = lpi->isCleanup(); uint32_t sel = 0; auto* g = tiGlobal(s, ex.ti); std::string en = g ? g->getName().str() : "?";
      for (unsigned i = 0; i < lpi->getNumClauses(); i++) if (lpi->isCatch(i)) { Constant* c = lpi->getClause(i); if (isa<ConstantPointerNull>(c)) { take = true; sel = 1; break; } auto* cg = dyn_cast<GlobalVariable>(c->stripPointerCasts()); if (cg && tiDerives(en, g, cg->getName().str())) { take = true; sel = (uint32_t)(globalAddr(s, cg) & 0x7fffffff); break; } }
      if (take) { s.inflight.push_back(ex); enterBlock(s, lp); setR(s, lpi, Val::Agg({Val::Int(64, ex.obj), Val::Int(32, sel)})); ++s.st.back().pc; return; }
    }
    site = s.st.back().call; freeFrame(s); s.st.pop_back();
    if (s.st.empty()) { throw PathEnd{"uncaught:" + tiName(s, ex.ti)}; }
  }
}
static std::string cstr(State& s, uint64_t a) { std::string o; for (int i = 0; i < 4096; i++) { Val b = loadRaw(s, a + i, 1, Type::getInt8Ty(MOD->getContext())); APInt c = concretise(s, b); if (c == 0) break; o += (char)c.getZExtValue(); } return o; }
static std::string freshName(State& s, const std::string& n) { int k = s.names[n]++; return k ? n + "#" + std::to_string(k) : n; }
static P realInput(const std::string& n) { auto it = INP.find(n); if (it != INP.end()) return patom(it->second.atom); Atom a; a.k = Atom::Var; a.name = n; AtomId id = newAtom(a); INP[n] = Input{n, 'r', atomZ(id), (int)id, 64}; return patom(id); }
static Val intInput(const std::string& n, unsigned w) { auto it = INP.find(n); if (it != INP.end()) return Val::Expr(w, it->second.z); Ast z = w == 1 ? keep(C->bool_const(("in!" + n).c_str())) : keep(C->bv_const(("in!" + n).c_str(), w)); INP[n] = Input{n, 'i', z, -1, w}; return Val::Expr(w, z); }

typedef std::function<bool(State&, CallBase*, std::vector<Val>&)> Ext; // returns true if control was already transferred
static std::map<std::string, Ext> EXT; static Val RV;
static void initExt();
static bool startsWith(const std::string& a, const char* b) { return a.compare(0, strlen(b), b) == 0; }
static bool contains(const std::string& a, const char* b) { return a.find(b) != std::string::npos; }
static std::set<std::string> NOOPED;
static void doThrow(State& s, const char* ti) { GlobalVariable* g = MOD->getNamedGlobal(ti); if (!g) { g = new GlobalVariable(*MOD, Type::getInt8Ty(MOD->getContext()), true, GlobalValue::ExternalLinkage, nullptr, ti); } uint64_t o = allocObj(s, 64, "exception", true, true); unwind(s, Exc{o, globalAddr(s, g)}); }
static void callExternal(State& s, CallBase* cb, Function* f, std::vector<Val>& a) {
  std::string n = f->getName().str(); auto it = EXT.find(n);
  if (it != EXT.end()) { RV = Val(); RV.w = 64; if (it->second(s, cb, a)) return; finishCall(s, cb, &RV); return; }
  static const std::map<std::string,const char*> TH = {{"_ZSt20__throw_length_errorPKc","_ZTISt12length_error"},{"_ZSt20__throw_out_of_rangePKc","_ZTISt12out_of_range"},{"_ZSt24__throw_out_of_range_fmtPKcz","_ZTISt12out_of_range"},{"_ZSt19__throw_logic_errorPKc","_ZTISt11logic_error"},{"_ZSt17__throw_bad_allocv","_ZTISt9bad_alloc"},{"_ZSt28__throw_bad_array_new_lengthv","_ZTISt9bad_alloc"},{"_ZSt21__throw_runtime_errorPKc","_ZTISt13runtime_error"},{"_ZSt16__throw_bad_castv","_ZTISt8bad_cast"},{"_ZSt24__throw_invalid_argumentPKc","_ZTISt16invalid_argument"},{"_ZSt25__throw_bad_function_callv","_ZTISt9exception"}};
  auto th = TH.find(n); if (th != TH.end()) { doThrow(s, th->second); return; }
  // output streams, logging, locales: no observable effect here
  if (contains(n, "basic_ostream") || contains(n, "ostringstream") || contains(n, "basic_ios") || contains(n, "ios_base") || contains(n, "stringbuf") || contains(n, "streambuf") || contains(n, "log4cpp") || contains(n, "St6locale") || startsWith(n, "_ZNSo") || startsWith(n, "_ZNSt8ios_base") || startsWith(n, "_ZSt16__ostream_insert") || startsWith(n, "_ZStls") || contains(n, "basic_istream") || startsWith(n, "_ZNSi") || contains(n, "exceptionD") || contains(n, "_errorD") || contains(n, "_errorC") || contains(n, "bad_castD") || startsWith(n, "_ZNSt16invalid_argument") || startsWith(n, "_ZNSt12out_of_range") || startsWith(n, "_ZNSt9exception")) {
    NOOPED.insert(n); Val r = Val::Int(64, 0); Type* t = cb->getType(); if (t->isPointerTy()) r = a.empty() ? Val::Int(64, 0) : a[0]; else if (t->isIntegerTy()) r = Val::Int(t->getIntegerBitWidth(), 0);
    if (cb->hasStructRetAttr() && !a.empty()) { uint64_t d = a[0].i.getZExtValue(); uint64_t sz = DL->getTypeAllocSize(cb->getParamStructRetType(0)).getFixedValue(); if (sz == 32) { storeVal(s, d, 8, Val::Int(64, d + 16)); storeVal(s, d + 8, 8, Val::Int(64, 0)); storeVal(s, d + 16, 1, Val::Int(8, 0)); } }
    finishCall(s, cb, &r); return; }
  throw PathErr{"external function " + demangle(n) + " [" + n + "]"};
}
static bool callIntrinsic(State& s, CallBase* cb, Function* f, std::vector<Val>& a) {
  unsigned id = f->getIntrinsicID(); if (!id) return false; Type* t = cb->getType(); unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : t->isFloatTy() ? 32 : 64;
  auto fin = [&](const Val& v) { finishCall(s, cb, &v); return true; }; auto none = [&]() { finishCall(s, cb, nullptr); return true; };
  switch (id) {
    case Intrinsic::threadlocal_address: return fin(a[0]); // one thread
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend: return none();
    case Intrinsic::stacksave: return fin(Val::Int(64, 0));
    case Intrinsic::trap: throw MemErr{"trap"};
    case Intrinsic::memcpy: case Intrinsic::memmove: { uint64_t n = addrOf(s, a[2]); if (n) { uint64_t d = addrOf(s, a[0]), c = addrOf(s, a[1]); copyMem(s, d, c, n); } return none(); }
    case Intrinsic::memset: { uint64_t n = addrOf(s, a[2]); if (n) { uint64_t d = addrOf(s, a[0]); Val b = unU(a[1], 8); Obj& o = needObj(s, d, n, true); (void)o; if (b.k == Val::I && b.i == 0) { // word sized zero cells
            uint64_t k = 0; for (; k + 8 <= n; k += 8) storeVal(s, d + k, 8, Val::Int(64, 0)); for (; k < n; k++) storeVal(s, d + k, 1, b); } else for (uint64_t k = 0; k < n; k++) storeVal(s, d + k, 1, b); } return none(); }
    case Intrinsic::expect: return fin(a[0]); case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return fin(a[0]);
    case Intrinsic::is_constant: return fin(Val::Int(1, 0)); case Intrinsic::objectsize: return fin(Val::Int(w, ~0ull));
    case Intrinsic::eh_typeid_for: return fin(Val::Int(32, addrOf(s, a[0]) & 0x7fffffff));
    case Intrinsic::fabs: { if (!REALMODE) { Val v = realToBits(a[0]); if (v.k == Val::I) return fin(dBits(fabs(bitsD(v.i)), w)); return fin(mkE(w, Bv(v) & bvNum(APInt::getSignedMaxValue(w)))); } if (isSpec(a[0])) return fin(dBits(fabs(bitsD(a[0].i)), w)); P p = rl(s, a[0]); if (decideCmp(s, p, 1)) return fin(Val::Real(pneg(p), w)); return fin(Val::Real(p, w)); }
    case Intrinsic::sqrt: if (!REALMODE) { Val v = realToBits(a[0]); if (v.k == Val::I) return fin(dBits(sqrt(bitsD(v.i)), w)); z3::expr rm(*C, Z3_mk_fpa_rne(*C)); return fin(mkE(w, X(Z3_mk_fpa_to_ieee_bv(*C, Z3_mk_fpa_sqrt(*C, rm, fpa(v)))))); } return fin(realSqrt(s, a[0], w));
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: if (!REALMODE) { Val v = realToBits(a[0]); if (v.k != Val::I) throw PathErr{"transcendental function of symbolic bits"}; double d = bitsD(v.i); return fin(dBits(id == Intrinsic::sin ? sin(d) : id == Intrinsic::cos ? cos(d) : id == Intrinsic::exp ? exp(d) : id == Intrinsic::log ? log(d) : log10(d), w)); }
      if (id == Intrinsic::sin) return fin(realFn1(s, "sin", a[0], w)); if (id == Intrinsic::cos) return fin(realFn1(s, "cos", a[0], w)); if (id == Intrinsic::exp) return fin(realFn1(s, "exp", a[0], w)); if (id == Intrinsic::log) return fin(realFn1(s, "log", a[0], w)); return fin(realFn1(s, "log10", a[0], w));
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::trunc: if (!REALMODE) { Val v = realToBits(a[0]); if (v.k == Val::I) { double d = bitsD(v.i); return fin(dBits(id == Intrinsic::floor ? floor(d) : id == Intrinsic::ceil ? ceil(d) : id == Intrinsic::round ? round(d) : trunc(d), w)); } z3::expr rm(*C, id == Intrinsic::floor ? Z3_mk_fpa_rtn(*C) : id == Intrinsic::ceil ? Z3_mk_fpa_rtp(*C) : id == Intrinsic::round ? Z3_mk_fpa_rna(*C) : Z3_mk_fpa_rtz(*C)); return fin(mkE(w, X(Z3_mk_fpa_to_ieee_bv(*C, Z3_mk_fpa_round_to_integral(*C, rm, fpa(v)))))); }
      return fin(realFn1(s, id == Intrinsic::floor ? "floor" : id == Intrinsic::ceil ? "ceil" : id == Intrinsic::round ? "round" : "trunc", a[0], w));
    case Intrinsic::vastart: { Frame& fr = s.st.back(); uint64_t l = addrOf(s, a[0]); size_t n = fr.varargs.size(); uint64_t area = allocObj(s, std::max<size_t>(1, n) * 8, "varargs"); fr.allocas.push_back(area); uint64_t p = area; for (auto v : fr.varargs) { unsigned vw = std::max(8u, v.w); storeVal(s, p, vw > 64 ? 8 : (vw + 7) / 8, v); p += 8; } storeVal(s, l, 4, Val::Int(32, 48)); storeVal(s, l + 4, 4, Val::Int(32, 176)); storeVal(s, l + 8, 8, Val::Int(64, area)); storeVal(s, l + 16, 8, Val::Int(64, 0)); return none(); }
    case Intrinsic::pow: case Intrinsic::powi: if (!REALMODE) { Val x = realToBits(a[0]), y = realToBits(a[1]); if (x.k != Val::I || y.k != Val::I) throw PathErr{"pow on symbolic bits"}; return fin(dBits(pow(bitsD(x.i), id == Intrinsic::pow ? bitsD(y.i) : (double)y.i.getSExtValue()), w)); } if (id == Intrinsic::pow) return fin(realPow(s, a[0], a[1], w)); return fin(realPow(s, a[0], intToReal(s, a[1], true, 64), w));
    case Intrinsic::vacopy: { uint64_t d = addrOf(s, a[0]), c = addrOf(s, a[1]); copyMem(s, d, c, 24); return none(); }
    case Intrinsic::fmuladd: case Intrinsic::fma: return fin(fpOp(s, Instruction::FAdd, fpOp(s, Instruction::FMul, a[0], a[1], w), a[2], w));
    case Intrinsic::copysign: { P x = rl(s, a[0]), y = rl(s, a[1]); if (decideCmp(s, x, 1)) x = pneg(x); if (decideCmp(s, y, 1)) x = pneg(x); return fin(Val::Real(x, w)); }
    case Intrinsic::minnum: case Intrinsic::maxnum: { Val lt = fpCmp(s, CmpInst::FCMP_OLT, a[0], a[1]); bool l = decide(s, lt); return fin(l == (id == Intrinsic::minnum) ? a[0] : a[1]); }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { auto p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; Val x = unU(a[0], w), y = unU(a[1], w); Val c = icmpV(s, p, x, y); if (c.k == Val::I) return fin(c.i.getBoolValue() ? x : y); return fin(mkE(w, z3::ite(Bx(c), Bv(x), Bv(y)))); }
    case Intrinsic::abs: { Val x = unU(a[0], w); if (x.k == Val::I) return fin(Val::Int(x.i.abs())); z3::expr e = Bv(x); return fin(mkE(w, z3::ite(e < C->bv_val(0, w), -e, e))); }
    case Intrinsic::ctpop: { APInt x = concretise(s, a[0]); return fin(Val::Int(w, x.popcount())); } case Intrinsic::ctlz: { APInt x = concretise(s, a[0]); return fin(Val::Int(w, x.countl_zero())); } case Intrinsic::cttz: { APInt x = concretise(s, a[0]); return fin(Val::Int(w, x.countr_zero())); }
    case Intrinsic::bswap: { Val x = unU(a[0], w); if (isRB(x)) x = realToBits(x); if (x.k == Val::I) return fin(Val::Int(x.i.byteSwap())); z3::expr e = Bv(x); z3::expr r = e.extract(7, 0); for (unsigned k = 1; k < w / 8; k++) r = z3::concat(r, e.extract(k * 8 + 7, k * 8)); return fin(mkE(w, r)); }
    case Intrinsic::fshl: case Intrinsic::fshr: { Val x = unU(a[0], w), y = unU(a[1], w); APInt sh = concretise(s, a[2]); unsigned k = sh.urem(w); z3::expr e = z3::concat(Bv(x), Bv(y)); if (id == Intrinsic::fshl) return fin(mkE(w, e.extract(2 * w - 1 - k, w - k))); return fin(mkE(w, e.extract(w - 1 + k, k))); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Val x = a[0], y = a[1]; unsigned ww = cb->getArgOperand(0)->getType()->getIntegerBitWidth(); x = unU(x, ww); y = unU(y, ww);
      if (x.k == Val::I && y.k == Val::I) { bool ov; APInt r; switch (id) { case Intrinsic::uadd_with_overflow: r = x.i.uadd_ov(y.i, ov); break; case Intrinsic::usub_with_overflow: r = x.i.usub_ov(y.i, ov); break; case Intrinsic::umul_with_overflow: r = x.i.umul_ov(y.i, ov); break; case Intrinsic::sadd_with_overflow: r = x.i.sadd_ov(y.i, ov); break; case Intrinsic::ssub_with_overflow: r = x.i.ssub_ov(y.i, ov); break; default: r = x.i.smul_ov(y.i, ov); } return fin(Val::Agg({Val::Int(r), Val::Int(1, ov)})); }
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; z3::expr ex = sg ? z3::sext(Bv(x), ww) : z3::zext(Bv(x), ww), ey = sg ? z3::sext(Bv(y), ww) : z3::zext(Bv(y), ww); z3::expr r = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ex + ey : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? ex - ey : ex * ey; z3::expr lo = r.extract(ww - 1, 0); return fin(Val::Agg({mkE(ww, lo), mkE(1, (sg ? z3::sext(lo, ww) : z3::zext(lo, ww)) != r)})); }
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat: { Val x = unU(a[0], w), y = unU(a[1], w); if (x.k == Val::I && y.k == Val::I) return fin(Val::Int(id == Intrinsic::usub_sat ? x.i.usub_sat(y.i) : x.i.uadd_sat(y.i))); z3::expr p = Bv(x), q = Bv(y); if (id == Intrinsic::usub_sat) return fin(mkE(w, z3::ite(z3::ult(p, q), C->bv_val(0, w), p - q))); z3::expr su = p + q; return fin(mkE(w, z3::ite(z3::ult(su, p), ~C->bv_val(0, w), su))); }
    case Intrinsic::is_fpclass: { unsigned m = addrOf(s, a[1]); if (!REALMODE) throw PathErr{"is_fpclass"}; bool nan = a[0].k == Val::I && std::isnan(bitsD(a[0].i)), inf = a[0].k == Val::I && std::isinf(bitsD(a[0].i)); if (nan) return fin(Val::Int(1, (m & 3) != 0)); if (inf) return fin(Val::Int(1, (m & (bitsD(a[0].i) > 0 ? 0x200 : 4)) != 0)); unsigned nonfin = 0x207; unsigned fm = m & ~nonfin & 0x3ff; if (fm == 0) return fin(Val::Int(1, 0)); if (fm == (0x3ff & ~nonfin)) return fin(Val::Int(1, 1)); P p = rl(s, a[0]); bool z = decideCmp(s, p, 0); if (z) return fin(Val::Int(1, (m & 0x60) != 0)); bool ng = decideCmp(s, p, 1); return fin(Val::Int(1, (m & (ng ? 0x8 : 0x100)) != 0)); }
    default: throw PathErr{"intrinsic " + f->getName().str()};
  }
}
static void doCall(State& s, CallBase* cb) {
  if (cb->isInlineAsm()) { finishCall(s, cb, nullptr); return; }
  std::vector<Val> a; for (unsigned i = 0; i < cb->arg_size(); i++) { if (cb->getArgOperand(i)->getType()->isMetadataTy()) { a.emplace_back(); continue; } a.push_back(ev(s, cb->getArgOperand(i))); }
  Function* f = cb->getCalledFunction();
  if (!f) { Value* cv = cb->getCalledOperand()->stripPointerCasts(); f = dyn_cast<Function>(cv); if (!f) if (auto* al = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(al->getAliasee()->stripPointerCasts()); if (!f) { uint64_t ad = addrOf(s, ev(s, cb->getCalledOperand())); auto it = FADDR.find(ad); if (it == FADDR.end()) { throw MemErr{"call through invalid pointer"}; } f = it->second; } }
  if (callIntrinsic(s, cb, f, a)) return;
  if (f->isDeclaration() || EXT.count(f->getName().str()) || f->getName().startswith("_ZSt4endlI")) { callExternal(s, cb, f, a); return; }
  pushFrame(s, f, cb, a);
}
// ------------------------------------------------------------------ one instruction
static void step(State& s) {
  Frame& fr = s.st.back(); Instruction* I = &*fr.pc; ST.instr++; s.ninstr++;
  if (TRACE) { errs() << "  " << *I << "\n"; }
  unsigned op = I->getOpcode(); Type* t = I->getType();
  auto next = [&](const Val& v) { setR(s, I, v); ++s.st.back().pc; };
  auto lanes = [&](std::function<Val(const Val&, const Val&)> g) { Val a = ev(s, I->getOperand(0)), b = I->getNumOperands() > 1 ? ev(s, I->getOperand(1)) : Val(); unsigned n = cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements(); std::vector<Val> r; for (unsigned k = 0; k < n; k++) { Val u; r.push_back(g(a.k == Val::A ? (*a.agg)[k] : u, b.k == Val::A ? (*b.agg)[k] : u)); } next(Val::Agg(r)); };
  switch (op) {
    case Instruction::Ret: { if (auto* v = cast<ReturnInst>(I)->getReturnValue()) { Val x = ev(s, v); retFrom(s, &x); } else retFrom(s, nullptr); return; }
    case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) enterBlock(s, b->getSuccessor(0)); else { bool c = decide(s, ev(s, b->getCondition())); enterBlock(s, b->getSuccessor(c ? 0 : 1)); } return; }
    case Instruction::Switch: { auto* sw = cast<SwitchInst>(I); Val v = unU(ev(s, sw->getCondition()), sw->getCondition()->getType()->getIntegerBitWidth()); if (v.k == Val::I) { auto* ci = ConstantInt::get(MOD->getContext(), v.i); enterBlock(s, sw->findCaseValue(ci)->getCaseSuccessor()); return; }
      for (auto& c : sw->cases()) if (decide(s, mkE(1, Bv(v) == bvNum(c.getCaseValue()->getValue())))) { enterBlock(s, c.getCaseSuccessor()); return; } enterBlock(s, sw->getDefaultDest()); return; }
    case Instruction::Unreachable: throw MemErr{"reached code the compiler marked unreachable (undefined behaviour, e.g. missing return)"};
    case Instruction::Alloca: { auto* al = cast<AllocaInst>(I); uint64_t n = addrOf(s, ev(s, al->getArraySize())); uint64_t a = allocObj(s, DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue() * n, (al->hasName() ? al->getName().str() : "alloca"), false, false, al->getAlign().value()); s.st.back().allocas.push_back(a); next(Val::Int(64, a)); return; }
    case Instruction::Load: { uint64_t a = addrOf(s, ev(s, I->getOperand(0))); next(loadVal(s, a, t)); return; }
    case Instruction::Store: { uint64_t a = addrOf(s, ev(s, I->getOperand(1))); Val v = ev(s, I->getOperand(0)); storeTyped(s, a, I->getOperand(0)->getType(), v); ++s.st.back().pc; return; }
    case Instruction::GetElementPtr: next(gepV(s, cast<GEPOperator>(I))); return;
    case Instruction::FNeg: { if (t->isVectorTy()) { lanes([&](const Val& a, const Val&) { return Val::Real(pneg(rl(s, a))); }); return; } Val a = ev(s, I->getOperand(0)); unsigned w = t->isFloatTy() ? 32 : 64; if (!REALMODE) { a = unU(realToBits(a), w); if (a.k == Val::I) next(Val::Int(a.i ^ APInt::getSignMask(w))); else next(mkE(w, Bv(a) ^ bvNum(APInt::getSignMask(w)))); return; } if (isSpec(a)) { next(dBits(-bitsD(a.i), w)); return; } next(Val::Real(pneg(rl(s, a)), w)); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { if (t->isVectorTy()) { unsigned w = t->getScalarType()->isFloatTy() ? 32 : 64; lanes([&](const Val& a, const Val& b) { return fpOp(s, op, a, b, w); }); return; } next(fpOp(s, op, ev(s, I->getOperand(0)), ev(s, I->getOperand(1)), t->isFloatTy() ? 32 : 64)); return; }
    case Instruction::FCmp: if (I->getOperand(0)->getType()->isVectorTy()) { lanes([&](const Val& a, const Val& b) { return fpCmp(s, cast<CmpInst>(I)->getPredicate(), a, b); }); return; } next(fpCmp(s, cast<CmpInst>(I)->getPredicate(), ev(s, I->getOperand(0)), ev(s, I->getOperand(1)))); return;
    case Instruction::ICmp: if (I->getOperand(0)->getType()->isVectorTy()) { lanes([&](const Val& a, const Val& b) { return icmpV(s, cast<CmpInst>(I)->getPredicate(), a, b); }); return; } next(icmpV(s, cast<CmpInst>(I)->getPredicate(), ev(s, I->getOperand(0)), ev(s, I->getOperand(1)))); return;
    case Instruction::Select: { Val c = ev(s, I->getOperand(0)), x = ev(s, I->getOperand(1)), y = ev(s, I->getOperand(2)); if (c.k == Val::A) { std::vector<Val> r; for (unsigned k = 0; k < c.agg->size(); k++) r.push_back(decide(s, (*c.agg)[k]) ? (*x.agg)[k] : (*y.agg)[k]); next(Val::Agg(r)); return; }
      if (c.k == Val::I) { next(c.i.getBoolValue() ? x : y); return; }
      if (c.k == Val::E && (x.k == Val::I || x.k == Val::E) && (y.k == Val::I || y.k == Val::E) && t->isIntegerTy() && !CMPS.count(Z3_get_ast_id(*C, c.e))) { if (x.w == 1) next(mkE(1, z3::ite(Bx(c), Bx(x), Bx(y)))); else next(mkE(x.w, z3::ite(Bx(c), Bv(x), Bv(y)))); return; }
      if (c.k == Val::E && t->isIntegerTy() && t->getIntegerBitWidth() == 1 && x.k != Val::U && y.k != Val::U) { next(mkE(1, z3::ite(Bx(c), Bx(x), Bx(y)))); return; }
      next(decide(s, c) ? x : y); return; }
    case Instruction::Call: doCall(s, cast<CallBase>(I)); return;
    case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
    case Instruction::Resume: { Exc e = s.inflight.back(); s.inflight.pop_back(); Frame& f = s.st.back(); CallBase* site = f.call; freeFrame(s); s.st.pop_back(); if (s.st.empty()) throw PathEnd{"uncaught:" + tiName(s, e.ti)}; (void)site; unwind(s, e); return; }
    case Instruction::LandingPad: throw PathErr{"landingpad reached"};
    case Instruction::ExtractValue: { Val v = ev(s, I->getOperand(0)); for (unsigned ix : cast<ExtractValueInst>(I)->indices()) { if (v.k != Val::A) { Val u; v = u; break; } Val n = (*v.agg)[ix]; v = n; } next(v); return; }
    case Instruction::InsertValue: { Val v = ev(s, I->getOperand(0)); Val x = ev(s, I->getOperand(1)); auto ix = cast<InsertValueInst>(I)->getIndices(); std::function<Val(const Val&, unsigned)> ins = [&](const Val& b, unsigned d) -> Val { if (d == ix.size()) return x; std::vector<Val> c = *b.agg; c[ix[d]] = ins(c[ix[d]], d + 1); return Val::Agg(c); }; next(ins(v, 0)); return; }
    case Instruction::ExtractElement: { Val v = ev(s, I->getOperand(0)); uint64_t k = addrOf(s, ev(s, I->getOperand(1))); next(v.k == Val::A ? (*v.agg)[k] : Val()); return; }
    case Instruction::InsertElement: { Val v = ev(s, I->getOperand(0)); uint64_t k = addrOf(s, ev(s, I->getOperand(2))); std::vector<Val> c = *v.agg; c[k] = ev(s, I->getOperand(1)); next(Val::Agg(c)); return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = ev(s, I->getOperand(0)), b = ev(s, I->getOperand(1)); std::vector<Val> r; int n = a.agg->size(); for (int m : sv->getShuffleMask()) { Val u; r.push_back(m < 0 ? u : m < n ? (*a.agg)[m] : (*b.agg)[m - n]); } next(Val::Agg(r)); return; }
    case Instruction::Freeze: { Val v = ev(s, I->getOperand(0)); next(v.k == Val::U ? unU(v, t->isIntegerTy() ? t->getIntegerBitWidth() : 64) : v); return; }
    case Instruction::AtomicRMW: { auto* ar = cast<AtomicRMWInst>(I); uint64_t a = addrOf(s, ev(s, ar->getPointerOperand())); Val o = loadVal(s, a, t); Val v = ev(s, ar->getValOperand()); unsigned w = t->getIntegerBitWidth(); Val n; switch (ar->getOperation()) { case AtomicRMWInst::Add: n = binI(s, Instruction::Add, o, v, w); break; case AtomicRMWInst::Sub: n = binI(s, Instruction::Sub, o, v, w); break; case AtomicRMWInst::Xchg: n = v; break; default: throw PathErr{"atomicrmw"}; } storeTyped(s, a, t, n); next(o); return; }
    case Instruction::AtomicCmpXchg: { auto* ax = cast<AtomicCmpXchgInst>(I); uint64_t a = addrOf(s, ev(s, ax->getPointerOperand())); Type* et = ax->getCompareOperand()->getType(); Val o = loadVal(s, a, et); Val c = icmpV(s, CmpInst::ICMP_EQ, o, ev(s, ax->getCompareOperand())); bool eq = decide(s, c); if (eq) storeTyped(s, a, et, ev(s, ax->getNewValOperand())); next(Val::Agg({o, Val::Int(1, eq)})); return; }
    case Instruction::Fence: ++s.st.back().pc; return;
    default: break;
  }
  if (I->isCast()) { next(castV(s, op, ev(s, I->getOperand(0)), I->getOperand(0)->getType(), t)); return; }
  if (I->isBinaryOp()) { if (t->isVectorTy()) { unsigned w = t->getScalarType()->getIntegerBitWidth(); lanes([&](const Val& a, const Val& b) { return binI(s, op, a, b, w); }); return; } next(binI(s, op, ev(s, I->getOperand(0)), ev(s, I->getOperand(1)), t->getIntegerBitWidth())); return; }
  throw PathErr{std::string("instruction ") + I->getOpcodeName()};
}
#include "ext.inc"

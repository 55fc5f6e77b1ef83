// ------------------------------------------------------------------ derivative of a real term with respect to an input
static P derivP(const P& p, AtomId v, std::map<AtomId, P>& memo);
static P derivA(AtomId a, AtomId v, std::map<AtomId, P>& memo) {
  if (a == v) return pconst(1); auto it = memo.find(a); if (it != memo.end()) return it->second; const Atom at = ATOMS[a]; P r = pconst(0);
  switch (at.k) {
    case Atom::Var: if (at.unitGroup >= 0 && ATOMS[v].unitGroup == at.unitGroup) throw PathErr{"derivative inside a unit group"}; break;
    case Atom::Pi: case Atom::IntR: break;
    case Atom::Sqrt: { P d = derivP(at.arg, v, memo); if (!d->t.empty()) r = pscale(pmul(d, pmul(patom(a), pinv(at.arg))), mpq_class(1, 2)); break; }
    case Atom::Inv: { P d = derivP(at.arg, v, memo); if (!d->t.empty()) r = pneg(pmul(d, pmul(patom(a), patom(a)))); break; }
    case Atom::Sin: { P d = derivP(at.arg, v, memo); r = pmul(d, patom(at.other)); break; }
    case Atom::Cos: { P d = derivP(at.arg, v, memo); r = pneg(pmul(d, patom(at.other))); break; }
    case Atom::Ang: { P ds = derivP(at.sinP, v, memo), dc = derivP(at.cosP, v, memo); r = psub(pmul(at.cosP, ds), pmul(at.sinP, dc)); break; }
    case Atom::Fn: { P d = derivP(at.arg, v, memo); if (d->t.empty() && !at.arg2) break; if (at.fn == "exp") r = pmul(d, patom(a)); else if (at.fn == "log") r = pmul(d, pinv(at.arg)); else throw PathErr{"derivative of " + at.fn}; break; }
  }
  memo[a] = r; return r;
}
static P derivP(const P& p, AtomId v, std::map<AtomId, P>& memo) {
  std::set<AtomId> as; patoms(p, as); P r = pconst(0);
  for (auto a : as) { P da = derivA(a, v, memo); if (da->t.empty()) continue; P acc = pconst(0);
    for (auto& t : p->t) { int e = 0; P m = pconst(t.second); for (auto& x : t.first->v) { if (x.first == a) e = x.second; else m = pmul(m, ppow(patom(x.first), x.second)); } if (e) acc = padd(acc, pmul(pscale(m, e), ppow(patom(a), e - 1))); }
    r = padd(r, pmul(acc, da)); }
  return r;
}
// ------------------------------------------------------------------ external functions
static std::string S(State& s, const Val& v) { return cstr(s, addrOf(s, v)); }
static void initExt() {
  EXT["vp_real"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = Val::Real(realInput(freshName(s, S(s, a[0])))); return false; };
  EXT["vp_unit"] = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t d = addrOf(s, a[0]); unsigned n = addrOf(s, a[1]); std::string nm = freshName(s, S(s, a[2])); std::vector<AtomId> g; bool fresh = !INP.count(nm + "_0"); int gi = UNITGROUPS.size();
    for (unsigned i = 0; i < n; i++) { std::string e = nm + "_" + std::to_string(i); P p = realInput(e); AtomId id = INP[e].atom; g.push_back(id); }
    if (fresh) { P r = pconst(1); for (unsigned i = 0; i + 1 < n; i++) r = psub(r, pmul(patom(g[i]), patom(g[i]))); UNITGROUPS.push_back(g); for (auto x : g) ATOMS[x].unitGroup = gi; ATOMS[g.back()].rule2 = r; }
    for (unsigned i = 0; i < n; i++) storeVal(s, d + 8 * i, 8, Val::Real(patom(g[i]))); return false; };
  EXT["vp_u64"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = intInput(freshName(s, S(s, a[0])), 64); return false; };
  EXT["vp_u32"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = intInput(freshName(s, S(s, a[0])), 32); return false; };
  EXT["vp_u8"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = intInput(freshName(s, S(s, a[0])), 8); return false; };
  EXT["vp_bits64"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = intInput(freshName(s, S(s, a[0])), 64); return false; };
  EXT["vp_bits32"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = intInput(freshName(s, S(s, a[0])), 32); return false; };
  EXT["vp_choice"] = [](State& s, CallBase* cb, std::vector<Val>& a) { // value in [0,n): one path per value
    std::string nm = S(s, a[0]); uint64_t n = addrOf(s, a[1]); int k = s.names[nm]; std::string full = k ? nm + "#" + std::to_string(k) : nm; Val v = intInput(full, 32);
    for (uint64_t i = 0; i + 1 < n; i++) if (decide(s, mkE(1, Bv(v) == C->bv_val((unsigned)i, 32)))) { s.names[nm]++; RV = Val::Int(32, i); return false; }
    addPC(s, keep(Bv(v) == C->bv_val((unsigned)(n - 1), 32))); s.names[nm]++; RV = Val::Int(32, n - 1); return false; };
  EXT["vp_concrete"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = Val::Int(concretise(s, a[0])); return false; };
  EXT["vp_assume"] = [](State& s, CallBase*, std::vector<Val>& a) { Val v = a[0]; if (v.k == Val::U) v = Val::Int(32, 0); if (v.k == Val::I) { if (v.i == 0) throw PathEnd{"assume"}; } else assumeV(s, mkE(1, Bv(v) != C->bv_val(0, v.w))); return false; };
  EXT["vp_assume_b"] = [](State& s, CallBase*, std::vector<Val>& a) { Val v = unU(a[0], 1); assumeV(s, v); return false; };
  EXT["vp_assert"] = [](State& s, CallBase*, std::vector<Val>& a) { Val v = unU(a[0], 1); if (v.w != 1) v = icmpV(s, CmpInst::ICMP_NE, v, Val::Int(v.w, 0)); doAssert(s, S(s, a[1]), v, nullptr, "assert"); return false; };
  EXT["vp_assert_eq"] = [](State& s, CallBase*, std::vector<Val>& a) {
    std::string l = S(s, a[2]); Val x = a[0], y = a[1];
    if (!REALMODE || ((x.k == Val::E || y.k == Val::E) && x.k != Val::R && y.k != Val::R)) { x = unU(realToBits(x), 64); y = unU(realToBits(y), 64); doAssert(s, l, icmpV(s, CmpInst::ICMP_EQ, x, y), nullptr, "eq"); return false; }
    if (isSpec(x) || isSpec(y)) { bool same = isSpec(x) && isSpec(y) && bitsD(x.i) == bitsD(y.i); doAssert(s, l, Val::Int(1, same), nullptr, "eq(non-finite)"); return false; }
    P d = psub(rl(s, x), rl(s, y)); if (d->t.empty()) { doAssert(s, l, Val::Int(1, 1), nullptr, "eq"); return false; }
    Val c; try { P cl = pclear(d, false); c = mkCmp(cl, 0); } catch (TooBig&) { c = mkCmp(d, 0); }
    doAssert(s, l, c, &d, "eq"); return false; };
  EXT["vp_assert_le"] = [](State& s, CallBase*, std::vector<Val>& a) { std::string l = S(s, a[2]); Val x = a[0], y = a[1]; doAssert(s, l, fpCmp(s, CmpInst::FCMP_OLE, x, y), nullptr, "le"); return false; };
  EXT["vp_assert_eq_u64"] = [](State& s, CallBase*, std::vector<Val>& a) { Val x = a[0], y = a[1]; doAssert(s, S(s, a[2]), icmpV(s, CmpInst::ICMP_EQ, x, y), nullptr, "equ"); return false; };
  EXT["vp_assert_same"] = [](State& s, CallBase*, std::vector<Val>& a) { std::string l = S(s, a[2]); Val x = unU(a[0], 64), y = unU(a[1], 64); if (x.k == Val::R && y.k == Val::R) { P d = psub(rl(s, x), rl(s, y)); doAssert(s, l, d->t.empty() ? Val::Int(1, 1) : mkCmp(d, 0), &d, "same"); return false; } x = realToBits(x); y = realToBits(y); doAssert(s, l, icmpV(s, CmpInst::ICMP_EQ, x, y), nullptr, "same"); return false; };
  EXT["vp_tol"] = [](State& s, CallBase*, std::vector<Val>& a) { return false; };
  EXT["vp_reach"] = [](State& s, CallBase*, std::vector<Val>& a) { std::string l = S(s, a[0]); if (REACHED[l] < 1) { bool benign; Res r = s.pc.empty() ? SAT : searchBad(s, {keep(C->bool_val(true))}, nullptr, benign); if (r == SAT) REACHED[l]++; } else REACHED[l]++; return false; };
  EXT["vp_symbolic"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = Val::Int(32, 1); return false; };
  EXT["vp_deriv"] = [](State& s, CallBase*, std::vector<Val>& a) { if (!s.rules.empty()) { ASSUMED.insert("derivative not evaluated on paths constrained by an equality"); throw PathEnd{"assume"}; } P f = rl(s, a[0]); if (a[1].k != Val::R || a[1].r->t.size() != 1 || a[1].r->t[0].first->v.size() != 1) throw PathErr{"vp_deriv: not an input"}; std::map<AtomId, P> memo; RV = Val::Real(derivP(f, a[1].r->t[0].first->v[0].first, memo)); return false; };
  EXT["vp_print"] = [](State& s, CallBase*, std::vector<Val>& a) { std::cerr << "PRINT " << S(s, a[0]) << " = " << (a[1].k == Val::R ? pstr(a[1].r) : a[1].k == Val::I ? std::to_string(bitsD(a[1].i)) : "sym") << "\n"; return false; };
  EXT["vp_print_i"] = [](State& s, CallBase*, std::vector<Val>& a) { std::cerr << "PRINT " << S(s, a[0]) << " = "; if (a[1].k == Val::I) { SmallString<40> t; a[1].i.toString(t, 10, true); std::cerr << t.c_str(); } else if (a[1].k == Val::E) std::cerr << X(a[1].e); std::cerr << "\n"; return false; };
  EXT["vp_trigden"] = [](State& s, CallBase*, std::vector<Val>& a) { TRIGDEN = addrOf(s, a[0]); return false; };
  EXT["vp_fail_path"] = [](State& s, CallBase*, std::vector<Val>& a) { throw PathErr{S(s, a[0])}; return false; };
  EXT["vp_end_path"] = [](State& s, CallBase*, std::vector<Val>& a) { throw PathEnd{"assume"}; return false; };
  // ---- memory
  auto nw = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t n = addrOf(s, a[0]); if (n > (1ull << 30)) { doThrow(s, "_ZTISt9bad_alloc"); return true; } RV = Val::Int(64, allocObj(s, n, "heap", true)); return false; };
  EXT["_Znwm"] = EXT["_Znam"] = EXT["malloc"] = EXT["_ZnwmRKSt9nothrow_t"] = EXT["_ZnamRKSt9nothrow_t"] = nw; EXT["_ZnwmSt11align_val_t"] = nw;
  EXT["calloc"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = Val::Int(64, allocObj(s, addrOf(s, a[0]) * addrOf(s, a[1]), "heap", true, true)); return false; };
  EXT["realloc"] = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t p = addrOf(s, a[0]), n = addrOf(s, a[1]); uint64_t q = allocObj(s, n, "heap", true); if (p) { auto it = s.mem.find(p); if (it == s.mem.end()) throw MemErr{"realloc of invalid pointer"}; uint64_t m = std::min(n, it->second->size); copyMem(s, q, p, m); auto o = std::make_shared<Obj>(*s.mem[p]); o->alive = false; s.mem[p] = o; } RV = Val::Int(64, q); return false; };
  auto fr = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t p = addrOf(s, a[0]); if (!p) return false; auto it = s.mem.find(p); if (it == s.mem.end() || !it->second->heap) throw MemErr{"free of invalid pointer"}; if (!it->second->alive) throw MemErr{"double free"}; auto o = std::make_shared<Obj>(); o->base = it->second->base; o->size = it->second->size; o->alive = false; o->heap = true; o->name = it->second->name; it->second = o; return false; };
  EXT["_ZdlPv"] = EXT["_ZdaPvRKSt9nothrow_t"] = EXT["_ZdlPvRKSt9nothrow_t"] = EXT["_ZdaPv"] = EXT["free"] = EXT["_ZdlPvm"] = EXT["_ZdaPvm"] = EXT["_ZdlPvSt11align_val_t"] = fr;
  auto mc = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t n = addrOf(s, a[2]); if (n) copyMem(s, addrOf(s, a[0]), addrOf(s, a[1]), n); RV = a[0]; return false; }; EXT["memcpy"] = EXT["memmove"] = mc;
  EXT["memset"] = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t n = addrOf(s, a[2]); uint64_t d = addrOf(s, a[0]); Val b = castV(s, Instruction::Trunc, a[1], Type::getInt32Ty(MOD->getContext()), Type::getInt8Ty(MOD->getContext())); for (uint64_t k = 0; k < n; k++) storeVal(s, d + k, 1, b); RV = a[0]; return false; };
  auto cmp = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t n = addrOf(s, a[2]), x = addrOf(s, a[0]), y = addrOf(s, a[1]); Type* t8 = Type::getInt8Ty(MOD->getContext()); std::vector<std::pair<Val,Val>> b; bool conc = true;
    for (uint64_t k = 0; k < n; k++) { Val p = loadRaw(s, x + k, 1, t8), q = loadRaw(s, y + k, 1, t8); b.push_back({p, q}); if (p.k != Val::I || q.k != Val::I) conc = false; }
    if (conc) { for (auto& z : b) if (z.first.i != z.second.i) { RV = Val::Int(APInt(32, z.first.i.ult(z.second.i) ? -1 : 1, true)); return false; } RV = Val::Int(32, 0); return false; }
    z3::expr r = C->bv_val(0, 32); for (int k = (int)n - 1; k >= 0; k--) { z3::expr p = Bv(b[k].first), q = Bv(b[k].second); r = z3::ite(p == q, r, z3::ite(z3::ult(p, q), C->bv_val(-1, 32), C->bv_val(1, 32))); } RV = mkE(32, r); return false; };
  EXT["memcmp"] = EXT["bcmp"] = cmp;
  EXT["strlen"] = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t p = addrOf(s, a[0]), n = 0; for (;; n++) { Val c = unU(loadVal(s, p + n, Type::getInt8Ty(MOD->getContext())), 8); if (c.k == Val::I) { if (c.i == 0) break; continue; } if (decide(s, icmpV(s, CmpInst::ICMP_EQ, c, Val::Int(8, 0)))) break; } RV = Val::Int(64, n); return false; };
  EXT["strcmp"] = [](State& s, CallBase*, std::vector<Val>& a) { int c = S(s, a[0]).compare(S(s, a[1])); RV = Val::Int(APInt(32, c < 0 ? -1 : c > 0, true)); return false; };
  EXT["memchr"] = [](State& s, CallBase*, std::vector<Val>& a) { uint64_t p = addrOf(s, a[0]), n = addrOf(s, a[2]); APInt c = concretise(s, a[1]).trunc(8); for (uint64_t k = 0; k < n; k++) { APInt b = concretise(s, loadRaw(s, p + k, 1, Type::getInt8Ty(MOD->getContext()))); if (b == c) { RV = Val::Int(64, p + k); return false; } } RV = Val::Int(64, 0); return false; };
  // ---- exceptions / runtime
  EXT["__cxa_allocate_exception"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = Val::Int(64, allocObj(s, addrOf(s, a[0]), "exception", true, true)); return false; };
  EXT["__cxa_free_exception"] = [](State& s, CallBase*, std::vector<Val>& a) { return false; };
  EXT["__cxa_throw"] = [](State& s, CallBase*, std::vector<Val>& a) { unwind(s, Exc{addrOf(s, a[0]), addrOf(s, a[1])}); return true; };
  EXT["__cxa_begin_catch"] = [](State& s, CallBase*, std::vector<Val>& a) { if (!s.inflight.empty()) { s.caught.push_back(s.inflight.back()); s.inflight.pop_back(); } RV = a[0]; return false; };
  EXT["__cxa_end_catch"] = [](State& s, CallBase*, std::vector<Val>& a) { if (!s.caught.empty()) s.caught.pop_back(); return false; };
  EXT["__cxa_rethrow"] = [](State& s, CallBase*, std::vector<Val>& a) { if (s.caught.empty()) throw MemErr{"rethrow without exception"}; unwind(s, s.caught.back()); return true; };
  EXT["_ZSt9terminatev"] = EXT["abort"] = EXT["__assert_fail"] = EXT["__clang_call_terminate"] = EXT["exit"] = [](State& s, CallBase* cb, std::vector<Val>& a) { throw MemErr{"program termination (" + cb->getCalledFunction()->getName().str() + ")"}; return true; };
  EXT["__cxa_guard_acquire"] = [](State& s, CallBase*, std::vector<Val>& a) { Val b = loadRaw(s, addrOf(s, a[0]), 1, Type::getInt8Ty(MOD->getContext())); RV = Val::Int(32, concretise(s, b) == 0); return false; };
  EXT["__cxa_guard_release"] = [](State& s, CallBase*, std::vector<Val>& a) { storeVal(s, addrOf(s, a[0]), 1, Val::Int(8, 1)); return false; };
  auto zero = [](State& s, CallBase* cb, std::vector<Val>& a) { Type* t = cb->getType(); RV = Val::Int(t->isIntegerTy() ? t->getIntegerBitWidth() : 64, 0); return false; };
  for (const char* n : {"__cxa_guard_abort", "__cxa_atexit", "atexit", "pthread_mutex_init", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_condattr_init", "pthread_condattr_setclock", "pthread_condattr_destroy", "__pthread_key_create", "pthread_once", "puts", "printf", "fprintf", "putchar", "fflush", "_ZSt21ios_base_library_initv"}) EXT[n] = zero;
  EXT["_ZN7log4cpp8Category11getInstanceERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = EXT["_ZN7log4cpp8Category11getInstanceERKSs"] = [](State& s, CallBase*, std::vector<Val>& a) { RV = Val::Int(64, allocObj(s, 256, "logcat", true, true)); return false; };
  EXT["__dynamic_cast"] = [](State& s, CallBase*, std::vector<Val>& a) { throw PathErr{"dynamic_cast"}; return false; };
  EXT["__cxa_pure_virtual"] = [](State& s, CallBase*, std::vector<Val>& a) { throw MemErr{"pure virtual call"}; return false; };
  // ---- libm
  struct F1 { const char* n; double (*f)(double); }; static const F1 fs[] = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"acos", acos}, {"asin", asin}, {"atan", atan}, {"exp", exp}, {"log", log}, {"log10", log10}, {"floor", floor}, {"ceil", ceil}, {"round", round}, {"trunc", trunc}, {"exp2", exp2}, {"log2", log2}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"erf", erf}, {"cbrt", cbrt}};
  for (auto& f : fs) for (int fl = 0; fl < 2; fl++) { std::string n = f.n; auto fp = f.f; unsigned w = fl ? 32 : 64; EXT[n + (fl ? "f" : "")] = [n, fp, w](State& s, CallBase*, std::vector<Val>& a) { if (!REALMODE) { Val v = realToBits(a[0]); if (v.k != Val::I) throw PathErr{"libm on symbolic bits"}; RV = dBits(fp(bitsD(v.i)), w); } else RV = realFn1(s, n, a[0], w); return false; }; }
  for (int fl = 0; fl < 2; fl++) { unsigned w = fl ? 32 : 64; std::string sf = fl ? "f" : "";
    EXT["sqrt" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { if (!REALMODE) { Val v = realToBits(a[0]); if (v.k == Val::I) RV = dBits(sqrt(bitsD(v.i)), w); else throw PathErr{"sqrt on symbolic bits"}; } else RV = realSqrt(s, a[0], w); return false; };
    EXT["atan2" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { RV = realAtan2(s, a[0], a[1], w); return false; };
    EXT["pow" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { if (!REALMODE) { Val x = realToBits(a[0]), y = realToBits(a[1]); if (x.k != Val::I || y.k != Val::I) throw PathErr{"pow on symbolic bits"}; RV = dBits(pow(bitsD(x.i), bitsD(y.i)), w); return false; } RV = realPow(s, a[0], a[1], w); return false; };
    EXT["hypot" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { P x = rl(s, a[0]), y = rl(s, a[1]); RV = Val::Real(sqrtPoly(s, padd(pmul(x, x), pmul(y, y))), w); return false; };
    EXT["fabs" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { if (isSpec(a[0])) { RV = dBits(fabs(bitsD(a[0].i)), w); return false; } P p = rl(s, a[0]); RV = Val::Real(decideCmp(s, p, 1) ? pneg(p) : p, w); return false; };
    EXT["fmod" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { P x = rl(s, a[0]), y = rl(s, a[1]); if (pisconst(x) && pisconst(y)) { RV = constReal(fmod(pcval(x).get_d(), pcval(y).get_d()), w); return false; } Val q = realDiv(s, x, y, w); Val t = realFn1(s, "trunc", q, w); RV = Val::Real(psub(x, pmul(t.r, y)), w); return false; };
    EXT["fmin" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { RV = decide(s, fpCmp(s, CmpInst::FCMP_OLT, a[0], a[1])) ? a[0] : a[1]; return false; };
    EXT["fmax" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { RV = decide(s, fpCmp(s, CmpInst::FCMP_OLT, a[0], a[1])) ? a[1] : a[0]; return false; };
    EXT["sincos" + sf] = [w](State& s, CallBase*, std::vector<Val>& a) { P so, co; sincos(s, rl(s, a[0]), so, co); storeVal(s, addrOf(s, a[1]), w / 8, Val::Real(so, w)); storeVal(s, addrOf(s, a[2]), w / 8, Val::Real(co, w)); return false; }; }
}
static std::map<std::string,std::string> WITNESS;
static std::string J(const std::string& x) { std::string o = "\""; for (char c : x) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
static void writeOut(const std::string& fn, const std::string& entry, const std::string& status) {
  std::ofstream o(fn); o << "{\n \"entry\": " << J(entry) << ", \"status\": " << J(status) << ", \"mode\": " << (REALMODE ? "\"real\"" : "\"ieee\"") << ",\n";
  o << " \"paths\": " << ST.paths << ", \"forks\": " << ST.forks << ", \"instructions\": " << ST.instr << ", \"branch_queries\": " << ST.branchQ << ", \"branch_unknown\": " << ST.branchUnknown << ", \"asserts\": " << ST.assertQ << ", \"asserts_normal_form\": " << ST.assertNF << ", \"asserts_solver\": " << ST.assertSolver << ", \"asserts_unknown\": " << ST.assertUnknown << ", \"div_assumed\": " << ST.divAssumed << ", \"crosschecked\": " << ST.cross << ", \"cross_agree\": " << ST.crossAgree << ", \"solver_s\": " << ST.solverT << ", \"max_query_s\": " << ST.maxQ << ", \"wall_s\": " << now() - T0 << ",\n";
  auto list = [&](const char* k, const std::vector<std::string>& v) { o << " \"" << k << "\": ["; for (size_t i = 0; i < v.size() && i < 200; i++) o << (i ? ", " : "") << J(v[i]); o << "],\n"; };
  list("incomplete", INCOMPLETE); list("inconclusive", INCONC); list("assumed", std::vector<std::string>(ASSUMED.begin(), ASSUMED.end())); list("noop_externals", std::vector<std::string>(NOOPED.begin(), NOOPED.end()));
  std::vector<std::string> fn2; for (auto& f : FUNCS) { std::string d = demangle(f); if (d.find("Ubitrack") != std::string::npos) fn2.push_back(d.size() > 160 ? d.substr(0, 160) : d); } list("functions", fn2);
  o << " \"n_functions\": " << FUNCS.size() << ",\n \"reached\": {"; bool f = true; for (auto& r : REACHED) if (r.second) { o << (f ? "" : ", ") << J(r.first) << ": " << r.second; f = false; } o << "},\n \"labels\": {"; f = true; for (auto& r : LABELS) { o << (f ? "" : ", ") << J(r.first) << ": " << r.second; f = false; }
  o << "},\n \"witness\": {"; f = true; for (auto& i : WITNESS) { o << (f ? "" : ", ") << J(i.first) << ": " << J(i.second); f = false; }
  o << "},\n \"violations\": ["; f = true; for (auto& v : VIOL) { o << (f ? "" : ",") << "\n  {\"label\": " << J(v.label) << ", \"kind\": " << J(v.kind) << ", \"info\": " << J(v.info) << ", \"inputs\": {"; bool g = true; for (auto& i : v.in) { o << (g ? "" : ", ") << J(i.first) << ": " << J(i.second); g = false; } o << "}}"; f = false; } o << "]\n}\n";
}
extern volatile bool STOP_NOW;
int main(int argc, char** argv) {
  std::string file, entry, out = "/dev/stdout"; T0 = now(); bool STATE = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&](const char* k) -> const char* { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr; };
    if (auto x = v("--entry=")) entry = x; else if (auto x = v("--mode=")) REALMODE = std::string(x) == "real"; else if (auto x = v("--out=")) out = x; else if (auto x = v("--time=")) TIME_LIMIT = atof(x); else if (auto x = v("--branch-ms=")) BRANCH_MS = atoi(x); else if (auto x = v("--assert-ms=")) ASSERT_MS = atoi(x); else if (auto x = v("--seed=")) { SEED = atoi(x); rng ^= (uint64_t)SEED * 7919; } else if (auto x = v("--max-paths=")) MAX_PATHS = atoll(x); else if (auto x = v("--max-instr=")) MAX_INSTR = atoll(x); else if (a == "-v") VERBOSE = true; else if (a == "--twice") TWICE = true; else if (a == "--state") STATE = true; else if (a == "--trace") TRACE = true; else if (a == "--crosscheck") CROSSCHECK = true; else if (a == "--no-extern") EXTERN_SOLVERS = false; else if (auto x = v("--poly-limit=")) POLY_LIMIT = atoll(x); else file = a; }
  LLVMContext ctx; SMDiagnostic err; MOD = parseIRFile(file, err, ctx); if (!MOD) { err.print("utsym", errs()); return 2; } DL = &MOD->getDataLayout();
  if (STATE) { // variables of the code under test that outlive a call
    for (auto& g : MOD->globals()) { std::string n = g.getName().str(); if (g.isConstant() || g.isDeclaration() || g.use_empty() || n.compare(0, 2, "_Z") || n.find("8Ubitrack") == std::string::npos || n.find("ogger") != std::string::npos || n.find("L3RNGE") != std::string::npos || n.compare(0, 4, "_ZGV") == 0 || n.compare(0, 3, "_ZT") == 0) continue; std::cout << n << "\n"; } std::cout.flush(); _exit(0); }
  z3::context c; C = &c; Z3_set_error_handler(c, nullptr); initExt();
  Function* f = MOD->getFunction(entry); if (!f || f->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 2; }
  { ENTRY = f; auto s = std::make_unique<State>(); pushFrame(*s, f, nullptr, {}); WORK.push_back(std::move(s)); }
  std::string status = "complete"; std::string outf = out, ent = entry;
  std::thread([&c, outf, ent]() { for (;;) { usleep(200000); double t = now() - T0; if (t > TIME_LIMIT) { STOP_NOW = true; Z3_interrupt(c); } if (t > TIME_LIMIT + 25) { INCOMPLETE.push_back("time limit (hard)"); writeOut(outf, ent, "time-limit"); _exit(0); } } }).detach();
  while (!WORK.empty()) {
    if (now() - T0 > TIME_LIMIT) { status = "time-limit"; INCOMPLETE.push_back("time limit with " + std::to_string(WORK.size()) + " paths pending"); break; }
    if (ST.paths >= MAX_PATHS) { status = "path-limit"; INCOMPLETE.push_back("path limit"); break; }
    auto s = std::move(WORK.back()); WORK.pop_back(); ST.paths++;
    try { try { for (;;) { step(*s); if ((s->ninstr & 1023) == 0) { if (now() - T0 > TIME_LIMIT) throw PathErr{"time limit"}; if (s->ninstr > MAX_INSTR) { doError(*s, "termination", "no end after " + std::to_string(MAX_INSTR) + " instructions in " + where(*s)); throw PathErr{"instruction limit"}; } } } }
      catch (MemErr& m) { doError(*s, "undefined-behaviour", m.why + " in " + where(*s)); } }
    catch (PathEnd& e) { if (e.why == "done") { if (REACHED["(end)"] < 1) { bool b; Res r = s->pc.empty() ? SAT : searchBad(*s, {keep(C->bool_val(true))}, nullptr, b); if (r == SAT) { REACHED["(end)"]++; if (HAVEIN && !s->pc.empty()) WITNESS = LASTIN; } } else REACHED["(end)"]++; } else if (startsWith(e.why, "uncaught:")) { try { doError(*s, "uncaught-exception", e.why.substr(9)); } catch (PathEnd&) {} } else ST.killed++; }
    catch (PathErr& e) { INCOMPLETE.push_back(e.why + " @ " + where(*s)); if (VERBOSE) std::cerr << "INCOMPLETE " << INCOMPLETE.back() << "\n"; }
    catch (TooBig& e) { if (STOP_NOW) INCOMPLETE.push_back("time limit"); else INCOMPLETE.push_back("polynomial too large @ " + where(*s)); if (VERBOSE) std::cerr << "TOOBIG " << where(*s) << "\n"; }
    catch (z3::exception& e) { INCOMPLETE.push_back(std::string("z3: ") + e.msg()); }
    catch (std::exception& e) { INCOMPLETE.push_back(std::string("internal: ") + e.what() + " @ " + where(*s)); if (VERBOSE) std::cerr << INCOMPLETE.back() << "\n"; }
  }
  if (!INCOMPLETE.empty() && status == "complete") status = "incomplete";
  writeOut(out, entry, status); fflush(stdout); _exit(0);
}

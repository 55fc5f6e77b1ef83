// ------------------------------------------------------------------ memory
static uint64_t allocObj(State& s, uint64_t size, const std::string& name, bool heap = false, bool zero = false, uint64_t align = 16) {
  uint64_t a = (s.brk + 64 + 63) & ~63ull; if (align > 64) a = (a + align - 1) / align * align; s.brk = a + (size ? size : 1) + 64;
  auto o = std::make_shared<Obj>(); o->base = a; o->size = size; o->heap = heap; o->zero = zero; o->name = name; s.mem[a] = o; return a;
}
static uint64_t globalAddr(State& s, const GlobalValue* g);
static std::map<uint64_t, Function*> FADDR; static std::map<const Function*, uint64_t> FADDR2;
static uint64_t funcAddr(const Function* f) { auto it = FADDR2.find(f); if (it != FADDR2.end()) return it->second; uint64_t a = 0x1000 + 16 * FADDR2.size(); FADDR2[f] = a; FADDR[a] = (Function*)f; return a; }
static Obj* findObj(State& s, uint64_t a, uint64_t n, bool write) {
  auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it; Obj* o = it->second.get();
  if (a < o->base || a + n > o->base + o->size || a + n < a) return nullptr;
  if (!o->alive) return nullptr;
  if (write && it->second.use_count() > 1) { it->second = std::make_shared<Obj>(*o); o = it->second.get(); }
  return o;
}
struct MemErr { std::string why; };
static Obj& needObj(State& s, uint64_t a, uint64_t n, bool write) {
  Obj* o = findObj(s, a, n, write);
  if (!o) { std::ostringstream m; m << (write ? "invalid write of " : "invalid read of ") << n << " bytes at 0x" << std::hex << a;
    auto it = s.mem.upper_bound(a); if (it != s.mem.begin()) { --it; m << " near " << it->second->name << " size " << std::dec << it->second->size << (it->second->alive ? "" : " (freed)") << " offset " << (int64_t)(a - it->second->base); } throw MemErr{m.str()}; }
  return *o;
}
static Val realToBits(const Val& v) { // only for constants that are exact
  if (v.k != Val::R) return v;
  if (pisconst(v.r)) { mpq_class q = pcval(v.r); double d = q.get_d(); // get_d truncates; pick nearest
    double c[3] = {d, std::nextafter(d, INFINITY), std::nextafter(d, -INFINITY)}; double best = d; mpq_class bd = abs(mpq_class(d) - q); for (double x : c) { if (!std::isfinite(x)) continue; mpq_class dd = abs(mpq_class(x) - q); if (dd < bd) { bd = dd; best = x; } }
    if (v.w == 64) { uint64_t b; memcpy(&b, &best, 8); return Val::Int(64, b); } float f = (float)best; uint32_t b; memcpy(&b, &f, 4); return Val::Int(32, b); }
  throw PathErr{"bytes of a symbolic real"};
}
static Val extractByte(const Val& v0, unsigned idx) { // little endian byte idx
  Val v = realToBits(v0); if (v.k == Val::U) return Val::Int(8, 0);
  unsigned w = v.w; if (v.k == Val::I) { APInt x = v.i.zext(std::max(w, (idx + 1) * 8)); return Val::Int(x.extractBits(8, idx * 8)); }
  z3::expr e = Bv(v); if (w < (idx + 1) * 8) { if (w <= idx * 8) return Val::Int(8, 0); e = z3::zext(e, (idx + 1) * 8 - w); }
  return mkE(8, e.extract(idx * 8 + 7, idx * 8));
}
static void writeCell(Obj& o, uint64_t off, unsigned sz, const Val& v) {
  // split overlapping cells
  auto it = o.c.lower_bound(off); if (it != o.c.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > off) it = p; }
  while (it != o.c.end() && it->first < off + sz) {
    uint64_t b = it->first; Cell c = it->second; it = o.c.erase(it);
    if (b >= off && b + c.sz <= off + sz) continue;
    for (unsigned k = 0; k < c.sz; k++) if (b + k < off || b + k >= off + sz) o.c[b + k] = Cell{1, extractByte(c.v, k)};
    it = o.c.lower_bound(off);
  }
  o.c[off] = Cell{sz, v};
}
static void storeVal(State& s, uint64_t a, unsigned sz, const Val& v) { Obj& o = needObj(s, a, sz, true); if (o.ro) throw MemErr{"write to constant " + o.name}; writeCell(o, a - o.base, sz, v); }
static Val fromBits(const Val& v, Type* t); // ints to fp if needed
static Val freshUndef(State& s, Type* t, unsigned sz, const std::string& nm) {
  std::string n = "uninit!" + nm + "!" + std::to_string(s.undefs++);
  if (REALMODE && (t->isDoubleTy() || t->isFloatTy())) { static std::map<std::string, AtomId> M1; auto it = M1.find(n); if (it == M1.end()) { Atom a; a.k = Atom::Var; a.name = n; it = M1.insert({n, newAtom(a)}).first; } return Val::Real(patom(it->second), sz * 8); }
  return Val::Expr(sz * 8, keep(C->bv_const(n.c_str(), sz * 8)));
}
static Val loadRaw(State& s, uint64_t a, unsigned sz, Type* t) {
  Obj& o = needObj(s, a, sz, false); uint64_t off = a - o.base;
  auto it = o.c.find(off); if (it != o.c.end() && it->second.sz == sz) return it->second.v;
  // assemble bytes
  bool anyU = false, allU = true; std::vector<Val> by(sz);
  for (unsigned k = 0; k < sz; k++) {
    auto j = o.c.upper_bound(off + k); bool got = false;
    if (j != o.c.begin()) { --j; if (j->first + j->second.sz > off + k) { if (j->second.v.k == Val::U) anyU = true; else { by[k] = extractByte(j->second.v, off + k - j->first); got = true; allU = false; } } }
    if (!got) { if (o.zero) { by[k] = Val::Int(8, 0); allU = false; } else { anyU = true; by[k].k = Val::U; } }
  }
  if (anyU && allU) { Val f = freshUndef(s, t, sz, o.name + "+" + std::to_string(off)); Obj& ow = needObj(s, a, sz, true); writeCell(ow, off, sz, f); return f; }
  bool conc = true; for (auto& b : by) { if (b.k == Val::U) b = Val::Int(8, 0); if (b.k != Val::I) conc = false; }
  if (conc) { APInt r(sz * 8, 0); for (unsigned k = 0; k < sz; k++) r.insertBits(by[k].i, k * 8); return Val::Int(r); }
  z3::expr e = Bv(by[sz - 1]); for (int k = (int)sz - 2; k >= 0; k--) e = z3::concat(e, Bv(by[k])); return mkE(sz * 8, e);
}
static unsigned storeSize(Type* t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static Val loadVal(State& s, uint64_t a, Type* t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { std::vector<Val> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getContainedType(0); uint64_t off = t->isStructTy() ? DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(et).getFixedValue(); v.push_back(loadVal(s, a + off, et)); } return Val::Agg(v); }
  Val v = loadRaw(s, a, storeSize(t), t);
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (v.k == Val::I && v.w != w) return Val::Int(v.i.zextOrTrunc(w)); if (v.k == Val::E && v.w != w) { if (w == 1) return mkE(1, Bv(v).extract(0, 0) == C->bv_val(1, 1)); return mkE(w, Bv(v).extract(w - 1, 0)); } return v; }
  return fromBits(v, t);
}
static void storeTyped(State& s, uint64_t a, Type* t, const Val& v) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getContainedType(0); uint64_t off = t->isStructTy() ? DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(et).getFixedValue(); Val u; storeTyped(s, a + off, et, v.k == Val::A ? (*v.agg)[i] : u); } return; }
  unsigned sz = storeSize(t); Val x = v;
  if (x.k == Val::I && x.w != sz * 8) x = Val::Int(x.i.zextOrTrunc(sz * 8)); else if (x.k == Val::E && x.w != sz * 8) x = mkE(sz * 8, z3::zext(Bv(x), sz * 8 - x.w));
  storeVal(s, a, sz, x);
}
static void copyMem(State& s, uint64_t d, uint64_t a, uint64_t n) {
  if (!n || d == a) return; Obj so = needObj(s, a, n, false); Obj& dob = needObj(s, d, n, true); if (dob.ro) throw MemErr{"write to constant " + dob.name};
  uint64_t so0 = a - so.base, do0 = d - dob.base;
  // clear destination
  { auto it = dob.c.lower_bound(do0); if (it != dob.c.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > do0) it = p; }
    while (it != dob.c.end() && it->first < do0 + n) { uint64_t b = it->first; Cell c = it->second; it = dob.c.erase(it); if (b >= do0 && b + c.sz <= do0 + n) continue; for (unsigned k = 0; k < c.sz; k++) if (b + k < do0 || b + k >= do0 + n) dob.c[b + k] = Cell{1, extractByte(c.v, k)}; it = dob.c.lower_bound(do0); } }
  if (so.zero) { if (!dob.zero) for (uint64_t k = 0; k < n; k++) { auto j = so.c.upper_bound(so0 + k); bool cov = false; if (j != so.c.begin()) { --j; cov = j->first + j->second.sz > so0 + k; } if (!cov) dob.c[do0 + k] = Cell{1, Val::Int(8, 0)}; } }
  else if (dob.zero) { for (uint64_t k = 0; k < n; k++) { auto j = so.c.upper_bound(so0 + k); bool cov = false; if (j != so.c.begin()) { --j; cov = j->first + j->second.sz > so0 + k; } if (!cov) { Val u; dob.c[do0 + k] = Cell{1, u}; } } }
  auto it = so.c.lower_bound(so0); if (it != so.c.begin()) { auto p = std::prev(it); if (p->first + p->second.sz > so0) it = p; }
  for (; it != so.c.end() && it->first < so0 + n; ++it) { uint64_t b = it->first; auto& c = it->second;
    if (b >= so0 && b + c.sz <= so0 + n) dob.c[do0 + (b - so0)] = c;
    else for (unsigned k = 0; k < c.sz; k++) if (b + k >= so0 && b + k < so0 + n) dob.c[do0 + (b + k - so0)] = Cell{1, c.v.k == Val::U ? c.v : extractByte(c.v, k)}; }
}
static Val constVal(State& s, const Constant* c);
static void initGlobal(State& s, uint64_t a, const Constant* c) {
  Type* t = c->getType(); if (isa<ConstantAggregateZero>(c)) return; if (isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()).getFixedValue(); for (unsigned i = 0; i < cd->getNumElements(); i++) initGlobal(s, a + i * es, cd->getElementAsConstant(i)); return; }
  if (t->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(s, a + sl->getElementOffset(i).getFixedValue(), cast<Constant>(c->getOperand(i))); return; }
  if (t->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue(); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(s, a + i * es, cast<Constant>(c->getOperand(i))); return; }
  storeTyped(s, a, t, constVal(s, c));
}
static uint64_t globalAddr(State& s, const GlobalValue* g) {
  if (auto* al = dyn_cast<GlobalAlias>(g)) { auto v = constVal(s, al->getAliasee()); return v.i.getZExtValue(); }
  if (auto* f = dyn_cast<Function>(g)) return funcAddr(f);
  auto it = s.gaddr.find(g); if (it != s.gaddr.end()) return it->second;
  auto* gv = cast<GlobalVariable>(g);
  if (!gv->hasInitializer()) { uint64_t a = allocObj(s, 8192, g->getName().str(), false, true) + 2048; s.gaddr[g] = a; return a; }
  uint64_t a = allocObj(s, DL->getTypeAllocSize(gv->getValueType()).getFixedValue(), g->getName().str(), false, true); s.gaddr[g] = a;
  initGlobal(s, a, gv->getInitializer()); if (gv->isConstant()) s.mem[a]->ro = true; return a;
}

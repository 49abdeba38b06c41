// ---------------------------------------------------------------- control flow
void Exec::advance() { fr->ip++; }
void Exec::jump(int b) {
  BB& x = fr->f->bbs[b];
  auto it = x.phi.find(fr->bb);
  if (it != x.phi.end()) { static std::vector<Val> tmp; tmp.clear(); for (auto& p : it->second) for (unsigned l = 0; l < p.n; l++) tmp.push_back(p.src.r >= 0 ? fr->r[p.src.r + l] : fr->f->consts[p.src.k + l]); size_t k = 0; for (auto& p : it->second) for (unsigned l = 0; l < p.n; l++) fr->r[p.dst + l] = tmp[k++]; }
  fr->bb = b; fr->ip = x.first;
}
void Exec::pushCall(Func* f, std::vector<Val>& args, bool adv, int tid) {
  decode(f); f->entered = true; f->calls++;
  if (cur->st.size() > 4000) violation("stack", "call depth exceeded 4000 (unbounded recursion)", nullptr, true);
  Frame* n = new Frame(); n->f = f; n->r.assign(f->nregs, Val{0, nullptr}); n->advance = adv; n->tid = tid; n->bb = 0; n->ip = f->bbs[0].first;
  size_t k = 0; unsigned ai = 0; for (auto& a : f->F->args()) { unsigned nl = leaves(a.getType()).size(); 
    for (unsigned l = 0; l < nl && k < args.size(); l++) n->r[f->argReg[ai] + l] = args[k++]; ai++; }
  cur->st.push_back(P<Frame>(n)); fr = n;
}
void Exec::ret(DI* d) { // return from the top frame; d: ReturnInst (may be null)
  std::vector<Val> rv; if (d && !d->o.empty()) for (unsigned l = 0; l < d->o[0].n; l++) rv.push_back(op(*d, 0, l));
  bool adv = fr->advance; int tid = fr->tid; for (uint32_t id : fr->allocas) cur->mem.free(id);
  cur->st.pop_back(); if (cur->st.empty()) { fr = nullptr; return; }
  fr = &top();
  if (tid == 0 || (tid > 0 && false)) {}
  if (!adv) return;
  if (cur->omp && cur->st.size() <= cur->omp->depth) cur->omp = nullptr;
  DI& c = fr->f->code[fr->ip]; for (unsigned l = 0; l < rv.size() && l < c.nl; l++) setv(c, rv[l], l);
  if (c.opc == Instruction::Invoke) jump(c.b0); else advance();
}
void Exec::unwind() {
  for (;;) { for (uint32_t id : fr->allocas) cur->mem.free(id); bool adv = fr->advance; (void)adv; cur->st.pop_back();
    if (cur->st.empty()) { fr = nullptr; violation("exception", "uncaught exception" + (tiName.count(cur->exnType.c) ? " of type " + demangle(tiName[cur->exnType.c]) : std::string()), nullptr, true); }
    fr = &top(); if (cur->omp && cur->st.size() <= cur->omp->depth) cur->omp = nullptr; DI& c = fr->f->code[fr->ip]; if (c.opc == Instruction::Invoke) { jump(c.b1); return; } }
}
void Exec::doCall(DI& d, Func* f) {
  if (!f->F->isDeclaration() && !f->extResolved) { f->extResolved = true; auto it = exts.find(f->F->getName().str()); if (it != exts.end()) f->ext = it->second; }
  if (f->F->isDeclaration() || f->ext) { callExt(d, f); return; }
  auto* cb = cast<CallBase>(d.I); std::vector<Val> args; unsigned na = cb->arg_size();
  for (unsigned i = 0; i < na; i++) {
    if (cb->isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t src = concretize(op(d, i), 64, "byval argument"); uint32_t id = cur->mem.alloc(sz, K_STACK, true); copyMem(ADDR(id), src, sz); args.push_back(CV(ADDR(id)));
      // owned by callee frame
      d.aux = id; continue; }
    for (unsigned l = 0; l < d.o[i].n; l++) args.push_back(op(d, i, l));
  }
  std::vector<uint32_t> bv; { unsigned k = 0; for (unsigned i = 0; i < na; i++) { if (cb->isByValArgument(i)) bv.push_back(args[k].c >> 32); k += d.o[i].n; } }
  if (f->F->isVarArg()) throw Unsupported{"call to variadic function with a body: " + f->F->getName().str()};
  pushCall(f, args); for (uint32_t x : bv) fr->allocas.push_back(x);
}
static void finishCall(Exec& X, DI& d) { if (d.opc == Instruction::Invoke) X.jump(d.b0); else X.advance(); }
void Exec::callExt(DI& d, Func* f) {
  if (!f->extResolved || !f->ext) { f->extResolved = true; std::string n = f->F->getName().str(); auto it = exts.find(n);
    if (it == exts.end() && f->F->isIntrinsic()) { // strip type suffixes
      std::string m = n; while (it == exts.end()) { size_t p = m.rfind('.'); if (p == std::string::npos || p < 5) break; m = m.substr(0, p); it = exts.find(m); } }
    if (it == exts.end()) throw Unsupported{"call to external function without a model: " + demangle(n)};
    f->ext = it->second; stubsUsed.insert(n); }
  size_t depth = cur->st.size(); uint32_t ip = fr->ip; Frame* before = fr; 
  f->ext(*this, d);
  if (fr == before && cur->st.size() == depth && fr->ip == ip) finishCall(*this, d);
}

void Exec::step() {
  DI& d = fr->f->code[fr->ip];
  switch (d.opc) {
    case Instruction::Ret: ret(&d); return;
    case Instruction::Br: if (d.o.empty()) { jump(d.b0); return; } { Val& c = op(d, 0); bool t = c.e ? decide(c.e, "branch") : (c.c & 1); jump(t ? d.b0 : d.b1); return; }
    case Instruction::Switch: { Val& c = op(d, 0); if (!c.e) { for (auto& k : d.scale) if (k.second == c.c) { jump(k.first); return; } jump(d.b0); return; }
      for (auto& k : d.scale) if (decide(mkCmp(EQ, c.e, mkConst(k.second, d.w)), "switch")) { jump(k.first); return; } jump(d.b0); return; }
    case Instruction::Unreachable: violation("unreachable", "control reaches a point the compiler may assume unreachable (e.g. missing return)", nullptr, true); return;
    case Instruction::Alloca: { uint64_t n = d.aux; Val& c = op(d, 0); n *= concretize(c, 64, "alloca size"); uint32_t id = cur->mem.alloc(n, K_STACK, checkUninit); fr->allocas.push_back(id); setv(d, CV(ADDR(id))); break; }
    case Instruction::Load: { uint64_t a = concretize(op(d, 0), 64, "load address"); for (unsigned l = 0; l < d.nl; l++) setv(d, load(a + (*d.L)[l].off, (*d.L)[l]), l); break; }
    case Instruction::Store: { uint64_t a = concretize(op(d, 1), 64, "store address"); auto& L = leaves(d.I->getOperand(0)->getType()); for (unsigned l = 0; l < L.size(); l++) store(a + L[l].off, L[l], op(d, 0, l)); break; }
    case Instruction::GetElementPtr: { Val b = op(d, 0); 
      bool sym = b.e; for (auto& s : d.scale) if (op(d, s.first).e) sym = true;
      if (!sym) { uint64_t a = b.c + d.aux; for (auto& s : d.scale) { unsigned w = s.second >> 48; a += (uint64_t)(sxt(op(d, s.first).c, w) * (int64_t)(s.second & 0xffffffffffffULL)); } setv(d, CV(a)); }
      else { Expr* e = mkBin(ADD, E(b, 64), mkConst(d.aux, 64)); for (auto& s : d.scale) { unsigned w = s.second >> 48; Val v = op(d, s.first); Expr* x = mkSExt(E(v, w), 64); e = mkBin(ADD, e, mkBin(MUL, x, mkConst(s.second & 0xffffffffffffULL, 64))); } setv(d, fromE(e)); }
      break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      for (unsigned l = 0; l < d.nl; l++) { Val v = ibin(d.opc, op(d, 0, l), op(d, 1, l), d.w, d.I); setv(d, v, l); } break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      for (unsigned l = 0; l < d.nl; l++) { Val v = fbin(d.opc, op(d, 0, l), op(d, 1, l), d.w == 64); setv(d, v, l); } break;
    case Instruction::FNeg: for (unsigned l = 0; l < d.nl; l++) setv(d, fneg(op(d, 0, l), d.w == 64), l); break;
    case Instruction::ICmp: for (unsigned l = 0; l < d.nl; l++) setv(d, icmp(cast<ICmpInst>(d.I)->getPredicate(), op(d, 0, l), op(d, 1, l), d.ow), l); break;
    case Instruction::FCmp: for (unsigned l = 0; l < d.nl; l++) { Val v = fcmp(cast<FCmpInst>(d.I)->getPredicate(), op(d, 0, l), op(d, 1, l), d.ow == 64); setv(d, v, l); } break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      auto& SL = leaves(d.I->getOperand(0)->getType()); for (unsigned l = 0; l < d.nl; l++) { Val v = castv(d.opc, op(d, 0, l), SL[l], (*d.L)[l]); setv(d, v, l); } break; }
    case Instruction::BitCast: { auto& SL = leaves(d.I->getOperand(0)->getType()); if (SL.size() == d.nl) { for (unsigned l = 0; l < d.nl; l++) setv(d, castv(d.opc, op(d, 0, l), SL[l], (*d.L)[l]), l); break; }
      // vector reshaping through memory
      uint32_t id = cur->mem.alloc(64, K_STACK, true); for (unsigned l = 0; l < SL.size(); l++) store(ADDR(id) + SL[l].off, SL[l], op(d, 0, l)); for (unsigned l = 0; l < d.nl; l++) setv(d, load(ADDR(id) + (*d.L)[l].off, (*d.L)[l]), l); cur->mem.free(id); break; }
    case Instruction::Select: { bool vc = d.I->getOperand(0)->getType()->isVectorTy(); bool ptr = d.I->getType()->isPointerTy(); std::vector<Val> r; for (unsigned l = 0; l < d.nl; l++) r.push_back(select(op(d, 0, vc ? l : 0), op(d, 1, l), op(d, 2, l), (*d.L)[l], ptr)); for (unsigned l = 0; l < d.nl; l++) setv(d, r[l], l); break; }
    case Instruction::ExtractValue: { std::vector<Val> t; for (unsigned l = 0; l < d.nl; l++) t.push_back(op(d, 0, d.aux + l)); for (unsigned l = 0; l < d.nl; l++) setv(d, t[l], l); break; }
    case Instruction::InsertValue: { for (unsigned l = 0; l < d.nl; l++) setv(d, op(d, 0, l), l); for (unsigned l = 0; l < d.o[1].n; l++) setv(d, op(d, 1, l), d.aux + l); break; }
    case Instruction::ExtractElement: { uint64_t i = concretize(op(d, 1), 64, "vector index"); setv(d, op(d, 0, i)); break; }
    case Instruction::InsertElement: { uint64_t i = concretize(op(d, 2), 64, "vector index"); Val v = op(d, 1); for (unsigned l = 0; l < d.nl; l++) setv(d, op(d, 0, l), l); setv(d, v, i); break; }
    case Instruction::ShuffleVector: { unsigned n0 = d.o[0].n; std::vector<Val> t; for (unsigned l = 0; l < d.nl; l++) { int m = d.idx[l]; t.push_back(m < 0 ? Val{0, mkUndef(d.w)} : (unsigned)m < n0 ? op(d, 0, m) : op(d, 1, m - n0)); } for (unsigned l = 0; l < d.nl; l++) setv(d, t[l], l); break; }
    case Instruction::Freeze: for (unsigned l = 0; l < d.nl; l++) setv(d, op(d, 0, l), l); break;
    case Instruction::Call: case Instruction::Invoke: {
      if (d.callee) { doCall(d, d.callee); return; }
      if (!d.extName.empty()) throw Unsupported{d.extName};
      Val& t = op(d, d.o.size() - 1); uint64_t a = concretize(t, 64, "call target"); auto it = faddr.find(a); if (it == faddr.end()) { memErr("call through a null or wild function pointer"); }
      doCall(d, it->second); return; }
    case Instruction::LandingPad: {
      auto* lp = cast<LandingPadInst>(d.I); uint64_t sel = 0; bool ok = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = 0x7fffffff; ok = true; break; } uint64_t ca = constScalar(c).c; if (typeMatches(cur->exnType.c, ca)) { sel = ca >> 32; ok = true; break; } }
      if (!ok) { unwind(); return; }
      setv(d, cur->exn, 0); setv(d, CV(sel), 1); break; }
    case Instruction::Resume: unwind(); return;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(d.I); uint64_t a = concretize(op(d, 0), 64, "atomic address"); Val old = load(a, (*d.L)[0]); Val v = op(d, 1), nv; switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = ibin(Instruction::Add, old, v, d.w, d.I); break; case AtomicRMWInst::Sub: nv = ibin(Instruction::Sub, old, v, d.w, d.I); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = ibin(Instruction::Or, old, v, d.w, d.I); break; case AtomicRMWInst::And: nv = ibin(Instruction::And, old, v, d.w, d.I); break; default: throw Unsupported{"atomicrmw"}; } store(a, (*d.L)[0], nv); setv(d, old); break; }
    case Instruction::AtomicCmpXchg: { uint64_t a = concretize(op(d, 0), 64, "atomic address"); Leaf l = (*d.L)[0]; Val old = load(a, l); Val eq = icmp(CmpInst::ICMP_EQ, old, op(d, 1), l.w); bool t = eq.e ? decide(eq.e, "cmpxchg") : eq.c; if (t) store(a, l, op(d, 2)); setv(d, old, 0); setv(d, CV(t), 1); break; }
    default: throw Unsupported{std::string("instruction ") + d.I->getOpcodeName()};
  }
  fr->ip++;
}

// ---------------------------------------------------------------- external functions
Val Exec::newVar(const std::string& base, bool real, unsigned w, double lo, double hi, int grid, bool fb, uint64_t dflt) {
  int k = cur->names[base]++; std::string name = k ? base + "#" + std::to_string(k) : base;
  std::string key = name + "/" + (real ? "R" : "B") + std::to_string(w) + "/" + std::to_string(lo) + "/" + std::to_string(hi) + "/" + std::to_string(grid);
  unsigned id; auto it = varIds.find(key); if (it == varIds.end()) { id = g_vars.size(); g_vars.push_back({name, real, w, lo, hi, grid, fb, dflt}); varIds[key] = id; } else id = it->second;
  cur->vars.push_back({id, name});
  Expr* e = mkRaw(real ? RVAR : VAR, real ? 0 : w, id); if (real) { e->lo = lo; e->hi = hi; e->grid = grid; e->approx = false; }
  return Val{0, e};
}
static std::string nm(Exec& X, DI& d, unsigned i) { return X.cstr(X.op(d, i).c, "name"); }
#define EXT(n) X.exts[n] = [](Exec& X, DI& d)
static const char* fmtSpec(const char* p, std::string& spec) { const char* s = p; while (*s && !strchr("diouxXcsfFeEgGpn%", *s)) s++; spec = std::string(p, *s ? s + 1 : s); return *s ? s + 1 : s; }
static std::string formatArgs(Exec& X, DI& d, unsigned fi) {
  std::string f = X.cstr(X.op(d, fi).c, "format"), out; unsigned ai = fi + 1; const char* p = f.c_str();
  while (*p) { if (*p != '%') { out += *p++; continue; } p++; std::string sp; p = fmtSpec(p, sp); char t = sp.back(); if (t == '%') { out += '%'; continue; }
    std::string pure; for (char c : sp) if (c != 'l' && c != 'h' && c != 'z') pure += c; bool lng = pure.size() != sp.size(); char buf[400];
    if (t == 's') { std::string s = X.cstr(X.op(d, ai++).c, "%s"); snprintf(buf, 400, ("%" + pure).c_str(), s.c_str()); }
    else if (strchr("fFeEgG", t)) { Val v = X.op(d, ai++); if (v.e) throw Unsupported{"formatting a symbolic float"}; snprintf(buf, 400, ("%" + pure).c_str(), dbits(v.c)); }
    else { unsigned w = X.leaves_w(d, ai); uint64_t v = X.concretize(X.op(d, ai), w, "formatted integer"); ai++; std::string q = pure.substr(0, pure.size() - 1) + "ll" + t; if (t == 'c') q = pure; long long x = (t == 'd' || t == 'i') ? sxt(v, lng ? 64 : 32) : (long long)(lng ? v : (v & 0xffffffff)); if (t == 'c') snprintf(buf, 400, ("%" + q).c_str(), (int)x); else snprintf(buf, 400, ("%" + q).c_str(), x); }
    out += buf; }
  return out;
}
void Exec::registerExts() {
  Exec& X = *this;
  // --- harness interface
  EXT("sx_choose") { std::string n = nm(X, d, 0); int64_t lo = sxt(X.op(d, 1).c, 32), hi = sxt(X.op(d, 2).c, 32); Val v;
    // split over all values: on re-execution the variable already exists
    std::string key = "choose:" + n; if (!X.cur->kv.count(key)) { v = X.newVar(n, false, 32, lo, hi, 0, false, (uint32_t)lo); X.cur->kv[key] = v.e->c; X.cur->pc.push_back(mkCmp(SLE, mkConst(lo, 32), v.e)); X.cur->pc.push_back(mkCmp(SLE, v.e, mkConst(hi, 32))); if (X.cur->model) { auto m = std::make_shared<Model>(*X.cur->model); m->memo.clear(); X.cur->model = m; } if (lo > hi) throw Unsupported{"empty choice"}; }
    else v = Val{0, mkRaw(VAR, 32, X.cur->kv[key])};
    uint64_t x = X.concretize(v, 32, "choice"); X.cur->kv.erase(key); X.setv(d, CV(x)); };
  EXT("sx_int") { std::string n = nm(X, d, 0); int64_t lo = sxt(X.op(d, 1).c, 32), hi = sxt(X.op(d, 2).c, 32); Val v = X.newVar(n, false, 32, lo, hi, 0, false, (uint32_t)lo);
    if (lo > -2147483648LL) X.cur->pc.push_back(mkCmp(SLE, mkConst(lo, 32), v.e)); if (hi < 2147483647LL) X.cur->pc.push_back(mkCmp(SLE, v.e, mkConst(hi, 32))); X.setv(d, v); };
  EXT("sx_u8") { X.setv(d, X.newVar(nm(X, d, 0), false, 8, 0, 255, 0, false, 0)); };
  EXT("sx_u32") { X.setv(d, X.newVar(nm(X, d, 0), false, 32, 0, 0, 0, false, 0)); };
  EXT("sx_u64") { X.setv(d, X.newVar(nm(X, d, 0), false, 64, 0, 0, 0, false, 0)); };
  EXT("sx_bool") { X.setv(d, Val{0, mkZExt(X.newVar(nm(X, d, 0), false, 1, 0, 1, 0, false, 0).e, d.w)}); };
  EXT("sx_float_bits") { X.setv(d, X.newVar(nm(X, d, 0), false, 32, 0, 0, 0, true, 0)); };
  EXT("sx_real") { std::string n = nm(X, d, 0); int64_t lo = sxt(X.op(d, 1).c, 32), hi = sxt(X.op(d, 2).c, 32); int g = sxt(X.op(d, 3).c, 32); double L = ldexp((double)lo, -g), H = ldexp((double)hi, -g); double df = L <= 0 && H >= 0 ? 0 : L;
    X.setv(d, X.newVar(n, true, 0, L, H, g, false, bitsd(df))); };
  EXT("sx_assume") { Val& v = X.op(d, 0); if (!v.e) { if (!(v.c & 1)) { X.assumeKilled++; X.kill(); } return; } Expr* e = v.e->w == 1 ? v.e : mkCmp(EQ, mkExtract(v.e, 0, 1), mkConst(1, 1)); if (e->op == CONST) { if (!e->c) { X.assumeKilled++; X.kill(); } return; } if (e->undef) X.violation("uninitialised", "assumption on uninitialised memory", nullptr, true);
    X.cur->pc.push_back(e); if (X.cur->model && (evalModel(*X.cur->model, e) & 1)) return; ModelP m; Res r = X.S.check(X.cur->pc, nullptr, &m); if (r == UNSAT) { X.assumeKilled++; X.kill(); } X.cur->model = r == SAT ? m : nullptr; if (r == UNKNOWN) X.branchUnknown++; };
  auto asrt = [](Exec& X, DI& d, Expr* e, const std::string& msg) {
    X.assertMsgs[msg]++; if (e->op == CONST) { X.assertsConcrete++; if (!e->c) X.violation("assert", msg, nullptr, false); return; }
    if (e->undef) { X.violation("uninitialised", "checked value depends on uninitialised memory: " + msg, nullptr, false); return; }
    if (X.violKeys.count("assert|" + msg)) return; X.assertsSolver++;
    Expr* ne = mkNot(e); ModelP m; if (hasDiv(e)) { m = X.sample(ne, 60); if (m) { X.violation("assert", msg, ne, false, m); return; } }
    Res r = X.S.check(X.cur->pc, ne, &m);
    if (r == UNSAT) return; if (r == UNKNOWN) { X.inconclusive++; X.errors.push_back("solver gave no answer: " + msg); return; }
    X.violation("assert", msg, ne, false); X.cur->pc.push_back(e); X.cur->model = nullptr; };
  static auto asrtS = asrt;
  EXT("sx_assert") { Val v = X.op(d, 0); std::string msg = nm(X, d, 1); Expr* e = v.e ? (v.e->w == 1 ? v.e : mkCmp(EQ, mkExtract(v.e, 0, 1), mkConst(1, 1))) : mkConst(v.c & 1, 1); asrtS(X, d, e, msg); };
  EXT("sx_assert_feq") { std::string msg = nm(X, d, 2); Val a = X.op(d, 0), b = X.op(d, 1); Expr* e; // doubles
    if ((a.e && a.e->undef) || (b.e && b.e->undef)) { X.assertMsgs[msg]++; X.violation("uninitialised", "checked value depends on uninitialised memory: " + msg, nullptr, false); return; }
    if (!a.e && !b.e) { double x = dbits(a.c), y = dbits(b.c); bool ok = x == y || (std::isnan(x) && std::isnan(y)) || fabs(x - y) <= 2e-4 * (1 + std::max(fabs(x), fabs(y))); e = mkConst(ok, 1); }
    else if (isNonFin(a, true) || isNonFin(b, true)) e = mkConst(0, 1);
    else if ((a.e && a.e->w) || (b.e && b.e->w)) { bool sR = (a.e && !a.e->w) || (b.e && !b.e->w); if (sR) throw Unsupported{"mixed feq"}; Val r = X.fcmp(CmpInst::FCMP_OEQ, a, b, true); e = X.E(r, 1); }
    else { Expr *x = X.R(a, true), *y = X.R(b, true); e = mkRCmp(REQ, x, y);
      if (x == y && x->op != RCONST) { X.S.identity(x, y); X.assertMsgs[msg]++; X.assertsSolver++; return; }
      if (hasDiv(x) || hasDiv(y)) { Expr *nx = polyNormal(x), *ny = polyNormal(y); if (getenv("SYMX_DUMP")) { dumpExpr(x); dumpExpr(y); if (nx) dumpExpr(nx); if (ny) dumpExpr(ny); } if (nx && nx == ny) { X.S.identity(nx, ny); X.assertMsgs[msg]++; X.assertsSolver++; return; } }
      if (x->op == RCONST || y->op == RCONST || x->approx || y->approx) { if (x->approx || y->approx) { // values computed through rounded operations: compare with a tolerance
          if (e->op != CONST && !hasDiv(e)) { Expr* ne = mkNot(e); ModelP m; if (!X.violKeys.count("assert|" + msg) && X.S.check(X.cur->pc, ne, nullptr) == UNSAT) { X.assertMsgs[msg]++; X.assertsSolver++; return; } }
          Expr* df = mkRBin(RSUB, x, y, 0); Expr* tol = mkRConst(1.0 / 4096); e = mkBin(AND, mkRCmp(RLE, mkRBin(RSUB, mkRConst(0), tol, 0), df), mkRCmp(RLE, df, tol)); } } }
    asrtS(X, d, e, msg); };
  EXT("sx_assert_same") { std::string msg = nm(X, d, 2); Val a = X.op(d, 0), b = X.op(d, 1); // bit-for-bit equality of two floats
    if ((a.e && a.e->undef) || (b.e && b.e->undef)) { X.assertMsgs[msg]++; X.violation("uninitialised", "checked value depends on uninitialised memory: " + msg, nullptr, false); return; }
    if (!a.e && !b.e) { asrtS(X, d, mkConst(a.c == b.c, 1), msg); return; }
    bool r = (a.e && (a.e->w == 0 || a.e->op == RBITS)) || (b.e && (b.e->w == 0 || b.e->op == RBITS));
    if (r && (isNonFin(a, false) || isNonFin(b, false))) { asrtS(X, d, mkConst(0, 1), msg); return; }
    Expr *x = r ? X.R(a, false) : X.E(a, 32), *y = r ? X.R(b, false) : X.E(b, 32);
    if (x == y) { X.S.identity(x, y); X.assertMsgs[msg]++; X.assertsSolver++; return; }
    asrtS(X, d, r ? mkRCmp(REQ, x, y) : mkCmp(EQ, x, y), msg); };
  EXT("sx_reach") { std::string m = nm(X, d, 0); uint64_t& c = X.reach[m]; if (!c) { ModelP mm; bool real = false, off = false; for (auto& p : X.cur->vars) if (g_vars[p.first].real) real = true; Res r = UNKNOWN; if (real) { unsigned to = X.S.timeout_ms; X.S.timeout_ms = std::min(to, 3000u); r = X.S.check(X.cur->pc, nullptr, &mm, true); X.S.timeout_ms = to; off = r != SAT; } if (r != SAT) r = X.S.check(X.cur->pc, nullptr, &mm); if (r == UNSAT) { X.infeasible++; X.kill(); } if (r == SAT) { c++; std::string s, full = off ? "~ " : ""; for (auto& p : X.cur->vars) { VarInfo& vi = g_vars[p.first]; char b[64]; if (vi.real) snprintf(b, 64, "%.17g", p.first < mm->rv.size() ? mm->rv[p.first] : 0); else snprintf(b, 64, "%llu", (unsigned long long)(p.first < mm->bv.size() ? mm->bv[p.first] : vi.dflt)); full += p.second + "=" + b + " "; } s = full.size() > 300 ? full.substr(0, full.rfind(' ', 300)) + " ..." : full; X.samples[m] = s; X.witness[m] = full; } } else c++; };
  EXT("sx_note") { X.cur->notes.push_back(nm(X, d, 0)); };
  EXT("sx_symbolic") { X.setv(d, CV(1)); };
  EXT("sx_param") { std::string n = nm(X, d, 0); int64_t df = sxt(X.op(d, 1).c, 32); auto it = X.params.find(n); X.setv(d, CV((uint32_t)(it == X.params.end() ? df : it->second))); };
  EXT("sx_concrete") { X.setv(d, CV(X.concretize(X.op(d, 0), d.w, "sx_concrete"))); };
  EXT("sx_print") { std::string s = nm(X, d, 0); Val v = X.op(d, 1); if (v.e) fprintf(stderr, "[sx] %s <sym id %u op %d>\n", s.c_str(), v.e->id, v.e->op); else fprintf(stderr, "[sx] %s %lld\n", s.c_str(), (long long)v.c); };
  EXT("sx_printf") { std::string s = nm(X, d, 0); Val v = X.op(d, 1); if (v.e) fprintf(stderr, "[sx] %s <sym id %u op %d>\n", s.c_str(), v.e->id, v.e->op); else fprintf(stderr, "[sx] %s %g\n", s.c_str(), dbits(v.c)); };
  EXT("sx_undef_float") { X.setv(d, Val{0, mkUndef(32)}); };
  EXT("sx_make_undef") { X.setMem(X.op(d, 0).c, Val{0, mkUndef(8)}, X.op(d, 1).c); };
  EXT("sx_heap_live") { uint64_t n = 0; for (auto& c : X.cur->mem.ch) if (c) for (int i = 0; i < 64; i++) if (c->o[i]) { Kind k = c->o[i]->kind; if (k == K_NEW || k == K_NEWARR || k == K_MALLOC || k == K_MMAP) n++; } X.setv(d, CV((uint32_t)n)); };
  EXT("sx_alloc_mmap") { uint64_t n = X.concretize(X.op(d, 0), 64, "mmap size"); X.setv(d, CV(X.allocHeap(n, K_MMAP, false))); };
  EXT("sx_obj_size") { Obj* o = X.cur->mem.get(X.op(d, 0).c >> 32); X.setv(d, CV(o ? o->size : 0)); };
  EXT("sx_is_mmap") { uint64_t a = X.op(d, 0).c; Obj* o = X.cur->mem.get(a >> 32); X.setv(d, CV(o && o->kind == K_MMAP && (uint32_t)a == 0)); };
  EXT("sx_free_mmap") { X.freeHeap(X.op(d, 0).c, K_MMAP); };
  EXT("sx_fail") { X.violation("env", nm(X, d, 0), nullptr, true); };
  EXT("sx_strtod") { std::string s = X.cstr(X.op(d, 0).c, "number text"); char* e; double v = strtod(s.c_str(), &e); Leaf l{32, false, false, 0}; X.store(X.op(d, 1).c, l, CV((uint32_t)(e - s.c_str()))); X.setv(d, CV(bitsd(v))); };
  EXT("sx_fmt_double") { Val v = X.op(d, 1); char b[64]; if (v.e) snprintf(b, 64, "<sym%u>", v.e->id); else snprintf(b, 64, "%.*g", (int)X.op(d, 2).c, dbits(v.c)); X.storeBytes(X.op(d, 0).c, b, strlen(b) + 1); };
  // --- allocation
  auto nw = [](Kind k) { return k; }; (void)nw;
  for (const char* n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) EXT(n) { uint64_t sz = X.concretize(X.op(d, 0), 64, "allocation size"); X.setv(d, CV(X.allocHeap(sz, K_NEW, true))); };
  for (const char* n : {"_Znam", "_ZnamRKSt9nothrow_t"}) EXT(n) { uint64_t sz = X.concretize(X.op(d, 0), 64, "allocation size"); X.setv(d, CV(X.allocHeap(sz, K_NEWARR, true))); };
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t"}) EXT(n) { X.freeHeap(X.concretize(X.op(d, 0), 64, "free"), K_NEW); };
  for (const char* n : {"_ZdaPv", "_ZdaPvm"}) EXT(n) { X.freeHeap(X.concretize(X.op(d, 0), 64, "free"), K_NEWARR); };
  EXT("malloc") { X.setv(d, CV(X.allocHeap(X.concretize(X.op(d, 0), 64, "allocation size"), K_MALLOC, true))); };
  EXT("calloc") { uint64_t n = X.concretize(X.op(d, 0), 64, "allocation size") * X.concretize(X.op(d, 1), 64, "allocation size"); X.setv(d, CV(X.allocHeap(n, K_MALLOC, false))); };
  EXT("realloc") { uint64_t p = X.op(d, 0).c, n = X.concretize(X.op(d, 1), 64, "allocation size"); uint64_t q = X.allocHeap(n, K_MALLOC, true); if (p) { Obj* o = X.cur->mem.get(p >> 32); if (!o) X.memErr("realloc of freed memory"); X.copyMem(q, p, std::min<uint64_t>(n, o->size)); X.freeHeap(p, K_MALLOC); } X.setv(d, CV(q)); };
  EXT("free") { X.freeHeap(X.concretize(X.op(d, 0), 64, "free"), K_MALLOC); };
  // --- memory
  auto mcpy = [](Exec& X, DI& d) { uint64_t n = X.concretize(X.op(d, 2), 64, "copy length"), a = X.concretize(X.op(d, 0), 64, "address"), s = X.concretize(X.op(d, 1), 64, "address"); X.copyMem(a, s, n); if (d.nl) X.setv(d, CV(a)); };
  for (const char* n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"}) X.exts[n] = mcpy;
  auto mset = [](Exec& X, DI& d) { uint64_t n = X.concretize(X.op(d, 2), 64, "length"), a = X.concretize(X.op(d, 0), 64, "address"); Val v = X.op(d, 1); if (v.e) v = X.fromE(mkExtract(v.e, 0, 8)); X.setMem(a, v, n); if (d.nl) X.setv(d, CV(a)); };
  for (const char* n : {"llvm.memset", "memset"}) X.exts[n] = mset;
  // --- exceptions
  EXT("__cxa_allocate_exception") { X.setv(d, CV(X.allocHeap(X.op(d, 0).c + 64, K_MALLOC, false))); };
  EXT("__cxa_free_exception") { };
  EXT("__cxa_throw") { X.cur->exn = X.op(d, 0); X.cur->exnType = X.op(d, 1); if (d.opc == Instruction::Invoke) X.jump(d.b1); else X.unwind(); };
  EXT("__cxa_rethrow") { if (d.opc == Instruction::Invoke) X.jump(d.b1); else X.unwind(); };
  EXT("__cxa_begin_catch") { X.setv(d, X.op(d, 0)); }; EXT("__cxa_end_catch") { }; EXT("__cxa_get_exception_ptr") { X.setv(d, X.op(d, 0)); };
  EXT("llvm.eh.typeid.for") { X.setv(d, CV(X.op(d, 0).c >> 32)); };
  EXT("__gxx_personality_v0") { };
  auto thr = [](Exec& X, DI& d) { X.cur->exn = CV(X.allocHeap(64, K_MALLOC, false)); X.cur->exnType = CV(1); if (d.opc == Instruction::Invoke) X.jump(d.b1); else X.unwind(); };
  for (const char* n : {"_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "__cxa_throw_bad_array_new_length", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt16__throw_bad_castv"}) X.exts[n] = thr;
  for (const char* n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt13runtime_errorC2EPKc"}) EXT(n) { };
  auto term = [](Exec& X, DI& d) { X.violation("abort", "the program terminates abnormally (" + (d.callee ? d.callee->F->getName().str() : "?") + ")", nullptr, true); };
  for (const char* n : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "llvm.trap", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "llvm.ubsantrap", "__clang_call_terminate"}) X.exts[n] = term;
  EXT("exit") { throw PathEnd{0}; };
  // --- misc runtime
  EXT("__cxa_guard_acquire") { Leaf l{8, false, false, 0}; Val v = X.load(X.op(d, 0).c, l); X.setv(d, CV(v.c ? 0 : 1)); }; EXT("__cxa_guard_release") { Leaf l{8, false, false, 0}; X.store(X.op(d, 0).c, l, CV(1)); }; EXT("__cxa_guard_abort") { };
  EXT("__dynamic_cast") { uint64_t p = X.concretize(X.op(d, 0), 64, "dynamic_cast"), src = X.op(d, 1).c, dst = X.op(d, 2).c; if (!p) { X.setv(d, CV(0)); return; } Leaf l{64, false, false, 0}; uint64_t vp = X.load(p, l).c; int64_t top = (int64_t)X.load(vp - 16, l).c; uint64_t ti = X.load(vp - 8, l).c; 
    std::vector<std::pair<uint64_t, int64_t>> sub; X.subobjects(ti, 0, sub); bool has = false; uint64_t r = 0; int n = 0; for (auto& s : sub) { if (s.first == src && (int64_t)s.second == -top) has = true; if (s.first == dst) { n++; r = p + top + s.second; } } X.setv(d, CV(has && n == 1 ? r : 0)); };
  EXT("__cxa_atexit") { X.setv(d, CV(0)); }; EXT("atexit") { X.setv(d, CV(0)); };
  EXT("setlocale") { X.setv(d, CV(0)); };
  EXT("llvm.expect") { X.setv(d, X.op(d, 0)); }; EXT("llvm.is.constant") { X.setv(d, CV(0)); }; EXT("llvm.objectsize") { X.setv(d, CV(maskw(d.w))); }; EXT("llvm.prefetch") { }; EXT("llvm.stacksave") { X.setv(d, CV(0)); }; EXT("llvm.stackrestore") { }; EXT("llvm.donothing") { }; EXT("llvm.launder.invariant.group") { X.setv(d, X.op(d, 0)); }; EXT("llvm.strip.invariant.group") { X.setv(d, X.op(d, 0)); }; EXT("llvm.var.annotation") { };
  EXT("llvm.load.relative") { throw Unsupported{"load.relative"}; };
  auto mm = [](unsigned pred, bool) { return pred; }; (void)mm;
#define MINMAX(n, pred) EXT(n) { for (unsigned l = 0; l < d.nl; l++) { Val a = X.op(d, 0, l), b = X.op(d, 1, l); Val c = X.icmp(pred, a, b, d.w); X.setv(d, X.select(c, a, b, (*d.L)[l], false), l); } }
  MINMAX("llvm.umax", CmpInst::ICMP_UGT); MINMAX("llvm.umin", CmpInst::ICMP_ULT); MINMAX("llvm.smax", CmpInst::ICMP_SGT); MINMAX("llvm.smin", CmpInst::ICMP_SLT);
  EXT("llvm.abs") { for (unsigned l = 0; l < d.nl; l++) { Val a = X.op(d, 0, l); Val c = X.icmp(CmpInst::ICMP_SLT, a, CV(0), d.w); Val n = X.ibin(Instruction::Sub, CV(0), a, d.w, d.I); X.setv(d, X.select(c, n, a, (*d.L)[l], false), l); } };
#define OVF(n, OPC, BOP, SGN) EXT(n) { unsigned w = d.w; Val a = X.op(d, 0), b = X.op(d, 1); if (a.e || b.e) { \
      if (w > 32 && BOP == MUL) { X.concretize(X.op(d, 0), w, "checked multiplication"); X.concretize(X.op(d, 1), w, "checked multiplication"); a = X.op(d, 0); b = X.op(d, 1); } } \
    if (!a.e && !b.e) { __int128 x = SGN ? (__int128)sxt(a.c, w) : (__int128)(a.c & maskw(w)), y = SGN ? (__int128)sxt(b.c, w) : (__int128)(b.c & maskw(w)); __int128 r = BOP == ADD ? x + y : BOP == SUB ? x - y : x * y; uint64_t t = (uint64_t)r & maskw(w); __int128 back = SGN ? (__int128)sxt(t, w) : (__int128)t; X.setv(d, CV(t), 0); X.setv(d, CV(back != r), 1); } \
    else { if (w > 32) { Expr *x = X.E(a, w), *y = X.E(b, w); Expr* r = mkBin(BOP, x, y); Expr* o; if (SGN) throw Unsupported{"signed 64-bit overflow"}; if (BOP == ADD) o = mkCmp(ULT, r, x); else if (BOP == SUB) o = mkCmp(ULT, x, y); else throw Unsupported{"wide mul overflow"}; X.setv(d, X.fromE(r), 0); X.setv(d, X.fromE(o), 1); } \
      else { Expr *x = SGN ? mkSExt(X.E(a, w), 64) : mkZExt(X.E(a, w), 64), *y = SGN ? mkSExt(X.E(b, w), 64) : mkZExt(X.E(b, w), 64); Expr* r = mkBin(BOP, x, y); Expr* t = mkExtract(r, 0, w); Expr* back = SGN ? mkSExt(t, 64) : mkZExt(t, 64); X.setv(d, X.fromE(t), 0); X.setv(d, X.fromE(mkNot(mkCmp(EQ, back, r))), 1); } } }
  OVF("llvm.uadd.with.overflow", Instruction::Add, ADD, false); OVF("llvm.usub.with.overflow", Instruction::Sub, SUB, false); OVF("llvm.umul.with.overflow", Instruction::Mul, MUL, false);
  OVF("llvm.sadd.with.overflow", Instruction::Add, ADD, true); OVF("llvm.ssub.with.overflow", Instruction::Sub, SUB, true); OVF("llvm.smul.with.overflow", Instruction::Mul, MUL, true);
  EXT("llvm.usub.sat") { Val a = X.op(d, 0), b = X.op(d, 1); Val c = X.icmp(CmpInst::ICMP_ULT, a, b, d.w); Val s = X.ibin(Instruction::Sub, a, b, d.w, d.I); X.setv(d, X.select(c, CV(0), s, (*d.L)[0], false)); };
  EXT("llvm.uadd.sat") { Val a = X.op(d, 0), b = X.op(d, 1); Val s = X.ibin(Instruction::Add, a, b, d.w, d.I); Val c = X.icmp(CmpInst::ICMP_ULT, s, a, d.w); X.setv(d, X.select(c, CV(maskw(d.w)), s, (*d.L)[0], false)); };
  EXT("llvm.ctlz") { uint64_t v = X.concretize(X.op(d, 0), d.w, "ctlz"); X.setv(d, CV(v ? __builtin_clzll(v) - (64 - d.w) : d.w)); };
  EXT("llvm.cttz") { uint64_t v = X.concretize(X.op(d, 0), d.w, "cttz"); X.setv(d, CV(v ? __builtin_ctzll(v) : d.w)); };
  EXT("llvm.ctpop") { uint64_t v = X.concretize(X.op(d, 0), d.w, "ctpop"); X.setv(d, CV(__builtin_popcountll(v))); };
  EXT("llvm.bswap") { Val v = X.op(d, 0); Expr* r = nullptr; for (unsigned i = 0; i < d.w / 8; i++) { Expr* b = mkExtract(X.E(v, d.w), i * 8, 8); r = r ? mkConcat(r, b) : b; } X.setv(d, X.fromE(r)); };
  EXT("llvm.fshl") { Val a = X.op(d, 0), b = X.op(d, 1); uint64_t s = X.concretize(X.op(d, 2), d.w, "shift") % d.w; if (!s) { X.setv(d, a); return; } X.setv(d, X.fromE(mkBin(OR, mkBin(SHL, X.E(a, d.w), mkConst(s, d.w)), mkBin(LSHR, X.E(b, d.w), mkConst(d.w - s, d.w))))); };
  EXT("llvm.fshr") { Val a = X.op(d, 0), b = X.op(d, 1); uint64_t s = X.concretize(X.op(d, 2), d.w, "shift") % d.w; if (!s) { X.setv(d, b); return; } X.setv(d, X.fromE(mkBin(OR, mkBin(SHL, X.E(a, d.w), mkConst(d.w - s, d.w)), mkBin(LSHR, X.E(b, d.w), mkConst(s, d.w))))); };
  // --- floating point
#define FUN(n, f) EXT(n) { for (unsigned l = 0; l < d.nl; l++) X.setv(d, X.funary(f, X.op(d, 0, l), d.w == 64), l); }
  FUN("llvm.fabs", "fabs"); FUN("llvm.floor", "floor"); FUN("llvm.ceil", "ceil"); FUN("llvm.round", "round"); FUN("llvm.rint", "rint"); FUN("llvm.trunc", "trunc"); FUN("llvm.sqrt", "sqrt"); FUN("llvm.exp", "exp"); FUN("llvm.log", "log"); FUN("llvm.sin", "sin"); FUN("llvm.cos", "cos");
  FUN("fabs", "fabs"); FUN("fabsf", "fabs"); FUN("sqrt", "sqrt"); FUN("sqrtf", "sqrt"); FUN("exp", "exp"); FUN("expf", "exp"); FUN("log", "log"); FUN("logf", "log"); FUN("tanh", "tanh"); FUN("tanhf", "tanh"); FUN("floor", "floor"); FUN("floorf", "floor"); FUN("ceil", "ceil"); FUN("ceilf", "ceil"); FUN("round", "round"); FUN("roundf", "round"); FUN("logl", "log"); FUN("sin", "sin"); FUN("cos", "cos"); FUN("trunc", "trunc"); FUN("truncf", "trunc"); FUN("expl", "exp");
  for (const char* n : {"pow", "powf", "llvm.pow"}) EXT(n) { X.setv(d, X.fpow(X.op(d, 0), X.op(d, 1), d.w == 64)); };
  EXT("llvm.powi") { uint64_t k = X.concretize(X.op(d, 1), 32, "powi"); X.setv(d, X.fpow(X.op(d, 0), mkF((double)sxt(k, 32), d.w == 64), d.w == 64)); };
  for (const char* n : {"llvm.fmuladd", "llvm.fma", "fma", "fmaf"}) EXT(n) { for (unsigned l = 0; l < d.nl; l++) { Val m = X.fbin(Instruction::FMul, X.op(d, 0, l), X.op(d, 1, l), d.w == 64); X.setv(d, X.fbin(Instruction::FAdd, m, X.op(d, 2, l), d.w == 64), l); } };
  auto fmm = [](Exec& X, DI& d, bool mx) { for (unsigned l = 0; l < d.nl; l++) { Val a = X.op(d, 0, l), b = X.op(d, 1, l); Val c = X.fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b, d.w == 64); X.setv(d, X.select(c, a, b, (*d.L)[l], false), l); } }; static auto fmmS = fmm;
  for (const char* n : {"llvm.maxnum", "fmax", "fmaxf", "llvm.maximum"}) EXT(n) { fmmS(X, d, true); };
  for (const char* n : {"llvm.minnum", "fmin", "fminf", "llvm.minimum"}) EXT(n) { fmmS(X, d, false); };
  EXT("llvm.copysign") { Val a = X.op(d, 0), b = X.op(d, 1); if (a.e || b.e) throw Unsupported{"copysign"}; X.setv(d, CV(d.w == 64 ? bitsd(copysign(dbits(a.c), dbits(b.c))) : bitsf(copysignf(fbits(a.c), fbits(b.c))))); };
  EXT("llvm.is.fpclass") { Val a = X.op(d, 0); uint64_t m = X.op(d, 1).c; bool dbl = d.ow == 64; if (a.e) { if (a.e->w == 0) { if (m == 3 || m == 0x204 || m == 0x207) { X.setv(d, CV(0)); return; } if (m == 0x1f8) { X.setv(d, CV(1)); return; } } throw Unsupported{"is.fpclass"}; } double x = d.I->getOperand(0)->getType()->isDoubleTy() ? dbits(a.c) : fbits(a.c); (void)dbl; bool r = false; if ((m & 3) && std::isnan(x)) r = true; if ((m & 4) && x == -INFINITY) r = true; if ((m & 0x200) && x == INFINITY) r = true; if ((m & 0x1f8) && std::isfinite(x)) r = true; X.setv(d, CV(r)); };
  // --- text formatting
  EXT("sprintf") { std::string s = formatArgs(X, d, 1); X.storeBytes(X.op(d, 0).c, s.c_str(), s.size() + 1); X.setv(d, CV((uint32_t)s.size())); };
  EXT("snprintf") { std::string s = formatArgs(X, d, 2); uint64_t n = X.op(d, 1).c; std::string t = s.substr(0, n ? n - 1 : 0); if (n) X.storeBytes(X.op(d, 0).c, t.c_str(), t.size() + 1); X.setv(d, CV((uint32_t)s.size())); };
  EXT("printf") { X.setv(d, CV(0)); }; EXT("puts") { X.setv(d, CV(0)); }; EXT("putchar") { X.setv(d, CV(0)); }; EXT("fprintf") { X.setv(d, CV(0)); };
  // --- OpenMP: every thread of a parallel region is executed in turn over its static share of the iterations; conflicting accesses are reported
  EXT("__kmpc_fork_call") { Func* f = X.faddr[X.op(d, 2).c]; unsigned n = X.op(d, 1).c; int T = X.ompThreads > 0 ? X.ompThreads : 1; Exec& Y = X; DI& dd = d;
    if (X.ompThreads > 0 && !X.cur->omp) { X.cur->omp = std::make_shared<OmpRegion>(); X.cur->omp->startNext = X.cur->mem.next; X.cur->omp->depth = X.cur->st.size(); }
    std::vector<Val> caps; for (unsigned i = 0; i < n; i++) caps.push_back(Y.op(dd, 3 + i)); 
    for (int t = T - 1; t >= 0; t--) { uint32_t id = X.cur->mem.alloc(8, K_STACK, false); int v = t; X.storeBytes(ADDR(id), &v, 4); std::vector<Val> a{CV(ADDR(id)), CV(ADDR(id))}; for (auto& c : caps) a.push_back(c); X.pushCall(f, a, t == T - 1, t); X.fr->allocas.push_back(id); } };
  auto initf = [](Exec& X, DI& d, unsigned w, bool sg) { int T = X.ompThreads > 0 ? X.ompThreads : 1; int tid = 0; for (size_t i = X.cur->st.size(); i-- > 0;) if (X.cur->st[i]->tid >= 0) { tid = X.cur->st[i]->tid; break; }
    Leaf l{(uint16_t)w, false, false, 0}; Leaf l32{32, false, false, 0}; auto ld = [&](unsigned i) { Val v = X.load(X.op(d, i).c, l); return (int64_t)(sg ? sxt(X.concretize(v, w, "omp bound"), w) : X.concretize(v, w, "omp bound")); };
    int64_t lo = ld(4), hi = ld(5), incr = sxt(X.op(d, 7).c, w); if (incr != 1 && incr != -1) throw Unsupported{"omp increment"}; int64_t n = incr > 0 ? hi - lo + 1 : lo - hi + 1; if (n < 0) n = 0; int64_t ch = (n + T - 1) / T; int64_t b = tid * ch, e = std::min<int64_t>(n, b + ch) - 1; 
    int64_t nlo = lo + incr * b, nhi = lo + incr * e; if (b >= n) { nlo = incr > 0 ? hi + 1 : hi - 1; nhi = hi; }
    X.store(X.op(d, 4).c, l, CV((uint64_t)nlo & maskw(w))); X.store(X.op(d, 5).c, l, CV((uint64_t)nhi & maskw(w))); X.store(X.op(d, 6).c, l, CV((uint64_t)(ch * T) & maskw(w))); X.store(X.op(d, 3).c, l32, CV(n && e == n - 1)); };
  static auto initS = initf;
  EXT("__kmpc_for_static_init_4") { initS(X, d, 32, true); }; EXT("__kmpc_for_static_init_4u") { initS(X, d, 32, false); }; EXT("__kmpc_for_static_init_8") { initS(X, d, 64, true); }; EXT("__kmpc_for_static_init_8u") { initS(X, d, 64, false); };
  EXT("__kmpc_for_static_fini") { }; EXT("__kmpc_global_thread_num") { int tid = 0; for (size_t i = X.cur->st.size(); i-- > 0;) if (X.cur->st[i]->tid >= 0) { tid = X.cur->st[i]->tid; break; } X.setv(d, CV(tid)); };
  EXT("omp_get_max_threads") { X.setv(d, CV(X.ompThreads > 0 ? X.ompThreads : 1)); }; EXT("omp_set_num_threads") { };
}

// ---------------------------------------------------------------- main loop
void Exec::runPath() {
  fr = &top();
  try {
    while (true) {
      step(); steps++; cur->steps++;
      if (!fr) { paths++; return; }
      if ((steps & 0xffff) == 0) { if (now() - t0 > maxTime) { timedOut = true; errors.push_back("time budget exhausted with paths left"); for (State* s : work) delete s; work.clear(); return; }
        if (steps > maxSteps) { timedOut = true; errors.push_back("step budget exhausted with paths left"); for (State* s : work) delete s; work.clear(); return; } }
      if (cur->steps > maxPathSteps) { std::string w = where(); violation("unwinding", "a single path exceeds the step bound (loop bound not met or non-terminating)", nullptr, true); }
    }
  } catch (PathEnd& p) { if (p.kind == 0) paths++; else killed++; }
  catch (Unsupported& u) { std::string k = u.m + " at " + (cur->st.empty() ? "?" : where()); if (!unsupported[k]++) { errors.push_back("cannot encode: " + k); if (trace) for (auto& s : stackTrace()) fprintf(stderr, "   %s\n", s.c_str()); } killed++; if (unsupported.size() > 5) { for (State* s : work) delete s; work.clear(); } }
}
int Exec::run(const std::string& entry) {
  cur = new State(); registerExts(); 
  cur->mem.next = 16;
  Function* E0 = M->getFunction(entry); if (!E0) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  try { initGlobals(); } catch (Unsupported& u) { fprintf(stderr, "init: %s\n", u.m.c_str()); errors.push_back("cannot encode: " + u.m); return 3; }
  // global constructors in priority order, then the entry point: frames stacked in reverse
  std::vector<std::pair<int, Function*>> ctors; if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : a->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  try { std::vector<Val> none; pushCall(getFunc(E0), none, false); for (size_t i = ctors.size(); i-- > 0;) pushCall(getFunc(ctors[i].second), none, false); } catch (Unsupported& u) { fprintf(stderr, "init: %s\n", u.m.c_str()); errors.push_back("cannot encode: " + u.m); return 3; }
  work.push_back(cur);
  while (!work.empty()) { cur = work.back(); work.pop_back(); if (now() - t0 > maxTime) { if (!timedOut) { timedOut = true; errors.push_back("time budget exhausted with paths left"); } delete cur; continue; } runPath(); delete cur; cur = nullptr; }
  return 0;
}
void Exec::report(const std::string& out) {
  std::ostringstream o; struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\"paths\":" << paths << ",\"killed\":" << killed << ",\"assume_killed\":" << assumeKilled << ",\"infeasible\":" << infeasible << ",\"forks\":" << forks << ",\"steps\":" << steps << ",\"asserts_solver\":" << assertsSolver << ",\"asserts_concrete\":" << assertsConcrete << ",\"inconclusive\":" << inconclusive << ",\"branch_unknown\":" << branchUnknown
    << ",\"queries\":" << S.queries << ",\"sat\":" << S.sat << ",\"unsat\":" << S.unsat << ",\"unknown\":" << S.unknown << ",\"simplified\":" << S.simplified << ",\"solver_s\":" << S.time << ",\"max_query_s\":" << S.maxq << ",\"wall_s\":" << now() - t0 << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024 << ",\"variables\":" << g_vars.size() << ",\"inexact_ops\":" << g_inexact_ops << ",\"timed_out\":" << (timedOut ? "true" : "false");
  o << ",\"witness\":{"; { bool f = true; for (auto& p : witness) { o << (f ? "" : ",") << jstr(p.first) << ":" << jstr(p.second); f = false; } } o << "}"; o << ",\"reach\":{"; bool f = true; for (auto& p : reach) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; } o << "}";
  o << ",\"samples\":{"; f = true; for (auto& p : samples) { o << (f ? "" : ",") << jstr(p.first) << ":" << jstr(p.second); f = false; } o << "}";
  o << ",\"asserts\":{"; f = true; for (auto& p : assertMsgs) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; } o << "}";
  o << ",\"functions\":["; f = true; std::set<std::string> fs; for (auto& p : funcs) if (p.second->entered && p.second->repo) fs.insert(demangle(p.first->getName().str())); for (auto& n : fs) { o << (f ? "" : ",") << jstr(n); f = false; } o << "]";
  o << ",\"stubs\":["; f = true; for (auto& n : stubsUsed) { o << (f ? "" : ",") << jstr(n); f = false; } o << "]";
  o << ",\"errors\":["; f = true; for (auto& n : errors) { o << (f ? "" : ",") << jstr(n); f = false; } o << "]";
  o << ",\"violations\":["; f = true; for (auto& v : viol) { o << (f ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"loc\":" << jstr(v.loc) << ",\"stack\":["; bool g = true; for (auto& s : v.stack) { o << (g ? "" : ",") << jstr(s); g = false; } o << "],\"notes\":["; g = true; for (auto& s : v.notes) { o << (g ? "" : ",") << jstr(s); g = false; } o << "],\"model\":["; g = true; for (auto& m : v.model) { o << (g ? "" : ",") << "[" << jstr(m.first) << "," << jstr(m.second) << "]"; g = false; } o << "]}"; f = false; } o << "]}";
  if (out == "-") std::cout << o.str() << "\n"; else { std::ofstream fo(out); fo << o.str() << "\n"; }
}
int main(int argc, char** argv) {
  std::string bc, out = "-", entry = "sx_main"; LLVMContext C; SMDiagnostic err; Exec X;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "-o") out = argv[++i]; else if (a == "-e") entry = argv[++i]; else if (a == "-P") { std::string p = argv[++i]; size_t q = p.find('='); X.params[p.substr(0, q)] = atoll(p.c_str() + q + 1); }
    else if (a == "-t") X.maxTime = atof(argv[++i]); else if (a == "-q") X.S.timeout_ms = atoi(argv[++i]); else if (a == "-v") X.trace = true; else if (a == "-maxviol") X.maxViol = atoi(argv[++i]); else if (a == "-fp") { X.exact = std::string(argv[++i]) == "real"; } else if (a == "-omp") X.ompThreads = atoi(argv[++i]); else if (a == "-nouninit") X.checkUninit = false; else if (a == "-pathsteps") X.maxPathSteps = atoll(argv[++i]); else if (a == "-steps") X.maxSteps = atoll(argv[++i]); else bc = a; }
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 256UL << 20; setrlimit(RLIMIT_STACK, &rl);
  auto M = parseIRFile(bc, err, C); if (!M) { err.print("symx", errs()); return 3; }
  X.M = M.get(); DL = &M->getDataLayout();
  int rc = X.run(entry); X.report(out); _exit(rc);
}

// symx: bounded symbolic executor for LLVM bitcode (LLVM 18 front, z3 back end).
// Explores every feasible path of sx_main() within the bounds the harness sets; see DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { uint64_t c; Expr* e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }

// ---------------------------------------------------------------- types
struct Leaf { uint16_t w; bool isF; bool fp80; uint32_t off; };
static const DataLayout* DL;
static std::unordered_map<Type*, std::vector<Leaf>> leafCache;
static void addLeaves(Type* t, uint64_t off, std::vector<Leaf>& o) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64 && w != 128) throw Unsupported{"integer wider than 64 bits"}; o.push_back({(uint16_t)w, false, false, (uint32_t)off}); }
  else if (t->isPointerTy()) o.push_back({64, false, false, (uint32_t)off});
  else if (t->isFloatTy()) o.push_back({32, true, false, (uint32_t)off});
  else if (t->isDoubleTy()) o.push_back({64, true, false, (uint32_t)off});
  else if (t->isX86_FP80Ty()) o.push_back({64, true, true, (uint32_t)off});
  else if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) addLeaves(s->getElementType(i), off + L->getElementOffset(i), o); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) addLeaves(a->getElementType(), off + i * sz, o); }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) addLeaves(v->getElementType(), off + i * sz, o); }
  else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) {}
  else { std::string s; raw_string_ostream os(s); t->print(os); throw Unsupported{"type " + os.str()}; }
}
static const std::vector<Leaf>& leaves(Type* t) {
  auto it = leafCache.find(t); if (it != leafCache.end()) return it->second;
  std::vector<Leaf> o; addLeaves(t, 0, o); return leafCache.emplace(t, std::move(o)).first->second;
}

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_NEW, K_NEWARR, K_MALLOC, K_MMAP, K_FUNC };
static const char* kindName[] = {"global", "stack", "new", "new[]", "malloc", "mmap", "function"};
struct Cell { Expr* e; uint8_t idx, n; };
struct Obj {
  int rc = 0; uint32_t size = 0; Kind kind = K_GLOBAL; bool ro = false; const Instruction* site = nullptr; const char* name = nullptr;
  std::vector<uint8_t> b, st; // st: 0 concrete, 1 undefined, 2 symbolic
  std::vector<Cell> sym;
};
template <class T> struct P { T* p; P(T* q = nullptr) : p(q) { if (p) p->rc++; } P(const P& o) : p(o.p) { if (p) p->rc++; } ~P() { if (p && --p->rc == 0) delete p; }
  P& operator=(const P& o) { if (o.p) o.p->rc++; if (p && --p->rc == 0) delete p; p = o.p; return *this; } T* operator->() const { return p; } explicit operator bool() const { return p; } };
struct Chunk { int rc = 0; P<Obj> o[64]; };
struct Mem {
  std::vector<P<Chunk>> ch; uint32_t next = 1; std::vector<uint32_t> freeStack;
  Obj* get(uint32_t id) { uint32_t c = id >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id & 63].p; }
  Chunk* wch(uint32_t id) { uint32_t c = id >> 6; if (c >= ch.size()) ch.resize(c + 1); if (!ch[c]) ch[c] = P<Chunk>(new Chunk()); else if (ch[c]->rc > 1) { Chunk* n = new Chunk(); for (int i = 0; i < 64; i++) n->o[i] = ch[c]->o[i]; ch[c] = P<Chunk>(n); } return ch[c].p; }
  Obj* getw(uint32_t id) { Chunk* c = wch(id); P<Obj>& o = c->o[id & 63]; if (o.p && o->rc > 1) { Obj* n = new Obj(*o.p); n->rc = 0; o = P<Obj>(n); } return o.p; }
  uint32_t alloc(uint64_t size, Kind k, bool undef) {
    uint32_t id; if (k == K_STACK && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); } else id = next++;
    Obj* o = new Obj(); o->size = size; o->kind = k; o->b.assign(size, 0); o->st.assign(size, undef ? 1 : 0); wch(id)->o[id & 63] = P<Obj>(o); return id;
  }
  void free(uint32_t id) { Obj* o = get(id); bool stk = o && o->kind == K_STACK; wch(id)->o[id & 63] = P<Obj>(); if (stk) freeStack.push_back(id); }
};
static inline uint64_t ADDR(uint32_t id) { return (uint64_t)id << 32; }

// ---------------------------------------------------------------- decoded functions
struct Opd { int32_t r; uint32_t k; uint16_t n; };
struct Func; struct Exec; struct Frame; struct DI;
typedef void (*Ext)(Exec&, DI&);
struct DI {
  unsigned opc; uint16_t w; bool isF, fp80; uint32_t dst; uint16_t nl; std::vector<Opd> o; const Instruction* I; const std::vector<Leaf>* L;
  uint64_t aux = 0; std::vector<std::pair<unsigned, uint64_t>> scale; // GEP: operand idx, scale
  Func* callee = nullptr; Ext ext = nullptr; std::string extName; int b0 = -1, b1 = -1; std::vector<int> idx; uint16_t ow = 0; bool oF = false;
};
struct PhiCopy { uint32_t dst; uint16_t n; Opd src; };
struct BB { uint32_t first; std::map<int, std::vector<PhiCopy>> phi; const BasicBlock* bb; };
struct Func { Function* F; bool decoded = false; uint32_t nregs = 0; std::vector<DI> code; std::vector<BB> bbs; std::vector<Val> consts; std::vector<uint32_t> argReg; uint64_t addr = 0; bool entered = false; bool repo = false; uint64_t calls = 0; Ext ext = nullptr; bool extResolved = false; };
struct Frame { int rc = 0; Func* f; std::vector<Val> r; uint32_t ip = 0; int bb = 0; std::vector<uint32_t> allocas; bool advance = true; bool sink = false; int tid = -1; Frame() {} };

struct AccessRec { int16_t writer; uint32_t readers; const Instruction* wi; const Instruction* ri; };
struct OmpRegion { uint32_t startNext; size_t depth; std::unordered_map<uint64_t, AccessRec> acc; };
struct State {
  std::vector<P<Frame>> st; Mem mem; std::vector<Expr*> pc; ModelP model; std::map<std::string, int> names; std::vector<std::pair<unsigned, std::string>> vars;
  Val exn = CV(0); Val exnType = CV(0); uint64_t steps = 0; std::shared_ptr<OmpRegion> omp; std::vector<std::string> notes; std::map<std::string,uint64_t> kv;
  std::vector<std::string> io;
};
struct PathEnd { int kind; }; // 0 normal end, 1 killed (violation already reported / infeasible / assume)

static std::string g_repo = "/repo/";
static bool isRepoFile(StringRef f) { return f.contains("/repo/src/") || f.contains("/repo/include/") || f.contains("/repo/tools/") || f.contains("/repo/kernels/") || f.contains("/cn24kern/"); }

struct Violation { std::string kind, msg, loc, key; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> model; std::vector<std::string> notes; bool confirmed; };

static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

struct Exec {
  Module* M; Solver S; State* cur = nullptr; std::vector<State*> work;
  std::unordered_map<const Function*, Func*> funcs; std::unordered_map<const GlobalVariable*, uint64_t> gaddr; std::unordered_map<uint64_t, Func*> faddr;
  std::map<std::string, int64_t> params; std::map<std::string, Ext> exts; std::map<std::string, unsigned> varIds;
  std::vector<Violation> viol; std::set<std::string> violKeys; std::vector<std::string> errors; std::map<std::string, uint64_t> reach; std::map<std::string, uint64_t> unsupported; 
  uint64_t paths = 0, killed = 0, steps = 0, forks = 0, assertsSolver = 0, assertsConcrete = 0, assumeKilled = 0, inconclusive = 0, branchUnknown = 0, peakWork = 0, infeasible = 0;
  std::map<std::string, uint64_t> assertMsgs;
  double t0 = now(), maxTime = 800; uint64_t maxSteps = 40000000000ULL, maxPathSteps = 60000000ULL; size_t maxViol = 20; bool trace = false; bool checkUninit = true; bool stopFirst = false; int ompThreads = 0;
  std::set<const Instruction*> covered;
  std::map<std::string, std::string> samples, witness;
  bool timedOut = false; std::set<std::string> stubsUsed;
  bool exact = true;

  // ---- setup
  Func* getFunc(const Function* F) { auto it = funcs.find(F); if (it != funcs.end()) return it->second; Func* f = new Func(); f->F = const_cast<Function*>(F); funcs[F] = f; return f; }
  uint64_t funcAddr(const Function* F) { Func* f = getFunc(F); if (!f->addr) { uint32_t id = cur->mem.alloc(1, K_FUNC, false); Obj* o = cur->mem.getw(id); o->ro = true; f->addr = ADDR(id); faddr[f->addr] = f; } return f->addr; }
  // constants
  void constLeaves(const Constant* C, std::vector<Val>& out);
  Val constScalar(const Constant* C);
  void decode(Func* f); Opd operand(Func* f, const Value* v, std::unordered_map<const Value*, uint32_t>& reg, std::unordered_map<const Value*, uint32_t>& cst);
  void initGlobals();
  void writeConst(uint64_t addr, const Constant* C);
  // ---- state
  Frame& top() { P<Frame>& p = cur->st.back(); if (p->rc > 1) { Frame* n = new Frame(*p.p); n->rc = 0; p = P<Frame>(n); } return *p.p; }
  inline Val& op(DI& d, unsigned i, unsigned leaf = 0) { Opd& o = d.o[i]; if (o.r >= 0) return fr->r[o.r + leaf]; return fr->f->consts[o.k + leaf]; }
  Frame* fr = nullptr;
  void setv(DI& d, Val v, unsigned leaf = 0) { fr->r[d.dst + leaf] = v; }
  // ---- solver-backed control
  bool decide(Expr* c, const char* what); uint64_t concretize(Val& v, unsigned w, const char* what);
  State* clone() { State* n = new State(*cur); forks++; if (!n->st.empty()) { Frame* nf = new Frame(*n->st.back().p); nf->rc = 0; n->st.back() = P<Frame>(nf); } return n; } // the running state keeps its own top frame
  void ensureModel();
  [[noreturn]] void kill() { throw PathEnd{1}; }
  void violation(const std::string& kind, const std::string& msg, Expr* cond, bool fatal, ModelP pre = nullptr);
  ModelP sample(Expr* cond, int tries);
  void memErr(const std::string& msg) { violation("memory", msg, nullptr, true); }
  std::string loc(const Instruction* I); std::string where(); std::vector<std::string> stackTrace();
  // ---- memory
  Obj* access(uint64_t a, uint64_t n, bool wr, uint32_t& off);
  Val load(uint64_t a, const Leaf& l); void store(uint64_t a, const Leaf& l, Val v);
  void copyMem(uint64_t d, uint64_t s, uint64_t n); void setMem(uint64_t d, Val v, uint64_t n);
  uint64_t allocHeap(uint64_t n, Kind k, bool undef); void freeHeap(uint64_t a, Kind k);
  uint8_t loadByte(uint64_t a, const char* what); std::string cstr(uint64_t a, const char* what); void storeBytes(uint64_t a, const void* p, size_t n);
  void omprec(uint64_t a, uint64_t n, bool wr);
  // ---- ops
  Val ibin(unsigned opc, Val a, Val b, unsigned w, const Instruction* I); Val icmp(unsigned pred, Val a, Val b, unsigned w);
  Val fbin(unsigned opc, Val a, Val b, bool dbl); Val fcmp(unsigned pred, Val a, Val b, bool dbl); Val castv(unsigned opc, Val v, const Leaf& s, const Leaf& d);
  Val funary(const std::string& n, Val a, bool dbl); Val fpow(Val a, Val b, bool dbl); Val fneg(Val a, bool dbl);
  Val select(Val c, Val a, Val b, const Leaf& l, bool ptr);
  Expr* R(Val v, bool dbl); Expr* E(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
  Val fromE(Expr* e) { if (e->op == CONST) return CV(e->c); return Val{0, e}; }
  Val fromR(Expr* e, bool dbl) { if (e->op == RCONST) { double d = dbits(e->c); return CV(dbl ? bitsd(d) : bitsf((float)d)); } return Val{0, e}; }
  // ---- control
  void jump(int bb); void pushCall(Func* f, std::vector<Val>& args, bool advance = true, int tid = -1); void ret(DI* d); void unwind(); void doCall(DI& d, Func* f); void step(); void advance();
  void runPath(); int run(const std::string& entry); void report(const std::string& out);
  void callExt(DI& d, Func* f); void fpResult(DI& d, Val v) { setv(d, v); }
  Val newVar(const std::string& name, bool real, unsigned w, double lo, double hi, int grid, bool fbits_, uint64_t dflt);
  bool typeMatches(uint64_t thrown, uint64_t clause); std::map<uint64_t, std::vector<uint64_t>> tiBases; std::map<uint64_t, std::vector<std::pair<uint64_t, int64_t>>> tiOff; void subobjects(uint64_t ti, int64_t off, std::vector<std::pair<uint64_t, int64_t>>& out) { out.push_back({ti, off}); for (auto& b : tiOff[ti]) subobjects(b.first, off + b.second, out); } std::map<uint64_t, std::string> tiName;
  void registerExts(); unsigned leaves_w(DI& d, unsigned i) { return leaves(llvm::cast<CallBase>(d.I)->getArgOperand(i)->getType())[0].w; }
};

// ---------------------------------------------------------------- locations
std::string Exec::loc(const Instruction* I) {
  if (!I) return "?"; if (auto& d = I->getDebugLoc()) { auto* sc = cast<DIScope>(d.getScope()); return (sc->getFilename().str()) + ":" + std::to_string(d.getLine()); }
  return demangle(I->getFunction()->getName().str());
}
static const Instruction* curI(Frame& f) { return f.ip < f.f->code.size() ? f.f->code[f.ip].I : nullptr; }
std::string Exec::where() { // innermost frame inside the repository, else innermost
  for (int i = (int)cur->st.size() - 1; i >= 0; i--) { auto* I = curI(*cur->st[i].p); if (!I) continue; if (auto& d = I->getDebugLoc()) { 
      for (const DILocation* l = d.get(); l; l = l->getInlinedAt()) { auto f = l->getFilename(); if (isRepoFile(f)) return f.str() + ":" + std::to_string(l->getLine()); } } }
  return cur->st.empty() ? "?" : loc(curI(*cur->st.back().p));
}
std::vector<std::string> Exec::stackTrace() {
  std::vector<std::string> o;
  for (int i = (int)cur->st.size() - 1; i >= 0 && o.size() < 24; i--) { auto* I = curI(*cur->st[i].p); if (!I) continue; 
    if (auto& d = I->getDebugLoc()) for (const DILocation* l = d.get(); l; l = l->getInlinedAt()) { o.push_back(l->getScope()->getSubprogram()->getName().str() + " " + l->getFilename().str() + ":" + std::to_string(l->getLine())); }
    else o.push_back(demangle(cur->st[i]->f->F->getName().str())); }
  return o;
}
// looks for concrete input-grid values that satisfy the path and violate the condition, starting from the path's own model
ModelP Exec::sample(Expr* cond, int tries) {
  ensureModel(); ModelP base = cur->model, m = std::make_shared<Model>(); m->bv.resize(g_vars.size()); m->rv.resize(g_vars.size()); uint64_t seed = 88172645463325252ULL; auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  for (int t = 0; t < tries; t++) { m->memo.clear(); for (size_t i = 0; i < g_vars.size(); i++) { VarInfo& vi = g_vars[i]; if (vi.real) { double q = ldexp(1.0, vi.grid); int64_t L = llround(vi.lo * q), H = llround(vi.hi * q); double x = (double)(L + (int64_t)(rnd() % (uint64_t)(H - L + 1))) / q; if (i < base->rv.size() && (rnd() % 4) < (unsigned)(t % 4)) { x = round(base->rv[i] * q) / q; x = std::min(vi.hi, std::max(vi.lo, x)); } m->rv[i] = x; } else m->bv[i] = i < base->bv.size() ? base->bv[i] : vi.dflt; }
    bool ok = (evalModel(*m, cond) & 1); for (size_t i = cur->pc.size(); ok && i-- > 0;) ok = evalModel(*m, cur->pc[i]) & 1; if (ok) { m->memo.clear(); return m; } }
  return nullptr;
}
void Exec::violation(const std::string& kind, const std::string& msg, Expr* cond, bool fatal, ModelP pre) {
  std::string key = kind + "|" + (kind == "assert" ? msg : msg + "|" + where());
  if (violKeys.count(key)) { if (fatal) kill(); return; }
  bool hasReal = false; for (auto& v : cur->vars) if (g_vars[v.first].real) hasReal = true;
  ModelP m; Res r;
  if (pre) { m = pre; r = SAT; } else if (hasReal) { // the witness must lie on the input grid: integer solve first, then sampling, then the real model
    unsigned to = S.timeout_ms; S.timeout_ms = std::min(to, 4000u); r = S.check(cur->pc, cond, &m, true); S.timeout_ms = to;
    if (r == UNKNOWN) { m = std::make_shared<Model>(); m->bv.resize(g_vars.size()); m->rv.resize(g_vars.size()); uint64_t seed = 88172645463325252ULL; auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
      ModelP base; if (S.check(cur->pc, cond, &base) == SAT) { for (int t = 0; t < 20000 && r != SAT; t++) { m->memo.clear(); for (size_t i = 0; i < g_vars.size(); i++) { VarInfo& vi = g_vars[i]; if (vi.real) { double q = ldexp(1.0, vi.grid); int64_t L = llround(vi.lo * q), H = llround(vi.hi * q); double x = (double)(L + (int64_t)(rnd() % (uint64_t)(H - L + 1))) / q; if (t < 5000 && i < base->rv.size() && (rnd() & 1)) { x = round(base->rv[i] * q) / q; x = std::min(vi.hi, std::max(vi.lo, x)); } m->rv[i] = x; } else m->bv[i] = i < base->bv.size() ? base->bv[i] : vi.dflt; }
          bool ok = !cond || (evalModel(*m, cond) & 1); for (size_t i = cur->pc.size(); ok && i-- > 0;) ok = evalModel(*m, cur->pc[i]) & 1; if (ok) r = SAT; }
        if (r != SAT) { m = base; r = SAT; for (size_t i = 0; i < g_vars.size(); i++) if (g_vars[i].real && i < m->rv.size()) { double q = ldexp(1.0, g_vars[i].grid); m->rv[i] = round(m->rv[i] * q) / q; } } } }
  } else r = S.check(cur->pc, cond, &m);
  if (r == UNSAT) { if (fatal) { infeasible++; kill(); } return; }
  if (r == UNKNOWN) { inconclusive++; errors.push_back("solver gave no answer when confirming: " + kind + ": " + msg + " at " + where()); if (fatal) kill(); return; }
  Violation v; v.kind = kind; v.msg = msg; v.loc = where(); v.key = key; v.stack = stackTrace(); v.notes = cur->notes; v.confirmed = true;
  for (auto& p : cur->vars) { VarInfo& vi = g_vars[p.first]; std::string val;
    char buf[64]; if (vi.real) { double d = p.first < m->rv.size() ? m->rv[p.first] : dbits(vi.dflt); snprintf(buf, 64, "%.17g", d); val = buf; }
    else { uint64_t x = p.first < m->bv.size() ? m->bv[p.first] : vi.dflt; snprintf(buf, 64, "%llu", (unsigned long long)x); val = buf; }
    v.model.push_back({p.second, val}); }
  viol.push_back(v); violKeys.insert(key);
  if (trace) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str());
  if (viol.size() >= maxViol || stopFirst) { for (State* s : work) delete s; work.clear(); throw PathEnd{2}; }
  if (fatal) kill();
}

// ---------------------------------------------------------------- decide / concretize
void Exec::ensureModel() {
  if (cur->model) return; ModelP m; Res r = S.check(cur->pc, nullptr, &m);
  if (r == UNSAT) { infeasible++; kill(); }
  if (r == UNKNOWN) { m = std::make_shared<Model>(); branchUnknown++; }
  cur->model = m;
}
bool Exec::decide(Expr* c, const char* what) {
  if (c->op == CONST) return c->c & 1;
  if (c->op == UNDEF || c->undef) { violation("uninitialised", std::string("decision depends on uninitialised memory (") + what + ")", nullptr, true); }
  Expr* nc = mkNot(c);
  for (size_t i = cur->pc.size(); i-- > 0;) { if (cur->pc[i] == c) return true; if (cur->pc[i] == nc) return false; }
  ensureModel();
  bool v = evalModel(*cur->model, c) & 1; Expr* other = v ? nc : c; ModelP m2; 
  Res r = S.check(cur->pc, other, &m2);
  if (r == UNSAT) return v;
  if (r == UNKNOWN) branchUnknown++;
  State* n = clone(); n->pc.push_back(other); n->model = r == SAT ? m2 : nullptr; work.push_back(n); peakWork = std::max<uint64_t>(peakWork, work.size());
  cur->pc.push_back(v ? c : nc); return v;
}
uint64_t Exec::concretize(Val& v, unsigned w, const char* what) {
  if (!v.e) return v.c;
  if (v.e->op == UNDEF || v.e->undef) violation("uninitialised", std::string("uninitialised value used as ") + what, nullptr, true);
  Expr* e = v.e; if (e->w == 0) throw Unsupported{"concretize real"};
  ensureModel(); uint64_t x = evalModel(*cur->model, e) & maskw(w);
  if (e->op == RBITS) throw Unsupported{"bit pattern of a real concretised"};
  bool ok = decide(mkCmp(EQ, e, mkConst(x, w)), what);
  if (!ok) { ensureModel(); if ((evalModel(*cur->model, e) & maskw(w)) == x) throw Unsupported{"model does not satisfy its own constraints"}; return concretize(v, w, what); }
  v = CV(x); return x;
}

// ---------------------------------------------------------------- memory access
void Exec::omprec(uint64_t a, uint64_t n, bool wr) {
  OmpRegion& o = *cur->omp; int tid = -1; for (size_t i = cur->st.size(); i-- > 0;) if (cur->st[i]->tid >= 0) { tid = cur->st[i]->tid; break; } if (tid < 0) return;
  uint32_t id = a >> 32; if (id >= o.startNext) return; // allocated inside the region: private (stack ids are only reused for memory below)
  Obj* ob = cur->mem.get(id); if (ob && ob->ro) return;
  if (ob && ob->kind == K_STACK) { for (size_t i = o.depth; i < cur->st.size(); i++) for (uint32_t x : cur->st[i]->allocas) if (x == id) return; }
  if (cur->omp.use_count() > 1) cur->omp = std::make_shared<OmpRegion>(*cur->omp);
  const Instruction* I = curI(*fr);
  for (uint64_t i = 0; i < n; i++) { AccessRec& r = cur->omp->acc.emplace(a + i, AccessRec{-1, 0, nullptr, nullptr}).first->second;
    if (wr) { if ((r.writer >= 0 && r.writer != tid) || (r.readers & ~(1u << tid))) { const Instruction* p = r.writer >= 0 && r.writer != tid ? r.wi : r.ri; violation("race", "two threads of a parallel loop access the same memory without order (other access at " + loc(p) + ")", nullptr, true); } r.writer = tid; r.wi = I; }
    else { if (r.writer >= 0 && r.writer != tid) violation("race", "two threads of a parallel loop access the same memory without order (other access at " + loc(r.wi) + ")", nullptr, true); r.readers |= 1u << tid; r.ri = I; } }
}
Obj* Exec::access(uint64_t a, uint64_t n, bool wr, uint32_t& off) {
  uint32_t id = a >> 32; off = (uint32_t)a; Obj* o = wr ? nullptr : cur->mem.get(id);
  if (wr) { o = cur->mem.get(id); }
  if (!o) { if (a < 0x100000000ULL) memErr(wr ? "write through a null or wild pointer" : "read through a null or wild pointer"); memErr(wr ? "write to memory that is not allocated (freed or wild)" : "read from memory that is not allocated (freed or wild)"); }
  if ((uint64_t)off + n > o->size) { memErr(std::string(wr ? "out-of-bounds write" : "out-of-bounds read") + " on a " + kindName[o->kind] + " object"); }
  if (o->kind == K_FUNC) memErr("data access to a function");
  if (cur->omp) omprec(a, n, wr);
  if (wr) { if (o->ro) memErr("write to read-only memory"); o = cur->mem.getw(id); }
  return o;
}
Val Exec::load(uint64_t a, const Leaf& l) {
  unsigned n = l.fp80 ? 8 : (l.w + 7) / 8; uint32_t off; Obj* o = access(a, n, false, off);
  const uint8_t* st = o->st.data() + off; bool conc = true; for (unsigned i = 0; i < n; i++) if (st[i]) { conc = false; break; }
  if (conc) { uint64_t v = 0; memcpy(&v, o->b.data() + off, n); return CV(v & maskw(l.w)); }
  if (l.w == 128) throw Unsupported{"symbolic 128-bit load"};
  bool allU = true; for (unsigned i = 0; i < n; i++) if (st[i] != 1) { allU = false; break; }
  if (allU) return Val{0, mkUndef(l.w)};
  if (st[0] == 2) { Cell& c = o->sym[off]; if (c.idx == 0 && c.n == n) { bool same = true; for (unsigned i = 1; i < n; i++) { if (st[i] != 2 || o->sym[off + i].e != c.e || o->sym[off + i].idx != i || o->sym[off + i].n != n) { same = false; break; } }
      if (same) { Expr* e = c.e; if (e->w == 0) { if (l.isF) return Val{0, e}; return Val{0, mkRBits(e, l.w)}; }
        if (l.isF && e->op == RBITS) return Val{0, e->k[0]}; if (e->w == l.w) return fromE(e); if (e->w > l.w) return fromE(mkExtract(e, 0, l.w)); } } }
  Expr* r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Expr* p; if (st[i] == 0) p = mkConst(o->b[off + i], 8); else if (st[i] == 1) p = mkUndef(8); else { Cell& c = o->sym[off + i]; Expr* e = c.e->w == 0 ? mkRBits(c.e, c.n * 8) : c.e; if (e->w < c.n * 8) e = mkZExt(e, c.n * 8); p = mkExtract(e, c.idx * 8, 8); }
    r = r ? mkConcat(p, r) : p;
  }
  if (r->w > l.w) r = mkExtract(r, 0, l.w);
  if (r->undef && l.isF) return Val{0, mkUndef(l.w)};
  if (l.isF && r->op == RBITS) return Val{0, r->k[0]};
  return fromE(r);
}
void Exec::store(uint64_t a, const Leaf& l, Val v) {
  unsigned n = l.fp80 ? 8 : (l.w + 7) / 8; uint32_t off; Obj* o = access(a, n, true, off);
  if (!v.e) { if (n > 8) { memset(o->b.data() + off, 0, n); memcpy(o->b.data() + off, &v.c, 8); } else memcpy(o->b.data() + off, &v.c, n); memset(o->st.data() + off, 0, n); return; }
  if (v.e->op == UNDEF) { memset(o->st.data() + off, 1, n); return; }
  if (o->sym.empty()) o->sym.resize(o->size);
  Expr* e = v.e; if (e->op == RBITS && e->w == n * 8) e = e->k[0];
  if (e->op == CONCAT) { // split so that parts stay recognisable
    std::vector<Expr*> parts; std::vector<Expr*> stk{e}; while (!stk.empty()) { Expr* x = stk.back(); stk.pop_back(); if (x->op == CONCAT) { stk.push_back(x->k[0]); stk.push_back(x->k[1]); } else parts.push_back(x); }
    bool al = true; for (Expr* x : parts) if (x->w % 8) al = false;
    if (al) { uint64_t p = a; for (Expr* x : parts) { Leaf q{(uint16_t)x->w, false, false, 0}; store(p, q, fromE(x)); p += x->w / 8; } return; }
  }
  if (e->op == ZEXT && e->k[0]->w % 8 == 0 && e->w % 8 == 0) { Leaf q{e->k[0]->w, false, false, 0}; unsigned nb = e->k[0]->w / 8; store(a, q, fromE(e->k[0])); for (unsigned i = nb; i < n; i++) { Leaf z{8, false, false, 0}; store(a + i, z, CV(0)); } return; }
  if (e->w && e->w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->sym[off + i] = Cell{e, (uint8_t)i, (uint8_t)n}; }
}
void Exec::copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; uint32_t so, dof; Obj* src = access(s, n, false, so);
  std::vector<uint8_t> b(src->b.begin() + so, src->b.begin() + so + n), st(src->st.begin() + so, src->st.begin() + so + n); std::vector<Cell> sy; 
  bool anySym = false; for (uint8_t x : st) if (x == 2) { anySym = true; break; } if (anySym) sy.assign(src->sym.begin() + so, src->sym.begin() + so + n);
  Obj* dst = access(d, n, true, dof); memcpy(dst->b.data() + dof, b.data(), n); memcpy(dst->st.data() + dof, st.data(), n);
  if (anySym) { if (dst->sym.empty()) dst->sym.resize(dst->size); for (uint64_t i = 0; i < n; i++) if (st[i] == 2) dst->sym[dof + i] = sy[i]; }
}
void Exec::setMem(uint64_t d, Val v, uint64_t n) {
  if (!n) return; uint32_t off; Obj* o = access(d, n, true, off);
  if (!v.e) { memset(o->b.data() + off, (int)v.c, n); memset(o->st.data() + off, 0, n); return; }
  Leaf l{8, false, false, 0}; for (uint64_t i = 0; i < n; i++) store(d + i, l, v);
}
uint64_t Exec::allocHeap(uint64_t n, Kind k, bool undef) { if (n > 0x20000000ULL) { violation("memory", "allocation of an implausible size (" + std::to_string(n) + " bytes)", nullptr, true); } uint32_t id = cur->mem.alloc(n, k, undef && checkUninit); cur->mem.getw(id)->site = curI(*fr); return ADDR(id); }
void Exec::freeHeap(uint64_t a, Kind k) {
  if (!a) return; uint32_t id = a >> 32; Obj* o = cur->mem.get(id);
  if (!o) memErr("free of memory that is not allocated (double free or wild pointer)");
  if ((uint32_t)a) memErr("free of a pointer into the middle of an object");
  if (o->kind != k) memErr(std::string("deallocation as ") + kindName[k] + " of memory from " + kindName[o->kind]);
  cur->mem.free(id);
}
uint8_t Exec::loadByte(uint64_t a, const char* what) { Leaf l{8, false, false, 0}; Val v = load(a, l); return concretize(v, 8, what); }
std::string Exec::cstr(uint64_t a, const char* what) { std::string s; for (;; a++) { uint8_t c = loadByte(a, what); if (!c) return s; s += (char)c; } }
void Exec::storeBytes(uint64_t a, const void* p, size_t n) { if (!n) return; uint32_t off; Obj* o = access(a, n, true, off); memcpy(o->b.data() + off, p, n); memset(o->st.data() + off, 0, n); }

// ---------------------------------------------------------------- constants, decoding
Val Exec::constScalar(const Constant* C) { std::vector<Val> v; constLeaves(C, v); if (v.size() != 1) throw Unsupported{"constScalar"}; return v[0]; }
void Exec::constLeaves(const Constant* C, std::vector<Val>& out) {
  Type* t = C->getType();
  if (isa<UndefValue>(C)) { for (auto& l : leaves(t)) out.push_back(Val{0, mkUndef(l.w)}); return; }
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { for (size_t i = 0; i < leaves(t).size(); i++) out.push_back(CV(0)); return; }
  if (auto* i = dyn_cast<ConstantInt>(C)) { if (i->getBitWidth() > 64) { out.push_back(CV(i->getValue().extractBitsAsZExtValue(64, 0))); return; } out.push_back(CV(i->getZExtValue())); return; }
  if (auto* f = dyn_cast<ConstantFP>(C)) { APFloat v = f->getValueAPF(); if (t->isX86_FP80Ty()) { bool li; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); } out.push_back(CV(v.bitcastToAPInt().getZExtValue())); return; }
  if (auto* F = dyn_cast<Function>(C)) { out.push_back(CV(funcAddr(F))); return; }
  if (auto* g = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsupported{"global without address: " + g->getName().str()}; out.push_back(CV(it->second)); return; }
  if (auto* ga = dyn_cast<GlobalAlias>(C)) { constLeaves(ga->getAliasee(), out); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < d->getNumElements(); i++) constLeaves(d->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(C)) { for (unsigned i = 0; i < C->getNumOperands(); i++) constLeaves(cast<Constant>(C->getOperand(i)), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); Val b = constScalar(ce->getOperand(0)); out.push_back(CV(b.c + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constLeaves(ce->getOperand(0), out); return;
      case Instruction::Trunc: { Val v = constScalar(ce->getOperand(0)); out.push_back(CV(v.c & maskw(t->getIntegerBitWidth()))); return; }
      case Instruction::Sub: out.push_back(CV(constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c)); return;
      case Instruction::Add: out.push_back(CV(constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c)); return;
      case Instruction::ICmp: { Val a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); bool eq = a.c == b.c; if (ce->getPredicate() == CmpInst::ICMP_EQ) { out.push_back(CV(eq)); return; } if (ce->getPredicate() == CmpInst::ICMP_NE) { out.push_back(CV(!eq)); return; } break; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); throw Unsupported{"constant " + os.str()};
}
void Exec::writeConst(uint64_t addr, const Constant* C) {
  auto& L = leaves(C->getType()); std::vector<Val> v; constLeaves(C, v);
  for (size_t i = 0; i < L.size(); i++) { if (v[i].e) { v[i] = CV(0); } unsigned n = L[i].fp80 ? 8 : (L[i].w + 7) / 8; Obj* o = cur->mem.getw(addr >> 32); memcpy(o->b.data() + (uint32_t)addr + L[i].off, &v[i].c, std::min(n, 8u)); }
}
void Exec::initGlobals() {
  for (auto& g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
    uint32_t id = cur->mem.alloc(sz, K_GLOBAL, false); gaddr[&g] = ADDR(id); Obj* o = cur->mem.getw(id); o->name = strdup(g.getName().str().c_str()); }
  for (auto& F : *M) if (F.hasAddressTaken(nullptr, true)) funcAddr(&F); // before any fork: an address is the same in every state
  for (auto& g : M->globals()) if (!g.getName().starts_with("llvm.") && g.hasInitializer()) { writeConst(gaddr[&g], g.getInitializer()); if (g.isConstant()) cur->mem.getw(gaddr[&g] >> 32)->ro = true; }
  for (auto& g : M->globals()) if (g.getName().starts_with("_ZTI")) { uint64_t a = gaddr[&g]; tiName[a] = g.getName().str();
    if (g.hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(g.getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); i++) if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) { tiBases[a].push_back(gaddr[b]); int64_t off = 0; if (i + 1 < cs->getNumOperands()) if (auto* c = dyn_cast<ConstantInt>(cs->getOperand(i + 1))) off = c->getSExtValue() >> 8; tiOff[a].push_back({gaddr[b], off}); } }
}
bool Exec::typeMatches(uint64_t t, uint64_t c) {
  if (t == c) return true; for (uint64_t b : tiBases[t]) if (typeMatches(b, c)) return true;
  static const std::map<std::string, std::string> base = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}};
  std::string n = tiName.count(t) ? tiName[t] : "", m = tiName.count(c) ? tiName[c] : ""; while (base.count(n)) { n = base.at(n); if (n == m) return true; } return false;
}
Opd Exec::operand(Func* f, const Value* v, std::unordered_map<const Value*, uint32_t>& reg, std::unordered_map<const Value*, uint32_t>& cst) {
  Opd o; o.n = 0;
  if (auto* c = dyn_cast<Constant>(v)) { auto it = cst.find(v); uint32_t k; std::vector<Val> vs; 
    if (it == cst.end()) { constLeaves(c, vs); k = f->consts.size(); for (auto& x : vs) f->consts.push_back(x); cst[v] = k; } else k = it->second;
    o.r = -1; o.k = k; o.n = leaves(v->getType()).size(); return o; }
  auto it = reg.find(v); if (it == reg.end()) { o.r = -1; o.k = 0; return o; }
  o.r = it->second; o.k = 0; o.n = leaves(v->getType()).size(); return o;
}
void Exec::decode(Func* f) {
  if (f->decoded) return; f->decoded = true; Function& F = *f->F; std::unordered_map<const Value*, uint32_t> reg, cst; uint32_t n = 0; f->consts.push_back(CV(0));
  if (auto* sp = F.getSubprogram()) f->repo = isRepoFile(sp->getFilename());
  for (auto& a : F.args()) { reg[&a] = n; f->argReg.push_back(n); n += leaves(a.getType()).size(); }
  std::unordered_map<const BasicBlock*, int> bbi; int bi = 0;
  for (auto& b : F) { bbi[&b] = bi++; for (auto& I : b) { if (!I.getType()->isVoidTy()) { reg[&I] = n; n += leaves(I.getType()).size(); } } }
  f->nregs = n;
  for (auto& b : F) {
    BB x; x.bb = &b; x.first = f->code.size();
    for (auto& I : b) {
      if (auto* p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { int pb = bbi[p->getIncomingBlock(i)]; auto& vec = x.phi[pb]; bool dup = false; for (auto& q : vec) if (q.dst == reg[p]) dup = true; if (!dup) vec.push_back({reg[p], (uint16_t)leaves(p->getType()).size(), operand(f, p->getIncomingValue(i), reg, cst)}); } continue; }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DI d; d.I = &I; d.opc = I.getOpcode(); d.L = &leaves(I.getType()); d.nl = d.L->size(); d.dst = I.getType()->isVoidTy() ? 0 : reg[&I]; d.w = d.nl ? (*d.L)[0].w : 0; d.isF = d.nl ? (*d.L)[0].isF : false; d.fp80 = d.nl ? (*d.L)[0].fp80 : false;
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::dbg_label || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) continue; }
        if (cb->isInlineAsm()) { d.extName = "inline asm"; }
        else if (const Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) d.callee = getFunc(cf);
        for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { d.o.push_back(Opd{-1, 0, 0}); continue; } d.o.push_back(operand(f, a, reg, cst)); }
        if (!d.callee && !cb->isInlineAsm()) d.o.push_back(operand(f, cb->getCalledOperand(), reg, cst));
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { d.b0 = bbi[iv->getNormalDest()]; d.b1 = bbi[iv->getUnwindDest()]; }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { d.o.push_back(operand(f, br->getCondition(), reg, cst)); d.b0 = bbi[br->getSuccessor(0)]; d.b1 = bbi[br->getSuccessor(1)]; } else d.b0 = bbi[br->getSuccessor(0)]; }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { d.o.push_back(operand(f, sw->getCondition(), reg, cst)); d.w = sw->getCondition()->getType()->getIntegerBitWidth(); d.b0 = bbi[sw->getDefaultDest()]; for (auto& c : sw->cases()) d.scale.push_back({(unsigned)bbi[c.getCaseSuccessor()], c.getCaseValue()->getZExtValue()}); }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getType()->isVectorTy()) throw Unsupported{"vector GEP"};
        d.o.push_back(operand(f, g->getPointerOperand(), reg, cst)); uint64_t off = 0;
        for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) { Value* ix = it.getOperand();
          if (StructType* s = it.getStructTypeOrNull()) off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += sz * ci->getSExtValue(); else { d.scale.push_back({(unsigned)d.o.size(), sz | ((uint64_t)ix->getType()->getIntegerBitWidth() << 48)}); d.o.push_back(operand(f, ix, reg, cst)); } } }
        d.aux = off;
      } else {
        for (auto& o : I.operands()) { if (isa<BasicBlock>(o)) continue; d.o.push_back(operand(f, o, reg, cst)); }
        if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0)) && !I.getOperand(0)->getType()->isMetadataTy()) { auto& L0 = leaves(I.getOperand(0)->getType()); if (L0.size()) { d.ow = L0[0].w; d.oF = L0[0].isF; } }
        if (auto* ai = dyn_cast<AllocaInst>(&I)) { d.aux = DL->getTypeAllocSize(ai->getAllocatedType()); }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { Type* t = ev->getAggregateOperand()->getType(); unsigned li = 0; for (unsigned ix : ev->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) li += leaves(s->getElementType(j)).size(); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); li += ix * leaves(a->getElementType()).size(); t = a->getElementType(); } } d.aux = li; }
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) { Type* t = iv->getType(); unsigned li = 0; for (unsigned ix : iv->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) li += leaves(s->getElementType(j)).size(); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); li += ix * leaves(a->getElementType()).size(); t = a->getElementType(); } } d.aux = li; }
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { for (int m : sv->getShuffleMask()) d.idx.push_back(m); }
      }
      f->code.push_back(std::move(d));
    }
    f->bbs.push_back(std::move(x));
  }
}

// ---------------------------------------------------------------- scalar operations
Val Exec::ibin(unsigned opc, Val a, Val b, unsigned w, const Instruction* I) {
  if (w > 64) { if (!a.e && !b.e) { // limited 128-bit support: values known to fit in 64 bits
      switch (opc) { case Instruction::Add: return CV(a.c + b.c); case Instruction::Mul: { unsigned __int128 p = (unsigned __int128)a.c * b.c; if (p >> 64) throw Unsupported{"128-bit product"}; return CV((uint64_t)p); } default: break; } } throw Unsupported{"128-bit arithmetic"}; }
  Op o; bool div = false;
  switch (opc) {
    case Instruction::Add: if (!a.e && !b.e) return CV((a.c + b.c) & maskw(w)); o = ADD; break; case Instruction::Sub: if (!a.e && !b.e) return CV((a.c - b.c) & maskw(w)); o = SUB; break;
    case Instruction::Mul: o = MUL; break; case Instruction::UDiv: o = UDIV; div = true; break; case Instruction::SDiv: o = SDIV; div = true; break;
    case Instruction::URem: o = UREM; div = true; break; case Instruction::SRem: o = SREM; div = true; break; case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
    case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break; default: throw Unsupported{"binop"};
  }
  if (div) { if (b.e) { if (b.e->undef) violation("uninitialised", "uninitialised divisor", nullptr, true); if (decide(mkCmp(EQ, b.e, mkConst(0, w)), "divisor")) violation("division", "integer division by zero", nullptr, true); } else if (!(b.c & maskw(w))) violation("division", "integer division by zero", nullptr, true); }
  if (!a.e && !b.e) return CV(evalBin(o, a.c, b.c, w));
  return fromE(mkBin(o, E(a, w), E(b, w)));
}
Val Exec::icmp(unsigned p, Val a, Val b, unsigned w) {
  Op o; bool sw = false, neg = false;
  switch (p) { case CmpInst::ICMP_EQ: o = EQ; break; case CmpInst::ICMP_NE: o = EQ; neg = true; break; case CmpInst::ICMP_ULT: o = ULT; break; case CmpInst::ICMP_ULE: o = ULE; break; case CmpInst::ICMP_UGT: o = ULT; sw = true; break; case CmpInst::ICMP_UGE: o = ULE; sw = true; break;
    case CmpInst::ICMP_SLT: o = SLT; break; case CmpInst::ICMP_SLE: o = SLE; break; case CmpInst::ICMP_SGT: o = SLT; sw = true; break; default: o = SLE; sw = true; break; }
  if (sw) std::swap(a, b);
  if (!a.e && !b.e) { uint64_t r = evalBin(o, a.c, b.c, std::min(w, 64u)); return CV(neg ? !r : r); }
  Expr* r = mkCmp(o, E(a, w), E(b, w)); if (neg) r = mkNot(r); return fromE(r);
}
Expr* Exec::R(Val v, bool dbl) { // as real expression; must be finite
  if (!v.e) { double d = dbl ? dbits(v.c) : (double)fbits(v.c); return mkRConst(d); }
  if (v.e->w == 0) return v.e; if (v.e->op == RBITS) return v.e->k[0]; if (v.e->op == UNDEF) return nullptr;
  throw Unsupported{"bit-precise float mixed with exact-real float"};
}
static bool isNonFin(Val v, bool dbl) { if (v.e) return false; return dbl ? !std::isfinite(dbits(v.c)) : !std::isfinite(fbits(v.c)); }
static double numOf(Val v, bool dbl) { return dbl ? dbits(v.c) : (double)fbits(v.c); }
static Val mkF(double d, bool dbl) { return CV(dbl ? bitsd(d) : bitsf((float)d)); }
Val Exec::fneg(Val a, bool dbl) {
  if (!a.e) return CV(a.c ^ (dbl ? 1ULL << 63 : 1ULL << 31)); if (a.e->op == UNDEF) return a;
  if (a.e->w == 0) return fromR(mkRBin(RSUB, mkRConst(0), a.e, 0), dbl);
  unsigned w = dbl ? 64 : 32; return fromE(mkBin(XOR, a.e, mkConst(1ULL << (w - 1), w)));
}
Val Exec::fbin(unsigned opc, Val a, Val b, bool dbl) {
  if (!a.e && !b.e) {
    if (dbl) { double x = dbits(a.c), y = dbits(b.c); switch (opc) { case Instruction::FAdd: return CV(bitsd(x + y)); case Instruction::FSub: return CV(bitsd(x - y)); case Instruction::FMul: return CV(bitsd(x * y)); case Instruction::FDiv: return CV(bitsd(x / y)); case Instruction::FRem: return CV(bitsd(fmod(x, y))); } }
    else { float x = fbits(a.c), y = fbits(b.c); switch (opc) { case Instruction::FAdd: return CV(bitsf(x + y)); case Instruction::FSub: return CV(bitsf(x - y)); case Instruction::FMul: return CV(bitsf(x * y)); case Instruction::FDiv: return CV(bitsf(x / y)); case Instruction::FRem: return CV(bitsf(fmodf(x, y))); } }
  }
  unsigned w = dbl ? 64 : 32;
  if ((a.e && a.e->undef) || (b.e && b.e->undef)) return Val{0, mkUndef(w)};
  bool ra = a.e && (a.e->w == 0 || a.e->op == RBITS), rb = b.e && (b.e->w == 0 || b.e->op == RBITS);
  if (ra || rb) {
    if (isNonFin(a, dbl) || isNonFin(b, dbl)) { // inf/nan with a finite symbolic value
      bool aN = isNonFin(a, dbl); double x = numOf(aN ? a : b, dbl); if (std::isnan(x)) return mkF(x, dbl);
      if (opc == Instruction::FAdd) return mkF(x, dbl); if (opc == Instruction::FSub) return mkF(aN ? x : -x, dbl);
      if (opc == Instruction::FMul || (opc == Instruction::FDiv && aN)) { Expr* r = R(aN ? b : a, dbl); if (decide(mkRCmp(REQ, r, mkRConst(0)), "sign")) return mkF(opc == Instruction::FMul ? NAN : x, dbl); if (decide(mkRCmp(RLT, r, mkRConst(0)), "sign")) return mkF(-x, dbl); return mkF(x, dbl); }
      if (opc == Instruction::FDiv) return mkF(0.0, dbl);
      throw Unsupported{"non-finite arithmetic"};
    }
    Expr *x = R(a, dbl), *y = R(b, dbl); int prec = dbl ? 53 : 24;
    switch (opc) { case Instruction::FAdd: return fromR(mkRBin(RADD, x, y, prec), dbl); case Instruction::FSub: return fromR(mkRBin(RSUB, x, y, prec), dbl); case Instruction::FMul: return fromR(mkRBin(RMUL, x, y, prec), dbl);
      case Instruction::FDiv: { if (decide(mkRCmp(REQ, y, mkRConst(0)), "float divisor")) { if (decide(mkRCmp(REQ, x, mkRConst(0)), "dividend")) return mkF(NAN, dbl); return mkF(decide(mkRCmp(RLT, x, mkRConst(0)), "dividend") ? -INFINITY : INFINITY, dbl); }
        return fromR(mkRBin(RDIV, x, y, prec), dbl); } }
    throw Unsupported{"real float op"};
  }
  Op o; switch (opc) { case Instruction::FAdd: o = FADD; break; case Instruction::FSub: o = FSUB; break; case Instruction::FMul: o = FMUL; break; case Instruction::FDiv: o = FDIV; break; default: throw Unsupported{"symbolic frem"}; }
  return Val{0, mkRaw(o, w, 0, E(a, w), E(b, w))};
}
Val Exec::fcmp(unsigned p, Val a, Val b, bool dbl) {
  if (p == CmpInst::FCMP_TRUE) return CV(1); if (p == CmpInst::FCMP_FALSE) return CV(0);
  unsigned w = dbl ? 64 : 32; bool U = p & 8; // unordered variant
  if (!a.e && !b.e) { double x = numOf(a, dbl), y = numOf(b, dbl); if (std::isnan(x) || std::isnan(y)) return CV(p == CmpInst::FCMP_ORD ? 0 : p == CmpInst::FCMP_UNO ? 1 : U); 
    bool r = false; if ((p & 1) && x == y) r = true; if ((p & 2) && x > y) r = true; if ((p & 4) && x < y) r = true; return CV(r); }
  if ((a.e && a.e->undef) || (b.e && b.e->undef)) return Val{0, mkUndef(1)};
  bool ra = a.e && (a.e->w == 0 || a.e->op == RBITS), rb = b.e && (b.e->w == 0 || b.e->op == RBITS);
  if (ra || rb) {
    if (isNonFin(a, dbl) || isNonFin(b, dbl)) { bool aN = isNonFin(a, dbl); double x = numOf(aN ? a : b, dbl); if (std::isnan(x)) return CV(p == CmpInst::FCMP_UNO ? 1 : p == CmpInst::FCMP_ORD ? 0 : U); bool gt = (x > 0) == aN; return CV(p == CmpInst::FCMP_ORD ? 1 : p == CmpInst::FCMP_UNO ? 0 : gt ? (p & 2) != 0 : (p & 4) != 0); }
    Expr *x = R(a, dbl), *y = R(b, dbl); if (p == CmpInst::FCMP_ORD) return CV(1); if (p == CmpInst::FCMP_UNO) return CV(0);
    switch (p & 7) { case 1: return fromE(mkRCmp(REQ, x, y)); case 2: return fromE(mkRCmp(RLT, y, x)); case 3: return fromE(mkRCmp(RLE, y, x)); case 4: return fromE(mkRCmp(RLT, x, y)); case 5: return fromE(mkRCmp(RLE, x, y)); case 6: return fromE(mkNot(mkRCmp(REQ, x, y))); }
  }
  Expr *x = E(a, w), *y = E(b, w); auto C = [&](Op o, Expr* s, Expr* t) { return mkRaw(o, 1, 0, s, t); };
  Expr* uno = C(FUNO, x, y); if (p == CmpInst::FCMP_UNO) return fromE(uno); if (p == CmpInst::FCMP_ORD) return fromE(mkNot(uno));
  Expr* r; switch (p & 7) { case 1: r = C(FEQ, x, y); break; case 2: r = C(FLT, y, x); break; case 3: r = C(FLE, y, x); break; case 4: r = C(FLT, x, y); break; case 5: r = C(FLE, x, y); break; default: r = mkBin(AND, mkNot(C(FEQ, x, y)), mkNot(uno)); break; }
  return fromE(U ? mkBin(OR, r, uno) : r);
}
// a small integer expression as a real one (for comparisons and selections turned into numbers); null if it is not of that form
static Expr* intToReal(Expr* e, bool sg, double& lo, double& hi, int depth = 0) {
  if (depth > 24) return nullptr; unsigned w = e->w; double a, b, c, d;
  if (e->op == CONST) { lo = hi = sg ? (double)sxt(e->c, w) : (double)(e->c & maskw(w)); if (fabs(lo) > 1e9) return nullptr; return mkRConst(lo); }
  if (e->op == ITE) { Expr *x = intToReal(e->k[1], sg, a, b, depth + 1), *y = x ? intToReal(e->k[2], sg, c, d, depth + 1) : nullptr; if (!y) return nullptr; lo = std::min(a, c); hi = std::max(b, d); return mkIte(e->k[0], x, y); }
  if (w == 1) { lo = sg ? -1 : 0; hi = sg ? 0 : 1; return mkIte(e, mkRConst(sg ? -1 : 1), mkRConst(0)); }
  if (e->op == ZEXT) { Expr* x = intToReal(e->k[0], false, lo, hi, depth + 1); return x; }
  if (e->op == SEXT) { Expr* x = intToReal(e->k[0], true, lo, hi, depth + 1); return x && (sg || lo >= 0) ? x : nullptr; }
  if (e->op == ADD || e->op == SUB) { Expr *x = intToReal(e->k[0], true, a, b, depth + 1), *y = x ? intToReal(e->k[1], true, c, d, depth + 1) : nullptr; if (!y) return nullptr; bool add = e->op == ADD; lo = add ? a + c : a - d; hi = add ? b + d : b - c; double lim = ldexp(1, w - 1); if (lo < -lim || hi >= lim || (!sg && lo < 0)) return nullptr; return mkRBin(add ? RADD : RSUB, x, y, 53); }
  return nullptr; }
Val Exec::castv(unsigned opc, Val v, const Leaf& s, const Leaf& d) {
  switch (opc) {
    case Instruction::Trunc: if (!v.e) return CV(v.c & maskw(d.w)); if (v.e->op == UNDEF) return Val{0, mkUndef(d.w)}; return fromE(mkExtract(v.e, 0, d.w));
    case Instruction::ZExt: if (!v.e) return CV(v.c & maskw(s.w)); return fromE(mkZExt(v.e, d.w));
    case Instruction::SExt: if (!v.e) return CV((uint64_t)sxt(v.c, s.w) & maskw(d.w)); return fromE(mkSExt(v.e, d.w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (!v.e) return CV(v.c & maskw(d.w)); return fromE(d.w < s.w ? mkExtract(v.e, 0, d.w) : mkZExt(v.e, d.w));
    case Instruction::AddrSpaceCast: return v;
    case Instruction::BitCast: if (!v.e) return v; if (v.e->w == 0 && !d.isF) return Val{0, mkRBits(v.e, d.w)}; if (d.isF && v.e->op == RBITS) return Val{0, v.e->k[0]}; return v;
    case Instruction::FPExt: if (!v.e) { if (s.w == 64) return v; return CV(bitsd((double)fbits(v.c))); } if (v.e->op == UNDEF) return Val{0, mkUndef(d.w)}; if (v.e->w == 0) return v; if (s.w == d.w) return v; return Val{0, mkRaw(FPEXT, 64, 0, v.e)};
    case Instruction::FPTrunc: if (d.w == 64) return v; if (!v.e) return CV(bitsf((float)dbits(v.c))); if (v.e->op == UNDEF) return Val{0, mkUndef(d.w)}; if (v.e->w == 0) return fromR(mkRRound(v.e, 24), false); return Val{0, mkRaw(FPTRUNC, 32, 0, v.e)};
    case Instruction::SIToFP: case Instruction::UIToFP: {
      bool sg = opc == Instruction::SIToFP;
      if (v.e && v.e->op == UNDEF) return Val{0, mkUndef(d.w)};
      if (v.e && !exact) { if (v.e->w < 64 || true) return Val{0, mkRaw(sg ? SITOFP : UITOFP, d.w, 0, v.e)}; }
      if (v.e) { Expr* x = v.e; while (x->op == ZEXT) x = x->k[0]; if (x->w <= 16 && (x != v.e || !sg)) { Expr* r = nullptr; for (unsigned i = 0; i < x->w; i++) { Expr* t = mkIte(mkExtract(x, i, 1), mkRConst((double)(1u << i)), mkRConst(0)); r = r ? mkRBin(RADD, r, t, 53) : t; } return fromR(r, d.w == 64); } }
      if (v.e) { double lo, hi; Expr* r = intToReal(v.e, sg, lo, hi); if (r) return fromR(r, d.w == 64); }
      uint64_t c = concretize(v, s.w, "integer converted to float"); 
      if (d.w == 64) return CV(bitsd(sg ? (double)sxt(c, s.w) : (double)c)); return CV(bitsf(sg ? (float)sxt(c, s.w) : (float)c)); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      bool sg = opc == Instruction::FPToSI; bool dbl = s.w == 64;
      if (v.e && v.e->op == UNDEF) return Val{0, mkUndef(d.w)};
      double x;
      if (v.e && v.e->w == 0) { ensureModel(); double m = trunc(dbits(evalModel(*cur->model, v.e))); Expr* c; 
        if (m == 0) c = mkBin(AND, mkRCmp(RLT, mkRConst(-1), v.e), mkRCmp(RLT, v.e, mkRConst(1))); else if (m > 0) c = mkBin(AND, mkRCmp(RLE, mkRConst(m), v.e), mkRCmp(RLT, v.e, mkRConst(m + 1))); else c = mkBin(AND, mkRCmp(RLT, mkRConst(m - 1), v.e), mkRCmp(RLE, v.e, mkRConst(m)));
        if (!decide(c, "float converted to integer")) return castv(opc, v, s, d); x = m; }
      else if (v.e) return Val{0, mkRaw(sg ? FPTOSI : FPTOUI, d.w, 0, v.e)};
      else x = trunc(numOf(v, dbl));
      bool bad = std::isnan(x); if (sg) bad = bad || x < -ldexp(1, d.w - 1) || x >= ldexp(1, d.w - 1); else bad = bad || x <= -1 || x >= ldexp(1, d.w);
      if (bad) { violation("conversion", "floating-point value out of range of the integer type it is converted to (undefined behaviour)", nullptr, true); }
      return CV((sg ? (uint64_t)(int64_t)x : (uint64_t)x) & maskw(d.w)); }
  }
  throw Unsupported{"cast"};
}
Val Exec::select(Val c, Val a, Val b, const Leaf& l, bool ptr) {
  if (!c.e) return (c.c & 1) ? a : b;
  if (c.e->op == UNDEF) return Val{0, mkUndef(l.w)};
  if (!a.e && !b.e && a.c == b.c) return a;
  if (ptr || (l.isF && (isNonFin(a, l.w == 64) || isNonFin(b, l.w == 64)))) return decide(c.e, "select") ? a : b;
  if (l.isF) { bool r = (a.e && (a.e->w == 0 || a.e->op == RBITS)) || (b.e && (b.e->w == 0 || b.e->op == RBITS)); 
    if ((a.e && a.e->undef) || (b.e && b.e->undef)) return decide(c.e, "select") ? a : b;
    if (!r && !a.e && !b.e && exact) r = true; 
    if (r) return fromR(mkIte(c.e, R(a, l.w == 64), R(b, l.w == 64)), l.w == 64); }
  if ((a.e && a.e->undef) || (b.e && b.e->undef)) return decide(c.e, "select") ? a : b;
  return fromE(mkIte(c.e, E(a, l.w), E(b, l.w)));
}
static void factor(Expr* x, double& c, Expr*& y) { // x = c*y with a canonical sign
  c = 1; y = x; double c1, c2; Expr *y1, *y2;
  if (x->op == RMUL && x->k[0]->op == RCONST) { factor(x->k[1], c1, y1); c = c1 * dbits(x->k[0]->c); y = y1; }
  else if (x->op == RMUL && x->k[1]->op == RCONST) { factor(x->k[0], c1, y1); c = c1 * dbits(x->k[1]->c); y = y1; }
  else if (x->op == RSUB && x->k[0]->op == RCONST && x->k[0]->c == 0) { factor(x->k[1], c1, y1); c = -c1; y = y1; }
  else if (x->op == RSUB || x->op == RADD) { factor(x->k[0], c1, y1); factor(x->k[1], c2, y2); if (x->op == RSUB) c2 = -c2;
    if (c1 < 0 && c2 < 0) { c = -1; y = mkRBin(RADD, mkRBin(RMUL, mkRConst(-c1), y1, 0), mkRBin(RMUL, mkRConst(-c2), y2, 0), 0); }
    else if (c1 < 0) { bool f = y1->id < y2->id; c = f ? -1 : 1; y = f ? mkRBin(RSUB, mkRBin(RMUL, mkRConst(-c1), y1, 0), mkRBin(RMUL, mkRConst(c2), y2, 0), 0) : mkRBin(RSUB, mkRBin(RMUL, mkRConst(c2), y2, 0), mkRBin(RMUL, mkRConst(-c1), y1, 0), 0); }
    else if (c2 < 0) { bool f = y1->id < y2->id; c = f ? 1 : -1; y = f ? mkRBin(RSUB, mkRBin(RMUL, mkRConst(c1), y1, 0), mkRBin(RMUL, mkRConst(-c2), y2, 0), 0) : mkRBin(RSUB, mkRBin(RMUL, mkRConst(-c2), y2, 0), mkRBin(RMUL, mkRConst(c1), y1, 0), 0); } }
}
static Expr* cexp(Expr* x) { // exp with exp(-y) = 1/exp(y) and exp(k*y) = exp(y)^k made explicit
  if (x->op == RCONST) return mkRConst(exp(dbits(x->c)));
  double c; Expr* y; factor(x, c, y); double m = fabs(c); Expr* e;
  if (m >= 1 && m <= 4 && m == floor(m)) { Expr* u = mkRUF("exp", y); e = u; for (int i = 1; i < m; i++) e = mkRBin(RMUL, e, u, 0); } else e = mkRUF("exp", mkRBin(RMUL, mkRConst(m), y, 0));
  return c < 0 ? mkRBin(RDIV, mkRConst(1), e, 0) : e;
}
Val Exec::funary(const std::string& n, Val a, bool dbl) {
  if (!a.e) { double x = numOf(a, dbl); double r;
    if (!dbl) { float f = fbits(a.c); float q; if (n == "exp") q = expf(f); else if (n == "log") q = logf(f); else if (n == "sqrt") q = sqrtf(f); else if (n == "tanh") q = tanhf(f); else if (n == "fabs") q = fabsf(f); else if (n == "floor") q = floorf(f); else if (n == "ceil") q = ceilf(f); else if (n == "round") q = roundf(f); else if (n == "rint") q = rintf(f); else if (n == "trunc") q = truncf(f); else if (n == "sin") q = sinf(f); else if (n == "cos") q = cosf(f); else throw Unsupported{"float fn " + n}; return CV(bitsf(q)); }
    if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "sqrt") r = sqrt(x); else if (n == "tanh") r = tanh(x); else if (n == "fabs") r = fabs(x); else if (n == "floor") r = floor(x); else if (n == "ceil") r = ceil(x); else if (n == "round") r = round(x); else if (n == "rint") r = rint(x); else if (n == "trunc") r = trunc(x); else if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else throw Unsupported{"double fn " + n}; return CV(bitsd(r)); }
  unsigned w = dbl ? 64 : 32; if (a.e->undef) return Val{0, mkUndef(w)};
  if (a.e->w == 0 || a.e->op == RBITS) { Expr* x = R(a, dbl);
    if (n == "fabs") return fromR(mkIte(mkRCmp(RLT, x, mkRConst(0)), mkRBin(RSUB, mkRConst(0), x, 0), x), dbl);
    if (n == "sqrt" && decide(mkRCmp(RLT, x, mkRConst(0)), "sqrt argument")) return mkF(NAN, dbl);
    if (n == "log") { if (decide(mkRCmp(RLE, x, mkRConst(0)), "log argument")) return decide(mkRCmp(REQ, x, mkRConst(0)), "log argument") ? mkF(-INFINITY, dbl) : mkF(NAN, dbl); }
    if (n == "tanh") return fromR(mkRBin(RSUB, mkRConst(1), mkRBin(RDIV, mkRConst(2), mkRBin(RADD, cexp(mkRBin(RMUL, mkRConst(2), x, 0)), mkRConst(1), 0), 0), 0), dbl);
    if (n == "exp") return fromR(cexp(x), dbl);
    if (n == "exp" || n == "log" || n == "sqrt" || n == "tanh" || n == "sin" || n == "cos") return Val{0, mkRUF(n, x)};
    if (n == "floor" || n == "ceil" || n == "round" || n == "trunc") { ensureModel(); double m = dbits(evalModel(*cur->model, x)); double r; Expr* c; if (n == "floor") { r = floor(m); c = mkBin(AND, mkRCmp(RLE, mkRConst(r), x), mkRCmp(RLT, x, mkRConst(r + 1))); } else if (n == "ceil") { r = ceil(m); c = mkBin(AND, mkRCmp(RLT, mkRConst(r - 1), x), mkRCmp(RLE, x, mkRConst(r))); } else throw Unsupported{"real round"}; if (!decide(c, "rounding")) return funary(n, a, dbl); return mkF(r, dbl); }
    throw Unsupported{"real fn " + n}; }
  if (n == "fabs") return fromE(mkBin(AND, a.e, mkConst(maskw(w - 1), w)));
  throw Unsupported{"bit-precise fn " + n};
}
Val Exec::fpow(Val a, Val b, bool dbl) {
  if (!a.e && !b.e) return dbl ? CV(bitsd(pow(dbits(a.c), dbits(b.c)))) : CV(bitsf(powf(fbits(a.c), fbits(b.c))));
  if ((a.e && a.e->undef) || (b.e && b.e->undef)) return Val{0, mkUndef(dbl ? 64 : 32)};
  if (!b.e) { double y = numOf(b, dbl); Expr* x = R(a, dbl); int prec = dbl ? 53 : 24; if (y == 0) return mkF(1, dbl); if (y == 1) return a; if (y == 2) return fromR(mkRBin(RMUL, x, x, prec), dbl); if (y == -1) return fbin(Instruction::FDiv, mkF(1, dbl), a, dbl); }
  Expr *x = R(a, dbl), *y = R(b, dbl);
  if (decide(mkRCmp(RLE, x, mkRConst(0)), "pow base")) { if (decide(mkRCmp(REQ, x, mkRConst(0)), "pow base")) return decide(mkRCmp(RLT, mkRConst(0), y), "pow exponent") ? mkF(0, dbl) : mkF(INFINITY, dbl); throw Unsupported{"pow of a negative base"}; }
  if (y->op == RCONST) { double v = dbits(y->c), fl = floor(v), fr = v - fl; // one uninterpreted power per fractional exponent, integral part as products
    if (fabs(fl) <= 4) { Expr* r = fr == 0 ? mkRConst(1) : fr == 0.5 ? mkRUF("sqrt", x) : mkRUF("pow", x, mkRConst(fr)); for (int i = 0; i < fl; i++) r = mkRBin(RMUL, r, x, 0); for (int i = 0; i < -fl; i++) r = mkRBin(RDIV, r, x, 0); return fromR(r, dbl); } }
  return Val{0, mkRUF("pow", x, y)};
}
#include "exec.inc"

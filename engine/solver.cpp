#include "solver.h"
#include <iostream>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onErr(Z3_context c, Z3_error_code e) { throw Unsupported{std::string("z3: ") + Z3_get_error_msg(c, e)}; }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, onErr);
  s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s); realS = Z3_mk_real_sort(ctx); boolS = Z3_mk_bool_sort(ctx);
  Z3_inc_ref(ctx, (Z3_ast)realS); Z3_inc_ref(ctx, (Z3_ast)boolS);
}
static std::string dec(double d) { // exact decimal-rational string for a double
  if (d == 0) return "0"; int e; double m = frexp(fabs(d), &e); uint64_t k = (uint64_t)ldexp(m, 53); e -= 53; while (!(k & 1)) { k >>= 1; e++; }
  auto pow2 = [](std::string base, int n) { std::string r = base; for (int i = 0; i < n; i++) { int c = 0; for (int j = (int)r.size() - 1; j >= 0; j--) { int v = (r[j] - '0') * 2 + c; r[j] = '0' + v % 10; c = v / 10; } if (c) r.insert(r.begin(), '0' + c); } return r; };
  std::string r = std::to_string(k); if (e > 0) r = pow2(r, e); else if (e < 0) r += "/" + pow2("1", -e); return (d < 0 ? "-" : "") + r;
}
Z3_ast Solver::B(Expr* e) {
  if (e->zb) return (Z3_ast)e->zb; Z3_ast r = nullptr; auto K = [&](int i) { return e->k[i]; };
  switch (e->op) {
    case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EQ: r = K(0)->w == 1 ? Z3_mk_iff(ctx, B(K(0)), B(K(1))) : Z3_mk_eq(ctx, V(K(0)), V(K(1))); break;
    case ULT: r = Z3_mk_bvult(ctx, V(K(0)), V(K(1))); break; case ULE: r = Z3_mk_bvule(ctx, V(K(0)), V(K(1))); break;
    case SLT: r = Z3_mk_bvslt(ctx, V(K(0)), V(K(1))); break; case SLE: r = Z3_mk_bvsle(ctx, V(K(0)), V(K(1))); break;
    case AND: { Z3_ast a[2] = {B(K(0)), B(K(1))}; r = Z3_mk_and(ctx, 2, a); break; }
    case OR: { Z3_ast a[2] = {B(K(0)), B(K(1))}; r = Z3_mk_or(ctx, 2, a); break; }
    case XOR: if (isC(K(1)) && K(1)->c == 1) r = Z3_mk_not(ctx, B(K(0))); else r = Z3_mk_xor(ctx, B(K(0)), B(K(1))); break;
    case ITE: r = Z3_mk_ite(ctx, B(K(0)), B(K(1)), B(K(2))); break;
    case REQ: r = Z3_mk_eq(ctx, V(K(0)), V(K(1))); break; case RLT: r = Z3_mk_lt(ctx, V(K(0)), V(K(1))); break; case RLE: r = Z3_mk_le(ctx, V(K(0)), V(K(1))); break;
    case FEQ: case FLT: case FLE: case FUNO: {
      Z3_sort fs = K(0)->w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx);
      Z3_ast a = Z3_mk_fpa_to_fp_bv(ctx, V(K(0)), fs), b = Z3_mk_fpa_to_fp_bv(ctx, V(K(1)), fs);
      if (e->op == FEQ) r = Z3_mk_fpa_eq(ctx, a, b); else if (e->op == FLT) r = Z3_mk_fpa_lt(ctx, a, b); else if (e->op == FLE) r = Z3_mk_fpa_leq(ctx, a, b);
      else { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, a), Z3_mk_fpa_is_nan(ctx, b)}; r = Z3_mk_or(ctx, 2, o); }
      break; }
    default: { Z3_ast v = V(e); r = Z3_mk_eq(ctx, v, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
  }
  e->zb = keep(r); return r;
}
Z3_ast Solver::V(Expr* e) {
  if (e->zv) return (Z3_ast)e->zv; Z3_ast r = nullptr; auto K = [&](int i) { return e->k[i]; };
  auto fsort = [&](unsigned w) { return w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx); };
  auto fp = [&](Expr* x) { return Z3_mk_fpa_to_fp_bv(ctx, V(x), fsort(x->w)); };
  auto rne = [&]() { return Z3_mk_fpa_rne(ctx); };
  auto bv = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
  if (e->w == 1 && (e->op >= AND && e->op <= XOR || e->op >= EQ && e->op <= ITE || e->op >= REQ && e->op <= RLE || e->op >= FEQ && e->op <= FUNO)) {
    Z3_sort b1 = Z3_mk_bv_sort(ctx, 1);
    r = Z3_mk_ite(ctx, B(e), Z3_mk_unsigned_int64(ctx, 1, b1), Z3_mk_unsigned_int64(ctx, 0, b1)); e->zv = keep(r); return r;
  }
  switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
    case VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->c)).c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
    case RVAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->c)).c_str()), realS); break;
    case ADD: r = Z3_mk_bvadd(ctx, V(K(0)), V(K(1))); break; case SUB: r = Z3_mk_bvsub(ctx, V(K(0)), V(K(1))); break; case MUL: r = Z3_mk_bvmul(ctx, V(K(0)), V(K(1))); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, V(K(0)), V(K(1))); break; case SDIV: r = Z3_mk_bvsdiv(ctx, V(K(0)), V(K(1))); break;
    case UREM: r = Z3_mk_bvurem(ctx, V(K(0)), V(K(1))); break; case SREM: r = Z3_mk_bvsrem(ctx, V(K(0)), V(K(1))); break;
    case AND: r = Z3_mk_bvand(ctx, V(K(0)), V(K(1))); break; case OR: r = Z3_mk_bvor(ctx, V(K(0)), V(K(1))); break; case XOR: r = Z3_mk_bvxor(ctx, V(K(0)), V(K(1))); break;
    case SHL: r = Z3_mk_bvshl(ctx, V(K(0)), V(K(1))); break; case LSHR: r = Z3_mk_bvlshr(ctx, V(K(0)), V(K(1))); break; case ASHR: r = Z3_mk_bvashr(ctx, V(K(0)), V(K(1))); break;
    case CONCAT: r = Z3_mk_concat(ctx, V(K(0)), V(K(1))); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, V(K(0))); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - K(0)->w, V(K(0))); break; case SEXT: r = Z3_mk_sign_ext(ctx, e->w - K(0)->w, V(K(0))); break;
    case ITE: case RITE: r = Z3_mk_ite(ctx, B(K(0)), V(K(1)), V(K(2))); break;
    case FADD: r = bv(Z3_mk_fpa_add(ctx, rne(), fp(K(0)), fp(K(1)))); break; case FSUB: r = bv(Z3_mk_fpa_sub(ctx, rne(), fp(K(0)), fp(K(1)))); break;
    case FMUL: r = bv(Z3_mk_fpa_mul(ctx, rne(), fp(K(0)), fp(K(1)))); break; case FDIV: r = bv(Z3_mk_fpa_div(ctx, rne(), fp(K(0)), fp(K(1)))); break;
    case FPEXT: case FPTRUNC: r = bv(Z3_mk_fpa_to_fp_float(ctx, rne(), fp(K(0)), fsort(e->w))); break;
    case FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(K(0)), e->w); break; case FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(K(0)), e->w); break;
    case SITOFP: r = bv(Z3_mk_fpa_to_fp_signed(ctx, rne(), V(K(0)), fsort(e->w))); break; case UITOFP: r = bv(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), V(K(0)), fsort(e->w))); break;
    case RCONST: r = Z3_mk_numeral(ctx, dec(dbits(e->c)).c_str(), realS); break;
    case RADD: { Z3_ast a[2] = {V(K(0)), V(K(1))}; r = Z3_mk_add(ctx, 2, a); break; } case RSUB: { Z3_ast a[2] = {V(K(0)), V(K(1))}; r = Z3_mk_sub(ctx, 2, a); break; }
    case RMUL: { Z3_ast a[2] = {V(K(0)), V(K(1))}; r = Z3_mk_mul(ctx, 2, a); break; } case RDIV: r = Z3_mk_div(ctx, V(K(0)), V(K(1))); break;
    case RUF1: case RUF2: {
      int n = e->op == RUF1 ? 1 : 2; Z3_sort dom[2] = {realS, realS}; Z3_ast a[2] = {V(K(0)), n > 1 ? V(K(1)) : nullptr};
      Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("uf_" + g_ufs[e->c]).c_str()), n, dom, realS); r = Z3_mk_app(ctx, f, n, a); break; }
    case RBITS: throw Unsupported{"bit pattern of an exact-real float reached the solver"};
    case UNDEF: throw Unsupported{"undefined value reached the solver"};
    default: throw Unsupported{"V op " + std::to_string(e->op)};
  }
  e->zv = keep(r); return r;
}
void Solver::collectVars(Expr* e, std::vector<unsigned>& out) {
  std::vector<Expr*> st{e};
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (seenVars.count(x)) continue; seenVars[x] = 1;
    if (x->op == VAR || x->op == RVAR) out.push_back(x->c);
    for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]);
    // axioms about uninterpreted functions
    if (x->op == RUF1 || x->op == RUF2) { Z3_ast v = V(x); Z3_ast zero = Z3_mk_numeral(ctx, "0", realS), one = Z3_mk_numeral(ctx, "1", realS), mone = Z3_mk_numeral(ctx, "-1", realS);
      const std::string& n = g_ufs[x->c]; auto add = [&](Z3_ast a) { bounds.push_back(keep(a)); };
      Z3_ast a0 = V(x->k[0]);
      if (n == "exp") { add(Z3_mk_gt(ctx, v, zero)); add(Z3_mk_iff(ctx, Z3_mk_gt(ctx, a0, zero), Z3_mk_gt(ctx, v, one))); add(Z3_mk_iff(ctx, Z3_mk_eq(ctx, a0, zero), Z3_mk_eq(ctx, v, one))); }
      if (n == "sqrt") { add(Z3_mk_ge(ctx, v, zero)); Z3_ast m[2] = {v, v}; add(Z3_mk_implies(ctx, Z3_mk_ge(ctx, a0, zero), Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, m), a0))); }
      if (n == "tanh") { add(Z3_mk_lt(ctx, v, one)); add(Z3_mk_gt(ctx, v, mone)); add(Z3_mk_iff(ctx, Z3_mk_gt(ctx, a0, zero), Z3_mk_gt(ctx, v, zero))); add(Z3_mk_iff(ctx, Z3_mk_eq(ctx, a0, zero), Z3_mk_eq(ctx, v, zero))); }
      if (n == "pow") add(Z3_mk_implies(ctx, Z3_mk_gt(ctx, a0, zero), Z3_mk_gt(ctx, v, zero)));
    }
  }
}
void Solver::boundVar(unsigned i) {
  VarInfo& v = g_vars[i];
  if (v.real) { Expr* e = mkRaw(RVAR, 0, i); Z3_ast z = V(e);
    if (std::isfinite(v.lo)) bounds.push_back(keep(Z3_mk_ge(ctx, z, Z3_mk_numeral(ctx, dec(v.lo).c_str(), realS))));
    if (std::isfinite(v.hi)) bounds.push_back(keep(Z3_mk_le(ctx, z, Z3_mk_numeral(ctx, dec(v.hi).c_str(), realS)))); }
  // bit-vector variables carry their range in the path condition
}
void Solver::sync(const std::vector<Expr*>& pc) {
  size_t p = 0; while (p < stack.size() && p < pc.size() && stack[p] == pc[p]) p++;
  if (stack.size() > p) { Z3_solver_pop(ctx, s, stack.size() - p); stack.resize(p); }
  for (; p < pc.size(); p++) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, B(pc[p])); stack.push_back(pc[p]); }
}
ModelP Solver::extract(Z3_model m) {
  ModelP r = std::make_shared<Model>(); size_t n = g_vars.size(); r->bv.assign(n, 0); r->rv.assign(n, 0); r->has.assign(n, 0);
  for (size_t i = 0; i < n; i++) {
    VarInfo& v = g_vars[i]; Expr* e = mkRaw(v.real ? RVAR : VAR, v.real ? 0 : v.w, i);
    if (!e->zv) { r->bv[i] = v.dflt; r->rv[i] = dbits(v.dflt); if (!v.real) r->rv[i] = 0; continue; }
    Z3_ast o; if (!Z3_model_eval(ctx, m, (Z3_ast)e->zv, false, &o)) continue; Z3_inc_ref(ctx, o);
    if (v.real) {
      if (Z3_get_ast_kind(ctx, o) != Z3_NUMERAL_AST) { // unconstrained or algebraic
        if (Z3_is_algebraic_number(ctx, o)) { Z3_ast lo = Z3_get_algebraic_number_lower(ctx, o, 20); r->rv[i] = Z3_get_numeral_double(ctx, lo); r->has[i] = 1; }
        else r->rv[i] = dbits(v.dflt);
      } else { r->rv[i] = Z3_get_numeral_double(ctx, o); r->has[i] = 1; }
    } else {
      uint64_t x = 0; if (Z3_get_ast_kind(ctx, o) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(ctx, o, &x)) { r->bv[i] = x; r->has[i] = 1; } else r->bv[i] = v.dflt;
    }
    Z3_dec_ref(ctx, o);
  }
  return r;
}
// A condition over one variable of a small declared range: decided by evaluating it for every value of the range.
static bool finiteFalse(Expr* e) {
  static std::unordered_map<Expr*, char> memo; auto it = memo.find(e); if (it != memo.end()) return it->second; char& res = memo[e]; res = 0;
  std::vector<Expr*> st{e}; std::unordered_map<Expr*, char> seen; Expr* var = nullptr;
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (seen[x]) continue; seen[x] = 1; if (seen.size() > 300 || x->w == 0 || x->op == UNDEF || x->undef || (x->op == VAR && var && var != x)) return false; if (x->op == VAR) var = x; for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
  if (!var) return false; VarInfo& v = g_vars[var->c]; if (v.real || v.fbits || !(v.hi > v.lo) || v.hi - v.lo > 255) return false;
  for (int64_t q = (int64_t)v.lo; q <= (int64_t)v.hi; q++) { Model m; m.bv.assign(g_vars.size(), 0); m.rv.assign(g_vars.size(), 0); m.bv[var->c] = (uint64_t)q & maskw(var->w); if (evalModel(m, e) & 1) return false; }
  memo[e] = 1; return true;
}
Res Solver::check(const std::vector<Expr*>& pc, Expr* extra, ModelP* out, bool integral) {
  if (extra && isC(extra) && !extra->c) return UNSAT;
  if (extra && finiteFalse(extra)) { queries++; unsat++; simplified++; return UNSAT; }
  std::vector<unsigned> vs; for (Expr* e : pc) collectVars(e, vs); if (extra) collectVars(extra, vs);
  for (unsigned i : vs) { if (bounded.size() <= i) bounded.resize(i + 1, 0); if (!bounded[i]) { bounded[i] = 1; boundVar(i); } }
  double t0 = now();
  if (extra && !integral && !hasDiv(extra)) { // cheap: z3's own simplifier on the extra conjunct
    Z3_ast a = B(extra); 
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_bool(ctx, p, Z3_mk_string_symbol(ctx, "som"), true); Z3_params_set_bool(ctx, p, Z3_mk_string_symbol(ctx, "arith_lhs"), true); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "som_blowup"), 100000);
    Z3_ast sp = Z3_simplify_ex(ctx, a, p); Z3_inc_ref(ctx, sp); Z3_params_dec_ref(ctx, p);
    bool f = Z3_get_bool_value(ctx, sp) == Z3_L_FALSE; Z3_dec_ref(ctx, sp);
    if (f) { queries++; unsat++; simplified++; time += now() - t0; return UNSAT; }
  }
  if (bounds.size() > nb) { if (stack.size()) Z3_solver_pop(ctx, s, stack.size()); stack.clear(); for (; nb < bounds.size(); nb++) Z3_solver_assert(ctx, s, bounds[nb]); }
  sync(pc); Z3_solver_push(ctx, s);
  if (extra) Z3_solver_assert(ctx, s, B(extra));
  if (integral) for (size_t i = 0; i < g_vars.size(); i++) if (g_vars[i].real && i < bounded.size() && bounded[i]) {
    Expr* e = mkRaw(RVAR, 0, i); Z3_ast m[2] = {V(e), Z3_mk_numeral(ctx, dec(ldexp(1.0, g_vars[i].grid)).c_str(), realS)};
    Z3_solver_assert(ctx, s, Z3_mk_is_int(ctx, g_vars[i].grid ? Z3_mk_mul(ctx, 2, m) : V(e))); }
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  Z3_lbool r = Z3_solver_check(ctx, s);
  double t = now() - t0; time += t; maxq = std::max(maxq, t); queries++;
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT) { sat++; if (out) { Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m); *out = extract(m); Z3_model_dec_ref(ctx, m); } }
  else if (res == UNSAT) unsat++; else unknown++;
  Z3_solver_pop(ctx, s, 1);
  return res;
}
void Solver::identity(Expr* a, Expr* b) {
  double t0 = now(); Z3_ast e = keep(Z3_mk_not(ctx, Z3_mk_eq(ctx, V(a), V(b)))); Z3_ast q = keep(Z3_simplify(ctx, e)); if (Z3_get_bool_value(ctx, q) != Z3_L_FALSE) throw Unsupported{"identity not confirmed"};
  queries++; unsat++; simplified++; Z3_dec_ref(ctx, q); Z3_dec_ref(ctx, e); time += now() - t0;
}
static double uf(const std::string& n, double a, double b) {
  if (n == "exp") return exp(a); if (n == "log") return log(a); if (n == "tanh") return tanh(a); if (n == "sqrt") return sqrt(a); if (n == "pow") return pow(a, b); return 0;
}
uint64_t evalModel(Model& m, Expr* e0) {
  // iterative post-order to avoid deep recursion
  std::vector<Expr*> st{e0};
  auto get = [&](Expr* x, uint64_t& v) { if (x->op == CONST || x->op == RCONST) { v = x->c; return true; } auto it = m.memo.find(x); if (it == m.memo.end()) return false; v = it->second; return true; };
  uint64_t res;
  if (get(e0, res)) return res;
  while (!st.empty()) {
    Expr* x = st.back(); uint64_t k[3] = {0, 0, 0}; 
    if (get(x, res)) { st.pop_back(); continue; }
    bool ok = true; for (int i = 0; i < 3; i++) if (x->k[i] && !get(x->k[i], k[i])) { st.push_back(x->k[i]); ok = false; }
    if (!ok) continue;
    uint64_t v = 0; double a = dbits(k[0]), b = dbits(k[1]); unsigned w0 = x->k[0] ? x->k[0]->w : 0;
    auto F = [&](uint64_t c, unsigned w) -> double { return w == 32 ? (double)fbits(c) : dbits(c); };
    auto FB = [&](double d, unsigned w) -> uint64_t { return w == 32 ? bitsf((float)d) : bitsd(d); };
    switch (x->op) {
      case VAR: { if (x->c < m.bv.size()) v = m.bv[x->c]; else v = g_vars[x->c].dflt; break; }
      case RVAR: { v = x->c < m.rv.size() ? bitsd(m.rv[x->c]) : g_vars[x->c].dflt; break; }
      case CONCAT: v = (k[0] << x->k[1]->w) | k[1]; break; case EXTRACT: v = (k[0] >> x->c) & maskw(x->w); break;
      case ZEXT: v = k[0]; break; case SEXT: v = (uint64_t)sxt(k[0], w0) & maskw(x->w); break;
      case ITE: case RITE: v = k[0] ? k[1] : k[2]; break;
      case RADD: v = bitsd(a + b); break; case RSUB: v = bitsd(a - b); break; case RMUL: v = bitsd(a * b); break; case RDIV: v = bitsd(a / b); break;
      case REQ: v = a == b; break; case RLT: v = a < b; break; case RLE: v = a <= b; break;
      case RUF1: case RUF2: v = bitsd(uf(g_ufs[x->c], a, b)); break;
      case FADD: v = w0 == 32 ? bitsf(fbits(k[0]) + fbits(k[1])) : bitsd(a + b); break; case FSUB: v = w0 == 32 ? bitsf(fbits(k[0]) - fbits(k[1])) : bitsd(a - b); break;
      case FMUL: v = w0 == 32 ? bitsf(fbits(k[0]) * fbits(k[1])) : bitsd(a * b); break; case FDIV: v = w0 == 32 ? bitsf(fbits(k[0]) / fbits(k[1])) : bitsd(a / b); break;
      case FEQ: v = F(k[0], w0) == F(k[1], w0); break; case FLT: v = F(k[0], w0) < F(k[1], w0); break; case FLE: v = F(k[0], w0) <= F(k[1], w0); break;
      case FUNO: v = std::isnan(F(k[0], w0)) || std::isnan(F(k[1], w0)); break;
      case FPEXT: case FPTRUNC: v = FB(F(k[0], w0), x->w); break;
      case FPTOSI: v = (uint64_t)(int64_t)F(k[0], w0) & maskw(x->w); break; case FPTOUI: v = (uint64_t)F(k[0], w0) & maskw(x->w); break;
      case SITOFP: v = FB((double)sxt(k[0], w0), x->w); break; case UITOFP: v = FB((double)k[0], x->w); break;
      case UNDEF: v = 0; break; case RBITS: v = x->w == 32 ? bitsf((float)a) : k[0]; break;
      default: v = evalBin(x->op, k[0], k[1], w0) & maskw(x->w); break;
    }
    m.memo[x] = v; st.pop_back();
  }
  get(e0, res); return res;
}

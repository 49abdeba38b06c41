#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>
#include <chrono>
struct Model { // value per variable id
  std::vector<uint64_t> bv; std::vector<double> rv; std::vector<char> has;
  std::unordered_map<Expr*, uint64_t> memo; // bv value or double bits
};
typedef std::shared_ptr<Model> ModelP;
enum Res { UNSAT, SAT, UNKNOWN };
struct Solver {
  Z3_context ctx; Z3_solver s; Z3_sort realS, boolS;
  std::vector<Expr*> stack;               // asserted path constraints
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, simplified = 0; double time = 0, maxq = 0;
  unsigned timeout_ms = 20000; std::vector<Z3_func_decl> ufd; 
  Solver(); 
  void sync(const std::vector<Expr*>& pc);
  Res check(const std::vector<Expr*>& pc, Expr* extra, ModelP* out, bool integral = false);
  Z3_ast B(Expr* e); Z3_ast V(Expr* e);
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  std::vector<char> bounded; void boundVar(unsigned i); std::vector<Z3_ast> bounds; size_t nb = 0;
  void collectVars(Expr* e, std::vector<unsigned>& out);
  std::unordered_map<Expr*, char> seenVars; 
  ModelP extract(Z3_model m);
  void identity(Expr* a, Expr* b); // both sides are one term: let z3 confirm the equality
  Res finish(Z3_lbool r, double t, ModelP* out);
};
uint64_t evalModel(Model& m, Expr* e); // bv value / double bits for reals

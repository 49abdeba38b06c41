// symx expressions: hash-consed DAG over bit-vectors (w>0) and reals (w==0), with light simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <stdexcept>

enum Op : uint8_t {
  CONST, VAR, UNDEF,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE,
  // bit-precise IEEE on bit-vectors (w = 32/64); comparison yields w=1
  FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, FUNO, FPEXT, FPTRUNC, FPTOSI, FPTOUI, SITOFP, UITOFP,
  // exact real arithmetic (w==0)
  RCONST, RVAR, RADD, RSUB, RMUL, RDIV, RITE, REQ, RLT, RLE, RUF1, RUF2, RBITS
};

struct Expr {
  Op op; uint8_t undef; uint16_t w;
  uint32_t id; uint64_t c;         // const / var index / extract low bit / UF id ; RCONST: double bits
  Expr* k[3]; 
  // reals: interval, dyadic grid (value is a multiple of 2^-grid), approx = went through a rounded operation
  double lo, hi; int grid; bool approx;
  void* zb; void* zv;              // cached z3 ast (bool view, value view)
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sxt(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
static inline double dbits(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static inline uint64_t bitsd(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static inline float fbits(uint64_t c) { uint32_t u = (uint32_t)c; float d; memcpy(&d, &u, 4); return d; }
static inline uint64_t bitsf(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }

struct VarInfo { std::string name; bool real; unsigned w; double lo, hi; int grid; bool fbits; uint64_t dflt; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;
extern uint64_t g_inexact_ops;
struct Unsupported { std::string m; };

Expr* mkRaw(Op op, unsigned w, uint64_t c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr);
Expr* mkConst(uint64_t c, unsigned w);
Expr* mkUndef(unsigned w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkCmp(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkRConst(double d);
Expr* mkRBin(Op op, Expr* a, Expr* b, int prec);   // prec: mantissa bits of the result type (24 / 53)
Expr* mkRRound(Expr* a, int prec);
Expr* mkRCmp(Op op, Expr* a, Expr* b);
Expr* mkRUF(const std::string& n, Expr* a, Expr* b = nullptr);
Expr* polyNormal(Expr* e); void dumpExpr(Expr*); bool hasDiv(Expr* e);
Expr* mkRBits(Expr* r, unsigned w);
static inline bool isC(Expr* e) { return e->op == CONST; }
// evaluation of concrete bv ops
uint64_t evalBin(Op op, uint64_t a, uint64_t b, unsigned w);

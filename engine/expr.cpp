#include "expr.h"
std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufs;
uint64_t g_inexact_ops = 0;

struct Key { Op op; uint16_t w; uint64_t c; Expr* k[3]; };
struct KH { size_t operator()(const Key& x) const {
  uint64_t h = x.op * 0x9E3779B97F4A7C15ULL + x.w; auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; };
  mix(x.c); mix((uint64_t)x.k[0]); mix((uint64_t)x.k[1]); mix((uint64_t)x.k[2]); return h ^ (h >> 29); } };
struct KE { bool operator()(const Key& a, const Key& b) const { return a.op == b.op && a.w == b.w && a.c == b.c && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2]; } };
static std::unordered_map<Key, Expr*, KH, KE> table_;
static uint32_t nextId = 1;

Expr* mkRaw(Op op, unsigned w, uint64_t c, Expr* a, Expr* b, Expr* d) {
  Key key{op, (uint16_t)w, c, {a, b, d}};
  auto it = table_.find(key);
  if (it != table_.end()) return it->second;
  Expr* e = new Expr();
  e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = nextId++; e->zb = e->zv = nullptr;
  e->undef = (op == UNDEF) || (a && a->undef) || (b && b->undef) || (d && d->undef);
  e->lo = -INFINITY; e->hi = INFINITY; e->grid = 0; e->approx = false;
  table_[key] = e; return e;
}
Expr* mkConst(uint64_t c, unsigned w) { return mkRaw(CONST, w, c & maskw(w)); }
Expr* mkUndef(unsigned w) { return mkRaw(UNDEF, w, 0); }

uint64_t evalBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w); a &= m; b &= m;
  switch (op) {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
    case SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (uint64_t)(-(uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case SREM: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (uint64_t)(sxt(a, w) >> (b >= w ? w - 1 : b)) & m;
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sxt(a, w) < sxt(b, w); case SLE: return sxt(a, w) <= sxt(b, w);
    default: throw Unsupported{"evalBin"};
  }
}
Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(evalBin(op, a->c, b->c, w), w);
  if (a->op == UNDEF || b->op == UNDEF) {
    if (op == AND && ((isC(a) && a->c == 0) || (isC(b) && b->c == 0))) return mkConst(0, w);
    return mkUndef(w);
  }
  if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR) && isC(a)) std::swap(a, b);
  uint64_t m = maskw(w);
  if (isC(b)) {
    uint64_t c = b->c;
    switch (op) {
      case ADD: if (!c) return a; if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + c, w)); break;
      case SUB: if (!c) return a; return mkBin(ADD, a, mkConst(-c, w));
      case MUL: if (c == 0) return b; if (c == 1) return a; break;
      case UDIV: case SDIV: if (c == 1) return a; break;
      case AND: if (c == 0) return b; if (c == m) return a;
        { // contiguous low mask -> zext(extract)
          if (((c + 1) & c) == 0) { unsigned n = 0; while (c >> n) n++; return mkZExt(mkExtract(a, 0, n), w); }
          if (a->op == CONCAT) { unsigned wl = a->k[1]->w; Expr* hi = mkBin(AND, a->k[0], mkConst(c >> wl, a->k[0]->w)); Expr* lo = mkBin(AND, a->k[1], mkConst(c, wl)); return mkConcat(hi, lo); }
        }
        break;
      case OR: if (c == 0) return a; if (c == m) return b; break;
      case XOR: if (c == 0) return a; if (a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->c ^ c, w)); break;
      case SHL: if (c == 0) return a; if (c >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - c), mkConst(0, c));
      case LSHR: if (c == 0) return a; if (c >= w) return mkConst(0, w); return mkZExt(mkExtract(a, c, w - c), w);
      case ASHR: if (c == 0) return a; if (c >= w) c = w - 1; return mkSExt(mkExtract(a, c, w - c), w);
      default: break;
    }
  }
  if (op == OR || op == ADD || op == XOR) { // disjoint concat/zext merging (byte assembly)
    auto lowzero = [](Expr* e) -> unsigned { return (e->op == CONCAT && isC(e->k[1]) && e->k[1]->c == 0) ? e->k[1]->w : 0; };
    auto hizero = [](Expr* e) -> unsigned { return (e->op == ZEXT) ? e->w - e->k[0]->w : (e->op == CONCAT && isC(e->k[0]) && e->k[0]->c == 0) ? e->k[0]->w : 0; };
    for (int t = 0; t < 2; t++) { unsigned lz = lowzero(a), hz = hizero(b); if (lz && hz && w - hz <= lz) { return mkConcat(a->k[0], mkExtract(b, 0, lz)); } std::swap(a, b); }
  }
  if (a == b) { if (op == SUB || op == XOR) return mkConst(0, w); if (op == AND || op == OR) return a; }
  return mkRaw(op, w, 0, a, b);
}
Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->w == 1) {
    if (a->op == XOR && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
    return mkRaw(XOR, 1, 0, a, mkConst(1, 1));
  }
  return mkBin(XOR, a, mkConst(~0ULL, a->w));
}
Expr* mkCmp(Op op, Expr* a, Expr* b) {
  if (isC(a) && isC(b)) return mkConst(evalBin(op, a->c, b->c, a->w), 1);
  if (a->op == UNDEF || b->op == UNDEF) return mkUndef(1);
  if (a == b) return mkConst(op == EQ || op == ULE || op == SLE, 1);
  if (op == EQ && isC(a)) std::swap(a, b);
  if (op == EQ && isC(b)) {
    if (a->w == 1) return b->c ? a : mkNot(a);
    if (a->op == ZEXT) { Expr* x = a->k[0]; if (b->c > maskw(x->w)) return mkConst(0, 1); return mkCmp(EQ, x, mkConst(b->c, x->w)); }
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {
      bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
      if (t && f) return mkConst(1, 1); if (!t && !f) return mkConst(0, 1); return t ? a->k[0] : mkNot(a->k[0]);
    }
    if (a->op == CONCAT && isC(a->k[0])) { unsigned wl = a->k[1]->w; if ((b->c >> wl) != a->k[0]->c) return mkConst(0, 1); return mkCmp(EQ, a->k[1], mkConst(b->c, wl)); }
    if (a->op == ADD && isC(a->k[1])) return mkCmp(EQ, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
  }
  return mkRaw(op, 1, 0, a, b);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->undef && c->op == UNDEF) return a->w ? mkUndef(a->w) : mkUndef(64);
  if (a->w == 0) {
    Expr* e = mkRaw(RITE, 0, 0, c, a, b);
    e->lo = std::min(a->lo, b->lo); e->hi = std::max(a->hi, b->hi); e->grid = std::max(a->grid, b->grid); e->approx = a->approx || b->approx; return e;
  }
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  }
  return mkRaw(ITE, a->w, 0, c, a, b);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (a->op == UNDEF) return mkUndef(w);
  if (a->op == EXTRACT) return mkExtract(a->k[0], a->c + lo, w);
  if (a->op == CONCAT) { unsigned wl = a->k[1]->w; if (lo >= wl) return mkExtract(a->k[0], lo - wl, w); if (lo + w <= wl) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - wl), mkExtract(a->k[1], lo, wl - lo)); }
  if (a->op == ZEXT) { unsigned wi = a->k[0]->w; if (lo >= wi) return mkConst(0, w); if (lo + w <= wi) return mkExtract(a->k[0], lo, w); return mkZExt(mkExtract(a->k[0], lo, wi - lo), w); }
  if (a->op == SEXT && lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
  if (lo == 0 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR)) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  return mkRaw(EXTRACT, w, lo, a);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) throw Unsupported{"concat wider than 64 bits"};
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->op == UNDEF && lo->op == UNDEF) return mkUndef(w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == EXTRACT && lo->op == CONCAT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  return mkRaw(CONCAT, w, 0, hi, lo);
}
Expr* mkZExt(Expr* a, unsigned w) { if (a->w == w) return a; if (isC(a)) return mkConst(a->c, w); if (a->op == UNDEF) return mkUndef(w); if (a->op == ZEXT) return mkZExt(a->k[0], w); return mkRaw(ZEXT, w, 0, a); }
Expr* mkSExt(Expr* a, unsigned w) { if (a->w == w) return a; if (isC(a)) return mkConst((uint64_t)sxt(a->c, a->w), w); if (a->op == UNDEF) return mkUndef(w); if (a->op == ZEXT) return mkZExt(a->k[0], w); return mkRaw(SEXT, w, 0, a); }

static int dgrid(double d) { // smallest g>=.. with d * 2^g integer
  if (d == 0) return -1000; int e; double m = frexp(d, &e); // d = m*2^e, m in [.5,1)
  int64_t k = (int64_t)ldexp(m, 53); int g = 53 - e; while (!(k & 1)) { k >>= 1; g--; } return g;
}
Expr* mkRConst(double d) {
  if (!std::isfinite(d)) throw Unsupported{"non-finite real constant"};
  if (d == 0) d = 0; // -0 and +0 coincide as reals
  Expr* e = mkRaw(RCONST, 0, bitsd(d)); e->lo = e->hi = d; e->grid = dgrid(d); return e;
}
static bool rc(Expr* e, double& d) { if (e->op == RCONST) { d = dbits(e->c); return true; } return false; }
static void fin(Expr* e, double lo, double hi, int grid, bool approx, int prec) {
  e->lo = lo; e->hi = hi; e->grid = grid; e->approx = approx;
  if (!approx && prec) { double m = std::max(fabs(lo), fabs(hi));
    bool ok = std::isfinite(m) && (m == 0 || ((double)grid + log2(m) <= prec + 1e-9)) && grid <= 120;
    if (!ok) { e->approx = true; g_inexact_ops++; } }
}
Expr* mkRBin(Op op, Expr* a, Expr* b, int prec) {
  double x, y; bool cx = rc(a, x), cy = rc(b, y);
  double lo, hi; int grid = std::max(a->grid, b->grid); bool ap = a->approx || b->approx;
  Expr* e;
  switch (op) {
    case RADD:
      if (cx && x == 0) return b; if (cy && y == 0) return a;
      if (cx && cy) return mkRConst(x + y);
      lo = a->lo + b->lo; hi = a->hi + b->hi; break;
    case RSUB:
      if (cy && y == 0) return a; if (cx && cy) return mkRConst(x - y);
      if (a == b) return mkRConst(0);
      lo = a->lo - b->hi; hi = a->hi - b->lo; break;
    case RMUL: {
      if (cx && x == 1) return b; if (cy && y == 1) return a;
      if ((cx && x == 0) || (cy && y == 0)) return mkRConst(0);
      if (cx && cy) return mkRConst(x * y);
      double p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
      lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); for (double q : p) if (std::isnan(q)) { lo = -INFINITY; hi = INFINITY; }
      grid = a->grid + b->grid; break; }
    case RDIV: {
      if (cy && y == 1) return a; if (cx && x == 0) return a;
      if (cx && cy) return mkRConst(x / y);
      if (cy && y != 0) { int ee; double m = frexp(y, &ee); if (fabs(m) == 0.5) return mkRBin(RMUL, a, mkRConst(1.0 / y), prec); }
      lo = -INFINITY; hi = INFINITY; 
      if (a->lo >= 0 && b->lo >= 0) { lo = 0; if (a->hi <= b->lo && b->lo > 0) hi = 1; }
      if (!ap) g_inexact_ops++; ap = true; break; }
    default: throw Unsupported{"mkRBin"};
  }
  if (op == RADD || op == RMUL) { if (a->id > b->id) std::swap(a, b); }
  e = mkRaw(op, 0, 0, a, b); fin(e, lo, hi, grid, ap, prec); return e;
}
Expr* mkRRound(Expr* a, int prec) {
  if (a->approx) return a; double m = std::max(fabs(a->lo), fabs(a->hi));
  if (std::isfinite(m) && (m == 0 || a->grid + log2(m) <= prec + 1e-9)) return a;
  if (a->op == RCONST) { return prec == 24 ? mkRConst((float)dbits(a->c)) : a; }
  g_inexact_ops++; a->approx = true; return a; // rounding ignored, value marked approximate
}
// exp is strictly increasing: comparing h(exp(s)) with h(exp(t)) for the same monotone h compares s with t.
static bool positive(Expr* e) { if (e->op == RCONST) return dbits(e->c) > 0; if (e->op == RUF1) return g_ufs[e->c] == "exp"; if (e->op == RADD || e->op == RMUL || e->op == RDIV) return positive(e->k[0]) && positive(e->k[1]); return false; }
static Expr* logOf(Expr* e) { if (e->op == RCONST) return dbits(e->c) == 1 ? mkRConst(0) : nullptr; if (e->op == RUF1 && g_ufs[e->c] == "exp") return e->k[0]; if (e->op == RMUL || e->op == RDIV) { Expr *x = logOf(e->k[0]), *y = x ? logOf(e->k[1]) : nullptr; return y ? mkRBin(e->op == RMUL ? RADD : RSUB, x, y, 0) : nullptr; } return nullptr; }
static bool peel(Expr*& a, Expr*& b) { // true when a and b were replaced by arguments whose order decides the order of the originals
  auto isC = [](Expr* e) { return e->op == RCONST; };
  for (int n = 0; n < 20; n++) { Expr *x = logOf(a), *y = x ? logOf(b) : nullptr; if (y && !(isC(a) || isC(b))) { a = x; b = y; return true; }
    if (a->op != b->op || (a->op != RADD && a->op != RSUB && a->op != RMUL && a->op != RDIV)) return false;
    Expr *a0 = a->k[0], *a1 = a->k[1], *b0 = b->k[0], *b1 = b->k[1]; bool flip = false;
    if ((a->op == RADD || a->op == RMUL) && isC(a1) && !isC(a0)) std::swap(a0, a1); if ((b->op == RADD || b->op == RMUL) && isC(b1) && !isC(b0)) std::swap(b0, b1);
    if (isC(a0) && a0 == b0) { double c = dbits(a0->c); if (a->op == RSUB) flip = true; else if (a->op == RMUL) { if (c == 0) return false; flip = c < 0; } else if (a->op == RDIV) { if (c == 0 || !positive(a1) || !positive(b1)) return false; flip = c > 0; } a = a1; b = b1; }
    else if (isC(a1) && a1 == b1 && (a->op == RSUB || a->op == RDIV)) { double c = dbits(a1->c); if (a->op == RDIV) { if (c == 0) return false; flip = c < 0; } a = a0; b = b0; }
    else return false;
    if (flip) std::swap(a, b); }
  return false;
}
Expr* mkRCmp(Op op, Expr* a, Expr* b) {
  if (a != b && a->op != RCONST && b->op != RCONST && a->op != RVAR && b->op != RVAR) { Expr *x = a, *y = b; if (peel(x, y)) return mkRCmp(op, x, y);
    for (int q = 0; q < 2; q++) { Expr *t = q ? b : a, *o = q ? a : b; if (t->op != RITE) continue; Expr* r[2]; bool ok = true; for (int i = 0; i < 2 && ok; i++) { Expr *x = q ? o : t->k[1 + i], *y = q ? t->k[1 + i] : o; if (x == y) r[i] = mkConst(op != RLT, 1); else if (x->op != RCONST && y->op != RCONST && peel(x, y)) r[i] = mkRCmp(op, x, y); else ok = false; } if (ok) return mkIte(t->k[0], r[0], r[1]); } }
  double x, y; if (rc(a, x) && rc(b, y)) return mkConst(op == REQ ? x == y : op == RLT ? x < y : x <= y, 1);
  if (a == b) return mkConst(op != RLT, 1);
  if (op == RLT) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
  if (op == RLE) { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
  if (op == REQ) { if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1); if (a->id > b->id) std::swap(a, b); }
  return mkRaw(op, 1, 0, a, b);
}
Expr* mkRUF(const std::string& n, Expr* a, Expr* b) {
  unsigned i = 0; for (; i < g_ufs.size(); i++) if (g_ufs[i] == n) break; if (i == g_ufs.size()) g_ufs.push_back(n);
  Expr* e = mkRaw(b ? RUF2 : RUF1, 0, i, a, b); e->approx = true;
  e->lo = -INFINITY; e->hi = INFINITY;
  if (n == "exp") { e->lo = 0; } if (n == "sqrt") { e->lo = 0; } if (n == "tanh") { e->lo = -1; e->hi = 1; } if (n == "pow" ) { if (a->lo >= 0) e->lo = 0; }
  g_inexact_ops++; return e;
}
Expr* mkRBits(Expr* r, unsigned w) { return mkRaw(RBITS, w, 0, r); }

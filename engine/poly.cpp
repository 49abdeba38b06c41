// Normal form for exact-real terms: Laurent polynomials over atoms (variables, uninterpreted applications, if-then-else, sums that are divided by).
#include "expr.h"
#include <map>
#include <memory>
typedef std::vector<std::pair<Expr*, int>> Mono;
struct MLess { bool operator()(const Mono& a, const Mono& b) const { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) { if (a[i].first->id != b[i].first->id) return a[i].first->id < b[i].first->id; if (a[i].second != b[i].second) return a[i].second < b[i].second; } return a.size() < b.size(); } };
typedef std::map<Mono, double, MLess> Poly;
typedef std::shared_ptr<Poly> PP;
struct TooHard {};
static const size_t LIM = 4000;
static std::unordered_map<Expr*, PP> memo_;
static void addTo(Poly& p, const Mono& m, double c) {
  auto it = p.find(m); if (it == p.end()) { if (p.size() > LIM) throw TooHard(); p[m] = c; return; }
  double s = it->second + c; if ((long double)it->second + (long double)c != (long double)s) throw TooHard(); if (s == 0) p.erase(it); else it->second = s;
}
static Mono mmul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first->id < b[j].first->id)) r.push_back(a[i++]); else if (i == a.size() || b[j].first->id < a[i].first->id) r.push_back(b[j++]); else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; } } return r; }
static double xmul(double a, double b) { double p = a * b; if (fma(a, b, -p) != 0) throw TooHard(); return p; }
static PP pmul(const Poly& a, const Poly& b) { auto r = std::make_shared<Poly>(); if (a.size() * b.size() > 4 * LIM) throw TooHard(); for (auto& x : a) for (auto& y : b) addTo(*r, mmul(x.first, y.first), xmul(x.second, y.second)); return r; }
static Expr* toExpr(const Poly& p) {
  Expr* s = nullptr;
  for (auto& t : p) { Expr *n = nullptr, *d = nullptr; for (auto& f : t.first) for (int k = 0; k < abs(f.second); k++) { Expr*& q = f.second > 0 ? n : d; q = q ? mkRaw(RMUL, 0, 0, q, f.first) : f.first; }
    Expr* e = mkRConst(t.second); if (n) e = mkRaw(RMUL, 0, 0, e, n); if (d) e = mkRaw(RDIV, 0, 0, e, d); s = s ? mkRaw(RADD, 0, 0, s, e) : e; }
  return s ? s : mkRConst(0);
}
static PP atom(Expr* e, int x = 1) { auto r = std::make_shared<Poly>(); (*r)[Mono{{e, x}}] = 1; return r; }
static PP konst(double c) { auto r = std::make_shared<Poly>(); if (c != 0) (*r)[Mono{}] = c; return r; }
static PP norm(Expr* e);
static PP inv(const Poly& p);
static PP inv(const Poly& p) {
  if (p.empty()) throw TooHard();
  if (p.size() == 1) { auto& t = *p.begin(); Mono m = t.first; for (auto& f : m) f.second = -f.second; auto r = std::make_shared<Poly>(); double c = 1 / t.second; int ex; if (fabs(frexp(t.second, &ex)) != 0.5) { (*r)[mmul(m, Mono{{mkRConst(fabs(t.second)), -1}})] = t.second < 0 ? -1 : 1; return r; } (*r)[m] = c; return r; }
  Mono g = p.begin()->first; for (auto& t : p) { Mono h; for (auto& f : g) { int e = 0; for (auto& q : t.first) if (q.first == f.first) e = q.second; int v = f.second > 0 ? std::min(f.second, std::max(e, 0)) : std::max(f.second, std::min(e, 0)); if (v) h.push_back({f.first, v}); } g = h; }
  if (!g.empty()) { Mono gi = g; for (auto& f : gi) f.second = -f.second; Poly q; for (auto& t : p) q[mmul(t.first, gi)] = t.second; PP r = inv(q); auto o = std::make_shared<Poly>(); for (auto& t : *r) (*o)[mmul(t.first, gi)] = t.second; return o; }
  double c = p.begin()->second; int ex; if (fabs(frexp(c, &ex)) != 0.5) c = c < 0 ? -1 : 1; Poly q; for (auto& t : p) q[t.first] = xmul(t.second, 1 / c); // canonical scale
  Expr* a = toExpr(q); auto r = atom(a, -1); r->begin()->second = 1 / c; return r;
}
static PP invE(Expr* e) { if (e->op == RMUL) return pmul(*invE(e->k[0]), *invE(e->k[1])); if (e->op == RDIV) return pmul(*invE(e->k[0]), *norm(e->k[1])); return inv(*norm(e)); }
static PP norm(Expr* e) {
  auto it = memo_.find(e); if (it != memo_.end()) { if (!it->second) throw TooHard(); return it->second; }
  memo_[e] = nullptr; PP r;
  switch (e->op) {
    case RCONST: r = konst(dbits(e->c)); break;
    case RADD: case RSUB: { PP a = norm(e->k[0]), b = norm(e->k[1]); r = std::make_shared<Poly>(*a); for (auto& t : *b) addTo(*r, t.first, e->op == RADD ? t.second : -t.second); break; }
    case RMUL: r = pmul(*norm(e->k[0]), *norm(e->k[1])); break;
    case RDIV: r = pmul(*norm(e->k[0]), *invE(e->k[1])); break;
    case RUF1: case RUF2: { Expr* a = toExpr(*norm(e->k[0])); Expr* b = e->k[1] ? toExpr(*norm(e->k[1])) : nullptr;
      if (g_ufs[e->c] == "exp") { PP p = norm(e->k[0]); r = konst(1); bool split = p->size() > 1 && p->size() <= 6; if (split) { for (auto& t : *p) { Poly q; q[t.first] = fabs(t.second); Expr* x = mkRaw(RUF1, 0, e->c, toExpr(q)); r = pmul(*r, *atom(x, t.second < 0 ? -1 : 1)); } break; } }
      r = atom(mkRaw(e->op, 0, e->c, a, b)); break; }
    default: r = atom(e); break;
  }
  memo_[e] = r; return r;
}
Expr* polyNormal(Expr* e) { try { return toExpr(*norm(e)); } catch (TooHard&) { return nullptr; } }
bool hasDiv(Expr* e) {
  static std::unordered_map<Expr*, bool> m; std::vector<Expr*> st{e};
  while (!st.empty()) { Expr* x = st.back(); if (m.count(x)) { st.pop_back(); continue; } bool r = x->op == RUF1 || x->op == RUF2 || (x->op == RDIV && x->k[1]->op != RCONST), wait = false;
    for (int i = 0; i < 3 && !r; i++) if (x->k[i]) { auto it = m.find(x->k[i]); if (it == m.end()) { st.push_back(x->k[i]); wait = true; } else r |= it->second; }
    if (wait && !r) continue; m[x] = r; st.pop_back(); }
  return m[e];
}

#include <iostream>
#include <functional>
void dumpExpr(Expr* e) { static const char* n[] = {"+", "-", "*", "/"}; std::function<void(Expr*)> f = [&](Expr* x) { if (x->op == RCONST) std::cerr << dbits(x->c); else if (x->op == RVAR) std::cerr << g_vars[x->c].name << x->c; else if (x->op >= RADD && x->op <= RDIV) { std::cerr << "("; f(x->k[0]); std::cerr << n[x->op - RADD]; f(x->k[1]); std::cerr << ")"; } else { std::cerr << "[" << (x->op == RUF1 || x->op == RUF2 ? g_ufs[x->c] : std::to_string(x->op)); for (int i = 0; i < 3; i++) if (x->k[i]) { std::cerr << " "; f(x->k[i]); } std::cerr << "]"; } }; f(e); std::cerr << "\n"; }

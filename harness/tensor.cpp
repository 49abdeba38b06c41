// Tensor containers: shape, layout, contents, ownership (owned, shadowing, memory-mapped) over every short history of operations.
#include "hx.h"
#include <fstream>
#include <fcntl.h>
#include <memory>
struct Slot { Tensor* t; int S, W, H, M; std::shared_ptr<std::vector<datum> > v; int shadow_of; bool ro; };
static Slot a[2];
static const int SH[3][4] = {{1, 2, 1, 1}, {1, 1, 2, 2}, {1, 1, 1, 4}};
static const int FSH[4] = {1, 1, 2, 1}; static datum fv[2];
static bool shadowed(int i) { return a[1 - i].shadow_of == i; }
static int count(const Slot& s) { return s.S * s.W * s.H * s.M; }
static void forget(Slot& s) { s.S = s.W = s.H = s.M = 0; s.v.reset(); s.shadow_of = -1; s.ro = false; }
static void shape(Slot& s, int S, int W, int H, int M) { s.S = S; s.W = W; s.H = H; s.M = M; }
static void check() {
  FOR(i, 2) { Slot& s = a[i]; Tensor& t = *s.t; sx_assert(t.samples() == (std::size_t)s.S && t.width() == (std::size_t)s.W && t.height() == (std::size_t)s.H && t.maps() == (std::size_t)s.M && t.elements() == (std::size_t)count(s), "dimensions of a tensor"); if (!s.v) { sx_assert(t.elements() == 0, "an empty tensor has no elements"); continue; }
    FOR(n, s.S) FOR(m, s.M) FOR(y, s.H) FOR(x, s.W) { datum want = (*s.v)[((n * s.M + m) * s.H + y) * s.W + x]; sx_assert_same(*t.data_ptr_const(x, y, m, n), want, "contents of a tensor"); } }
}
static void fill(Slot& s, const char* n) { s.v.reset(new std::vector<datum>(count(s))); FOR(i, count(s)) { (*s.v)[i] = sx_float_bits(n); (*s.t)[i] = (*s.v)[i]; } }
static bool step(int op, int i) {
  int j = 1 - i; Slot &s = a[i], &o = a[j];
  switch (op) {
    case 0: { int k = sx_choose("shape", 0, 2); int n = SH[k][0] * SH[k][1] * SH[k][2] * SH[k][3]; bool keep = s.v && n == count(s); if (!keep && shadowed(i)) return false; s.t->Resize(SH[k][0], SH[k][1], SH[k][2], SH[k][3]); if (!keep) forget(s); shape(s, SH[k][0], SH[k][1], SH[k][2], SH[k][3]); if (!keep) fill(s, "fresh"); return true; }
    case 1: { int k = sx_choose("shape", 0, 2); bool ok = s.v && SH[k][0] * SH[k][1] * SH[k][2] * SH[k][3] == count(s); sx_assert(s.t->Reshape(SH[k][0], SH[k][1], SH[k][2], SH[k][3]) == ok, "reshaping succeeds exactly for the same element count"); if (ok) shape(s, SH[k][0], SH[k][1], SH[k][2], SH[k][3]); return true; }
    case 2: { if (s.ro) return false; int n = sx_choose("sample", -1, 0); if (n >= s.S) return false; datum c = sx_float_bits("clear"); s.t->Clear(c, n); if (s.v) FOR(e, count(s)) (*s.v)[e] = c; return true; }
    case 3: { if (s.shadow_of == j) return false; Tensor* n = new Tensor(*s.t, sx_choose("intentional", 0, 1)); delete o.t; forget(o); o.t = n; shape(o, s.S, s.W, s.H, s.M); if (s.v) o.v.reset(new std::vector<datum>(*s.v)); return true; }
    case 4: { if (s.shadow_of == j) return false; if (o.shadow_of == i) { o.t->DeleteIfPossible(); forget(o); } Tensor* n = new Tensor(std::move(*s.t)); delete o.t; o = s; o.t = n; Tensor* st = s.t; forget(s); s.t = st; return true; }
    case 5: { if (s.shadow_of == j || !s.v) return false; o.t->Shadow(*s.t); shape(o, s.S, s.W, s.H, s.M); o.v = s.v; o.shadow_of = i; o.ro = s.ro; return true; }
    case 6: { if (shadowed(i)) return false; if (sx_choose("really", 0, 1)) { delete s.t; s.t = new Tensor(); } else s.t->DeleteIfPossible(); forget(s); return true; }
    case 7: { if (s.ro) return false; s.t->Transpose(); if (s.v) { std::vector<datum> old(*s.v); FOR(n, s.S) FOR(m, s.M) FOR(y, s.H) FOR(x, s.W) (*s.v)[((n * s.M + m) * s.W + x) * s.H + y] = old[((n * s.M + m) * s.H + y) * s.W + x]; std::swap(s.W, s.H); } return true; }
    case 8: case 9: { if (shadowed(i) || (op == 9 && s.ro)) return false; bool keep = op == 9 && s.v && count(s) == 2 && s.shadow_of >= 0; std::ifstream f("sx.tensors", std::ios::in | std::ios::binary); f.seekg(op == 8 ? sx_param("pos", 4060) : sx_param("pos", 4060), std::ios::beg); int fd = open("sx.tensors", O_RDONLY); s.t->Deserialize(f, false, op == 8, op == 8 ? fd : 0);
      if (keep) { FOR(e, 2) (*s.v)[e] = fv[e]; } else { forget(s); s.v.reset(new std::vector<datum>(fv, fv + 2)); s.ro = op == 8; } shape(s, FSH[0], FSH[1], FSH[2], FSH[3]); return true; }
  }
  return false;
}
static void history() {
  int pos = sx_param("pos", 4060); std::string img(pos, '\0'); for (int k = 0; k < 4; k++) { uint64_t u = FSH[k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : 3]; img.append((const char*)&u, 8); } img.append(8, '\0'); FOR(i, 2) { fv[i] = sx_float_bits("file"); memcpy(&img[pos + 32 + 4 * i], &fv[i], 4); }
  sx_file_put("sx.tensors", img.data(), img.size());
  unsigned before = sx_heap_live();
  a[0].t = new Tensor(SH[1][0], SH[1][1], SH[1][2], SH[1][3]); shape(a[0], SH[1][0], SH[1][1], SH[1][2], SH[1][3]); a[0].shadow_of = -1; a[0].ro = false; fill(a[0], "initial"); a[1].t = new Tensor(); forget(a[1]); check();
  int n = sx_param("N", 3), first = sx_param("first", -1), done = 0;
  for (int k = 0; k < n; k++) { int op = k == 0 && first >= 0 ? first : sx_choose("operation", 0, 9), i = sx_choose("slot", 0, 1); if (!step(op, i)) return; done++; check(); }
  if (a[0].shadow_of == 1) { delete a[0].t; delete a[1].t; } else { delete a[1].t; delete a[0].t; } forget(a[0]); forget(a[1]); sx_assert(sx_heap_live() == before, "memory outlives its tensor"); sx_assert(sx_mapped_pages("sx.tensors") == 0, "a memory mapping outlives its tensor"); sx_reach("history");
}
static void copies() {
  int M = sx_choose("maps", 1, 2), sw = sx_choose("src_width", 1, 3), sh = sx_choose("src_height", 1, 3), tw = sx_choose("dst_width", 1, 3), th = sx_choose("dst_height", 1, 3), tm = sx_choose("dst_maps", 1, 2); Tensor s(2, sw, sh, M), t(2, tw, th, tm); hx_bits(s, "src"); hx_bits(t, "dst"); Copy s0(s), t0(t);
  int ss = sx_choose("src_sample", 0, 2), ts = sx_choose("dst_sample", 0, 2), mode = sx_choose("whole_sample", 0, 1), sm = mode ? 0 : sx_choose("src_map", 0, M - 1), dm = mode ? 0 : sx_choose("dst_map", 0, tm - 1);
  bool ok = mode ? Tensor::CopySample(s, ss, t, ts) : Tensor::CopyMap(s, ss, sm, t, ts, dm); bool want = ss < 2 && ts < 2 && tw >= sw && th >= sh && (!mode || M == tm); sx_assert(ok == want, "copying reports exactly the possible copies");
  FOR(n, 2) FOR(m, tm) FOR(y, th) FOR(x, tw) { datum e = t0.v[((n * tm + m) * th + y) * tw + x]; if (want && n == ts && (mode || m == dm)) e = x < sw && y < sh ? s0.v[((ss * M + (mode ? m : sm)) * sh + y) * sw + x] : 0.f; sx_assert_same(hx_get(t, x, y, m, n), e, "copied samples land in place, padded with zeros, and nothing else changes"); } hx_unchanged(s0, s, "source was changed"); sx_reach("copy");
}
static void maxima() {
  int W = sx_choose("width", 1, 2), H = sx_choose("height", 1, 2), M = sx_choose("maps", 1, sx_param("M", 3)); if (W * H * M > sx_param("max", 3)) return; Tensor t(2, W, H, M); hx_fill(t, "x", -9, 9, 1); int n = sx_choose("sample", 0, 1), per = W * H * M; const datum* d = t.data_ptr_const() + n * per; std::size_t r = t.Maximum(n); sx_assert(r < (std::size_t)per, "maximum lies in the sample"); FOR(i, per) { sx_assert(d[i] <= d[r], "maximum of a sample"); if (i < (int)r) sx_assert(d[i] < d[r], "the first maximum is reported"); }
  std::size_t q = t.AbsMaximum(); sx_assert(q < t.elements(), "absolute maximum lies in the tensor"); FOR(i, t.elements()) sx_assert(std::fabs(t(i)) <= std::fabs(t(q)), "absolute maximum of a tensor");
  FOR(y, H) FOR(x, W) { std::size_t c = t.PixelMaximum(x, y, n); sx_assert(c < (std::size_t)M, "class in range"); FOR(m, M) { sx_assert(hx_get(t, x, y, m, n) <= hx_get(t, x, y, c, n), "strongest map of a pixel"); if (m < (int)c) sx_assert(hx_get(t, x, y, m, n) < hx_get(t, x, y, c, n), "the first of equally strong maps is reported"); } } sx_reach("maximum");
}
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: history(); break; case 2: copies(); break; case 3: maxima(); break; } return 0; }

// The tensor math primitives against their textbook definitions.
#include "hx.h"
static const datum* P(const Tensor& t) { return t.data_ptr_const(); }
// a matrix stored by rows, or by columns: element (r,c)
static datum el(const Tensor& t, bool cm, int r, int c, int s) { return cm ? hx_get(t, r, c, 0, s) : hx_get(t, c, r, 0, s); }
static void gemm() {
  int D = sx_param("D", 2), M = sx_choose("M", 1, D), N = sx_choose("N", 1, D), K = sx_choose("K", 1, D); bool ta = sx_choose("transpose_a", 0, 1), tb = sx_choose("transpose_b", 0, 1), cm = sx_param("colmajor", 0) ? sx_choose("column_major", 0, 1) : false;
  int ex = sx_choose("extra_stride", 0, 1), rA = ta ? K : M, cA = ta ? M : K, rB = tb ? N : K, cB = tb ? K : N, lda = (cm ? rA : cA) + ex, ldb = (cm ? rB : cB) + ex, ldc = (cm ? M : N) + ex;
  int sA = sx_choose("sample_a", 0, 1), sB = sx_choose("sample_b", 0, 1), sC = sx_choose("sample_c", 0, 1);
  Tensor A(2, lda, cm ? cA : rA, 1), B(2, ldb, cm ? cB : rB, 1), C(2, ldc, cm ? N : M, 1); hx_fill(A, "a", -4, 4); hx_fill(B, "b", -4, 4);
  float al = sx_real_f("alpha", -4, 4, 1), be; bool zero = sx_choose("beta_is_zero", 0, 1);
  if (zero) { be = 0; hx_undef(C); } else { be = sx_real_f("beta", -4, 4, 1); hx_fill(C, "c", -4, 4); }
  std::vector<datum> c0; if (!zero) c0.assign(P(C), P(C) + C.elements()); Copy a0(A), b0(B);
  TensorMath::GEMM(!cm, ta, tb, M, N, K, al, A, sA, lda, B, sB, ldb, be, C, sC, ldc);
  FOR(i, M) FOR(j, N) { double acc = 0; FOR(k, K) acc += (double)(ta ? el(A, cm, k, i, sA) : el(A, cm, i, k, sA)) * (tb ? el(B, cm, j, k, sB) : el(B, cm, k, j, sB));
    double want = al * acc; if (!zero) want += be * c0[cm ? hx_at(C, i, j, 0, sC) : hx_at(C, j, i, 0, sC)]; sx_assert_feq(el(C, cm, i, j, sC), want, "matrix product differs from the definition"); }
  if (!zero) FOR(s, 2) FOR(y, C.height()) FOR(x, ldc) if (s != sC || x >= (cm ? M : N)) sx_assert_same(hx_get(C, x, y, 0, s), c0[hx_at(C, x, y, 0, s)], "matrix product writes outside its target");
  hx_unchanged(a0, A, "left factor changed"); hx_unchanged(b0, B, "right factor changed"); sx_reach("gemm");
}
static void gemv() {
  int D = sx_param("D", 3), M = sx_choose("M", 1, D), N = sx_choose("N", 1, D); bool ta = sx_choose("transpose_a", 0, 1), cm = sx_param("colmajor", 0) ? sx_choose("column_major", 0, 1) : false; int ex = sx_choose("extra_stride", 0, 1), ix = sx_choose("inc_x", 1, 2), iy = sx_choose("inc_y", 1, 2), sA = sx_choose("sample_a", 0, 1), sX = sx_choose("sample_x", 0, 1), sY = sx_choose("sample_y", 0, 1);
  int lda = (cm ? M : N) + ex, nx = ta ? M : N, ny = ta ? N : M; // M x N is the stored matrix
  Tensor A(2, lda, cm ? N : M, 1), X(2, nx * ix, 1, 1), Y(2, ny * iy, 1, 1); hx_fill(A, "a", -4, 4); hx_fill(X, "x", -4, 4);
  float al = sx_real_f("alpha", -4, 4, 1), be; bool zero = sx_choose("beta_is_zero", 0, 1);
  std::vector<datum> y0; if (zero) { be = 0; hx_undef(Y); } else { be = sx_real_f("beta", -4, 4, 1); hx_fill(Y, "y", -4, 4); y0.assign(P(Y), P(Y) + Y.elements()); }
  Copy a0(A), x0(X); TensorMath::GEMV(!cm, ta, M, N, al, A, sA, lda, X, sX, ix, be, Y, sY, iy);
  FOR(i, ny) { double acc = 0; FOR(j, nx) acc += (double)(ta ? el(A, cm, j, i, sA) : el(A, cm, i, j, sA)) * hx_get(X, j * ix, 0, 0, sX); double want = al * acc; if (!zero) want += be * y0[hx_at(Y, i * iy, 0, 0, sY)]; sx_assert_feq(hx_get(Y, i * iy, 0, 0, sY), want, "matrix-vector product differs from the definition"); }
  if (!zero) FOR(s, 2) FOR(i, ny * iy) if (s != sY || i % iy) sx_assert_same(hx_get(Y, i, 0, 0, s), y0[hx_at(Y, i, 0, 0, s)], "matrix-vector product writes outside its target"); hx_unchanged(a0, A, "matrix changed"); hx_unchanged(x0, X, "vector changed"); sx_reach("gemv");
}
static void im2col() {
  int W = sx_param("W", 4), H = sx_param("H", 3), S = sx_param("S", 2), m = sx_choose("maps", 1, 2), kw = sx_choose("kw", 1, 3), kh = sx_choose("kh", 1, sx_param("KH", 3)), sw = sx_choose("stride_x", 1, 3), sh = sx_choose("stride_y", 1, sx_param("SH", 2)), pw = sx_choose("pad_x", 0, 2), ph = sx_choose("pad_y", 0, 2);
  if (W + 2 * pw < kw || H + 2 * ph < kh) return;
  int tw = (W + 2 * pw - kw) / sw + 1, th = (H + 2 * ph - kh) / sh + 1, tm = kw * kh * m;
  Tensor src(S, W, H, m), tgt(tm, tw, th, S);
  if (sx_param("mode", 0) == 0) { hx_fill(src, "x", -9, 9); hx_undef(tgt); Copy s0(src); TensorMath::IM2COL(src, W, H, m, S, kw, kh, sw, sh, pw, ph, tgt);
    FOR(t, tm) FOR(s, S) FOR(y, th) FOR(x, tw) { int u = t % kw, v = (t / kw) % kh, c = t / (kw * kh), ix = x * sw - pw + u, iy = y * sh - ph + v; bool in = ix >= 0 && iy >= 0 && ix < W && iy < H;
      sx_assert_same(P(tgt)[((t * S + s) * th + y) * tw + x], in ? hx_get(src, ix, iy, c, s) : 0.f, "unfolding differs from the definition"); } hx_unchanged(s0, src, "source changed"); sx_reach("im2col"); }
  else { hx_fill(tgt, "d", -9, 9); hx_undef(src); Copy t0(tgt); TensorMath::COL2IM(src, W, H, m, S, kw, kh, sw, sh, pw, ph, tgt);
    std::vector<double> acc(src.elements(), 0.0);
    FOR(t, tm) FOR(s, S) FOR(y, th) FOR(x, tw) { int u = t % kw, v = (t / kw) % kh, c = t / (kw * kh), ix = x * sw - pw + u, iy = y * sh - ph + v; if (ix >= 0 && iy >= 0 && ix < W && iy < H) acc[hx_at(src, ix, iy, c, s)] += t0.v[((t * S + s) * th + y) * tw + x]; }
    FOR(i, src.elements()) sx_assert_feq(P(src)[i], acc[i], "folding is not the adjoint of unfolding"); hx_unchanged(t0, tgt, "source changed"); sx_reach("col2im"); }
}
static void rest() {
  int op = sx_choose("operation", 0, 4), S = sx_choose("samples", 1, 3), W = sx_choose("width", 1, sx_param("WX", 3)), H = sx_choose("height", 1, sx_param("HX", 2)), m = sx_choose("maps", 1, 3);
  if (op == 0) { Tensor a(S, W, H, m); hx_fill(a, "old", -9, 9); Copy c(a); int s = sx_choose("sample", -1, S - 1); float v = sx_float_bits("value"); TensorMath::SETSAMPLE(a, s, v); FOR(i, a.elements()) sx_assert_same(P(a)[i], (s < 0 || i / (W * H * m) == s) ? v : c.v[i], "setting one sample"); sx_reach("setsample"); }
  if (op == 1) { Tensor a(m, W, H, S), b(S, W, H, m); hx_bits(a, "a"); hx_undef(b); Copy c(a); TensorMath::SMS(a, b); FOR(s, S) FOR(k, m) FOR(y, H) FOR(x, W) sx_assert_same(hx_get(b, x, y, k, s), c.v[((k * S + s) * H + y) * W + x], "swapping maps and samples"); hx_unchanged(c, a, "source changed"); sx_reach("sms"); }
  if (op == 2) { int rw = sx_choose("rw", 1, 3), rh = sx_choose("rh", 1, 3), ew = sx_choose("extra_w", 0, 1), eh = sx_choose("extra_h", 0, 1); if (S * m > 4) return; Tensor a(S, W * rw + ew * (rw - 1), H * rh + eh * (rh - 1), m), b(S, W, H, m); hx_fill(a, "a", -9, 9); hx_undef(b); float f = sx_real_f("factor", -8, 8, 2); Copy a0(a); TensorMath::DOWN(a, b, rw, rh, f); hx_unchanged(a0, a, "source changed");
    FOR(s, S) FOR(k, m) FOR(y, H) FOR(x, W) { double acc = 0; FOR(v, rh) FOR(u, rw) acc += hx_get(a, x * rw + u, y * rh + v, k, s); sx_assert_feq(hx_get(b, x, y, k, s), acc * f, "down-sampling is the scaled region sum"); } sx_reach("down"); }
  if (op == 3) { int rw = sx_choose("rw", 1, 3), rh = sx_choose("rh", 1, 3); if (S * m > 4) return; Tensor a(S, W, H, m), b(S, W * rw, H * rh, m); hx_fill(a, "a", -9, 9); hx_undef(b); float f = sx_real_f("factor", -8, 8, 2); Copy a0(a); TensorMath::UP(a, b, rw, rh, f); hx_unchanged(a0, a, "source changed"); FOR(s, S) FOR(k, m) FOR(y, H * rh) FOR(x, W * rw) sx_assert_feq(hx_get(b, x, y, k, s), (double)hx_get(a, x / rw, y / rh, k, s) * f, "up-sampling replicates the scaled value"); sx_reach("up"); }
  if (op == 4) { Tensor a(S, W, H, m), b(S, W, H, m), c(S, W, H, m); hx_fill(a, "a", -9, 9); hx_fill(b, "b", -9, 9); int al = sx_choose("alias", 0, 2); if (al == 0) hx_undef(c); Copy a0(a), b0(b); Tensor& t = al == 1 ? a : al == 2 ? b : c; TensorMath::ADD(a, b, t); FOR(i, t.elements()) sx_assert_feq(P(t)[i], (double)a0.v[i] + b0.v[i], "element-wise sum"); if (al != 1) hx_unchanged(a0, a, "source changed"); if (al != 2) hx_unchanged(b0, b, "source changed"); sx_reach("add"); }
}
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: gemm(); break; case 1: gemv(); break; case 2: im2col(); break; default: rest(); } return 0; }

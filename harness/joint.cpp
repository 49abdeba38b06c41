// Structural layers: upscale, input down-sampling, resize, sum, concatenation, gradient accumulation, spatial prior.
#include "hx.h"
static int S, W, H, M;
static void forwarded(CombinedTensor* o) { hx_undef(o->data); }
static void up() {
  int rw = sx_choose("rw", 1, 3), rh = sx_choose("rh", 1, 3); UpscaleLayer L(rw, rh); CombinedTensor* in = hx_ct(S, W, H, M); hx_fill(in->data, "x", -9, 9); hx_undef(in->delta); NetStatus st; CTV ins{in}, outs;
  sx_assert(hx_setup(L, ins, outs, &st), "upscaling accepts every input"); CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, W * rw, H * rh, M), "output shape"); forwarded(out); Copy x0(in->data); L.FeedForward();
  FOR(s, S) FOR(m, M) FOR(y, H * rh) FOR(x, W * rw) sx_assert_feq(hx_get(out->data, x, y, m, s), hx_get(in->data, x / rw, y / rh, m, s), "upscaling replicates pixels");
  hx_fill(out->delta, "d", -9, 9); Kept k{out}; L.BackPropagate(); k.check(); FOR(s, S) FOR(m, M) FOR(y, H) FOR(x, W) { double a = 0; FOR(v, rh) FOR(u, rw) a += hx_get(out->delta, x * rw + u, y * rh + v, m, s); sx_assert_feq(hx_get(in->delta, x, y, m, s), a, "upscaling gradient is the sum over the replicated pixels"); } hx_unchanged(x0, in->data, "input was changed"); sx_reach("upscale");
}
static void down() {
  int rw = sx_choose("rw", 0, 3), rh = sx_choose("rh", 0, 3); InputDownSamplingLayer L(rw, rh); CombinedTensor* in = hx_ct(S, W * 2, H * 2, M); hx_fill(in->data, "x", -9, 9); NetStatus st; CTV ins{in}, outs;
  bool ok = hx_setup(L, ins, outs, &st); sx_assert(ok == (rw && rh && (W * 2) % rw == 0 && (H * 2) % rh == 0), "accepts exactly the divisible inputs"); if (!ok) { sx_reach("down rejected"); return; } CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, W * 2 / rw, H * 2 / rh, M), "output shape"); forwarded(out); Copy x0(in->data); L.FeedForward();
  FOR(s, S) FOR(m, M) FOR(y, H * 2 / rh) FOR(x, W * 2 / rw) { double a = 0; FOR(v, rh) FOR(u, rw) a += hx_get(in->data, x * rw + u, y * rh + v, m, s); sx_assert_feq(hx_get(out->data, x, y, m, s), a * (double)(1.0f / ((float)rw * (float)rh)), "down-sampling is the region mean"); } hx_unchanged(x0, in->data, "input was changed"); sx_reach("down");
}
static void resize() {
  int bx = sx_choose("border_x", 0, 3), by = sx_choose("border_y", 0, 3); Layer* L = sx_choose("by_text", 0, 1) ? new ResizeLayer("border=" + std::to_string(bx) + "x" + std::to_string(by)) : new ResizeLayer(bx, by);
  CombinedTensor* in = hx_ct(S, W, H, M); hx_fill(in->data, "x", -9, 9); NetStatus st; CTV ins{in}, outs; sx_assert(hx_setup(*L, ins, outs, &st), "resizing accepts every input"); CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, W + bx, H + by, M), "output shape"); forwarded(out); Copy x0(in->data); L->FeedForward();
  FOR(s, S) FOR(m, M) FOR(y, H + by) FOR(x, W + bx) { int ix = x - bx / 2, iy = y - by / 2; bool inn = ix >= 0 && iy >= 0 && ix < W && iy < H; sx_assert_same(hx_get(out->data, x, y, m, s), inn ? hx_get(in->data, ix, iy, m, s) : 0.f, "resizing centres the image in a zero border"); }
  hx_fill(out->delta, "d", -9, 9); bool bp = sx_choose("backprop", 0, 1); if (bp) hx_undef(in->delta); else hx_fill(in->delta, "old", -9, 9); Copy i0(bp ? out->delta : in->delta); L->SetBackpropagationEnabled(bp); Kept k{out}; L->BackPropagate(); k.check();
  if (bp) FOR(s, S) FOR(m, M) FOR(y, H) FOR(x, W) sx_assert_same(hx_get(in->delta, x, y, m, s), hx_get(out->delta, x + bx / 2, y + by / 2, m, s), "resizing gradient is the inner part"); else hx_unchanged(i0, in->delta, "input gradient written although backpropagation is off");
  hx_unchanged(x0, in->data, "input was changed"); sx_reach("resize");
}
static void two(bool cat) {
  int S2 = sx_choose("samples_b", 1, sx_param("B", 2)), W2 = sx_choose("width_b", 1, sx_param("B", 2)), H2 = sx_choose("height_b", 1, sx_param("B", 2)), M2 = sx_choose("maps_b", 1, sx_param("B", 2));
  Layer* L = cat ? (Layer*)new ConcatenationLayer() : (Layer*)new SumLayer(); CombinedTensor *a = hx_ct(S, W, H, M), *b = hx_ct(S2, W2, H2, M2); hx_fill(a->data, "a", -9, 9); hx_fill(b->data, "b", -9, 9); hx_undef(a->delta); hx_undef(b->delta); NetStatus st; CTV ins{a, b}, outs;
  bool ok = hx_setup(*L, ins, outs, &st), fits = S == S2 && W == W2 && H == H2 && (cat || M == M2); sx_assert(ok == fits, "accepts exactly the compatible inputs"); if (!ok) { sx_reach("pair rejected"); return; }
  CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, W, H, cat ? M + M2 : M), "output shape"); forwarded(out); Copy a0(a->data), b0(b->data); L->FeedForward();
  FOR(s, S) FOR(m, out->data.maps()) FOR(y, H) FOR(x, W) { if (cat) sx_assert_same(hx_get(out->data, x, y, m, s), m < M ? hx_get(a->data, x, y, m, s) : hx_get(b->data, x, y, m - M, s), "concatenation stacks the maps"); else sx_assert_feq(hx_get(out->data, x, y, m, s), (double)hx_get(a->data, x, y, m, s) + hx_get(b->data, x, y, m, s), "sum adds element by element"); }
  hx_fill(out->delta, "d", -9, 9); Kept k{out}; L->BackPropagate(); k.check(); FOR(s, S) FOR(m, M) FOR(y, H) FOR(x, W) sx_assert_same(hx_get(a->delta, x, y, m, s), hx_get(out->delta, x, y, m, s), "gradient of the first input"); FOR(s, S) FOR(m, M2) FOR(y, H) FOR(x, W) sx_assert_same(hx_get(b->delta, x, y, m, s), hx_get(out->delta, x, y, cat ? M + m : m, s), "gradient of the second input");
  hx_unchanged(a0, a->data, "input was changed"); hx_unchanged(b0, b->data, "input was changed"); sx_reach(cat ? "concatenation" : "sum");
}
static void accumulate() {
  int n = sx_choose("outputs", 0, 3); Layer* L = sx_choose("by_text", 0, 1) ? new GradientAccumulationLayer("outputs=" + std::to_string(n)) : new GradientAccumulationLayer((unsigned)n);
  CombinedTensor* in = hx_ct(S, W, H, M); NetStatus st; CTV ins{in}, outs; sx_assert(hx_setup(*L, ins, outs, &st) && outs.size() == (std::size_t)n, "accumulation accepts every input"); hx_fill(in->data, "x", -9, 9); hx_undef(in->delta); L->FeedForward();
  FOR(k, n) { sx_assert(hx_shape(outs[k]->data, S, W, H, M), "output shape"); FOR(i, in->data.elements()) sx_assert_same(outs[k]->data.data_ptr_const()[i], in->data.data_ptr_const()[i], "every output carries the input"); hx_fill(outs[k]->delta, "d", -9, 9); }
  std::vector<Kept> kept; FOR(k, n) kept.push_back(Kept{outs[k]}); Copy x0(in->data); FOR(r, 2) { L->BackPropagate(); for (Kept& k : kept) k.check(); hx_unchanged(x0, in->data, "input was changed"); FOR(i, in->delta.elements()) { double a = 0; FOR(k, n) a += outs[k]->delta.data_ptr_const()[i]; sx_assert_feq(in->delta.data_ptr_const()[i], a, "input gradient is the sum of the output gradients"); } } sx_reach("accumulate");
}
static void prior() {
  SpatialPriorLayer L; CombinedTensor* in = hx_ct(S, W, H, M); hx_fill(in->data, "x", -9, 9); hx_undef(in->delta); NetStatus st; CTV ins{in}, outs; sx_assert(hx_setup(L, ins, outs, &st), "accepts every input"); CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, W, H, M + 2), "output shape"); forwarded(out); Copy x0(in->data); L.FeedForward();
  FOR(s, S) FOR(y, H) FOR(x, W) { sx_assert_same(hx_get(out->data, x, y, 0, s), (float)x / (float)W, "first map is the relative column"); sx_assert_same(hx_get(out->data, x, y, 1, s), (float)y / (float)H, "second map is the relative row"); FOR(m, M) sx_assert_same(hx_get(out->data, x, y, m + 2, s), hx_get(in->data, x, y, m, s), "the other maps are the input"); }
  hx_fill(out->delta, "d", -9, 9); Kept k{out}; L.BackPropagate(); k.check(); FOR(s, S) FOR(m, M) FOR(y, H) FOR(x, W) sx_assert_same(hx_get(in->delta, x, y, m, s), hx_get(out->delta, x, y, m + 2, s), "gradient passes through"); hx_unchanged(x0, in->data, "input was changed"); sx_reach("prior");
}
extern "C" int sx_main() { hx_init(); int X = sx_param("X", 2); S = sx_choose("samples", 1, X); W = sx_choose("width", 1, sx_param("WX", 3)); H = sx_choose("height", 1, sx_param("HX", 2)); M = sx_choose("maps", 1, sx_param("MX", 2));
  switch (sx_param("op", 0)) { case 0: up(); break; case 1: down(); break; case 2: resize(); break; case 3: two(false); break; case 4: two(true); break; case 5: accumulate(); break; case 6: prior(); } return 0; }

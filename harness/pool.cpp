// Max-pooling layers: output is the window maximum, the gradient goes to a maximising pixel.
#include "hx.h"
static void check(CombinedTensor* in, CombinedTensor* out, int rw, int rh, int sw, int sh, bool distinct) {
  int W = in->data.width(), H = in->data.height(), S = in->data.samples(), M = in->data.maps(), ow = out->data.width(), oh = out->data.height();
  FOR(s, S) FOR(m, M) {
    std::vector<double> sum(W * H, 0.0);
    FOR(y, oh) FOR(x, ow) {
      double mx = hx_get(in->data, x * sw, y * sh, m, s); FOR(v, rh) FOR(u, rw) { double z = hx_get(in->data, x * sw + u, y * sh + v, m, s); mx = z > mx ? z : mx; }
      sx_assert_feq(hx_get(out->data, x, y, m, s), mx, "output is not the maximum of its window"); }
  }
}
static void grad(CombinedTensor* in, CombinedTensor* out, int rw, int rh, int sw, int sh) {
  int W = in->data.width(), H = in->data.height(), S = in->data.samples(), M = in->data.maps(), ow = out->data.width(), oh = out->data.height();
  FOR(s, S) FOR(m, M) {
    double total = 0, got = 0; 
    FOR(y, oh) FOR(x, ow) total += hx_get(out->delta, x, y, m, s);
    FOR(iy, H) FOR(ix, W) { double g = hx_get(in->delta, ix, iy, m, s); got += g; double z = hx_get(in->data, ix, iy, m, s), strict = 0; bool any = false;
      FOR(y, oh) FOR(x, ow) { int u = ix - x * sw, v = iy - y * sh; if (u < 0 || v < 0 || u >= rw || v >= rh) continue; double o = hx_get(out->data, x, y, m, s); any |= z >= o; 
        bool uniq = true; FOR(b, rh) FOR(a, rw) if (a != u || b != v) uniq &= hx_get(in->data, x * sw + a, y * sh + b, m, s) < z; strict += uniq ? (double)hx_get(out->delta, x, y, m, s) : 0.0; }
      // where no window has a tie this is exactly the derivative; with ties the gradient stays on maximising pixels
      bool tie = false; FOR(y, oh) FOR(x, ow) { int u = ix - x * sw, v = iy - y * sh; if (u < 0 || v < 0 || u >= rw || v >= rh) continue; FOR(b, rh) FOR(a, rw) if (a != u || b != v) tie |= hx_get(in->data, x * sw + a, y * sh + b, m, s) == z; }
      sx_assert_feq(tie ? strict : g, strict, "gradient is not the derivative of the maximum"); 
      sx_assert(any | (g == 0), "gradient given to a pixel that is no maximum"); }
    sx_assert_feq(got, total, "gradient is not conserved"); }
}
extern "C" int sx_main() {
  hx_init();
  bool adv = sx_param("adv", 0), str = sx_param("str", 0); int W = sx_param("W", 4), H = sx_param("H", 2), S = sx_param("S", 1), M = sx_param("M", 1);
  int rw = sx_choose("rw", sx_param("RL", 0), sx_param("RW", 3)), rh = sx_choose("rh", sx_param("RL", 0), sx_param("RH", 2)), sw = rw, sh = rh; Layer* L;
  if (adv) { sw = sx_choose("sw", sx_param("RL", 0), sx_param("SW", 3)); sh = sx_choose("sh", sx_param("RL", 0), sx_param("SH", 2)); }
  if (str) { std::string c = "size=" + std::to_string(rw) + "x" + std::to_string(rh); if (adv && sx_choose("give_stride", 0, 1)) c += " stride=" + std::to_string(sw) + "x" + std::to_string(sh); else { sw = rw; sh = rh; } L = adv ? (Layer*)new AdvancedMaxPoolingLayer(c) : (Layer*)new MaxPoolingLayer(c); }
  else L = adv ? (Layer*)new AdvancedMaxPoolingLayer(rw, rh, sw, sh) : (Layer*)new MaxPoolingLayer(rw, rh);
  bool fits = rw && rh && sw && sh && (adv ? rw <= W && rh <= H : W % rw == 0 && H % rh == 0);
  CombinedTensor* in = hx_ct(S, W, H, M); hx_fill(in->data, "x", -99, 99, 2); hx_undef(in->delta); NetStatus st; CTV ins{in}, outs;
  bool ok = hx_setup(*L, ins, outs, &st); sx_assert(ok == fits, "accepts exactly the inputs its windows fit"); if (!ok) { sx_reach("rejected"); return 0; }
  CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, (W - rw) / sw + 1, (H - rh) / sh + 1, M), "output shape");
  int R = sx_param("rounds", 1); FOR(r, R) { if (r) { hx_fill(in->data, "x2", -99, 99, 2); if (sx_choose("undefined_gradient", 0, 1)) hx_undef(in->delta); }
  Copy x0(in->data); hx_undef(out->data); L->FeedForward(); check(in, out, rw, rh, sw, sh, false); 
  Copy y0(out->data); hx_fill(out->delta, "d", -9, 9); Copy d0(out->delta); L->BackPropagate(); grad(in, out, rw, rh, sw, sh);
  hx_unchanged(x0, in->data, "input was changed"); hx_unchanged(y0, out->data, "backward pass changed the output"); hx_unchanged(d0, out->delta, "backward pass changed the output gradient"); } sx_reach("pooled");
  return 0;
}

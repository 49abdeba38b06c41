// Convolution layer against its definition: forward, gradients with respect to input, kernels and bias, test-time scaling.
#include "hx.h"
static void forward(const CombinedTensor* in, const CombinedTensor* out, const CombinedTensor* w, const CombinedTensor* b, int kw, int kh, int sw, int sh, int pw, int ph, int g, double scale) {
  int W = in->data.width(), H = in->data.height(), S = in->data.samples(), im = in->data.maps(), om = out->data.maps(), ipg = im / g, opg = om / g, ow = out->data.width(), oh = out->data.height();
  FOR(s, S) FOR(o, om) FOR(y, oh) FOR(x, ow) {
    double acc = b->data.data_ptr_const()[o];
    FOR(i, ipg) FOR(v, kh) FOR(u, kw) { int ix = x * sw - pw + u, iy = y * sh - ph + v; if (ix < 0 || iy < 0 || ix >= W || iy >= H) continue;
      acc += (double)hx_get(in->data, ix, iy, (o / opg) * ipg + i, s) * w->data.data_ptr_const()[((o * ipg + i) * kh + v) * kw + u]; }
    sx_assert_feq(hx_get(out->data, x, y, o, s), acc * scale, "convolution output differs from the definition");
  }
}
static void backward(const CombinedTensor* in, const CombinedTensor* out, const CombinedTensor* w, const CombinedTensor* b, int kw, int kh, int sw, int sh, int pw, int ph, int g) {
  int W = in->data.width(), H = in->data.height(), S = in->data.samples(), im = in->data.maps(), om = out->data.maps(), ipg = im / g, opg = om / g, ow = out->data.width(), oh = out->data.height();
  FOR(o, om) FOR(i, ipg) FOR(v, kh) FOR(u, kw) { double acc = 0;
    FOR(s, S) FOR(y, oh) FOR(x, ow) { int ix = x * sw - pw + u, iy = y * sh - ph + v; if (ix < 0 || iy < 0 || ix >= W || iy >= H) continue; acc += (double)hx_get(out->delta, x, y, o, s) * hx_get(in->data, ix, iy, (o / opg) * ipg + i, s); }
    sx_assert_feq(w->delta.data_ptr_const()[((o * ipg + i) * kh + v) * kw + u], acc, "kernel gradient is not the derivative of the output"); }
  FOR(o, om) { double acc = 0; FOR(s, S) FOR(y, oh) FOR(x, ow) acc += hx_get(out->delta, x, y, o, s); sx_assert_feq(b->delta.data_ptr_const()[o], acc, "bias gradient is not the derivative of the output"); }
}
static void backward_input(const CombinedTensor* in, const CombinedTensor* out, const CombinedTensor* w, int kw, int kh, int sw, int sh, int pw, int ph, int g) {
  int W = in->data.width(), H = in->data.height(), S = in->data.samples(), im = in->data.maps(), om = out->data.maps(), ipg = im / g, opg = om / g, ow = out->data.width(), oh = out->data.height();
  FOR(s, S) FOR(i, im) FOR(iy, H) FOR(ix, W) { double acc = 0; int G = i / ipg;
    FOR(o, opg) FOR(y, oh) FOR(x, ow) { int u = ix + pw - x * sw, v = iy + ph - y * sh; if (u < 0 || v < 0 || u >= kw || v >= kh) continue; acc += (double)hx_get(out->delta, x, y, G * opg + o, s) * w->data.data_ptr_const()[(((G * opg + o) * ipg + i - G * ipg) * kh + v) * kw + u]; }
    sx_assert_feq(hx_get(in->delta, ix, iy, i, s), acc, "input gradient is not the derivative of the output"); }
}
extern "C" int sx_main() {
  hx_init();
  int W = sx_param("W", 4), H = sx_param("H", 3), S = sx_param("S", 2);
  int kw = sx_param("kw", 0) ? sx_param("kw", 0) : sx_choose("kw", 1, 3), kh = sx_choose("kh", 1, sx_param("KH", 2)), sw = sx_choose("stride_x", 1, sx_param("SW", 2)), sh = sx_choose("stride_y", 1, sx_param("SH", 2)), pw = sx_choose("pad_x", 0, sx_param("PAD", 1)), ph = sx_choose("pad_y", 0, sx_param("PAD", 1));
  int g = sx_choose("groups", sx_param("G0", 1), sx_param("G", 2)), ipg = sx_choose("in_per_group", 1, sx_param("I", 2)), opg = sx_choose("out_per_group", 1, sx_param("O", 2)), im = g * ipg, om = g * opg, mode = sx_param("mode", 0);
  bool fits = W + 2 * pw >= kw && H + 2 * ph >= kh;
  ConvolutionLayer L(kw, kh, om, sw, sh, pw, ph, g, 1, mode == 1 ? 0.25 : 0.0);
  NetStatus st; st.SetIsTesting(mode == 1);
  CombinedTensor* in = hx_ct(S, W, H, im); hx_fill(in->data, "x", -4, 4); hx_undef(in->delta);
  CTV ins{in}, outs; bool ok = hx_setup(L, ins, outs, &st);
  sx_assert(ok == fits, "accepts exactly the inputs that hold at least one kernel position"); if (!ok) { sx_reach("rejected"); return 0; }
  CombinedTensor* out = outs[0]; CombinedTensor *w = L.parameters()[0], *b = L.parameters()[1];
  sx_assert(L.parameters().size() == 2 && hx_shape(b->data, 1, om, 1, 1) && w->data.elements() == (std::size_t)om * ipg * kw * kh, "parameter shapes");
  sx_assert(hx_shape(out->data, S, (W + 2 * pw - kw) / sw + 1, (H + 2 * ph - kh) / sh + 1, om), "output shape");
  FOR(i, w->data.elements()) sx_assert(w->data(i) == 0, "kernels start at zero"); 
  hx_fill(w->data, "w", -4, 4); hx_fill(b->data, "b", -4, 4); hx_undef(out->data); hx_undef(w->delta); hx_undef(b->delta);
  Copy x0(in->data), w0(w->data), b0(b->data);
  L.FeedForward();
  forward(in, out, w, b, kw, kh, sw, sh, pw, ph, g, mode == 1 ? 0.75 : 1.0);
  sx_reach("forward");
  if (mode != 1) {
    Copy y0(out->data); hx_fill(out->delta, "d", -4, 4); Copy d0(out->delta);
    if (mode == 2) { L.SetBackpropagationEnabled(false); hx_fill(in->delta, "old", -4, 4); Copy i0(in->delta); L.BackPropagate(); backward(in, out, w, b, kw, kh, sw, sh, pw, ph, g); hx_unchanged(i0, in->delta, "input gradient written although backpropagation is off"); }
    else { L.BackPropagate(); backward(in, out, w, b, kw, kh, sw, sh, pw, ph, g); backward_input(in, out, w, kw, kh, sw, sh, pw, ph, g); }
    hx_unchanged(y0, out->data, "backward pass changed the output"); hx_unchanged(d0, out->delta, "backward pass changed the output gradient"); 
    sx_reach("backward");
    if (mode == 3) { // a second batch: nothing may be left over from the first
      hx_fill(in->data, "x2", -4, 4); L.FeedForward(); forward(in, out, w, b, kw, kh, sw, sh, pw, ph, g, 1.0); hx_fill(out->delta, "d2", -4, 4); L.BackPropagate(); backward(in, out, w, b, kw, kh, sw, sh, pw, ph, g); backward_input(in, out, w, kw, kh, sw, sh, pw, ph, g); sx_reach("second batch"); return 0; }
  }
  hx_unchanged(x0, in->data, "input was changed"); hx_unchanged(w0, w->data, "kernels were changed"); hx_unchanged(b0, b->data, "bias was changed");
  return 0;
}

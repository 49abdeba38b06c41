// Activation functions, local response normalisation and the loss layer against their closed forms.
#include "hx.h"
#define BIG sx_param("big", 0)
static void act() {
  int k = sx_choose("function", 0, 3), S = sx_choose("samples", 1, 2 + BIG), W = sx_choose("width", 1, 3 + BIG), H = sx_choose("height", 1, 2 + BIG), M = sx_choose("maps", 1, 2 + BIG); bool t = sx_choose("by_text", 0, 1);
  Layer* L = k == 0 ? (t ? new SigmoidLayer("") : new SigmoidLayer()) : k == 1 ? (Layer*)(t ? new TanhLayer("") : new TanhLayer()) : k == 2 ? (Layer*)(t ? new ReLULayer("") : new ReLULayer()) : (Layer*)(t ? new SoftmaxLayer("") : new SoftmaxLayer());
  if (k == 3 && (H > 1 || M > 1)) return; if (k == 2 && S * W * H * M > 6) return; // soft-max works on vectors
  CombinedTensor* in = hx_ct(S, W, H, M); hx_fill(in->data, "x", -8, 8, 2); hx_undef(in->delta); NetStatus st; CTV ins{in}, outs; sx_assert(hx_setup(*L, ins, outs, &st), "accepts every input"); CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, W, H, M), "output shape"); hx_undef(out->data); Copy x0(in->data);
  L->FeedForward(); const datum *x = in->data.data_ptr_const(), *y = out->data.data_ptr_const();
  FOR(i, in->data.elements()) { double want;
    if (k == 0) want = 1.0 / (1.0 + exp(-(double)x[i])); else if (k == 1) want = 1.0 - 2.0 / (exp(2.0 * (double)x[i]) + 1.0); else if (k == 2) want = x[i] > 0 ? (double)x[i] : 0.0;
    else { double sum = 0; FOR(j, W) sum += exp((double)x[(i / W) * W + j]); want = exp((double)x[i]) / sum; }
    sx_assert_feq(y[i], want, "activation differs from its definition"); }
  hx_fill(out->delta, "d", -8, 8, 2); Copy y0(out->data), d0(out->delta); L->BackPropagate(); const datum *d = out->delta.data_ptr_const(), *g = in->delta.data_ptr_const();
  FOR(i, in->data.elements()) { double want = d[i]; 
    if (k == 0) want = (double)d[i] * y[i] * (1.0 - y[i]); else if (k == 1) want = (double)d[i] * (1.0 - (double)y[i] * y[i]); else if (k == 2) want = x[i] > 0 ? (double)d[i] : 0.0;
    sx_assert_feq(g[i], want, "gradient differs from the derivative"); }
  hx_unchanged(x0, in->data, "input was changed"); hx_unchanged(y0, out->data, "output was changed"); hx_unchanged(d0, out->delta, "output gradient was changed"); sx_reach("activation");
}
static void hmax() {
  int S = sx_choose("samples", 1, 2 + BIG), W = sx_choose("width", 1, 2 + BIG), M = sx_choose("maps", 1, 2 + BIG); float mu = sx_choose("mu_is_two", 0, 1) ? 2.f : 0.5f; HMaxActivationFunction L(sx_choose("by_text", 0, 1) ? HMaxActivationFunction(mu == 2.f ? "mu=2 weight=0" : "weight=0.0 mu=0.5") : HMaxActivationFunction(mu, 0));
  CombinedTensor* in = hx_ct(S, W, 1, M); hx_fill(in->data, "x", -8, 8, 2); hx_undef(in->delta); NetStatus st; CTV ins{in}, outs; sx_assert(hx_setup(L, ins, outs, &st), "accepts every input"); CombinedTensor *out = outs[0], *w = L.parameters()[0]; sx_assert(L.parameters().size() == 1 && w->data.elements() == 2 && w->data(0) == 1 && w->data(1) == 1, "slope and offset start at one");
  hx_fill(w->data, "w", 1, 8, 1); if (sx_choose("falling", 0, 1)) w->data[0] = -w->data(0); if (sx_choose("offset_below_zero", 0, 1)) w->data[1] = -w->data(1); hx_undef(out->data); hx_undef(w->delta); const datum *x = in->data.data_ptr_const(), *y = out->data.data_ptr_const(), *d = out->delta.data_ptr_const(), *g = in->delta.data_ptr_const(); float a = w->data(0), b = w->data(1); Copy x0(in->data);
  L.FeedForward(); FOR(i, in->data.elements()) sx_assert_feq(y[i], 1.0 / (1.0 + exp(-((double)a * x[i] + b))), "h-max is a scaled sigmoid");
  hx_fill(out->delta, "d", -8, 8, 2); L.SetLocalLearningRate(0.5f); Kept k{out}; Copy w0(w->data); L.BackPropagate(); k.check(); hx_unchanged(w0, w->data, "the backward pass changed the parameters"); double da = 0, db = 0;
  FOR(i, in->data.elements()) { double m = (double)d[i] * y[i] * (1.0 - y[i]); da += m * x[i]; db += m; sx_assert_feq(g[i], m * a, "gradient differs from the derivative"); }
  sx_assert_feq(w->delta(0), 0.5 * da, "slope gradient differs from the derivative"); sx_assert_feq(w->delta(1), 0.5 * db, "offset gradient differs from the derivative"); sx_assert(L.CalculateLossFunction() == 0, "no loss"); hx_unchanged(x0, in->data, "input was changed"); sx_reach("hmax");
}
static void lrn() {
  typedef LocalResponseNormalizationLayer N; bool across = sx_param("across", 0); int S = sx_choose("samples", 1, 2), W = sx_choose("width", 1, across ? 2 : 3 + 2 * BIG), H = sx_choose("height", 1, 2 + 3 * BIG * !across), M = sx_choose("maps", 1, across ? 3 + 3 * BIG : 2), size = sx_choose("size", 1 + 3 * BIG, 3 + 3 * BIG); int bi = sx_param("beta", 3); float beta = bi * 0.25f; if (S * W * H * M > sx_param("max", 8)) return;
  float alpha = sx_real_f("alpha", 0, 8, 2); N L(size, alpha, beta, across ? N::ACROSS_CHANNELS : N::WITHIN_CHANNELS);
  CombinedTensor* in = hx_ct(S, W, H, M); hx_fill(in->data, "x", -8, 8, 2); hx_undef(in->delta); NetStatus st; CTV ins{in}, outs; sx_assert(hx_setup(L, ins, outs, &st), "accepts every input"); CombinedTensor* out = outs[0]; sx_assert(hx_shape(out->data, S, W, H, M), "output shape"); int R = sx_param("rounds", 1); FOR(r, R) { if (r) hx_fill(in->data, "x2", -8, 8, 2); hx_undef(out->data); Copy x0(in->data); L.FeedForward();
  int lo = -((size - 1) / 2), hi = size / 2; std::vector<double> g(in->data.elements(), 0.0); hx_fill(out->delta, "d", -8, 8, 2);
  FOR(s, S) FOR(m, M) FOR(y, H) FOR(x, W) { std::vector<std::size_t> nb; double sum = 0;
    if (across) { for (int k = m + lo; k <= m + hi; k++) if (k >= 0 && k < M) nb.push_back(hx_at(in->data, x, y, k, s)); } else for (int v = y + lo; v <= y + hi; v++) for (int u = x + lo; u <= x + hi; u++) if (u >= 0 && v >= 0 && u < W && v < H) nb.push_back(hx_at(in->data, u, v, m, s));
    for (std::size_t i : nb) sum += (double)x0.v[i] * x0.v[i]; double n = nb.size(), u = 1.0 + (double)alpha / n * sum, p = pow(u, beta), xi = hx_get(in->data, x, y, m, s), di = hx_get(out->delta, x, y, m, s);
    sx_assert_feq(hx_get(out->data, x, y, m, s), xi / p, "normalised value differs from the definition");
    g[hx_at(in->data, x, y, m, s)] += di / p; for (std::size_t j : nb) g[j] -= di * xi * beta * 2.0 * (double)alpha / n * x0.v[j] / (p * u); }
  Kept k{out}; L.BackPropagate(); k.check(); FOR(i, g.size()) sx_assert_feq(in->delta.data_ptr_const()[i], g[i], "gradient differs from the derivative"); hx_unchanged(x0, in->data, "input was changed"); } sx_reach("normalisation");
}
static void error() {
  float lw = sx_real_f("loss_weight", 0, 8, 1); ErrorLayer L(lw); int S = sx_choose("samples", 1, 2 + BIG), W = sx_choose("width", 1, 2 + BIG), H = sx_choose("height", 1, 2 + BIG), M = sx_choose("maps", 1, 2 + BIG);
  int what = sx_choose("shape_error", 0, 3); CombinedTensor *a = hx_ct(S, W, H, M), *b = hx_ct(S + (what == 1), W, H, M + (what == 3)), *c = hx_ct(S + (what == 2), W, H, 1); NetStatus st; CTV ins{a, b, c}, outs; bool ok = hx_setup(L, ins, outs, &st); sx_assert(ok == (what == 0), "accepts exactly matching inputs"); if (!ok) { sx_reach("rejected"); return; } sx_assert(outs.empty(), "a loss has no outputs");
  hx_fill(a->data, "x", -8, 8, 2); hx_fill(b->data, "label", -8, 8, 2); hx_fill(c->data, "weight", 0, 8, 2); hx_undef(a->delta); FOR(r, 2) { if (r) hx_fill(a->data, "x2", -8, 8, 2); Copy a0(a->data), b0(b->data), c0(c->data); L.FeedForward(); L.BackPropagate(); double sum = 0;
  FOR(s, S) FOR(m, M) FOR(y, H) FOR(x, W) { double d = (double)hx_get(a->data, x, y, m, s) - hx_get(b->data, x, y, m, s), w = (double)hx_get(c->data, x, y, 0, s) * lw; sum += d * d * w; sx_assert_feq(hx_get(a->delta, x, y, m, s), d * w, "gradient is not the derivative of the loss"); }
  sx_assert_feq(L.CalculateLossFunction(), sum * 0.5, "loss is not half the weighted squared error"); hx_unchanged(a0, a->data, "input was changed"); hx_unchanged(b0, b->data, "labels were changed"); hx_unchanged(c0, c->data, "weights were changed"); } sx_reach("loss");
}
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: act(); break; case 1: hmax(); break; case 2: lrn(); break; case 3: error(); } return 0; }

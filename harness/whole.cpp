// Whole nets of real layers: output, loss and every parameter gradient against an independent evaluation with dual numbers.
#include "hx.h"
#include "InputLayer.h"
#include <random>
struct D { double v, d; }; static D operator+(D a, D b) { return D{a.v + b.v, a.d + b.d}; } static D operator-(D a, D b) { return D{a.v - b.v, a.d - b.d}; } static D operator*(D a, D b) { return D{a.v * b.v, a.v * b.d + a.d * b.v}; } static D K(double k) { return D{k, 0}; }
struct Im { int S, W, H, M; std::vector<D> p; Im(int S = 0, int W = 0, int H = 0, int M = 0) : S(S), W(W), H(H), M(M), p(S * W * H * M, D{0, 0}) {} D& at(int x, int y, int m, int s) { return p[((s * M + m) * H + y) * W + x]; } };
enum T { IN, CONV, RELU, TANH, SIGM, POOL, APOOL, UP, RESIZE, SUM, CAT, DOWN, PRIOR, LOSS, SOFT, HMAX, LRN };
struct Nd { T t; int a, b, c, d; std::vector<int> in; Layer* l; NetGraphNode* n; };
static std::vector<Nd> G; static int S, W, H, M;
static Tensor *data, *label, *weight, *helper;
static Im img(const Tensor& t) { Im r(t.samples(), t.width(), t.height(), t.maps()); FOR(s, r.S) FOR(m, r.M) FOR(y, r.H) FOR(x, r.W) r.at(x, y, m, s) = K(hx_get(t, x, y, m, s)); return r; }
static int add(T t, std::vector<int> in, int a = 1, int b = 1, int c = 1, int d = 1) { G.push_back(Nd{t, a, b, c, d, in, nullptr, nullptr}); return G.size() - 1; }
// parameter number k of node i as a dual number, seeded where it is the one to differentiate by
static int si, sk, sp; static D par(int i, int p, int k) { const Tensor& t = G[i].l->parameters()[p]->data; return D{(double)t.data_ptr_const()[k], i == si && p == sp && k == sk ? 1.0 : 0.0}; }
static Im eval(int i, std::vector<Im>& out, D& loss) {
  Nd& n = G[i]; Im z; if (n.t == IN) return img(*data); Im& x = out[n.in[0]];
  switch (n.t) {
    case CONV: { z = Im(x.S, x.W - n.a + 1, x.H - n.b + 1, n.c); FOR(s, z.S) FOR(o, z.M) FOR(v, z.H) FOR(u, z.W) { D a = par(i, 1, o); FOR(m, x.M) FOR(q, n.b) FOR(p, n.a) a = a + par(i, 0, ((o * x.M + m) * n.b + q) * n.a + p) * x.at(u + p, v + q, m, s); z.at(u, v, o, s) = a; } return z; }
    case RELU: z = x; for (D& e : z.p) if (!(e.v > 0)) e = K(0); return z;
    case SIGM: z = x; for (D& e : z.p) { double y = 1.0 / (1.0 + exp(-e.v)); e = D{y, e.d * y * (1.0 - y)}; } return z;
    case TANH: z = x; for (D& e : z.p) { double y = 1.0 - 2.0 / (exp(2.0 * e.v) + 1.0); e = D{y, e.d * (1.0 - y * y)}; } return z;
    case POOL: case APOOL: { int sx = n.t == POOL ? n.a : n.c, sy = n.t == POOL ? n.b : n.d; z = Im(x.S, (x.W - n.a) / sx + 1, (x.H - n.b) / sy + 1, x.M); FOR(s, z.S) FOR(m, z.M) FOR(v, z.H) FOR(u, z.W) { D a = x.at(u * sx, v * sy, m, s); FOR(q, n.b) FOR(p, n.a) { D b = x.at(u * sx + p, v * sy + q, m, s); if (p || q) sx_assume(b.v != a.v); if (b.v > a.v) a = b; } z.at(u, v, m, s) = a; } return z; }
    case UP: z = Im(x.S, x.W * n.a, x.H * n.b, x.M); FOR(s, z.S) FOR(m, z.M) FOR(v, z.H) FOR(u, z.W) z.at(u, v, m, s) = x.at(u / n.a, v / n.b, m, s); return z;
    case RESIZE: z = Im(x.S, x.W + n.a, x.H + n.b, x.M); FOR(s, x.S) FOR(m, x.M) FOR(v, x.H) FOR(u, x.W) z.at(u + n.a / 2, v + n.b / 2, m, s) = x.at(u, v, m, s); return z;
    case DOWN: z = Im(x.S, x.W / n.a, x.H / n.b, x.M); FOR(s, z.S) FOR(m, z.M) FOR(v, z.H) FOR(u, z.W) { D a = K(0); FOR(q, n.b) FOR(p, n.a) a = a + x.at(u * n.a + p, v * n.b + q, m, s); z.at(u, v, m, s) = a * K(1.0 / (n.a * n.b)); } return z;
    case PRIOR: z = Im(x.S, x.W, x.H, x.M + 2); FOR(s, z.S) FOR(v, z.H) FOR(u, z.W) { z.at(u, v, 0, s) = K((double)((float)u / (float)x.W)); z.at(u, v, 1, s) = K((double)((float)v / (float)x.H)); FOR(m, x.M) z.at(u, v, m + 2, s) = x.at(u, v, m, s); } return z;
    case SUM: z = x; FOR(e, z.p.size()) z.p[e] = z.p[e] + out[n.in[1]].p[e]; return z;
    case CAT: { Im& y = out[n.in[1]]; z = Im(x.S, x.W, x.H, x.M + y.M); FOR(s, z.S) FOR(m, z.M) FOR(v, z.H) FOR(u, z.W) z.at(u, v, m, s) = m < x.M ? x.at(u, v, m, s) : y.at(u, v, m - x.M, s); return z; }
    case LOSS: { Im l = img(*label), w = img(*weight); FOR(s, x.S) FOR(m, x.M) FOR(v, x.H) FOR(u, x.W) { D e = x.at(u, v, m, s) - l.at(u, v, m, s); loss = loss + e * e * w.at(u, v, 0, s) * K(n.a * 0.25); } return z; }
    default: return z; }
}
static D run(std::vector<Im>& out) { D loss = K(0); out.clear(); FOR(i, G.size()) out.push_back(eval(i, out, loss)); return loss; }
static Layer* make(Nd& n, bool text) {
  auto xy = [](int a, int b) { return std::to_string(a) + "x" + std::to_string(b); };
  switch (n.t) { case IN: return new InputLayer(*data, *label, *helper, *weight);
    case CONV: return text ? new ConvolutionLayer("size=" + xy(n.a, n.b) + " kernels=" + std::to_string(n.c)) : new ConvolutionLayer(n.a, n.b, n.c, 1, 1, 0, 0, 1, 1);
    case RELU: return new ReLULayer(); case TANH: return new TanhLayer(); case SIGM: return new SigmoidLayer(); case POOL: return new MaxPoolingLayer(n.a, n.b); case APOOL: return new AdvancedMaxPoolingLayer(n.a, n.b, n.c, n.d); case UP: return new UpscaleLayer(n.a, n.b); case RESIZE: return new ResizeLayer(n.a, n.b); case SUM: return new SumLayer(); case CAT: return new ConcatenationLayer(); case DOWN: return new InputDownSamplingLayer(n.a, n.b); case PRIOR: return new SpatialPriorLayer(); case LOSS: return new ErrorLayer(n.a * 0.5f); default: return nullptr; }
}
static int net(int k, int C) { // returns the output node; images are W x H
  int i = add(IN, {}), a, b, c; switch (k) {
    case 0: a = add(CONV, {i}, 2, 1, C); break;
    case 1: a = add(CONV, {add(CONV, {i}, 2, 1, 2)}, 1, 2, C); break;
    case 2: c = add(CONV, {i}, 2, 1, 1); a = add(CONV, {c}, 1, 1, C); b = add(CONV, {c}, 1, 1, C); a = add(SUM, {a, b}); break; // one buffer, two consumers
    case 3: c = add(CONV, {i}, 1, 2, 1); a = add(CONV, {c}, 1, 1, 1); a = add(CAT, {a, c}); a = add(CONV, {a}, 1, 1, C); break; // skip connection
    case 4: a = add(RESIZE, {i}, 1, 0); a = add(CONV, {a}, 2, 2, 1); a = add(CONV, {add(UP, {a}, 1, 2)}, 1, 1, C); break;
    case 5: a = add(POOL, {add(CONV, {i}, 1, 1, 1)}, 2, 1); a = add(CONV, {a}, 1, 1, C); break;
    case 6: a = add(RELU, {add(CONV, {i}, 2, 2, 2)}); a = add(CONV, {a}, 1, 1, C); break;
    case 7: a = add(TANH, {add(CONV, {i}, 2, 1, 1)}); a = add(CONV, {a}, 1, 1, C); break;
    case 8: a = add(APOOL, {add(CONV, {i}, 1, 1, 1)}, 2, 1, 1, 1); a = add(CONV, {add(UP, {a}, 2, 1)}, 1, 1, C); break;
    case 9: c = add(CONV, {i}, 1, 1, C); a = add(CONV, {c}, 1, 1, C); add(LOSS, {c}, 3); break; // a second loss in the middle
    case 10: a = add(CONV, {add(PRIOR, {add(DOWN, {i}, 2, 1)})}, 1, 1, C); break;
    case 11: c = add(CONV, {i}, 1, 1, 1); a = add(CONV, {c}, 1, 1, C); b = add(CONV, {c}, 1, 1, C); a = add(SUM, {a, b}); b = add(CONV, {c}, 1, 1, C); a = add(SUM, {b, a}); break; // three consumers
    case 12: c = add(CONV, {i}, 1, 1, C); a = add(SUM, {c, c}); break; // both inputs of one layer from the same buffer
    case 13: a = add(SIGM, {add(CONV, {i}, 1, 1, C)}); break;
    default: c = add(CONV, {i}, 1, 1, 1); a = add(CONV, {add(UP, {add(POOL, {c}, 2, 1)}, 2, 1)}, 1, 1, 1); a = add(SUM, {a, c}); a = add(CONV, {a}, 1, 1, C); } // pooled and full-size branch
  return a;
}
// initial weights: uniform within +-sqrt(6 / (fan-in + fan-out)), where the fan-out is the sum of the gains of the consumers
static int gain(int i);
static int fanout(int i, int& conv) { int r = 0; conv = 0; FOR(j, G.size()) for (int k : G[j].in) if (k == i) { r += gain(j); conv++; } return r; }
static int gain(int i) { int c, f = fanout(i, c); Nd& n = G[i]; if (n.t == CONV) return n.a * n.b * (int)G[i].l->parameters()[0]->data.maps(); if (n.t == POOL || n.t == APOOL || n.t == DOWN) return f / (n.a * n.b); return f; }
static void initial(NetGraph& g) {
  FOR(round, 4) { unsigned before = sx_random_draws, n = 0; sx_random_mode = round > 1 ? round : 0; g.InitializeWeights(); sx_random_mode = 1; // rounds 2 and 3: least and largest draws
    FOR(i, G.size()) { if (G[i].t != CONV) continue; int c; double r = sqrt(6.0 / (gain(i) + fanout(i, c))); Tensor& w = G[i].l->parameters()[0]->data; Tensor& b = G[i].l->parameters()[1]->data; FOR(e, b.elements()) sx_assert(b(e) == 0, "offsets start at zero"); n += w.elements();
      FOR(e, w.elements()) { double v = w(e); sx_assert((v >= -r * 1.0001) & (v <= r * 1.0001), "initial weights lie in the range given by the fan-in and fan-out"); if (round > 1) sx_assert(round == 2 ? v <= -r * 0.99 : v >= r * 0.8, "initial weights use the whole range given by the fan-in and fan-out"); } }
    sx_assert(sx_random_draws - before == n, "every weight is drawn anew, and each on its own"); }
  sx_reach("initial"); }
// one layer alone, told about any number of consumers
static void consumers() { sx_random_mode = 1; int n = sx_choose("consumers", 0, 3), kw = sx_choose("width", 1, 2), kh = sx_choose("height", 1, 2), groups = sx_choose("groups", 1, 2), out = 0; CombinedTensor* in = new CombinedTensor(1, 5, 3, 2); in->data.Clear(0); ConvolutionLayer l(kw, kh, 2, 1, 1, 0, 0, groups); std::vector<CombinedTensor*> o; Layer& L = l; L.CreateOutputs({in}, o); L.Connect({in}, o, nullptr);
  std::vector<Layer*> next; FOR(i, n) { int k = sx_choose("kernel", 1, 3 - i); ConvolutionLayer* c = new ConvolutionLayer(k, 1, 1 + i); std::vector<CombinedTensor*> q; Layer* d = c; d->CreateOutputs(o, q); d->Connect(o, q, nullptr); next.push_back(c); out += c->Gain(); sx_assert(c->Gain() == (unsigned)k * 2, "gain of a layer"); }
  double r = sqrt(6.0 / (out + (int)l.Gain())); FOR(round, 2) { sx_random_mode = 2 + round; l.OnLayerConnect(next); Tensor& w = l.parameters()[0]->data; FOR(e, w.elements()) sx_assert(round == 0 ? (w(e) <= -r * 0.99) & (w(e) >= -r * 1.0001) : (w(e) >= r * 0.8) & (w(e) <= r * 1.0001), "the initial weights depend on all consumers"); } sx_reach("consumers"); }
extern "C" int sx_main() {
  if (sx_param("initial", 0) == 2) { hx_init(); consumers(); return 0; }
  hx_init(); sx_random_mode = 1; S = sx_param("S", 1); W = sx_param("W", 2); H = sx_param("H", 2); M = sx_param("M", 1); int k = sx_param("net", 0), C = sx_param("C", 1);
  int o = net(k, C); data = new Tensor(S, W, H, M); hx_fill(*data, "x", -2, 2); 
  { label = new Tensor(S, 1, 1, C); weight = new Tensor(S, 1, 1, 1); } // resized below
  int ow = W, oh = H; { std::vector<int> w(G.size()), h(G.size()); FOR(i, G.size()) { Nd& n = G[i]; int x = n.in.empty() ? W : w[n.in[0]], y = n.in.empty() ? H : h[n.in[0]]; if (n.t == CONV) { x -= n.a - 1; y -= n.b - 1; } if (n.t == POOL || n.t == DOWN) { x /= n.a; y /= n.b; } if (n.t == APOOL) { x = (x - n.a) / n.c + 1; y = (y - n.b) / n.d + 1; } if (n.t == UP) { x *= n.a; y *= n.b; } if (n.t == RESIZE) { x += n.a; y += n.b; } w[i] = x; h[i] = y; } ow = w[o]; oh = h[o]; }
  delete label; delete weight; label = new Tensor(S, ow, oh, C); weight = new Tensor(S, ow, oh, 1); helper = new Tensor(S, 1, 1, 1); helper->Clear(0); hx_fill(*label, "label", -2, 2); FOR(j, weight->elements()) weight->data_ptr()[j] = sx_real_f("error_weight", 0, 4);
  add(LOSS, {o}, 2); bool text = sx_choose("by_text", 0, 1); int how = sx_choose("order", 0, 1); NetGraph g;
  FOR(i, G.size()) { Nd& n = G[i]; n.l = make(n, text); n.n = new NetGraphNode(n.l); for (int j : n.in) n.n->input_connections.push_back(NetGraphConnection(G[j].n, 0, G[j].t != IN)); if (n.t == LOSS) { n.n->input_connections.push_back(NetGraphConnection(G[0].n, 1, false)); n.n->input_connections.push_back(NetGraphConnection(G[0].n, 3, false)); } n.n->is_input = n.t == IN; n.n->is_output = i == o; }
  FOR(i, G.size()) g.AddNode(G[how ? G.size() - 1 - i : i].n); g.Initialize(); if (sx_param("initial", 0)) { initial(g); return 0; } g.InitializeWeights();
  FOR(i, G.size()) for (CombinedTensor* p : G[i].l->parameters()) hx_fill(p->data, "w", -2, 2);
  FOR(round, sx_param("rounds", 2)) { if (round) { hx_fill(*data, "x2", -2, 2); if (sx_choose("new_weights", 0, 1)) FOR(i, G.size()) for (CombinedTensor* p : G[i].l->parameters()) hx_fill(p->data, "w2", -2, 2); }
    std::vector<Copy> w0; FOR(i, G.size()) for (CombinedTensor* p : G[i].l->parameters()) w0.push_back(Copy(p->data)); Copy x0(*data), l0(*label), e0(*weight);
    std::vector<Im> out; si = -1; D loss = run(out); g.FeedForward(); sx_assert_feq(g.AggregateLoss(), loss.v, "the loss of the net is the weighted squared error of its output"); const Tensor& t = g.GetDefaultOutputNode()->output_buffers[0].combined_tensor->data; Im& r = out[o]; sx_assert(hx_shape(t, r.S, r.W, r.H, r.M), "output shape of the net"); FOR(s, r.S) FOR(m, r.M) FOR(y, r.H) FOR(x, r.W) sx_assert_feq(hx_get(t, x, y, m, s), r.at(x, y, m, s).v, "the output of the net is the composition of its layers");
    g.BackPropagate(); FOR(i, G.size()) FOR(p, G[i].l->parameters().size()) { Tensor& d = G[i].l->parameters()[p]->delta; FOR(e, d.elements()) { si = i; sp = p; sk = e; std::vector<Im> u; D l = run(u); sx_assert_feq(d.data_ptr_const()[e], l.d, "the gradient of every parameter is the derivative of the loss"); } }
    int q = 0; FOR(i, G.size()) for (CombinedTensor* p : G[i].l->parameters()) hx_unchanged(w0[q++], p->data, "the passes change no parameters"); hx_unchanged(x0, *data, "the passes change no inputs"); hx_unchanged(l0, *label, "the passes change no labels"); hx_unchanged(e0, *weight, "the passes change no error weights"); }
  sx_reach("differentiated"); return 0;
}

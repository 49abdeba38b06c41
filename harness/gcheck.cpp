// The gradient check: its verdict on right and wrong derivatives, and that it leaves the net as it was.
#include "hx.h"
#include <stdexcept>
struct In : Layer, TrainingLayer { CombinedTensor* o; In() : Layer("i") { o = new CombinedTensor(1); o->data.Clear(); } bool CreateOutputs(const CTV&, CTV& out) { out.push_back(o); return true; } bool Connect(const CTV&, const CTV&, const NetStatus*) { return true; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); } void FeedForward() {} void BackPropagate() {} void SetTestingMode(bool) {} unsigned GetSamplesInTrainingSet() { return 1; } unsigned GetSamplesInTestingSet() { return 1; } unsigned GetBatchSize() { return 1; } datum GetLossSamplingProbability() { return 1; } unsigned GetLabelWidth() { return 1; } unsigned GetLabelHeight() { return 1; } };
// (a dead parameter has no influence: c and d are zero)
// adds c*p + d*p*p for each of its parameters to its input; says the derivative is `factor` times what it is
static int backs;
struct Quad : Layer { CombinedTensor *in, *out; bool unsafe = false; std::vector<datum> c, d, f; Quad() : Layer("q") {} void add(int n) { CombinedTensor* t = new CombinedTensor(1, n, 1, 1); FOR(i, n) { t->data[i] = sx_real_f("parameter", -8, 8, 1); t->delta[i] = 0; } parameters_.push_back(t); }
  bool IsNotGradientSafe() { return unsafe; } bool CreateOutputs(const CTV& i, CTV& o) { CombinedTensor* t = new CombinedTensor(1); t->data.Clear(); t->delta.Clear(); o.push_back(t); return true; } bool Connect(const CTV& i, const CTV& o, const NetStatus*) { in = i[0]; out = o[0]; return true; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
  void FeedForward() { datum a = in->data[0]; int k = 0; for (CombinedTensor* p : parameters_) FOR(e, p->data.elements()) { a += c[k] * p->data[e] + d[k] * p->data[e] * p->data[e]; k++; } out->data[0] = a; }
  void BackPropagate() { backs++; int k = 0; for (CombinedTensor* p : parameters_) FOR(e, p->data.elements()) { p->delta[e] = f[k] * (c[k] + 2 * d[k] * p->data[e]) * out->delta[0]; k++; } in->delta[0] = out->delta[0]; } };
struct Loss : Layer, LossFunctionLayer { CombinedTensor* in; datum w; Loss(datum w) : Layer("l"), w(w) {} bool CreateOutputs(const CTV&, CTV&) { return true; } bool Connect(const CTV& i, const CTV&, const NetStatus*) { in = i[0]; return true; } void FeedForward() {} datum CalculateLossFunction() { return w * in->data[0]; } void BackPropagate() { in->delta[0] = w; } };
static datum factor(int k, bool& good) { static const double F[] = {1, 0.9375, 1.125, 0.75, 1.5, 0, -1}; int q = k; good = q < 3; return F[q]; }
static void graph() {
  int shape = sx_param("shape", 0); static const int SETS[4][2] = {{1, 0}, {2, 0}, {1, 2}, {3, 1}}; int skip = sx_choose("skip", 0, 2); bool fatal = sx_choose("fatal", 0, 1); NetGraph g; In* i = new In(); NetGraphNode* prev = new NetGraphNode(i); prev->is_input = true; g.AddNode(prev); std::vector<Quad*> Q; bool fails = false; int tested = 0, verdict[3] = {0, 0, 0}; int n = 0, bad = sx_choose("where", 0, SETS[shape][0] + SETS[shape][1] - 1), what = sx_choose("factor", 0, 6), dead = what == 0 ? sx_choose("dead", 0, SETS[shape][0] + SETS[shape][1]) - 1 : -1;
  FOR(l, 2) { if (!SETS[shape][l]) continue; Quad* q = new Quad(); q->unsafe = l == 0 && SETS[shape][1] && sx_choose("unsafe", 0, 1); int k = SETS[shape][l]; if (k == 3) { q->add(1); q->add(2); } else q->add(k); int at = 0; for (CombinedTensor* p : q->parameters()) { FOR(e, p->data.elements()) { bool good; q->f.push_back(factor(n == bad ? what : 0, good)); q->c.push_back(n == dead ? 0 : sx_real_f("slope", 1, 8, 1) * (sx_choose("sign", 0, 1) ? -1 : 1)); q->d.push_back(n == bad && n != dead ? 0.25f : 0); if (!q->unsafe && e % (skip + 1) == 0) { tested++; int w = n == bad ? what : 0; verdict[w == 0 ? 0 : w < 3 ? 1 : 2]++; if (!good) fails = true; } if (n != dead) { datum s = q->c.back() + 2 * q->d.back() * p->data[e]; sx_assume((s >= 0.5) | (s <= -0.5)); } n++; } } (void)at; NetGraphNode* node = new NetGraphNode(q); node->input_connections.push_back(NetGraphConnection(prev)); node->is_output = l == 1 || !SETS[shape][1]; g.AddNode(node); Q.push_back(q); prev = node; }
  int losses = sx_choose("losses", 1, 1); FOR(k, losses) { NetGraphNode* node = new NetGraphNode(new Loss(sx_choose("weight", 1, 2))); node->input_connections.push_back(NetGraphConnection(prev)); g.AddNode(node); } sx_assert(g.IsComplete(), "complete"); g.Initialize(); std::vector<Copy> was; for (Quad* q : Q) for (CombinedTensor* p : q->parameters()) was.push_back(Copy(p->data));
  bool threw = false; sx_stdout(); try { GradientTester::TestGradient(g, skip, fatal); } catch (std::runtime_error&) { threw = true; } sx_assert(threw == (fatal && fails), "the check fails exactly if a tested derivative is wrong by a fifth or more, and it is told to fail"); std::string text(sx_stdout_get(nullptr, 0), ' '); if (!text.empty()) sx_stdout_get(&text[0], text.size()); static const char* const KIND[] = {"okay", "tolerable", "failed"}; FOR(k, 3) { std::size_t at = text.find(std::string(" tested gradients ") + KIND[k]); sx_assert(at != std::string::npos, "the verdicts are reported"); std::size_t from = text.rfind("--- ", at); long a = -1, b = -1; if (from != std::string::npos) { char* e; a = strtol(text.c_str() + from + 4, &e, 10); if (!strncmp(e, " of ", 4)) b = strtol(e + 4, nullptr, 10); } sx_assert(a == verdict[k] && b == tested, "the numbers of right, nearly right and wrong derivatives are reported"); }
  int k = 0; for (Quad* q : Q) for (CombinedTensor* p : q->parameters()) hx_unchanged(was[k++], p->data, "the parameters are restored"); sx_assert(backs == (int)Q.size(), "one backward pass"); sx_reach("graph"); }
// one layer and one set of values; up to 15 percent of the derivatives may be off
static void wl(const CTV& o) { o[0]->delta[0] = 1; } static datum cl(Layer*, const CTV& o) { return o[0]->data[0]; }
static void layer() { static const int N[] = {1, 2, 6, 7, 13, 14}; int n = N[sx_choose("n", 0, 5)], bad = sx_choose("bad", 0, 3); if (bad > n) return; Quad q; q.unsafe = sx_choose("unsafe", 0, 1); q.add(n); CTV in, out; in.push_back(hx_ct(1, 1, 1, 1)); in[0]->data.Clear(); in[0]->delta.Clear(); q.CreateOutputs(in, out); q.Connect(in, out, nullptr); FOR(i, n) { bool good; q.f.push_back(factor(i < bad ? 3 + (i + n) % 4 : i % 3, good)); q.c.push_back(sx_real_f("slope", 1, 8, 1)); q.d.push_back(0); } Copy was(q.parameters()[0]->data); CombinedTensor* p = q.parameters()[0];
  bool ok = GradientTester::DoGradientTest(&q, p->data, p->delta, out, 0.0078125f, wl, cl); bool want = q.unsafe || bad == 0 || (n - bad) * 100 > 85 * n; sx_assert(ok == want, "the check of one layer accepts exactly if more than 85 percent of its derivatives are right"); hx_unchanged(was, p->data, "the values are restored"); sx_reach("layer"); }
extern "C" int sx_main() { hx_init(); if (sx_param("op", 0) == 0) graph(); else layer(); return 0; }

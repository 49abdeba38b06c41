// Net graphs: every layer once per pass, sources first, gradients of shared outputs accumulated, whatever the graph and its order.
#include "hx.h"
#include <algorithm>
#include <set>
struct F;
static std::vector<F*> fwd, bwd, init; static std::vector<Layer*> order;
struct F : Layer { // out[b] = (b+1) * (sum_k c[k]*in[k] + p); gradients accordingly
  int id, nout; std::vector<datum> c; CTV in, out; std::vector<Layer*> next; bool flag_at_bp = false; const NetStatus* st = nullptr; CombinedTensor* p;
  F(int id, int nout) : Layer("f"), id(id), nout(nout), p(new CombinedTensor(1)) { p->data.Clear(); p->delta.Clear(); parameters_.push_back(p); }
  bool CreateOutputs(const CTV& i, CTV& o) { FOR(b, nout) { CombinedTensor* t = new CombinedTensor(1); t->data.Clear(); t->delta.Clear(); o.push_back(t); } return true; }
  bool Connect(const CTV& i, const CTV& o, const NetStatus* s) { in = i; out = o; st = s; return true; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { FOR(i, nout) b.push_back(NetGraphBuffer()); }
  void FeedForward() { fwd.push_back(this); order.push_back(this); datum a = p->data(0); FOR(k, in.size()) a += c[k] * in[k]->data(0); FOR(b, nout) out[b]->data[0] = (b + 1) * a; }
  void BackPropagate() { bwd.push_back(this); flag_at_bp = backprop_enabled_; datum a = own(); FOR(b, nout) a += (b + 1) * out[b]->delta(0); p->delta[0] = a; if (backprop_enabled_) FOR(k, in.size()) in[k]->delta[0] = c[k] * a; }
  virtual datum own() { return 0; }
  void OnLayerConnect(const std::vector<Layer*> n) { init.push_back(this); next = n; Layer::OnLayerConnect(n); }
  unsigned Gain() { return id + 1; }
};
struct FLoss : F, LossFunctionLayer { datum w; FLoss(int id, datum w) : F(id, 0), w(w) {} datum CalculateLossFunction() { datum a = p->data(0); FOR(k, in.size()) a += c[k] * in[k]->data(0); return w * a; } datum own() { return w; } };
struct FStat : F, StatLayer { bool off = false; int updates = 0, resets = 0; FStat(int id) : F(id, 0) {} void UpdateAll() { updates++; } void Print(std::string, bool) {} void Reset() { resets++; } void SetDisabled(bool d) { off = d; } };
struct FTrain : F, TrainingLayer { FTrain(int id, int n) : F(id, n) {} void SetTestingMode(bool) {} unsigned GetSamplesInTrainingSet() { return 1; } unsigned GetSamplesInTestingSet() { return 1; } unsigned GetBatchSize() { return 1; } datum GetLossSamplingProbability() { return 1; } unsigned GetLabelWidth() { return 1; } unsigned GetLabelHeight() { return 1; } };
struct E { int src, buf; bool bp; };
static std::vector<F*> L; static std::vector<NetGraphNode*> N; static std::vector<std::vector<E> > in; static int n;
static datum val(int i, int b) { datum a = L[i]->p->data(0); FOR(k, in[i].size()) a += L[i]->c[k] * val(in[i][k].src, in[i][k].buf); return (b + 1) * a; }
static datum adj(int i) { datum a = L[i]->own(); FOR(j, L.size()) FOR(k, in[j].size()) if (in[j][k].src == i && in[j][k].bp) a += (in[j][k].buf + 1) * L[j]->c[k] * adj(j); return a; } // derivative of the loss by the layer's inner sum
static int pos(const std::vector<F*>& v, F* f) { int r = -1; FOR(i, v.size()) if (v[i] == f) { sx_assert(r < 0, "every layer runs once per pass"); r = i; } return r; }
static void graph() {
  n = sx_param("N", 3); bool two = sx_param("two", 1); NetGraph g; L.push_back(new FTrain(0, 2)); in.push_back({}); 
  for (int i = 1; i <= n; i++) { std::vector<E> e; int cnt = two ? sx_choose("inputs", 1, i == 1 ? 1 : 2) : 1; FOR(k, cnt) { int s = sx_choose("source", 0, i); E x; x.src = s == 0 ? 0 : s - 1; x.buf = s == 0 ? 1 : 0; x.bp = true; e.push_back(x); } in.push_back(e); L.push_back(i == n ? new FLoss(i, sx_real_f("loss_weight", -4, 4)) : new F(i, 1)); }
  if (sx_param("extra", 0)) { E x; x.buf = 0; x.bp = true; x.src = sx_choose("second_loss_on", 1, n - 1); in.push_back({x}); L.push_back(new FLoss(n + 1, sx_real_f("loss_weight", -4, 4))); x.bp = false; x.src = sx_choose("statistic_on", 1, n - 1); in.push_back({x}); L.push_back(new FStat(n + 2)); }
  int T = L.size(); FOR(i, T) { N.push_back(new NetGraphNode(L[i])); if (i == 0) N[0]->is_input = true; if (i == n - 1) N[i]->is_output = true; L[i]->p->data[0] = sx_real_f("parameter", -4, 4); FOR(k, in[i].size()) { L[i]->c.push_back(sx_real_f("coefficient", -4, 4)); N[i]->input_connections.push_back(NetGraphConnection(N[in[i][k].src], in[i][k].buf, in[i][k].bp)); } }
  int how = sx_choose("order", 0, 2); std::vector<int> o; FOR(i, T) o.push_back(how == 0 ? i : how == 1 ? T - 1 - i : (i + 2) % T); FOR(i, T) g.AddNode(N[o[i]]);
  sx_assert(g.IsComplete(), "a graph whose connections are all valid is complete"); 
  std::set<std::string> names; FOR(i, T) names.insert(N[i]->unique_name); sx_assert(names.size() == (std::size_t)T, "nodes have distinct names");
  sx_assert(g.GetOutputNodes().size() == 1 && g.GetDefaultOutputNode() == N[n - 1] && g.GetTrainingNodes().size() == 1 && g.GetTrainingNodes()[0] == N[0] && g.GetLossNodes().size() == (sx_param("extra", 0) ? 2u : 1u) && g.GetStatNodes().size() == (sx_param("extra", 0) ? 1u : 0u), "nodes are registered by their role");
  g.Initialize(); FOR(i, T) sx_assert(L[i]->st == &g && L[i]->in.size() == in[i].size(), "every layer is connected");
  { std::vector<CombinedTensor*> ps; g.GetParameters(ps); sx_assert(ps.size() == (std::size_t)T, "parameters of every layer"); FOR(i, T) sx_assert(ps[i] == L[o[i]]->p, "parameters are listed in the order of the nodes"); }
  FOR(round, sx_param("rounds", 2)) {
    if (round) FOR(i, T) L[i]->p->data[0] = sx_real_f("parameter", -4, 4);
    fwd.clear(); bwd.clear(); g.SetIsTesting(round); sx_assert(L[0]->st->IsTesting() == (round == 1), "layers see whether the net is testing"); g.FeedForward();
    FOR(i, T) { sx_assert(pos(fwd, L[i]) >= 0, "the forward pass reaches every layer"); FOR(k, in[i].size()) { sx_assert(pos(fwd, L[in[i][k].src]) < pos(fwd, L[i]), "sources run before their consumers"); sx_assert_feq(L[i]->in[k]->data(0), val(in[i][k].src, in[i][k].buf), "a layer reads the buffer it is connected to"); } FOR(b, L[i]->nout) sx_assert_feq(L[i]->out[b]->data(0), val(i, b), "forward value"); }
    double loss = 0; FOR(i, T) if (FLoss* f = dynamic_cast<FLoss*>(L[i])) loss += val(i, 0) * f->w; sx_assert_feq(g.AggregateLoss(), loss, "the loss of a net is the sum of its loss layers");
    g.BackPropagate(); sx_assert(fwd.size() == (std::size_t)T, "the backward pass runs no forward pass");
    FOR(i, T) { sx_assert(pos(bwd, L[i]) >= 0, "the backward pass reaches every layer"); bool any = false; FOR(k, in[i].size()) { if (in[i][k].bp && in[i][k].src) { any = true; sx_assert(pos(bwd, L[in[i][k].src]) > pos(bwd, L[i]), "gradients of all consumers are ready before a layer uses them"); } } sx_assert(L[i]->flag_at_bp == any, "a layer computes input gradients exactly if one of its sources needs them"); if (i) sx_assert_feq(L[i]->p->delta(0), adj(i), "parameter gradient is the derivative of the loss"); }
  }
  init.clear(); g.InitializeWeights(); FOR(i, T) { sx_assert(pos(init, L[i]) >= 0, "weights of every layer are initialised"); if (FStat* s = dynamic_cast<FStat*>(L[i])) { g.SetStatLayersEnabled(false); sx_assert(s->off, "statistics are switched off"); g.SetStatLayersEnabled(true); sx_assert(!s->off, "statistics are switched on"); } }
  sx_reach("graph");
}
static void subset() { // running chosen nodes runs their sources and nothing else
  n = 4; NetGraph g; L.push_back(new FTrain(0, 2)); in.push_back({}); for (int i = 1; i <= n; i++) { int s = sx_choose("source", 0, i - 1); E x; x.src = s; x.buf = s == 0 ? sx_choose("buffer", 0, 1) : 0; x.bp = true; in.push_back({x}); L.push_back(i == n ? new FLoss(i, 1) : new F(i, 1)); }
  FOR(i, n + 1) { N.push_back(new NetGraphNode(L[i])); N[i]->is_input = i == 0; N[i]->is_output = i == n; FOR(k, in[i].size()) { L[i]->c.push_back(1); N[i]->input_connections.push_back(NetGraphConnection(N[in[i][k].src], in[i][k].buf)); } } bool rev = sx_choose("reverse", 0, 1); FOR(i, n + 1) g.AddNode(N[rev ? n - i : i]); g.Initialize();
  std::set<int> need, have; FOR(step, 2) { std::vector<NetGraphNode*> q; int k = sx_choose("node", 0, n); q.push_back(N[k]); std::set<int> run; for (int i = k;; i = in[i][0].src) { if (!have.count(i)) run.insert(i); if (i == 0) break; } fwd.clear(); g.FeedForward(q, false); sx_assert(fwd.size() == run.size(), "only the requested nodes and their missing sources run"); FOR(i, n + 1) sx_assert((pos(fwd, L[i]) >= 0) == (run.count(i) == 1), "exactly the requested nodes and their missing sources run"); have.insert(run.begin(), run.end()); }
  fwd.clear(); g.FeedForward(); sx_assert(fwd.size() == (std::size_t)n + 1, "a full pass runs every layer again"); sx_reach("subset");
}
static void complete() {
  NetGraph g, other; int bad = sx_choose("fault", 0, 6); F *a = new FTrain(0, 2), *b = new F(1, 1), *c = new FLoss(2, 1), *x = new F(3, 1); NetGraphNode *na = new NetGraphNode(a), *nb = new NetGraphNode(b), *nc = new NetGraphNode(c), *nx = new NetGraphNode(x); na->is_input = bad != 4; nb->is_output = bad != 5; if (bad == 6) na->is_output = true;
  int at = sx_choose("where", 0, 1), buf = sx_choose("buffer", 0, 1); bool bp = sx_choose("backprop", 0, 1); nb->input_connections.push_back(NetGraphConnection(na, buf)); nc->input_connections.push_back(NetGraphConnection(nb, 0)); NetGraphNode* t = at ? nc : nb; if (bad == 1) t->input_connections.push_back(NetGraphConnection(nullptr, 0, bp)); if (bad == 2) { other.AddNode(nx); t->input_connections.push_back(NetGraphConnection(nx, 0, bp)); } if (bad == 3) t->input_connections.push_back(NetGraphConnection(na, 2 + buf, bp));
  bool rev = sx_choose("reverse", 0, 1); g.AddNode(rev ? nc : na); g.AddNode(nb); g.AddNode(rev ? na : nc); sx_assert(g.IsComplete() == (bad == 0), "a graph is complete exactly if it has inputs, outputs and only valid connections within itself");
  sx_assert(sx_throws([&] { g.AddNode(nullptr); }), "a missing node is reported"); sx_reach("checked"); }
static void split() { // a layer with two output buffers, each of them used more than once
  n = 4; NetGraph g; L.push_back(new FTrain(0, 2)); in.push_back({}); L.push_back(new F(1, 2)); in.push_back({E{0, 0, true}}); L.push_back(new FLoss(2, 1)); in.push_back({E{1, 0, true}}); L.push_back(new FLoss(3, 2)); in.push_back({E{1, 1, true}}); FOR(i, 4) { N.push_back(new NetGraphNode(L[i])); N[i]->is_input = i == 0; N[i]->is_output = i == 1; FOR(k, in[i].size()) { L[i]->c.push_back(1); N[i]->input_connections.push_back(NetGraphConnection(N[in[i][k].src], in[i][k].buf)); } g.AddNode(N[i]); } L[0]->p->data[0] = sx_real_f("parameter", -4, 4);
  g.Initialize(); g.FeedForward(); FOR(i, 4) FOR(k, in[i].size()) sx_assert_feq(L[i]->in[k]->data(0), val(in[i][k].src, in[i][k].buf), "a layer with two used outputs: each consumer reads its own buffer"); sx_reach("split"); }
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: graph(); break; case 1: subset(); break; case 2: complete(); break; case 3: split(); break; } return 0; }

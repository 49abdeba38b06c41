// Training: the update rule, the learning rate schedule, batch accumulation, testing, and storing of parameters.
#include "hx.h"
#include <sstream>
struct TL : Layer, TrainingLayer { unsigned bs = 1, lw = 1, lh = 1, ntrain = 1, ntest = 1; datum prob = 1; bool testing = false; CombinedTensor* o; TL() : Layer("t") { o = new CombinedTensor(1); o->data.Clear(); }
  bool CreateOutputs(const CTV& i, CTV& out) { out.push_back(o); return true; } bool Connect(const CTV&, const CTV&, const NetStatus* s) { st = s; return true; } const NetStatus* st = nullptr; void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); } void FeedForward(); void BackPropagate() {}
  void SetTestingMode(bool t) { testing = t; } unsigned GetSamplesInTrainingSet() { return ntrain; } unsigned GetSamplesInTestingSet() { return ntest; } unsigned GetBatchSize() { return bs; } datum GetLossSamplingProbability() { return prob; } unsigned GetLabelWidth() { return lw; } unsigned GetLabelHeight() { return lh; } };
static int passes, backs; static bool log_testing[64], log_status[64]; static std::vector<std::vector<datum> > grads; static bool symgrads = true, bigs = false;
static long tick = 0;
void TL::FeedForward() { log_testing[passes] = testing; log_status[passes] = st->IsTesting(); passes++; if (tick) sx_clock_advance(tick); }
static datum fresh(const char* n) { return bigs ? sx_real_f(n, -8, 8, 1) : sx_real_f(n, -64, 64, 3); }
struct PL : Layer { PL() : Layer("p") {} CombinedTensor* add(int n) { CombinedTensor* t = new CombinedTensor(1, n, 1, 1); parameters_.push_back(t); return t; }
  bool CreateOutputs(const CTV& i, CTV& out) { CombinedTensor* t = new CombinedTensor(1); t->data.Clear(); t->delta.Clear(); out.push_back(t); return true; } bool Connect(const CTV&, const CTV&, const NetStatus*) { return true; } void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); } void FeedForward() {}
  void BackPropagate() { FOR(p, parameters_.size()) FOR(e, parameters_[p]->delta.elements()) parameters_[p]->delta[e] = symgrads ? fresh("gradient") : 1; } };
struct LL : Layer, LossFunctionLayer { std::vector<datum> v; datum cur = 0; std::vector<PL*> watch; LL() : Layer("l") {} bool CreateOutputs(const CTV&, CTV&) { return true; } bool Connect(const CTV&, const CTV&, const NetStatus*) { return true; } void FeedForward() { cur = sx_real_f("loss", 0, 8); v.push_back(cur); } datum CalculateLossFunction() { return cur; }
  void BackPropagate() { backs++; } };
struct SL : Layer, StatLayer { bool off = false; int updates = 0, prints = 0, seen = 0; bool training = false; SL() : Layer("s") {} bool CreateOutputs(const CTV&, CTV&) { return true; } bool Connect(const CTV&, const CTV&, const NetStatus*) { return true; } void FeedForward() { if (!off) seen++; } void BackPropagate() {} void UpdateAll() { updates++; } void Print(std::string, bool t) { prints++; training = t; } void Reset() {} void SetDisabled(bool d) { off = d; } };
struct Sink : StatSink { std::vector<StatDescriptor*> d; std::vector<std::vector<Stat> > rows; std::vector<HardcodedStats> hc; void Initialize(std::vector<StatDescriptor*>& x) { d = x; } void SetCurrentExperiment(std::string) {} void Process(HardcodedStats& h, std::vector<Stat*>& s) { hc.push_back(h); rows.push_back(std::vector<Stat>()); for (Stat* x : s) rows.back().push_back(*x); } };
static TL* T; static std::vector<PL*> P; static std::vector<LL*> Lo; static SL* St; static NetGraph* G; static std::vector<CombinedTensor*> W; // the parameters in order
static void build(int layers, const int* sets, int losses = 1) { // sets: for each layer a decimal list of element counts
  G = new NetGraph(); T = new TL(); NetGraphNode* prev = new NetGraphNode(T); prev->is_input = true; G->AddNode(prev);
  FOR(l, layers) { PL* p = new PL(); for (int s = sets[l]; s; s /= 10) W.push_back(p->add(s % 10)); NetGraphNode* n = new NetGraphNode(p); n->input_connections.push_back(NetGraphConnection(prev)); n->is_output = l == layers - 1; G->AddNode(n); P.push_back(p); prev = n; }
  FOR(l, losses) { LL* k = new LL(); NetGraphNode* n = new NetGraphNode(k); n->input_connections.push_back(NetGraphConnection(prev)); G->AddNode(n); Lo.push_back(k); } St = new SL(); NetGraphNode* n = new NetGraphNode(St); n->input_connections.push_back(NetGraphConnection(prev, 0, false)); G->AddNode(n); sx_assert(G->IsComplete(), "complete"); G->Initialize();
  for (CombinedTensor* w : W) FOR(e, w->data.elements()) w->data[e] = fresh("weight"); }
static double sgnd(double x) { return x > 0 ? 1.0 : x < 0 ? -1.0 : 0.0; }
// gradients are drawn by a driver instead of the layers, so that the order of the layers' backward passes does not matter
static std::vector<std::vector<datum> > G0; static int gi;
struct DL : PL { int base; void BackPropagate() { std::vector<datum>& g = G0[passes - 1]; int k = base; FOR(p, parameters_.size()) FOR(e, parameters_[p]->delta.elements()) parameters_[p]->delta[e] = g[k++]; } };
static void steps() {
  int qp = sx_param("quickprop", 0), shape = sx_param("shape", 0), E = sx_param("epochs", 2), I = sx_choose("iterations", qp ? 1 : 0, sx_param("iterations", 1)), SB = sx_choose("sbatch", 1, sx_param("sbatch", 2)); bigs = sx_param("nonlinear", 0);
  TrainerSettings s; s.optimization_method = qp ? QUICKPROP : GRADIENT_DESCENT; s.iterations = I; s.sbatchsize = SB; s.gamma = 1; int ex = sx_choose("exponent", 0, 1); s.exponent = -ex; 
  if (bigs) { s.learning_rate = sx_real_f("learning_rate", 1, 8, 2); s.momentum = sx_real_f("momentum", 0, 8, 3); s.l1_weight = sx_real_f("l1", 0, 8, 2); s.l2_weight = sx_real_f("l2", 0, 8, 2); s.mu = sx_real_f("mu", 4, 8, 2); }
  else { s.learning_rate = 0.5f; int m = sx_choose("momentum", 0, 1); s.momentum = m ? 0.25f : 0.f; s.l1_weight = m ? 0.5f : 0.25f; s.l2_weight = m ? 0.25f : 0.125f; s.mu = m ? 1.75f : 1.f; if (sx_param("history", 0) == 1) s.l1_weight = s.l2_weight = 0; }
  G = new NetGraph(); T = new TL(); T->bs = sx_choose("batch", 1, qp ? 1 : 2); T->lw = 1 + shape; T->lh = 2; T->ntrain = 2; T->prob = sx_choose("sampling", 0, qp ? 0 : 1) ? 0.5f : 1.f; NetGraphNode* prev = new NetGraphNode(T); prev->is_input = true; G->AddNode(prev); int k = 0; std::vector<double> llr;
  FOR(l, shape ? 2 : 1) { DL* p = new DL(); p->base = k; if (shape == 0) { W.push_back(p->add(sx_param("n", 1))); k += sx_param("n", 1); } else if (l == 0) { W.push_back(p->add(2)); k += 2; } else { W.push_back(p->add(1)); W.push_back(p->add(1)); k += 2; } datum lr = l ? 0.25f : 1.f; p->SetLocalLearningRate(lr); while ((int)llr.size() < k) llr.push_back(lr); NetGraphNode* n = new NetGraphNode(p); n->input_connections.push_back(NetGraphConnection(prev)); n->is_output = true; G->AddNode(n); prev = n; }
  LL* loss = new LL(); { NetGraphNode* n = new NetGraphNode(loss); n->input_connections.push_back(NetGraphConnection(prev)); G->AddNode(n); } sx_assert(G->IsComplete(), "complete"); G->Initialize(); static const datum some[] = {-1, 0.5f, 0, 4}; int hist = sx_param("history", 0); for (CombinedTensor* w : W) FOR(e, w->data.elements()) w->data[e] = hist == 2 ? some[sx_choose("start", 0, 3)] : fresh("weight");
  std::vector<datum> w, last(k, 0.f), slope(k, 0.f); for (CombinedTensor* t : W) FOR(e, t->data.elements()) w.push_back(t->data(e));
  static const datum shares[] = {1, 0.5f, 0, 0.75f}; int share = sx_param("ratio", 0) ? sx_choose("share", 0, 3) : 0; s.epoch_training_ratio = shares[share];
  int its = (int)((I ? I : T->ntrain) * (double)shares[share]); FOR(b, E * its * SB + 1) { std::vector<datum> g; FOR(i, k) g.push_back(hist && b < (E * its - 1) * SB ? some[hist == 3 ? (b + i) % 4 : sx_choose("earlier_gradient", 0, 3)] : fresh("gradient")); G0.push_back(g); }
  bool report = sx_param("report", 0); Sink sink; int from = report ? sx_choose("recorded_from", 0, E - 1) : E; if (report) { System::stat_aggregator->RegisterSink(&sink); tick = 250000000; }
  Trainer tr(*G, s); bool first = true; int e0 = sx_param("restart", 0) ? sx_choose("restart_at", 0, 2) : 0; if (e0) { tr.SetEpoch(e0); sx_assert(tr.epoch() == (unsigned)e0, "epoch number is set"); } backs = 0; int g = 0; if (report) System::stat_aggregator->Initialize();
  int counted = 0, rows = 0, runs = 0; double losses = 0, pixels = 0, frames = 0, cases[3] = {0, 0, 0};
  FOR(e, E) { bool snap = !qp || report ? sx_choose("snapshot", 0, 1) : false; if (e == from) System::stat_aggregator->StartRecording(); bool rec = e >= from;
    if (sx_param("restart", 0) && e == 1) { if (sx_choose("reset", 0, 1)) { tr.Reset(); FOR(i, k) last[i] = slope[i] = 0; first = true; } tr.Epoch(); } else tr.Train(1, snap);
    FOR(i, its) { double lr = ex ? 0.5 * (1 + (e0 + e) * its + i) : 0.5; if (bigs) lr = (double)s.learning_rate * (ex ? 1 + (e0 + e) * its + i : 1); std::vector<double> sum(k, 0.0); double L = 0; FOR(b, SB) { FOR(j, k) sum[j] += G0[g][j]; L += loss->v[g]; g++; }
      if (rec) { counted++; losses += L / (T->prob * (double)(T->bs * T->lw * T->lh * SB)); }
      FOR(j, k) { double d = llr[j] * (sum[j] * T->prob / (double)(T->bs * T->lw * T->lh * SB) + s.l2_weight * w[j] + s.l1_weight * sgnd(w[j])), step; int c = -1;
        if (!qp) { step = lr * d + s.momentum * last[j]; w[j] -= step; }
        else { if (first) step = -0.1f * d; else if (fabs(d) <= 1e-15f) { step = -d * lr; c = 2; } else { double diff = slope[j] - d; bool fits = fabs(d) < fabs(s.mu * diff) && sgnd(last[j]) != sgnd(diff); if (fits) { step = last[j] * d / diff; c = 1; } else { step = s.mu * last[j]; c = 0; } if (sgnd(d) == sgnd(slope[j])) step -= lr * d; } w[j] += step; slope[j] = d; }
        last[j] = step; if (c >= 0 && rec) cases[c]++; } first = false; }
    if (rec) { runs++; pixels += (double)T->bs * T->lw * T->lh * its * SB; frames += (double)T->bs * its * SB; }
    if (report && !snap && e == E - 1) System::stat_aggregator->Snapshot();
    if (rec && (snap || e == E - 1)) { rows++; sx_assert((int)sink.rows.size() == rows, "one snapshot where it was asked for"); HardcodedStats& h = sink.hc.back(); sx_assert(h.iterations == (unsigned)counted && h.weights == (unsigned)k && h.epoch == (unsigned)(e0 + e) && h.is_training, "iterations, weights and epoch are reported"); double secs = 0.25 * SB * its * runs; sx_assert(h.seconds_elapsed == secs, "recording time"); int seen = 0;
      FOR(q, sink.d.size()) { const std::string& n = sink.d[q]->description; Stat& x = sink.rows.back()[q]; int c = n == "QuickProp Case A Percentage" ? 0 : n == "QuickProp Case B Percentage" ? 1 : n == "QuickProp Case C Percentage" ? 2 : n == "QuickProp Case M Percentage" ? 3 : -1;
        if (n == "Average Aggregate Loss") { seen++; sx_assert(x.is_null == (counted == 0), "a loss is reported exactly if something was trained"); if (counted) sx_assert_feq(x.value, losses / counted, "reported training loss is the mean loss per weighted pixel"); }
        else if (c >= 0) { seen++; sx_assert(x.is_null == (!qp || counted == 0), "the decisions of QuickProp are reported exactly if it decided"); if (qp && counted) sx_assert_feq(x.value, c == 3 ? 0.0 : 100.0 * cases[c] / ((double)counted * k), "share of updates that took this kind of step"); }
        else if (n == "Pixel Throughput" || n == "Frame Rate") { seen++; sx_assert(!x.is_null, "speed is reported"); if (counted) sx_assert_feq(x.value, (n == "Frame Rate" ? frames : pixels) / secs, "speed is the work done per second of recording"); } }
      sx_assert(seen == 7, "everything is reported"); counted = runs = 0; losses = pixels = frames = 0; cases[0] = cases[1] = cases[2] = 0; }
    else if (report) sx_assert((int)sink.rows.size() == rows, "no snapshot unless recording and asked for");
    int j = 0; for (CombinedTensor* t : W) FOR(q, t->data.elements()) { sx_assert_feq(t->data(q), w[j], "weight differs from the documented update rule"); j++; } }
  sx_assert(passes == E * its * SB && backs == passes, "one forward and one backward pass per batch"); FOR(i, passes) sx_assert(!log_testing[i] && !log_status[i], "training runs in training mode"); sx_assert(tr.epoch() == (unsigned)(e0 + E), "epochs are counted"); sx_reach("trained");
}
static void rate() { int sets[] = {1}; build(1, sets); TrainerSettings s; s.learning_rate = sx_real_f("learning_rate", 0, 64, 4); s.gamma = sx_real_f("gamma", 0, 64, 4); int q = sx_choose("exponent", 0, 8); s.exponent = q * 0.25f; Trainer tr(*G, s); int a = sx_choose("iteration", 0, 2), it = a == 0 ? 0 : a == 1 ? 1 : 1000; double x = 1.0 + (double)s.gamma * it, got = tr.CalculateLR(it);
  double r = pow(x, -(double)s.exponent); sx_assert_feq(got, s.learning_rate * r, "learning rate follows its schedule"); sx_assert(tr.CalculateLR(0) == s.learning_rate, "the schedule starts at the learning rate"); sx_reach("rate"); }
static void test() {
  int sets[] = {12, 1}; build(2, sets, sx_param("losses", 2)); symgrads = false; T->bs = sx_choose("batch", 1, 2); T->ntest = sx_choose("testing", 0, 4); T->lw = 2; T->ntrain = 1; TrainerSettings s; s.iterations = 1; s.sbatchsize = sx_param("train", 1) ? sx_choose("sbatch", 1, 2) : 1; int r = sx_choose("ratio", 0, 2); s.testing_ratio = r * 0.5f; s.epoch_training_ratio = 1; s.stats_during_training = sx_param("train", 1) ? sx_choose("statistics", 0, 1) : 1; T->prob = 0.5f;
  Sink k; System::stat_aggregator->RegisterSink(&k); Trainer tr(*G, s); System::stat_aggregator->Initialize(); bool rec = sx_param("recording", 1); if (rec) System::stat_aggregator->StartRecording();
  bool train = sx_param("train", 1), snap = train && sx_choose("snapshot", 0, 1); int p0 = 0, SB = s.sbatchsize, EP = snap ? sx_choose("epochs", 1, 2) : 1; if (train) { tr.Train(EP, snap); sx_assert(passes == SB * EP, "passes"); p0 = passes; sx_assert(!St->off, "statistics are on after training"); sx_assert(St->seen == (s.stats_during_training ? SB * EP : 0) && St->updates == (s.stats_during_training ? EP : 0) && St->prints == St->updates && (!St->updates || St->training), "statistics are gathered in training exactly if wanted"); }
  if (train && snap) { sx_assert((int)k.rows.size() == (rec ? EP : 0), "one snapshot per epoch"); FOR(e, (int)k.rows.size()) { double l = 0; FOR(n, Lo.size()) FOR(i, SB) l += Lo[n]->v[e * SB + i]; double units = 0.5 * 2 * T->bs * SB; bool found = false; FOR(d, k.d.size()) if (k.d[d]->description == "Average Aggregate Loss") { found = true; sx_assert(!k.rows[e][d].is_null, "loss is reported"); sx_assert_feq(k.rows[e][d].value, l / units, "reported training loss is the loss per weighted pixel"); } sx_assert(found && k.hc[e].iterations == 1 && k.hc[e].weights == 4 && k.hc[e].epoch == (unsigned)e && k.hc[e].is_training, "hardcoded statistics of an epoch"); } }
  std::vector<Copy> w0; for (CombinedTensor* w : W) w0.push_back(Copy(w->data)); int b0 = backs, u0 = St->updates; tr.Test(); int want = (T->ntest / T->bs + 1) * r / 2;
  sx_assert(passes - p0 == want && backs == b0, "testing runs forward over the share of the testing set, and never backward"); for (int i = p0; i < passes; i++) sx_assert(log_testing[i] && log_status[i], "testing runs in testing mode"); sx_assert(!T->testing, "training mode is restored after testing"); FOR(i, W.size()) hx_unchanged(w0[i], W[i]->data, "testing changed a weight"); sx_assert(St->updates == u0 + 1 && !St->training, "statistics are updated once per test");
  if (rec) { System::stat_aggregator->Snapshot(); double l = 0; bool old = train && !snap; int n = want + (old ? 1 : 0); FOR(m, Lo.size()) FOR(i, want) l += Lo[m]->v[p0 + i] / (2.0 * T->bs); if (old) FOR(m, Lo.size()) FOR(i, SB) l += Lo[m]->v[i] / (2.0 * T->bs * SB * 0.5); FOR(d, k.d.size()) { Stat& x = k.rows.back()[d]; if (k.d[d]->description == "Average Aggregate Loss") { sx_assert(x.is_null == (n == 0), "loss is reported exactly if something ran"); if (n) sx_assert_feq(x.value, l / n, "reported testing loss is the mean loss per pixel"); } } sx_assert(k.hc.back().iterations == (unsigned)n, "iterations are counted"); sx_assert(k.hc.back().weights == 4 && !k.hc.back().is_training && k.hc.back().epoch == (unsigned)(train ? EP - 1 : 0), "hardcoded statistics of a test"); }
  int b1 = passes; tr.Train(1, false); for (int i = b1; i < passes; i++) sx_assert(!log_testing[i] && !log_status[i], "training after testing runs in training mode"); sx_reach("tested"); }
static void ctor() { NetGraph g; bool t = sx_choose("training", 0, 1), l = sx_choose("loss", 0, 1); PL* p = new PL(); NetGraphNode* n = new NetGraphNode(p); if (t) { NetGraphNode* x = new NetGraphNode(new TL()); x->is_input = true; g.AddNode(x); n->input_connections.push_back(NetGraphConnection(x)); } g.AddNode(n); if (l) { NetGraphNode* x = new NetGraphNode(new LL()); x->input_connections.push_back(NetGraphConnection(n)); g.AddNode(x); } TrainerSettings s; sx_assert(sx_throws([&] { Trainer tr(g, s); }) == !(t && l), "a trainer needs a training layer and a loss"); sx_reach("constructed"); }
static void store() { // parameters come back into the layers they belong to
  int shape = sx_choose("shape", 0, 2); int sets[2][3][3] = {{{12, 2, 0}, {1, 21, 3}, {0, 2, 1}}, {{}}}; int L = shape == 0 ? 2 : 3; build(L, sets[0][shape]); std::vector<CombinedTensor*> W1 = W; std::vector<PL*> P1 = P; NetGraph* G1 = G; for (CombinedTensor* w : W1) hx_bits(w->data, "bits"); std::vector<Copy> w1; for (CombinedTensor* w : W1) w1.push_back(Copy(w->data));
  std::ostringstream os; G1->SerializeParameters(os); FOR(i, W1.size()) hx_unchanged(w1[i], W1[i]->data, "storing changes parameters"); std::string all = os.str(); std::size_t len = 0; for (CombinedTensor* w : W1) len += 32 + 4 * w->data.elements(); sx_assert(all.size() == len, "stored form has one record per parameter");
  W.clear(); P.clear(); build(L, sets[0][shape]); for (CombinedTensor* w : W) hx_bits(w->data, "old_bits"); std::vector<Copy> w2; for (CombinedTensor* w : W) w2.push_back(Copy(w->data)); std::vector<Copy> d2; for (CombinedTensor* w : W) { hx_bits(w->delta, "delta"); d2.push_back(Copy(w->delta)); }
  int have = sx_choose("stored_records", 0, W1.size()); std::size_t cut = 0; FOR(i, have) cut += 32 + 4 * W1[i]->data.elements(); std::istringstream is(all.substr(0, cut)); int last = sx_choose("last_layer", 0, L + 3); int nodes = L + 3; (void)nodes; G->DeserializeParameters(is, last); int lim = last == 0 || last >= L + 3 ? 1000 : last; // node 0 is the input, layer l is node l + 1
  int i = 0; FOR(l, L) FOR(p, P[l]->parameters().size()) { if (i < have && l + 1 <= lim) hx_unchanged(w1[i], W[i]->data, "a stored parameter comes back bit for bit"); else hx_unchanged(w2[i], W[i]->data, "parameters that are not loaded stay as they are"); hx_unchanged(d2[i], W[i]->delta, "gradients stay as they are"); sx_assert(hx_shape(W[i]->data, 1, W1[i]->data.width(), 1, 1), "shape"); i++; } sx_reach("stored"); }
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: steps(); break; case 1: rate(); break; case 2: test(); break; case 3: ctor(); break; case 4: store(); break; } return 0; }

// Statistics: the aggregator's state machine, the CSV writer, binary and multi-class metrics.
#include "hx.h"
#include <sstream>
struct Sink : StatSink { std::vector<StatDescriptor*> d; int inits = 0; std::vector<std::string> names; std::vector<std::vector<Stat> > rows; std::vector<HardcodedStats> hc; void Initialize(std::vector<StatDescriptor*>& x) { d = x; inits++; } void SetCurrentExperiment(std::string n) { names.push_back(n); }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) { hc.push_back(h); rows.push_back(std::vector<Stat>()); for (Stat* x : s) rows.back().push_back(*x); } };
static StatDescriptor* desc(const char* n, double start) { StatDescriptor* d = new StatDescriptor; d->description = n; d->init_function = [start](Stat& s) { s.is_null = true; s.value = start; }; d->update_function = [](Stat& s, double v) { s.is_null = false; s.value += v; }; return d; }
static void machine() {
  StatAggregator a; Sink k[2]; StatDescriptor* d[3] = {desc("A", 0), desc("B", 3), desc("C", 5)}; int nd = sx_choose("registered", 0, 2), ns = sx_choose("sinks", 1, 2); d[0]->output_function = [](HardcodedStats& h, Stat& s) { Stat r = s; r.value = 2 * s.value + (double)h.weights; return r; };
  FOR(i, nd) { sx_assert(a.RegisterStat(d[i]) == (unsigned)i && d[i]->stat_id == (unsigned)i, "statistics are numbered in the order of registration"); } FOR(i, ns) sx_assert(a.RegisterSink(&k[i]) == (unsigned)i, "sinks are numbered");
  int state = 0, inits = 0; std::size_t rows = 0, names = 0; double val[3] = {0, 3, 5}, start[3] = {0, 3, 5}, elapsed = 0, since = 0; bool null[3] = {true, true, true}; std::string name = "unnamed"; int first = sx_param("first", -1), started = sx_param("started", 0);
  FOR(step, sx_param("N", 4)) { int op = started && step < 2 ? step : step == (started ? 2 : 0) && first >= 0 ? first : sx_choose("operation", 0, 7); bool row = false; sx_clock_advance(500000000L); since += 0.5;
    if (op == 0) { a.Initialize(); if (state == 0) { state = 1; inits++; names++; } }
    else if (op == 1) { a.StartRecording(); if (state == 1) { state = 2; since = 0; } }
    else if (op == 2) { a.StopRecording(); if (state == 2) { state = 1; elapsed += since; } }
    else if (op == 3) { a.Reset(); if (state == 1) { elapsed = 0; FOR(i, nd) { val[i] = start[i]; null[i] = true; } } }
    else if (op == 4) { int id = sx_choose("id", 0, 3); double v = sx_real("value", -8, 8, 2); a.Update(id == 3 ? 4000000000u : id, v); if (state == 2 && id < nd) { val[id] += v; null[id] = false; } }
    else if (op == 5) { a.Snapshot(); if (state == 2) { row = true; elapsed += since; } }
    else if (op == 6) { a.Generate(); row = state != 0; }
    else if (op == 7) { if (sx_choose("late", 0, 1)) { if (nd < 3) { sx_assert(a.RegisterStat(d[nd]) == (unsigned)nd, "number of a late statistic"); nd++; } } else { a.SetCurrentExperiment("next"); if (state == 1) { name = "next"; names++; } } }
    if (row) rows++;
    FOR(s, ns) { sx_assert(k[s].inits == inits && k[s].rows.size() == rows && k[s].names.size() == names, "every sink hears of every initialisation, snapshot and experiment exactly once"); if (names) sx_assert(k[s].names.back() == name, "name of the experiment");
      if (row) { std::vector<Stat>& r = k[s].rows.back(); sx_assert(r.size() == (std::size_t)nd, "a snapshot holds every statistic"); FOR(i, nd) { sx_assert(r[i].is_null == null[i], "a statistic is null exactly if it was never updated"); sx_assert_feq(r[i].value, i == 0 ? 2 * val[i] : val[i], "a snapshot holds what was recorded"); } HardcodedStats& h = k[s].hc.back(); sx_assert_feq(h.seconds_elapsed, elapsed, "recording time"); sx_assert(h.iterations == 0 && h.weights == 0 && h.current_experiment == name, "hardcoded statistics"); } }
    if (op == 5 && state == 2) { FOR(i, nd) { val[i] = start[i]; null[i] = true; } elapsed = 0; since = 0; } }
  sx_reach("history"); }
static std::string content(const char* f) { long n = sx_file_size(f); if (n < 0) return "-"; std::string s(n, ' '); if (n) sx_file_get(f, &s[0], n); return s; }
static void csv() { // header and one row per snapshot, one file per experiment
  int nd = sx_choose("statistics", 0, 2); std::vector<StatDescriptor*> d; std::string head = "IsTraining,Epoch,Iterations,SecondsElapsed,"; FOR(i, nd) { StatDescriptor* x = new StatDescriptor; std::string kept; int len = i == 0 ? 3 : 1; FOR(c, len) { char ch = (char)sx_u8("letter"); sx_assume(ch > 0); x->description += ch; bool keep = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'); if (keep) kept += ch; } head += kept; if (i + 1 < nd) head += ","; d.push_back(x); } head += "\n";
  bool dir = sx_choose("directory_exists", 0, 1); if (dir) sx_dir_put("csv"); HardcodedStats h; h.is_training = sx_choose("training", 0, 1); h.epoch = 12; h.iterations = 345; h.seconds_elapsed = 2.5; static const double V[4] = {0, -1.5, 1024, 0.1}; static const char* VT[4] = {"0", "-1.5", "1024", "0.1"}; std::vector<Stat*> s; std::string row = std::string(h.is_training ? "1" : "0") + ",12,345,2.5,"; FOR(i, nd) { Stat* x = new Stat; int v = sx_choose("value", 0, 4); x->is_null = v == 4; if (v < 4) { x->value = V[v]; row += VT[v]; } else x->value = 7; if (i + 1 < nd) row += ","; s.push_back(x); } row += "\n";
  { CSVStatSink k; k.Initialize(d); k.Process(h, s); k.SetCurrentExperiment("one"); int rows = sx_choose("rows", 0, 2); FOR(i, rows) k.Process(h, s); if (sx_choose("second", 0, 1)) { k.SetCurrentExperiment("two"); k.Process(h, s); if (dir) sx_assert(content("csv/two.csv") == head + row, "each experiment has its own file"); } if (dir) { std::string want = head; FOR(i, rows) want += row; sx_assert(content("csv/one.csv") == want, "header and one row per snapshot"); } else sx_assert(content("csv/one.csv") == "-", "nothing to write to"); }
  sx_reach("written"); }
static const Stat& stat(Sink& k, const char* n) { FOR(i, k.d.size()) if (k.d[i]->description == n) return k.rows.back()[i]; sx_assert(false, "statistic is registered"); return k.rows.back()[0]; }
static void report(Sink& k, const char* n, double want, bool null) { const Stat& s = stat(k, n); sx_assert(s.is_null == null, "a statistic is reported exactly if it is defined"); if (!null) sx_assert_feq(s.value, want, "statistic differs from its definition"); }
static void binary() {
  int T = sx_choose("thresholds", 1, 3); BinaryStatLayer L(T, -1.f, 1.f); Sink k; System::stat_aggregator->RegisterSink(&k); System::stat_aggregator->Initialize(); int n = sx_param("n", 2), S = sx_choose("samples", 1, n == 2 ? 2 : 1); if (n % S) return; CombinedTensor *a = hx_ct(S, n / S, 1, 1), *b = hx_ct(S, n / S, 1, 1), *w = hx_ct(S, n / S, 1, 1); CTV in{a, b, w}, out; NetStatus st; sx_assert(hx_setup(L, in, out, &st), "accepted"); System::stat_aggregator->StartRecording();
  double tp[3] = {}, fp[3] = {}, tn[3] = {}, fn[3] = {}; int batches = sx_param("batches", 2); FOR(r, batches) { FOR(i, n) { a->data[i] = sx_real_f("output", -6, 6, 2); b->data[i] = sx_real_f("label", -1, 1); w->data[i] = sx_choose("weight", 0, sx_param("w", 1)) * 2; }
    bool off = sx_param("off", 0) && sx_choose("disabled", 0, 1); L.SetDisabled(off); bool reset = sx_param("off", 0) && r == 1 && sx_choose("reset", 0, 1); if (reset) { System::stat_aggregator->StopRecording(); System::stat_aggregator->Reset(); System::stat_aggregator->StartRecording(); FOR(t, 3) tp[t] = fp[t] = tn[t] = fn[t] = 0; }
    Copy ca(a->data), cb(b->data), cw(w->data); L.FeedForward(); hx_unchanged(ca, a->data, "input changed"); hx_unchanged(cb, b->data, "input changed"); hx_unchanged(cw, w->data, "input changed"); if (off) continue; FOR(t, T) { double th = T == 1 ? 0 : -1 + 2.0 * t / (T - 1); FOR(i, n) { bool p = a->data(i) > th, e = b->data(i) > 0; (p ? (e ? tp : fp) : (e ? fn : tn))[t] += w->data(i); } } }
  L.UpdateAll(); System::stat_aggregator->StopRecording(); System::stat_aggregator->Generate(); double best = -2; int bt = 0; FOR(t, T) { double f = tp[t] + fp[t] > 0 && tp[t] + fn[t] > 0 ? 2 * tp[t] / (2 * tp[t] + fp[t] + fn[t]) : -1; if (f > best + 1e-6) { best = f; bt = t; } }
  double P = tp[bt], Q = fp[bt], R = tn[bt], N = fn[bt]; report(k, "False Positive Rate", 100 * Q / (Q + R), Q + R == 0); report(k, "False Negative Rate", 100 * N / (P + N), P + N == 0); report(k, "Precision", 100 * P / (P + Q), P + Q == 0); report(k, "Recall", 100 * P / (P + N), P + N == 0); report(k, "Accuracy", 100 * (P + R) / (P + Q + R + N), P + Q + R + N == 0); report(k, "F1 Value", 100 * best, best < 0); sx_reach("binary"); }
static void binary_shape() { BinaryStatLayer L; int c = sx_choose("mismatch", 0, 4); CombinedTensor *a = hx_ct(2, 2, 1, 1), *b = c == 1 ? hx_ct(2, 1, 1, 1) : hx_ct(2, 2, 1, 1), *w = c == 2 ? hx_ct(1, 2, 1, 1) : c == 3 ? hx_ct(2, 1, 1, 1) : hx_ct(2, 2, 1, 1); CTV in{a, b, c == 4 ? nullptr : w}, out; sx_assert(L.CreateOutputs(in, out) == (c == 0), "inputs are accepted exactly if they match"); sx_assert(sx_throws([] { BinaryStatLayer x(0, 0, 1); }), "no thresholds is an error"); sx_reach("binary shape"); }
static void confusion() {
  int C = sx_choose("classes", 2, sx_param("C", 3)); std::vector<std::string> names; FOR(c, C) names.push_back(c ? "a class with a long name" : "b"); ConfusionMatrixLayer L(names, C); Sink k; System::stat_aggregator->RegisterSink(&k); int S = sx_param("S", 1), W = sx_param("W", 1); CombinedTensor *a = hx_ct(S, W, 1, C), *b = hx_ct(S, W, 1, C), *w = hx_ct(S, W, 1, 1); CTV in{a, b, w}, out; NetStatus st; bool early = sx_choose("initialised_early", 0, 1); if (early) System::stat_aggregator->Initialize(); sx_assert(hx_setup(L, in, out, &st), "accepted"); if (!early) System::stat_aggregator->Initialize(); System::stat_aggregator->StartRecording(); 
  double m[3][3] = {}, total = 0; FOR(r, sx_param("batches", 2)) { FOR(i, S * W) w->data[i] = sx_choose("weight", 0, 1) * (r ? 2 : 0.25f); FOR(s, S) FOR(x, W) { int lab = sx_choose("label", 0, C - 1); FOR(c, C) { hx_ref(a->data, x, 0, c, s) = sx_real_f("output", -3, 3, 0); hx_ref(b->data, x, 0, c, s) = c == lab; } }
    bool off = sx_param("off", 0) && sx_choose("disabled", 0, 1); L.SetDisabled(off); if (sx_param("off", 0) && r == 1 && sx_choose("reset", 0, 1)) { System::stat_aggregator->StopRecording(); System::stat_aggregator->Reset(); System::stat_aggregator->StartRecording(); FOR(i, 3) FOR(j, 3) m[i][j] = 0; total = 0; }
    Copy ca(a->data), cb(b->data), cw(w->data); L.FeedForward(); hx_unchanged(ca, a->data, "input changed"); hx_unchanged(cb, b->data, "input changed"); hx_unchanged(cw, w->data, "input changed"); if (off) continue; FOR(s, S) FOR(x, W) { int p = 0, e = 0; FOR(c, C) { if (hx_get(a->data, x, 0, c, s) > hx_get(a->data, x, 0, p, s)) p = c; if (hx_get(b->data, x, 0, c, s) > hx_get(b->data, x, 0, e, s)) e = c; } double v = hx_get(w->data, x, 0, 0, s); m[p][e] += v; total += v; } }
  L.UpdateAll(); System::stat_aggregator->StopRecording(); System::stat_aggregator->Generate(); double right = 0, sum = 0, iou = 0; int cnt = 0; FOR(c, C) { double col = 0, row = 0; FOR(j, C) { col += m[j][c]; row += m[c][j]; } right += m[c][c]; if (col > 0) { sum += m[c][c] / col; cnt++; } if (col + row - m[c][c] > 0) iou += m[c][c] / (col + row - m[c][c]); }
  report(k, "Overall Recognition Rate", 100 * right / total, total == 0); report(k, "Average Recognition Rate", 100 * sum / (cnt ? cnt : 1), total == 0); report(k, "Average Intersection over Union", 100 * iou / C, total == 0); L.Print("x", sx_choose("training", 0, 1)); sx_reach("confusion"); }
static void confusion_shape() { std::vector<std::string> names{"a", "b"}; ConfusionMatrixLayer L(names, 2); int c = sx_choose("mismatch", 0, 8); CombinedTensor *a = c == 1 ? hx_ct(1, 2, 1, 1) : c == 2 ? hx_ct(1, 1, 2, 2) : c == 8 ? hx_ct(1, 2, 1, 3) : hx_ct(1, 2, 1, 2), *b = c == 3 ? hx_ct(1, 4, 1, 1) : c == 4 ? hx_ct(2, 2, 1, 2) : c == 8 ? hx_ct(1, 2, 1, 3) : hx_ct(1, 2, 1, 2), *w = c == 5 ? hx_ct(1, 1, 1, 1) : c == 6 ? hx_ct(2, 2, 1, 1) : hx_ct(1, 2, 1, 1); CTV in{a, b, c == 7 ? nullptr : w}, out; sx_assert(L.CreateOutputs(in, out) == (c == 0), "inputs are accepted exactly if they match"); sx_reach("confusion shape"); }
extern "C" int sx_main() { hx_init(); switch (sx_param("op", 0)) { case 0: machine(); break; case 1: csv(); break; case 2: binary(); break; case 3: binary_shape(); break; case 4: confusion(); break; case 5: confusion_shape(); break; } return 0; }
